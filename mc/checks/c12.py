"""C12: OUTCAR symmetry, elastic, magnetization and timing results are the ones printed."""
import io

from parsevasp.outcar import Outcar

from mc.core import Program, Violation
from mc.models import outcar as M
from mc.obs import LOGGER, attempt, need

PROPERTY = 'C12'
BOUNDS = ('every combination of sections (symmetry static/dynamic with 1/4 primitive cells, three elastic kinds and a decoy, magnetization tables of 1..3 atoms x s..spdf x directions x 1..3 repetitions, '
          'electron lines with 0/1/3 components, memory and timing in three version styles) with at most 2 (quick) / 3 (thorough) deviations; each file also cut after every line')
ORACLE = 'numbers are put into the text by construction; every line carries its effect on the expected result, so the expectation at every cut is known'


def gen(ctx):
    ions = ctx.free('ions', [1, 2, 3])
    nat = ctx.free('atoms', [1, 2, 3])
    comps = ctx.free('comps', ['', 'x', 'xyz'])
    orbs = ctx.choose('orbs', ['spd', 's', 'sp', 'spdf'])
    tables = ctx.choose('tables', ['each', 'last', 'first', 'twice'])
    sym = ctx.choose('symmetry', ['both', 'none', 'static', 'dynamic-last', 'twice'])
    prim = ctx.choose('primitive', [1, 4, 12])
    cell = ctx.choose('cell', ['face centered cubic supercell.', 'Simple Cubic supercell.', 'triclinic supercell.'])
    elastic = ctx.choose('elastic', [('non_symmetrized', 'symmetrized', 'ionic', 'total'), (), ('non_symmetrized',), ('ionic',), ('total', 'ionic'), ('symmetrized', 'non_symmetrized'),
                                     ('non_symmetrized', 'symmetrized', 'total', 'non_symmetrized', 'total')])
    el = ctx.choose('electrons', [(0.5,), (), (1.25, -2.5, 0.125), None, (0.0,), (0.0, 0.0, 0.0), 'then-zero', 'then-none', (199.1234567, -19.7654321, 0.0)])
    end = ctx.choose('ending', ['5', '6', '7', 'nomem', 'none'])
    big = ctx.choose('seed', [1, 12, 0, 250])
    trail = ctx.choose('trail', [0, 1, 5, 20])
    return ions, nat, comps, orbs, tables, sym, prim, cell, elastic, el, end, big, trail


def build(case):
    ions, nat, comps, orbs, tables, sym, prim, cell, elastic, el, end, big, trail = case
    lines = M.header(10, 2, 60, 16)
    for ion in range(1, ions + 1):
        if sym in ('both', 'static', 'twice'):
            lines += M.symmetry(48 // ion, cell, 'static', prim if ion == 1 else 1)
            if sym == 'twice':
                lines += M.symmetry(47, 'simple tetragonal supercell.', 'static')
        if sym in ('both', 'twice') or (sym == 'dynamic-last' and ion == ions):
            lines += M.symmetry(8 * ion, 'body centered tetragonal supercell.', 'dynamic', prim if ion == 2 else 1)
        for step in (1, 2):
            lines += M.iteration(ion, step)
            if isinstance(el, str):
                late = ion == ions and step == 2
                lines += M.electrons(() if late and el == 'then-none' else (0.0, 0.0, 0.0) if late else (1.5, -0.25, 0.5))
            elif el is not None:
                lines += M.electrons(tuple(round(v * (ion + step), 7) for v in el))
        lines += M.loop_end(True)
        reps = {'each': 1, 'last': int(ion == ions), 'first': int(ion == 1), 'twice': 2}[tables]
        for rep in range(reps):
            for c, comp in enumerate(comps):
                lines += M.magnetization(comp, nat, orbs, big * (3 * ion + rep) + 7 * c)
    for i, kind in enumerate(elastic):
        lines += M.elastic(kind, i * big)
    if end != 'none':
        lines += M.ending({'6': 6, '7': 7}.get(end, 5), memory=end != 'nomem', seed=big, trail=trail)
    return lines


def check(text, st, what):
    out = attempt(Outcar, file_handler=io.StringIO(text), logger=LOGGER)
    if out[0] != 'ok':
        raise Violation('accept', '%s: %s' % (what, tuple(out)))
    obj = out[1]
    need('symmetry', st['sym'], obj.get_symmetry(), what + ' symmetry')
    got = obj.get_elastic_moduli()
    need('elastic-kinds', sorted(st['elastic']), sorted(got), what + ' elastic')
    for kind, val in st['elastic'].items():
        need('elastic', val, got[kind], '%s elastic %s' % (what, kind))
    mag = obj.get_magnetization()
    need('magnetization', st['sphere'], mag['sphere'], what + ' sphere')
    full = mag['full_cell']
    need('full-cell', st['full_cell'] or [], list(full) if len(full) else [], what + ' full_cell')
    need('stats', st['stats'], obj.get_run_stats(), what + ' run_stats')


def judge(case):
    lines = build(case)
    st = M.fresh()
    cuts = 0
    text = ''
    for k, (line, eff) in enumerate(lines):
        if eff is not None:
            eff(st)
        text += line + '\n'
        # cuts: every line that changes something and the line before it (the result can only change there); the last line always
        nxt = lines[k + 1][1] if k + 1 < len(lines) else True
        if st['iter'] is not None and (eff is not None or nxt):
            check(text, st, 'cut after line %d of %d (%r)' % (k + 1, len(lines), line[:50]))
            cuts += 1
    return {'cut files': cuts}


def judge_all_cuts(case):
    lines = build(case)
    st = M.fresh()
    text = ''
    cuts = 0
    for k, (line, eff) in enumerate(lines):
        if eff is not None:
            eff(st)
        text += line + '\n'
        if st['iter'] is not None:
            check(text, st, 'cut after line %d of %d (%r)' % (k + 1, len(lines), line[:50]))
            cuts += 1
    return {'cut files': cuts}


def gen_large(ctx):
    return (ctx.free('ions', [1, 12, 30]), ctx.free('atoms', [9, 10, 100, 1001]), ctx.free('comps', ['x', 'xyz']), ctx.choose('orbs', ['spdf', 'spd', 's']), ctx.choose('tables', ['last', 'each', 'first']),
            'both', 1, 'simple cubic supercell.', ('non_symmetrized', 'symmetrized', 'ionic', 'total'), (0.5,), ctx.choose('ending', ['5', '7', 'none']), ctx.choose('seed', [1, 0]), 0)


def judge_large(case):
    lines = build(case)
    st = M.fresh()
    for _, eff in lines:
        if eff is not None:
            eff(st)
    check('\n'.join(l for l, _ in lines) + '\n', st, 'large file')


PROGRAMS = [
    Program('large', gen_large, judge_large, quick=1, thorough=3, per_case_s=60),
    Program('sections', gen, judge, quick=2, thorough=3, per_case_s=60),
    Program('every-line', gen, judge_all_cuts, quick=1, thorough=2, per_case_s=60),
]
