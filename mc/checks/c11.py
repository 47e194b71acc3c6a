"""C11: OUTCAR run status tells truthfully how far the calculation got."""
import io

from parsevasp.outcar import Outcar

from mc.core import Program, Violation
from mc.models import outcar as M
from mc.obs import LOGGER, attempt, need

PROPERTY = 'C11'
BOUNDS = ('every history of 0..3 ionic steps (4 thorough) with every number of electronic steps 1..NELM (NELM 1..3) x NSW in {not printed,0,1,2,3,5} x IBRION in {not printed,-1,0,1,2,6} x finished or not, '
          'each file cut after every single line (symmetry, magnetization and elastic blocks in between); plus large counters')
ORACLE = 'every line of the generated file carries the effect it has on the model state; the expected status at a cut is a function of the effects up to it'


def gen(nion):
    def program(ctx):
        nelm = ctx.free('nelm', [2, 1, 3])
        ions = ctx.free('ions', list(range(nion, -1, -1)))
        counts = tuple(ctx.free('steps', list(range(1, nelm + 1))) for _ in range(ions))
        nsw = ctx.free('nsw', [None, 0, 1, 2, 3, 5])
        ibrion = ctx.free('ibrion', [None, -1, 0, 1, 2, 6])
        extra = ctx.choose('extra', ['none', 'symmetry', 'mag1', 'mag2', 'elastic', 'all'])
        settings = ctx.choose('settings', ['all', 'nonelm', 'nonbands', 'decoys'])
        return nelm, counts, nsw, ibrion, extra, settings
    return program


def build(case):
    nelm, counts, nsw, ibrion, extra, settings = case
    lines = M.header(nsw, ibrion, None if settings == 'nonelm' else nelm, None if settings == 'nonbands' else 16, settings == 'decoys')
    for ion, n in enumerate(counts, 1):
        if extra in ('symmetry', 'all'):
            lines += M.symmetry(48 // ion, 'face centered cubic supercell.', 'static', 1 if ion % 2 else 4) + M.symmetry(24, 'simple cubic supercell.', 'dynamic')
        for el in range(1, n + 1):
            lines += M.iteration(ion, el)
            if extra == 'all':
                lines += M.electrons((0.5 * el,))
        lines += M.loop_end(n < nelm)
        if settings == 'decoys':
            lines += [(d, None) for d in M.DECOYS]
        if extra in ('mag1', 'mag2', 'all'):
            lines += M.magnetization('x', 1 if extra == 'mag1' else 2, 'spd', ion)
    if extra in ('elastic', 'all'):
        for i, kind in enumerate(('non_symmetrized', 'symmetrized', 'ionic', 'total')):
            lines += M.elastic(kind, i)
    return lines + M.ending()


KEYS = ('nelm', 'nsw', 'last_iteration_index', 'finished', 'ionic_converged', 'electronic_converged', 'consistent_nelm_breach', 'contains_nelm_breach')


def check_prefix(text, st, what, skip=()):
    out = attempt(Outcar, file_handler=io.StringIO(text), logger=LOGGER)
    if st['iter'] is None:
        if tuple(out) != ('exit', 600):
            raise Violation('no-iterations', '%s: no iteration was started, but %s' % (what, 'accepted' if out[0] == 'ok' else tuple(out)))
        return
    if out[0] != 'ok':
        raise Violation('accept', '%s: %s' % (what, tuple(out)))
    got = out[1].get_run_status()
    exp = M.status(st)
    for key in KEYS:
        if exp[key] == 'any' or key in skip:
            continue
        need('status-' + key, exp[key], got.get(key, 'absent'), '%s: %s' % (what, key))
    need('status-nbands', exp['nbands'], got.get('nbands'), '%s: nbands' % what)


def judge(case):
    lines = build(case)
    st = M.fresh()
    text = ''
    cuts = 0
    start = 0
    for k, (line, eff) in enumerate(lines):
        if eff is not None:
            eff(st)
        text += line + '\n'
        # cutting inside the fixed header before the first setting adds nothing new: every cut is still checked once a setting is printed
        if k >= start:
            check_prefix(text, st, 'cut after line %d of %d (%r)' % (k + 1, len(lines), line[:60]))
            cuts += 1
    return {'cut files': cuts}


def gen_counters(ctx):
    ions = ctx.free('ion', [1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 123456])
    el = ctx.free('el', [1, 9, 10, 59, 60, 99, 100, 999, 1000])
    return ions, el, ctx.free('nsw', [0, 9, 10, 100, 1000, 10000]), ctx.free('nelm', [10, 60, 100, 1000]), ctx.free('finished', [True, False])


def judge_counters(case):
    """Only the last iterations are kept in the file (counters start late)."""
    ion, el, nsw, nelm, fin = case
    lines = M.header(nsw, 2, nelm, 4) + M.iteration(ion, el)
    if fin:
        lines += M.ending()
    st = M.fresh()
    for _, eff in lines:
        if eff:
            eff(st)
    check_prefix('\n'.join(l for l, _ in lines) + '\n', st, 'counters', skip=('consistent_nelm_breach',))


# Histories of many ionic steps: which of them use all NELM electronic steps
PATTERNS = {'none': lambda i, n: False, 'all': lambda i, n: True, 'first': lambda i, n: i == 1, 'last': lambda i, n: i == n, 'all but first': lambda i, n: i > 1, 'all but last': lambda i, n: i < n,
            'second': lambda i, n: i == 2, 'tenth': lambda i, n: i == 10, 'all but second': lambda i, n: i != 2, 'all but ninth': lambda i, n: i != 9, 'all but tenth': lambda i, n: i != 10,
            'even': lambda i, n: i % 2 == 0, 'all but one before the last': lambda i, n: i != n - 1, 'from ten': lambda i, n: i >= 10, 'below ten': lambda i, n: i < 10, '99 on': lambda i, n: i >= 99,
            'all but hundredth': lambda i, n: i != 100}


def gen_many(ctx):
    n = ctx.free('ions', [4, 9, 10, 11, 12, 25, 101, 1003])
    pattern = ctx.free('pattern', list(PATTERNS))
    nsw = ctx.free('nsw', [n - 1, n, n + 1, None])
    ibrion = ctx.choose('ibrion', [2, 0, None])
    return n, pattern, nsw, ibrion, ctx.free('end', ['finished', 'in step', 'before step']), ctx.choose('settings', ['all', 'decoys', 'nonelm']), ctx.choose('nelm', [3, 1, 12])


def judge_many(case):
    n, pattern, nsw, ibrion, end, settings, nelm = case
    lines = M.header(nsw, ibrion, None if settings == 'nonelm' else nelm, 16, settings == 'decoys')
    for ion in range(1, n + 1):
        full = PATTERNS[pattern](ion, n)
        steps = nelm if full else max(1, nelm - 1 - ion % 2)
        for el in range(1, steps + 1):
            lines += M.iteration(ion, el)
        if ion == n and end == 'in step':
            break
        lines += M.loop_end(not full)
        if settings == 'decoys' and ion in (1, n):
            lines += [(d, None) for d in M.DECOYS]
    if end == 'finished':
        lines += M.ending()
    st = M.fresh()
    for _, eff in lines:
        if eff:
            eff(st)
    check_prefix('\n'.join(l for l, _ in lines) + '\n', st, '%d ionic steps' % n)


PROGRAMS = [
    Program('many-steps', gen_many, judge_many, quick=1, thorough=3, per_case_s=60),
    Program('histories', gen(3), judge, quick=1, thorough=2, per_case_s=60),
    Program('histories-4', gen(4), judge, quick=0, thorough=1, per_case_s=60, enabled=('thorough',)),
    Program('counters', gen_counters, judge_counters),
]
