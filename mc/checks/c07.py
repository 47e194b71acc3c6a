"""C07: writing a POSCAR preserves the structure and reading it back restores it."""
import io

import numpy as np

from parsevasp.poscar import Poscar, Site

from mc.core import Program, Violation
from mc.models import poscar as M
from mc.obs import LOGGER, diff, expect_ok, need, plain, put, same, via

PROPERTY = 'C07'
BOUNDS = ('all POSCAR texts of the C06 grammar with at most 1 (quick) / 2 (thorough) deviations, and all dictionaries of 1..4 sites over 3 species (all sequences), flag patterns, '
          'velocity/predictor presence, direct/cartesian and dict/Site forms; each written direct and cartesian, ordered and conserved, at two precisions, by three routes, and re-read')
ORACLE = 'the structure the object was made from; the file header and the counts are also checked by direct inspection of the written lines'


def key(site):
    return repr([site['specie'], [round(x, 3) for x in site['position']]])


def check_file(text, mean, conserve, direct, what):
    """Direct inspection of the species and count lines."""
    lines = text.split('\n')
    species = lines[5].split()
    counts = [int(x) for x in lines[6].split()]
    if sum(counts) != len(mean['sites']) or len(species) != len(counts):
        raise Violation('counts', '%s: %r / %r for %d sites' % (what, lines[5], lines[6], len(mean['sites'])))
    if abs(float(lines[1]) - 1.0) > 1e-12:
        raise Violation('scaling', '%s: scaling line %r' % (what, lines[1]))
    expanded = [s for s, n in zip(species, counts) for _ in range(n)]
    original = [s['specie'] for s in mean['sites']]
    if conserve:
        if expanded != original:
            raise Violation('order', '%s: order not conserved: %s -> %s' % (what, original, expanded))
    else:
        if sorted(expanded) != sorted(original) or len(set(species)) != len(species):
            raise Violation('grouping', '%s: species not contiguous: %s' % (what, expanded))
    sel = any(False in s['selective'] for s in mean['sites'])
    head = lines[8] if sel else lines[7]
    if head.strip()[:1].lower() != ('d' if direct else 'c'):
        raise Violation('coordinate-kind', '%s: %r for direct=%s' % (what, head, direct))


def expected_order(mean, conserve, got_sites):
    if conserve:
        return list(mean['sites'])
    order = []
    for s in got_sites:
        if s['specie'] not in order:
            order.append(s['specie'])
    return [s for sp in order for s in mean['sites'] if s['specie'] == sp]


def roundtrip(mean, pos, conserve, direct, prec, what):
    text = expect_ok('write', pos.get_string)
    path = put('POS', 'old\n' * 99)
    expect_ok('write', pos.write, file_path=path)
    with open(path, encoding='utf8') as fh:
        if fh.read() != text:
            raise Violation('routes', '%s: written file differs from the string' % what)
    buf = io.StringIO()
    expect_ok('write', pos.write, file_handler=buf)
    if buf.getvalue() != text:
        raise Violation('routes', '%s: handler output differs from the string' % what)
    check_file(text, mean, conserve, direct, what)
    again = expect_ok('read-back', Poscar, poscar_string=text, logger=LOGGER, prec=prec, conserve_order=conserve, write_direct=direct)
    got = M.observed(again.get_dict())
    tol = 4.0 * 10.0 ** (-prec) + 1e-12
    order = expected_order(mean, conserve, got['sites'])
    if len(order) != len(got['sites']):
        raise Violation('read-back', '%s: %d sites became %d' % (what, len(order), len(got['sites'])))
    need('read-back', mean['unitcell'], got['unitcell'], what + ' cell', atol=tol)
    # positions written in cartesian form are converted with the rounded cell
    need('read-back', order, got['sites'], what + ' sites', atol=tol, rtol=1e-12 if direct else tol)
    old = mean['comment']
    if old is not None and old.strip() not in got['comment']:
        raise Violation('comment', '%s: comment %r became %r' % (what, old, got['comment']))


def judge_doc(case):
    (text, mean), conserve, direct, prec = case
    pos = expect_ok('accept', Poscar, file_handler=io.StringIO(text, newline=None), logger=LOGGER, conserve_order=conserve, write_direct=direct, prec=prec)
    roundtrip(mean, pos, conserve, direct, prec, 'document')
    need('unchanged', mean, M.observed(pos.get_dict()), 'after writing', rtol=1e-10, atol=1e-11)


def gen_doc(ctx):
    return M.gen(ctx, M.SMALLGROUPS), ctx.free('conserve', [False, True]), ctx.free('direct', [True, False]), ctx.choose('prec', [12, 6])


SPEC = ['Fe', 'O', 'H']


def gen_struct(ctx):
    n = ctx.free('n', [1, 2, 3, 4])
    seq = tuple(ctx.free('sp', SPEC[:min(3, i + 1)]) for i in range(n))
    sel = ctx.choose('sel', ['none', 'first', 'last', 'mixed', 'all', 'one'])
    vel = ctx.choose('vel', [False, True])
    pred = ctx.choose('pred', [False, True])
    form = ctx.choose('form', ['site', 'dict', 'site-cart', 'dict-cart', 'mixed'])
    case = ctx.choose('spcase', ['as-is', 'lower', 'upper'])
    cell = ctx.choose('cell', [1, 0, 2, 3, 4, 5])
    comment = ctx.choose('comment', ['made up', None, '', 'Fe O', 'c' * 90])
    figs = ctx.choose('figures', M.FIGURES)
    vfigs = ctx.choose('vfigures', M.FIGURES) if vel else 'distinct'
    return seq, sel, vel, pred, form, case, cell, comment, figs, vfigs, ctx.free('conserve', [False, True]), ctx.free('direct', [True, False]), ctx.choose('prec', [12, 6])


def build(case):
    seq, sel, vel, pred, form, spcase, icell, comment, figs, vfigs = case[:10]
    cell = M.CELLS[icell]
    sites, mean_sites = [], []
    for i, sp in enumerate(seq):
        pos = [M.figure(figs, i, k) for k in range(3)]
        v = [-M.figure(vfigs, i + 9, k) for k in range(3)] if vel else None
        p = [M.number(i + 30, k) for k in range(3)] if pred else None
        flags = [True, True, True]
        if sel == 'all' or (sel == 'first' and i == 0) or (sel == 'last' and i == len(seq) - 1):
            flags = [False, False, False]
        elif sel == 'one':
            flags = [True, i != len(seq) // 2, True]
        elif sel == 'mixed':
            flags = [bool((i >> b) & 1) for b in range(3)]
        mean_sites.append({'specie': sp, 'position': pos, 'selective': list(flags), 'velocities': v, 'predictors': p, 'direct': True})
        kind = form if form != 'mixed' else ['site', 'dict-cart', 'dict', 'site-cart'][i % 4]
        cart = kind.endswith('cart')
        rp = np.array(M.to_cart(pos, cell) if cart else pos)
        rv = None if v is None else np.array(M.to_cart(v, cell) if cart else v)
        pp = None if p is None else np.array(p)
        name = {'as-is': sp, 'lower': sp.lower(), 'upper': sp.upper()}[spcase]
        if kind.startswith('site'):
            sites.append(Site(name, rp, selective=list(flags), velocities=rv, predictors=pp, direct=not cart))
        else:
            sites.append({'specie': name, 'position': rp, 'selective': list(flags), 'velocities': rv, 'predictors': pp, 'direct': not cart})
    return {'comment': comment, 'unitcell': np.array(cell), 'sites': sites}, {'comment': comment, 'unitcell': [list(r) for r in cell], 'sites': mean_sites}


def judge_struct(case):
    conserve, direct, prec = case[10:]
    src, mean = build(case)
    before = plain(src)
    pos = expect_ok('accept', Poscar, poscar_dict=src, logger=LOGGER, conserve_order=conserve, write_direct=direct, prec=prec)
    need('content', mean, M.observed(expect_ok('export', pos.get_dict)), 'dictionary', rtol=1e-10, atol=1e-11)
    need('content-cartesian', M.cartesian(mean), M.observed(pos.get_dict(direct=False)), 'dictionary, cartesian', rtol=1e-10, atol=1e-11)
    roundtrip(mean, pos, conserve, direct, prec, 'structure')
    need('unchanged', mean, M.observed(pos.get_dict()), 'after writing', rtol=1e-10, atol=1e-11)
    if not same(before, plain(src)):
        raise Violation('caller-data', 'the supplied structure was changed: %r -> %r' % (before, plain(src)))


PROGRAMS = [
    Program('documents', gen_doc, judge_doc, quick=1, thorough=2),
    Program('structures', gen_struct, judge_struct, quick=2, thorough=4),
]
