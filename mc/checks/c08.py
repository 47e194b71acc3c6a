"""C08: POSCAR edit histories touch exactly the addressed site or entry."""
import copy
import io

import numpy as np

from parsevasp.poscar import Poscar, Site

from mc.checks.c07 import roundtrip
from mc.core import Program, Violation
from mc.models import poscar as M
from mc.obs import LOGGER, attempt, expect_ok, need, plain, same

PROPERTY = 'C08'
BOUNDS = ('all edit sequences up to length 3 (quick) / 4 (thorough) over 20 edits on two live objects made from the same caller data, from 6 initial structures, observed and written/re-read at the end or '
          'after every step')
ORACLE = 'a plain list-of-sites model'

CELL = M.CELLS[1]


def msite(sp, i, sel=(True, True, True)):
    return {'specie': sp, 'position': [M.number(i, k) for k in range(3)], 'selective': list(sel), 'velocities': None, 'predictors': None, 'direct': True}


NEW = {'a': msite('O', 50), 'b': msite('Fe', 51, (False, True, True)), 'c': msite('C', 52, (False, False, False))}
START = {
    'two': [msite('Fe', 0), msite('O', 1)],
    'four': [msite('Fe', 0), msite('O', 1, (True, False, True)), msite('Fe', 2), msite('O', 3)],
    'grouped': [msite('O', 0), msite('O', 1), msite('Fe', 2)],
}
VELS = {'moving': [dict(msite('Fe', i), velocities=[-M.number(i + 9, k) for k in range(3)]) for i in range(3)]}


def real(m):
    return Site(m['specie'], np.array(m['position']), selective=list(m['selective']),
                velocities=None if m['velocities'] is None else np.array(m['velocities']), predictors=None, direct=True)


OPS = [('site', 0, 'a'), ('site', 1, 'b'), ('site', 1, 'c'), ('site', 3, 'a'), ('sites', 'ab'), ('sites', 'cba'), ('sites', 'abab'), ('delete', 0), ('delete', 1), ('delete', 3),
       ('comment', 'new words'), ('comment', None), ('cell', 0), ('cell', 2), ('export',), ('export-cart',), ('write',), ('bad-number', 9), ('bad-entry', 'sitess'), ('bad-site', None),
       ('bad-cell', None), ('bad-comment', None)]
SMALL = [('site', 0, 'a'), ('site', 1, 'b'), ('sites', 'cba'), ('delete', 0), ('delete', 2), ('comment', 'new words'), ('cell', 0), ('export-cart',), ('write',)]

ENDS = [('from-end', -1, 'a'), ('from-end', -2, 'b'), ('from-end', -9, 'a'), ('delete-end', -1), ('delete-end', -2), ('delete-end', -9), ('sites', 'cba'), ('export',)]


def legal(model, op):
    n = len(model['sites'])
    if model['sites'][0]['velocities'] is not None and op[0] in ('site',):
        return False        # would leave a structure with velocities on some sites only
    if op[0] == 'site':
        return op[1] < n
    if op[0] == 'delete':
        return op[1] < n and n > 1
    if op[0] == 'delete-end':
        return n > 1
    if op[0] == 'from-end':
        return model['sites'][0]['velocities'] is None
    return True


def refuse(code, func, *args, **kw):
    out = attempt(func, *args, **kw)
    if tuple(out) != ('exit', code):
        raise Violation('refuse', '%s %r %r: expected exit %d, got %s' % (getattr(func, '__name__', func), args[:1], sorted(kw), code, tuple(out)))


def apply_real(pos, op, held):
    if op[0] == 'site':
        val = real(NEW[op[2]])
        held.append((val, plain(val)))
        expect_ok('edit', pos.modify, 'sites', val, site_number=op[1])
    elif op[0] == 'sites':
        val = [real(NEW[c]) for c in op[1]]
        held.append((val, plain(val)))
        expect_ok('edit', pos.modify, 'sites', val)
    elif op[0] == 'delete':
        expect_ok('edit', pos.delete_site, op[1])
    elif op[0] in ('from-end', 'delete-end'):
        # counting from the end is not documented: either as in a list, or refused
        if op[0] == 'from-end':
            out = attempt(pos.modify, 'sites', real(NEW[op[2]]), site_number=op[1])
        else:
            out = attempt(pos.delete_site, op[1])
        return out[0] == 'ok'
    elif op[0] == 'comment':
        expect_ok('edit', pos.modify, 'comment', op[1])
    elif op[0] == 'cell':
        val = np.array(M.CELLS[op[1]])
        held.append((val, plain(val)))
        expect_ok('edit', pos.modify, 'unitcell', val)
    elif op[0] == 'export':
        got = expect_ok('export', pos.get_dict)
        got['comment'] = 'altered by the caller'
        got['sites'].pop()
        del got['unitcell']
    elif op[0] == 'export-cart':
        got = expect_ok('export', pos.get_dict, direct=False)
        for s in got['sites']:
            s['position'] += 7.0
            s['direct'] = None
    elif op[0] == 'write':
        expect_ok('write', pos.get_string)
        expect_ok('write', pos.write, file_handler=io.StringIO())
    elif op[0] == 'bad-number':
        refuse(304, pos.modify, 'sites', real(NEW['a']), site_number=op[1])
        refuse(304, pos.delete_site, op[1])
    elif op[0] == 'bad-entry':
        refuse(305, pos.modify, op[1], 'x')
    elif op[0] == 'bad-site':
        refuse(13, pos.modify, 'sites', 'not a site', site_number=0)
        refuse(13, pos.modify, 'sites', 'not a list')
    elif op[0] == 'bad-cell':
        refuse(13, pos.modify, 'unitcell', np.zeros((3, 2)))
        refuse(13, pos.modify, 'unitcell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]])
    elif op[0] == 'bad-comment':
        refuse(13, pos.modify, 'comment', 5)


def apply_model(model, op):
    if op[0] == 'from-end':
        model['sites'][op[1]] = copy.deepcopy(NEW[op[2]])
    elif op[0] == 'delete-end':
        del model['sites'][op[1]]
    if op[0] == 'site':
        model['sites'][op[1]] = copy.deepcopy(NEW[op[2]])
    elif op[0] == 'sites':
        model['sites'] = [copy.deepcopy(NEW[c]) for c in op[1]]
    elif op[0] == 'delete':
        del model['sites'][op[1]]
    elif op[0] == 'comment':
        model['comment'] = op[1]
    elif op[0] == 'cell':
        model['unitcell'] = [list(r) for r in M.CELLS[op[1]]]


def judge(case):
    kind, form, conserve, ops, each = case
    start = {**START, **VELS}[kind]
    mean = {'comment': 'start', 'unitcell': [list(r) for r in CELL], 'sites': copy.deepcopy(start)}
    held = []
    if form == 'text':
        text = Poscar(poscar_dict={'comment': 'start', 'unitcell': np.array(CELL), 'sites': [real(s) for s in start]}, logger=LOGGER, conserve_order=True).get_string()
        text = 'start\n' + text.split('\n', 1)[1]
        objs = [expect_ok('accept', Poscar, poscar_string=text, logger=LOGGER, conserve_order=conserve) for _ in range(2)]
    else:
        if form == 'dicts':
            sites = [{'specie': s['specie'], 'position': np.array(s['position']), 'selective': list(s['selective']),
                      'velocities': None if s['velocities'] is None else np.array(s['velocities']), 'predictors': None, 'direct': True} for s in start]
        elif form == 'cart':
            sites = [Site(s['specie'], np.array(M.to_cart(s['position'], CELL)), list(s['selective']),
                          None if s['velocities'] is None else np.array(M.to_cart(s['velocities'], CELL)), None, False) for s in start]
        else:
            sites = [real(s) for s in start]
        src = {'comment': 'start', 'unitcell': np.array(CELL), 'sites': sites}
        held.append((src, plain(src)))
        objs = [expect_ok('accept', Poscar, poscar_dict=src, logger=LOGGER, conserve_order=conserve) for _ in range(2)]
    models = [mean, copy.deepcopy(mean)]
    states = set()

    def look(step, rt):
        for i in range(2):
            what = 'object %d after step %d' % (i, step)
            need('content', models[i], M.observed(expect_ok('export', objs[i].get_dict)), what, rtol=1e-10, atol=1e-11)
            need('content-cartesian', M.cartesian(models[i]), M.observed(objs[i].get_dict(direct=False)), what + ' (cartesian)', rtol=1e-10, atol=1e-11)
            if rt:
                roundtrip(models[i], objs[i], conserve, True, 12, what)
        for value, before in held:
            if not same(plain(value), before):
                raise Violation('caller-data', 'after step %d the data supplied by the caller changed: %r -> %r' % (step, before, plain(value)))

    done = 0
    for who, op in ops:
        if not legal(models[who], op):
            continue
        done += 1
        if apply_real(objs[who], op, held) is not False:
            if op[0].endswith('-end') and -op[1] > len(models[who]['sites']):
                raise Violation('refuse', 'site number %d of %d sites is accepted' % (op[1], len(models[who]['sites'])))
            apply_model(models[who], op)
        states.add(repr(models))
        if each:
            look(done, False)
    look(done, True)
    return {'model_states': states}


def history(ops, depths, kinds, forms):
    def gen(ctx):
        kind = ctx.free('source', kinds)
        form = ctx.free('form', forms)
        conserve = ctx.free('conserve', [True, False])
        depth = ctx.free('depth', depths)
        each = ctx.free('each', [False, True])
        seq = []
        for i in range(depth):
            who = 0 if i == 0 else ctx.free('who', [0, 1])
            seq.append((who, ctx.free('op', ops)))
        return kind, form, conserve, tuple(seq), each
    return gen


KINDS = ['four', 'two', 'grouped', 'moving']
PROGRAMS = [
    Program('histories', history(OPS, [1, 2], KINDS, ['sites', 'text', 'dicts', 'cart']), judge, enabled=('thorough',)),
    Program('histories-quick', history(OPS, [1, 2], ['four', 'moving'], ['sites', 'text', 'dicts', 'cart']), judge, enabled=('quick',)),
    Program('histories-deep', history(SMALL, [3], ['four'], ['sites', 'cart']), judge),
    Program('from the end', history(ENDS, [1, 2], ['four', 'two'], ['sites', 'text']), judge),
    Program('histories-deeper', history(SMALL, [4], ['four', 'grouped'], ['cart', 'text']), judge, enabled=('thorough',)),
]
