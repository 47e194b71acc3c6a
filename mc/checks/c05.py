"""C05: KPOINTS objects survive edits and write/read round trips."""
import copy
import io

import numpy as np

from parsevasp.kpoints import Kpoint, Kpoints

from mc.core import Program, Violation
from mc.models import kpoints as M
from mc.obs import LOGGER, attempt, expect_ok, need, plain, put, same, via

PROPERTY = 'C05'
BOUNDS = ('all KPOINTS documents of the C04 grammar with at most 2 (quick) / 3 (thorough) deviations written and re-read at three precisions; all edit histories up to length 3 (quick) / 4 (thorough) '
          'over 24 edits on two live objects sharing the caller\'s data, from 6 initial objects, observed and round-tripped at the end or after every step')
ORACLE = 'a plain dictionary model of the entries; the file text is re-read with the parser and, for the header and point count, by direct inspection'


def kdict(kp):
    got = dict(kp.get_dict())
    if got.get('points') is not None:
        got['points'] = [[list(p[0]), p[1], p[2]] for p in got['points']]
    return got


def check_content(mean, kp, what):
    need('content', mean, kdict(kp), what)


def written(mean):
    """What a file written from `mean` has to read back as."""
    exp = copy.deepcopy(mean)
    if exp['comment'] is None:
        exp['comment'] = 'No comment'
    mode = exp['mode']
    if mode == 'explicit':
        for p in exp['points']:
            if p[1] is None:
                p[1] = 1.0
        exp.update(divisions=None, generating_vectors=None, shifts=None, centering=None)
        if exp['tetra'] is None:
            exp['tetra_volume'] = None
    elif mode == 'automatic':
        exp.update(points=None, tetra=None, tetra_volume=None, num_kpoints=0)
        if exp['shifts'] is None:
            exp['shifts'] = [0.0, 0.0, 0.0]
    else:
        for p in exp['points']:
            p[1] = 1.0
        exp.update(divisions=None, generating_vectors=None, shifts=None, centering=None, tetra=None, tetra_volume=None)
    return exp


def roundtrip(mean, kp, prec, what):
    text = expect_ok('write', kp.get_string)
    path = put('KP', 'something old\n' * 40)
    expect_ok('write', kp.write, file_path=path)
    with open(path, encoding='utf8') as fh:
        if fh.read() != text:
            raise Violation('routes', '%s: written file differs from the string' % what)
    buf = io.StringIO()
    expect_ok('write', kp.write, file_handler=buf)
    if buf.getvalue() != text:
        raise Violation('routes', '%s: handler output differs from the string' % what)
    exp = written(mean)
    for route in ('string', 'path'):
        again = expect_ok('read-back', via, Kpoints, text, route, 'kpoints_string', prec=prec)
        need('read-back', exp, kdict(again), '%s re-read by %s' % (what, route), atol=0.51 * 10 ** (-prec))
    text2 = again.get_string()
    if text2 != text:
        raise Violation('fixpoint', '%s: second writing differs: %r / %r' % (what, text, text2))


def judge_doc(case):
    (text, mean), prec = case
    kp = expect_ok('accept', Kpoints, file_handler=io.StringIO(text), logger=LOGGER, prec=prec)
    roundtrip(mean, kp, prec, 'document')
    check_content(mean, kp, 'after writing')


def gen_doc(ctx):
    prec = ctx.free('prec', [9, 4, 12])
    return M.gen(ctx), prec


# ---------------------------------------------------------------- histories
PTS = {'a': ([0.1, 0.2, 0.3], 1.0), 'b': ([-0.4, 0.5, 0.6], 2.5), 'c': ([0.0, 0.0, 0.0], None), 'd': ([0.7, -0.8, 0.9], 0.125),
       'e': ([1.5, -12.0, 0.0], 1728.0), 'z': ([0.1, 0.2, 0.3], 0.0), 'y': ([-0.4, 0.5, 0.6], 1.0)}
BASE = {'comment': 'start', 'divisions': None, 'generating_vectors': None, 'shifts': None, 'points': None, 'tetra': None, 'tetra_volume': None, 'mode': 'explicit',
        'centering': None, 'num_kpoints': 0}


def mk(names):
    return [[list(PTS[n][0]), PTS[n][1], True] for n in names]


def real_points(names):
    return [Kpoint(np.array(PTS[n][0]), PTS[n][1]) for n in names]


SOURCES = {
    'explicit-dict': dict(BASE, points='abd', num_kpoints=3),
    'explicit-tetra': dict(BASE, points='bcad', num_kpoints=4, tetra=[[6, 1, 2, 3, 4], [2, 1, 2, 3, 3]], tetra_volume=0.25),
    'explicit-equal': dict(BASE, points='zazae', num_kpoints=5),
    'line-equal': dict(BASE, mode='line', points='abbeea', num_kpoints=1000),
    'line-dict': dict(BASE, mode='line', points='abcd', num_kpoints=20),
    'auto-dict': dict(BASE, mode='automatic', divisions=[2, 3, 4], centering='Gamma', shifts=[0.5, 0.0, 0.25]),
    'grg-dict': dict(BASE, mode='automatic', generating_vectors=[[0.25, 0.0, 0.0], [0.0, 0.5, 0.0], [0.1, 0.2, 0.3]], centering='Reciprocal', shifts=[0.0, 0.1, 0.2], comment=None),
}
TEXTS = {
    'explicit-text': ('# start\n3\nDirect\n0.1 0.2 0.3 1.0\n-0.4 0.5 0.6 2.5\n0.7 -0.8 0.9 0.125\n', dict(BASE, points='abd', num_kpoints=3)),
    'line-text': ('start\n 20\nLine-mode\nreciprocal\n0.1 0.2 0.3 ! a\n-0.4 0.5 0.6\n\n0 0 0\n0.7 -0.8 0.9\n', dict(BASE, mode='line', points='abcd', num_kpoints=20)),
    'auto-text': ('start\n0\nMonkhorst\n2 3 4\n', dict(BASE, mode='automatic', divisions=[2, 3, 4], centering='Monkhorst-Pack')),
}

OPS = [('point', 0, 'd'), ('point', 2, 'a'), ('point', 1, 'c'), ('points', 'ab'), ('points', 'dcba'), ('points', 'c'), ('points', 'aa'), ('points', 'zez'), ('points', 'abyb'), ('point', 0, 'e'), ('point', 1, 'z'), ('delete', 0), ('delete', 1), ('delete', 3),
       ('set', 'comment', 'new words'), ('set', 'comment', None), ('set', 'divisions', [7, 1, 9]), ('set', 'shifts', [0.125, 0.0, 0.5]), ('set', 'shifts', None),
       ('set', 'centering', 'Monkhorst-Pack'), ('set', 'centering', 'Gamma'), ('set', 'tetra', [[1, 4, 3, 2, 1]]), ('set', 'tetra_volume', 0.75), ('set', 'tetra', None),
       ('set', 'num_kpoints', 33), ('set', 'generating_vectors', [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.5, 0.0, 3.0]]), ('export',), ('write',), ('badpoint', 9), ('badtag', 'pointss')]
SMALL = [('point', 0, 'd'), ('points', 'ab'), ('points', 'dcba'), ('delete', 0), ('delete', 2), ('set', 'comment', 'new words'), ('set', 'divisions', [7, 1, 9]), ('set', 'shifts', None), ('export',), ('write',)]

ENDS = [('from-end', -1, 'a'), ('from-end', -2, 'd'), ('from-end', -9, 'a'), ('delete-end', -1), ('delete-end', -2), ('delete-end', -9), ('points', 'dcba'), ('export',)]


def legal(model, op):
    """Only edits that leave a consistent object are part of the alphabet in a given state."""
    mode = model['mode']
    has = model['points'] is not None
    if op[0] in ('point', 'delete'):
        return has and op[1] < len(model['points']) and (op[0] == 'point' or len(model['points']) > 1)
    if op[0] in ('from-end', 'delete-end'):
        return has and len(model['points']) > 1
    if op[0] in ('points', 'badpoint'):
        return has
    if op[0] == 'set':
        key = op[1]
        if key == 'comment':
            return True
        if key in ('divisions', 'shifts'):
            return mode == 'automatic' and (key != 'divisions' or model['divisions'] is not None) and (key != 'shifts' or op[2] is not None or model['divisions'] is not None)
        if key == 'centering':
            return mode == 'automatic' and model['divisions'] is not None
        if key == 'generating_vectors':
            return mode == 'automatic' and model['generating_vectors'] is not None
        if key in ('tetra', 'tetra_volume'):
            return mode == 'explicit' and (key == 'tetra' and op[2] is None or model['tetra_volume'] is not None)
        if key == 'num_kpoints':
            return mode == 'line'
    return True


def apply_model(model, op):
    if op[0] == 'point':
        model['points'][op[1]] = mk(op[2])[0]
    elif op[0] == 'points':
        model['points'] = mk(op[1])
    elif op[0] == 'from-end':
        model['points'][op[1]] = mk(op[2])[0]
    elif op[0] == 'delete-end':
        del model['points'][op[1]]
    elif op[0] == 'delete':
        del model['points'][op[1]]
    elif op[0] == 'set':
        model[op[1]] = copy.deepcopy(op[2])
    if model['mode'] == 'explicit':
        model['num_kpoints'] = len(model['points'])


def apply_real(kp, op, held):
    if op[0] == 'point':
        expect_ok('edit', kp.modify, 'points', real_points(op[2])[0], point_number=op[1])
    elif op[0] == 'points':
        value = real_points(op[1])
        held.append((value, plain(value)))
        expect_ok('edit', kp.modify, 'points', value)
    elif op[0] == 'delete':
        expect_ok('edit', kp.delete_point, op[1])
    elif op[0] in ('from-end', 'delete-end'):
        # counting from the end is not documented: either as in a list, or refused
        if op[0] == 'from-end':
            out = attempt(kp.modify, 'points', real_points(op[2])[0], point_number=op[1])
        else:
            out = attempt(kp.delete_point, op[1])
        return out[0] == 'ok'
    elif op[0] == 'set':
        value = copy.deepcopy(op[2])
        held.append((value, plain(value)))
        expect_ok('edit', kp.modify, op[1], value)
    elif op[0] == 'export':
        got = expect_ok('export', kp.get_dict)
        got['comment'] = 'altered by the caller'
        got.pop('mode')
        if got['points'] is not None:
            got['points'].append('junk')
    elif op[0] == 'write':
        expect_ok('write', kp.get_string)
    elif op[0] == 'badpoint':
        out = attempt(kp.modify, 'points', real_points('a')[0], point_number=op[1])
        if tuple(out) != ('exit', 211):
            raise Violation('refuse', 'point number %d: expected exit 211, got %s' % (op[1], tuple(out)))
        out = attempt(kp.delete_point, op[1])
        if tuple(out) != ('exit', 211):
            raise Violation('refuse', 'delete point %d: expected exit 211, got %s' % (op[1], tuple(out)))
    elif op[0] == 'badtag':
        out = attempt(kp.modify, op[1], 'x')
        if tuple(out) != ('exit', 207):
            raise Violation('refuse', 'entry %s: expected exit 207, got %s' % (op[1], tuple(out)))


def judge_history(case):
    kind, ops, each = case
    held = []
    if kind in SOURCES:
        spec = SOURCES[kind]
        src = copy.deepcopy(spec)
        mean = copy.deepcopy(spec)
        if spec['points'] is not None:
            src['points'] = real_points(spec['points'])
            mean['points'] = mk(spec['points'])
        held.append((src, plain(src)))
        # two objects over the same caller data
        objs = [expect_ok('accept', Kpoints, kpoints_dict=src, logger=LOGGER) for _ in range(2)]
    else:
        text, spec = TEXTS[kind]
        mean = copy.deepcopy(spec)
        if spec['points'] is not None:
            mean['points'] = mk(spec['points'])
            if spec['mode'] == 'line':
                for p in mean['points']:
                    p[1] = 1.0
        objs = [expect_ok('accept', Kpoints, kpoints_string=text, logger=LOGGER) for _ in range(2)]
    models = [mean, copy.deepcopy(mean)]
    states = set()

    def look(step, rt):
        for i in range(2):
            need('content', models[i], kdict(objs[i]), 'object %d after step %d' % (i, step))
            for key in ('comment', 'num_kpoints', 'mode', 'shifts'):
                need('get', models[i][key], expect_ok('get', objs[i].get, key), 'object %d get(%s)' % (i, key))
        for value, before in held:
            if not same(plain(value), before):
                raise Violation('caller-data', 'after step %d the data supplied by the caller changed: %r -> %r' % (step, before, plain(value)))
        if rt:
            for i in range(2):
                roundtrip(models[i], objs[i], 9, 'object %d after step %d' % (i, step))

    done = 0
    for who, op in ops:
        if not legal(models[who], op):
            continue
        done += 1
        if apply_real(objs[who], op, held) is not False:
            if op[0].endswith('-end') and -op[1] > len(models[who]['points']):
                raise Violation('refuse', 'point number %d of %d points is accepted' % (op[1], len(models[who]['points'])))
            apply_model(models[who], op)
        states.add(repr(models))
        if each:
            look(done, False)
    look(done, True)
    return {'model_states': states}


def history(ops, depths, kinds):
    def gen(ctx):
        kind = ctx.free('source', kinds)
        depth = ctx.free('depth', depths)
        each = ctx.free('each', [False, True])
        seq = []
        for i in range(depth):
            who = 0 if i == 0 else ctx.free('who', [0, 1])
            seq.append((who, ctx.free('op', ops)))
        return kind, tuple(seq), each
    return gen


KINDS = list(SOURCES) + list(TEXTS)
PROGRAMS = [
    Program('documents', gen_doc, judge_doc, quick=2, thorough=3),
    Program('histories', history(OPS, [1, 2], KINDS), judge_history),
    Program('from the end', history(ENDS, [1, 2], KINDS), judge_history),
    Program('histories-deep', history(SMALL, [3], KINDS), judge_history),
    Program('histories-3', history(OPS, [3], ['explicit-dict', 'explicit-tetra', 'line-text', 'auto-dict']), judge_history, enabled=('thorough',)),
    Program('histories-4', history(SMALL, [4], ['explicit-dict', 'line-dict']), judge_history, enabled=('thorough',)),
]
