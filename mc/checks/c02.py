"""C02: an INCAR object behaves as a last-writer-wins map of tags under any edits."""
from parsevasp.incar import Incar

from mc.core import Program, Violation
from mc.obs import LOGGER, attempt, expect_ok, need, put

PROPERTY = 'C02'
BOUNDS = ('every operation sequence up to length 3 (quick) / 4 (thorough; reduced alphabet 5) over two live objects from 5 initial sources, the state being '
          'observed after every step or only at the end (both)')
ORACLE = 'a dictionary tag -> (value, comment) per object'

# (call value, meaning)
VALS = [(400, 400), (0.5, 0.5), (True, True), (False, False), ([1, 2], [1, 2]), ('Fast', 'Fast'), ('1 2 3', [1, 2, 3]), ('.F.', False), ('7', 7), ('1E-3', 1e-3),
        (0.1 + 0.2, 0.1 + 0.2), ([2.0] * 5, [2.0] * 5), ('.T. .T. .F.', [True, True, False]), (0, 0), ('1 1 1 1 1', [1] * 5), (-1e-300, -1e-300)]
COMMENTS = [(None, None), ('why', 'why'), ('  padded ', 'padded'), ('', '')]

SOURCES = {
    'string': ('ENCUT = 300 # cut\nISMEAR = 0\nSYSTEM = a b # name\n', {'encut': (300, 'cut'), 'ismear': (0, None), 'system': ('a b', 'name')}),
    'path': ('encut=300;sigma = 0.1 # two\nalgo = Fast\n', {'encut': (300, 'two'), 'sigma': (0.1, 'two'), 'algo': ('Fast', None)}),
    'dict': ({'EnCut': 250, 'lreal': '.TRUE. # lr', 'ldauu': [1.0, 2.0]}, {'encut': (250, None), 'lreal': (True, 'lr'), 'ldauu': ([1.0, 2.0], None)}),
    'empty': ({}, {}),
    'handler': ('ISMEAR = -5\nENCUT = 1\nENCUT = 2 # last\n', {'ismear': (-5, None), 'encut': (2, 'last')}),
}

OPS = []
for _tag in ('encut', 'ENCUT', 'Sigma'):
    for _v in range(len(VALS)):
        OPS.append(('set', _tag, _v, 0))
    for _c in range(1, len(COMMENTS)):
        OPS.append(('set', _tag, 0, _c))
OPS += [('set', 'system', 5, 0), ('set', 'SYSTEM', 6, 1), ('set', ' algo ', 5, 2)]
OPS += [('del', t) for t in ('encut', 'ENCUT', 'sigma', 'SYSTEM', 'ismear', 'nsw', 'Algo', ' Encut')]
OPS += [('bad', 'encut', '1 two', 104), ('bad', 'sigma', (1, 2), 105), ('bad', 'ismear', None, 105)]
OPS += [('dict',), ('string',), ('commented',), ('reload',)]
SMALL = [('set', 'ENCUT', 0, 1), ('set', 'encut', 1, 0), ('set', 'sigma', 3, 2), ('del', 'ENCUT'), ('del', 'sigma'), ('bad', 'encut', '1 two', 104), ('dict',), ('reload',)]
NMID = [('set', 'encut', 0, 0), ('set', 'ENCUT', 1, 1), ('set', 'Sigma', 2, 0), ('set', 'sigma', 4, 2), ('set', 'system', 5, 1), ('del', 'encut'), ('del', 'ENCUT'), ('del', 'SIGMA'), ('del', 'SYSTEM'),
        ('bad', 'encut', '1 two', 104), ('bad', 'sigma', (1, 2), 105), ('dict',), ('commented',), ('reload',)]


def make(kind):
    data, model = SOURCES[kind]
    if kind == 'string':
        obj, src = Incar(incar_string=data, logger=LOGGER), None
    elif kind == 'path':
        obj, src = Incar(file_path=put('in', data), logger=LOGGER), None
    elif kind == 'handler':
        import io
        obj, src = Incar(file_handler=io.StringIO(data), logger=LOGGER), None
    else:
        src = {k: (list(v) if isinstance(v, list) else v) for k, v in data.items()}
        obj = Incar(incar_dict=src, logger=LOGGER)
    return obj, dict(model), src


def observe(inc, model, what):
    need('dict-view', {t: v for t, (v, _) in model.items()}, inc.get_dict(), what, strict=True, rtol=0, atol=0)
    for tag in ('encut', 'sigma', 'system', 'ismear', 'algo', 'lreal', 'ldauu', 'nsw'):
        value, comment = model.get(tag, (None, None))
        for spelling in (tag, tag.upper(), tag.capitalize(), ' %s ' % tag):
            need('get', value, inc.get(spelling), '%s.get(%s)' % (what, spelling), strict=True, rtol=0, atol=0)
            pair = inc.get(spelling, comment=True)
            if not isinstance(pair, (tuple, list)) or len(pair) != 2:
                raise Violation('get-comment', '%s.get(%s, comment=True) gave %r' % (what, spelling, pair))
            need('get', value, pair[0], '%s.get(%s, comment)[0]' % (what, spelling), strict=True, rtol=0, atol=0)
            need('get-comment', comment, pair[1], '%s.get(%s, comment)[1]' % (what, spelling))


def apply_model(model, op):
    if op[0] == 'set':
        tag = op[1].strip().lower()
        val = VALS[op[2]]
        if tag == 'system':
            model[tag] = (val[0], COMMENTS[op[3]][1])
        else:
            model[tag] = (val[1], COMMENTS[op[3]][1])
    elif op[0] == 'del':
        model.pop(op[1].strip().lower(), None)
    elif op[0] == 'reload':
        for tag in model:
            model[tag] = (model[tag][0], None)


def apply_real(objs, who, op):
    inc = objs[who]
    if op[0] == 'set':
        value = VALS[op[2]][0]
        if isinstance(value, list):
            value = list(value)
        if op[3] == 0:
            expect_ok('set', inc.modify, op[1], value)
        else:
            expect_ok('set', inc.modify, op[1], value, comment=COMMENTS[op[3]][0])
    elif op[0] == 'del':
        expect_ok('delete', inc.delete, op[1])
    elif op[0] == 'bad':
        out = attempt(inc.modify, op[1], op[2])
        if tuple(out) != ('exit', op[3]):
            raise Violation('refuse', 'setting %s to %r: expected exit %d, got %s' % (op[1], op[2], op[3], tuple(out)))
    elif op[0] == 'dict':
        got = expect_ok('export', inc.get_dict)
        got['encut'] = 'changed by the caller'
        got.pop('sigma', None)
    elif op[0] == 'string':
        expect_ok('export', inc.get_string)
    elif op[0] == 'commented':
        import io
        expect_ok('export', inc.write, file_handler=io.StringIO(), comments=True)
    elif op[0] == 'reload':
        objs[who] = expect_ok('reload', Incar, incar_string=inc.get_string(), logger=LOGGER)


def judge(case):
    kinds, ops, each = case
    objs, models, srcs = [], [], []
    for kind in kinds:
        obj, model, src = make(kind)
        objs.append(obj)
        models.append(model)
        srcs.append((src, repr(src)))
    states = set()

    def look(step):
        for i, obj in enumerate(objs):
            observe(obj, models[i], 'object%d after step %d' % (i, step))
        for src, before in srcs:
            if repr(src) != before:
                raise Violation('caller-data', 'the dictionary supplied by the caller changed: %s -> %r' % (before, src))

    for num, (who, op) in enumerate(ops):
        if op[0] == 'reload' and not models[who]:
            continue
        apply_real(objs, who, op)
        apply_model(models[who], op)
        states.add(repr([sorted((t, repr(v)) for t, v in m.items()) for m in models]))
        if each:
            look(num + 1)
    look(len(ops))
    return {'model_states': states}


def history(ops, depths, kinds):
    def gen(ctx):
        first = ctx.free('source', kinds)
        second = ctx.free('source2', ['string', 'dict'])
        depth = ctx.free('depth', depths)
        each = ctx.free('each', [False, True])
        seq = []
        for i in range(depth):
            who = 0 if i == 0 else ctx.free('who', [0, 1])
            seq.append((who, ctx.free('op', ops)))
        return ((first, second), tuple(seq), each)
    return gen


ALL = list(SOURCES)
PROGRAMS = [
    Program('every-op-pair', history(OPS, [1, 2], ALL), judge),
    Program('triples', history(NMID, [3], ['string', 'dict', 'empty']), judge),
    Program('quads', history(SMALL, [4], ['string', 'dict']), judge),
    Program('triples-all', history(OPS, [3], ['path']), judge, enabled=('thorough',)),
    Program('fives', history(SMALL, [5], ['string']), judge, enabled=('thorough',)),
]
