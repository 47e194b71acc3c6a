"""C09: invalid input is refused with its documented error, never half-accepted."""
import io
import os

import numpy as np

from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoint, Kpoints
from parsevasp.poscar import Poscar, Site

from mc.core import Program, Violation, scratch
from mc.models import incar as MI, jobs as J, kpoints as MK, poscar as MP, readonly as RO
from mc.obs import LOGGER, ROUTES, attempt, expect_ok, plain, put, same, via

PROPERTY = 'C09'
BOUNDS = ('all subsets of the four input sources x 3 parsers x present/missing file; one fault of every documented kind at every position of every document of the INCAR/KPOINTS/POSCAR grammars '
          '(1 deviation quick, 2 thorough) through four routes; every key x every wrong type/missing for dictionaries and edits; every combination of write target, target state and content fault; the read-only parsers without a source or file and every write of theirs')
ORACLE = 'the documented exit status of the fault; the object and the target file must be unchanged after a refusal'

GOOD = {
    'incar': (Incar, 'ENCUT = 500\n', {'encut': 500}),
    'kpoints': (Kpoints, 'c\n0\nG\n1 2 3\n', None),
    'poscar': (Poscar, 'c\n1.0\n4 0 0\n0 4 0\n0 0 4\nFe\n1\nDirect\n0 0 0\n', None),
}


def kdict(mode='automatic'):
    d = {'comment': 'c', 'divisions': None, 'generating_vectors': None, 'shifts': None, 'points': None, 'tetra': None, 'tetra_volume': None, 'mode': mode, 'centering': None,
         'num_kpoints': 0}
    if mode == 'automatic':
        d.update(divisions=[1, 2, 3], centering='Gamma')
    elif mode == 'explicit':
        d.update(points=[Kpoint(np.array([0.0, 0.25, 0.5]), 1.0), Kpoint(np.array([0.5, 0.0, 0.1]), 2.0)], num_kpoints=2, tetra=[[1, 1, 2, 1, 2]], tetra_volume=0.5)
    else:
        d.update(points=[Kpoint(np.array([0.0, 0.25, 0.5]), 1.0), Kpoint(np.array([0.5, 0.0, 0.1]), 1.0)], num_kpoints=10)
    return d


def pdict():
    return {'comment': 'c', 'unitcell': np.array([[4.0, 0.0, 0.5], [0.0, 5.0, 0.0], [0.0, 0.0, 6.0]]),
            'sites': [Site('Fe', np.array([0.0, 0.1, 0.2])), Site('O', np.array([0.5, 0.25, 0.3]), [True, False, True])]}


def want(exp, out, what):
    """`exp` is 'ok' or a documented status."""
    if exp == 'ok':
        if out[0] != 'ok':
            raise Violation('refused-valid', '%s: %s' % (what, tuple(out)))
    elif tuple(out) != ('exit', exp):
        shown = 'accepted' if out[0] == 'ok' else repr(tuple(out))
        raise Violation('status', '%s: expected exit status %r, got %s' % (what, exp, shown))


# ---------------------------------------------------------------- input sources
def gen_sources(ctx):
    kind = ctx.free('parser', ['incar', 'kpoints', 'poscar'])
    have = tuple(s for s in ('string', 'dict', 'path', 'handler') if ctx.free(s, [False, True]))
    exists = ctx.free('exists', ['file', 'missing', 'directory']) if 'path' in have else 'file'
    return kind, have, exists


def judge_sources(case):
    kind, have, exists = case
    cls, text, dic = GOOD[kind]
    dic = dic or (kdict() if kind == 'kpoints' else pdict())
    kw = {}
    if 'string' in have:
        kw[kind + '_string'] = text
    if 'dict' in have:
        kw[kind + '_dict'] = dic
    if 'path' in have:
        path = put('source', text)
        if exists == 'missing':
            path += '_not_there'
        if exists == 'directory':
            path = scratch()
        kw['file_path'] = path
    if 'handler' in have:
        kw['file_handler'] = io.StringIO(text)
    exp = 10 if len(have) != 1 else ('ok' if exists == 'file' else 14)
    want(exp, attempt(cls, logger=LOGGER, **kw), '%s from %s (%s)' % (kind, '+'.join(have) or 'nothing', exists))
    return str(exp)


# ---------------------------------------------------------------- faulty texts
INCAR_FAULTS = [
    (101, 'ENCUT = 500 = 3'), (101, 'ENCUT == 500'), (101, 'SIGMA = 0.1; ENCUT = 5 = 6'), (101, 'ENCUT = 500 SIGMA = 0.1'), (101, 'ENCUT = 1 = 2 # note'),
    (102, 'a line without sign'), (102, '! old comment'), (102, 'SIGMA = 0.1; ENCUT 500'), (102, 'ENCUT; SIGMA = 0.2'), (102, 'ENCUT 500 # = 4'),
    (104, 'ENCUT = 500 eV'), (104, 'DIPOL = 0.5 0.5 1'), (104, 'LDAUU = 1 2.0'), (104, 'ENCUT = 500 ! comment'), (104, 'ISMEAR = 0 0 x'), (104, 'SIGMA = 0.1; ISMEAR = 0 F'),
    (104, 'LDAUU = x 1'), (104, 'LDAUU = 1.5 x 2.5'),
    (100, 'ENCUTT = 500'), (100, 'NOSUCHTAG = .TRUE.'), (100, 'SIGMA = 0.1; XYZ = 1'), (100, 'system2 = a'),
]


def gen_incar_text(ctx):
    status, bad = ctx.free('fault', INCAR_FAULTS)
    text, _entries = MI.gen_document(ctx, 2)
    eol = '\r\n' if '\r\n' in text else '\n'
    lines = text.split(eol)
    pos = ctx.free('position', list(range(3)))
    if pos > len(lines):
        pos = len(lines)
    lines.insert(pos, bad)
    return 'incar', status, eol.join(lines)


def pick_lines(text):
    eol = '\r\n' if '\r\n' in text else '\n'
    return eol, text.split(eol)


def gen_kpoints_text(ctx):
    from mc.core import Skip
    text, mean = MK.gen(ctx, npoints=(1, 3), nseg=(1, 2))
    eol, lines = pick_lines(text)
    faults = {'automatic': [('auto', 202), ('expert-d', 203), ('expert-c', 203), ('unknown', 206)], 'explicit': [('cart-c', 200), ('cart-k', 200)], 'line': [('cart-c', 200), ('cart-k', 200)]}[mean['mode']]
    if mean['tetra']:
        faults = faults + [('tetra-short', 201), ('tetra-long', 201)]
    fault, status = ctx.free('fault', faults)
    if fault == 'auto':
        lines[2] = ctx.choose('word', ['Auto', 'a', 'AUTOMATIC', ' automatic'])
    elif fault.startswith('expert'):
        lines[2] = ctx.choose('word', {'d': ['Direct', 'd', ' D'], 'c': ['Cartesian', 'c', 'C']}[fault[-1]])
    elif fault == 'unknown':
        lines[2] = ctx.choose('word', ['xyz', 'Shifted', '1'])
    elif fault.startswith('cart'):
        lines[3 if mean['mode'] == 'line' else 2] = ctx.choose('word', {'c': ['Cartesian', 'c', ' C', 'CART'], 'k': ['K', 'k', 'kartesian']}[fault[-1]])
    else:
        first = 3 + mean['num_kpoints'] + 2
        idx = first + ctx.free('row', list(range(len(mean['tetra']))))
        parts = lines[idx].split()
        lines[idx] = ' '.join(parts[:4]) if fault == 'tetra-short' else ' '.join(parts + ['9'])
    return 'kpoints', status, eol.join(lines)


def gen_poscar_text(ctx):
    from mc.core import Skip
    text, mean = MP.gen(ctx, MP.SMALLGROUPS)
    eol, lines = pick_lines(text)
    fault = ctx.free('fault', ['vasp4', 'scaling', 'junk-after-header', 'junk-after-blank'])
    sel = any(False in s['selective'] for s in mean['sites']) or lines[7].strip()[:1].lower() == 's'
    if fault == 'vasp4':
        del lines[5]
        return 'poscar', 301, eol.join(lines)
    if fault == 'scaling':
        lines[1] = ctx.choose('neg', ['-1.0', '-40', ' -0.5', '-1e-3'])
        return 'poscar', 307, eol.join(lines)
    if mean['sites'][0]['velocities'] is not None or mean['sites'][0]['predictors'] is not None:
        raise Skip()
    end = (9 if sel else 8) + len(mean['sites'])
    lines = lines[:end]
    lines += [ctx.choose('header', ['Direct', 'Cartesian', 'c'])] if fault == 'junk-after-header' else ['']
    lines += [ctx.choose('junk', ['no numbers here', 'x 1 2 3', 'abc', 'T T F'])] * len(mean['sites'])
    return 'poscar', 302, eol.join(lines) + (eol if ctx.choose('final', [True, False]) else '')


def judge_text(case):
    kind, status, text = case
    cls = GOOD[kind][0]
    for route in ('string',) + ROUTES:
        want(status, attempt(via, cls, text, route, kind + '_string'), '%s text %r via %s' % (kind, text[-60:], route))
        if status == 100:
            want('ok', attempt(via, cls, text, route, kind + '_string', validate_tags=False), 'validation off via ' + route)
    return str(status)


# ---------------------------------------------------------------- dictionaries and edits
WRONG = {'none': None, 'int': 3, 'str': 'text', 'float': 1.5, 'list': [1, 2], 'tuple': (1, 2), 'dict': {'a': 1}, 'set': frozenset([1]), 'object': object, 'bytes': b'x', 'bool': True,
         'nested': [[1, 2]], 'strlist': ['a'], 'array': 'ARRAY', 'nonelist': [None], 'floatlist': [0.5, 0.25, 0.0], 'nestedfloat': [[0.1, 0.2, 0.3]] * 3, 'badtet': [[1, 2, 3, 4]],
         'mixedtet': [[1, 2, 3, 4, 5], [1, 2, 3, 4, 5.5]], 'tet': [[1, 2, 3, 4, 5]], 'cartpoint': 'CARTPOINT', 'point': 'POINT', 'site': 'SITE', 'mixedpoints': 'MIXEDPOINTS', 'mixedsites': 'MIXEDSITES',
         'centering-word': 'gamma', 'mode-word': 'explicit2', 'array33': 'ARRAY33', 'array9': 'ARRAY9', 'tuplepoints': 'TUPLEPOINTS', 'listcell': [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]}

# one wrong item at each place of an otherwise valid value, and words that only resemble the allowed ones
EXTRA = {'ints-last-text': [1, 2, 'x'], 'ints-first-float': [1.0, 2, 3], 'ints-middle-none': [1, None, 3], 'ints-last-float': [4, 4, 4.0], 'floats-last-int': [0.5, 0.5, 1], 'floats-first-int': [0, 0.5, 0.5],
         'floats-middle-text': [0.5, '0.5', 0.5], 'floats-zero': [0.0, 0.0, 0.0], 'ints-equal': [1, 1, 1],
         'vectors-last-int': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], [0.0, 0.0, 1]], 'vectors-last-tuple': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], (0.0, 0.0, 0.1)],
         'vectors-middle-text': [[0.1, 0.0, 0.0], [0.0, 'a', 0.0], [0.0, 0.0, 0.1]], 'vectors-flat-end': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], 0.5], 'vectors-none': [[0.1, 0.0, 0.0], None, [0.0, 0.0, 0.1]],
         'tets-second-short': [[1, 2, 3, 4, 5], [1, 2, 3, 4]], 'tets-six': [[1, 2, 3, 4, 5, 6]], 'tets-last-long': [[1, 2, 3, 4, 5], [1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6]],
         'tets-second-tuple': [[1, 2, 3, 4, 5], (1, 2, 3, 4, 5)], 'tets-first-float': [[1.0, 2, 3, 4, 5]], 'tets-last-text': [[1, 2, 3, 4, 5], [1, 2, 3, 4, '5']], 'tets-empty-item': [[1, 2, 3, 4, 5], []],
         'tets-two': [[1, 1, 1, 1, 1], [1, 1, 1, 1, 1]],
         'none-at-all': [], 'ints-one': [4], 'ints-two': [4, 4], 'ints-four': [4, 4, 4, 4], 'floats-one': [0.5], 'floats-two': [0.5, 0.5], 'floats-four': [0.0, 0.0, 0.0, 0.0],
         'vectors-two': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0]], 'vectors-four': [[0.1, 0.0, 0.0]] * 4, 'vectors-first-long': [[0.1, 0.0, 0.0, 0.0], [0.0, 0.1, 0.0], [0.0, 0.0, 0.1]],
         'vectors-last-short': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], [0.0, 0.1]], 'vectors-last-empty': [[0.1, 0.0, 0.0], [0.0, 0.1, 0.0], []]}
EXTRA.update({'word:' + w: w for w in ('Gamma-shifted', 'G', 'g', 'Gamma ', ' Gamma', 'GAMMA', 'Gam', 'Monkhorst', 'Monkhorst-Pack grid', 'monkhorst-pack', 'MonkhorstPack', 'Reciprocal2', 'Rec', 'reciprocal',
                                       'Explicit', 'explicit ', 'lines', 'lin', 'Line', 'line-mode', 'automatic ', 'auto', 'Automatic', 'e', '', 'None', 'Gamma,Monkhorst-Pack', 'Direct')})


def rule(kind, key, value):
    """The documented status of a value that is neither None nor of an undecided kind."""
    if kind == 'incar':
        return None if isinstance(value, (str, list)) else 105
    if key == 'comment':
        return 'ok' if isinstance(value, str) else 13
    if value == [] and key in ('points', 'sites'):
        return None
    if kind == 'poscar':
        return 13
    if key in ('centering', 'mode'):
        return 212 if key == 'centering' else 213
    if not isinstance(value, list) or key in ('num_kpoints', 'tetra_volume'):
        return 13
    if key == 'points':
        return 210
    if key in ('divisions', 'shifts'):
        return 'ok' if len(value) == 3 and all(type(x) is (int if key == 'divisions' else float) for x in value) else 13
    if key == 'generating_vectors' and (len(value) != 3 or any(not isinstance(item, list) or len(item) != 3 for item in value)):
        return 13
    for item in value:
        if not isinstance(item, list):
            return 13
        if key == 'tetra' and len(item) != 5:
            return 201
        if not all(type(x) is (int if key == 'tetra' else float) for x in item):
            return 13
    return 'ok'


def build(name):
    val = WRONG[name]
    if isinstance(val, str) and val.isupper() and name not in EXTRA:
        pt = Kpoint(np.array([0.0, 0.5, 0.25]), 1.0)
        return {'ARRAY': np.array([1.0, 2.0]), 'CARTPOINT': [pt, Kpoint(np.array([1.0, 0.0, 0.0]), 1.0, direct=False)], 'POINT': [pt], 'SITE': [Site('H', np.array([0.1, 0.2, 0.3]))],
                'MIXEDPOINTS': [pt, [0.0, 0.0, 0.0]], 'MIXEDSITES': [Site('H', np.array([0.1, 0.2, 0.3])), 'H'], 'ARRAY33': np.eye(3) * 4, 'ARRAY9': np.arange(9.0),
                'TUPLEPOINTS': (pt,)}[val]
    return val


WRONG.update(EXTRA)


def status_kpoints(key, name):
    """Documented status of setting `key` to WRONG[name] (None: not decided here)."""
    if name in EXTRA:
        return rule('kpoints', key, EXTRA[name])
    if name == 'none':
        return {'num_kpoints': 13}.get(key, 'ok')
    if key == 'comment':
        return 'ok' if name in ('str', 'centering-word', 'mode-word') else 13
    if key == 'points':
        if name in ('point',):
            return 'ok'
        if name in ('cartpoint',):
            return 205
        if name in ('list', 'nested', 'strlist', 'nonelist', 'floatlist', 'nestedfloat', 'badtet', 'mixedtet', 'tet', 'site', 'mixedpoints', 'mixedsites', 'listcell'):
            return 210
        return 13
    if key == 'centering':
        return None if name in ('array', 'array33', 'array9') else 212
    if key == 'mode':
        return None if name in ('array', 'array33', 'array9') else 213
    if key == 'num_kpoints':
        return 'ok' if name == 'int' else (None if name == 'bool' else 13)
    if key == 'divisions':
        return 13
    if key == 'shifts':
        return 'ok' if name == 'floatlist' else 13
    if key == 'tetra_volume':
        return 'ok' if name == 'float' else 13
    if key == 'generating_vectors':
        return 'ok' if name in ('nestedfloat', 'listcell') else 13
    if key == 'tetra':
        if name == 'tet':
            return 'ok'
        if name in ('nested', 'badtet', 'nestedfloat', 'listcell'):
            return 201
        return 13
    raise ValueError(key)


def status_poscar(key, name):
    if name in EXTRA:
        return rule('poscar', key, EXTRA[name])
    if key == 'comment':
        return 'ok' if name in ('none', 'str', 'centering-word', 'mode-word') else 13
    if key == 'unitcell':
        return 'ok' if name == 'array33' else 13
    return 'ok' if name == 'site' else 13


def status_incar(name):
    if name in EXTRA:
        return rule('incar', None, EXTRA[name])
    if name == 'none':
        return 105
    if name in ('int', 'str', 'float', 'list', 'bool', 'nested', 'strlist', 'nonelist', 'floatlist', 'nestedfloat', 'badtet', 'mixedtet', 'tet', 'listcell', 'centering-word', 'mode-word', 'cartpoint',
                'point', 'site', 'mixedpoints', 'mixedsites'):
        return None
    return 105


KEYS = {'kpoints': ['comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints'], 'poscar': ['comment', 'unitcell', 'sites']}


def gen_dict(ctx):
    kind = ctx.free('parser', ['kpoints', 'poscar', 'incar'])
    if kind == 'incar':
        what = ctx.free('fault', ['type', 'two-comments', 'mixed', 'unsupported', 'good'])
        pos = ctx.free('position', [0, 1, 2])
        if what == 'type':
            return kind, what, pos, ctx.free('value', list(WRONG))
        if what == 'two-comments':
            return kind, what, pos, ctx.free('value', ['500 # a # b', 'x # y ## z', '##', '1 # 2 # 3 # 4'])
        if what == 'mixed':
            return kind, what, pos, ctx.free('value', ['1 2.0', 'a 1', '1 x # note', '0.5 0.5 1', '.TRUE. 1'])
        return kind, what, pos, ctx.free('value', ['1', '.TRUE.'])
    mode = ctx.free('mode', ['automatic', 'explicit', 'line']) if kind == 'kpoints' else None
    key = ctx.free('key', KEYS[kind])
    fault = ctx.free('fault', ['MISSING'] + list(WRONG))
    return kind, mode, key, fault


def judge_dict(case):
    if case[0] == 'incar':
        _kind, what, pos, value = case
        items = [('SIGMA', 0.1), ('ISMEAR', '0 # gauss')]
        val = build(value) if what == 'type' else value
        items.insert(pos, ('NOSUCH' if what == 'unsupported' else 'ENCUT', val))
        exp = {'type': lambda: status_incar(value), 'two-comments': lambda: 103, 'mixed': lambda: 104, 'unsupported': lambda: 100, 'good': lambda: 'ok'}[what]()
        if exp is None:
            return 'undecided'
        want(exp, attempt(Incar, incar_dict=dict(items), logger=LOGGER), 'INCAR dictionary %r' % (items,))
        inc = Incar(incar_string='ENCUT = 400\nSIGMA = 0.2 # keep\n', logger=LOGGER)
        if what in ('type', 'mixed'):
            before = plain(inc.entries)
            out = attempt(inc.modify, 'ENCUT', val)
            want(exp, out, 'modify ENCUT to %r' % (val,))
            if not same(before, plain(inc.entries)):
                raise Violation('half-applied', 'a refused edit changed the object')
        return str(exp)
    kind, mode, key, fault = case
    cls = GOOD[kind][0]
    dic = kdict(mode) if kind == 'kpoints' else pdict()
    if fault == 'MISSING':
        exp = 12
        del dic[key]
    else:
        exp = (status_kpoints if kind == 'kpoints' else status_poscar)(key, fault)
        dic[key] = build(fault)
    if exp is None:
        return 'undecided'
    if kind == 'kpoints' and all(dic.get(k) is None for k in ('divisions', 'points', 'generating_vectors')):
        exp = 206
    want(exp, attempt(cls, logger=LOGGER, **{kind + '_dict': dic}), '%s dictionary with %s=%s' % (kind, key, fault))
    return str(exp)


def gen_edit(ctx):
    kind = ctx.free('parser', ['kpoints', 'poscar'])
    mode = ctx.free('mode', ['explicit', 'automatic', 'line']) if kind == 'kpoints' else None
    what = ctx.free('what', ['entry', 'badname', 'index', 'delete'])
    if what == 'entry':
        return kind, mode, what, ctx.free('key', KEYS[kind]), ctx.free('fault', list(WRONG))
    if what == 'badname':
        return kind, mode, what, ctx.free('name', ['', 'point', 'comments', 'Comment', 'unit', 'site', 'pointss', 'selective', 'position', 'weights', 'generating', 'e', None, 3]), None
    if mode == 'automatic':
        from mc.core import Skip
        raise Skip()
    return kind, mode, what, ctx.free('index', [0, 1, 2, 7, '0', 1.0, None, [0]]), ctx.free('value', ['GOOD'] + list(WRONG)) if what == 'index' else None


def judge_edit(case):
    kind, mode, what, arg, extra = case
    cls = GOOD[kind][0]
    obj = expect_ok('setup', cls, logger=LOGGER, **{kind + '_dict': kdict(mode) if kind == 'kpoints' else pdict()})
    before = plain(obj.entries)
    name = 'points' if kind == 'kpoints' else 'sites'
    if what == 'entry':
        value = build(extra)
        if value is None:
            # None means "leave it to the stored value" in the checks; not decided here
            return 'undecided'
        exp = (status_kpoints if kind == 'kpoints' else status_poscar)(arg, extra)
        if exp is None:
            return 'undecided'
        out = attempt(obj.modify, arg, value)
    elif what == 'badname':
        exp = 207 if kind == 'kpoints' else 305
        out = attempt(obj.modify, arg, 'x')
    elif what == 'index':
        if extra == 'GOOD':
            value = Kpoint(np.array([0.3, 0.2, 0.1]), 0.5) if kind == 'kpoints' else Site('H', np.array([0.3, 0.2, 0.1]))
        else:
            value = build(extra)
        if arg is None:
            return 'undecided'
        bad = None if isinstance(arg, int) else 13
        if bad is None and arg > 1:
            bad = 211 if kind == 'kpoints' else 304
        wrong = None if extra == 'GOOD' else (210 if kind == 'kpoints' else 13)
        out = attempt(obj.modify, name, value, arg)
        if bad and wrong:
            if out[0] != 'exit' or out[1] not in (bad, wrong):
                raise Violation('status', 'modify(%s, %s, %r): %s' % (name, extra, arg, tuple(out)))
            exp = out[1]
        else:
            exp = bad or wrong or 'ok'
    else:
        exp = 13 if not isinstance(arg, int) else ('ok' if arg < 2 else (211 if kind == 'kpoints' else 304))
        out = attempt(obj.delete_point if kind == 'kpoints' else obj.delete_site, arg)
    want(exp, out, '%s %s %r %r' % (kind, what, arg, extra))
    if exp != 'ok' and not same(before, plain(obj.entries)):
        raise Violation('half-applied', 'a refused edit changed the object: %s %r %r' % (what, arg, extra))
    return str(exp)


# ---------------------------------------------------------------- refused writes
TARGETS = ['existing', 'new', 'missing-directory', 'directory', 'empty']


def gen_write(ctx):
    kind = ctx.free('parser', ['incar', 'kpoints-automatic', 'kpoints-explicit', 'kpoints-line', 'poscar'])
    args = ctx.free('arguments', ['path', 'handler', 'none', 'both', 'nonepath', 'nonehandler'])
    target = ctx.free('target', TARGETS) if args in ('path', 'both') else 'existing'
    base = kind.split('-')[0]
    if base == 'incar':
        fault = ctx.free('fault', ['valid'])
        key = None
    else:
        key = ctx.free('key', [None] + KEYS[base])
        fault = 'valid' if key is None else ctx.free('fault', ['MISSING'] + list(WRONG))
    if base == 'poscar' and key is None:
        fault = ctx.free('site', ['valid', 'cartesian-first', 'cartesian-last', 'cartesian-modified'])
    return kind, args, target, key, fault


def judge_write(case):
    kind, args, target, key, fault = case
    base, _, mode = kind.partition('-')
    if base == 'incar':
        obj = Incar(incar_string='ENCUT = 400\n', logger=LOGGER)
    elif base == 'kpoints':
        obj = Kpoints(kpoints_dict=kdict(mode), logger=LOGGER)
    else:
        obj = Poscar(poscar_dict=pdict(), logger=LOGGER)
    status = 'ok'
    if key is not None:
        if fault == 'MISSING':
            del obj.entries[key]
            status = 12
        else:
            obj.entries[key] = build(fault)
            status = (status_kpoints if base == 'kpoints' else status_poscar)(key, fault)
        if base == 'kpoints' and all(obj.entries.get(k) is None for k in ('divisions', 'points', 'generating_vectors')):
            status = 206
    elif fault.startswith('cartesian'):
        cart = Site('H', np.array([1.0, 2.0, 0.5]), direct=False)
        if fault == 'cartesian-modified':
            obj.modify('sites', cart, 1)
        else:
            sites = obj.entries['sites']
            obj.modify('sites', [cart] + sites if fault == 'cartesian-first' else sites + [cart])
        status = 306
    old = 'previous content\nof the target\n'
    path = put('target', old if target != 'empty' else '')
    if target == 'new':
        os.remove(path)
    elif target == 'missing-directory':
        path = os.path.join(scratch(), 'not_there', 'target')
    elif target == 'directory':
        path = scratch()
    sink = io.StringIO()
    kw = {'path': {'file_path': path}, 'handler': {'file_handler': sink}, 'none': {}, 'both': {'file_path': path, 'file_handler': sink}, 'nonepath': {'file_path': None},
          'nonehandler': {'file_handler': None}}[args]
    exp = status
    if args in ('none', 'both'):
        exp = 10
    elif args == 'nonepath':
        exp = 16
    elif args == 'nonehandler':
        exp = 15
    elif args == 'path' and target in ('missing-directory', 'directory'):
        # a value of a valid type may still make a combination that can not be written, which one is refused first is not decided
        exp = 14 if status == 'ok' and key is None else (14, status)
    out = attempt(obj.write, **kw)
    what = '%s write(%s, target %s) with %s=%s' % (kind, args, target, key, fault)
    if isinstance(exp, tuple):
        if out[0] != 'exit' or (exp[1] is not None and out[1] not in exp):
            if exp[1] not in (None, 'ok'):
                raise Violation('status', '%s: %s' % (what, tuple(out)))
    elif exp == 'ok' and key is not None:
        pass  # a valid type, but the combination may still be impossible to write: only the target is judged
    elif exp is not None:
        want(exp, out, what)
    if out[0] != 'ok':
        if target in ('existing', 'empty'):
            with open(path, encoding='utf8') as fh:
                now = fh.read()
            if now != (old if target == 'existing' else ''):
                raise Violation('target-touched', '%s: refused, but the target now holds %r' % (what, now[:80]))
        if target == 'new' and os.path.exists(path):
            raise Violation('target-touched', '%s: refused, but the target was created' % what)
        if sink.getvalue():
            raise Violation('target-touched', '%s: refused, but %r was written to the handler' % (what, sink.getvalue()[:80]))
    elif args == 'path' and key is None and fault == 'valid':
        with open(path, encoding='utf8') as fh:
            if fh.read() != obj.get_string():
                raise Violation('written', '%s: the target does not hold the content' % what)
    return str(exp)


# ---------------------------------------------------------------- read-only parsers
def gen_readonly(ctx):
    kind = ctx.free('parser', sorted(RO.SAMPLES))
    args = ctx.free('arguments', ['path', 'handler', 'none', 'both'])
    target = ctx.free('target', TARGETS)
    return kind, args, target


def judge_readonly(case):
    kind, args, target = case
    obj = expect_ok('setup', RO.make, kind)
    old = 'previous content\n'
    path = put('target', old if target != 'empty' else '')
    if target == 'new':
        os.remove(path)
    elif target == 'missing-directory':
        path = os.path.join(scratch(), 'not_there', 'target')
    elif target == 'directory':
        path = scratch()
    sink = io.StringIO()
    kw = {'path': {'file_path': path}, 'handler': {'file_handler': sink}, 'none': {}, 'both': {'file_path': path, 'file_handler': sink}}[args]
    out = attempt(obj.write, **kw)
    what = '%s write(%s, target %s)' % (kind, args, target)
    if args in ('none', 'both'):
        want(10, out, what)
    elif out[0] == 'ok' or (out[0] == 'raise' and out[1] != 'NotImplementedError') or (out[0] == 'exit' and not (args == 'path' and target in ('missing-directory', 'directory') and out[1] == 14)):
        raise Violation('status', '%s: %s' % (what, tuple(out)))
    if target in ('existing', 'empty'):
        with open(path, encoding='utf8') as fh:
            if fh.read() != (old if target == 'existing' else ''):
                raise Violation('target-touched', what)
    if target == 'new' and os.path.exists(path):
        raise Violation('target-touched', what + ' created the target')
    if sink.getvalue():
        raise Violation('target-touched', what + ' wrote to the handler')
    return out[0]


# ---------------------------------------------------------------- sources of the read-only parsers
def gen_readonly_source(ctx):
    return ctx.free('parser', [k for k in J.KINDS if k not in ('incar', 'kpoints', 'poscar')]), ctx.free('source', ['nothing', 'none', 'missing', 'missing folder', 'directory', 'empty path'])


def judge_readonly_source(case):
    kind, how = case
    path = {'missing': os.path.join(scratch(), 'not_there'), 'missing folder': os.path.join(scratch(), 'no', 'where'), 'directory': scratch(), 'empty path': ''}.get(how)
    kw = {} if how == 'nothing' else {'file_path': None, 'file_handler': None} if how == 'none' else {'file_path': path}
    out = attempt(J.cls(kind), logger=LOGGER, **kw)
    if kind == 'potcar' and how in ('nothing', 'none'):
        if tuple(out[:2]) != ('raise', 'ValueError'):
            raise Violation('status', '%s from %s: %s' % (kind, how, tuple(out[:2])))
        return 'ValueError'
    want((510 if kind == 'vasprun' else 10) if path is None else 14, out, '%s from %s' % (kind, how))
    return str(out[1])


PROGRAMS = [
    Program('input-sources', gen_sources, judge_sources),
    Program('incar-texts', gen_incar_text, judge_text, quick=1, thorough=2),
    Program('kpoints-texts', gen_kpoints_text, judge_text, quick=1, thorough=2),
    Program('poscar-texts', gen_poscar_text, judge_text, quick=1, thorough=2),
    Program('dictionaries', gen_dict, judge_dict),
    Program('edits', gen_edit, judge_edit),
    Program('refused-writes', gen_write, judge_write),
    Program('read-only-writes', gen_readonly, judge_readonly),
    Program('read-only-sources', gen_readonly_source, judge_readonly_source),
]
