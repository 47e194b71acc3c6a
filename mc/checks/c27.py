"""C27: the shared text, file and coordinate helpers answer as documented."""
import io
import itertools
import math
import os
from fractions import Fraction

import numpy as np

from parsevasp import utils

from mc import core
from mc.core import Program, Skip, Violation
from mc.obs import LOGGER, attempt, need, put

PROPERTY = 'C27'
BOUNDS = ('every string of up to 5 (6 thorough) characters over digits, signs, point, exponent letters and one other letter, and every line of up to 3 (4) such entries; every line of up to 4 items of 9 number spellings times '
          'separators, ends and input kinds; every OUTCAR parameter line of up to 3 deviations; every 3x3 lattice with entries -1,0,1 (and -1,0,1,2) times a vector set, and skewed, large and small lattices; every text of up to 4 lines '
          'times every filter and input kind; every file content of up to 4 characters times the number of line ends removed')
ORACLE = 'a hand-written finite automaton for numbers, exact rational linear algebra, and direct list comprehensions over the text'

ALPHABET = '07.+-eE*x '


def automaton(text):
    """None (no number), 'int' or 'float': [sign] digits [. digits] [e [sign] digits], at least one digit in the mantissa."""
    state = 'start'
    digits = False
    real = False
    for char in text:
        if char in '0123456789':
            if state in ('start', 'sign', 'int'):
                state, digits = 'int', True
            elif state == 'frac':
                digits = True
            elif state in ('e', 'esign', 'exp'):
                state = 'exp'
        elif char in '+-' and state in ('start', 'e'):
            state = 'sign' if state == 'start' else 'esign'
        elif char == '.' and state in ('start', 'sign', 'int'):
            state, real = 'frac', True
        elif char in 'eE' and state in ('int', 'frac') and digits:
            state, real = 'e', True
        else:
            return None
    if not digits or state in ('e', 'esign'):
        return None
    return 'float' if real else 'int'


def gen_words(size):
    def gen(ctx):
        return tuple(ctx.free('c%d' % i, ALPHABET) for i in range(2)) + (size,)

    return gen


def judge_words(case):
    head = case[0] + case[1]
    done = 0
    for length in range(0, case[2] - 1):
        for tail in itertools.product(ALPHABET, repeat=length):
            text = head + ''.join(tail)
            short = [text] if length else [text, text[:1]]
            for word in short:
                if word != word.strip() or not word:
                    continue
                done += 1
                entries = word.split(' ')
                kinds = [automaton(e) for e in entries if e]
                got = attempt(utils.is_numbers, word)
                if got[0] != 'ok' or got[1] is not all(k is not None for k in kinds):
                    raise Violation('is_numbers', '%r: %s' % (word, tuple(got)))
                if '*' in word and ' ' not in word:
                    got = attempt(utils.is_numbers, word, splitter='*')
                    if got[0] != 'ok' or got[1] is not all(automaton(e) is not None for e in word.split('*')):
                        raise Violation('is_numbers-splitter', '%r: %s' % (word, tuple(got)))
                kind = automaton(word)
                got = attempt(utils.is_number, word)
                if got[0] != 'ok' or got[1] is not (kind is not None):
                    raise Violation('is_number', '%r: %s' % (word, tuple(got)))
                got = attempt(utils.test_string_content, word)
                if got[0] != 'ok' or got[1] != (kind or 'string'):
                    raise Violation('test_string_content', '%r: %s' % (word, tuple(got)))
    return {'words': done}


WORDS = ['nan', 'inf', 'NaN', 'Infinity', '-inf', 'H', 'Si1', 'one', '1,', '1;', '1.0.0', '--1', '1-1', '.TRUE.', 'T', '1d', '0x1', 'e5', '.e5', 'E', '+', '.', '-.', '1e', '1e+']


def gen_text(ctx):
    return (ctx.free('word', WORDS), ctx.free('beside', ['', ' 1', '  -2.5']), ctx.free('first', [False, True]))


def judge_text(case):
    word, beside, first = case
    need('word', 'string', utils.test_string_content(word))
    if word.strip('-+').lower() in ('nan', 'inf', 'infinity'):
        return
    need('word', False, utils.is_number(word))
    need('words', False, utils.is_numbers((beside + ' ' + word) if first else (word + beside)))


NUMBERS = [('1', 1), ('-2', -2), ('+3', 3), ('0', 0), ('123456789', 123456789), ('007', 7)]
REALS = [('1.5', 1.5), ('-0.25E+01', -2.5), ('1', 1.0), ('.5', .5), ('2.', 2.), ('1e-5', 1e-5), ('0.1234567-101', .1234567e-101), ('-0.5+102', -.5e102), ('0.00000E+00', 0.)]
TEXTS = [('CAR', 'CAR'), ('1', '1'), ('1.5', '1.5'), ('0.1-101', '0.1-101'), ('unknown', 'unknown')]


def gen_line(kind):
    pool = {'int': NUMBERS, 'float': REALS, 'str': TEXTS}[kind]

    def gen(ctx):
        count = ctx.free('items', [1, 0, 2, 3, 4])
        items = [ctx.free('item', pool) if i < 2 or count < 4 else pool[(i * 3 + 1) % len(pool)] for i in range(count)]
        return (kind, tuple(items), ctx.choose('sep', [' ', '  ', '\t', '   ']), ctx.choose('lead', ['', ' ', '\t', '     ']), ctx.choose('end', ['\n', '', ' \n', '  ']),
                ctx.choose('more', ['', '9 9 9\n', '\n', 'text\n']), ctx.choose('source', ['string', 'stringio', 'file', 'second line']), ctx.flag('nosplit'))

    return gen


def judge_line(case):
    kind, items, sep, lead, end, more, source, nosplit = case
    if source != 'string' and more and not end.endswith('\n'):
        return 'skipped'
    text = lead + sep.join(t for t, _ in items) + end
    dtype = {'int': int, 'float': float, 'str': str}[kind]
    rest = None
    if source == 'string':
        got = utils.line_to_type(text, d_type=dtype, no_split=nosplit)
    else:
        content = ('0 0\n' if source == 'second line' else '') + text + more
        if source == 'file':
            with open(put('line.txt', content), 'r', encoding='utf8') as handle:
                got = utils.line_to_type(handle, d_type=dtype, no_split=nosplit)
                rest = handle.read()
        else:
            handle = io.StringIO(content)
            if source == 'second line':
                need('first', [0, 0], utils.line_to_type(handle, int))
            got = utils.line_to_type(handle, d_type=dtype, no_split=nosplit)
            rest = handle.read()
        need('rest', more, rest)
    if nosplit:
        if kind == 'str':
            need('nosplit', text.strip(), got)
        return
    want = [v for _, v in items]
    need('items', want[0] if len(want) == 1 else want, got, strict=True, rtol=1e-15, atol=0)


KEYS = ['NELM', 'NSW', 'IBRION']


def gen_param(ctx):
    key = ctx.free('key', KEYS)
    return dict(key=key, word=ctx.choose('word', [key] + [k for k in KEYS if k != key] + [key + 'IN', 'X' + key]), lead=ctx.choose('lead', ['   ', ' ', '', '          ']),
                before=ctx.choose('before', ['', 'a ', '# ']), left=ctx.choose('left', [' ', '', '      ']), right=ctx.choose('right', [' ', '', '      ']), value=ctx.choose('value', [60, 0, -1, 1, 1000, 7]),
                after=ctx.choose('after', [';   NELMIN=  2; NELMDL= -5     # of ELM steps', '', '    number of steps for IOM', '\n']), start=ctx.choose('start', [None, 5]))


def judge_param(case):
    line = case['before'] + case['lead'] + case['word'] + case['left'] + '=' + case['right'] + str(case['value']) + case['after']
    inputs = {k.lower(): case['start'] for k in KEYS}
    attempt(utils.match_integer_param, inputs, case['key'], line)
    want = {k.lower(): case['start'] for k in KEYS}
    if case['word'] == case['key'] and not case['before']:
        if not case['lead']:
            return 'not indented'
        want[case['key'].lower()] = case['value']
    need('parameter', want, inputs, what=repr(line))


VECTORS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0), (.5, .25, -.125), (-3, 7, 11), (1, 1, 1), (.1, .2, .3)]
SHAPES = [((5.43, 0, 0), (0, 5.43, 0), (0, 0, 5.43)), ((0, 2.7, 2.7), (2.7, 0, 2.7), (2.7, 2.7, 0)), ((3.2, 0, 0), (-1.6, 2.7712812921102037, 0), (0, 0, 5.2)), ((1e3, 1, 2), (3, 2e3, 1), (0, 5, 5e2)),
          ((1e-3, 0, 0), (1e-4, 2e-3, 0), (0, 1e-4, 1e-3)), ((4, .1, .2), (.3, 5, .4), (.5, .6, 6)), ((-3, 0, 0), (0, -3, 0), (0, 0, -3)), ((0, 0, 4), (5, 0, 0), (0, 6, 0))]


def gen_lattice(entries):
    def gen(ctx):
        rows = tuple(tuple(ctx.free('e', entries) for _ in range(3)) for _ in range(3))
        if det(rows) == 0:
            raise Skip
        return rows

    return gen


def gen_shape(ctx):
    rows = ctx.free('shape', SHAPES)
    scale = ctx.free('scale', [1, 2, .5, 10])
    order = ctx.free('order', list(itertools.permutations(range(3))))
    return tuple(tuple(x * scale for x in rows[i]) for i in order)


def det(m):
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def judge_lattice(case):
    exact = [[Fraction(x) for x in row] for row in case]
    volume = det(exact)
    recip = [[x / volume for x in cross(exact[(i + 1) % 3], exact[(i + 2) % 3])] for i in range(3)]
    lattice = np.array(case, dtype=float)
    keep = lattice.copy()
    size = max(abs(float(x)) for row in exact for x in row)
    rsize = max(abs(float(x)) for row in recip for x in row)
    got = utils.lat_to_reclat(lattice)
    need('reciprocal', [[2 * math.pi * float(x) for x in row] for row in recip], got, rtol=1e-9, atol=1e-11 * rsize)
    for vec in VECTORS:
        direct = np.array(vec, dtype=float)
        dkeep = direct.copy()
        frac = [Fraction(float(x)) for x in vec]
        cart = [sum(frac[i] * exact[i][j] for i in range(3)) for j in range(3)]
        got = utils.dir_to_cart(direct, lattice)
        need('dir_to_cart', [float(x) for x in cart], got, rtol=1e-9, atol=1e-11 * size)
        back = utils.cart_to_dir(np.array(got), lattice)
        need('inverse', [float(x) for x in frac], back, rtol=1e-9, atol=1e-10)
        # the vector read as Cartesian
        want = [float(sum(frac[k] * recip[i][k] for k in range(3))) for i in range(3)]
        got = utils.cart_to_dir(direct, lattice)
        need('cart_to_dir', want, got, rtol=1e-9, atol=1e-11 * rsize * 20)
        again = utils.dir_to_cart(np.array(got), lattice)
        need('inverse', [float(x) for x in frac], again, rtol=1e-9, atol=1e-10)
        need('argument', dkeep.tolist(), direct.tolist(), rtol=0, atol=0)
        need('argument', keep.tolist(), lattice.tolist(), rtol=0, atol=0)


LINES = ['energy = 1\n', 'force\n', '\n', 'energy = 2\n', 'Energy\n', 'end']


def gen_read(ctx):
    count = ctx.free('lines', [2, 0, 1, 3, 4])
    lines = [ctx.free('line', LINES[:5]) for _ in range(count)]
    if count and ctx.free('open end', [False, True]):
        lines[-1] = 'energy end'
    return dict(text=''.join(lines), source=ctx.free('source', ['path', 'handle', 'stringio']), mode=ctx.free('mode', ['all', 'text', 'list one', 'list two', 'list none']))


def judge_read(case):
    text = case['text']
    pick = {'all': None, 'text': None, 'list one': ['energy'], 'list two': ['energy', 'force'], 'list none': ['absent']}[case['mode']]
    kw = dict(logger=LOGGER)
    if pick is not None:
        kw['contains'] = pick
    if case['mode'] == 'text':
        kw['lines'] = False
    every = text.splitlines(keepends=True)
    want = text if case['mode'] == 'text' else every if pick is None else [l for l in every if any(p in l for p in pick)]
    if case['source'] == 'path':
        path = put('read.txt', text)
        got = utils.read_from_file(path, None, **kw)
        with open(path, 'r', encoding='utf8') as handle:
            need('untouched', text, handle.read())
    elif case['source'] == 'handle':
        with open(put('read.txt', text), 'r', encoding='utf8') as handle:
            got = utils.read_from_file(None, handle, **kw)
            need('open', False, handle.closed)
    else:
        handle = io.StringIO(text)
        got = utils.read_from_file(None, handle, **kw)
        need('open', False, handle.closed)
    need('content', want, list(got) if not isinstance(got, str) else got)


def gen_newline(ctx):
    count = ctx.free('length', [1, 2, 3, 4])
    body = ''.join(ctx.free('c', 'a\n') for _ in range(count))
    ends = ctx.free('ends', [1, 2])
    return (body + '\n' * ends, ends, ctx.free('default', [False, True]))


def judge_newline(case):
    text, ends, default = case
    if default and ends != 1:
        return
    path = os.path.join(core.scratch(), 'newline.txt')
    with open(path, 'w', encoding='utf8', newline='\n') as handle:
        handle.write(text)
        if default:
            utils.remove_newline(handle)
        else:
            utils.remove_newline(handle, ends)
    with open(path, 'r', encoding='utf8', newline='') as handle:
        need('file', text[:-ends], handle.read())
    mem = io.StringIO()
    mem.write(text)
    if default:
        utils.remove_newline(mem)
    else:
        utils.remove_newline(mem, num_newlines=ends)
    need('memory', text[:-ends], mem.getvalue())


def gen_exists(ctx):
    return ctx.free('what', ['file', 'empty file', 'missing', 'missing folder', 'folder', 'no path', 'none'])


def judge_exists(case):
    path = {'file': 'there.txt', 'empty file': 'empty.txt', 'missing': 'gone.txt', 'missing folder': 'nofolder/x.txt', 'folder': 'folder', 'no path': '', 'none': None}[case]
    if case == 'file':
        path = put(path, 'x\n')
    elif case == 'empty file':
        path = put(path, '')
    elif path:
        path = os.path.join(core.scratch(), path)
        if case == 'folder':
            os.makedirs(path, exist_ok=True)
    got = attempt(utils.file_exists, path, logger=LOGGER)
    if case in ('no path', 'none'):
        if got[0] != 'exit' or got[1] != 16:
            raise Violation('empty', '%s: %s' % (case, tuple(got)))
    elif case != 'folder':
        if got[0] != 'ok' or got[1] is not ('file' in case):
            raise Violation('exists', '%s: %s' % (case, tuple(got)))


PROGRAMS = [
    Program('words', gen_words(5), judge_words, quick=None, per_case_s=120, enabled=('quick',)),
    Program('long words', gen_words(6), judge_words, thorough=None, per_case_s=600, enabled=('thorough',)),
    Program('other words', gen_text, judge_text),
    Program('integers on a line', gen_line('int'), judge_line, quick=2, thorough=4),
    Program('reals on a line', gen_line('float'), judge_line, quick=2, thorough=3),
    Program('texts on a line', gen_line('str'), judge_line, quick=2, thorough=4),
    Program('parameter', gen_param, judge_param, quick=3, thorough=5),
    Program('integer lattices', gen_lattice((0, 1, -1)), judge_lattice, quick=None, enabled=('quick',)),
    Program('more integer lattices', gen_lattice((0, 1, -1, 2)), judge_lattice, thorough=None, enabled=('thorough',)),
    Program('lattices', gen_shape, judge_lattice),
    Program('reading', gen_read, judge_read),
    Program('line ends', gen_newline, judge_newline),
    Program('existence', gen_exists, judge_exists),
]
