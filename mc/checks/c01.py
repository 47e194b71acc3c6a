"""C01: reading an INCAR yields exactly the assignments the text makes."""
from parsevasp.incar import Incar

from mc.core import Program, Skip, Violation
from mc.models import incar as M
from mc.obs import LOGGER, ROUTES, attempt, expect_ok, need, via

PROPERTY = 'C01'
BOUNDS = ('documents of 1..3 lines (quick) / 4 lines (thorough), every combination of at most 2 (quick) / 3 (thorough) simultaneous deviations from the plain '
          'layout out of tag, case, value, blanks, grouping, comments, endings; every documented tag; four input routes each; dictionaries of native values')
ORACLE = 'documents are generated from the assignments they make, so the meaning is known by construction'


def look(inc, entries, what):
    got = inc.get_dict()
    need('content', {t: v for t, (v, _) in entries.items()}, got, what, strict=True, rtol=0, atol=0)
    for tag, (value, comment) in entries.items():
        need('get', value, inc.get(tag), '%s get(%s)' % (what, tag), strict=True, rtol=0, atol=0)


def judge_text(case):
    text, entries = case
    for route in ('string',) + ROUTES:
        if route == 'string' and text == '':
            continue
        inc = expect_ok('accept', via, Incar, text, route, 'incar_string')
        look(inc, entries, route)
    return {'distinct_meanings': {repr(sorted((t, repr(v)) for t, v in entries.items()))}}


def gen_text(ctx):
    return M.gen_document(ctx, 3)


def gen_text4(ctx):
    return M.gen_document(ctx, 4)


def gen_everytag(ctx):
    tag = ctx.free('tag', M.TAGS)
    style = ctx.free('style', ['upper', 'lower', 'mixed'])
    if tag in M.RAW:
        text, value = ctx.free('value', M.RAW_VALUES)
    else:
        text, value = ctx.free('value', M.VALUES)
    return ('%s = %s\n' % (M.style_tag(tag, style), text), {tag: (value, None)})


NATIVE = [1, -4, 0, 0.5, 1e-6, True, False, 'Fast', '500', '.TRUE.', '1 2 3', '0.5 1.0', [1, 2], [0.5, 1.0], ['a', 'b'], [True, False], '.f.', 'x # note']
NATIVE_MEANING = {'500': 500, '.TRUE.': True, '1 2 3': [1, 2, 3], '0.5 1.0': [0.5, 1.0], '.f.': False, 'x # note': 'x'}


def gen_dict(ctx):
    n = ctx.free('n', [1, 2, 3])
    out = []
    for i in range(n):
        tag = ['encut', 'sigma', 'algo'][i]
        if i and ctx.choose('again', [False, True]):
            # the same tag once more, in a spelling of its own
            out.append((['', 'Encut', ' ENCUT '][i], ctx.choose('value', NATIVE)))
            continue
        out.append((M.style_tag(tag, ctx.choose('case', ['lower', 'upper', 'mixed'])), ctx.choose('value', NATIVE)))
    return tuple(out)


def judge_dict(case):
    src = dict(case)
    entries = {}
    for tag, value in case:
        mean = NATIVE_MEANING.get(value, value) if isinstance(value, str) else value
        entries[tag.strip().lower()] = (mean, None)
    before = repr(src)
    inc = expect_ok('accept', Incar, incar_dict=src, logger=LOGGER)
    look(inc, entries, 'dict')
    if repr(src) != before:
        raise Violation('caller-data', 'the supplied dictionary was changed: %s -> %s' % (before, src))


def gen_unknown(ctx):
    return (ctx.free('tag', ['foo', 'encuts', 'my_tag', 'X1']), ctx.free('value', M.VALUES[:8]), ctx.free('valid', [True, False]))


def judge_unknown(case):
    tag, (text, value), validate = case
    doc = 'ENCUT = 300\n%s = %s\n' % (tag, text)
    out = attempt(Incar, incar_string=doc, validate_tags=validate, logger=LOGGER)
    if validate:
        if tuple(out) != ('exit', 100):
            raise Violation('unsupported-tag', 'expected exit 100 for tag %s, got %s' % (tag, tuple(out)))
    else:
        if out[0] != 'ok':
            raise Violation('unsupported-tag', 'tag %s refused although validation is off: %s' % (tag, tuple(out)))
        look(out[1], {'encut': (300, None), tag.lower(): (value, None)}, 'novalidate')


PROGRAMS = [
    Program('documents', gen_text, judge_text, quick=2, thorough=3),
    Program('documents4', gen_text4, judge_text, quick=1, thorough=2),
    Program('every-tag', gen_everytag, judge_text),
    Program('dictionaries', gen_dict, judge_dict, quick=3, thorough=6),
    Program('unknown-tags', gen_unknown, judge_unknown),
]
