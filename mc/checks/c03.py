"""C03: written INCAR text is canonical and reads back to the same assignments."""
import io
import re

from parsevasp.incar import Incar

from mc.core import Program, Violation
from mc.models import incar as M
from mc.obs import LOGGER, expect_ok, need, put
from mc import core

PROPERTY = 'C03'
BOUNDS = ('all documents of the C01 grammar with at most 2 (quick) / 3 (thorough) deviations, all native dictionaries of up to 3 tags, and all set/delete histories of length <= 2 on '
          'them; each written by string, path and handler, with and without comments, and read back')
ORACLE = 'the assignments the document was generated from; canonical line form written down independently'

LINE = re.compile(r'^([A-Z][A-Z0-9_]*) = (.*)$')


def spells(token, value, where):
    if isinstance(value, bool):
        good = token == ('.TRUE.' if value else '.FALSE.')
    elif isinstance(value, int):
        try:
            good = int(token) == value
        except ValueError:
            good = False
    elif isinstance(value, float):
        try:
            good = float(token) == value and any(c in token for c in '.eE')
        except ValueError:
            good = False
    else:
        good = token == value
    if not good:
        raise Violation('spelling', '%s: %r does not spell %r' % (where, token, value))


def check_text(text, entries, comments, where):
    if text and not text.endswith('\n'):
        raise Violation('line-form', '%s: last line is not terminated: %r' % (where, text[-40:]))
    lines = text.split('\n')[:-1] if text else []
    tags = sorted(entries)
    if len(lines) != len(tags):
        raise Violation('line-form', '%s: %d lines for %d tags: %r' % (where, len(lines), len(tags), text))
    for line, tag in zip(lines, tags):
        value, comment = entries[tag]
        m = LINE.match(line)
        if not m or m.group(1) != tag.upper():
            raise Violation('line-form', '%s: expected a line for %s, got %r' % (where, tag.upper(), line))
        body = m.group(2)
        if '#' in body:
            body, tail = body.split('#', 1)
            if not comments or comment is None or tail.strip() != comment or not body.endswith(' '):
                raise Violation('comment', '%s: unexpected comment in %r (entry comment %r, comments=%s)' % (where, line, comment, comments))
            body = body[:-1]
        elif comments and comment is not None:
            raise Violation('comment', '%s: comment %r missing in %r' % (where, comment, line))
        if isinstance(value, list):
            toks = body.split(' ')
            if len(toks) != len(value):
                raise Violation('spelling', '%s: %r for %r' % (where, body, value))
            for t, v in zip(toks, value):
                spells(t, v, where)
        else:
            spells(body, value, where)


def all_routes(inc, entries, what):
    texts = {}
    for comments in (False, True):
        kw = {'comments': True} if comments else {}
        path = put('out_%s' % comments, 'old content\n' * 50)
        expect_ok('write', inc.write, file_path=path, **kw)
        with open(path, encoding='utf8') as fh:
            by_path = fh.read()
        buf = io.StringIO()
        expect_ok('write', inc.write, file_handler=buf, **kw)
        if buf.closed:
            raise Violation('routes', 'the handler of the caller was closed')
        if buf.getvalue() != by_path:
            raise Violation('routes', '%s: path and handler output differ: %r / %r' % (what, by_path, buf.getvalue()))
        if not comments:
            text = expect_ok('write', inc.get_string)
            if text != by_path:
                raise Violation('routes', '%s: string and path output differ: %r / %r' % (what, text, by_path))
        check_text(by_path, entries, comments, '%s comments=%s' % (what, comments))
        texts[comments] = by_path
    return texts


def roundtrip(texts, entries, what):
    for comments, text in texts.items():
        if not entries:
            continue
        again = expect_ok('read-back', Incar, incar_string=text, validate_tags=False, logger=LOGGER)
        need('read-back', {t: v for t, (v, _) in entries.items()}, again.get_dict(), '%s re-read' % what, strict=True, rtol=0, atol=0)
        if comments:
            for tag, (value, comment) in entries.items():
                pair = again.get(tag, comment=True)
                need('read-back-comment', comment, pair[1], '%s re-read comment of %s' % (what, tag))
            buf = io.StringIO()
            again.write(file_handler=buf, comments=True)
            if buf.getvalue() != text:
                raise Violation('fixpoint', '%s: second writing differs: %r / %r' % (what, text, buf.getvalue()))
        elif again.get_string() != text:
            raise Violation('fixpoint', '%s: second writing differs: %r / %r' % (what, text, again.get_string()))


def judge_doc(case):
    text, entries = case
    inc = expect_ok('accept', Incar, file_handler=io.StringIO(text), logger=LOGGER)
    texts = all_routes(inc, entries, 'document')
    roundtrip(texts, entries, 'document')


def gen_doc(ctx):
    return M.gen_document(ctx, 3)


NATIVE = [(1, 1), (-4, -4), (0.5, 0.5), (1e-6, 1e-6), (1e5, 1e5), (123456789.25, 123456789.25), (1e22, 1e22), (True, True), (False, False), ('Fast', 'Fast'), ('500', 500), ('1 2 3', [1, 2, 3]),
          ([1, 2], [1, 2]), ([0.5, 1e-7, 3.0], [0.5, 1e-7, 3.0]), (['a', 'b'], ['a', 'b']), ([True, False], [True, False]), ([False], False), ([4], 4), ('.f. .t.', [False, True]),
          ('x # note', ('x', 'note')), ('7 #', (7, '')), (-0.1, -0.1), (10, 10)]
_SHORT = len(NATIVE)
NATIVE += [(v, v) for v in (0.1 + 0.2, 1 / 3., 123456.789012345678, -1.2345678901234567e-12, 1e-300, 5e-324, 1.7976931348623157e308, 100000.0, 1e15, 1e16, 0.0001, 1e-5, 0.0, 1.0, 3.0, -250.0,
                            12345678901234567890, -(2 ** 63), 0, [0] * 6, [1] * 5, [2.0] * 5, [0.1] * 7, [1, 1, 1, 2, 2, 2, 2], [True] * 5, [False] * 6, ['a'] * 5, ['Fe', 'Fe', 'O'],
                            [i + 0.5 for i in range(12)], [7 * i % 50 for i in range(60)], [1 / 3., 2 / 3.], [1e-300, 1e22], [1.0, 2.0, 3.0], [True, True], '2*0.5', 'run.txt', 'A', 'T', '1.2.3',
                            ['x', 'y', 'z', 'w', 'v', 'u'], [0.0, 0.0], [10, 100, 1000])]
NATIVE += [('0.30000000000000004', 0.1 + 0.2), ('1 1 1 1 1 1', [1] * 6), ('.T. .T. .T. .T. .T.', [True] * 5), ('note#', ('note', '')), ('5 #note', (5, 'note')), ('1e5 2.', [1e5, 2.0]),
           ('.FALSE. # x = 1; y', (False, 'x = 1; y'))]
for _n in NATIVE:
    assert not isinstance(_n[1], tuple) or len(_n[1]) == 2
EDITS = [None] + [('set', t, v, c) for t in ('encut', 'nsw', 'SYSTEM') for v in (4, 7, 15, 9) for c in (None, 'new')] + [('del', 'encut'), ('del', 'SIGMA'), ('set', 'ldauu', 15, 'x')]


def gen_some(count):
    def gen_dict(ctx):
        n = ctx.free('n', [1, 2, 3])
        out = []
        for i in range(n):
            out.append((['encut', 'Sigma', 'ALGO'][i], ctx.choose('value', range(count))))
        edits = [ctx.choose('edit', EDITS), ctx.choose('edit', EDITS)]
        return tuple(out), tuple(e for e in edits if e)
    return gen_dict


def judge_dict(case):
    pairs, edits = case
    src, entries = {}, {}
    for tag, v in pairs:
        src[tag] = NATIVE[v][0]
        mean = NATIVE[v][1]
        entries[tag.lower()] = mean if isinstance(mean, tuple) else (mean, None)
    inc = expect_ok('accept', Incar, incar_dict=src, logger=LOGGER)
    for edit in edits:
        if edit[0] == 'del':
            inc.delete(edit[1])
            entries.pop(edit[1].lower(), None)
        else:
            value, mean = NATIVE[edit[2]]
            if edit[1] == 'SYSTEM':
                value = mean = 'text here'
            inc.modify(edit[1], value, edit[3])
            entries[edit[1].lower()] = (mean, edit[3])
    # a one-element list is written like its element
    texts = all_routes(inc, {t: ((v, c) if not isinstance(v, list) or len(v) > 1 else (v[0], c)) for t, (v, c) in entries.items()}, 'dictionary')
    roundtrip(texts, entries, 'dictionary')


PROGRAMS = [
    Program('documents', gen_doc, judge_doc, quick=2, thorough=3),
    Program('dictionaries', gen_some(_SHORT), judge_dict, quick=2, thorough=4),
    Program('every-native-value', gen_some(len(NATIVE)), judge_dict, quick=2, thorough=3),
]
