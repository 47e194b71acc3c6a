"""C10: stream monitoring reports exactly the configured conditions that occur."""
import re

from parsevasp.stream import Stream

from mc.core import Program, Violation
from mc.models import stream as M
from mc.obs import ROUTES, expect_ok, need, plain, via

PROPERTY = 'C10'
BOUNDS = ('all texts of up to 4 (quick) / 5 (thorough) lines over an alphabet of started/noise/trigger lines; every ordered pair of the 26 shipped triggers; 13 override configurations (and ordered pairs '
          'of instances with different ones) x all texts of up to 3 lines; history on/off; three routes')
ORACLE = 'what each shipped trigger prints is written down independently; a reference matcher computes the expected entries line by line'


def default_table():
    """shortname -> (regex text or None when only the printed line is known, kind, inverse)"""
    table = {name: {'line': line, 'kind': 'ERROR', 'inverse': False} for name, line in M.PRINTED.items()}
    table['nostart'] = {'kind': 'ERROR', 'inverse': True, 'regex': 'vasp.'}
    return table


TEXT2NAME = {line: name for name, line in M.PRINTED.items()}


class Model:
    def __init__(self, config=None):
        self.config = config or {}

    def match(self, line):
        """shortnames (non-inverse and inverse) that occur on a line"""
        hits = set()
        for name, text in M.PRINTED.items():
            if name not in self.config and text.strip() in line:
                hits.add(name)
        if 'nostart' not in self.config and re.search('vasp.', line):
            hits.add('nostart')
        for name, ent in self.config.items():
            pat = ent['regex'] if isinstance(ent['regex'], str) else ent['regex'].pattern
            if re.search(pat, line):
                hits.add(name)
        return hits

    def inverse(self):
        inv = {n for n, e in self.config.items() if e.get('inverse')}
        if 'nostart' not in self.config:
            inv.add('nostart')
        return inv

    def expected(self, lines, history):
        inv = self.inverse()
        seen = set()
        out = []
        for line in lines:
            hits = self.match(line)
            rep = set()
            for h in hits:
                if h in inv:
                    seen.add(h)
                elif history or h not in seen:
                    rep.add(h)
                    seen.add(h)
            if rep:
                out.append(rep)
        return out, inv - seen

    def attributes(self, name):
        if name in self.config:
            e = self.config[name]
            return (e['kind'], e['message'], e.get('suggestion'), e.get('location', 'STDOUT'), e.get('recover', False), e.get('inverse', False))
        return None


def verify(stream, model, lines, history, what):
    groups, absent = model.expected(lines, history)
    names = [e.shortname for e in stream.entries]
    inv = model.inverse()
    plain_names = [n for n in names if n not in inv]
    inverse_names = [n for n in names if n in inv]
    need('inverse', sorted(absent), sorted(inverse_names), what + ' inverse entries')
    pos = 0
    for grp in groups:
        part = plain_names[pos:pos + len(grp)]
        if set(part) != grp or len(part) != len(grp):
            raise Violation('entries', '%s: expected %s next, got %s (all: %s)' % (what, sorted(grp), part, names))
        pos += len(grp)
    if pos != len(plain_names):
        raise Violation('entries', '%s: %s reported but does not occur' % (what, plain_names[pos:]))
    need('count', len(names), stream.number_of_entries, what + ' number_of_entries')
    need('count', bool(names), stream.has_entries, what + ' has_entries')
    for e in stream.entries:
        att = model.attributes(e.shortname)
        got = (e.kind, e.message, e.suggestion, e.location, e.recover, e.inverse)
        if att is None:
            att = ('ERROR', got[1], got[2], 'STDERR' if e.shortname in M.STDERR else 'STDOUT', e.shortname in M.RECOVERABLE, e.shortname == 'nostart')
            if not e.message:
                raise Violation('attributes', '%s: %s has no message' % (what, e.shortname))
        need('attributes', list(att), list(got), '%s %s' % (what, e.shortname))
        need('attributes', att[4], e.recoverable, '%s %s recoverable' % (what, e.shortname))
        need('attributes', '(%s) %s: %s' % (att[0], e.shortname, att[1]), str(e), what + ' str')


# Lines of the small alphabet
TWO = 'ZBRENT: fatal error in bracketing BRMIX: very serious problems'
ALPHABET = [M.NOISE[0], M.STARTED, M.PRINTED['zbrent'], M.PRINTED['ibzkpt'], TWO, '', 'x' + M.PRINTED['brmix'] + ' again ' + M.PRINTED['brmix'], ' vasp']


def gen_texts(n):
    def gen(ctx):
        count = ctx.free('n', list(range(n + 1)))
        lines = tuple(ctx.free('line', ALPHABET) for _ in range(count))
        return lines, ctx.free('history', [False, True]), ctx.choose('final', [True, False])
    return gen


def judge_texts(case):
    lines, history, final = case
    text = '\n'.join(lines) + ('\n' if final and lines else '')
    for route in ROUTES if len(lines) <= 2 else ('stringio',):
        stream = expect_ok('accept', via, Stream, text, route, history=history)
        verify(stream, Model(), lines, history, route)
    return '%d lines' % len(lines)


def gen_pairs(ctx):
    names = sorted(M.PRINTED)
    a = ctx.free('a', names)
    b = ctx.free('b', names)
    started = ctx.free('started', [True, False])
    sep = ctx.choose('between', [(), (M.NOISE[2],), ('', '')])
    again = ctx.choose('again', [False, True])
    lines = ((M.STARTED,) if started else ()) + (M.PRINTED[a],) + sep + (M.PRINTED[b],) + ((M.PRINTED[a],) if again else ())
    if ctx.choose('one line', [False, True]):
        lines = (M.NOISE[1], M.PRINTED[a] + ' ' + M.PRINTED[b], M.PRINTED[b])
    return lines, ctx.free('history', [False, True])


def judge_pairs(case):
    lines, history = case
    text = '\n'.join(lines) + '\n'
    stream = expect_ok('accept', via, Stream, text, 'stringio', history=history)
    verify(stream, Model(), lines, history, 'pair')
    return None


def ent(regex, kind='ERROR', message='some message', **kw):
    return dict(regex=regex, kind=kind, message=message, **kw)


CONFIGS = {
    'none': None,
    'empty': {},
    'retarget': {'zbrent': ent('very special', suggestion='do it', recover=True)},
    'rekind': {'zbrent': ent('ZBRENT: fatal error', 'WARNING', 'now a warning', suggestion='s', location='STDERR')},
    'add-error': {'special': ent('very special')},
    'add-warning': {'special': ent('very special', 'WARNING', 'w', recover=True)},
    'add-lower': {'special': ent('very special', 'warning', 'w'), 'special2': ent('fatal', 'WARNING', 'w2')},
    'add-regex': {'special': ent(r'^ *NKPT *= *\d+ *$', 'WARNING')},
    'add-pattern': {'special': ent(re.compile('VERY special', re.I), 'WARNING')},
    'add-inverse': {'ended': ent('General timing', 'WARNING', 'did not end', inverse=True)},
    'nostart-plain': {'nostart': ent('vasp', 'WARNING', 'started', inverse=False)},
    'nostart-other': {'nostart': ent('very special', 'ERROR', 'never', inverse=True, suggestion='x')},
    'two': {'zbrent': ent('very special', message='m1'), 'brmix': ent('very special', message='m2', inverse=False), 'ended': ent('fatal', 'ERROR', 'e', inverse=True)},
}
CLINES = [M.NOISE[0], M.STARTED, M.PRINTED['zbrent'], ' a very special line', '  NKPT =   12', ' General timing and fatal', TWO, 'NKPT = 12 x']


def pattern_model(config):
    # compiled patterns with flags: keep the flag in the pattern text
    out = {}
    for n, e in (config or {}).items():
        e = dict(e)
        if not isinstance(e['regex'], str):
            e['regex'] = re.compile('(?i)' + e['regex'].pattern)
        out[n] = e
    return Model(out)


def gen_config(n):
    def gen(ctx):
        cfg = ctx.free('config', list(CONFIGS))
        count = ctx.free('n', list(range(n + 1)))
        return cfg, tuple(ctx.free('line', CLINES) for _ in range(count)), ctx.free('history', [False, True])
    return gen


def judge_config(case):
    cfg, lines, history = case
    config = CONFIGS[cfg]
    before = repr(config)
    stream = expect_ok('accept', via, Stream, '\n'.join(lines) + '\n', 'stringio', history=history, config=config)
    verify(stream, pattern_model(config), lines, history, 'config ' + cfg)
    if repr(config) != before:
        raise Violation('isolation', 'the configuration of the caller was changed')
    return cfg


def gen_instances(ctx):
    cfgs = tuple(ctx.free('config', list(CONFIGS)) for _ in range(3))
    return cfgs, ctx.free('history', [False, True])


def judge_instances(case):
    """Instances made one after the other, all observed at the end, and the first once more."""
    cfgs, history = case
    texts = [(M.STARTED, M.PRINTED['zbrent'], ' a very special line', M.PRINTED['zbrent']), (' General timing and fatal', TWO), ('  NKPT =   12', M.PRINTED['ibzkpt'])]
    made = []
    for cfg, lines in zip(cfgs, texts):
        made.append(expect_ok('accept', via, Stream, '\n'.join(lines), 'stringio', history=history, config=CONFIGS[cfg]))
    for i, (cfg, lines) in enumerate(zip(cfgs, texts)):
        verify(made[i], pattern_model(CONFIGS[cfg]), lines, history, 'instance %d of %s' % (i, '/'.join(cfgs)))
    return None


# Triggers whose text is sensitive to blanks, case, the place on the line and special characters
REGEXES = {
    'wide': ent('found :  1 types'), 'lead': ent(r'^ running on'), 'tail': ent('cores $'), 'tab': ent('a\tb', 'WARNING'), 'whole': ent(r'^\s+entering main loop\s*$'), 'case': ent('Entering'),
    'group': ent('(RMM|DAV): +1 '), 'escape': ent(r'\(k\.p\) \[x\]', 'WARNING'), 'empty line': ent(r'^\s*$', 'WARNING', 'blank', recover=True), 'unicode': ent('\u00e9'),
    'several': ent('a.*b.*c', suggestion='s', location='STDERR'), 'not there': ent('General timing', inverse=True), 'long': ent('x{50}y'), 'compiled': ent(re.compile('^ENTERING', re.I), 'WARNING'),
    'number': ent(r'E[+-]\d\d$'),
}
RLINES = [' POSCAR found :  1 types and       2 ions', ' POSCAR found : 1 types', ' running on    1 total cores ', 'running on 1 total cores', 'tab a\tb', 'tab a b', ' entering main loop', 'xentering main loop',
          'Entering', 'RMM:   1    -0.1E+02', 'DAV: 12', ' (k.p) [x]', ' (kxp) x', '', '   ', 'caf\u00e9', 'a b c', 'c b a', ' General  timing', ' General timing', 'x' * 50 + 'y', 'x' * 49 + 'y', 'E+02 ',
          'y' * 3000 + 'a b c', ' ' * 200 + 'entering main loop']


def gen_regexes(ctx):
    names = (ctx.free('trigger', list(REGEXES)),)
    if ctx.choose('second', [False, True]):
        names += (ctx.free('trigger2', list(REGEXES)),)
    lines = tuple(ctx.free('line', RLINES) for _ in range(ctx.free('n', [1, 2])))
    return names, lines, ctx.free('history', [False, True])


def judge_regexes(case):
    names, lines, history = case
    config = {n: REGEXES[n] for n in names}
    stream = expect_ok('accept', via, Stream, '\n'.join(lines) + '\n', 'stringio', history=history, config=config)
    model = pattern_model(config)
    groups = []
    for line in lines:
        # the text of a line includes its end, as far as $ is concerned
        groups.append(line)
    verify(stream, model, groups, history, 'regex ' + '/'.join(names))


def gen_embedded(ctx):
    name = ctx.free('name', sorted(M.PRINTED))
    pre = ctx.free('before', ['', 'rank  3: ', '\t', '|   ', '#', 'vasp. ', 'x' * 500])
    post = ctx.free('after', ['', ' ', '   1.234', ' |', '\t# x', ' and so on ' * 50])
    return (M.NOISE[1], pre + M.PRINTED[name] + post, M.NOISE[0]), ctx.free('history', [False, True])


def gen_long(ctx):
    count = ctx.free('lines', [100, 1200, 6000])
    where = ctx.free('where', [0, 1, 50, 99, 'middle', 'last', 'every'])
    name = ctx.free('name', ['zbrent', 'magmom', 'none'])
    lines = [M.NOISE[i % len(M.NOISE)] for i in range(count)]
    started = ctx.free('started', [None, 'first', 'last'])
    if name != 'none':
        for i in {'middle': [count // 2], 'last': [count - 1], 'every': range(0, count, 7)}.get(where, [where]):
            lines[i] = M.PRINTED[name]
    if started:
        lines.insert(0 if started == 'first' else count, M.STARTED)
    return tuple(lines), ctx.free('history', [False, True])


PROGRAMS = [
    Program('regexes', gen_regexes, judge_regexes, quick=0, thorough=1),
    Program('embedded', gen_embedded, judge_pairs),
    Program('long', gen_long, judge_pairs),
    Program('texts', gen_texts(4), judge_texts, quick=0, thorough=1),
    Program('texts-5', gen_texts(5), judge_texts, quick=0, thorough=1, enabled=('thorough',)),
    Program('pairs', gen_pairs, judge_pairs, quick=1, thorough=2),
    Program('overrides', gen_config(3), judge_config),
    Program('instances', gen_instances, judge_instances),
]
