"""C25: every refusal is explained on the caller's logger, and accepted input is not complained about."""
import io
import logging
import os

from parsevasp.base import BaseParser
from parsevasp.incar import Incar

import mc.obs as obs
from mc import core
from mc.checks import c01, c03, c04, c05, c06, c07, c09, c13, c14, c15, c16, c17, c18, c19, c20
from mc.core import Program, Violation, scratch
from mc.models import jobs as J, readonly as RO
from mc.obs import LOGGER, put

PROPERTY = 'C25'
BOUNDS = ('every refusal and acceptance of the C09 space (argument subsets, faulty texts at every position, dictionaries, edits, writes), every parser x missing/empty source, every document of the job alphabet; what the checks of reading, editing and writing accept; '
          'the caller\'s logger, the default logger and two loggers at once; verbosity of the logger from DEBUG to CRITICAL')
ORACLE = 'a phrase per exit status written down independently of the message tables'

# What the message of each status has to say (any of the phrases, in any case)
PHRASES = {
    10: 'only one argument', 11: "no 'entries'", 12: 'missing', 13: 'wrong type', 14: 'did not contain a file', 15: 'handler is empty', 16: 'path is empty',
    100: 'not officially supported', 101: 'two equal signs', 102: 'does not start with a #', 103: 'multiple comment', 104: 'not of the same type', 105: 'not recognized',
    200: 'direct coordinates', 201: 'five entries', 202: 'automatic', 203: 'expert mode', 204: 'not a number', 205: 'conversion from reciprocal to direct', 206: 'divisions', 207: 'is allowed as input for entry',
    210: 'kpoint()', 211: 'larger than the number of points', 212: 'centering', 213: 'mode', 214: 'only supply either',
    301: 'vasp 4', 302: 'velocity or predictor', 303: 'not a number', 304: 'larger than the number of sites', 305: 'is allowed as input for entry', 306: 'should be direct', 307: 'negative scaling',
    500: 'multiple entries', 501: 'species first', 502: 'ispin first', 503: 'nbands first', 504: 'kpoints first', 505: 'does not match', 506: 'unknown', 507: 'status is not supported', 508: 'size', 509: 'overflow',
    510: 'only supply either', 600: 'before the first scf step',
}


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.name, record.getMessage()))


CAPTURE = Capture()
ELSEWHERE = Capture()


def listen():
    """Idempotent: worker processes and replays start from the silent state."""
    if CAPTURE not in LOGGER.handlers:
        LOGGER.addHandler(CAPTURE)
        LOGGER.disabled = False
        LOGGER.setLevel(logging.DEBUG)
        logging.getLogger().addHandler(ELSEWHERE)
        logging.disable(logging.NOTSET)
        for mod in (c09, c17, c18, c19):
            mod.attempt = attempt
        c09.expect_ok = expect_ok


class Unexplained(Exception):
    """Kept apart from the violations of the property whose cases are reused."""


def judge_records(code, records, other, what):
    errors = [r for r in records if r[0] >= logging.ERROR]
    if code is None:
        if errors:
            raise Unexplained('accepted', '%s is accepted, but logs the error %r' % (what, errors[0][2]))
        return
    if not errors:
        where = ', the logger %s got %r' % (other[0][1], other[0][2][:80]) if other else ''
        raise Unexplained('silent', '%s is refused with status %r, but no error is logged%s' % (what, code, where))
    phrase = PHRASES.get(code)
    if phrase is None:
        raise Unexplained('status', '%s is refused with the undocumented status %r: %r' % (what, code, errors[0][2]))
    if not any(phrase in r[2].lower() for r in errors):
        raise Unexplained('message', '%s is refused with status %d, but the message does not say so (%r): %r' % (what, code, phrase, errors[-1][2][:300]))


SEEN = []


def attempt(func, *args, **kwargs):
    listen()
    CAPTURE.records.clear()
    ELSEWHERE.records.clear()
    out = obs.attempt(func, *args, **kwargs)
    if out[0] in ('exit', 'ok'):
        name = getattr(func, '__qualname__', repr(func))
        judge_records(out[1] if out[0] == 'exit' else None, CAPTURE.records, ELSEWHERE.records, '%s(%s)' % (name, ', '.join([repr(a)[:60] for a in args] + ['%s=%.60r' % kv for kv in kwargs.items() if kv[0] != 'logger'])))
        SEEN.append(out[1] if out[0] == 'exit' else 'ok')
    return out


def expect_ok(clause, func, *args, **kwargs):
    out = attempt(func, *args, **kwargs)
    if out[0] != 'ok':
        raise Violation(clause, '%s' % (tuple(out),))
    return out[1]


def wrap(judge):
    def inner(case):
        listen()
        SEEN.clear()
        try:
            judge(case)
        except Unexplained as exc:
            raise Violation(*exc.args) from None
        except Violation:
            # what is refused with which status is a different property
            return 'not judged'
        return ','.join(sorted({str(s) for s in SEEN}))
    return inner


# ---------------------------------------------------------------- all parsers
def gen_source(ctx):
    kind = ctx.free('type', J.KINDS)
    how = ctx.free('source', ['missing', 'directory', 'missing folder', 'nothing', 'both'])
    return kind, how, ctx.free('logger', ['caller', 'default', 'two'])


def judge_source(case):
    kind, how, logger = case
    listen()
    CAPTURE.records.clear()
    ELSEWHERE.records.clear()
    cls = J.cls(kind)
    path = {'missing': os.path.join(scratch(), 'not_there'), 'directory': scratch(), 'missing folder': os.path.join(scratch(), 'no', 'where')}.get(how)
    kw = {'nothing': {}, 'both': {'file_path': put('x', RO_text(kind)), 'file_handler': io.StringIO(RO_text(kind))}}.get(how, {'file_path': path})
    quiet = Capture()
    own = None
    if logger != 'default':
        kw['logger'] = LOGGER
    if logger == 'two':
        # a second object with its own logger was used before, it must not hear of this one
        second = logging.Logger('second')
        second.addHandler(quiet)
        obs.attempt(cls, file_path=put('y', RO_text(kind)), logger=second)
        quiet.records.clear()
    if logger == 'default':
        own = logging.getLogger(cls.__module__ + '.' + cls.__name__)
        own.addHandler(CAPTURE)
        # The stream handler of the default logger is not of interest, the text has to go somewhere else
        for handler in own.handlers:
            if isinstance(handler, logging.StreamHandler):
                handler.setStream(io.StringIO())
    import contextlib
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        out = obs.attempt(cls, **kw)
    if own is not None:
        own.removeHandler(CAPTURE)
    what = '%s(%s) with the %s logger' % (kind, how, logger)
    if out[0] == 'exit':
        try:
            judge_records(out[1], CAPTURE.records, ELSEWHERE.records, what)
        except Unexplained as exc:
            raise Violation(*exc.args) from None
        if out[1] == 14 and path and not any(path in r[2] for r in CAPTURE.records if r[0] >= logging.ERROR):
            raise Violation('path', '%s: the message does not name the path: %r' % (what, CAPTURE.records))
        if logger != 'default' and ELSEWHERE.records:
            raise Violation('elsewhere', '%s: also logged on %r' % (what, ELSEWHERE.records[0]))
        if quiet.records:
            raise Violation('elsewhere', '%s: logged on the logger of another object: %r' % (what, quiet.records[0]))
        if logger != 'default' and err.getvalue():
            raise Violation('elsewhere', '%s: printed on the standard error: %r' % (what, err.getvalue()[:200]))
    return '%s' % (tuple(out[:2]),) if out[0] != 'ok' else 'ok'


def RO_text(kind):
    return J.documents(kind)[0][1]


# ---------------------------------------------------------------- accepted documents
def gen_document(ctx):
    kind = ctx.free('type', J.KINDS)
    return kind, ctx.free('document', range(len(J.documents(kind)))), ctx.free('route', J.routes(kind))


def judge_document(case):
    kind, i, route = case
    name, text, kw = J.documents(kind)[i]
    listen()
    CAPTURE.records.clear()
    ELSEWHERE.records.clear()
    out = obs.attempt(J.run, kind, text, kw, route)
    if out[0] == 'ok':
        J.observe(kind, out[1][0])
    if out[0] != 'raise':
        try:
            judge_records(out[1] if out[0] == 'exit' else None, CAPTURE.records, ELSEWHERE.records, '%s %s via %s' % (kind, name, route))
        except Unexplained as exc:
            raise Violation(*exc.args) from None
    if ELSEWHERE.records:
        raise Violation('elsewhere', '%s %s via %s: logged on another logger than the one given: %r' % (kind, name, route, ELSEWHERE.records[0]))
    return out[0]


# ---------------------------------------------------------------- whatever the other checks read, edit and write without a refusal
def quietly(judge):
    def inner(case):
        listen()
        CAPTURE.records.clear()
        ELSEWHERE.records.clear()
        try:
            judge(case)
        except Violation:
            return 'not judged'
        errors = [r for r in CAPTURE.records if r[0] >= logging.ERROR]
        if errors:
            raise Violation('accepted', 'nothing is refused, but the error %r is logged: %.600r' % (errors[0][2], case))
        if ELSEWHERE.records:
            raise Violation('elsewhere', 'logged on another logger than the one given: %r: %.600r' % (ELSEWHERE.records[0], case))
        return 'quiet'
    return inner


ACCEPTED = [(c01, 'documents', 1), (c01, 'dictionaries', 2), (c03, 'documents', 0), (c03, 'dictionaries', 1), (c04, 'documents', 1), (c05, 'documents', 0), (c06, 'documents-small', 0), (c07, 'documents', 0),
            (c13, 'headers', 1), (c14, 'forms', 0), (c15, 'forms', 0), (c16, 'forms', 0), (c17, 'parameters', 0), (c20, 'large', 0)]


def accepted():
    for mod, name, bound in ACCEPTED:
        for p in mod.PROGRAMS:
            if p.name == name:
                yield Program('accepted %s %s' % (mod.PROPERTY, name), p.gen, quietly(p.judge), quick=bound, thorough=None if bound is None else bound + 1)


# refusals of vasprun.xml: which check and program, bounds
REFUSED = [(c17, 'steps', 0, 1), (c17, 'unknown-elements', None, None), (c18, 'histories', 0, 0), (c19, 'overflow', None, None), (c19, 'contradictions', None, None), (c19, 'rows', None, None)]


def refused():
    for mod, name, quick, thorough in REFUSED:
        for p in mod.PROGRAMS:
            if p.name == name:
                yield Program('refused %s %s' % (mod.PROPERTY, name), p.gen, wrap(p.judge), quick=quick, thorough=thorough)


PROGRAMS = list(accepted()) + list(refused()) + [Program(p.name, p.gen, wrap(p.judge), quick=p.limit['quick'], thorough=p.limit['thorough']) for p in c09.PROGRAMS] + [
    Program('sources', gen_source, judge_source),
    Program('documents', gen_document, judge_document),
]
