"""C23: a parse result depends only on its own input, not on earlier parses."""
import io
import os
import pickle
import shutil

import numpy as np

from mc.checks.c24 import first_difference
from mc.core import Program, Violation, scratch
from mc.models import jobs as J
from mc.obs import LOGGER, attempt, plain, same

PROPERTY = 'C23'
BOUNDS = ('every ordered pair of the parse jobs (all file types, accepted and refused documents) with the first object kept, its returned containers wiped, or the object edited in between, through path and handler; every ordered triple of '
          'jobs of the same file type (quick) and of a core of jobs of all types (thorough), each with the first two objects kept or wiped; every pair of constructions from the same dictionary or from an earlier result, with every edit of either')
ORACLE = 'the outcome of each job in a process of its own; a forked process per history'


VALUES = ('Site', 'Kpoint')


def scramble(obj, seen=None):
    """Wipe everything that was handed out."""
    seen = set() if seen is None else seen
    if id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, dict):
        for value in list(obj.values()):
            scramble(value, seen)
        obj.clear()
    elif isinstance(obj, list):
        for value in list(obj):
            scramble(value, seen)
        del obj[:]
    elif isinstance(obj, np.ndarray) and obj.flags.writeable:
        if obj.dtype.names:
            for name in obj.dtype.names:
                obj[name] = -777
        elif obj.dtype.kind in 'fiu':
            obj.fill(-7)
    elif type(obj).__name__ in VALUES and hasattr(obj, '__dict__'):
        for value in list(vars(obj).values()):
            scramble(value, seen)


def site():
    from parsevasp.poscar import Site
    return Site('Zn', np.array([.9, .8, .7]), [False, True, False])


EDITS = {
    'incar': [lambda o: o.modify('ENCUT', 999.0), lambda o: o.delete('ENCUT'), lambda o: o.modify('NSW', 77, 'new')],
    'kpoints': [lambda o: o.modify('comment', 'edited'), lambda o: o.modify('mode', 'line'), lambda o: o.modify('divisions', [9, 9, 9]), lambda o: o.delete_point(0)],
    'poscar': [lambda o: o.modify('comment', 'edited'), lambda o: o.modify('unitcell', np.eye(3) * 9), lambda o: o.delete_site(0), lambda o: o.modify('sites', site(), 0)],
}


def edit(kind, obj, which):
    """'wipe': containers that accessors return; 'edit': every edit of the type."""
    if which == 'wipe':
        if kind == 'vasprun':
            from mc.models import vasprun as MX
            for value in MX.observe(obj).values():
                scramble(value)
            scramble(obj.get_dict())
        else:
            for name in sorted(dir(type(obj))):
                if name.startswith('get_') and name not in ('get_string',):
                    out = attempt(getattr(obj, name))
                    if out[0] == 'ok':
                        scramble(out[1])
            for name in ('charge_density', 'magnetization_density', 'metadata', 'entries', 'kinds', 'configured_streams'):
                out = attempt(getattr, obj, name)
                if out[0] == 'ok':
                    scramble(out[1])
    else:
        for func in EDITS.get(kind, []):
            attempt(func, obj)


def forked(func):
    """Run in a process of its own; -> ('ok', value) or ('failed', text)."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(read)
            try:
                data = ('ok', func())
            except Violation as exc:
                data = ('violation', (exc.clause, exc.message))
            except BaseException as exc:  # pylint: disable=broad-except
                data = ('failed', '%s: %s' % (type(exc).__name__, exc))
            with os.fdopen(write, 'wb') as fh:
                pickle.dump(data, fh)
            status = 0
        finally:
            os._exit(status)
    os.close(write)
    with os.fdopen(read, 'rb') as fh:
        raw = fh.read()
    os.waitpid(pid, 0)
    if not raw:
        raise Violation('died', 'the process of the history ended')
    data = pickle.loads(raw)
    if data[0] == 'violation':
        raise Violation(*data[1])
    if data[0] == 'failed':
        raise Violation('failed', data[1])
    return data[1]


def job(kind, i, route, name):
    """One parse: object (or None) and its outcome; also the arguments must be as they were."""
    _, text, kw = J.documents(kind)[i]
    before = plain(kw)
    J.HANDLER['remark'] = None
    out = attempt(J.run, kind, text, kw, route, name)
    if not same(plain(kw), before):
        raise Violation('input', '%s: the arguments given are changed' % kind)
    if out[0] != 'ok':
        return None, tuple(out[:2])
    seen = J.observe(kind, out[1][0])
    bad = first_difference(seen, J.observe(kind, out[1][0]), kind)
    if bad:
        raise Violation('accessor', '%s: asking the accessors a second time gives something else: %s' % (kind, bad))
    return out[1][0], ('ok', seen)


BASE = {}


def baseline(kind, i, route):
    if (kind, i, route) not in BASE:
        BASE[kind, i, route] = forked(lambda: job(kind, i, route, 'base')[1])
    return BASE[kind, i, route]


def history(steps):
    """steps: (kind, document, route, what is done with the object afterwards)"""
    expected = [baseline(kind, i, route) for kind, i, route, _ in steps]

    def run():
        live = []
        given = {}
        for n, (kind, i, route, then) in enumerate(steps):
            what = 'step %d of %s' % (n + 1, [(k, J.documents(k)[d][0], r, t) for k, d, r, t in steps])
            obj, out = job(kind, i, route, 'file%d' % n)
            bad = first_difference(expected[n], out, kind)
            if bad:
                raise Violation('history', '%s differs from a process of its own: %s' % (what, bad))
            given[n] = J.documents(kind)[i][1]
            if obj is not None:
                if then == 'keep':
                    live.append((n, kind, obj, out[1]))
                else:
                    edit(kind, obj, then)
            for m, k, old, seen in live:
                bad = first_difference(seen, J.observe(k, old), k)
                if bad:
                    raise Violation('earlier', 'after %s the result of step %d is changed: %s' % (what, m + 1, bad))
        for n, text in given.items():
            path = os.path.join(scratch(), 'file%d' % n)
            if os.path.exists(path) and open(path, 'rb').read() != text.encode('utf8'):
                raise Violation('input-file', 'step %d of %s changed its input file' % (n + 1, steps))
        return None

    for name in os.listdir(scratch()):
        full = os.path.join(scratch(), name)
        if os.path.isfile(full):
            os.unlink(full)
    forked(run)


JOBS = [(kind, i) for kind in J.KINDS for i in range(len(J.documents(kind)))]
CORE = [(k, i) for k, i in JOBS if i < 2] + [('stream', 2), ('vasprun', 4), ('incar', 3), ('doscar', 2)]


def gen_pairs(ctx):
    first, second = ctx.free('first', JOBS), ctx.free('second', JOBS)
    then = ctx.free('then', ['keep', 'wipe', 'edit'] if first[0] in EDITS else ['keep', 'wipe'])
    route = ctx.free('route', ['path', 'stringio'] if first[0] == second[0] else ['path'])
    return (first + (route, then), second + (route, 'keep'))


def gen_same(ctx):
    kind = ctx.free('type', J.KINDS)
    docs = range(len(J.documents(kind)))
    thens = ['keep', 'wipe'] + (['edit'] if kind in EDITS else [])
    return ((kind, ctx.free('first', docs), 'stringio', ctx.free('then', thens)), (kind, ctx.free('second', docs), 'stringio', ctx.free('then', thens)), (kind, ctx.free('third', docs), 'stringio', 'keep'))


def gen_core(ctx):
    return (ctx.free('first', CORE) + ('path', ctx.free('then', ['keep', 'wipe'])), ctx.free('second', CORE) + ('path', ctx.free('then', ['keep', 'wipe'])), ctx.free('third', CORE) + ('path', 'keep'))


# -------------------------------------------------------------- objects made from the same dictionary or from each other
def gen_shared(ctx):
    kind = ctx.free('type', list(J.STRING))
    docs = [i for i, (name, _, _) in enumerate(J.documents(kind)) if not name.startswith('refused')]
    i = ctx.free('document', docs)
    source = ctx.free('source', ['entries', 'result'])
    return kind, i, source, ctx.free('edited', ['first', 'second', 'source']), ctx.free('edit', range(len(EDITS[kind])))


def judge_shared(case):
    kind, i, source, edited, which = case

    def run():
        _, text, kw = J.documents(kind)[i]
        origin, _ = J.run(kind, text, kw, 'stringio')
        dic = origin.get_dict() if source == 'result' else dict(origin.entries) if kind != 'incar' else {k: v.get_value() for k, v in origin.entries.items()}
        before = plain(dic)
        args = dict(kw, logger=LOGGER)
        outs = [attempt(J.cls(kind), **{kind + '_dict': dic}, **args) for _ in range(2)]
        if not same(plain(dic), before):
            raise Violation('input', '%s made from a dictionary changes it: %s' % (kind, first_difference(before, plain(dic))))
        if outs[0][0] != outs[1][0]:
            raise Violation('shared', '%s from the same dictionary: first %s, second %s' % (kind, outs[0][0], outs[1][0]))
        if outs[0][0] != 'ok':
            return 'refused'
        objs = [o[1] for o in outs]
        seen = [J.observe(kind, o) for o in objs]
        bad = first_difference(seen[0], seen[1], kind)
        if bad:
            raise Violation('shared', 'two %s from the same dictionary differ: %s' % (kind, bad))
        first_seen = J.observe(kind, origin)
        target = {'first': objs[0], 'second': objs[1], 'source': origin}[edited]
        attempt(EDITS[kind][which], target)
        for name, obj, old in (('first', objs[0], seen[0]), ('second', objs[1], seen[1]), ('source', origin, first_seen)):
            if name != edited:
                bad = first_difference(old, J.observe(kind, obj), kind)
                if bad:
                    raise Violation('earlier', '%s made from the same %s: edit %d of the %s one changes the %s one: %s' % (kind, source, which, edited, name, bad))
        if edited != 'source' and not same(plain(dic), before):
            raise Violation('input', '%s: edit %d changes the dictionary it was made from: %s' % (kind, which, first_difference(before, plain(dic))))
        return 'checked'
    return forked(run)


# -------------------------------------------------------------- sites and points made one by one
OPTIONS = {'Site': {'selective': [False, True, True], 'velocities': np.array([1., 2., 3.]), 'predictors': np.array([4., 5., 6.]), 'direct': False}, 'Kpoint': {'weight': 2.5, 'direct': False}}
GETTERS = {'Site': ['get_specie', 'get_position', 'get_selective', 'get_velocities', 'get_predictors', 'get_direct'], 'Kpoint': ['get_point', 'get_weight', 'get_direct']}


def gen_values(ctx):
    kind = ctx.free('type', VALUES)
    return kind, tuple(tuple(k for k in OPTIONS[kind] if ctx.free('given', [False, True])) for _ in range(2)), ctx.free('order', ['both first', 'one by one'])


def judge_values(case):
    kind, given, order = case

    def make(names, n):
        from parsevasp.kpoints import Kpoint
        from parsevasp.poscar import Site
        kw = {k: OPTIONS[kind][k].copy() if hasattr(OPTIONS[kind][k], 'copy') else OPTIONS[kind][k] for k in names}
        vec = np.array([.1, .2, .3]) + n
        return Site('Fe', vec, **kw) if kind == 'Site' else Kpoint(vec, **({'weight': 1.0} | kw))

    def look(obj):
        return plain({g: getattr(obj, g)() for g in GETTERS[kind]})

    def run():
        first = make(given[0], 0)
        if order == 'both first':
            second = make(given[1], 1)
        for getter in GETTERS[kind]:
            scramble(getattr(first, getter)())
        if order != 'both first':
            second = make(given[1], 1)
        return look(second)

    expected = forked(lambda: look(make(given[1], 1)))
    bad = first_difference(expected, forked(run), kind)
    if bad:
        raise Violation('values', 'a %s with %s after what another one (with %s) returned was changed in place: %s' % (kind, given[1], given[0], bad))


PROGRAMS = [
    Program('values', gen_values, judge_values),
    Program('pairs', gen_pairs, history, per_case_s=60),
    Program('triples of a type', gen_same, history, per_case_s=60),
    Program('triples', gen_core, history, per_case_s=60, enabled=('thorough',)),
    Program('shared', gen_shared, judge_shared, per_case_s=60),
]
