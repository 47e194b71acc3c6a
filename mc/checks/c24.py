"""C24: every parser reads the same from a path, an open handler or in-memory content."""
import io
import os

from mc import core
from mc.core import Program, Violation, scratch
from mc.models import jobs as J
from mc.obs import LOGGER, attempt, plain, put, same

PROPERTY = 'C24'
BOUNDS = 'every file type x every document of the job alphabet (accepted and refused ones) x LF/CRLF x final newline or not x every input route (path as text and pathlib, text handler with and without newline translation, string buffer, string, binary handlers for vasprun.xml); the same for 49 sample files of the repository; every file type x missing path/directory/empty path; every written type x path/handler'
ORACLE = 'the outcome of the path route on the LF document; the handler has to give its content afterwards'


def first_difference(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for key in sorted(set(a) | set(b), key=str):
            if key not in a or key not in b:
                return '%s[%r] only on one side' % (path, key)
            sub = first_difference(a[key], b[key], '%s[%r]' % (path, key))
            if sub:
                return sub
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            sub = first_difference(x, y, '%s[%d]' % (path, i))
            if sub:
                return sub
        return None
    return None if same(a, b) else '%s: %.120r against %.120r' % (path, a, b)


def outcome(kind, text, kw, route):
    """('ok', observation) or the refusal, and the remark about the handler."""
    J.HANDLER['remark'] = None
    out = attempt(J.run, kind, text, kw, route)
    remark = J.HANDLER['remark']
    if out[0] != 'ok':
        # the message of a failure mentions the file, only its kind has to be the same
        return tuple(out[:2]), remark
    return ('ok', J.observe(kind, out[1][0])), remark


def gen(ctx):
    kind = ctx.free('type', J.KINDS)
    i = ctx.free('document', range(len(J.documents(kind))))
    return kind, i, ctx.free('newline', ['\n', '\r\n']), ctx.free('final newline', [True, False, 'two']), ctx.free('route', J.routes(kind))


def variant(kind, text, newline, final):
    if final is False:
        text = text[:-1] if text.endswith('\n') else text
    if final == 'two':
        text += '\n'
    return text.replace('\n', newline)


def compare(kind, text, kw, base, base_kw, route, what):
    ref, _ = outcome(kind, base, base_kw, 'path')
    got, remark = outcome(kind, text, kw, route)
    bad = first_difference(ref, got, kind)
    if bad:
        raise Violation('same', '%s: %s' % (what, bad))
    if remark:
        raise Violation('handler', '%s: %s' % (what, remark))


def judge(case):
    kind, i, newline, final, route = case
    name, text, kw = J.documents(kind)[i]
    compare(kind, variant(kind, text, newline, final), kw, text, kw, route, '%s %s, newline %r, final %s, route %s' % (kind, name, newline, final, route))


SAMPLES = {'CHGCAR': 'chgcar', 'DOSCAR': 'doscar', 'EIGENVAL': 'eigenval', 'INCAR': 'incar', 'KPOINTS': 'kpoints', 'OUTCAR': 'outcar', 'POSCAR': 'poscar', 'POTCAR': 'potcar', 'stdout': 'stream'}


def samples():
    root = os.path.join(core.REPO, 'tests')
    out = []
    for name in sorted(os.listdir(root)) if os.path.isdir(root) else []:
        kind = 'vasprun' if name.endswith('.xml') else next((v for k, v in SAMPLES.items() if name.startswith(k)), None)
        if kind and os.path.getsize(os.path.join(root, name)) < 700000:
            out.append((kind, os.path.join(root, name), {'non_collinear': True} if name.endswith('DOSCAR.ncl') else {}))
    return out


def gen_samples(ctx):
    pool = samples()
    if not pool:
        return None
    kind, path, kw = pool[ctx.free('sample', range(len(pool)))]
    return kind, path, tuple(kw.items()), ctx.free('newline', ['\n', '\r\n']), ctx.free('route', J.routes(kind))


def judge_samples(case):
    kind, path, kw, newline, route = case
    text = open(path, encoding='utf8').read()
    compare(kind, variant(kind, text, newline, True), dict(kw), text, dict(kw), route, '%s, newline %r, route %s' % (os.path.basename(path), newline, route))


def gen_missing(ctx):
    kind = ctx.free('type', J.KINDS)
    kw = ctx.free('arguments', sorted({tuple(kw.items()) for _, _, kw in J.documents(kind) if 'config' not in kw}))
    return kind, kw, ctx.free('path', ['missing', 'directory', 'missing folder', 'dangling link', 'folder of a file'])


def judge_missing(case):
    kind, kw, how = case
    path = {'missing': os.path.join(scratch(), 'not_there'), 'directory': scratch(), 'missing folder': os.path.join(scratch(), 'no', 'where'), 'dangling link': os.path.join(scratch(), 'link'), 'folder of a file': os.path.join(put('plain', 'x\n'), 'inside')}[how]
    if how == 'dangling link' and not os.path.islink(path):
        os.symlink(os.path.join(scratch(), 'no_target'), path)
    out = attempt(J.cls(kind), file_path=path, logger=LOGGER, **dict(kw))
    if tuple(out[:2]) != ('exit', 14):
        raise Violation('missing', '%s(file_path=<%s>): expected exit status 14, got %s' % (kind, how, 'acceptance' if out[0] == 'ok' else tuple(out)))


def gen_nothing(ctx):
    return ctx.free('type', J.KINDS),


def judge_nothing(case):
    out = attempt(J.cls(case[0]), logger=LOGGER)
    if out[0] == 'ok':
        raise Violation('nothing', '%s() without any source is accepted' % case[0])


def gen_write(ctx):
    kind = ctx.free('type', list(J.STRING))
    i = ctx.free('document', range(len(J.documents(kind))))
    return kind, i, ctx.free('target', ['path', 'handle', 'append', 'stringio'])


def judge_write(case):
    kind, i, target = case
    name, text, kw = J.documents(kind)[i]
    out = attempt(J.run, kind, text, kw, 'path')
    if out[0] != 'ok':
        return 'refused'
    obj = out[1][0]
    ref = io.StringIO()
    obj.write(file_handler=ref)
    want = ref.getvalue()
    path = os.path.join(scratch(), 'written')
    with open(path, 'w', encoding='utf8') as fh:
        fh.write('old content\n' * 40)
    if target == 'path':
        obj.write(file_path=path)
    elif target == 'stringio':
        second = io.StringIO()
        obj.write(file_handler=second)
        if second.closed or second.getvalue() != want:
            raise Violation('write', '%s %s: writing twice gives %r and %r' % (kind, name, want, second.closed or second.getvalue()))
        return 'written'
    else:
        with open(path, 'w' if target == 'handle' else 'a', encoding='utf8') as fh:
            obj.write(file_handler=fh)
            if fh.closed:
                raise Violation('handler', '%s %s: the handler of the caller is closed by write' % (kind, name))
            fh.write('tail')
        want = ('old content\n' * 40 if target == 'append' else '') + want + 'tail'
    have = open(path, encoding='utf8').read()
    if have != want:
        raise Violation('write', '%s %s written to %s: %r instead of %r' % (kind, name, target, have, want))
    return 'written'


PROGRAMS = [
    Program('documents', gen, judge),
    Program('samples', gen_samples, judge_samples, per_case_s=120),
    Program('missing', gen_missing, judge_missing),
    Program('nothing', gen_nothing, judge_nothing),
    Program('write', gen_write, judge_write),
]
