"""C22: a vasprun.xml cut off at any point is flagged and never yields wrong data."""
from mc.core import Program, Violation
from mc.models import vasprun as M
from mc.obs import attempt

PROPERTY = 'C22'
BOUNDS = ('every single byte offset of 5 (quick) / 12 (thorough) files that together contain every block, up to three ionic steps, both spin settings and all layouts; both settings of the step extraction; '
          'all input routes and the forced event strategy at every 7th (quick) / every (thorough) offset of the smallest files; complete files with every kind of trailing text')
ORACLE = 'the generator records at which offset each record is complete; the expected result of a cut is the fold of the records completed before it'
FULL = dict(atoms=['Si', 'C'], kpoints=2, bands=2, spins=2, steps=[{'sc': 2}, {'sc': 1}], eig=2, eig_specific=2, dos={'spins': 2, 'points': 2, 'orbitals': 2}, dos_specific={'spins': 2, 'points': 2},
            proj=2, diel=1, diel_functions=2, epsilon='rpa', epsilon_ion=True, born=True, dynmat='both', local_kpoints=True)
DOCS = {
    'small': dict(atoms=['Si'], kpoints=1, bands=1, steps=[{'sc': 1}]),
    'relax': dict(atoms=['Si', 'C'], steps=[{'sc': 2}, {'sc': 1}, {'sc': 2}]),
    'full': FULL,
    'compact': dict(FULL, layout='compact', spins=1, dos={'spins': 1, 'points': 2, 'orbitals': 2}, dos_specific={'spins': 1, 'points': 1, 'orbitals': 3}, steps=[{'sc': 1}]),
    'velocities': dict(atoms=['Si'], vel=2, eig=1, dos={'spins': 1, 'points': 1, 'efermi': False}, layout='deep'),
}
MORE = {
    'relax-deep': dict(atoms=['Si', 'C'], steps=[{'sc': 1}, {'sc': 1}, {'sc': 1}, {'sc': 2}], layout='deep'),
    'relax-compact': dict(atoms=['C', 'Si', 'C'], steps=[{'sc': 1}, {'sc': 3}, {'sc': 1}], layout='compact'),
    'full-deep': dict(FULL, layout='deep'),
    'full-unpolarised': dict(FULL, spins=1, dos={'spins': 1, 'points': 3, 'orbitals': 9, 'nc': True}, dos_specific={'spins': 1, 'points': 2, 'efermi': False}, proj=9, diel=3),
    'full-polarised': dict(FULL, atoms=['C', 'Si', 'C'], kpoints=3, bands=3, dos={'spins': 2, 'points': 3, 'orbitals': 4}, dynmat='hessian'),
    'modes': dict(atoms=['Si', 'C'], dynmat='modes', born=True, diel=2, steps=[{'sc': 1}, {'sc': 1}]),
    'gap': dict(atoms=['Si'], steps=[{'sc': 1}, {'sc': 1, 'stress': False}, {'sc': 1, 'energy': False}, {'sc': 1}]),
}
CACHE = {}


def doc_of(name):
    if name not in CACHE:
        CACHE[name] = M.build(**(DOCS.get(name) or MORE[name]))
    return CACHE[name]


def gen(names):
    def program(ctx):
        name = ctx.free('doc', names)
        doc = doc_of(name)
        return name, ctx.free('cut', range(len(doc.text()) + 1)), ctx.free('extract', [True, False])
    return program


def judge(case):
    name, pos, extract = case
    doc = doc_of(name)
    return judge_cut(doc, name, pos, 'bytesio', extract, False)


def judge_cut(doc, name, pos, route, extract, kfirst):
    what = '%s cut at byte %d, after %r ' % (name, pos, doc.text()[max(0, pos - 40):pos])
    start = doc.text().index('<modeling>') + len('<modeling>')
    if pos < start:
        # Nothing has been written yet, refusing the file is fine as well
        if attempt(M.parse, doc.text()[:pos], route)[0] != 'ok':
            return 'refused'
    M.verify('cut', doc, pos=pos, route=route, extract_all=extract, kfirst=kfirst, what=what)
    return 'complete' if pos >= doc.end else 'cut'


def gen_routes(step):
    def program(ctx):
        name = ctx.free('doc', ['small', 'compact'] if step > 1 else ['small', 'compact', 'relax', 'modes'])
        doc = doc_of(name)
        return name, ctx.free('cut', range(0, len(doc.text()) + 1, step)), ctx.free('route', ['path', 'binary', 'text', 'stringio', 'event']), ctx.free('kfirst', [False, True])
    return program


def judge_routes(case):
    name, pos, route, kfirst = case
    doc = doc_of(name)
    if route != 'event':
        return judge_cut(doc, name, pos, route, True, kfirst)
    out = attempt(M._both, doc.text()[:pos], 'bytesio', True, True, kfirst)
    if pos >= doc.end:
        M.verify('cut', doc, pos=pos, event=True, kfirst=kfirst, what='complete file')
        return 'complete'
    if out[0] == 'ok':
        raise Violation('event', '%s cut at byte %d is accepted by the event strategy' % (name, pos))
    return 'refused'


def gen_complete(ctx):
    spec = ctx.free('spec', list(DOCS.values()) + list(MORE.values()))
    tail = ctx.free('tail', ['', '\n', '\r\n', '\n\n', '\n\n\n \n', ' ', '\t\n', '<!-- end -->\n', '\n' * 900, ' ' * 1000])
    return dict(spec, tail=tail), ctx.free('route', M.ROUTES), ctx.free('event', [False, True])


def judge_complete(case):
    spec, route, event = case
    M.verify('complete', M.build(**spec), route=route, event=event, what='complete file with trailing %.20r' % spec['tail'])


PROGRAMS = [
    Program('every-byte', gen(list(DOCS)), judge),
    Program('every-byte-more', gen(list(MORE)), judge, enabled=('thorough',)),
    Program('routes', gen_routes(7), judge_routes, enabled=('quick',)),
    Program('routes-every-byte', gen_routes(1), judge_routes, enabled=('thorough',)),
    Program('complete-files', gen_complete, judge_complete),
]
