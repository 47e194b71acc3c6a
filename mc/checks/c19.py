"""C19: vasprun.xml electronic structure lands on the right spin, k-point, band and orbital."""
import re

from mc.core import Program, Violation
from mc.models import vasprun as M
from mc.obs import attempt

PROPERTY = 'C19'
BOUNDS = ('every combination of 1..2 (3) atoms, 1..3 k-points, 1..3 bands, 1..2 spins, eigenvalues with/without occupancies or absent, 0/1/3/9 projected orbitals, density of states absent/total/partial, band- or k-point-first, both '
          'reading strategies; 1 (2) deviations in finer-mesh eigenvalues, velocities and density of states, missing Fermi level, 16 orbitals, non-collinear partial density of states, several ionic steps, layout, route; '
          'an overflowed number in every single row of the file; every missing or contradicting dimension')
ORACLE = 'generated numbers, all different, kept in arrays indexed by spin, k-point, band, atom and orbital while they are printed'
ONLY = ('eigenvalues', 'occupancies', 'projectors', 'dos', 'dos_specific', 'fermi_level', 'fermi_level_specific', 'eigenvalues_specific', 'eigenvelocities', 'kpoints', 'kpointsw', 'kpoints_specific',
        'kpointsw_specific')
ATOMS = {1: ['Si'], 2: ['Si', 'C'], 3: ['C', 'Si', 'C'], 4: ['C', 'Si', 'C', 'Si']}


def gen(natoms, nk, nb, orbitals, points):
    def program(ctx):
        spec = {'atoms': ATOMS[ctx.free('atoms', list(range(1, natoms + 1)))], 'kpoints': ctx.free('kpoints', list(range(1, nk + 1))), 'bands': ctx.free('bands', list(range(1, nb + 1))),
                'spins': ctx.free('spins', [1, 2]), 'eig': ctx.free('eig', [2, 1, None])}
        proj = ctx.free('proj', [0] + orbitals) if spec['eig'] == 2 else 0
        spec['proj'] = proj
        dos = ctx.free('dos', [None, 0] + orbitals)
        npts = ctx.choose('points', points)
        if dos is not None:
            spec['dos'] = {'spins': spec['spins'], 'points': npts, 'orbitals': dos}
            if ctx.flag('no fermi'):
                spec['dos']['efermi'] = False
            if dos and spec['spins'] == 1 and ctx.flag('non-collinear'):
                spec['dos']['nc'] = True
        fine = ctx.choose('fine', ['none', 'eigenvalues', 'velocities', 'eigenvalues-dos', 'velocities-dos', 'dos', 'dos-partial'])
        if fine.startswith('eigenvalues'):
            spec['eig_specific'] = 4
        if fine.startswith('velocities'):
            spec['vel'] = 4
        if 'dos' in fine:
            spec['dos_specific'] = {'spins': spec['spins'], 'points': 3, 'orbitals': 4 if 'partial' in fine else 0}
        spec['steps'] = [{'sc': 1}] * ctx.choose('steps', [1, 2, 3])
        spec['layout'] = ctx.choose('layout', ['vasp', 'compact', 'deep'])
        spec['numbers'] = ctx.choose('numbers', M.NUMBERS)
        spec['kpoints_opt'] = ctx.choose('kpoints_opt', [0, 1, 5])
        if spec['proj'] and spec['spins'] == 1:
            spec['proj_nc'] = ctx.flag('non-collinear projections')
        opts = {'kfirst': ctx.free('kfirst', [False, True]), 'event': ctx.free('event', [False, True]), 'route': ctx.choose('route', ['bytesio', 'path', 'binary', 'text', 'stringio']),
                'extract_all': ctx.choose('extract', [True, False])}
        return spec, opts
    return program


def judge(case):
    spec, opts = case
    what = ', '.join('%s=%s' % (k, v) for k, v in spec.items() if v)
    xml, got = M.verify('values', M.build(**spec), only=ONLY, what=what, **opts)
    if got['occupancies'] is not xml.get_occupancies():
        raise Violation('stable', 'repeated access gives another object')
    return '%d spins' % spec['spins']


FULL = dict(atoms=['Si', 'C'], kpoints=2, bands=2, spins=2, steps=[{'sc': 2}, {'sc': 1}], eig=2, eig_specific=3, dos={'spins': 2, 'points': 2, 'orbitals': 4}, dos_specific={'spins': 2, 'points': 2}, proj=3,
            diel=2, epsilon='rpa', epsilon_ion=True, born=True, dynmat='both', local_kpoints=True)
VEL = dict(atoms=['Si'], kpoints=2, bands=2, spins=1, eig=1, vel=3, dos={'spins': 1, 'points': 2})
PLAIN = dict(atoms=['Si', 'C'])
DOCS = {'full': FULL, 'velocities': VEL, 'plain': PLAIN}
NUMBERS = re.compile(r'>\s*-?\d[-\d.\s]*<')


def gen_overflow(ctx):
    name = ctx.free('doc', list(DOCS))
    text = M.build(**DOCS[name]).text()
    rows = [i for i, line in enumerate(text.split('\n')) if NUMBERS.search(line)]
    return name, ctx.free('row', rows), ctx.free('which', [0, -1]), ctx.free('event', [False, True])


def judge_overflow(case):
    """A number that did not fit into its field (`****`) is refused or, where the number is of no interest, changes nothing."""
    name, row, which, event = case
    doc = M.build(**DOCS[name])
    lines = doc.text().split('\n')
    spans = [m.span() for m in re.finditer(r'-?\d[\d.]*(?=[\s<])', lines[row]) if m.start() > lines[row].index('>')]
    a, b = spans[which]
    lines[row] = lines[row][:a] + '*' * max(4, b - a) + lines[row][b:]
    out = attempt(M._both, '\n'.join(lines), 'bytesio', event, True, False)
    if tuple(out) == ('exit', 509):
        return 'refused'
    if out[0] != 'ok':
        raise Violation('overflow', 'row %r: %s' % (lines[row], tuple(out)))
    bad = M.compare(M.expected(M.state_at(doc)), out[1][1])
    if bad:
        raise Violation('overflow', 'row %r (event=%s): %s' % (lines[row], event, bad))
    return 'not used'


def gen_contradiction(ctx):
    spec = {'atoms': ['Si'], 'kpoints': ctx.free('k', [1, 2, 3]), 'bands': ctx.free('b', [1, 2, 3]), 'spins': ctx.free('s', [1, 2]), 'eig': ctx.free('cols', [1, 2])}
    fault = ctx.free('fault', ['nbands+1', 'nbands*2', 'nbands 0', 'no ispin', 'no nbands', 'no kpoints', 'no species'])
    spec['proj'] = ctx.free('proj', [0, 4]) if spec['eig'] == 2 else 0
    return spec, fault, ctx.free('event', [False, True])


def judge_contradiction(case):
    spec, fault, event = case
    exp = 505
    if fault.startswith('nbands'):
        spec = dict(spec, params={'nbands': {'nbands+1': spec['bands'] + 1, 'nbands*2': spec['bands'] * 2, 'nbands 0': 0}[fault]})
    else:
        spec = dict(spec, leave_out=(fault[3:],))
        exp = {'no ispin': 502, 'no nbands': 503, 'no kpoints': 504}.get(fault)
    text = M.build(**spec).text()
    if fault == 'no species':
        # only what counts the atoms needs them
        exp = 501 if spec['proj'] else 'ok'
        text = re.sub('<atominfo>.*?</atominfo>', '', text, flags=re.S)
    out = attempt(M.parse, text, event=event)
    if (tuple(out) != ('exit', exp)) if exp != 'ok' else out[0] != 'ok':
        raise Violation('contradiction', '%s in %s (event=%s): %s instead of exit status %s' % (fault, spec, event, 'accepted' if out[0] == 'ok' else tuple(out), exp))
    return fault


BLOCK = {'eig': 'eigenvalues', 'proj': 'array', 'vel': 'eigenvelocities', 'specific': 'eigenvalues'}


def gen_rows(ctx):
    block = ctx.free('block', list(BLOCK))
    spec = {'atoms': ['Si', 'C'][:ctx.free('atoms', [1, 2])], 'kpoints': ctx.free('k', [2, 1, 3]), 'bands': ctx.free('b', [2, 1, 3]), 'spins': ctx.free('s', [1, 2])}
    spec['eig'] = 2 if block == 'proj' else ctx.free('cols', [1, 2])
    if block == 'proj':
        spec['proj'] = 4
    if block == 'vel':
        spec['vel'] = 3
    if block == 'specific':
        spec['eig_specific'] = 3
    return block, spec, ctx.free('spin', range(1, spec['spins'] + 1)), ctx.free('fault', ['gone', 'twice', 'as many again', 'none left']), ctx.free('which', [0, -1]), ctx.free('event', [False, True])


def judge_rows(case):
    """A set with more or fewer rows than k-points times bands is refused."""
    block, spec, spin, fault, which, event = case
    lines = M.build(**spec).text().split('\n')
    mark = {'eig': '<eigenvalues>', 'proj': '<projected>', 'vel': '<eigenvelocities', 'specific': '<eigenvalues comment="interpolated"'}[block]
    start = max(i for i, line in enumerate(lines) if mark in line)
    if block == 'proj':
        start = next(i for i in range(start, len(lines)) if '<array' in lines[i])
    first = next(i for i in range(start, len(lines)) if 'comment="spin%s%d"' % ('' if block == 'proj' else ' ', spin) in lines[i])
    depth, rows = 0, []
    for i in range(first, len(lines)):
        depth += lines[i].count('<set') - lines[i].count('</set>')
        if '<r>' in lines[i]:
            rows.append(i)
        if depth == 0:
            break
    if fault == 'gone':
        del lines[rows[which]]
    elif fault == 'twice':
        lines.insert(rows[which], lines[rows[which]])
    elif fault == 'none left':
        for i in reversed(rows):
            del lines[i]
    else:
        lines[rows[which]:rows[which]] = [lines[i] for i in rows]
    out = attempt(M.parse, '\n'.join(lines), event=event)
    if out[0] == 'ok' and spin == 1 and (fault == 'none left' or len(rows) == 1 and fault == 'gone'):
        # what is not there may be absent
        obj = out[1]
        got = {'eig': obj.get_eigenvalues, 'proj': obj.get_projectors, 'vel': obj.get_eigenvelocities, 'specific': obj.get_eigenvalues_specific}[block]()
        if got is not None:
            raise Violation('rows', '%s of spin %d, %s (event=%s): %.200r' % (block, spin, fault, event, got))
    elif tuple(out) != ('exit', 505):
        raise Violation('rows', '%s of spin %d, row %d %s in %s (event=%s): %s instead of exit status 505' % (block, spin, which, fault, spec, event, 'accepted' if out[0] == 'ok' else tuple(out)))
    return block


def gen_large(ctx):
    spec = {'atoms': (['Si', 'C', 'Si', 'O'] * 3)[:ctx.free('atoms', [1, 10, 11])], 'kpoints': ctx.free('kpoints', [1, 10, 11, 12]), 'bands': ctx.free('bands', [1, 10, 11, 12]), 'spins': ctx.free('spins', [1, 2]), 'eig': 2}
    block = ctx.free('block', ['eig', 'proj', 'dos', 'pdos', 'fine', 'fine-pdos'])
    points = ctx.choose('points', [11, 301])
    if block == 'proj':
        spec['proj'] = ctx.choose('orbitals', [9, 16])
    elif block in ('dos', 'pdos'):
        spec['dos'] = {'spins': spec['spins'], 'points': points, 'orbitals': 9 if block == 'pdos' else 0}
    elif block == 'fine':
        spec['vel' if ctx.flag('velocities') else 'eig_specific'] = 13
    elif block == 'fine-pdos':
        spec['dos_specific'] = {'spins': spec['spins'], 'points': points, 'orbitals': 9}
    return spec, {'kfirst': ctx.free('kfirst', [False, True]), 'event': ctx.free('event', [False, True])}


PROGRAMS = [
    Program('large', gen_large, judge, quick=1, thorough=1, per_case_s=60),
    Program('layouts', gen(2, 3, 3, [1, 3, 9], [2, 1, 5]), judge, quick=1, thorough=1),
    Program('layouts-deep', gen(3, 3, 3, [1, 4, 9, 16], [3, 1, 2]), judge, quick=1, thorough=2, enabled=('thorough',)),
    Program('overflow', gen_overflow, judge_overflow),
    Program('contradictions', gen_contradiction, judge_contradiction),
    Program('rows', gen_rows, judge_rows),
]
