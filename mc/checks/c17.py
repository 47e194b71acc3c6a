"""C17: vasprun.xml structures and parameters are those of the requested step."""
from mc.core import Program, Violation
from mc.models import vasprun as M
from mc.obs import attempt

PROPERTY = 'C17'
BOUNDS = ('every file with 1..3 atoms x 1..4 ionic steps (quick; 1..4 x 1..6 thorough) x every k-point count in {1,2,4} x last step with every subset of its records missing, and with 1 (2) '
          'deviations in a middle step, layout, options, route, reading strategy and other blocks; every parameter value of the pool and every subset of up to two absent parameters; every element of the periodic table '
          'up to Cn, alone and in a pair')
ORACLE = 'generated files: the model state at the end of the file is known by construction (own table of atomic numbers)'

OTHER = [{}, {'eig': 2, 'dos': {'spins': 1, 'points': 2, 'orbitals': 4}, 'proj': 4}, {'local_kpoints': True, 'epsilon': 'rpa', 'born': True, 'dynmat': 'both', 'diel': 2},
         {'eig_specific': 3, 'dos_specific': {'spins': 1, 'points': 2}, 'eig': 2}, {'vel': 3}]
ATOMS = {1: [['Si'], ['U']], 2: [['Si', 'C'], ['H', 'H']], 3: [['C', 'Si', 'C'], ['Co', 'C', 'O']], 4: [['Fe', 'F', 'Fe', 'B']]}


def gen_steps(natoms, nsteps):
    def program(ctx):
        atoms = ctx.free('atoms', [a for n in range(1, natoms + 1) for a in ATOMS[n]])
        steps = [{'sc': 1} for _ in range(ctx.free('steps', list(range(1, nsteps + 1))))]
        for part in ('structure', 'forces', 'stress', 'energy'):
            if ctx.free('last-' + part, [True, False]) is False:
                if len(steps) == 1 and part == 'structure':
                    from mc.core import Skip
                    raise Skip
                steps[-1][part] = False
        if len(steps) > 2:
            hole = ctx.choose('hole', [None] + [(i, p) for i in range(1, len(steps) - 1) for p in ('structure', 'forces', 'stress', 'energy')])
            if hole:
                steps[hole[0]][hole[1]] = False
        lacking = ctx.choose('never', [None, 'forces', 'stress'])
        if lacking:
            for step in steps:
                step[lacking] = False
        spec = {'atoms': atoms, 'steps': steps, 'kpoints': ctx.free('kpoints', [2, 1, 4])}
        if ctx.flag('no divisions'):
            spec['divisions'] = False
        spec['layout'] = ctx.choose('layout', ['vasp', 'compact', 'deep'])
        spec['numbers'] = ctx.choose('numbers', M.NUMBERS)
        spec['selective'] = ctx.choose('selective', [False, 'selective', 'velocities', 'both'])
        spec['generation'] = ctx.choose('generation', [None, 'Monkhorst-Pack', 'listgenerated', 'Automatic'])
        spec['md'] = ctx.flag('md')
        spec['kpoints_opt'] = ctx.choose('kpoints_opt', [0, 3])
        spec['tail'] = ctx.choose('tail', ['', '\n', '\n\n  \n', '\r\n'])
        spec.update(ctx.choose('other', OTHER))
        # a final structure is only written when the run ended by itself
        complete = all(steps[-1].get(p, True) for p in ('structure', 'energy'))
        spec['final'] = ctx.choose('final', [True, False]) if complete else False
        opts = {'event': ctx.choose('event', [False, True]), 'extract_all': ctx.choose('extract', [True, False]), 'route': ctx.choose('route', ['bytesio', 'path', 'binary', 'text', 'stringio'])}
        return spec, opts
    return program


ONLY = ('version', 'species', 'kpoints', 'kpointsw', 'divisions', 'parameters', 'unitcell', 'positions', 'forces', 'stress', 'lattice')


def judge_steps(case):
    spec, opts = case
    doc = M.build(**spec)
    what = '%d atoms, steps %s' % (len(spec['atoms']), spec['steps'])
    xml, _ = M.verify('records', doc, only=ONLY, what=what, **opts)
    for status in ('final', 'first', '', None, 'ALL', 1):
        for get in (xml.get_unitcell, xml.get_positions, xml.get_forces, xml.get_stress, xml.get_lattice):
            out = attempt(get, status)
            known = get in (xml.get_unitcell, xml.get_positions, xml.get_lattice) or get('all') is not None
            if known and tuple(out) != ('exit', 507):
                raise Violation('status', '%s: %s(%r) gives %s' % (what, get.__name__, status, tuple(out)[:1]))
    return '%d steps' % len(spec['steps'])


POOL = {'system': ['unknown system', 'Si', 'a = b # c', 'bulk  Si 2x2', '123'], 'symprec': [1e-5, 0.0, 0.5, 12.25], 'ismear': [-5, -1, 0, 1, 2], 'sigma': [0.05, 0.2, 1.5, 0.0], 'nbands': [3, 1, 20, 123456],
        'nelect': [8.5, 1.0, 32.0, 12345.25], 'nelm': [60, 1, 100, 99999], 'nsw': [7, 0, 1, 100000], 'ispin': [1, 2]}


def gen_parameters(ctx):
    params = {key: ctx.choose(key, vals) for key, vals in POOL.items()}
    gone = tuple(key for key in list(POOL) + ['version', 'kpoints'] if ctx.flag('without ' + key))
    version = ctx.choose('version', ['5.4.4.18Apr17-6-g9f103f2a35', '5.4.1', '6.3.2', '6.4.10', '5.3.5', '10.20.30'])
    return {'params': params, 'leave_out': gone, 'version': version, 'layout': ctx.choose('layout', ['vasp', 'compact', 'deep'])}, ctx.free('event', [False, True])


def judge_parameters(case):
    spec, event = case
    M.verify('parameters', M.build(**spec), what='%s without %s' % (spec['params'], spec['leave_out']), event=event)


def gen_elements(ctx):
    a = ctx.free('element', M.SYMBOLS)
    b = ctx.free('second', [None, 'H', 'Si', 'Zr'])
    return {'atoms': [a] if b is None else [b, a, b]}, ctx.free('event', [False, True])


def judge_elements(case):
    spec, event = case
    M.verify('elements', M.build(**spec), what=str(spec['atoms']), only=('species', 'lattice'), event=event)


def gen_unknown(ctx):
    bad = ctx.free('symbol', ['Xx', 'Q', 'Si1', 'Aa', 'Bg', '1'])
    return ctx.free('atoms', [[bad], ['Si', bad], [bad, 'Si'], ['Si', 'C', bad]]), ctx.free('event', [False, True])


def judge_unknown(case):
    atoms, event = case
    M.NUMBER.update({a: 0 for a in atoms if a not in M.SYMBOLS})
    out = attempt(M.parse, M.build(atoms=atoms).text(), event=event)
    if tuple(out) != ('exit', 506):
        raise Violation('unknown-element', '%s: %s instead of exit status 506' % (atoms, tuple(out)[:1]))


def gen_large(ctx):
    atoms = (['Si', 'C', 'Si', 'O', 'H'] * 21)[:ctx.free('atoms', [1, 9, 10, 12, 33, 101])]
    steps = [{'sc': 1} for _ in range(ctx.free('steps', [1, 2, 9, 10, 11, 25]))]
    spec = {'atoms': atoms, 'steps': steps, 'kpoints': ctx.free('kpoints', [1, 10, 101]), 'numbers': ctx.choose('numbers', M.NUMBERS), 'final': ctx.choose('final', [True, False])}
    if len(steps) > 2:
        hole = ctx.choose('hole', [None] + [(i, p) for i in (1, -2, -1) for p in ('structure', 'forces', 'stress')])
        if hole:
            steps[hole[0]][hole[1]] = False
            spec['final'] = hole[0] != -1 and spec['final']
    return spec, {'event': ctx.free('event', [False, True]), 'extract_all': ctx.free('extract', [True, False])}


def judge_large(case):
    spec, opts = case
    M.verify('records', M.build(**spec), only=ONLY, what='%d atoms, %d steps' % (len(spec['atoms']), len(spec['steps'])), **opts)


PROGRAMS = [
    Program('large', gen_large, judge_large, quick=1, thorough=1, per_case_s=60),
    Program('steps', gen_steps(3, 4), judge_steps, quick=1, thorough=1),
    Program('steps-deep', gen_steps(4, 6), judge_steps, quick=1, thorough=2, enabled=('thorough',)),
    Program('parameters', gen_parameters, judge_parameters, quick=2, thorough=3),
    Program('elements', gen_elements, judge_elements),
    Program('unknown-elements', gen_unknown, judge_unknown),
]
