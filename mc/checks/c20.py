"""C20: vasprun.xml response tensors are returned complete and correctly shaped."""
from mc.core import Program, Violation
from mc.models import vasprun as M

PROPERTY = 'C20'
BOUNDS = ('every combination of 1..3 atoms (4 thorough), dielectric functions with 0..3 energies, one or two of them, electronic and ionic dielectric tensors present or absent (with and without the RPA tensor), '
          'Born charges, force constants, phonon modes present or absent, local k-point lists in between, both reading strategies; 1 (2) deviations in number of ionic steps, other blocks, layout, route, options')
ORACLE = 'generated numbers, all different, kept in arrays while they are printed'
ONLY = ('dielectrics', 'epsilon', 'epsilon_ion', 'born', 'hessian', 'dynmat', 'kpoints', 'kpointsw', 'divisions')
ATOMS = {1: ['Si'], 2: ['Si', 'C'], 3: ['C', 'Si', 'C'], 4: ['C', 'Si', 'C', 'Si']}
OTHER = [{}, {'eig': 2, 'dos': {'spins': 1, 'points': 3, 'orbitals': 4}, 'proj': 4}, {'eig': 1, 'eig_specific': 3, 'dos_specific': {'spins': 1, 'points': 2}}, {'vel': 3}, {'spins': 2, 'eig': 2, 'dos': {'spins': 2, 'points': 7}}]


def gen(natoms, energies):
    def program(ctx):
        spec = {'atoms': ATOMS[ctx.free('atoms', list(range(1, natoms + 1)))], 'diel': ctx.free('energies', energies), 'epsilon': ctx.free('epsilon', [False, True, 'rpa']),
                'epsilon_ion': ctx.free('epsilon_ion', [False, True]), 'born': ctx.free('born', [False, True]), 'dynmat': ctx.free('dynmat', [False, 'both', 'hessian', 'modes'])}
        if spec['diel']:
            spec['diel_functions'] = ctx.free('functions', [1, 2])
        spec['local_kpoints'] = ctx.choose('local k-points', [False, True])
        spec['steps'] = [{'sc': 1}] * ctx.choose('steps', [1, 2, 4])
        spec.update(ctx.choose('other', OTHER))
        spec['layout'] = ctx.choose('layout', ['vasp', 'compact', 'deep'])
        spec['numbers'] = ctx.choose('numbers', M.NUMBERS)
        spec['kpoints_opt'] = ctx.choose('kpoints_opt', [0, 3])
        opts = {'event': ctx.free('event', [False, True]), 'route': ctx.choose('route', ['bytesio', 'path', 'binary', 'text', 'stringio']), 'extract_all': ctx.choose('extract', [True, False]),
                'kfirst': ctx.choose('kfirst', [False, True])}
        return spec, opts
    return program


def judge(case):
    spec, opts = case
    xml, got = M.verify('values', M.build(**spec), only=ONLY, what=', '.join('%s=%s' % (k, v) for k, v in spec.items() if v), **opts)
    n = len(spec['atoms'])
    for key, shape in (('born', (n, 3, 3)), ('hessian', (3 * n, 3 * n)), ('epsilon', (3, 3)), ('epsilon_ion', (3, 3))):
        if got[key] is not None and got[key].shape != shape:
            raise Violation('shape', '%s has shape %s instead of %s' % (key, got[key].shape, shape))
    return '%d atoms' % n


def gen_large(ctx):
    spec = {'atoms': (['Si', 'C', 'Si', 'O'] * 4)[:ctx.free('atoms', [1, 5, 10, 11, 13])], 'diel': ctx.free('energies', [1, 10, 101, 1000]), 'diel_functions': ctx.free('functions', [1, 2]), 'epsilon': 'rpa', 'epsilon_ion': True, 'born': True,
            'dynmat': ctx.free('dynmat', ['both', 'hessian', 'modes']), 'numbers': ctx.choose('numbers', M.NUMBERS)}
    return spec, {'event': ctx.free('event', [False, True])}


PROGRAMS = [
    Program('large', gen_large, judge, quick=1, thorough=1, per_case_s=60),
    Program('tensors', gen(3, [0, 1, 2, 3]), judge, quick=1, thorough=2),
    Program('tensors-deep', gen(4, [0, 1, 2, 5]), judge, quick=1, thorough=1, enabled=('thorough',)),
]
