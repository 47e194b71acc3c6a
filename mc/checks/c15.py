"""C15: DOSCAR columns end up under their own energy, spin, atom and orbital."""
import numpy as np

from parsevasp.doscar import Doscar

from mc.core import Program, Violation
from mc.obs import ROUTES, attempt, need, via

PROPERTY = 'C15'
BOUNDS = ('every layout (non-spin, spin-polarised, non-collinear; none, s-p-d, s-p-d-f, lm to d, lm to f projections) times 1..4 (1..8) atoms times 1..4 (1..8) energy points; every file with up to 2 (3 thorough) deviations in header '
          'records, atoms, energy points, three-digit exponents, sign, spacing, glued number of points (10000 and more), extra lines, line ends, end of file and input route; every printed number distinct')
ORACLE = 'the number put in every column of the generated file, with the column order VASP uses (orbital outermost, spin or magnetization component innermost; densities before integrated densities)'

# The order of the p orbitals is the one of the tables of the parser, see the program "p-orbitals"
LM_P = ['py', 'px', 'pz']
LM_D = ['dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2']
LM_F = ['fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
ORBITALS = {'l to d': ['s', 'p', 'd'], 'l to f': ['s', 'p', 'd', 'f'], 'lm to d': ['s'] + LM_P + LM_D, 'lm to f': ['s'] + LM_P + LM_D + LM_F}
COMPONENTS = {'none': 1, 'spin': 2, 'noncollinear': 4}


class Numbers:
    """Distinct numbers, as printed by Fortran."""

    def __init__(self, style):
        self.n = 0
        self.style = style

    def __call__(self):
        self.n += 1
        n = self.n
        sign = '-' if (self.style == 'negative' and n % 3 == 0) else ''
        mant = '%s0.%04d' % (sign, 1000 + n % 9000)
        exp = n // 9000
        if self.style == 'small' and n % 2 or self.style == 'first small' and n == 1 or self.style == 'all small':
            return mant + '-%03d' % (100 + exp), float(mant + 'E-%d' % (100 + exp))
        if self.style == 'large' and n % 5 == 2:
            return mant + '+%03d' % (100 + exp), float(mant + 'E+%d' % (100 + exp))
        if self.style == 'all zero':
            return '0.0000E+00', 0.0
        if self.style == 'all equal':
            return '0.2500E+01', 2.5
        if self.style == 'zero' and n % 4 == 1:
            return '0.0000E+00', 0.0
        if self.style == 'fixed':
            txt = '%s%.6f' % (sign, n * .015625)
            return txt, float(txt)
        return mant + 'E%+03d' % exp, float(mant + 'E%+d' % exp)


def build(spin, orbitals, natoms, ndos, style=None, ions=None, part='1', ncdij=0, coord='  CAR ', name=' unknown system', efermi=5.36269724, weight=1.0, erange=(22.14505839, -7.34078843), newline='\n', post='\n', sep='  ', eform='%11.3f', lead='', escale=1.0):
    num = Numbers(style)
    head = '%16.8f%16.8f%5d%16.8f%16.8f' % (erange[0], erange[1], ndos, efermi, weight)
    out = ['%4d%4d%4s%4d' % (natoms, natoms if ions is None else ions, part, ncdij), '  0.2044415E+02  0.3866975E-09  0.3866975E-09  0.3866975E-09  0.5000000E-15', '   1.0000000000000000E-004', coord, name, head]
    energies = []
    ns = 2 if spin == 'spin' else 1
    tot, integ = [], []
    for i in range(ndos):
        txt = eform % (escale * (-7.341 + .098 * i))
        energies.append(float(txt))
        row = [num() for _ in range(2 * ns)]
        out.append(lead + txt + sep + sep.join(t for t, _ in row))
        vals = [v for _, v in row]
        tot.append(vals[:ns] if ns > 1 else vals[0])
        integ.append(vals[ns:] if ns > 1 else vals[1])
    dos = {'energy': energies, 'total': tot, 'integrated': integ}
    pdos = None
    if orbitals:
        nc = COMPONENTS[spin]
        names = ORBITALS[orbitals]
        pdos = {name: [] for name in ['energy'] + names}
        for a in range(natoms):
            out.append(head)
            cols = {name: [] for name in pdos}
            for i in range(ndos):
                # every atom has its own energy column, such that an atom cannot be taken for another
                txt = eform % (escale * (-7.341 + .098 * i + .001 * a))
                row = []
                cols['energy'].append(float(txt))
                for name_ in names:
                    vals = [num() for _ in range(nc)]
                    row += [t for t, _ in vals]
                    cols[name_].append([v for _, v in vals] if nc > 1 else vals[0][1])
                out.append(lead + txt + sep + sep.join(row))
            for name_ in pdos:
                pdos[name_].append(cols[name_])
    text = newline.join(out) + post.replace('\n', newline)
    meta = {'n_ions': natoms, 'n_atoms': natoms if ions is None else ions, 'cartesian': coord.strip()[:1] in ('c', 'C'), 'name': name.strip(), 'emax': float('%.8f' % erange[0]), 'emin': float('%.8f' % erange[1]), 'n_dos': ndos,
            'efermi': float('%.8f' % efermi), 'weight': float('%.8f' % weight)}
    return text, spin == 'noncollinear', meta, dos, pdos


LAYOUTS = [(s, o) for s in COMPONENTS for o in (None,) + tuple(ORBITALS)]


def gen_layouts(ctx, top=4):
    spin, orbitals = ctx.free('layout', LAYOUTS)
    return build(spin, orbitals, ctx.free('atoms', range(1, top + 1)), ctx.free('points', range(1, top + 1)), newline=ctx.free('newline', ['\n', '\r\n'])) + (ctx.free('route', ROUTES),)


def gen_forms(ctx):
    ch = ctx.choose
    spin, orbitals = ctx.free('layout', LAYOUTS)
    return build(
        spin, orbitals, ch('atoms', [2, 1, 3, 12, 30]), ch('points', [3, 1, 5, 301 if not orbitals else 31, 2, 6, 10]), style=ch('numbers', [None, 'negative', 'small', 'first small', 'all small', 'large', 'zero', 'fixed', 'all zero', 'all equal']), ions=ch('ions', [None, 1, 7]),
        part=ch('part', ['1', '0']), ncdij=ch('ncdij', [0, 1, 2, 4]), coord=ch('coord', ['  CAR ', '  car', 'Cartesian', '  DIR']), name=ch('name', [' unknown system', '', ' Si', ' X', '  a  name with  blanks', ' 1 2 3']),
        efermi=ch('efermi', [5.36269724, -5.5, 0.0, 1234.5, -0.00000001, 1.0, -1234.56789012]), weight=ch('weight', [1.0, .5, 0.0, 2.0]), erange=ch('range', [(22.14505839, -7.34078843), (0.0, -100.25), (12345.678, -1234.5), (-1.0, -2.0), (5.0, 3.0), (1.0, 1.0), (0.00000001, -0.00000001)]),
        newline=ch('newline', ['\n', '\r\n']), post=ch('end of file', ['\n', '', '\n\n', '\n \n\n']), sep=ch('separator', ['  ', ' ', '\t']), eform=ch('energy', ['%11.3f', '%.3f', '%12.8f', '%.8E']), lead=ch('lead', ['', '   ']), escale=ch('energies', [1.0, 0.0, -1.0, 100.0])) + (ch('route', ROUTES),)


def gen_many(ctx):
    spin, orbitals = ctx.free('layout', [('none', None), ('spin', None), ('none', 'l to d'), ('spin', 'l to d'), ('noncollinear', 'l to d')])
    return build(spin, orbitals, 2, ctx.free('points', [9999, 10000, 12345, 99999][:3 if orbitals else 4]), erange=ctx.free('range', [(22.14505839, -7.34078843), (12345.678, -1234.5), (0.0, 0.0), (5.0, 3.0)])) + ('path',)


def table(got, exp, what):
    names = getattr(getattr(got, 'dtype', None), 'names', None)
    if names is None:
        raise Violation('columns', what + ' has no named columns: %r' % (got,))
    if set(names) != set(exp):
        raise Violation('columns', what + ': columns %s, expected %s' % (sorted(names), sorted(exp)))
    for name, values in exp.items():
        need('value', np.array(values, dtype=float), got[name], '%s[%s]' % (what, name), rtol=0.0, atol=0.0)


def judge(case):
    text, ncl, meta, dos, pdos, route = case
    out = attempt(via, Doscar, text, route, non_collinear=ncl)
    if out[0] != 'ok':
        raise Violation('accept', '%s: %r' % (tuple(out), text[:600]))
    par = out[1]
    need('metadata', meta, par.get_metadata(), 'file %r: metadata' % text[:300], rtol=0.0, atol=0.0)
    table(par.get_dos(), dos, 'file %r: dos' % text[:500])
    if pdos is None:
        if par.get_pdos() is not None and np.size(par.get_pdos()):
            raise Violation('pdos', 'projected density returned for a file without: %r' % text[:500])
    else:
        table(par.get_pdos(), pdos, 'file %r: pdos' % text[-700:])


def gen_p(ctx):
    spin = ctx.free('spin', list(COMPONENTS))
    orbitals = ctx.free('orbitals', ['lm to d', 'lm to f'])
    return (spin, orbitals) + build(spin, orbitals, 1, 2)


def judge_p(case):
    spin, orbitals, text, ncl, _, _, pdos = case
    got = via(Doscar, text, 'stringio', non_collinear=ncl).get_pdos()
    # VASP prints the p orbitals in the order y, z, x (as it labels them in vasprun.xml and PROCAR)
    order = []
    for column in range(3):
        names = [name for name in got.dtype.names if np.array_equal(got[name], np.array(pdos[LM_P[column]]))]
        order.append(names[0] if names else '?')
    if order != ['py', 'pz', 'px']:
        raise Violation('p-order', 'the three p columns py, pz, px of a %s file (%s) are returned as %s' % (spin, orbitals, ', '.join(order)))


PROGRAMS = [
    Program('layouts', gen_layouts, judge),
    Program('layouts to 8', lambda ctx: gen_layouts(ctx, 8), judge, enabled=('thorough',)),
    Program('forms', gen_forms, judge, quick=2, thorough=3),
    Program('many points', gen_many, judge, per_case_s=120),
    Program('p-orbitals', gen_p, judge_p),
]
