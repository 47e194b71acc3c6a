"""C14: CHGCAR densities are placed on the grid point they belong to."""
import numpy as np

from parsevasp.chgcar import Chgcar

from mc.core import Program, Violation
from mc.obs import ROUTES, attempt, need, via

PROPERTY = 'C14'
BOUNDS = ('every grid with edges 1..4 (1..6 thorough) times values per line 1, 3, 5, 10 times spin layout times augmentation/moments blocks; every file with up to 2 (3 thorough) deviations in comment, scaling, cell, atoms, '
          'site block, blank line, grid line, number spelling (fixed, E with and without leading zero, three-digit exponents, integers), zero and negative values, augmentation text, moments, line ends, end of file, input route')
ORACLE = 'the value put on every grid point when the file was generated, divided by the absolute value of the determinant computed independently'

CELLS = {
    'cubic': ((2., 0., 0.), (0., 2., 0.), (0., 0., 2.)), 'fcc': ((.5, .5, 0.), (0., .5, .5), (.5, 0., .5)), 'triclinic': ((3.1, .2, -.3), (.5, 2.7, .1), (-.4, .6, 4.2)),
    'tiny': ((.011, 0., 0.), (0., .012, 0.), (0., 0., .013)), 'huge': ((101., .5, 0.), (0., 102.25, 0.), (3., 0., 99.)), 'unit': ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), 'volume one': ((2., 0., 0.), (0., .5, 0.), (0., 0., 1.)),
    'left-handed': ((0., 2., 0.), (3., 0., 0.), (0., 0., 4.)), 'left-handed triclinic': ((.5, 2.7, .1), (3.1, .2, -.3), (-.4, .6, 4.2)),
}
SIMPLE = {'all zero': 0.0, 'all equal': 5.5, 'all one': 1.0}
SPELL = ['E17.11', 'fortran', 'integer', 'fixed', 'G11.5', 'e-small', 'lower']


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def spell(value, how):
    """Printed form and the value it stands for."""
    if how == 'integer':
        return '%d' % round(value), float(round(value))
    if how == 'fixed':
        txt = '%.6f' % value
        return txt, float(txt)
    if how == 'e-small':
        txt = '%.10E' % (value * 1e-9)
        return txt, float(txt)
    if how == 'lower':
        txt = '%.10e' % value
        return txt, float(txt)
    # Fortran: mantissa below one
    digits = 5 if how == 'G11.5' else 11
    if value == 0:
        return '0.' + '0' * digits + 'E+00', 0.0
    mant, exp = ('%.*E' % (digits - 1, abs(value))).split('E')
    exp = int(exp) + 1
    mant = '0.' + mant.replace('.', '')
    sign = '-' if value < 0 else ''
    if sign and digits == 11:
        mant = mant[1:]   # -.123E+01 keeps the width of E17.11
    return sign + mant + 'E%+03d' % exp, float(sign + mant + 'E%d' % exp)


def three_digits(value, exp):
    digits = ('%.10f' % (abs(value) / 1000 + .1))[:13]
    sign = '-' if value < 0 else ''
    return '%s%s%+04d' % (sign, digits, exp), float('%s%sE%d' % (sign, digits, exp))


def dataset(shape, offset, how, special):
    """Text tokens in file order (x fastest) and the array [z][y][x]."""
    nx, ny, nz = shape
    arr, toks = [], []
    n = 0
    for z in range(nz):
        plane = []
        for y in range(ny):
            row = []
            for x in range(nx):
                n += 1
                value = offset + 1 + 31 * x + 7.0 * y + 211 * z + (0.0 if how == 'integer' else .015625 * n)
                if special == 'negative' and n % 3 == 2:
                    value = -value
                if special == 'zero' and n % 4 == 1:
                    value = 0.0
                if special in SIMPLE:
                    value = SIMPLE[special]
                if special == 'tiny':
                    value *= 1e-60
                if special == 'huge':
                    value *= 1e60
                if special == 'all negative':
                    value = -value
                if (special == 'last zero' and n == nx * ny * nz) or (special == 'first zero' and n == 1):
                    value = 0.0
                if special == 'three digits first' and n == 1:
                    txt, value = three_digits(value, -100)
                elif special == 'three digits last' and n == nx * ny * nz:
                    txt, value = three_digits(-value, -123)
                elif special == 'three digits all':
                    txt, value = three_digits(value if n % 2 else -value, -100 - n % 7)
                elif special == 'large exponents' and n % 2:
                    txt, value = three_digits(value, 100)
                else:
                    txt, value = spell(value, how)
                row.append(value)
                toks.append(txt)
            plane.append(row)
        arr.append(plane)
    return toks, np.array(arr)


def lines(toks, per, lead=' ', sep=' '):
    return [lead + sep.join(toks[i:i + per]) for i in range(0, len(toks), per)]


def augment(form, natoms, n):
    if form == 'absent':
        return []
    if form == 'sample':
        return [' augmentation occupancies', ' 1 1 1 1', '']
    out = []
    for a in range(natoms):
        if form == 'vasp':
            count = 3 + 4 * a
            out.append('augmentation occupancies%4d%4d' % (a + 1, count))
            out += lines(['%.7E' % (.1 * (n + 1) + a + .001 * i) for i in range(count)], 5, '  ', '  ')
        elif form == 'imaginary':
            out.append('augmentation occupancies%4d%4d' % (a + 1, 4))
            out += lines(['0.%07dE+00' % (i + 1 + a) for i in range(4)], 5)
            out.append('augmentation occupancies (imaginary part)%4d%4d' % (a + 1, 4))
            out += lines(['0.%07dE+00' % (i + 5 + a) for i in range(4)], 5)
        elif form == 'long':
            out.append('augmentation occupancies%4d%4d' % (a + 1, 33))
            out += lines(['-.%07dE-%02d' % (i + 1, i) for i in range(33)], 5)
    return out


def build(shape, layout, per, cell='fcc', scale=3.5, comment='Ni', how='E17.11', special=None, aug='vasp', moments=True, counts=(1,), names=True, sites='Direct', blank='', gridform='vasp', newline='\n', tail='\n', species=('Ni', 'O', 'H')):
    natoms = sum(counts)
    out = [comment, '   %.16f' % scale]
    out += ['  ' + ''.join('%12.6f' % v for v in row) for row in CELLS[cell]]
    if names:
        out.append('   ' + '   '.join(species[:len(counts)]))
    out.append('  ' + ''.join('%6d' % c for c in counts))
    out.append(sites)
    out += ['  %.6f  %.6f  %.6f' % (.1 * i, .2 * i, .3 * i) for i in range(natoms)]
    out.append(blank)
    nset = {'none': 1, 'collinear': 2, 'noncollinear': 4}[layout]
    arrays = []
    for n in range(nset):
        if n and moments:
            out += lines(['%.12E' % (1.5 + i + n) for i in range(natoms)], 5, '  ', '  ')
        grid = {'vasp': ' %4d %4d %4d' % shape, 'tight': '%d %d %d' % shape, 'indent': ('  ' if n else '') + '   %d   %d   %d' % shape, 'wide': '    %6d    %6d    %6d' % shape, 'trailing': ' %4d %4d %4d  ' % shape}[gridform]
        out.append(grid)
        toks, arr = dataset(shape, 1000. * n, how, special)
        out += lines(toks, per)
        arrays.append(arr)
        out += augment(aug, natoms, n)
    text = newline.join(out) + tail.replace('\n', newline)
    volume = abs(det([[scale * v for v in row] for row in CELLS[cell]]))
    return text, [a / volume for a in arrays]


def check(text, arrays, route):
    out = attempt(via, Chgcar, text, route)
    if out[0] != 'ok':
        raise Violation('accept', '%s: %r' % (tuple(out), text[:600]))
    chg = out[1]
    opts = {'rtol': 1e-12, 'atol': 0.0}
    what = 'file %r: ' % (text[:300] + '...')
    need('charge', arrays[0], chg.charge_density, what + 'charge_density', **opts)
    mag = chg.magnetization_density
    if len(arrays) == 1:
        need('magnetization', None, mag, what + 'magnetization_density')
    elif len(arrays) == 2:
        if isinstance(mag, dict):
            raise Violation('magnetization', what + 'components returned for a collinear file')
        need('magnetization', arrays[1], mag, what + 'magnetization_density', **opts)
    else:
        need('magnetization', dict(zip('xyz', arrays[1:])), mag, what + 'magnetization_density', **opts)


LAYOUTS = ['none', 'collinear', 'noncollinear']
PER = [5, 10, 1, 3]


def gen_grids(ctx, edge=4):
    shape = tuple(ctx.free('n' + c, range(1, edge + 1)) for c in 'xyz')
    layout = ctx.free('layout', LAYOUTS)
    per = ctx.free('per line', PER)
    aug, moments = ctx.free('blocks', [('vasp', True), ('absent', True), ('absent', False), ('sample', False)])
    return build(shape, layout, per, aug=aug, moments=moments, how=ctx.choose('how', ['E17.11', 'integer']) if edge == 4 else 'E17.11', cell='triclinic', counts=(2, 1)) + ('path',)


def gen_forms(ctx):
    ch = ctx.choose
    shape = ch('shape', [(3, 4, 5), (5, 4, 3), (1, 2, 3), (2, 2, 2), (1, 1, 1), (4, 1, 1), (1, 1, 7), (10, 3, 2), (1, 1, 2), (2, 1, 1), (1, 5, 1), (12, 11, 1), (3, 3, 3), (1, 12, 10), (2, 3, 2), (16, 1, 2)])
    return build(
        shape, ctx.free('layout', LAYOUTS), ch('per line', PER + [2, 60, 7]), cell=ch('cell', ['fcc'] + [c for c in CELLS if c != 'fcc']), scale=ch('scale', [3.5, 1.0, .25, 12.125, 1.0005, .9995, 1.0000001, .9999999, 100.0, .01, 2.0, .5, 10.25]),
        comment=ch('comment', ['Ni', '', '  ', '3   4   5', 'augmentation occupancies', 'a comment  with   blanks', '   3    4    5']), how=ch('how', SPELL),
        special=ch('special', [None, 'negative', 'zero', 'three digits first', 'three digits last', 'three digits all', 'large exponents', 'all zero', 'all equal', 'all one', 'tiny', 'huge', 'last zero', 'first zero', 'all negative']), aug=ch('aug', ['vasp', 'absent', 'sample', 'imaginary', 'long']),
        moments=ch('moments', [True, False]), counts=ch('counts', [(1,), (2,), (1, 1), (3, 2, 1), (7,), (12, 1), (4, 1), (5,), (6, 5, 4), (100,)]), names=ch('names', [True, False]), sites=ch('sites', ['Direct', 'direct', 'Cartesian', 'D']),
        blank=ch('blank', ['', ' ', '   ', '\t']), gridform=ch('gridform', ['vasp', 'tight', 'indent', 'wide', 'trailing']), newline=ch('newline', ['\n', '\r\n']), tail=ch('tail', ['\n', '', '\n\n', ' \n', '\n \n'])) + (ch('route', ROUTES),)


def judge(case):
    check(*case)


PROGRAMS = [
    Program('grids', lambda ctx: gen_grids(ctx, 4), judge, quick=1, thorough=1),
    Program('grids to 6', lambda ctx: gen_grids(ctx, 6), judge, enabled=('thorough',)),
    Program('forms', gen_forms, judge, quick=2, thorough=3),
]
