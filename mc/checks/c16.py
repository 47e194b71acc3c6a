"""C16: EIGENVAL bands and k-points are the printed ones."""
from parsevasp.eigenval import Eigenval

from mc.core import Program, Violation
from mc.obs import ROUTES, attempt, need, via

PROPERTY = 'C16'
BOUNDS = ('every number of k-points 1..4 (1..6), bands 1..5 (1..12), spin 1 and 2, occupancy columns present or not, times every layout of blank lines; every file with up to 2 (3 thorough) deviations in the header records, k-point and energy '
          'values, blank lines, line ends, end of file and input route; every printed number distinct')
ORACLE = 'the numbers put into the generated file'

BLANK = ['', ' ', '    ', '\t']


def kpoint(k, points=None):
    if points == 'gamma' or (points == 'gamma first' and k == 0):
        return [0.0, 0.0, 0.0, 1.0]
    if points == 'equal':
        return [.25, .25, .25, .125]
    if points == 'tiny':
        return [1e-9 * (k + 1), -2e-8 * (k + 1), 0.0, 0.0]
    if points == 'large':
        return [12.5 + k, -100.25, 1.0, 1234.5]
    if points == 'halves':
        return [.5, .5 * (k % 2), -.5, .5]
    return [-.5 + .0625 * k, .25 + .015625 * k, (-1) ** k * .03125 * (k + 1), 1. / (3 + k)]


def fort(value, digits=7):
    mant, exp = ('%.*E' % (digits - 1, abs(value))).split('E')
    if value == 0:
        return '0.' + '0' * digits + 'E+00'
    return ('-' if value < 0 else '') + '0.' + mant.replace('.', '') + 'E%+03d' % (int(exp) + 1)


def energy(s, k, b, style):
    value = -20. + 1000 * s + 37.5 * k + 1.25 * b + .000001 * (s + 2 * k + 3 * b)
    if style == 'negative':
        value = -value
    if style == 'all zero':
        return 0.0
    if style == 'equal spins':
        return -20. + 37.5 * k + 1.25 * b
    if style == 'equal bands':
        return -20. + 1000 * s + 37.5 * k
    if style == 'equal points':
        return -20. + 1000 * s + 1.25 * b
    if style == 'descending':
        return -value + 0.0
    if style == 'integers':
        return float(10 * b - 3 * k + 1000 * s)
    if style == 'zero' and (k + b) % 3 == 0:
        value = 0.0
    if style == 'large':
        value *= 100
    return value


def build(nk, nb, ns, occ=True, pre=('',), between=('',), post=(), ions=(4, 4, 1), name=' unknown system', coord='  CAR ', nelect=12, style=None, line1=None, line2='  1.000000000000000E-004', newline='\n', end=True, bandform='%5d', lead='', trail='', eform='%14.6f', points=None):
    num1 = [16.48482, 4.04e-10, 4.05e-10, 4.06e-10, 1e-16]
    out = ['%5d%5d%5d%5d' % (ions + (ns,)), '  ' + '  '.join(fort(v) for v in num1), line2, coord, name, '%7d%7d%7d' % (nelect, nk, nb)]
    out += pre
    eig = [[[0.0] * nb for _ in range(nk)] for _ in range(ns)]
    kpts = []
    for k in range(nk):
        if k:
            out += between
        txt = [fort(v) for v in kpoint(k, points)]
        kpts.append([float(t) for t in txt])
        out.append(lead + ' ' + ' '.join('%14s' % t for t in txt) + trail)
        for b in range(nb):
            row = bandform % (b + 1)
            for s in range(ns):
                txt = eform % energy(s, k, b, style)
                eig[s][k][b] = float(txt)
                row += '  ' + txt
            if occ:
                row += ''.join('%11.6f' % (.5 + .001 * (1 + s + 2 * b + 50 * k)) for s in range(ns))
            out.append(lead + row + trail)
    out += post
    text = newline.join(out) + (newline if end else '')
    meta = {0: list(ions) + [ns], 1: num1, 2: float(line2), 'n_ions': ions[0], 'n_atoms': ions[1], 'p00': ions[2], 'nspin': ns, 'cartesian': coord.strip()[:1] in ('c', 'C'), 'name': name.strip(), 'some_num': nelect, 'n_bands': nb, 'n_kp': nk}
    return text, meta, kpts, eig


LAYOUTS = [('',), (' ',), ('', ''), (' ', ''), ('', '  ', ''), ('\t',)]


def gen_sizes(ctx, big=False):
    nk = ctx.free('kpoints', range(1, 7 if big else 5))
    nb = ctx.free('bands', range(1, 13 if big else 6))
    ns = ctx.free('spin', [1, 2])
    occ = ctx.free('occupancies', [True, False])
    pre = ctx.free('blank lines before', LAYOUTS + [()])
    between = ctx.free('blank lines between', LAYOUTS)
    post = ctx.free('blank lines after', LAYOUTS + [()])
    return build(nk, nb, ns, occ, pre, between, post, newline=ctx.free('newline', ['\n', '\r\n'])) + ('stringio',)


def gen_forms(ctx):
    ch = ctx.choose
    return build(
        ch('kpoints', [3, 1, 2, 12, 101, 4, 5]), ch('bands', [4, 1, 2, 11, 100, 3, 5, 10, 1001]), ch('spin', [1, 2]), ch('occupancies', [True, False]), ch('pre', LAYOUTS + [()]), ch('between', LAYOUTS), ch('post', [()] + LAYOUTS),
        ions=ch('ions', [(4, 4, 1), (1, 1, 0), (2, 3, 5), (100, 100, 50), (1, 1, 1), (1234, 1234, 1)]), name=ch('name', [' unknown system', '', ' Si', ' X', '  a  name with  blanks', ' 1 2 3', ' CAR']), coord=ch('coord', ['  CAR ', '  car', 'Cartesian', '  DIR', ' k', 'D']),
        nelect=ch('electrons', [12, 1, 999, 0, 123456]), style=ch('style', [None, 'negative', 'zero', 'large', 'all zero', 'equal spins', 'equal bands', 'equal points', 'descending', 'integers']), line2=ch('temperature', ['  1.000000000000000E-004', '   0.0000000000000000     ', ' 2.5', '  0.300000000000000E+03', '1', '  -1.000000000000000E-004']), newline=ch('newline', ['\n', '\r\n']),
        end=ch('final newline', [True, False]), bandform=ch('band number', ['%5d', '%d', '   %-4d']), lead=ch('lead', ['', '   ']), trail=ch('trail', ['', '   ']), eform=ch('energy form', ['%14.6f', '%.4f', '%12.8f', '%.8E']), points=ch('points', [None, 'gamma', 'gamma first', 'equal', 'tiny', 'large', 'halves'])) + (ch('route', ROUTES),)


def judge(case):
    text, meta, kpts, eig, route = case
    out = attempt(via, Eigenval, text, route)
    if out[0] != 'ok':
        raise Violation('accept', '%s: %r' % (tuple(out), text[:600]))
    par = out[1]
    exact = {'rtol': 0.0, 'atol': 0.0}
    what = 'file %r: ' % (text[:400])
    need('metadata', meta, par.get_metadata(), what + 'metadata', **exact)
    need('kpoints', kpts, par.get_kpoints(), what + 'kpoints', **exact)
    need('eigenvalues', eig, par.get_eigenvalues(), what + 'eigenvalues', **exact)


PROGRAMS = [
    Program('sizes', gen_sizes, judge),
    Program('sizes to 6x12', lambda ctx: gen_sizes(ctx, True), judge, enabled=('thorough',)),
    Program('forms', gen_forms, judge, quick=2, thorough=3),
]
