"""C13: POTCAR metadata reports what the header states."""
import itertools

from parsevasp.potcar import Potcar

from mc.core import Program, Violation
from mc.obs import ROUTES, attempt, need, via

PROPERTY = 'C13'
BOUNDS = ('every header with up to 2 (3 thorough) deviations from the default one in: any value of any of the 25 keywords (text, logical, integer, float and list spellings), absent keywords, repeated keyword, keyword order, '
          'entries per line, spacing around the equal sign, trailing remarks, unknown keywords, line ends, surrounding text and look-alikes outside the header, input route; all symbols x titles x functionals; every order of any 6 keywords')
ORACLE = 'the values that were put into the generated header; own table of functionals'

# value as printed -> value in its type
TEXT = {'VRHFIN': [('In: s2p1', 'In: s2p1'), ('Fe:  d7 s1', 'Fe:  d7 s1'), ('H: ultrasoft test', 'H: ultrasoft test'), ('W : 5p6s5d', 'W : 5p6s5d'), ('T', 'T'), ('F', 'F'), ('13', '13'), ('In', 'In')]}
LOGICAL = [('T', True), ('F', False), ('.TRUE.', True), ('.FALSE.', False), ('True', True), ('false', False), ('t', True), ('.F.', False), ('.t.', True)]
INTEGER = [('1', 1), ('0', 0), ('-1', -1), ('100', 100), ('12345', 12345), ('2', 2), ('7', 7), ('-12', -12), ('10', 10), ('99', 99), ('2147483648', 2147483648)]
FLOAT = [('1.625', 1.625), ('13.000', 13.0), ('0.000', 0.0), ('-4.5', -4.5), ('95.934', 95.934), ('.5', .5), ('7.', 7.0), ('3', 3.0), ('1.5E-03', 1.5e-3), ('2E+2', 200.0), ('+1.25', 1.25), ('-0.1e1', -1.0), ('1560.6001', 1560.6001), ('0.0001', 0.0001), ('99999.9999', 99999.9999), ('1.0', 1.0), ('-0.001', -.001), ('1E5', 1e5), ('1e-10', 1e-10), ('123456.789012', 123456.789012), ('1.0000001', 1.0000001), ('10', 10.0), ('0', 0.0), ('100.000', 100.0), ('007.5', 7.5)]
LIST = [('20.000   1.050', [20.0, 1.05]), ('11.1 1.1', [11.1, 1.1]), ('20', [20.0]), ('1 2 3', [1.0, 2.0, 3.0]), ('-0.5   1E2', [-0.5, 100.0]), ('0.000   0.000', [0.0, 0.0]), ('5.5 5.5', [5.5, 5.5]), ('9 8 7 6 5', [9.0, 8.0, 7.0, 6.0, 5.0]), ('20.0\t1.05', [20.0, 1.05])]
KIND = {'VRHFIN': 'text', 'LEXCH': 'text', 'TITEL': 'text', 'STEP': 'list'}
KIND.update({k: 'logical' for k in ('LULTRA', 'LCOR', 'LPAW')})
KIND.update({k: 'integer' for k in ('IUNSCR', 'NDATA', 'ICORE')})
KIND.update({k: 'float' for k in ('EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT')})
ORDER = ['VRHFIN', 'LEXCH', 'EATOM', 'TITEL', 'LULTRA', 'IUNSCR', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'ICORE', 'LCOR', 'LPAW', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT', 'NDATA', 'STEP']
REMARK = {'logical': '    use ultrasoft PP ?', 'integer': '    unscreen: 0-lin 1-nonlin 2-no', 'float': '    outmost cutoff radius (au A)', 'text': '', 'list': '   '}
FUNCTIONALS = {'PE': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'RP': ('revPBE', 'GGA'), 'AM': ('AM05', 'GGA'), 'PS': ('PBEsol', 'GGA'), 'PW': ('PW86', 'GGA'), 'LM': ('Langreth-Mehl-Hu', 'GGA'), 'PB': ('Perdew-Becke', 'GGA'),
               'CA': ('Perdew-Zunger81', 'LDA'), 'HL': ('Hedin-Lundquist', 'LDA'), 'WI': ('Wigner', 'LDA'), 'B3': (None, None), 'OR': (None, None), '--': (None, None)}
TITLES = [('PAW_PBE In_d 06Sep2000', 'In_d'), ('PAW Fe_pv 06Sep2000', 'Fe_pv'), ('PAW_PBE H 15Jun2001', 'H'), ('US W_sv_GW', 'W_sv_GW'), ('Si', 'Si'), ('PAW_PBE  Ti_sv  26Sep2005', 'Ti_sv'), ('PAW_PBE H1.25 07Sep2000', 'H1.25')]
KEYFORM = ['   %-6s = %8s', '   %s = %s', '%s=%s', '\t%-6s =%s', '   %-6s=    %s', '   %s =\t%s']


def values(key):
    kind = KIND[key]
    if key == 'LEXCH':
        return [(k, k) for k in ('PE', 'CA', '91', 'pe', 'B3')]
    if key == 'TITEL':
        return [(t, t) for t, _ in TITLES]
    if kind == 'text':
        return TEXT[key]
    return {'logical': LOGICAL, 'integer': INTEGER, 'float': FLOAT, 'list': LIST}[kind]


def default_value(key):
    """Give every keyword its own default, such that mixed-up keywords are seen."""
    pool = values(key)
    if KIND[key] == 'float':
        text = '%.3f' % (ORDER.index(key) * 1.001 + 0.5)
        return [(text, float(text))] + pool
    if KIND[key] == 'integer':
        text = '%d' % (ORDER.index(key) + 2)
        return [(text, int(text))] + pool
    return pool


def render(entries, per_line, form, remarks, newline, unknown, around):
    lines = []
    for i in range(0, len(entries), per_line):
        line = '; '.join((form if j == 0 else form.lstrip()) % (k, v) for j, (k, v) in enumerate(entries[i:i + per_line]))
        last = KIND.get(entries[i:i + per_line][-1][0], 'float')
        if remarks:
            line += REMARK[last]
        elif entries[i:i + per_line][-1][0] == 'EATOM':
            line += ' eV,  114.7022 Ry'
        lines.append(line)
        if i == 2 * per_line:
            lines.append('')
    if unknown:
        lines[3:3] = unknown
    head = ['  PAW_PBE In_d 06Sep2000', '   13.0000000000000', ' parameters from PSCTR are:']
    if around:
        head[2:2] = ['   ENMAX  =  999.000; ENMIN  =  888.000 eV', '   TITEL  = wrong Xx_yy 1']
    tail = ['   Atomic configuration', '   11 entries', '     n  l   j            E        occ.', '     1  0  0.50     -2458.0000   2.0000', '    Description', '     l       E           TYP  RCUT    TYP  RCUT', '     1      1.1          11  1.1',
            '   Error from kinetic energy argument (eV)', '  19.1      19.0      18.9', '   END of PSCTR-controll parameters', ' local part', '  98.8    0.1E+02']
    if around:
        tail += ['   ENMAX  =  777.000', '   LEXCH  = XX', ' parameters from PSCTR are:', '   TITEL  = second Zz 2', '   ENMAX  = 1.0', '   END of PSCTR-controll parameters']
    return newline.join(head + lines + tail) + newline


UNKNOWN = [None, ['   SHA256 = 1234abcd Ti/POTCAR', '   COPYR  = (c) Copyright somebody'], ['   ENMAXX = 1.0; XENMAX = 2.0', '   XTITEL = a b c'], ['   GGA    = 1.4 1.4 1.4  eV'], ['   LTEST='], ['   enmax  = 5.0', '   Titel  = no Xe']]


def gen(ctx):
    keys = list(ORDER)
    order = ctx.choose('order', ['default', 'reversed', 'sorted', 'rotated', 'title last', 'odd-even'])
    if order == 'reversed':
        keys.reverse()
    elif order == 'sorted':
        keys.sort()
    elif order == 'rotated':
        keys = keys[9:] + keys[:9]
    elif order == 'title last':
        keys = [k for k in keys if k not in ('TITEL', 'LEXCH')] + ['LEXCH', 'TITEL']
    elif order == 'odd-even':
        keys = keys[1::2] + keys[::2]
    entries, mean = [], {}
    for key in keys:
        pool = default_value(key)
        pick = ctx.choose(key, pool + ([None] if key not in ('TITEL', 'LEXCH') else []))
        if pick is not None:
            entries.append((key, pick[0]))
            mean[key] = pick[1]
    # VASP prints the Wigner-Seitz radius twice (au and AA), the last one is reported
    twice = ctx.choose('twice', [None, 'RWIGS', 'ENMAX', 'LPAW'])
    if twice and twice in mean:
        at = [k for k, _ in entries].index(twice)
        entries.insert(at + 1, (twice, {'RWIGS': '0.725', 'ENMAX': '345.5', 'LPAW': 'F'}[twice]))
        mean[twice] = {'RWIGS': 0.725, 'ENMAX': 345.5, 'LPAW': False}[twice]
    text = render(entries, ctx.choose('per line', [1, 2, 3]), ctx.choose('form', KEYFORM), ctx.choose('remarks', [False, True]), ctx.choose('newline', ['\n', '\r\n']), ctx.choose('unknown', UNKNOWN), ctx.choose('around', [False, True]))
    return text, mean, ctx.choose('route', ROUTES)


TYPES = {'text': str, 'logical': bool, 'integer': int, 'float': float, 'list': list}


def judge(case):
    text, mean, route = case
    out = attempt(via, Potcar, text, route)
    if out[0] != 'ok':
        raise Violation('accept', '%s: %r' % (tuple(out), text[:400]))
    pot = out[1]
    need('metadata', mean, pot.metadata, 'header %r: metadata' % text)
    for key, value in mean.items():
        if type(pot.metadata[key]) is not TYPES[KIND[key]]:
            raise Violation('type', '%s is reported as %s' % (key, type(pot.metadata[key]).__name__))
        for name in (key.lower(), key):
            need('attribute', value, getattr(pot, name), 'attribute %s' % name)
    for key in KIND:
        if key not in mean and attempt(getattr, pot, key.lower())[:2] != ('raise', 'AttributeError'):
            raise Violation('attribute', 'attribute %s exists without the keyword' % key.lower())
    symbol = dict(TITLES)[mean['TITEL']]
    need('symbol', symbol, pot.symbol, 'symbol')
    need('element', symbol.split('_')[0], pot.element, 'element')
    name, cls = FUNCTIONALS[mean['LEXCH'].upper()]
    if name == 'Wigner':
        name = pot.functional if str(pot.functional).startswith('Wigner') else name
    need('functional', name, pot.functional, 'functional of %s' % mean['LEXCH'])
    need('functional', cls, pot.functional_class, 'functional class of %s' % mean['LEXCH'])


def gen_identity(ctx):
    from mc.models.vasprun import SYMBOLS
    sym = ctx.free('symbol', SYMBOLS[:103])
    suffix = ctx.free('suffix', ['', '_pv', '_sv_GW', '_2', '.5', '_h'])
    lexch = ctx.free('lexch', list(FUNCTIONALS) + [k.lower() for k in FUNCTIONALS])
    title = ctx.free('title', ['PAW_PBE %s 06Sep2000', 'PAW %s', '%s', 'US  %s   x y'])
    return sym + suffix, lexch, title % (sym + suffix)


def judge_identity(case):
    symbol, lexch, title = case
    text = render([('VRHFIN', symbol[:2] + ': s1'), ('LEXCH', lexch), ('TITEL', title), ('ENMAX', '1.5')], 1, KEYFORM[0], False, '\n', None, False)
    pot = via(Potcar, text, 'stringio')
    need('symbol', symbol, pot.symbol, title)
    need('element', symbol.split('_')[0], pot.element, title)
    name, cls = FUNCTIONALS[lexch.upper()]
    got = pot.functional
    if name == 'Wigner' and str(got).startswith('Wigner'):
        name = got
    need('functional', name, got, lexch)
    need('functional', cls, pot.functional_class, lexch)


SIX = ['TITEL', 'ENMAX', 'LEXCH', 'POMASS', 'LPAW', 'STEP']
PERMS = list(itertools.permutations(range(6)))


def gen_orders(ctx):
    perm = ctx.free('order', PERMS)
    per = ctx.free('per line', [1, 2, 3, 6])
    keys = [SIX[i] for i in perm]
    if per > 1 and 'STEP' in keys:
        pass
    vals = {'TITEL': 'PAW_PBE In_d 06Sep2000', 'ENMAX': '239.211', 'LEXCH': 'PE', 'POMASS': '114.820', 'LPAW': 'T', 'STEP': '20.000   1.050'}
    mean = {'TITEL': 'PAW_PBE In_d 06Sep2000', 'ENMAX': 239.211, 'LEXCH': 'PE', 'POMASS': 114.82, 'LPAW': True, 'STEP': [20.0, 1.05]}
    return render([(k, vals[k]) for k in keys], per, ctx.free('form', KEYFORM), False, ctx.free('newline', ['\n', '\r\n']), None, False), mean, ctx.free('route', ROUTES)


PROGRAMS = [
    Program('headers', gen, judge, quick=2, thorough=3),
    Program('identity', gen_identity, judge_identity),
    Program('orders', gen_orders, judge),
]
