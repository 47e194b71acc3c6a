"""Reference model of POSCAR content (generation by construction; the linear algebra is done here independently)."""


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
            m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def inv3(m):
    d = det3(m)
    cof = [[0.0] * 3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            a, b = [r for r in range(3) if r != i]
            c, e = [r for r in range(3) if r != j]
            minor = m[a][c] * m[b][e] - m[a][e] * m[b][c]
            cof[j][i] = ((-1) ** (i + j)) * minor / d
    return cof


def vecmat(v, m):
    return [sum(v[k] * m[k][j] for k in range(3)) for j in range(3)]


def to_cart(v, cell):
    return vecmat(v, cell)


def to_dir(v, cell):
    return vecmat(v, inv3(cell))


CELLS = [
    [[4.0, 0.0, 0.0], [0.0, 5.0, 0.0], [0.0, 0.0, 6.0]],
    [[3.0, 0.5, 0.25], [-1.0, 4.0, 0.125], [0.5, -0.75, 5.0]],
    [[0.0, 2.5, 2.5], [2.5, 0.0, 2.5], [2.5, 2.5, 0.0]],
    [[0.0, 4.0, 0.0], [3.0, 0.0, 0.0], [0.0, 0.0, -2.0]],
    [[12.345678901234567, 0.0, 0.0], [-6.0, 10.392304845413264, 0.0], [0.0, 0.0, 123.0]],
    [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
]
GROUPS = [
    (('Fe', 1),), (('Fe', 2),), (('Fe', 1), ('O', 2)), (('O', 2), ('Fe', 1)), (('Fe', 1), ('O', 1), ('Fe', 1)), (('Na', 1), ('Cl', 1)), (('Fe', 3), ('O', 1), ('Si', 2)),
    (('Si', 2), ('O', 2), ('Si', 1), ('H', 1)), (('Fe', 2), ('O', 1), ('Fe', 1)), (('H', 12),), (('Fe', 1), ('O', 10), ('H', 3)), (('C', 1), ('B', 1), ('A', 1), ('D', 1), ('E', 1)), (('Fe_pv', 1), ('O_s', 1)),
]
SMALLGROUPS = [(('Fe', 1), ('O', 2)), (('Fe', 2),), (('O', 1), ('Fe', 1), ('O', 1)), (('Fe', 1),)]


def number(i, k):
    """Pairwise distinct numbers: value k (0..2) of vector i."""
    return round(0.031 * (3 * i + k + 1) + (0.4 if k == 1 else 0.0) - (0.2 if k == 2 else 0.0), 6)


FIGURES = ['distinct', 'zeros', 'equal', 'outside', 'large', 'tiny', 'digits', 'negative', 'edges', 'exponents', 'neighbours']


def figure(style, i, k):
    x = number(i, k)
    if style == 'zeros':
        return 0.0
    if style == 'equal':
        return 0.25
    if style == 'outside':
        return x + (1.0 + i % 3 if k == 0 else -2.0)
    if style == 'large':
        return x + 1000.0 * (i + 1)
    if style == 'tiny':
        return x * 1e-7
    if style == 'digits':
        return (1.0 + k) / (i + 3.0)
    if style == 'negative':
        return -x
    if style == 'edges':
        return [0.0, 1.0, 0.5, 0.999999999, -1.0, 0.9999][(i + k) % 6]
    if style == 'exponents':
        return 2.5e-5 * (i + k + 1)
    if style == 'neighbours':
        return number(i // 2, k)
    return x


FLAGS = {'mixed': [(True, True, False), (False, True, True), (True, True, True), (False, False, False), (True, False, True)], 'fixed': [(False, False, False)], 'free': [(True, True, True)],
         'last': [(True, True, True), (True, True, True), (True, False, True)], 'second': [(True, False, False)], 'third': [(False, False, True), (False, True, False)]}


def gen(ctx, groups=GROUPS):
    grp = ctx.free('groups', groups)
    sel = ctx.free('selective', [False, True])
    coord = ctx.free('coord', ['D', 'C'])
    vel = ctx.free('vel', [None, 'D', 'C'])
    pred = ctx.free('pred', [False, True])
    scale_text, scale = ctx.choose('scale', [('1.0', 1.0), ('2.5', 2.5), ('0.5', 0.5), ('  1.0', 1.0), ('3', 3.0), ('1.0  ! scaled', 1.0), ('1.2345678901234567', 1.2345678901234567), ('1E-1', 0.1), ('10', 10.0)])
    cell0 = ctx.choose('cell', [CELLS[1], CELLS[0], CELLS[2], CELLS[3], CELLS[4], CELLS[5]])
    comment_line, comment = ctx.choose('comment', [('a compound', 'a compound'), ('# a compound', 'a compound'), ('', ''), ('  x  y ', 'x  y'), ('Direct 1 2', 'Direct 1 2'), ('## x', 'x'), ('b' * 100, 'b' * 100)])
    lead = ctx.choose('lead', ['', '  ', '\t'])
    gap = ctx.choose('gap', ['  ', ' ', '\t'])
    rest = ctx.choose('rest', ['', ' ', '\t '])
    tag = ctx.choose('tag', ['', ' Fe', '  ! site', ' # 1'])
    flagstyle = ctx.choose('flags', ['TF', 'tf', '.TRUE.', '.T.']) if sel else 'TF'
    selword = ctx.choose('selword', ['Selective dynamics', 'selective', 'S', 's', 'SELECTIVE']) if sel else ''
    coordword = ctx.choose('coordword', {'D': ['Direct', 'direct', 'D', 'd', 'DIRECT', 'Fractional', ' Direct'], 'C': ['Cartesian', 'cartesian', 'C', 'c', 'K', 'k', 'CART']}[coord])
    velword = ctx.choose('velword', {'D': ['Direct', 'd', 'direct'], 'C': ['Cartesian', 'c', 'cartesian', 'C', 'K', 'k']}[vel]) if vel else ''
    blank = ctx.choose('blank', ['', '  ']) if pred else ''
    figs = ctx.choose('figures', FIGURES)
    pattern = FLAGS[ctx.choose('pattern', list(FLAGS))] if sel else None
    vfigs = ctx.choose('vfigures', FIGURES) if vel else None
    pfigs = ctx.choose('pfigures', FIGURES) if pred else None
    cell = [[scale * x for x in row] for row in cell0]

    def row(vals):
        return lead + gap.join(repr(v) for v in vals)

    lines = [comment_line, lead + scale_text + rest]
    for r in cell0:
        lines.append(row(r) + rest)
    lines.append(lead + gap.join(s for s, _ in grp) + rest)
    lines.append(lead + gap.join(str(n) for _, n in grp) + rest)
    if sel:
        lines.append(selword + rest)
    lines.append(coordword + rest)
    sites = []
    words = {'TF': ('T', 'F'), 'tf': ('t', 'f'), '.TRUE.': ('.TRUE.', '.FALSE.'), '.T.': ('.T.', '.F.')}[flagstyle]
    i = 0
    for s, n in grp:
        for _ in range(n):
            vals = [figure(figs, i, k) for k in range(3)]
            if coord == 'D':
                pos = vals
            else:
                pos = to_dir([v * scale for v in vals], cell)
            flags = [True, True, True]
            line = row(vals)
            if sel:
                pick = pattern[i % len(pattern)]
                flags = list(pick)
                line += gap + gap.join(words[0] if f else words[1] for f in flags)
            lines.append(line + tag + rest)
            sites.append({'specie': s, 'position': pos, 'selective': flags, 'velocities': None, 'predictors': None, 'direct': True})
            i += 1
    if vel:
        lines.append(velword + rest)
        for j, site in enumerate(sites):
            vals = [-figure(vfigs, j + 20, k) for k in range(3)]
            lines.append(row(vals) + rest)
            site['velocities'] = vals if vel == 'D' else to_dir(vals, cell)
    if pred:
        lines.append(blank)
        for j, site in enumerate(sites):
            vals = [figure(pfigs, j + 40, k) for k in range(3)]
            lines.append(row(vals) + rest)
            site['predictors'] = vals
    lines += ctx.choose('trailing', [[], [''], ['', ''], ['  '], ['', '  ', '']])
    eol = ctx.choose('eol', ['\n', 'nofinal', '\r\n'])
    text = '\n'.join(lines) if eol == 'nofinal' else ''.join(l + eol for l in lines)
    return text, {'comment': comment, 'unitcell': cell, 'sites': sites}


def observed(got):
    """Plain form of Poscar.get_dict()."""
    def vec(x):
        return None if x is None else [float(v) for v in x]
    return {'comment': got['comment'], 'unitcell': [list(map(float, r)) for r in got['unitcell']],
            'sites': [{'specie': s['specie'], 'position': vec(s['position']), 'selective': [bool(b) for b in s['selective']], 'velocities': vec(s['velocities']),
                       'predictors': vec(s['predictors']), 'direct': s['direct']} for s in got['sites']]}


def cartesian(mean):
    out = {'comment': mean['comment'], 'unitcell': mean['unitcell'], 'sites': []}
    for s in mean['sites']:
        out['sites'].append(dict(s, position=to_cart(s['position'], mean['unitcell']),
                                 velocities=None if s['velocities'] is None else to_cart(s['velocities'], mean['unitcell']), direct=False))
    return out
