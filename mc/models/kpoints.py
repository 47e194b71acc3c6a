"""Reference model of KPOINTS content (generation by construction)."""

COORDS = [0.0, 0.5, 0.25, -0.125, 0.75, 0.333333333, 0.1, 1.0, -0.5, 0.6875, 0.0625, 0.9]


def num(x):
    return repr(x)


def coord(i):
    """Three pairwise different numbers identifying point i (all values differ between points)."""
    base = [0.0, 0.125, 0.25] if i == 0 else [round(0.11 * i + 0.001, 6), round(-0.07 * i - 0.002, 6), round(0.013 * i + 0.5, 6)]
    return base


# ways in which the numbers of a file may look; each must be read figure by figure
FIGURES = ['distinct', 'equal points', 'equal neighbours', 'zeros', 'zero weights', 'equal weights', 'large', 'tiny', 'digits', 'negative weights', 'exponents', 'decreasing']


def figure(style, i):
    """Coordinates and weight of point i."""
    c, w = coord(i), float(i + 1) / 4
    if style == 'equal points':
        c = [0.25, 0.25, 0.25]
    elif style == 'equal neighbours':
        c = coord((i + 1) // 2)
    elif style == 'zeros':
        c, w = [0.0, 0.0, 0.0], 0.0
    elif style == 'zero weights':
        w = 0.0 if i % 2 == 0 else w
    elif style == 'equal weights':
        w = 1.0
    elif style == 'large':
        c, w = [c[0] + 10, c[1] - 123, c[2] + 1000], 1728.0 + 1000 * i
    elif style == 'tiny':
        c, w = [c[0] * 1e-9, c[1] * 1e-12, -c[2] * 1e-7], 1e-9 * (i + 1)
    elif style == 'digits':
        c, w = [1 / (i + 3.0), -2 / (i + 3.0), 0.1 + 0.2 * i], 1 / (i + 7.0)
    elif style == 'negative weights':
        w = -w
    elif style == 'exponents':
        c, w = [1.5e-3 * (i + 1), -2.5e-5, 1e-4], 2.5e-5
    elif style == 'decreasing':
        c, w = [-x for x in coord(20 - i)], 20.0 - i
    return c, w


def gen(ctx, npoints=(1, 2, 3), nseg=(1, 2, 3)):
    """Return (text, meaning)."""
    mode = ctx.free('mode', ['auto', 'grg', 'explicit', 'line'])
    comment_line, comment = ctx.choose('comment', [('Example file', 'Example file'), ('# Example file', 'Example file'), ('', ''), ('  k points ', 'k points'), ('#x', 'x'),
                                                  ('4', '4'), ('Line L 0', 'Line L 0'), ('## two', 'two'), ('a' * 120, 'a' * 120), ('\tx  y', 'x  y')])
    mean = {'comment': comment, 'divisions': None, 'generating_vectors': None, 'shifts': None, 'points': None, 'tetra': None, 'tetra_volume': None,
            'mode': {'auto': 'automatic', 'grg': 'automatic'}.get(mode, mode), 'centering': None, 'num_kpoints': 0}
    lines = [comment_line]
    gap = ctx.choose('gap', [' ', '   ', '\t'])
    lead = ctx.choose('lead', ['', '  ', '\t'])
    rest = ctx.choose('rest', ['', '  '])
    optional_after_num = ctx.choose('numtail', ['', ' ! points', '  '])

    def row(vals):
        return lead + gap.join(vals) + rest

    if mode in ('auto', 'grg'):
        lines.append(lead + '0' + optional_after_num)
    if mode == 'auto':
        cent = ctx.free('centering', ['Gamma', 'Monkhorst-Pack'])
        word = ctx.choose('keyword', {'Gamma': ['Gamma', 'G', 'g', 'gamma', 'GAMMA', 'Gamma-centred grid'],
                                      'Monkhorst-Pack': ['Monkhorst-Pack', 'M', 'm', 'monkhorst', 'MP']}[cent])
        lines.append(lead + word + rest)
        div = ctx.choose('div', [(4, 5, 6), (1, 1, 1), (3, 2, 1), (12, 1, 7), (100, 99, 101), (2, 2, 3), (1000, 10, 12345)])
        lines.append(row([str(d) for d in div]))
        mean['divisions'] = list(div)
        mean['centering'] = cent
        sh = ctx.free('shifts', [None, ('0.0', '0.0', '0.0'), ('0.5', '-0.25', '0.125'), ('0', '1', '.5'), ('-0.3333333333333333', '1e-5', '123.456')])
        if sh is not None:
            lines.append(row(sh))
            mean['shifts'] = [float(s) for s in sh]
    elif mode == 'grg':
        lines.append(lead + ctx.choose('keyword', ['Reciprocal', 'R', 'r', 'reciprocal']) + rest)
        vecs = ctx.choose('vecs', [((0.25, 0.0, 0.125), (0.0, 0.3, 0.0), (-0.1, 0.0, 0.2)), ((1.0, 2.0, 3.0), (4.0, 5.0, 6.0), (7.0, 8.0, 10.0)), ((0.0, 0.5, 0.5), (0.5, 0.0, 0.5), (0.5, 0.5, 0.0)),
                                   ((1 / 3., -1e-5, 1000.25), (123.0, 1e-5, 0.0), (0.0, 0.0, -0.1))])
        for v in vecs:
            lines.append(row([num(x) for x in v]))
        sh = ctx.choose('gshift', [(0.5, 0.25, -0.125), (0.0, 0.0, 0.0), (1.0, 1.0, 1.0), (-1 / 3., 1e-5, 12.5)])
        lines.append(row([num(x) for x in sh]))
        mean.update(generating_vectors=[list(v) for v in vecs], shifts=list(sh), centering='Reciprocal')
    elif mode == 'explicit':
        n = ctx.free('n', list(npoints))
        lines.append(lead + str(n) + optional_after_num)
        lines.append(lead + ctx.choose('keyword', ['Direct', 'D', 'd', 'direct', 'Reciprocal', 'rec', 'r', 'fractional']) + rest)
        weights = ctx.choose('weights', ['all', 'none', 'comment', 'last-missing', 'ints'])
        pts = []
        style = ctx.choose('figures', FIGURES)
        for i in range(n):
            c, w = figure(style, i)
            vals = [num(x) for x in c]
            if weights == 'ints':
                w = float(int(w) + 2)
                vals.append(str(int(w)))
            elif weights == 'none' or (weights == 'last-missing' and i == n - 1):
                w = None
            else:
                vals.append(num(w))
                if weights == 'comment':
                    vals.append('! P%d' % i)
            lines.append(row(vals))
            pts.append([c, w, True])
        mean['points'] = pts
        mean['num_kpoints'] = n
        nt = ctx.free('ntet', [0, 1, 2])
        if nt:
            lines.append(lead + ctx.choose('tetword', ['Tetrahedra', 'T', 't', 'tetrahedra']) + rest)
            vol = ctx.choose('vol', [0.183333333333333, 0.5, 1.25e-3, 1.0, 1234.5, 1 / 3., 1e-5])
            lines.append(row([str(nt), num(vol)]))
            tet = []
            figs = ctx.choose('tetfigs', [(), ([1, 1, 1, 1, 1],), ([24, 1000, 12, 5, 12345],), ([0, 4, 3, 2, 1],)])
            for i in range(nt):
                t = figs[0] if figs else [6 + i, 1, 2 + i, 3, 4 + 2 * i]
                lines.append(row([str(x) for x in t]))
                tet.append(t)
            mean['tetra'] = tet
            mean['tetra_volume'] = vol
    else:
        num_k = ctx.choose('nk', [40, 1, 10, 1000, 12345])
        lines.append(lead + str(num_k) + optional_after_num)
        lines.append(lead + ctx.choose('keyword', ['Line-mode', 'L', 'l', 'line', 'LINE-MODE']) + rest)
        lines.append(lead + ctx.choose('refword', ['rec', 'Reciprocal', 'R', 'Direct', 'd', 'D']) + rest)
        segs = ctx.free('nseg', list(nseg))
        blank = ctx.choose('between', ['', None, '   ', '\t'])
        label = ctx.choose('label', ['', '! X', 'GAMMA', '# g'])
        pts = []
        style = ctx.choose('figures', FIGURES)
        for s in range(segs):
            for e in range(2):
                c, _ = figure(style, 2 * s + e)
                vals = [num(x) for x in c]
                if label:
                    vals.append(label)
                lines.append(row(vals))
                pts.append([c, 1.0, True])
            if s < segs - 1 and blank is not None:
                lines.append(blank)
        mean['points'] = pts
        mean['num_kpoints'] = num_k
    trail = ctx.choose('trailing', [[], [''], ['', ''], ['  '], ['', '', '']])
    lines += trail
    eol = ctx.choose('eol', ['\n', 'nofinal', '\r\n'])
    if eol == 'nofinal':
        text = '\n'.join(lines)
    else:
        text = ''.join(l + eol for l in lines)
    return text, mean


def compare(mean, got):
    """Model dictionary vs get_dict() of the parser, as (expected, observed) pairs of plain data."""
    obs = dict(got)
    if obs.get('points') is not None:
        obs['points'] = [[list(p[0]), p[1], p[2]] for p in obs['points']]
    return mean, obs
