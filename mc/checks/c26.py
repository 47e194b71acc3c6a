"""C26: a table that was cut off or holds unreadable numbers is refused, never passed off as complete."""
import re

import numpy as np

from parsevasp.chgcar import Chgcar
from parsevasp.doscar import Doscar
from parsevasp.eigenval import Eigenval
from parsevasp.kpoints import Kpoints
from parsevasp.poscar import Poscar
from parsevasp.potcar import Potcar

from mc.checks import c14, c15, c16
from mc.core import Program, Skip, Violation
from mc.models import jobs as J, kpoints as MK, poscar as MP
from mc.obs import attempt, diff, plain, same, via

PROPERTY = 'C26'
BOUNDS = ('every byte position at which EIGENVAL (k-points x bands x spins x occupancies), DOSCAR (15 layouts x atoms x points), CHGCAR (3 layouts x grids x blocks), POSCAR and KPOINTS (all kinds of the reading models, '
          'with one deviation of form) and POTCAR headers can be cut off; every single number of those files replaced by asterisks')
ORACLE = 'the position at which the last number of a table ends is known from the generation of the file: before it the file has to be refused, behind it only the tables that are complete are there'
# A cut within the last number of a table leaves a shorter number, which nobody can tell: not judged.


def tokens(text):
    return [m.span() for m in re.finditer(r'\S+', text)]


def line_tokens(text):
    """Positions of the tokens of every line."""
    out, pos = [], 0
    for line in text.split('\n'):
        out.append([(pos + a, pos + b) for a, b in tokens(line)])
        pos += len(line) + 1
    return out


class Stages:
    """What a file that ends at some position contains."""

    def __init__(self):
        self.marks = []      # (position, verdict, expected): valid from the position on

    def refuse(self, start):
        self.marks.append((start, 'refuse', None))

    def needs(self, token):
        """The last number that the next state depends on."""
        self.marks.append((token[0] + 1, 'skip', None))

    def have(self, start, expected, must=True):
        self.marks.append((start, 'have' if must else 'maybe', expected))

    def at(self, pos):
        out = ('refuse', None)
        for start, verdict, expected in self.marks:
            if pos >= start:
                out = (verdict, expected)
        return out


# ---------------------------------------------------------------- the files
def eigenval(ctx):
    nk, nb, ns = ctx.free('kpoints', [1, 2, 3]), ctx.free('bands', [1, 2, 3]), ctx.free('spin', [1, 2])
    occ = ctx.free('occupancies', [True, False])
    text, meta, kpts, eig = c16.build(nk, nb, ns, occ, between=ctx.choose('between', [('',), ('', '')]), style=ctx.choose('style', [None, 'negative', 'zero', 'equal spins']), newline=ctx.choose('newline', ['\n', '\r\n']))
    last = [t for t in line_tokens(text) if t][-1][ns]
    st = Stages()
    st.needs(last)
    st.have(last[1], (meta, np.array(kpts), np.array(eig)))
    return text, st, {}


def doscar(ctx):
    spin, orbitals = ctx.free('layout', c15.LAYOUTS)
    atoms, ndos = ctx.free('atoms', [1, 2]), ctx.free('points', [2, 3])
    text, ncl, meta, dos, pdos = c15.build(spin, orbitals, atoms, ndos, style=ctx.choose('numbers', [None, 'negative', 'small', 'zero']), newline=ctx.choose('newline', ['\n', '\r\n']))
    rows = line_tokens(text)
    st = Stages()
    last = rows[6 + ndos - 1][-1]
    st.needs(last)
    st.have(last[1], (meta, dos, None))
    if orbitals:
        # the line that announces the atoms may be missing or not yet complete
        header = rows[6 + ndos]
        st.have(header[0][0], (meta, dos, None), False)
        st.refuse(header[-1][1])
        last = [t for t in rows if t][-1][-1]
        st.needs(last)
        st.have(last[1], (meta, dos, pdos))
    return text, st, {'non_collinear': ncl}


def chgcar(ctx):
    layout = ctx.free('layout', c14.LAYOUTS)
    shape = ctx.free('shape', [(2, 3, 2), (1, 2, 1), (1, 1, 1), (4, 1, 1)])
    aug, moments = ctx.free('blocks', [('vasp', True), ('absent', True), ('absent', False)])
    text, arrays = c14.build(shape, layout, ctx.choose('per line', [5, 10, 1]), aug=aug, moments=moments, cell='triclinic', comment='cell', special=ctx.choose('special', [None, 'negative', 'zero', 'three digits last']),
                             newline=ctx.choose('newline', ['\n', '\r\n']))
    rows = line_tokens(text)
    lines = text.split('\n')
    start = next(i for i, t in enumerate(rows) if not t) + 1
    grid = lines[start]
    grids = [i for i, line in enumerate(lines) if line == grid and i >= start]
    assert len(grids) == len(arrays)
    num = shape[0] * shape[1] * shape[2]
    st = Stages()
    for n, i in enumerate(grids):
        # the line of the grid is recognised when it is complete, whether or not it has ended
        if n:
            st.have(rows[i][-1][0] + 1, tuple(arrays[:n]) if n != 3 else None, False)
            st.refuse(rows[i][-1][1] + 2)
        last = [t for row in rows[i + 1:] for t in row][num - 1]
        st.needs(last)
        if n != 2:
            # one density, density and magnetization (as far as one can tell), all four
            st.have(last[1], tuple(arrays[:n + 1]), len(arrays) == n + 1 or n == 0)
        else:
            st.refuse(last[1])
    return text, st, {}


def poscar(ctx):
    text, mean = MP.gen(ctx, [(('Fe', 1), ('O', 2)), (('Fe', 1),), (('O', 1), ('Fe', 1), ('O', 1))])
    rows = line_tokens(text)
    count = len(mean['sites'])
    sel = text.split('\n')[7].strip()[:1].lower() == 's'
    first = 9 if sel else 8
    st = Stages()

    def without(*keys):
        return dict(mean, sites=[dict(s, **{k: None for k in keys}) for s in mean['sites']])

    last = rows[first + count - 1][5 if sel else 2]
    st.needs(last)
    vel, pred = mean['sites'][0]['velocities'] is not None, mean['sites'][0]['predictors'] is not None
    st.have(last[1], without('velocities', 'predictors'))
    at = first + count
    if vel:
        # the line that announces the velocities may be missing or not yet complete
        st.have(rows[at][0][0], without('velocities', 'predictors'), False)
        st.refuse(rows[at + 1][0][0] + 1)
        last = rows[at + count][2]
        st.needs(last)
        st.have(last[1], without('predictors'))
        at += 1 + count
    if pred:
        st.have(rows[at + 1][0][0], without('predictors') if vel else without('velocities', 'predictors'), False)
        st.refuse(rows[at + 1][0][0] + 1)
        last = rows[at + count][2]
        st.needs(last)
        st.have(last[1], mean)
    return text, st, {}


def kpoints(ctx):
    text, mean = MK.gen(ctx, npoints=(1, 2), nseg=(1, 2))
    rows = line_tokens(text)
    st = Stages()
    if mean['mode'] == 'automatic' and mean['generating_vectors'] is None:
        last = rows[3][2]
        st.needs(last)
        st.have(last[1], dict(mean, shifts=None))
        if mean['shifts'] is not None:
            st.refuse(rows[4][0][0] + 1)
            st.needs(rows[4][2])
            st.have(rows[4][2][1], mean)
    elif mean['mode'] == 'automatic':
        st.needs(rows[6][2])
        st.have(rows[6][2][1], mean)
    elif mean['mode'] == 'explicit':
        num = mean['num_kpoints']
        row = rows[2 + num]
        st.needs(row[2])
        points = dict(mean, tetra=None, tetra_volume=None)
        if mean['points'][-1][1] is None:
            # whether a weight is missing cannot be told
            st.have(row[2][1], points)
        else:
            st.have(row[2][1], dict(points, points=mean['points'][:-1] + [mean['points'][-1][:1] + [None] + mean['points'][-1][2:]]), False)
            st.needs(row[3])
            st.have(row[3][1], points)
        if mean['tetra']:
            word = rows[3 + num]
            # announced, but not there: none of them are reported
            st.have(word[0][0] + 1, dict(points, tetra=[]), False)
            st.refuse(rows[4 + num][0][0] + 1)
            last = rows[4 + num + len(mean['tetra'])][4]
            st.needs(last)
            st.have(last[1], mean)
    else:
        # as many points as there are: the number of segments is not written in the file
        st.have(rows[3][0][0] + 1, dict(mean, points=[]), False)
        done = 0
        for row in rows[4:]:
            if not row:
                continue
            st.refuse(row[0][0] + 1)
            st.needs(row[2])
            done += 1
            st.have(row[2][1], dict(mean, points=mean['points'][:done]), done == len(mean['points']))
    return text, st, {}


FILES = {'eigenval': (eigenval, Eigenval), 'doscar': (doscar, Doscar), 'chgcar': (chgcar, Chgcar), 'poscar': (poscar, Poscar), 'kpoints': (kpoints, Kpoints)}


def dos_table(got, exp, what):
    if exp is None:
        return None if got is None or not np.size(got) else '%s: %r, although there is none' % (what, got)
    names = set(getattr(got.dtype, 'names', None) or ())
    if names != set(exp):
        return '%s: columns %s' % (what, sorted(names))
    for name in names:
        bad = diff(np.array(exp[name], dtype=float), got[name], path='%s[%s]' % (what, name), rtol=0.0, atol=0.0)
        if bad:
            return bad
    return None


def compare(kind, obj, exp):
    """First difference between the content of the object and the expected one."""
    if kind == 'eigenval':
        return diff(exp[0], obj.get_metadata(), path='metadata') or diff(exp[1], obj.get_kpoints(), path='kpoints') or diff(exp[2], obj.get_eigenvalues(), path='eigenvalues')
    if kind == 'doscar':
        # the p orbitals are a subject of their own
        return diff(exp[0], obj.get_metadata(), path='metadata') or dos_table(obj.get_dos(), exp[1], 'dos') or dos_table(obj.get_pdos(), exp[2], 'pdos')
    if kind == 'chgcar':
        mag = {1: None, 2: exp[-1], 4: dict(zip('xyz', exp[1:]))}[len(exp)]
        return diff(exp[0], obj.charge_density, path='charge', rtol=1e-12, atol=0.0) or diff(mag, obj.magnetization_density, path='magnetization', rtol=1e-12, atol=0.0)
    if kind == 'poscar':
        return diff(exp, MP.observed(obj.get_dict()), rtol=1e-10, atol=1e-11)
    exp, obs = MK.compare(exp, obj.get_dict())
    if exp['tetra'] == [] and obs['tetra'] in (None, []):
        exp = dict(exp, tetra=obs['tetra'])
    return diff(exp, obs, rtol=1e-14, atol=0)


def gen_cut(kind):
    def gen(ctx):
        text, stages, kw = FILES[kind][0](ctx)
        cut = ctx.free('cut', range(len(text) + 1))
        verdict, exp = stages.at(cut)
        if verdict == 'skip':
            raise Skip()
        return kind, text, cut, verdict, exp, tuple(kw.items()), ctx.choose('route', ['stringio', 'path'])
    return gen


def judge_cut(case):
    kind, text, cut, verdict, exp, kw, route = case
    out = attempt(via, FILES[kind][1], text[:cut], route, **dict(kw))
    what = '%s cut off after byte %d of %d (...%r)' % (kind, cut, len(text), text[max(0, cut - 40):cut])
    if out[0] != 'ok':
        if verdict == 'have':
            raise Violation('lost', '%s: all that is needed is there, but it is refused: %s' % (what, tuple(out)))
        return 'refused'
    if verdict == 'refuse':
        raise Violation('accepted', '%s: accepted, although the table is not complete' % what)
    if exp is None:
        raise Violation('accepted', '%s: accepted, although a component is missing' % what)
    bad = compare(kind, out[1], exp)
    if bad:
        raise Violation('content', '%s: %s' % (what, bad))
    return 'accepted'


# ---------------------------------------------------------------- unreadable numbers
NUMBER = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([EeDd]?[-+]?\d+)?$')


def introductions(kind, text):
    """Spans that tell that a block follows: without them, there is none."""
    out = []
    if kind == 'chgcar':
        lines = text.split('\n')
        grid = next(i for i, line in enumerate(lines) if not line.strip()) + 1
        pos = 0
        for i, line in enumerate(lines):
            if i > grid and line == lines[grid]:
                out.append((pos, pos + len(line)))
            pos += len(line) + 1
    if kind == 'poscar':
        # predictors that follow velocities are recognised by their first number
        rows = line_tokens(text)
        blank = [i for i, row in enumerate(rows) if not row and i > 7]
        for i in blank:
            if i + 1 < len(rows) and rows[i + 1]:
                out.append(rows[i + 1][0])
    return out


def gen_stars(kind):
    def gen(ctx):
        text, _, kw = FILES[kind][0](ctx)
        # the first line is a comment in the hand written files
        skip = text.index('\n') if kind in ('poscar', 'kpoints', 'chgcar') else 0
        spans = [s for s in tokens(text) if NUMBER.match(text[s[0]:s[1]]) and s[0] >= skip]
        # what introduces a further block is not a number of it
        heads = introductions(kind, text)
        spans = [s for s in spans if not any(a <= s[0] < b for a, b in heads)]
        return kind, text, spans[ctx.free('number', range(len(spans)))], ctx.free('instead', ['*', '*/', '-*', 'x']), tuple(kw.items()), 'stringio'
    return gen


def observe(kind, obj):
    if kind in ('poscar', 'kpoints'):
        return plain(obj.get_dict())
    return {k: plain(v) for k, v in J.observe(kind, obj).items()}


def judge_stars(case):
    kind, text, (start, end), how, kw, route = case
    width = end - start
    word = {'*': '*' * width, '*/': ('*' * width)[:-1] + '0', '-*': '-' + '*' * (width - 1), 'x': 'x' * width}[how]
    if how == '*/' and width == 1:
        return 'not changed'
    ref = attempt(via, FILES[kind][1], text, route, **dict(kw))
    if ref[0] != 'ok':
        raise Violation('accept', '%s: %s' % (kind, tuple(ref)))
    out = attempt(via, FILES[kind][1], text[:start] + word + text[end:], route, **dict(kw))
    if out[0] != 'ok':
        return 'refused'
    from mc.checks.c24 import first_difference
    bad = first_difference(observe(kind, ref[1]), observe(kind, out[1]))
    if bad:
        raise Violation('unreadable', '%s with %r instead of %r (...%r...): %s' % (kind, word, text[start:end], text[max(0, start - 40):end + 20], bad))
    return 'not used'


# ---------------------------------------------------------------- POTCAR
def gen_potcar(ctx):
    i = ctx.free('document', range(len(J.documents('potcar'))))
    text = J.documents('potcar')[i][1]
    return text, ctx.free('cut', range(len(text) + 1))


def judge_potcar(case):
    text, cut = case
    out = attempt(via, Potcar, text[:cut], 'stringio')
    if out[0] != 'ok':
        return 'refused'
    full, got = plain(via(Potcar, text, 'stringio').metadata), plain(out[1].metadata)
    # the line that is being written may hold a part of its value
    line = text[text.rfind('\n', 0, cut) + 1:text.find('\n', cut) if '\n' in text[cut:] else len(text)]
    for key, value in got.items():
        if key in full and same(value, full[key]):
            continue
        if key in line or line.strip().startswith('TITEL') or key in ('functional_class',):
            continue
        # a keyword that is repeated further down has its last value in the whole file
        if text[:cut].count(key) < text.count(key):
            continue
        raise Violation('content', 'POTCAR cut off after %r: %s is %r instead of %r' % (text[max(0, cut - 40):cut], key, value, full.get(key)))
    return 'accepted'


PROGRAMS = ([Program('cut ' + k, gen_cut(k), judge_cut, quick=0, thorough=1) for k in FILES] +
            [Program('unreadable ' + k, gen_stars(k), judge_stars, quick=0, thorough=1) for k in FILES] +
            [Program('cut potcar', gen_potcar, judge_potcar)])
