"""C21: both vasprun.xml reading strategies agree on every file."""
import re

from mc.core import Program, Violation
from mc.models import vasprun as M
from mc.obs import attempt, plain, same

PROPERTY = 'C21'
BOUNDS = ('every subset of 12 optional blocks x 1..2 spins (thorough: with 1 deviation); every combination of up to 3 (4) blocks or deviations in ionic steps (complete or not), atoms, k-points, bands, layout, trailing text, options; each file read by both strategies through 2 of the 5 input routes '
          '(all 5 for files with at most one block); a file above the size limit, where the strategy is chosen by itself (thorough); files placed such that a 32 kB piece of the event-driven reading ends within or beside every text (thorough: at every byte)')
ORACLE = 'the two strategies against each other, every accessor; the whole-document strategy is bound to the generated content by C17-C20'
BLOCKS = ('eig', 'eig_specific', 'dos', 'dos_specific', 'proj', 'diel', 'epsilon', 'epsilon_ion', 'born', 'dynmat', 'local_kpoints', 'partial')
VALUES = {'eig': 2, 'eig_specific': 3, 'dos': None, 'dos_specific': None, 'proj': 4, 'diel': 2, 'epsilon': True, 'epsilon_ion': True, 'born': True, 'dynmat': 'both', 'local_kpoints': True}
STEPS = [[{'sc': 2}], [{'sc': 1}, {'sc': 3}], [{'sc': 2}, {'sc': 1}, {'sc': 1}], [{'sc': 1}, {'sc': 2, 'energy': False}], [{'sc': 1}, {'sc': 0, 'energy': False, 'forces': False, 'stress': False, 'structure': False}],
         [{'sc': 2, 'energy': False}], [{}], [{'sc': 1, 'forces': False}, {'sc': 1, 'forces': False}], [{'sc': 1}, {'sc': 1, 'stress': False}, {'sc': 1}], [{'sc': 1}, {'sc': 1, 'energy': False}, {'sc': 1}]]


def gen(ctx, free=True):
    spec = {'spins': ctx.free('spins', [1, 2])}
    has = {}
    for block in BLOCKS:
        if block == 'proj' and not has['eig']:
            has[block] = False
        elif block == 'partial' and not (has['dos'] or has['dos_specific']):
            has[block] = False
        else:
            has[block] = ctx.choose(block, [False, True], free=free)
        if has[block] and block in VALUES and VALUES[block] is not None:
            spec[block] = VALUES[block]
    for block in ('dos', 'dos_specific'):
        if has[block]:
            spec[block] = {'spins': spec['spins'], 'points': 2, 'orbitals': 4 if has['partial'] else 0}
            if ctx.flag(block + ' without fermi'):
                spec[block]['efermi'] = False
            if has['partial'] and spec['spins'] == 1 and ctx.flag(block + ' non-collinear'):
                spec[block]['nc'] = True
    if has['diel']:
        spec['diel_functions'] = ctx.choose('functions', [1, 2])
    if has['dynmat']:
        spec['dynmat'] = ctx.choose('dynmat', ['both', 'hessian', 'modes'])
    if has['eig']:
        spec['eig'] = ctx.choose('eig columns', [2, 1]) if not has['proj'] else 2
    if ctx.flag('velocities'):
        spec.pop('eig_specific', None)
        spec['vel'] = 3
    spec['steps'] = ctx.choose('steps', STEPS)
    spec['atoms'] = ctx.choose('atoms', [['Si', 'C'], ['Zr'], ['C', 'Si', 'C']])
    spec['kpoints'] = ctx.choose('kpoints', [2, 1, 3])
    spec['bands'] = ctx.choose('bands', [2, 1, 3])
    spec['divisions'] = ctx.choose('divisions', [True, False])
    spec['layout'] = ctx.choose('layout', ['vasp', 'compact', 'deep'])
    spec['tail'] = ctx.choose('tail', ['\n', '', '\n\n  \n'])
    spec['leave_out'] = ctx.choose('gone', [(), ('version',), ('symprec',), ('system', 'nelect'), ('ismear', 'sigma'), ('nelm', 'nsw')])
    spec['numbers'] = ctx.choose('numbers', M.NUMBERS)
    spec['selective'] = ctx.choose('selective', [False, 'selective', 'velocities', 'both'])
    spec['generation'] = ctx.choose('generation', [None, 'Monkhorst-Pack', 'listgenerated', 'Automatic'])
    spec['md'] = ctx.flag('md')
    spec['kpoints_opt'] = ctx.choose('kpoints_opt', [0, 1, 5])
    if has['proj'] and spec['spins'] == 1:
        spec['proj_nc'] = ctx.choose('non-collinear projections', [False, True], free=True)
    opts = {'kfirst': ctx.choose('kfirst', [False, True]), 'extract_all': ctx.choose('extract', [True, False])}
    return spec, opts, sum(has.values()) <= 1


def outcome(text, route, event, opts):
    out = attempt(M._both, text, route, event, opts['extract_all'], opts['kfirst'])
    return (out[0], plain(out[1][1]), bool(out[1][0].truncated)) if out[0] == 'ok' else tuple(out)


def single(view):
    """The only step of a file may be listed twice."""
    out = dict(view)
    for key, value in view.items():
        if key.endswith(':all') and isinstance(value, dict) and set(value) == {1, 2} and same(value[1], value[2]):
            out[key] = {1: value[1]}
    lattice = out.get('lattice:all')
    if lattice:
        out['lattice:all'] = single({k + ':all': v for k, v in lattice.items() if k != 'species'}) | {'species': lattice['species']}
    return out


def first_difference(a, b):
    if a[0] != b[0] or a[0] != 'ok':
        return None if a == b else '%s versus %s' % (a[:2] if a[0] != 'ok' else 'ok', b[:2] if b[0] != 'ok' else 'ok')
    va, vb = single(a[1]), single(b[1])
    for key in va:
        if not same(va[key], vb[key]):
            return '%s: %.150r versus %.150r' % (key, va[key], vb[key])
    return None if a[2] == b[2] else 'truncated flag'


def judge(case):
    spec, opts, small = case
    text = M.build(**spec).text()
    base = outcome(text, 'bytesio', False, opts)
    if base[0] != 'ok':
        raise Violation('accept', '%s: %s' % (spec, base))
    count = 0
    for route in M.ROUTES if small else ('path', 'bytesio'):
        for event in (False, True):
            if (route, event) == ('bytesio', False):
                continue
            bad = first_difference(base, outcome(text, route, event, opts))
            if bad:
                raise Violation('agree', 'whole document versus %s route, event=%s, %s of %s: %s' % (route, event, opts, {k: v for k, v in spec.items() if v}, bad))
            count += 1
    return {'comparisons': count}


class Big:
    """A handler of a file that is above the limit for the whole-document strategy: comments of a megabyte are put in after the root starts."""

    def __init__(self, text, megabytes):
        data = text.encode()
        at = data.index(b'<modeling>') + len(b'<modeling>')
        self.chunks = [data[:at]] + [b'<!--' + b'-' * 0 + b'x' * (1048576 - 7) + b'-->'] * megabytes + [data[at:]]
        self.starts = [0]
        for chunk in self.chunks:
            self.starts.append(self.starts[-1] + len(chunk))
        self.pos = 0

    def seek(self, offset, whence=0):
        self.pos = offset + (0 if whence == 0 else self.pos if whence == 1 else self.starts[-1])
        return self.pos

    def tell(self):
        return self.pos

    def read(self, size=-1):
        import bisect
        if size is None or size < 0:
            size = self.starts[-1] - self.pos
        out = []
        while size > 0 and self.pos < self.starts[-1]:
            i = bisect.bisect_right(self.starts, self.pos) - 1
            part = self.chunks[i][self.pos - self.starts[i]:][:size]
            out.append(part)
            self.pos += len(part)
            size -= len(part)
        return b''.join(out)

    def readlines(self):
        return self.read().splitlines(True)


def gen_size(ctx):
    full = dict(spins=2, atoms=['Si', 'C'], eig=2, dos={'spins': 2, 'points': 2, 'orbitals': 4}, proj=4, diel=2, epsilon=True, born=True, dynmat='both', steps=STEPS[1])
    return ctx.free('spec', [full, {'steps': STEPS[2]}]), ctx.free('megabytes', [1, 499, 501])


def judge_size(case):
    spec, mega = case
    text = M.build(**spec).text()
    opts = {'extract_all': True, 'kfirst': False}
    base = outcome(text, 'bytesio', False, opts)

    def run():
        from parsevasp.vasprun import Xml
        from mc.obs import LOGGER
        xml = Xml(file_handler=Big(text, mega), logger=LOGGER)
        return xml, M.observe(xml)
    out = attempt(run)
    big = (out[0], plain(out[1][1]), bool(out[1][0].truncated)) if out[0] == 'ok' else tuple(out)
    bad = first_difference(base, big)
    if bad:
        raise Violation('size', '%d MB file: %s' % (mega, bad))
    return '%d MB' % mega


# ---------------------------------------------------------------- the event-driven reading gets the file in pieces of 32 kB
CHUNK = 32768
PIECES = [dict(spins=2, atoms=['Si', 'C'], eig=2, dos={'spins': 2, 'points': 2, 'orbitals': 4}, proj=4, diel=2, epsilon='rpa', epsilon_ion=True, born=True, dynmat='both', local_kpoints=True, steps=STEPS[1]),
          dict(spins=1, atoms=['Si'], eig=1, vel=2, eig_specific=None, dos_specific={'spins': 1, 'points': 2, 'orbitals': 4}, steps=STEPS[0]),
          dict(spins=2, atoms=['Si'], eig_specific=2, dos_specific={'spins': 2, 'points': 2, 'orbitals': 0}, selective='both', md=True, steps=STEPS[2])]


def gen_pieces(every):
    def program(ctx):
        which = ctx.free('spec', range(len(PIECES)))
        text = M.build(**PIECES[which]).text()
        spots = range(text.index('<modeling>') + 10, len(text.rstrip())) if every else sorted({p for m in re.finditer('>([^<]*[^<\\s][^<]*)<', text) for p in (m.start(1), (m.start(1) + m.end(1)) // 2, m.end(1))})
        return which, ctx.free('end of the first piece', spots), ctx.free('route', ['bytesio', 'path'])

    return program


def judge_pieces(case):
    which, spot, route = case
    text = M.build(**PIECES[which]).text()
    at = text.index('<modeling>') + 10
    if spot < at:
        return 'declaration'
    opts = {'extract_all': True, 'kfirst': False}
    base = outcome(text, 'bytesio', False, opts)
    long = text[:at] + '<!--' + 'x' * (CHUNK - spot - 7) + '-->' + text[at:]
    assert len(long[:CHUNK]) == CHUNK and long[CHUNK:] == text[spot:]
    bad = first_difference(base, outcome(long, route, True, opts))
    if bad:
        raise Violation('pieces', 'a piece ends at %r (%s): %s' % (text[max(0, spot - 40):spot], route, bad))
    return 'spec %d' % which


PROGRAMS = [
    Program('pieces', gen_pieces(False), judge_pieces, enabled=('quick',)),
    Program('every piece', gen_pieces(True), judge_pieces, enabled=('thorough',)),
    Program('every-subset', gen, judge, quick=0, thorough=1),
    Program('few-blocks', lambda ctx: gen(ctx, False), judge, quick=2, thorough=3),
    Program('size', gen_size, judge_size, per_case_s=120, enabled=('thorough',)),
]
