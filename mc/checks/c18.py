"""C18: vasprun.xml total energies are attributed to the right ionic and electronic step."""
import itertools

import numpy as np

from mc.core import Program, Violation
from mc.models import vasprun as M
from mc.obs import attempt, need

PROPERTY = 'C18'
BOUNDS = ('every history of 1..4 ionic steps (5 thorough) with 1..3 electronic steps each (4 thorough), the last one complete, without final energies, without electronic steps, or just begun; '
          'for each the first, last and all steps, with and without electronic steps, for all 15 ordered selections of energy types; both reading strategies; 1 (2) deviations in layout, route, other blocks, cut of the final structure')
ORACLE = 'the printed values themselves, kept in lists per ionic and electronic step while the file is generated'
TYPES = [k for k, _ in M.ENERGIES]
SELECTIONS = [None] + [list(p) for n in (1, 2, 3) for p in itertools.permutations(sorted(TYPES), n)]
OTHER = [{}, {'eig': 2, 'dos': {'spins': 1, 'points': 2}, 'proj': 3}, {'epsilon': True, 'epsilon_ion': True, 'born': True, 'dynmat': 'both', 'diel': 2}, {'vel': 3, 'dos_specific': {'spins': 1, 'points': 2}}]


def gen(nions, nsc):
    def program(ctx):
        ions = ctx.free('ions', list(range(1, nions + 1)))
        steps = [{'sc': ctx.free('sc', list(range(1, nsc + 1)))} for _ in range(ions)]
        end = ctx.free('last', ['complete', 'no energy', 'no sc', 'begun', 'no structure'])
        if end == 'no energy':
            steps[-1].update(energy=False)
        elif end == 'no sc':
            steps[-1].update(sc=0)
        elif end == 'begun':
            steps[-1].update(energy=False, structure=False, forces=False, stress=False)
        elif end == 'no structure':
            steps[-1].update(structure=False, forces=False, stress=False)
        spec = {'atoms': ['Si'], 'kpoints': 1, 'bands': 2, 'steps': steps, 'final': end == 'complete' and ctx.choose('final', [True, False])}
        spec['layout'] = ctx.choose('layout', ['vasp', 'compact', 'deep'])
        spec['numbers'] = ctx.choose('numbers', M.NUMBERS)
        spec['md'] = ctx.flag('md')
        spec.update(ctx.choose('other', OTHER))
        opts = {'event': ctx.free('event', [False, True]), 'extract_all': ctx.choose('extract', [True, False]), 'route': ctx.choose('route', ['bytesio', 'path', 'binary', 'text', 'stringio'])}
        return spec, opts
    return program


def judge(case):
    spec, opts = case
    doc = M.build(**spec)
    what = 'electronic steps %s%s' % ([s['sc'] for s in spec['steps']], '' if spec.get('final', True) else ', last step incomplete or run interrupted')
    st = M.state_at(doc)
    xml = M.parse(doc.text(), **opts)
    done = [c for c in st['calcs'] if c['final'] and c['sc']['energy_free']]
    count = 0
    for status in ('initial', 'last', 'all'):
        which = {'initial': done[:1], 'last': done[-1:], 'all': done}[status]
        for nosc in (True, False):
            for sel in SELECTIONS:
                args = (status,) if sel is None else (status, list(sel))
                got = attempt(xml.get_energies, *args, nosc=nosc)
                call = '%s: get_energies(%s, nosc=%s, %s)' % (what, ', '.join(map(str, args)), nosc, opts)
                if got[0] != 'ok':
                    raise Violation('accept', '%s: %s' % (call, tuple(got)))
                if not done:
                    need('absent', None, got[1], call)
                    continue
                exp = {'electronic_steps': [1 if nosc else len(c['sc']['energy_free']) for c in which]}
                for key in sel or ['energy_extrapolated']:
                    exp[key + '_final'] = np.array([c['final'][key] for c in which])
                    exp[key] = np.array([e for c in which for e in (c['sc'][key][-1:] if nosc else c['sc'][key])])
                need('energies-' + status, exp, got[1], call)
                count += 1
    if done:
        default = xml.get_energies('last')
        need('default', xml.get_energies('last', ['energy_extrapolated'], True), default, what)
        for status in ('final', 'first', None, 0):
            out = attempt(xml.get_energies, status)
            if tuple(out) != ('exit', 507):
                raise Violation('status', '%s: get_energies(%r): %s' % (what, status, tuple(out)[:1]))
    for etype in (['energy'], ['energy_free', 'e_fr_energy'], 'energy_free', ['total'], ('energy_free',), ['energy_free_final']):
        out = attempt(xml.get_energies, 'all', etype)
        if out[0] != 'raise' or out[1] != 'ValueError':
            raise Violation('type', '%s: get_energies of %r: %s' % (what, etype, tuple(out)[:2]))
    return {'accessor calls': count}


def gen_large(ctx):
    n = ctx.free('ions', [1, 2, 10, 11, 12, 30])
    most = ctx.free('sc', [1, 9, 10, 11, 61, 101])
    shape = ctx.free('shape', ['equal', 'first', 'last', 'falling', 'middle'])
    sc = [{'equal': most, 'first': 1 if i else most, 'last': most if i == n - 1 else 1, 'falling': max(1, most - i), 'middle': most if i == n // 2 else 2}[shape] for i in range(n)]
    steps = [{'sc': k} for k in sc]
    spec = {'atoms': ['Si'], 'kpoints': 1, 'bands': 2, 'steps': steps}
    if ctx.free('last', ['complete', 'begun']) == 'begun':
        steps[-1].update(energy=False, structure=False, forces=False, stress=False)
        spec['final'] = False
    return spec, {'event': ctx.free('event', [False, True]), 'extract_all': True, 'route': 'bytesio'}


PROGRAMS = [
    Program('large', gen_large, lambda case: judge(case), per_case_s=60),
    Program('histories', gen(4, 3), judge, quick=1, thorough=2),
    Program('histories-deep', gen(5, 4), judge, quick=0, thorough=0, enabled=('thorough',)),
]
