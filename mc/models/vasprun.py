"""Reference model of vasprun.xml.

`Doc` writes the file piece by piece in the order VASP does. Whenever a block (the smallest unit that is useful by itself) has been closed,
an effect is recorded together with the position in the text. The state at any position is obtained by applying the effects up to there, so
the expectation for the complete file and for the file cut at any position follow from the same construction and never from the parser.
Every number in a file is different from all others (apart from what VASP prints twice), so a value in the wrong place is always seen."""
import numpy as np

from mc.obs import diff

ENERGIES = (('energy_free', 'e_fr_energy'), ('energy_no_entropy', 'e_wo_entrp'), ('energy_extrapolated', 'e_0_energy'))
# Own table of the elements (H to Cn), in the order of the atomic number
SYMBOLS = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag '
           'Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U '
           'Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn').split()
NUMBER = {s: i + 1 for i, s in enumerate(SYMBOLS)}
SPIN_KEYS = {1: ('total',), 2: ('up', 'down')}
ORBITALS = 's py pz px dxy dyz dz2 dxz x2-y2 fy3x2 fxyz fyz2 fz3 fxz2 fzx2 fx3'.split()


class Doc:
    def __init__(self, layout='vasp', numbers=None):
        self.selective = False
        self.parts, self.pos, self.effects, self.n, self.depth, self.layout, self.numbers = [], 0, [], 0, 0, layout, numbers

    # text
    def raw(self, text):
        self.parts.append(text)
        self.pos += len(text)

    def line(self, text):
        if self.layout == 'compact':
            self.raw(text)
        elif self.layout == 'deep':
            self.raw('\t' * self.depth + text + '\r\n')
        else:
            self.raw(' ' * self.depth + text + '\n')

    def attrs(self, attrs):
        items = list(attrs.items())
        if self.layout == 'deep':
            items.reverse()
        return ''.join(' %s="%s"' % kv for kv in items)

    def open(self, tag, **attrs):
        self.line('<%s%s>' % (tag, self.attrs(attrs)))
        self.depth += 1

    def close(self, tag):
        self.depth -= 1
        self.line('</%s>' % tag)

    def leaf(self, tag, text, **attrs):
        if self.layout == 'deep' and tag in ('v', 'r'):
            text = '\n  ' + '\n  '.join(text.split()) + '\n'
        elif self.layout == 'compact' and tag in ('v', 'r'):
            text = ' '.join(text.split())
        self.line('<%s%s>%s</%s>' % (tag, self.attrs(attrs), text, tag))

    def closed(self):
        """Position right after the last closing tag."""
        part = self.parts[-1]
        return self.pos - (len(part) - len(part.rstrip()))

    def effect(self, func):
        self.effects.append((self.closed(), func))

    def text(self):
        return ''.join(self.parts)

    # numbers
    def num(self, decimals=8):
        self.n += 1
        value = ((self.n * 7919) % 99991) / 1000.0 - 49.5
        style = self.numbers
        if style == 'zero' or (style == 'some zero' and self.n % 3 == 0) or (style == 'mostly zero' and self.n % 7):
            value = 0.0
        elif style == 'equal':
            value = 1.5
        elif style == 'repeated':
            value = (1.25, -2.5, 0.0)[self.n % 3]
        elif style == 'negative':
            value = -abs(value) - 1
        elif style == 'large':
            value *= 1234.5
        elif style == 'digits':
            return repr(value * 1.0000000123456789)
        elif style == 'tiny':
            return '%.10E' % (value * 1e-12)
        elif style == 'huge':
            return '%.12E' % (value * 1e30)
        elif style == 'integers':
            return '%d' % round(10 * value)
        return '%.*f' % (decimals, value)

    def show(self, value, form):
        return form % value if self.numbers is None else ' %r ' % float(value)

    def row(self, count, decimals=8, width=16):
        items = [self.num(decimals) for _ in range(count)]
        return ' '.join('%*s' % (width, i) for i in items) + ' ', [float(i) for i in items]

    def varray(self, rows, cols, name, tag='v'):
        self.open('varray', name=name)
        out = []
        for _ in range(rows):
            text, vals = self.row(cols)
            self.leaf(tag, text)
            out.append(vals)
        self.close('varray')
        return np.array(out)

    # blocks
    def structure(self, natoms, **attrs):
        self.open('structure', **attrs)
        self.open('crystal')
        cell = self.varray(3, 3, 'basis')
        self.leaf('i', self.num(), name='volume')
        self.varray(3, 3, 'rec_basis')
        self.close('crystal')
        pos = self.varray(natoms, 3, 'positions')
        self.dynamics(natoms)
        self.close('structure')
        return cell, pos

    def same_structure(self, cell, pos, **attrs):
        self.open('structure', **attrs)
        self.open('crystal')
        self.fixed('basis', cell)
        self.leaf('i', self.num(), name='volume')
        self.varray(3, 3, 'rec_basis')
        self.close('crystal')
        self.fixed('positions', pos)
        self.dynamics(len(pos))
        self.close('structure')

    def dynamics(self, natoms):
        if self.selective in ('selective', 'both'):
            self.open('varray', name='selective', type='logical')
            for i in range(natoms):
                self.leaf('v', ' T  F  %s ' % 'TF'[i % 2], type='logical')
            self.close('varray')
        if self.selective in ('velocities', 'both'):
            self.varray(natoms, 3, 'velocities')

    def fixed(self, name, values):
        self.open('varray', name=name)
        for vals in values:
            self.leaf('v', ' '.join(self.show(v, '%16.8f') for v in vals) + ' ')
        self.close('varray')

    def head(self, dims, fields):
        for i, dim in enumerate(dims):
            self.leaf('dimension', dim, dim=str(i + 1))
        for field in fields:
            self.leaf('field', field)

    def bands(self, nspin, nk, nb, cols, fields, comment='spin %d', values=None):
        """values[spin, kpoint, band, column]"""
        self.open('array')
        self.head(('band', 'kpoint', 'spin'), fields)
        self.open('set')
        out = np.zeros((nspin, nk, nb, cols))
        for s in range(nspin):
            self.open('set', comment=comment % (s + 1))
            for k in range(nk):
                self.open('set', comment='kpoint %d' % (k + 1))
                for b in range(nb):
                    if values is None:
                        text, out[s, k, b] = self.row(cols, 4, 9)
                    else:
                        text, out[s, k, b] = ''.join(self.show(v, '%9.4f ') for v in values[s, k, b]), values[s, k, b]
                    self.leaf('r', text)
                self.close('set')
            self.close('set')
        self.close('set')
        self.close('array')
        return out

    def specific_kpoints(self, nk):
        self.open('kpoints')
        kpts = self.varray(nk, 3, 'kpointlist')
        weights = self.varray(nk, 1, 'weights')[:, 0]
        self.close('kpoints')
        return kpts, weights

    def dos(self, spec, natoms, **attrs):
        nspin, npts, orbitals, nc = spec['spins'], spec['points'], spec.get('orbitals', 0), spec.get('nc', False)
        self.open('dos', **attrs)
        fermi = None
        if spec.get('efermi', True):
            text = self.num()
            fermi = float(text)
            self.leaf('i', ' %s ' % text, name='efermi')
        energy = np.array([float(self.num(4)) for _ in range(npts)])
        total = np.zeros((nspin, npts, 2))
        self.open('total')
        self.open('array')
        self.head(('gridpoints', 'spin'), ('energy', 'total', 'integrated'))
        self.open('set')
        for s in range(nspin):
            self.open('set', comment='spin %d' % (s + 1))
            for i in range(npts):
                text, total[s, i] = self.row(2, 4, 10)
                self.leaf('r', '%s %s' % (self.show(energy[i], '%10.4f'), text))
            self.close('set')
        for tag in ('set', 'array', 'total'):
            self.close(tag)
        partial = None
        if orbitals:
            partial = np.zeros((4 if nc else nspin, natoms, npts, orbitals))
            self.open('partial')
            self.open('array')
            self.head(('gridpoints', 'spin', 'ion'), ['energy'] + ORBITALS[:orbitals])
            self.open('set')
            for a in range(natoms):
                self.open('set', comment='ion %d' % (a + 1))
                for s in range(len(partial)):
                    self.open('set', comment='spin %d' % (s + 1))
                    for i in range(npts):
                        text, partial[s, a, i] = self.row(orbitals, 4, 10)
                        self.leaf('r', '%s %s' % (self.show(energy[i], '%10.4f'), text))
                    self.close('set')
                self.close('set')
            for tag in ('set', 'array', 'partial'):
                self.close(tag)
        self.close('dos')
        out = {}
        for s, key in enumerate(SPIN_KEYS[nspin]):
            out[key] = {'total': total[s, :, 0], 'integrated': total[s, :, 1], 'partial': None if partial is None else partial[s]}
        out.setdefault('total', {}).update({'energy': energy, 'fermi_level': fermi})
        return out


def fresh():
    return {'version': None, 'parameters': dict.fromkeys(('symprec', 'ismear', 'sigma', 'ispin', 'nbands', 'nelect', 'system', 'nelm', 'nsw')),
            'species': None, 'kpoints': None, 'kpointsw': None, 'kpointdiv': None, 'initial': None, 'final': None, 'calcs': [],
            'eigenvalues': None, 'occupancies': None, 'eigenvalues_specific': None, 'eigenvelocities': None, 'kpoints_specific': None,
            'kpointsw_specific': None, 'dos': None, 'dos_specific': None, 'projectors': None, 'dielectrics': None, 'epsilon': None,
            'epsilon_ion': None, 'born': None, 'hessian': None, 'dynmat': None}


BASE = {'atoms': ['Si', 'C'], 'kpoints': 2, 'bands': 3, 'spins': 1, 'divisions': True, 'steps': [{'sc': 2}], 'final': True, 'version': '5.4.4.18Apr17-6-g9f103f2a35',
        'eig': None, 'eig_specific': None, 'vel': None, 'dos': None, 'dos_specific': None, 'proj': None, 'diel': 0, 'epsilon': False, 'epsilon_ion': False,
        'born': False, 'dynmat': False, 'params': {}, 'leave_out': (), 'layout': 'vasp', 'tail': '', 'local_kpoints': False, 'numbers': None,
        'generation': None, 'selective': False, 'md': False, 'kpoints_opt': 0, 'proj_nc': False}


NUMBERS = [None, 'zero', 'some zero', 'mostly zero', 'equal', 'repeated', 'negative', 'large', 'digits', 'tiny', 'huge', 'integers']


def setter(key, value):
    def eff(st):
        st[key] = value
    return eff


def build(**spec):
    """-> Doc of the complete file."""
    s = dict(BASE)
    s.update(spec)
    d = Doc(s['layout'], s['numbers'])
    d.selective = s['selective']
    natoms, nk, nb, nspin = len(s['atoms']), s['kpoints'], s['bands'], s['spins']
    params = {'system': 'unknown system', 'symprec': 1e-5, 'ismear': -5, 'sigma': 0.05, 'ispin': nspin, 'nbands': nb, 'nelect': 8.5, 'nelm': 60, 'nsw': 7}
    params.update(s['params'])
    gone = s['leave_out']
    d.raw('<?xml version="1.0" encoding="ISO-8859-1"?>\n')
    d.open('modeling')
    d.open('generator')
    d.leaf('i', 'vasp ', name='program', type='string')
    if 'version' not in gone:
        d.leaf('i', s['version'] + ' ', name='version', type='string')
        d.effect(setter('version', '.'.join(s['version'].split('.')[:3])))
    d.leaf('i', '2020 01 01 ', name='date', type='string')
    d.close('generator')
    # The values asked for by the user are repeated here, they are not the ones that were used
    d.open('incar')
    d.leaf('i', ' from incar', type='string', name='SYSTEM')
    d.leaf('i', '    11', type='int', name='NSW')
    d.leaf('i', '  -77', type='int', name='ISMEAR')
    d.leaf('i', '  0.777', name='SIGMA')
    for name, value in (('ISPIN', 7), ('NBANDS', 777), ('NELM', 77)):
        d.leaf('i', '  %d' % value, type='int', name=name)
    d.leaf('i', ' 77.70000000', name='NELECT')
    d.leaf('i', '  0.77700000', name='SYMPREC')
    d.close('incar')
    d.structure(natoms, name='primitive_cell')
    if 'kpoints' not in gone:
        d.open('kpoints')
        if s['generation'] in ('listgenerated', 'Automatic'):
            d.open('generation', param=s['generation'])
            if s['generation'] == 'Automatic':
                d.leaf('i', d.num(), name='subdivisionlength')
            else:
                d.leaf('i', '   11 ', name='divisions', type='int')
                for _ in range(2):
                    d.leaf('v', d.row(3)[0])
            d.close('generation')
        elif s['divisions']:
            div = [3, 5, 7]
            d.open('generation', param=s['generation'] or 'Gamma')
            d.leaf('v', ' %d   %d   %d ' % tuple(div), type='int', name='divisions')
            d.leaf('v', d.row(3)[0], name='usershift')
            d.leaf('v', d.row(3)[0], name='genvec1')
            d.close('generation')
            d.effect(setter('kpointdiv', div))
        kpts = d.varray(nk, 3, 'kpointlist')
        d.effect(setter('kpoints', kpts))
        weights = d.varray(nk, 1, 'weights')[:, 0]
        d.effect(setter('kpointsw', weights))
        d.close('kpoints')

    def par(key, fmt, name, **attrs):
        if key in gone:
            return
        d.leaf('i', fmt % params[key], **dict(attrs, name=name))

        def eff(st):
            st['parameters'][key] = params[key]
        d.effect(eff)

    d.open('parameters')
    d.open('separator', name='general')
    par('system', '%s', 'SYSTEM', type='string')
    d.leaf('i', ' F  ', type='logical', name='LCOMPAT')
    d.close('separator')
    d.open('separator', name='electronic')
    d.leaf('i', 'normal', type='string', name='PREC')
    par('nbands', '%6d', 'NBANDS', type='int')
    par('nelect', '%16.8f', 'NELECT')
    d.open('separator', name='electronic smearing')
    par('ismear', '%6d', 'ISMEAR', type='int')
    par('sigma', '%16.8f', 'SIGMA')
    d.close('separator')
    d.open('separator', name='electronic spin')
    par('ispin', '%6d', 'ISPIN', type='int')
    d.close('separator')
    d.open('separator', name='electronic convergence')
    par('nelm', '%6d', 'NELM', type='int')
    d.leaf('i', '    -5', type='int', name='NELMDL')
    d.open('separator', name='electronic convergence detail')
    d.leaf('i', ' T  ', type='logical', name='LDIAG')
    d.close('separator')
    d.close('separator')
    d.close('separator')
    d.open('separator', name='ionic')
    par('nsw', '%6d', 'NSW', type='int')
    d.close('separator')
    d.open('separator', name='symmetry')
    par('symprec', '%16.8f', 'SYMPREC')
    d.close('separator')
    d.open('separator', name='model GW')
    d.leaf('i', '    12', type='int', name='NELMGW')
    d.close('separator')
    d.close('parameters')

    d.open('atominfo')
    d.leaf('atoms', '%7d ' % natoms)
    d.leaf('types', '%7d ' % len(set(s['atoms'])))
    if 'species' not in gone:
        d.open('array', name='atoms')
        d.leaf('dimension', 'ion', dim='1')
        d.leaf('field', 'element', type='string')
        d.leaf('field', 'atomtype', type='int')
        d.open('set')
        types = list(dict.fromkeys(s['atoms']))
        for sym in s['atoms']:
            d.line('<rc><c>%-2s</c><c>%4d</c></rc>' % (sym, types.index(sym) + 1))
        d.close('set')
        d.close('array')
        d.effect(setter('species', [NUMBER[sym] for sym in s['atoms']]))
    d.open('array', name='atomtypes')
    d.leaf('field', 'element', type='string')
    d.open('set')
    for sym in dict.fromkeys(s['atoms']):
        d.line('<rc><c>%4d</c><c>%-2s</c></rc>' % (s['atoms'].count(sym), sym))
    d.close('set')
    d.close('array')
    d.close('atominfo')

    first = {}
    last = None
    steps = s['steps']
    # The initial structure is the one of the first step, so generate its numbers first
    initial = d.structure(natoms, name='initialpos')
    d.effect(setter('initial', initial))
    for index, step in enumerate(steps):
        d.open('calculation')

        def begin(st):
            st['calcs'].append({'sc': {k: [] for k, _ in ENERGIES}, 'final': {}})
        d.effect(begin)

        def on_calc(key, value):
            def eff(st):
                st['calcs'][-1][key] = value
            return eff
        for isc in range(step.get('sc', 0)):
            d.open('scstep')
            d.leaf('time', '    0.83    0.97', name='dav')
            d.open('energy')
            if isc == 0:
                for name in ('alphaZ', 'ewald', 'eentropy', 'atom'):
                    d.leaf('i', ' %s ' % d.num(), name=name)
            vals = {}
            for key, name in ENERGIES:
                text = d.num()
                d.leaf('i', '%16s ' % text, name=name)
                vals[key] = float(text)
            d.close('energy')
            d.close('scstep')

            def eff(st, vals=vals):
                for key, value in vals.items():
                    st['calcs'][-1]['sc'][key].append(value)
            d.effect(eff)
        if step.get('structure', True):
            if index == 0:
                d.same_structure(*initial)
                last = initial
            else:
                last = d.structure(natoms)
            d.effect(on_calc('structure', last))
        if step.get('forces', True):
            d.effect(on_calc('forces', d.varray(natoms, 3, 'forces')))
        if step.get('stress', True):
            d.effect(on_calc('stress', d.varray(3, 3, 'stress')))
        if index == len(steps) - 1:
            responses(d, s, natoms)
        if step.get('energy', True):
            d.open('energy')
            vals = {}
            for key, name in ENERGIES:
                text = d.num()
                d.leaf('i', '%16s ' % text, name=name)
                vals[key] = float(text)
            if s['md']:
                for name in ('kinetic', 'lattice kinetic', 'nosepot', 'nosekinetic', 'total'):
                    d.leaf('i', '%16s ' % d.num(), name=name)
            d.close('energy')
            d.effect(on_calc('final', vals))
        if index == len(steps) - 1:
            electronic(d, s, natoms)
        else:
            d.leaf('time', '   67.93   68.11', name='totalsc')
        d.close('calculation')
    if s['final'] and last is not None:
        d.same_structure(*last, name='finalpos')
        d.effect(setter('final', last))
    d.close('modeling')
    d.end = d.closed()
    d.raw(s['tail'])
    return d


def responses(d, s, natoms):
    if s['local_kpoints']:
        # Displacements with less symmetry have their own k-points
        for _ in range(2):
            d.open('kpoints')
            d.open('generation', param='Gamma')
            d.leaf('v', ' 11  12  13 ', type='int', name='divisions')
            d.close('generation')
            d.varray(3, 3, 'kpointlist')
            d.varray(3, 1, 'weights')
            d.close('kpoints')
    if s['epsilon'] == 'rpa':
        d.varray(3, 3, 'epsilon_rpa')
    if s['epsilon']:
        d.effect(setter('epsilon', d.varray(3, 3, 'epsilon')))
    if s['born']:
        d.open('array', name='born_charges')
        d.leaf('dimension', 'ion', dim='1')
        out = []
        for _ in range(natoms):
            d.open('set')
            out.append([])
            for _ in range(3):
                text, vals = d.row(3)
                d.leaf('v', text)
                out[-1].append(vals)
            d.close('set')
        d.close('array')
        d.effect(setter('born', np.array(out)))
    if s['epsilon_ion']:
        d.effect(setter('epsilon_ion', d.varray(3, 3, 'epsilon_ion')))
    if s['dynmat']:
        d.open('dynmat')
        hessian = d.varray(3 * natoms, 3 * natoms, 'hessian') if s['dynmat'] != 'modes' else None
        modes = None
        if s['dynmat'] != 'hessian':
            text, vals = d.row(3 * natoms)
            d.leaf('v', text, name='eigenvalues')
            modes = {'eigenvalues': np.array(vals), 'eigenvectors': d.varray(3 * natoms, 3 * natoms, 'eigenvectors')}
        d.close('dynmat')
        d.effect(setter('hessian', hessian))
        d.effect(setter('dynmat', modes))


def electronic(d, s, natoms):
    nk, nb, nspin = s['kpoints'], s['bands'], s['spins']
    if s['eig_specific']:
        d.open('eigenvalues', comment='interpolated')
        kpts, weights = d.specific_kpoints(s['eig_specific'])
        d.open('eigenvalues')
        values = d.bands(nspin, s['eig_specific'], nb, 1, ('eigene',))
        d.close('eigenvalues')
        d.close('eigenvalues')
        d.effect(setter('eigenvalues_specific', values[..., 0]))
        d.effect(setter('kpoints_specific', kpts))
        d.effect(setter('kpointsw_specific', weights))
    if s['vel']:
        d.open('eigenvelocities', comment='interpolated')
        kpts, weights = d.specific_kpoints(s['vel'])
        d.open('eigenvalues')
        values = d.bands(nspin, s['vel'], nb, 4, ('eigene', 'data', 'data', 'data'))
        d.close('eigenvalues')
        d.close('eigenvelocities')
        d.effect(setter('eigenvelocities', values))
        d.effect(setter('kpoints_specific', kpts))
        d.effect(setter('kpointsw_specific', weights))
    if s['dos_specific']:
        d.effect(setter('dos_specific', d.dos(s['dos_specific'], natoms, comment='interpolated')))
    d.leaf('time', '   67.93   68.11', name='totalsc')
    eig = None
    if s['eig']:
        d.open('eigenvalues')
        cols = s['eig']
        eig = d.bands(nspin, nk, nb, cols, ('eigene', 'occ')[:cols])
        d.close('eigenvalues')
        d.effect(setter('eigenvalues', eig[..., 0]))
        if cols > 1:
            d.effect(setter('occupancies', eig[..., 1]))
    d.open('separator', name='orbital magnetization')
    d.leaf('v', d.row(3)[0], name='MAGDIPOLOUT')
    d.close('separator')
    if s['dos']:
        d.effect(setter('dos', d.dos(s['dos'], natoms)))
    if s['proj']:
        d.open('projected')
        d.open('eigenvalues')
        d.bands(nspin, nk, nb, 2, ('eigene', 'occ'), values=eig)
        d.close('eigenvalues')
        d.open('array')
        d.head(('ion', 'band', 'kpoint', 'spin'), ORBITALS[:s['proj']])
        d.open('set')
        # Non-collinear: the total followed by the x, y and z components of the magnetization
        nset = 4 if s['proj_nc'] and nspin == 1 else nspin
        values = np.zeros((nset, nk, nb, natoms, s['proj']))
        for sp in range(nset):
            d.open('set', comment='spin%d' % (sp + 1))
            for k in range(nk):
                d.open('set', comment='kpoint %d' % (k + 1))
                for b in range(nb):
                    d.open('set', comment='band %d' % (b + 1))
                    for a in range(natoms):
                        text, values[sp, k, b, a] = d.row(s['proj'], 4, 9)
                        d.leaf('r', text)
                    d.close('set')
                d.close('set')
            d.close('set')
        for tag in ('set', 'array', 'projected'):
            d.close(tag)
        d.effect(setter('projectors', values[:nspin]))
    if s['kpoints_opt']:
        # Band structure on the points of KPOINTS_OPT (VASP 6.3), which is no part of the results
        n = s['kpoints_opt']
        d.open('eigenvalues_kpoints_opt', comment='kpoints_opt')
        d.specific_kpoints(n)
        d.open('eigenvalues')
        d.bands(nspin, n, nb, 2, ('eigene', 'occ'))
        d.close('eigenvalues')
        d.close('eigenvalues_kpoints_opt')
        d.dos({'spins': nspin, 'points': 3, 'orbitals': 4}, natoms, comment='kpoints_opt')
        d.open('projected_kpoints_opt', comment='kpoints_opt')
        d.specific_kpoints(n)
        d.open('eigenvalues')
        d.bands(nspin, n, nb, 2, ('eigene', 'occ'))
        d.close('eigenvalues')
        d.open('array')
        d.head(('ion', 'band', 'kpoint', 'spin'), ORBITALS[:4])
        d.open('set')
        for sp in range(nspin):
            d.open('set', comment='spin%d' % (sp + 1))
            for k in range(n):
                d.open('set', comment='kpoint %d' % (k + 1))
                for b in range(nb):
                    d.open('set', comment='band %d' % (b + 1))
                    for _ in range(natoms):
                        d.leaf('r', d.row(4, 4, 9)[0])
                    d.close('set')
                d.close('set')
            d.close('set')
        for tag in ('set', 'array', 'projected_kpoints_opt'):
            d.close(tag)
    # dielectric functions
    for which in range(s['diel'] and s.get('diel_functions', 1)):
        n = s['diel']
        if s.get('diel_functions', 1) > 1:
            d.open('dielectricfunction', comment=('density-density', 'current-current')[which])
        else:
            d.open('dielectricfunction')
        energy = [float(d.num(4)) for _ in range(n)]
        parts = {}
        for part in ('imag', 'real'):
            d.open(part)
            d.open('array')
            d.head(('gridpoints',), ('energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'))
            d.open('set')
            parts[part] = np.zeros((n, 6))
            for i in range(n):
                text, parts[part][i] = d.row(6, 4, 10)
                d.leaf('r', '%s %s' % (d.show(energy[i], '%10.4f'), text))
            for tag in ('set', 'array', part):
                d.close(tag)
        d.close('dielectricfunction')
        if which == 0:
            d.effect(setter('dielectrics', {'energy': np.array(energy), 'imag': parts['imag'], 'real': parts['real']}))


def state_at(doc, pos=None):
    st = fresh()
    for where, eff in doc.effects:
        if pos is None or where <= pos:
            eff(st)
    return st


def by_spin(values, kfirst, axes=(1, 2)):
    """values[spin, kpoint, band, ...] -> {'total'| 'up','down': [band, kpoint, ...]}"""
    if values is None:
        return None
    out = {}
    for s, key in enumerate(SPIN_KEYS[len(values)]):
        out[key] = values[s] if kfirst else np.swapaxes(values[s], 0, 1)
    return out


def expected(st, extract_all=True, kfirst=False):
    """What every accessor has to return for this state."""
    exp = {}
    for key in ('version', 'species', 'kpoints', 'kpointsw', 'kpoints_specific', 'kpointsw_specific', 'dos', 'dos_specific', 'epsilon', 'epsilon_ion', 'born',
                'hessian', 'dynmat', 'parameters'):
        exp[key] = st[key]
    exp['divisions'] = st['kpointdiv']
    for key in ('eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities'):
        exp[key] = by_spin(st[key], kfirst)
    if st['projectors'] is None:
        exp['projectors'] = None
    else:
        # [spin, kpoint, band, atom, orbital] -> [atom, band, kpoint, orbital]
        order = (2, 0, 1, 3) if kfirst else (2, 1, 0, 3)
        exp['projectors'] = {key: np.transpose(st['projectors'][s], order) for s, key in enumerate(SPIN_KEYS[len(st['projectors'])])}
    for key in ('dos', 'dos_specific'):
        exp['fermi_level' + key[3:]] = None if st[key] is None else st[key]['total']['fermi_level']
    if st['dielectrics'] is None and st['epsilon'] is None and st['epsilon_ion'] is None:
        exp['dielectrics'] = None
    else:
        exp['dielectrics'] = dict(st['dielectrics'] or dict.fromkeys(('energy', 'imag', 'real')), epsilon=st['epsilon'], epsilon_ion=st['epsilon_ion'])
    series = {'unitcell': {}, 'positions': {}, 'forces': {}, 'stress': {}, 'energies': {}}
    for i, calc in enumerate(st['calcs']):
        if 'structure' in calc:
            series['unitcell'][i + 1], series['positions'][i + 1] = calc['structure']
        for key in ('forces', 'stress'):
            if key in calc:
                series[key][i + 1] = calc[key]
        if calc['final'] and calc['sc']['energy_free']:
            series['energies'][i + 1] = calc
    if not extract_all:
        for key in ('forces', 'stress'):
            if series[key]:
                series[key] = {1: series[key][min(series[key])], 2: series[key][max(series[key])]}
        for j, key in enumerate(('unitcell', 'positions')):
            ends = {}
            if st['initial'] is not None:
                ends[1] = st['initial'][j]
                ends[2] = ends[1]
            if series[key]:
                ends[2] = series[key][max(series[key])]
            if st['final'] is not None:
                ends[2] = st['final'][j]
            series[key] = ends
    for key in ('unitcell', 'positions', 'forces', 'stress'):
        ser = series[key]
        exp[key + ':all'] = ser or None
        exp[key + ':initial'] = ser[min(ser)] if ser else None
        exp[key + ':last'] = ser[max(ser)] if ser else None
    for status in ('initial', 'last', 'all'):
        exp['lattice:' + status] = {'unitcell': exp['unitcell:' + status], 'positions': exp['positions:' + status],
                                    'species': None if st['species'] is None else np.array(st['species'])}
    ser = series['energies']
    for status in ('initial', 'last', 'all'):
        which = [] if not ser else {'initial': [min(ser)], 'last': [max(ser)], 'all': sorted(ser)}[status]
        for nosc in (True, False):
            name = 'energies:%s:%s' % (status, 'end' if nosc else 'sc')
            if not ser:
                exp[name] = None
                continue
            out = {'electronic_steps': [1 if nosc else len(ser[w]['sc']['energy_free']) for w in which]}
            for key, _ in ENERGIES:
                out[key + '_final'] = np.array([ser[w]['final'][key] for w in which])
                out[key] = np.array([e for w in which for e in (ser[w]['sc'][key][-1:] if nosc else ser[w]['sc'][key])])
            exp[name] = out
    return exp


def observe(xml):
    """Call every accessor."""
    got = {}
    for key in ('version', 'species', 'kpoints', 'kpointsw', 'kpoints_specific', 'kpointsw_specific', 'dos', 'dos_specific', 'epsilon', 'epsilon_ion', 'born',
                'hessian', 'dynmat', 'parameters', 'eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities', 'projectors', 'fermi_level',
                'fermi_level_specific', 'dielectrics'):
        got[key] = getattr(xml, 'get_' + key)()
    got['divisions'] = xml.get_dict()['lattice']['kpointdiv']
    for status in ('initial', 'last', 'all'):
        for key in ('unitcell', 'positions', 'forces', 'stress'):
            got[key + ':' + status] = getattr(xml, 'get_' + key)(status)
        got['lattice:' + status] = xml.get_lattice(status)
        for nosc in (True, False):
            got['energies:%s:%s' % (status, 'end' if nosc else 'sc')] = xml.get_energies(status, [k for k, _ in ENERGIES], nosc)
    return got


def drop_repeat(exp, got):
    """A file with a single step is allowed to list its only step twice."""
    if isinstance(exp, dict) and set(exp) == {1} and isinstance(got, dict) and set(got) == {1, 2} and diff(np.asarray(got[1]), np.asarray(got[2])) is None:
        return {1: got[1]}
    return got


def compare(exp, got, skip=()):
    """First difference or None."""
    for key, value in exp.items():
        if key in skip:
            continue
        have = got[key]
        if key.endswith(':all'):
            if key.startswith('lattice'):
                if isinstance(have, dict) and isinstance(value, dict):
                    have = dict(have)
                    for sub in ('unitcell', 'positions'):
                        have[sub] = drop_repeat(value[sub], have.get(sub))
            else:
                have = drop_repeat(value, have)
        if key in ('species', 'divisions') and value is not None:
            value = np.array(value)
        bad = diff(value, have, 0.0, 0.0, path=key)
        if bad:
            return bad
    return None


def minimal():
    return build(atoms=['Si'], kpoints=1, bands=1).text()


ROUTES = ('path', 'binary', 'text', 'bytesio', 'stringio')


def parse(text, route='bytesio', name='vasprun.xml', **kw):
    """Read `text` with the real parser through one of the input routes."""
    import io
    from parsevasp.vasprun import Xml
    from mc.obs import LOGGER, put
    kw.setdefault('logger', LOGGER)
    if route == 'bytesio':
        return Xml(file_handler=io.BytesIO(text.encode()), **kw)
    if route == 'stringio':
        return Xml(file_handler=io.StringIO(text), **kw)
    path = put(name, text)
    if route == 'path':
        return Xml(file_path=path, **kw)
    with open(path, 'rb' if route == 'binary' else 'r', **({} if route == 'binary' else {'encoding': 'utf8'})) as fh:
        return Xml(file_handler=fh, **kw)


def verify(clause, doc, only=None, skip=(), pos=None, route='bytesio', extract_all=True, kfirst=False, event=False, what=''):
    """Parse the (cut) document and compare every accessor (or those named) with the model."""
    from mc.core import Violation
    from mc.obs import attempt
    text = doc.text()
    if pos is not None:
        text = text[:pos]
    what = '%s[%s event=%s extract_all=%s k_before_band=%s]' % (what, route, event, extract_all, kfirst)
    out = attempt(lambda: _both(text, route, event, extract_all, kfirst))
    if out[0] != 'ok':
        raise Violation(clause, '%s: expected results, got %s' % (what, tuple(out)))
    xml, got = out[1]
    exp = expected(state_at(doc, pos), extract_all, kfirst)
    if only is not None:
        exp = {k: v for k, v in exp.items() if any(k == o or k.startswith(o + ':') for o in only)}
    bad = compare(exp, got, skip)
    if bad:
        raise Violation(clause, '%s: %s' % (what, bad))
    truncated = pos is not None and pos < doc.end
    if bool(xml.truncated) != truncated:
        raise Violation('truncated-flag', '%s: truncated is %r for %s' % (what, xml.truncated, 'a cut file' if truncated else 'a complete file'))
    return xml, got


def _both(text, route, event, extract_all, kfirst):
    xml = parse(text, route, event=event, extract_all=extract_all, k_before_band=kfirst)
    return xml, observe(xml)
