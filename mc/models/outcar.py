"""Reference model of OUTCAR: a list of (line, effect) pairs; `effect` updates the model state when the line has been printed.

A file cut after line k is described by the effects of the first k lines, so the expectation at every cut point is known by construction."""


def fresh():
    return {'iter': None, 'counts': {}, 'nsw': None, 'nelm': None, 'nbands': None, 'ibrion': -1, 'finished': False,
            'sym': {'num_space_group_operations': {'static': [], 'dynamic': []}, 'original_cell_type': {'static': [], 'dynamic': []},
                    'symmetrized_cell_type': {'static': [], 'dynamic': []}},
            'elastic': {'non_symmetrized': None, 'symmetrized': None, 'total': None},
            'sphere': {c: {'site_moment': {}, 'total_magnetization': {}} for c in 'xyz'}, 'full_cell': None, 'stats': {}}


def setter(key, value):
    def eff(st):
        st[key] = value
    return eff


# lines that name the parameters without setting them
DECOYS = ['   SYSTEM =  test NSW = 99 NELM = 88 IBRION = 7 x', '   NELMIN =     77;   NELMDL =  66', ' the run has NSW = 98 and NELM =   97', 'NSW = 96', 'IBRION = 5', '   NSWAP =    95', '   LNELM  =     94',
          ' WARNING: NELM =     93 was reached', '   (NSW =     92)', '   IBRIONX =      3', '   NPAR   =      4   IBRION =     6', '   EDIFF  = 0.1E-03   NELM =    61', '   nsw    =     91',
          ' iteration  8( 9)', ' Iteration 8', '   timing: NSW', ' LOOP:  cpu time    1.5: real time    1.5', ' NSW', '   NSW    =', ' general timing and accounting']


def header(nsw, ibrion, nelm, nbands, decoys=False):
    out = [(' vasp.5.4.4.18Apr17 complex', None), (' executed on             LinuxIFC', None), ('', None)]
    if nbands is not None:
        out.append(('   k-points           NKPTS =     56   k-points in BZ     NKDIM =     56   number of bands    NBANDS=%7d' % nbands, setter('nbands', nbands)))
    out += [('   ISPIN  =      1    spin polarized calculation?', None), (' Electronic Relaxation 1', None)]
    if nelm is not None:
        out.append(('   NELM   =%7d;   NELMIN=  2; NELMDL=  0     # of ELM steps' % nelm, setter('nelm', nelm)))
    out.append((' Ionic relaxation', None))
    if nsw is not None:
        out.append(('   NSW    =%7d    number of steps for IOM' % nsw, setter('nsw', nsw)))
    out.append(('   NBLOCK =      1;   KBLOCK =     61    inner block; outer block', None))
    if ibrion is not None:
        out.append(('   IBRION =%7d    ionic relax: 0-MD 1-quasi-New 2-CG' % ibrion, setter('ibrion', ibrion)))
    if decoys:
        out = [(d, None) for d in DECOYS] + out + [(d, None) for d in DECOYS]
    return out


def iteration(ion, el):
    def eff(st):
        st['iter'] = [ion, el]
        st['counts'][ion] = st['counts'].get(ion, 0) + 1
    return [('', None), ('--------------------------------------- Iteration%7d(%4d)  ---------------------------------------' % (ion, el), eff), ('', None)]


def loop_end(reached):
    return [('------------------------ aborting loop %s ----------------------------------------' % ('because EDIFF is reached' if reached else 'EDIFF was not reached (unconverged)'), None),
            ('', None)]


def symmetry(ops, cell, kind='static', primitive=1):
    def add(key, val):
        def eff(st):
            st['sym'][key][kind].append(val)
        return eff
    title = 'Analysis of symmetry for initial positions (statically):' if kind == 'static' else 'Analysis of symmetry for dynamics (positions and initial velocities):'
    out = [(title, None), ('=' * 69, None)]
    if primitive == 1:
        out += [(' Subroutine PRICEL returns:', None), (' Original cell was already a primitive cell.', add('original_cell_type', 'primitive cell'))]
    else:
        out += [(' Subroutine PRICEL returns following result:', None), ('', None), (' ALAT       =     5.4300000000', None), ('', None),
                ('  %2d primitive cells build up your supercell.' % primitive, add('original_cell_type', '%d primitive cells' % primitive))]
    out += [('', None), ('', None), (' Routine SETGRP: Setting up the symmetry group for a', None), (' ' + cell, add('symmetrized_cell_type', cell.lower())), ('', None), ('', None),
            (' Subroutine GETGRP returns: Found %2d space group operations' % ops, add('num_space_group_operations', ops)),
            (' (whereof %2d operations were pure point group operations)' % ops, None), (' out of a pool of 48 trial point group operations.', None), ('', None), ('', None)]
    if kind == 'static':
        out.append(('The static configuration has the point symmetry T_d .', None))
    else:
        out += [(' Subroutine INISYM returns: Found 99 space group operations', None), (' (whereof 24 operations are pure point group operations),', None)]
    return out


ELASTIC_TITLE = {'non_symmetrized': '  ELASTIC MODULI  (kBar)', 'symmetrized': '  SYMMETRIZED ELASTIC MODULI (kBar)', 'total': ' TOTAL ELASTIC MODULI (kBar)',
                 'ionic': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)'}


def elastic(kind, seed):
    rows = [[0.0 if seed == 0 and i != j else round(seed * 100 + 6 * i + j + 0.0625 * (i - j) - (500 if (i + j) % 3 == 1 else 0), 4) for j in range(6)] for i in range(6)]

    def eff(st):
        if kind != 'ionic':
            st['elastic'][kind] = rows
    out = [(ELASTIC_TITLE[kind], None), (' Direction    XX          YY          ZZ          XY          YZ          ZX', None), (' ' + '-' * 80, None)]
    for i, row in enumerate(rows):
        out.append((' %s     ' % ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX'][i] + ''.join('%12.4f' % v for v in row), eff if i == 5 else None))
    return out + [(' ' + '-' * 80, None), ('', None), ('', None)]


def magnetization(comp, nions, orbs, seed):
    """orbs: 's', 'sp', 'spd', 'spdf'"""
    names = list(orbs)
    table = {}
    for i in range(nions):
        vals = [round((-1) ** (i + k) * (0.001 * (100 * seed + 10 * i + k + 1)), 3) for k in range(len(names))]
        if seed == 0:
            vals = [0.0 for _ in names] if i % 2 == 0 else [-0.001 * k for k in range(len(names))]
        table[i + 1] = dict(zip(names, vals), tot=round(sum(vals) + 0.0, 3) if (i + seed) % 4 else 0.0)
    tot = {k: round(sum(table[i][k] for i in table), 3) for k in names + ['tot']}
    if nions == 1:
        tot = dict(table[1])

    def eff(st):
        st['sphere'][comp] = {'site_moment': table, 'total_magnetization': tot}
    out = [('', None), (' magnetization (%s)' % comp, None), ('', None), ('# of ion     ' + ''.join('%8s' % n for n in names + ['tot']), None), ('-' * (18 + 8 * len(names)), None)]
    for i in table:
        out.append(('%5d      ' % i + ''.join('%8.3f' % table[i][k] for k in names + ['tot']), None))
    if nions > 1:
        out += [('-' * 50, None), ('tot        ' + ''.join('%8.3f' % tot[k] for k in names + ['tot']), eff)]
        out += [('', None), ('', None)]
    else:
        out += [('', eff), ('', None)]
    return out


def electrons(values):
    return [(' number of electron       7.9999999 magnetization ' + ''.join('%12.7f' % v for v in values), setter('full_cell', list(values))),
            (' augmentation part       -0.1234567 magnetization ' + ''.join('%12.7f' % (v / 2) for v in values), None)]


def ending(version=5, memory=True, seed=1, trail=0):
    """Memory table and timing block."""
    out = [('     LOOP+:  cpu time    4.8153: real time    5.0384', None), ('', None)]

    def stat(key, val):
        def eff(st):
            st['stats'][key] = val
        return eff
    if memory:
        out += [(' total amount of memory used by VASP MPI-rank0    33970. kBytes', None), ('=' * 71, None), ('', None)]
        for name, val in (('base', 30000.), ('nonl-proj', 2198. + seed), ('fftplans', 304.), ('grid', 903. * seed), ('one-center', 6.), ('wavefun', 559.)):
            out.append(('   %-10s:%11d. kBytes' % (name, val), stat('mem_usage_' + name, val)))
        out += [('', None), ('', None), ('', None)]
    out += [(' General timing and accounting informations for this job:', setter('finished', True)), (' ' + '=' * 56, None), ('', None)]
    for name, val in (('Total CPU time used', 89.795 + seed), ('User time', 60.25 * seed), ('System time', 29.549), ('Elapsed time', 90.99)):
        out.append(('%37s (sec): %12.3f' % (name, val), stat(name.lower().replace(' ', '_'), val)))
    out.append(('', None))
    for name, val in (('Maximum memory used', 81612.), ('Average memory used', 0. if version == 5 else None)):
        out.append(('%37s (kb): %s' % (name, '%11d.' % val if val is not None else '         N/A' if version == 7 else ''), stat(name.lower().replace(' ', '_'), val)))
    out += [('', None), ('                          Minor page faults:       776791', None), ('                          Major page faults:           20', None),
            ('                 Voluntary context switches:         1460', None)]
    return out + [('', None)] * trail


def status(st):
    """Expected run status of a file described by `st`."""
    ion, el = st['iter']
    nsw, nelm, ibrion = st['nsw'], st['nelm'], st['ibrion']
    ionic = False
    electronic = False
    if st['finished']:
        if ibrion <= 0:
            ionic = None
        elif nsw is None:
            ionic = 'any'
        elif ion < nsw:
            ionic = True
        elif nsw <= 1:
            ionic = None
        electronic = nelm is not None and el < nelm
    full = [nelm is not None and st['counts'][i] >= nelm for i in sorted(st['counts'])]
    done = full if st['finished'] else full[:-1]
    out = {'nelm': nelm, 'nsw': nsw, 'last_iteration_index': [ion, el], 'finished': st['finished'], 'ionic_converged': ionic, 'electronic_converged': electronic,
           'consistent_nelm_breach': bool(done) and all(done) and (st['finished'] or ion > 1), 'contains_nelm_breach': any(full), 'nbands': st['nbands']}
    return out
