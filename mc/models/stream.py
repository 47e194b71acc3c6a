"""Reference model of the standard-stream triggers."""
# What VASP prints and the trigger it has to set off (written down independently of stream.yml)
PRINTED = {
    'ibzkpt': ' VERY BAD NEWS! internal error in subroutine IBZKPT:',
    'brmix': ' BRMIX: very serious problems',
    'cnormn': ' WARNING: CNORMN: search vector ill defined',
    'denmp': " WARNING: DENMP: can't reach specified precision",
    'dentet': " WARNING: DENTET: can't reach specified precision",
    'edddav_zhegv': ' Error EDDDAV: Call to ZHEGV failed. Returncode =   7',
    'eddrmm_zhegv': ' WARNING in EDDRMM: call to ZHEGV failed, returncode =   6',
    'edwav': ' EDWAV: internal error, the gradient is not orthogonal',
    'fexcp': ' ERROR FEXCP: supplied Exchange-correlation table',
    'fock_acc': ' internal error in FOCK_ACC: number of k-points incorrect',
    'invgrp': ' VERY BAD NEWS! internal error in subroutine INVGRP:',
    'kpoints_trans': ' internal error in GENERATE_KPOINTS_TRANS: G vector not found',
    'non_collinear': ' ERROR: non collinear calculations require that VASP is compiled',
    'not_hermitian': ' WARNING: Sub-Space-Matrix is not Hermitian in DAV    2',
    'psmaxn': ' REAL_OPT: internal ERROR: PSMAXN for non-local potential too small',
    'pssyevx': ' ERROR in subspace rotation: Error in subspace rotation PSSYEVX: not enough',
    'pzstein': ' PZSTEIN parameter number    4 had an illegal value'.replace('number    4', 'number'),
    'real_optlay': ' REAL_OPTLAY: internal error (1)',
    'rhosyg': ' RHOSYG: internal error: stars are not distinct',
    'rspher': ' Internal ERROR RSPHER: running out of buffer'.replace('RSPHER:', 'RSPHER.'),
    'set_indpw_full': ' internal error in SET_INDPW_FULL: insufficient memory',
    'sgrcon': ' VERY BAD NEWS! internal error in subroutine SGRCON:',
    'zbrent': ' ZBRENT: fatal error in bracketing',
    'no_potim': ' Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!',
    'magmom': " Error reading item 'MAGMOM' from file INCAR.",
    'bandocc': ' |     TOO FEW BANDS                                                     |',
}
STARTED = ' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Aug  3 2020 11:46:08) complex'
NOISE = [' POSCAR found :  1 types and       2 ions', '', ' entering main loop', 'RMM:   1    -0.1E+02', ' running on    1 total cores']
RECOVERABLE = {'ibzkpt'}
STDERR = {'fock_acc', 'kpoints_trans'}
