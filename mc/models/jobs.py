"""Parse jobs for every file type: content, keyword arguments and an observer of every public accessor."""
import functools
import inspect
import io
import os
import pathlib

from mc.core import scratch
from mc.models import outcar as MO, stream as MS, vasprun as MX
from mc.obs import LOGGER, plain, put

STRING = {'incar': 'incar_string', 'kpoints': 'kpoints_string', 'poscar': 'poscar_string'}
KINDS = ['incar', 'kpoints', 'poscar', 'potcar', 'chgcar', 'doscar', 'eigenval', 'outcar', 'stream', 'vasprun']

INCAR = '''# comment \u00e9
SYSTEM = a system
ENCUT = 350.5
 ismear = -5 ; SIGMA=0.05 # both
LWAVE = .TRUE.
MAGMOM = 2*1.5 0 -3
ALGO = Fast
NGX = 24
DIPOL = 0.5 0.5 0.25
LREAL = A
'''
INCAR_B = '''NSW = 10
IBRION = 2 # relax
ENCUT = 500
LDAUU = 4.0 0.0
'''
INCAR_SPECIAL = '''ENCUT = 350
MYTAG = 3.0 4.5
'''
KPOINTS = {
    'automatic': 'Automatic mesh \u00e9\n0\nGamma\n4 6 8\n0.0 0.5 0.25\n',
    'monkhorst': 'mesh\n0\nMonkhorst\n3 2 1\n',
    'explicit': 'Explicit\n3\nDirect\n0.0 0.0 0.0 1.0\n0.25 0.5 0.125 2.0\n0.5 0.5 0.5 3.0\n',
    'tetra': 'Tetra\n4\nDirect\n0.0 0.0 0.0 1.\n0.0 0.0 0.5 1.\n0.0 0.5 0.5 2.\n0.5 0.5 0.5 4.\nTetrahedra\n1 0.183333\n6 1 2 3 4\n',
    'line': 'Bands\n10\nLine-mode\nReciprocal\n0.0 0.0 0.0\n0.5 0.0 0.0\n\n0.5 0.0 0.0\n0.5 0.5 0.25\n',
}
POSCAR = {
    'direct': 'Compound \u00e9\n1.0\n5.0 0.0 0.1\n0.2 6.0 0.0\n0.0 0.3 7.0\nFe O\n2 1\nDirect\n0.0 0.1 0.2\n0.5 0.5 0.25\n0.75 0.3 0.4\n',
    'selective': 'Sel\n2.5\n2.0 0.0 0.0\n0.0 2.0 0.0\n0.0 0.0 2.0\nSi\n2\nSelective dynamics\nDirect\n0.0 0.0 0.0 T F T\n0.25 0.25 0.25 F F T\n',
    'cartesian': 'Cart\n1.0\n4.0 0.0 0.0\n0.0 4.0 0.0\n0.0 0.0 4.0\nSi C\n1 1\nCartesian\n1.0 2.0 3.0\n0.5 0.0 -1.0\n',
    'velocities': 'Vel\n1.0\n4.0 0.0 0.0\n0.0 4.0 0.0\n0.0 0.0 4.0\nSi C\n1 1\nDirect\n0.1 0.2 0.3\n0.5 0.0 -0.25\n\n0.001 0.002 0.003\n-0.004 0.005 0.006\n',
    'refused volume': 'Vol\n-64.0\n1.0 0.0 0.0\n0.0 1.0 0.0\n0.0 0.0 1.0\nSi\n1\nDirect\n0.1 0.2 0.3\n',
}
POTCAR = '''  PAW_PBE In_d 06Sep2000
   13.0000000000000
 parameters from PSCTR are:
   VRHFIN =In: s2p1 \u00e9
   LEXCH  = PE
   EATOM  =  1560.6001 eV,  114.7022 Ry

   TITEL  = PAW_PBE In_d 06Sep2000
   LULTRA =        F    use ultrasoft PP ?
   IUNSCR =        1    unscreen: 0-lin 1-nonlin 2-no
   RPACOR =    2.000    partial core radius
   POMASS =  114.820; ZVAL   =   13.000    mass and valenz
   RCORE  =    2.500    outmost cutoff radius
   RWIGS  =    3.160; RWIGS  =    1.677    wigner-seitz radius (au A)
   ENMAX  =  239.211; ENMIN  =  179.408 eV
   STEP   =   20.000   1.050
   END of PSCTR-controll parameters
'''
POTCAR_B = POTCAR.replace('In_d', 'Fe').replace('PE\n', 'CA\n').replace('239.211', '267.883').replace('LULTRA =        F', 'LULTRA =        T')
CONFIG = {'mine': {'kind': 'WARNING', 'regex': 'entering main loop', 'message': 'it starts', 'suggestion': 'none', 'location': 'STDOUT', 'recover': True},
          'zbrent': {'kind': 'WARNING', 'regex': 'ZBRENT', 'message': 'replaced', 'suggestion': '', 'location': 'STDOUT', 'recover': True}}


def _outcar(which):
    if which == 'rich':
        parts = MO.header(5, 2, 60, 24) + MO.symmetry(24, ' face-centered cubic supercell.') + MO.symmetry(12, ' simple tetragonal supercell.', 'dynamic', 4)
        parts += MO.iteration(1, 1) + MO.iteration(1, 2) + MO.loop_end(True) + MO.electrons([1.5]) + MO.magnetization('x', 2, 'spd', 1)
        parts += MO.iteration(2, 1) + MO.loop_end(True) + MO.electrons([2.5]) + MO.magnetization('x', 2, 'spd', 2) + [(' reached required accuracy - stopping structural energy minimisation', None)]
        parts += MO.elastic('non_symmetrized', 1) + MO.elastic('symmetrized', 2) + MO.elastic('total', 3) + MO.ending(5, True, 2)
    elif which == 'ncl':
        parts = MO.header(0, -1, 40, 12) + MO.iteration(1, 1) + MO.loop_end(True) + MO.electrons([.25, .5, .75])
        for i, comp in enumerate('xyz'):
            parts += MO.magnetization(comp, 1, 'sp', 3 + i)
        parts += MO.ending(7, False, 4)
    else:
        parts = MO.header(10, 0, 3, 8) + MO.iteration(1, 1) + MO.iteration(1, 2) + MO.iteration(1, 3)
    return '\n'.join(line for line, _ in parts) + '\n'


def _vasprun(which):
    step = [{'sc': 2}, {'sc': 1}, {'sc': 3}]
    if which == 'rich':
        return MX.build(spins=2, atoms=['Si', 'C'], steps=step, eig=2, dos={'spins': 2, 'points': 2, 'orbitals': 4}, proj=4, epsilon=True, born=True).text()
    if which == 'phonon':
        return MX.build(atoms=['Fe'], steps=step[:1], dynmat='both', epsilon=True, diel=2).text()
    if which == 'cut':
        text = MX.build(spins=2, steps=step, eig=2).text()
        return text[:text.rindex('</calculation>') - 5]
    return MX.minimal()


@functools.lru_cache(None)
def documents(kind):
    """-> list of (name, text, keyword arguments)"""
    if kind == 'incar':
        return [('tags', INCAR, {}), ('other', INCAR_B, {}), ('unknown tag', INCAR_SPECIAL, {'validate_tags': False}), ('refused tag', INCAR_SPECIAL, {}), ('refused line', 'ENCUT 300\n', {})]
    if kind == 'kpoints':
        return [(k, v, {}) for k, v in KPOINTS.items()] + [('refused', 'c\nx\nGamma\n1 1 1\n', {})]
    if kind == 'poscar':
        return [(k, v, {}) for k, v in POSCAR.items()] + [('ordered', POSCAR['direct'].replace('Fe O\n2 1', 'Fe O Fe\n1 1 1'), {'conserve_order': True}), ('as cartesian', POSCAR['direct'], {'write_direct': False}), ('refused', POSCAR['direct'].replace('2 1\n', '2 x\n'), {})]
    if kind == 'potcar':
        return [('In', POTCAR, {}), ('Fe', POTCAR_B, {})]
    if kind == 'chgcar':
        from mc.checks import c14
        return [(lay, c14.build((2, 3, 2), lay, 5, comment='CHGCAR \u00e9', cell='triclinic', special='negative')[0], {}) for lay in c14.LAYOUTS] + [('refused', 'CHGCAR\n1.0\nx 0 0\n0 1 0\n0 0 1\nH\n1\nDirect\n0 0 0\n\n1 1 1\n1.0\n', {})]
    if kind == 'doscar':
        from mc.checks import c15
        return [('%s %s' % (s, o), c15.build(s, o, 2, 3, name=' name \u00e9')[0], {'non_collinear': s == 'noncollinear'}) for s, o in (('none', None), ('spin', 'lm to d'), ('noncollinear', 'l to f'), ('none', 'lm to f'))] + [('refused', 'not\na DOSCAR\n', {})]
    if kind == 'eigenval':
        from mc.checks import c16
        return [('one spin', c16.build(2, 3, 1, name=' name \u00e9')[0], {}), ('two spins', c16.build(3, 2, 2, occ=False, name=' other')[0], {}), ('refused', 'not\nan EIGENVAL\n', {})]
    if kind == 'outcar':
        return [(w, _outcar(w), {}) for w in ('rich', 'ncl', 'unfinished')]
    if kind == 'stream':
        noisy = '\n'.join([MS.STARTED, ' entering main loop', MS.PRINTED['zbrent'], ' caf\u00e9', MS.PRINTED['brmix'], MS.PRINTED['zbrent'], '']) + '\n'
        return [('default', noisy, {}), ('history', noisy, {'history': True}), ('config', noisy, {'config': CONFIG}), ('not started', ' running on    1 total cores\n', {}), ('config history', noisy, {'config': CONFIG, 'history': True})]
    if kind == 'vasprun':
        return [(w, _vasprun(w), {}) for w in ('rich', 'phonon', 'minimal', 'cut')] + [('rich, event', _vasprun('rich'), {'event': True}), ('rich, ends', _vasprun('rich'), {'extract_all': False, 'k_before_band': True}), ('phonon, event', _vasprun('phonon'), {'event': True}),
                                                                                                ('cut, event', _vasprun('cut'), {'event': True}), ('refused', 'not xml', {})]
    raise ValueError(kind)


def cls(kind):
    from mc.models import readonly
    return readonly.cls(kind)


def routes(kind):
    out = ['path', 'pathlib', 'handle', 'handle untranslated', 'stringio']
    if kind in STRING:
        out.append('string')
    if kind == 'vasprun':
        out += ['binary', 'bytesio']
    return out


class Closed(Exception):
    pass


def run(kind, text, kwargs, route, name='job'):
    """Parse; -> (object, remark about the handler or None)"""
    kw = dict(kwargs, logger=LOGGER)
    C = cls(kind)
    if route == 'path':
        return C(file_path=put(name, text), **kw), None
    if route == 'pathlib':
        return C(file_path=pathlib.Path(put(name, text)), **kw), None
    if route == 'string':
        return C(**{STRING[kind]: text}, **kw), None
    if route in ('handle', 'handle untranslated', 'binary'):
        path = put(name, text)
        handle = open(path, 'rb') if route == 'binary' else open(path, 'r', encoding='utf8', newline='' if 'un' in route else None)
    else:
        handle = io.BytesIO(text.encode('utf8')) if route == 'bytesio' else io.StringIO(text, newline='')
    try:
        obj = C(file_handler=handle, **kw)
    finally:
        remark = None
        if handle.closed:
            remark = 'the handler of the caller is closed'
        else:
            handle.seek(0)
            back = handle.read()
            want = text.encode('utf8') if route in ('bytesio', 'binary') else text.replace('\r\n', '\n') if route == 'handle' else text
            if back != want:
                remark = 'the handler of the caller does not give its content any more'
            handle.close()
        HANDLER['remark'] = remark
    return obj, remark


HANDLER = {'remark': None}


def observe(kind, obj):
    """Every public accessor, as plain data."""
    if kind == 'vasprun':
        out = {k: plain(v) for k, v in MX.observe(obj).items()}
        out['truncated'] = bool(obj.truncated)
        return out
    out = {}
    for name in sorted(dir(type(obj))):
        if name.startswith('_') or name in ('write', 'modify', 'delete', 'get'):
            continue
        item = inspect.getattr_static(type(obj), name)
        if isinstance(item, property):
            out[name] = plain(getattr(obj, name))
        elif name.startswith('get_'):
            sig = inspect.signature(getattr(obj, name))
            if all(p.default is not p.empty for p in sig.parameters.values()):
                out[name + '()'] = plain(getattr(obj, name)())
    if hasattr(obj, 'entries'):
        out['entries'] = plain(obj.entries)
    if kind == 'potcar':
        out['metadata'] = plain(obj.metadata)
    if kind in STRING:
        target = io.StringIO()
        obj.write(file_handler=target)
        out['written'] = target.getvalue()
    if kind == 'stream':
        out['len'] = len(obj) if hasattr(obj, '__len__') else None
        out['str'] = [str(obj), repr(obj)]
    return out


def files(root=None):
    """Content of every file in the scratch directory."""
    root = root or scratch()
    return {n: open(os.path.join(root, n), 'rb').read() for n in sorted(os.listdir(root)) if os.path.isfile(os.path.join(root, n))}
