"""Minimal content for the parsers that only read (used where only the fact that an object exists matters)."""
import io

from mc.obs import LOGGER

POTCAR = '''  PAW_PBE In_d 06Sep2000
   13.0000000000000
 parameters from PSCTR are:
   VRHFIN =In: s2p1
   LEXCH  = PE
   EATOM  =  1560.6001 eV,  114.7022 Ry

   TITEL  = PAW_PBE In_d 06Sep2000
   LULTRA =        F    use ultrasoft PP ?
   POMASS =  114.820; ZVAL   =   13.000    mass and valenz
   END of PSCTR-controll parameters
'''
CHGCAR = '''cell
   2.0
     1.0 0.0 0.0
     0.0 1.0 0.0
     0.0 0.0 1.0
   Ni
     1
Direct
  0.0 0.0 0.0

    1    2    1
 0.16000000000E+02 0.24000000000E+02
'''
DOSCAR = '''   1   1   0   0
  0.1648482E+02  0.4040000E-09  0.4040000E-09  0.4040000E-09  0.1000000E-15
  1.000000000000000E-004
  CAR
 unknown system
     13.67039808     -3.43982524    2      7.29482275      1.00000000
     -3.440  0.1104E+00  0.2099E+00
     13.670  0.0000E+00  0.2000E+02
'''
EIGENVAL = '''    1    1    1    1
  0.1648482E+02  0.4040000E-09  0.4040000E-09  0.4040000E-09  0.1000000E-15
  1.000000000000000E-004
  CAR
 unknown system
     12      1      2

  0.2500000E+00  0.2500000E+00  0.2500000E+00  0.1000000E+01
    1       -1.439825   1.000000
    2        2.964373   0.000000
'''
OUTCAR = ''' vasp.5.4.4
   NSW    =      0    number of steps for IOM
   NELM   =     60;   NELMIN=  2; NELMDL= -5     # of ELM steps
   k-points           NKPTS =      1   k-points in BZ     NKDIM =      1   number of bands    NBANDS=      8
----------------------------------------- Iteration    1(   1)  ---------------------------------------
------------------------ aborting loop because EDIFF is reached ----------------------------------------
 General timing and accounting informations for this job:
'''
STREAM = ''' running on    1 total cores
 vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Aug  3 2020 11:46:08) complex
'''


def vasprun():
    from mc.models import vasprun as MX
    return MX.minimal()


SAMPLES = {'potcar': POTCAR, 'chgcar': CHGCAR, 'doscar': DOSCAR, 'eigenval': EIGENVAL, 'outcar': OUTCAR, 'stream': STREAM, 'vasprun': None}


def text(kind):
    return SAMPLES[kind] if SAMPLES[kind] is not None else vasprun()


def cls(kind):
    if kind == 'vasprun':
        from parsevasp.vasprun import Xml
        return Xml
    mod = __import__('parsevasp.' + kind, fromlist=['x'])
    return getattr(mod, kind.capitalize())


def make(kind):
    if kind == 'vasprun':
        return cls(kind)(file_handler=io.BytesIO(text(kind).encode()), logger=LOGGER)
    return cls(kind)(file_handler=io.StringIO(text(kind)), logger=LOGGER)
