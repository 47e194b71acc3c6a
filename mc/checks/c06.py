"""C06: reading a POSCAR yields the lattice and sites the file describes."""
from parsevasp.poscar import Poscar

from mc.core import Program
from mc.models import poscar as M
from mc.obs import ROUTES, expect_ok, need, via

PROPERTY = 'C06'
BOUNDS = ('9 species/count sequences x selective x direct/cartesian x velocities (none/direct/cartesian) x predictors, fully, times every combination of at most 2 (quick) / 3 (thorough) deviations in '
          'scaling, cell, keywords, blanks, flags, comments, trailing lines and endings, through four input routes')
ORACLE = 'documents are generated from the structure they describe; cartesian conversion by an independent 3x3 inverse'


def judge(case):
    text, mean = case
    for route in ('string',) + ROUTES:
        pos = expect_ok('accept', via, Poscar, text, route, 'poscar_string')
        need('content', mean, M.observed(pos.get_dict()), route, rtol=1e-10, atol=1e-11)
        need('content-cartesian', M.cartesian(mean), M.observed(pos.get_dict(direct=False)), route + ' cartesian', rtol=1e-10, atol=1e-11)
        need('get', mean['comment'], expect_ok('get', pos.get, 'comment'), route + ' get(comment)')
        need('get', mean['unitcell'], expect_ok('get', pos.get, 'unitcell'), route + ' get(unitcell)')
    return '%d sites' % len(mean['sites'])


def gen_small(ctx):
    return M.gen(ctx, M.SMALLGROUPS)


PROGRAMS = [
    Program('documents', M.gen, judge, quick=1, thorough=2),
    Program('documents-small', gen_small, judge, quick=2, thorough=3),
]
