"""C04: reading a KPOINTS file yields the grid, points or lines it describes."""
from parsevasp.kpoints import Kpoints

from mc.core import Program
from mc.models import kpoints as M
from mc.obs import ROUTES, expect_ok, need, via

PROPERTY = 'C04'
BOUNDS = ('4 kinds x sizes (points 1..3, segments 1..3, tetrahedra 0..2, shifts) fully, times every combination of at most 3 (quick) / 4 (thorough) deviations in comment, keywords, blanks, '
          'weights, labels, trailing lines and line endings, through four input routes')
ORACLE = 'documents are generated from the content they describe'


def judge(case):
    text, mean = case
    for route in ('string',) + ROUTES:
        kp = expect_ok('accept', via, Kpoints, text, route, 'kpoints_string')
        got = kp.get_dict()
        exp, obs = M.compare(mean, got)
        need('content', exp, obs, route, rtol=1e-14, atol=0)
        if obs['num_kpoints'] != int(obs['num_kpoints']) or isinstance(obs['num_kpoints'], float):
            need('content', mean['num_kpoints'], obs['num_kpoints'], route, strict=True)
        if mean['divisions'] is not None:
            need('content', mean['divisions'], obs['divisions'], route, strict=True)
        if mean['tetra'] is not None:
            need('content', mean['tetra'], obs['tetra'], route, strict=True)
        for key in ('comment', 'mode', 'num_kpoints', 'shifts', 'divisions', 'centering'):
            need('get', mean[key], expect_ok('get', kp.get, key), '%s get(%s)' % (route, key), rtol=1e-14, atol=0)
    return mean['mode']


def gen_big(ctx):
    return M.gen(ctx, npoints=(4, 7, 12), nseg=(4, 6))


PROGRAMS = [
    Program('documents', M.gen, judge, quick=3, thorough=4),
    Program('documents-large', gen_big, judge, quick=2, thorough=3),
]
