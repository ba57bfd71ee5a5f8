"""source lists of the run-time protocol checks, taken from the tree as it is"""
import glob
import os
from . import build
from .check import Native

SKIP = {'core/logging.cc', 'mpc/factory.cc', 'mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc', 'mpc/spdz2k/beaver/beaver_tinyot.cc', 'mpc/aby3/arithmetic_gpu_ext.cc'}


def sources(*dirs):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(build.SRC + '/' + d + '/*.cc')):
            r = os.path.relpath(f, build.SRC)
            if r in SKIP or r.endswith(('_test.cc', '_bench.cc', 'benchmark.cc')):
                continue
            out.append(r)
    return out


COMMON = ('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape')
DIRS = {
    'semi2k': ('mpc/semi2k', 'mpc/semi2k/beaver', 'mpc/semi2k/beaver/beaver_impl', 'mpc/semi2k/beaver/beaver_impl/trusted_party'),
    'aby3': ('mpc/aby3',),
    'ref2k': ('mpc/ref2k',),
    'securenn': ('mpc/securenn', 'mpc/semi2k', 'mpc/semi2k/beaver', 'mpc/semi2k/beaver/beaver_impl', 'mpc/semi2k/beaver/beaver_impl/trusted_party'),
    'spdz2k': ('mpc/spdz2k', 'mpc/spdz2k/beaver', 'mpc/semi2k', 'mpc/semi2k/beaver', 'mpc/semi2k/beaver/beaver_impl', 'mpc/semi2k/beaver/beaver_impl/trusted_party'),
    'swift': ('mpc/experimental/swift',),
}


def proto(name, groups, ms=12000, main=None, more=(), tiled=False):
    return Native(name + ('_tiled' if tiled else ''), sources(*COMMON, *dict.fromkeys(DIRS[name.split('_')[-1]] + tuple(more))), main=main or build.VERIF + '/native/proto_%s.cc' % name, ms_quick=ms, opt='-O0', extra=['-DGROUPS=%d' % groups] + (['-DTILED'] if tiled else []), tasks=3 if tiled else None)
