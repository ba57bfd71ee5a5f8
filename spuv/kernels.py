"""Helpers shared by the property modules (inputs, element-wise obligations, frame obligations)."""
from .session import *
from .terms import *
from .interp import *
from .arr import *
from . import ringspec as RS

BASE = ['core/type.cc', 'core/type_util.cc', 'mpc/common/pv2k.cc', 'mpc/utils/ring_ops.cc', '/verif/harness/h_types.cc']


def fresh_idx(I, numel, name='i'):
    i = zext(fresh(name, 40), 64)
    I.assume(ult(i, numel))
    return i


def ashape(name='s'):
    return AShape(name, zext(var('n.' + name, 40), 64))


def lv(x):
    return x if type(x) is LV else LV(Cell(x))


def callfn(I, fn, *args):
    return I.rv(I.invoke(fn, [a if type(a) is LV else LV(Cell(a)) for a in args], None, None))


def fn_named(P, name, pred=None, nparams=None):
    c = [f for f in P.byname.get(name, []) if f.hasbody and (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
    if len(c) != 1:
        raise Unsupported('function %s: %d definitions' % (name, len(c)))
    return c[0]


def tname(f, i):
    return f.params[i][2].s


def is_arr_param(f, i):
    return 'NdArrayRef' in tname(f, i)


def frame(I, snaps):
    """arrays that must keep their content (arbitrary element)"""
    for nm, a, s in snaps:
        i = fresh_idx(I, a.numel(I), 'f')
        for p in s.paths():
            yield 'frame: %s unchanged' % nm, eq(rd(I, a, i, p), s.at(i, p))


def const64(v):
    return const(v, 64)


def generalise_rem(I, t):
    """replace remainders x % n by fresh values r constrained by n != 0 -> r < n (proving the generalisation is enough)"""
    m = {}
    seen = set()

    def walk(x):
        if x.id in seen:
            return
        seen.add(x.id)
        for y in TM_children(x):
            walk(y)
        if x.op == 'urem' and not is_c(x.args[1]):
            r = fresh('rem', x.w)
            I.assume(or_(eq(x.args[1], const(0, x.w)), ult(r, x.args[1])))
            m[x] = r
    walk(t)
    return subst(t, m) if m else t


from .terms import subterms1 as TM_children
