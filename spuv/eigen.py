"""Assumed contract of the Eigen operations used by linalg: Map with strides, matrix product, assignment."""
from .terms import *
from . import terms as TM
from .interp import *
from .interp import BUILTINS, ARRCLS, LIBDEFAULT, Layer
from .stdlib import to64
from .arr import *


class EStride:
    def __init__(self, o, i):
        self.o, self.i = o, i

    def copy(self, I):
        return self


class EMat:
    """matrix expression: rows x cols, at(i, j) -> element term; ptr/outer/inner when it is a map of memory"""

    def __init__(self, rows, cols, w, at, ptr=None, outer=None, inner=None, noalias=False):
        self.rows, self.cols, self.w, self.at = rows, cols, w, at
        self.ptr, self.outer, self.inner, self.noalias = ptr, outer, inner, noalias
        self.reads = []          # memory maps this expression reads

    def copy(self, I):
        return self


def stride_ctor(I, c):
    v = c.vals()
    return EStride(to64(v[0]), to64(v[1]))


def map_ctor(I, c):
    v = c.vals()
    if len(v) == 1 and isinstance(v[0], EMat):
        return v[0]
    p, r, k = v[0], to64(v[1]), to64(v[2])
    if len(v) == 4:
        st = I.unbase(v[3])
    else:
        st = EStride(k, const(1, 64))        # packed row-major
    if not isinstance(st, EStride) or not isinstance(p, Ptr):
        raise Unsupported('Eigen::Map arguments')
    rec = I.P.recs[c.ty.r]
    mt = rec.ta[0]
    mrec = I.P.recs[mt.r]
    et = mrec.ta[0]
    # storage order is part of the matrix type: row-major (option bit 0) puts the outer stride on rows
    opts = mrec.ta[3] if len(mrec.ta) > 3 else 0
    rowmajor = (opts if isinstance(opts, int) else 0) & 1
    rs, cs = (st.o, st.i) if rowmajor else (st.i, st.o)
    arr, off = p.c, I.kt(p.k)
    w = et.w if et.k in ('int', 'float') else None
    lay = None

    def at(i, j, live=True):
        k = add(off, add(mul(i, rs), mul(j, cs)))
        return I.layers_read(arr, m.snap if m.snap is not None else arr.layers, k, m.path)
    if type(arr) is Comp:
        raise Unsupported('Eigen map of a component')
    if type(arr) is not SArr:
        raise Unsupported('Eigen map of %r' % (arr,))
    if arr.leaves is None:
        arr.leaves = {(): w}
    m = EMat(r, k, w, at, p, rs, cs)
    m.snap = None
    m.path = ()
    m.reads = [m]
    I.require('Eigen::Map: dimensions are not negative', and_(not_(slt(r, const(0, 64))), not_(slt(k, const(0, 64)))))
    if list(arr.leaves.values()) != [w]:
        raise Unsupported('Eigen map: element layout')
    return m


def prod(I, a, b):
    I.require('Eigen product: inner dimensions agree', eq(a.cols, b.rows))

    def at(i, j):
        kt = fresh('q', 40)
        k = zext(kt, 64)
        if a.w == b.w and a.w > 0:
            return mk_sum(kt, a.cols, mul(a.at(i, k), b.at(k, j)))
        raise Unsupported('Eigen product of %s-bit elements' % a.w)
    r = EMat(a.rows, b.cols, a.w, at)
    r.reads = a.reads + b.reads
    r.isprod = True
    return r


def footprint(I, m):
    """every element of a mapped matrix lies inside its buffer (checked at an arbitrary element)"""
    i, j = zext(fresh('ri', 40), 64), zext(fresh('rj', 40), 64)
    pcm = len(I.pc)
    I.assume(ult(i, m.rows))
    I.assume(ult(j, m.cols))
    h = I.ghost.get('eigen_bound')
    k = add(I.kt(m.ptr.k), add(mul(i, m.outer), mul(j, m.inner)))
    if h is not None:
        h(I, m, k)
    I.pcreset(pcm)


def assign(I, dst, src):
    if dst.ptr is None:
        raise Unsupported('assignment to a matrix expression')
    I.require('Eigen assignment: sizes agree', and_(eq(dst.rows, src.rows), eq(dst.cols, src.cols)))
    # noalias: the destination must not overlap an operand
    for m in src.reads:
        if m.ptr.c is dst.ptr.c and (dst.noalias or not getattr(src, 'isprod', False)):
            I.require('Eigen: destination does not overlap an operand', FALSE)
        m.snap = list(m.ptr.c.layers)
        footprint(I, m)
    footprint(I, dst)
    it, jt = fresh('ei', 40), fresh('ej', 40)
    i, j = zext(it, 64), zext(jt, 64)
    I.assume_range = None
    val = src.at(i, j)
    arr = dst.ptr.c
    idx = add(I.kt(dst.ptr.k), add(mul(i, dst.outer), mul(j, dst.inner)))
    L = Layer([(it, dst.rows), (jt, dst.cols)], idx, {(): val})
    I.ghost.setdefault('eigen_writes', []).append((dst, src))
    I.setc(arr, '%layers', arr.layers + [L])


def m_assign(I, o, c):
    src = c.val(0)
    if not isinstance(src, EMat):
        raise Unsupported('Eigen assignment from %r' % (src,))
    assign(I, o, src)
    return c.this


def m_noalias(I, o, c):
    m = EMat(o.rows, o.cols, o.w, o.at, o.ptr, o.outer, o.inner, True)
    m.reads, m.snap, m.path = o.reads, getattr(o, 'snap', None), getattr(o, 'path', ())
    return m


def transposed(o):
    m = EMat(o.cols, o.rows, o.w, lambda i, j: o.at(j, i), o.ptr, o.inner, o.outer, o.noalias)
    m.reads = o.reads
    return m


def mat_method(name):
    return {
        'noalias': m_noalias,
        'operator=': m_assign,
        'operator*': lambda I, o, c: prod(I, o, c.val(0)),
        'lazyProduct': lambda I, o, c: prod(I, o, c.val(0)),
        'transpose': lambda I, o, c: transposed(o),
        'rows': lambda I, o, c: o.rows,
        'cols': lambda I, o, c: o.cols,
    }.get(name)


ARRCLS[EMat] = mat_method
BUILTINS['Eigen::Stride::Stride'] = stride_ctor
BUILTINS['Eigen::Map::Map'] = map_ctor
BUILTINS['Eigen::setNbThreads'] = lambda I, c: None
