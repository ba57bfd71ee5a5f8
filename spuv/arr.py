"""Abstract NdArrayRef for kernel proofs.

An Arr is a view (index map + component path) of a store.  The contract of NdArrayRef/NdArrayView used here
(element idx of a freshly created array is its own cell; as() keeps the bytes; clone() copies; …) is what the
`ndarray` property proves about ndarray_ref.{h,cc} themselves.
"""
from .terms import *
from . import terms as TM
from .interp import *
from . import interp as IP
from .interp import builtin, BUILTINS, ARRCLS, LIBDEFAULT, GENERIC
from .stdlib import *
from .stdlib import length, to64, c64


class AShape:
    """shape of unknown rank: identity + number of elements"""
    abstract_shape = True

    def __init__(self, name, numel):
        self.name = name
        self.numel = numel

    def copy(self, I):
        return self

    def equals(self, I, o):
        if o is self or (isinstance(o, AShape) and o.name == self.name):
            return TRUE
        if isinstance(o, AShape):
            return app('shape_eq', [var('shape.' + min(self.name, o.name), 8), var('shape.' + max(self.name, o.name), 8)], 0)
        if type(o) is Vec:
            if len(o.items) == 1 and o.items[0] is self.numel:
                return app('is_flat', [var('shape.' + self.name, 8)], 0)
            return and_(eq(self.numel, shape_numel(I, o)), app('shape_is', [var('shape.' + self.name, 8)] + [x for x in o.items], 0))
        raise Unsupported('shape comparison')

    def length(self, I):
        return zext(var('rank.' + self.name, 8), 64)

    def to_span(self, I):
        return self

    def __repr__(self):
        return 'AShape(%s)' % self.name


def ash_method(name):
    return {
        'numel': lambda I, o, c: o.numel,
        'size': lambda I, o, c: o.length(I),
        'ndim': lambda I, o, c: o.length(I),
        'operator==': lambda I, o, c: o.equals(I, I.unbase(c.val(0))),
        'operator!=': lambda I, o, c: not_(o.equals(I, I.unbase(c.val(0)))),
        'operator=': lambda I, o, c: (I.store(c.this, I.unbase(c.val(0))), c.this)[1],
        'isScalar': lambda I, o, c: eq(o.length(I), c64(0)),
        'isTensor': lambda I, o, c: not_(eq(o.length(I), c64(0))),
        'isEmpty': lambda I, o, c: eq(o.numel, c64(0)),
        'begin': lambda I, o, c: It(FnProxy(lambda I, k: (_ for _ in ()).throw(Unsupported('dims of abstract shape'))), 0, ('ashape', o)),
        'end': lambda I, o, c: It(FnProxy(None), -1, ('ashape', o)),
    }.get(name)


ARRCLS[AShape] = ash_method


def shape_numel(I, s):
    s = I.unbase(s)
    if isinstance(s, AShape):
        return s.numel
    if type(s) is Vec:
        n = c64(1)
        for d in s.items:
            n = mul(n, d)
        return n
    raise Unsupported('numel of %r' % (s,))


def same_shape(I, a, b):
    return eqval(I, a, b)


class Arr:
    """NdArrayRef value"""
    def __init__(self, store, ety, shape, imap=None, path=(), name=None, strides=None, off=None):
        self.store = store          # SArr
        self.ety = ety              # Cell holding the Type value
        self.shape = shape          # Cell holding the Shape value
        self.imap = imap            # flat index -> store index (None: identity)
        self.path = path            # component path inside an element
        self.name = name
        self.strides = strides      # concrete rank: list of stride terms over raw storage
        self.off = off
        self.fast = TRUE

    def copy(self, I):
        a = Arr(self.store, Cell(I.copyval(self.ety.v)), self.shape, self.imap, self.path, self.name, self.strides, self.off)
        a.fast = self.fast
        return a

    def numel(self, I):
        return shape_numel(I, self.shape.v)

    def key(self, idx):
        i = self.imap(idx) if self.imap is not None else idx
        return ('%sub', i, self.path) if self.path else i

    def get_member(self, I, m):
        if m == 'eltype_':
            return LV(self.ety)
        if m == 'shape_':
            return LV(self.shape)
        raise Unsupported('private member %s of abstract array' % m)

    def __repr__(self):
        return 'Arr(%s)' % self.store.name


def read_elem(I, a, idx):
    """element value tree at flat index idx (spec level; no safety obligations)"""
    i = a.imap(idx) if a.imap is not None else idx
    if a.store.leaves is None:
        raise Unsupported('array %s was never written' % a.store.name)
    sub = {p[len(a.path):]: I.layers_read(a.store, a.store.layers, i, p) for p in a.store.leaves if p[:len(a.path)] == a.path}
    return sub


def rd(I, a, idx, path=()):
    return read_elem(I, a, idx)[path]


class Snap:
    """immutable snapshot of an array's content (for specs and lazy contract results)"""
    def __init__(self, I, a):
        self.I = I
        self.arr = a.store
        self.layers = list(a.store.layers)
        self.imap = a.imap
        self.path = a.path
        self.leaves = a.store.leaves
        self.a = a

    def at(self, idx, path=()):
        i = self.imap(idx) if self.imap is not None else idx
        return self.I.layers_read(self.arr, self.layers, i, self.path + path)

    def paths(self):
        return [p[len(self.path):] for p in self.leaves if p[:len(self.path)] == self.path]


def new_arr(I, ety, shape, name='arr', leaves=None, base=None):
    nm = fresh(name, 1).args[0]
    n = shape_numel(I, shape)
    s = SArr(nm, n, leaves, base)
    if base is None and leaves is not None:
        pass
    return Arr(s, Cell(ety), Cell(shape), None, (), nm)


# NdArrayRef constructors
def ndref_ctor(I, c):
    vals = c.vals()
    if not I.ghost.get('abstract_arrays', True):
        return NotImplemented
    if not vals:
        return Arr(SArr('null', c64(0), None), Cell(UNINIT), Cell(Vec([])))
    if isinstance(vals[0], Arr):
        return vals[0].copy(I)
    if len(vals) == 2:
        ety, shape = vals
        return new_arr(I, I.copyval(ety), I.copyval(shape), 'new')
    h = I.ghost.get('ndref_ctor_ext')
    if h is not None:
        return h(I, c, vals)
    raise Unsupported('NdArrayRef(buf, …) on abstract arrays')


class AView:
    """NdArrayView<T>"""
    def __init__(self, arr, ty):
        self.arr = arr
        self.ty = ty

    def copy(self, I):
        return self


def ensure_leaves(I, arr, ty):
    s = arr.store
    lv, rec = leaves_of(I, ty)
    if s.leaves is None:
        s.leaves = {arr.path + p: w for p, w in lv.items()}
        s.rec = rec if not arr.path else None
        nm = s.name
        if s.base is None:
            pass
        return
    sub = {p[len(arr.path):]: w for p, w in s.leaves.items() if p[:len(arr.path)] == arr.path}
    if sub == lv:
        return
    raise Unsupported('view type %s does not match the element layout %r' % (ty.s, sub))


def ndview_ctor(I, c):
    v = c.val(0)
    if isinstance(v, AView):
        return v
    if not isinstance(v, Arr):
        return NotImplemented
    r = I.P.recs[c.ty.r]
    ty = r.ta[0]
    # element size agreement (the constructor enforces it for non-fast-indexing arrays; elsewhere it is an addressing requirement)
    ensure_leaves(I, v, ty)
    return AView(v, ty)


def avm_at(I, o, c):
    idx = to64(c.val(0))
    n = o.arr.numel(I)
    if idx.op in ('sum',):
        pass
    I.safety('view-index<numel', I.inb(idx, n))
    return LV(o.arr.store, o.arr.key(idx))


ARRCLS[AView] = lambda n: {'operator[]': avm_at, 'numel': lambda I, o, c: o.arr.numel(I)}.get(n)


def elsize(I, a):
    return to64(I.rv(I.call_method(a.ety.v, 'size')))


def a_as(I, o, c):
    ty = I.copyval(c.val(0))
    force = c.val(1) if len(c.args) > 1 else FALSE
    if not (force is TRUE):
        # contract of as(): same element size required
        s1 = I.call_method(o.ety.v, 'size')
        s2 = I.call_method(ty, 'size')
        I.require('as(): element sizes agree', eq(s1, s2))
    a = o.copy(I)
    a.ety = Cell(ty)
    return a


def snap_base(sn, pre=()):
    return lambda p, i: sn.at(i, p)


def a_clone(I, o, c):
    sn = Snap(I, o)
    nm = fresh('clone', 1).args[0]
    if o.store.leaves is None:
        return new_arr(I, I.copyval(o.ety.v), I.copyval(o.shape.v), 'clone')
    leaves = {p[len(o.path):]: w for p, w in o.store.leaves.items() if p[:len(o.path)] == o.path}
    s = SArr(nm, o.numel(I), leaves, snap_base(sn), o.store.rec)
    return Arr(s, Cell(I.copyval(o.ety.v)), Cell(I.copyval(o.shape.v)), None, (), nm)


def a_reshape(I, o, c):
    sh = I.copyval(c.val(0))
    I.require('reshape keeps the number of elements', eq(shape_numel(I, sh), o.numel(I)))
    a = o.copy(I)
    a.shape = Cell(sh)
    # row-major order is preserved, so element flat index is unchanged; the result may or may not share storage:
    # modelled as a view (writes through it would be flagged by the owner check)
    return a


def a_at(I, o, c):
    k = c.val(0)
    if not isinstance(k, T) or len(c.args) != 1 or not c.fn.ta:
        return NotImplemented
    ensure_leaves(I, o, c.fn.ta[0])
    k = to64(k)
    I.safety('element-in-range', or_(I.inb(k, o.numel(I)), eq(k, c64(0))))
    return LV(o.store, o.key(k))


def arr_methods(name):
    return ARR_METHODS.get(name)


ARR_METHODS = {
    'numel': lambda I, o, c: o.numel(I),
    'begin': lambda I, o, c: It(o.store, c64(0), ('arr', o)),
    'cbegin': lambda I, o, c: It(o.store, c64(0), ('arr', o)),
    'end': lambda I, o, c: It(o.store, o.numel(I), ('arr', o)),
    'cend': lambda I, o, c: It(o.store, o.numel(I), ('arr', o)),
    'shape': lambda I, o, c: LV(o.shape),
    'eltype': lambda I, o, c: LV(o.ety),
    'elsize': lambda I, o, c: elsize(I, o),
    'ndim': lambda I, o, c: length(I, I.unbase(o.shape.v)),
    'dim': lambda I, o, c: I.rv(elemlv(I, I.unbase(o.shape.v), to64(c.val(0)))),
    'as': a_as,
    'clone': a_clone,
    'at': a_at,
    'reshape': a_reshape,
    'canUseFastIndexing': lambda I, o, c: o.fast,
    'isCompact': lambda I, o, c: app('isCompact', [var(o.store.name, 1)], 0) if o.imap is not None or not o.store.name.startswith(('new', 'clone', 'priv', 'prss', 'publ', 'zeros', 'ones', 'rand')) else TRUE,
    'operator=': lambda I, o, c: (arr_assign(I, c), c.this)[1],
    'operator==': lambda I, o, c: (TRUE if c.val(0).store is o.store else FALSE),
    'strides': lambda I, o, c: LV(Cell(arr_strides(I, o))),
    'data': lambda I, o, c: o if c.fn is not None and IP.basename(c.fn) == 'spu::Value::data' else arr_data(I, o, c),
    'buf': lambda I, o, c: Ptr(Cell(ABuf(o))),
    'offset': lambda I, o, c: o.off if o.off is not None else fresh('offset', 64),
}
ARRCLS[Arr] = arr_methods


class ABuf:
    def __init__(self, a):
        self.a = a

    def copy(self, I):
        return self


ARRCLS[ABuf] = lambda n: {'size': lambda I, o, c: mul(o.a.numel(I), elsize(I, o.a)),
                          'data': lambda I, o, c: arr_data(I, o.a, c)}.get(n)


def it_scalar(I, o, c):
    """NdArrayRef::Iterator::getScalarValue<T>"""
    if not (isinstance(o, It) and isinstance(o.kind, tuple) and o.kind[0] == 'arr'):
        raise Unsupported('getScalarValue')
    a = o.kind[1]
    ty = c.fn.ta[0]
    ensure_leaves(I, a, ty)
    k = I.kt(o.k)
    I.safety('iterator-in-range', I.inb(k, a.numel(I)))
    return LV(a.store, a.key(k))


IT_METHODS['getScalarValue'] = it_scalar


def arr_assign(I, c):
    src = c.val(0)
    src = src.copy(I)
    I.store(c.this, src)


def arr_strides(I, a):
    if a.strides is None:
        sh = I.unbase(a.shape.v)
        if type(sh) is Vec and a.imap is None and a.name is not None and a.name.startswith('new'):
            # a freshly created array is compact: row-major strides, 0 along dimensions of size one
            st, acc = [], c64(1)
            for d in reversed(sh.items):
                one = I.known(eq(d, c64(1)))
                st.append(c64(0) if one is True else (acc if one is False or I.entails(not_(eq(d, c64(1)))) else ite(eq(d, c64(1)), c64(0), acc)))
                acc = mul(acc, d)
            return Vec(list(reversed(st)))
        raise Unsupported('strides of an abstract array')
    return Vec(list(a.strides))


def narrow(I, a, w, tw):
    """a compact array's words read as several narrower words each (little endian); a copy of the content, not to be written"""
    sn = Snap(I, a)
    lg = (w // tw).bit_length() - 1

    def base(p, i):
        word = sn.at(lshr(i, const(lg, 64)))
        part = band(i, const(w // tw - 1, 64))
        r = trunc(word, tw)
        for k in range(1, w // tw):
            r = ite(eq(part, const(k, 64)), trunc(lshr(word, const(k * tw, w)), tw), r)
        return r
    r = SArr(fresh('narrow', 1).args[0], mul(a.numel(I), const(w // tw, 64)), {(): tw}, base)
    r.tag = 'ro'
    return r


def arr_data(I, a, c):
    ta = c.fn.ta if c.fn is not None else None
    if ta and a.store.leaves is not None and set(a.store.leaves) == {()} and not a.path and a.imap is None:
        try:
            lv = leaves_of(I, ta[0])[0]
        except Unsupported:
            lv = {}
        w = a.store.leaves[()]
        if set(lv) == {()} and lv[()] < w and ta[0].s in ('unsigned char', 'unsigned short', 'unsigned int', 'unsigned long'):
            return Ptr(narrow(I, a, w, lv[()]), c64(0), ta[0])
    if a.off is not None:
        return Ptr(a.store, a.off, c.ty.t if c.ty is not None else None)
    # base address of a compact array: linear addressing of elements
    return Ptr(a.store if not a.path else Comp(a), c64(0), a)


class Comp(Proxy):
    """pointer to a component of a multi-component array"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a
        self.seq = nextseq()

    def load(self, I, k):
        return I.load(LV(self.a.store, self.a.key(k)))

    def store(self, I, k, v):
        I.store(LV(self.a.store, self.a.key(k)), v)


IP_OVERRIDES = {
    'spu::NdArrayRef::NdArrayRef': ndref_ctor,
    'spu::NdArrayView::NdArrayView': ndview_ctor,
}
LIBDEFAULT['spu::NdArrayRef'] = lambda I, r, z: Arr(SArr('null', c64(0), None), Cell(UNINIT), Cell(Vec([])))


def call_method(self, obj, name, args=(), lv=None):
    """call a (possibly virtual) zero-or-more-arg method by simple name on an object value"""
    this = lv or LV(Cell(obj))
    if not isinstance(obj, Obj):
        h = ARRCLS[type(obj)](name)
        return h(self, obj, Call(self, None, None, list(args), this, None, None))
    rec = obj.rec
    seen = []

    def cands(r):
        out = [f for f in self.P.fns.values() if f.rec == r.id and f.simple == name and len(f.params) == len(args)]
        if out:
            return out
        for b in self.P.bases(r):
            o = cands(b)
            if o:
                return o
        return []
    cs = self.P.mcache.get((rec.id, name, len(args)))
    if cs is None:
        cs = cands(rec)
        self.P.mcache[(rec.id, name, len(args))] = cs
    cs = [f for f in cs if f.hasbody or f.virt] or cs
    if not cs:
        raise Unsupported('no method %s::%s' % (rec.id, name))
    fn = cs[0]
    if fn.virt:
        f2 = self.P.vresolve(rec, fn.id)
        fn = self.P.fns[f2] if f2 else fn
    return self.call(fn, list(args), this, fn.ret, None, None)


Interp.call_method = call_method


def require(self, name, goal):
    """a callee's precondition at a call site: an obligation of the caller, then assumed"""
    k = self.known(goal)
    if k is True:
        return
    self.checks.append(('requires: ' + name, goal, list(self.pc)))
    if goal is FALSE:
        raise Throw('precondition violated: ' + name)
    self.assume(goal)


Interp.require = require
