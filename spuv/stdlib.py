"""Trusted models of the C++ standard library / absl / fmt pieces the code under proof uses."""
import os
from .terms import *
from . import terms as TM
from .interp import *
from . import interp as IP
from .interp import builtin, BUILTINS, ARRM, LIBDEFAULT, GENERIC, ARRCLS


def c64(n):
    return const(n, 64)


def boolt(b):
    return TRUE if b else FALSE


def retw(c, v):
    """adjust constant to the call's return type width"""
    return v


# ---------------------------------------------------------------- defaults
def d_vec(I, r, zero):
    return Vec([], r.ta[0] if r.ta else None)


def d_array(I, r, zero):
    return Vec([I.default(r.ta[0], zero) for _ in range(r.ta[1])], r.ta[0])


LIBDEFAULT.update({
    'std::vector': d_vec,
    'std::deque': d_vec,
    'std::list': d_vec,
    'absl::InlinedVector': d_vec,
    'std::array': d_array,
    'std::basic_string': lambda I, r, z: '',
    'std::basic_string_view': lambda I, r, z: '',
    'std::shared_ptr': lambda I, r, z: NULL,
    'std::unique_ptr': lambda I, r, z: NULL,
    'std::weak_ptr': lambda I, r, z: NULL,
    'std::optional': lambda I, r, z: Opt(FALSE, None),
    'std::map': lambda I, r, z: Map({}, r.ta[0], r.ta[1]),
    'std::unordered_map': lambda I, r, z: Map({}, r.ta[0], r.ta[1]),
    'absl::flat_hash_map': lambda I, r, z: Map({}, r.ta[0], r.ta[1]),
    'std::set': lambda I, r, z: Map({}, r.ta[0], None),
    'std::unordered_set': lambda I, r, z: Map({}, r.ta[0], None),
    'absl::Span': lambda I, r, z: Span(None, 0, c64(0), r.ta[0] if r.ta else None),
    'std::function': lambda I, r, z: NULL,
    'std::tuple': lambda I, r, z: Vec([I.default(t, z) for t in r.ta if not isinstance(t, int)]),
    'std::mutex': lambda I, r, z: Opaque('mutex'),
    'std::once_flag': lambda I, r, z: Opaque('once_flag'),
    'std::recursive_mutex': lambda I, r, z: Opaque('mutex'),
    'std::shared_mutex': lambda I, r, z: Opaque('mutex'),
    'std::lock_guard': lambda I, r, z: Opaque('lock'),
    'std::unique_lock': lambda I, r, z: Opaque('lock'),
    'std::atomic': lambda I, r, z: Cell(I.default(r.ta[0], True)),
    'std::any': lambda I, r, z: Opt(FALSE, None),
    'std::allocator': lambda I, r, z: Opaque('alloc'),
    'std::initializer_list': d_vec,
    'std::complex': lambda I, r, z: Vec([I.default(r.ta[0], True), I.default(r.ta[0], True)]),
})


class Span:
    """absl::Span / pointer+length view (immutable value)"""
    __slots__ = ('c', 'off', 'n', 'ety', 'bad')

    def __init__(self, c, off, n, ety=None):
        self.c, self.off, self.n, self.ety = c, off, n, ety

    def copy(self, I):
        return self

    def __repr__(self):
        return 'Span(%r,%r,%r)' % (self.c, self.off, self.n)

    def at(self, I, i):
        k = I.keyadd(self.off, i)
        return LV(self.c, k)

    def iterate(self, I):
        if is_c(self.n):
            return [self.at(I, c64(i)) for i in range(cval(self.n))]
        return ('sym', self.n, lambda k: self.at(I, k))


def length(I, v):
    if type(v) is Vec:
        return c64(len(v.items))
    if type(v) is SArr:
        return v.n
    if type(v) is Span:
        return v.n
    if isinstance(v, str):
        n = c64(0)
        for ch in v:
            if ord(ch) >= 0xF0000:
                k = ATOMLIST[ord(ch) - 0xF0000]
                if getattr(I, 'strparts', False):
                    return c64(len(v))      # lengths counted in parts
                x = var('strlen%d' % (ord(ch) - 0xF0000), 64)
                I.fact(ult(x, c64(1 << 32)))
                if k[0] != 'str':
                    I.fact(ult(c64(0), x))
                n = add(n, x)
            else:
                n = add(n, c64(1))
        return n
    if type(v) is Map:
        return c64(len(v.d))
    f = getattr(v, 'length', None)
    if f is not None:
        return f(I)
    raise Unsupported('length of %r' % (v,))


def elemlv(I, v, i):
    if type(v) is Vec:
        if is_c(i):
            return LV(v, sval(i))
        return LV(v, i)
    if type(v) is SArr:
        return LV(v, i)
    if type(v) is Span:
        return v.at(I, i)
    raise Unsupported('element of %r' % (v,))


def to64(t):
    return t if t.w == 64 else (sext(t, 64) if t.w < 64 else trunc(t, 64))


def itpair_to_list(I, a, b):
    """elements in iterator range as list of LV (concrete length)"""
    a, b = asit(I, a), asit(I, b)
    if isinstance(a.kind, tuple) or isinstance(b.kind, tuple):
        raise Unsupported('extents of an abstract shape')
    n = sub(I.kt(b.k), I.kt(a.k))
    if not is_c(n):
        raise Unsupported('symbolic iterator range')
    n = sval(n)
    if a.kind == 'rev':
        return [LV(a.c, I.keyadd(a.k, c64(-1 - 0 - i)) if False else revkey(I, a, i)) for i in range(n)]
    return [LV(a.c, I.keyadd(a.k, c64(i))) for i in range(n)]


def revkey(I, a, i):
    # reverse iterator with position k refers to element -k-1 ... stored as negative index
    return -(a.k + i) - 1


def asit(I, v):
    v = I.rv(v)
    if isinstance(v, (It, Ptr)):
        return v if isinstance(v, It) else It(v.c, v.k, 'vec')
    raise Unsupported('iterator %r' % (v,))


def itlv(I, it):
    if it.kind == 'rev':
        return LV(it.c, revkey(I, it, 0))
    return LV(it.c, it.k)


def seq_len_concrete(I, v):
    n = length(I, v)
    if not is_c(n):
        raise Unsupported('symbolic length')
    return cval(n)


def elems(I, v):
    v = I.unbase(I.rv(v))
    if type(v) is Vec:
        return list(v.items)
    if isinstance(v, str):
        return [const(ord(ch), 8) for ch in v]
    n = seq_len_concrete(I, v)
    return [I.load(elemlv(I, v, c64(i))) for i in range(n)]


# ---------------------------------------------------------------- equality / comparison of values
def hash_str(s):
    return str_atom(('strid', s)).encode('utf-32-le')[0] | (ord(str_atom(('strid', s))) & 0xffff) << 8


def eqval(I, a, b):
    a, b = I.rv(a), I.rv(b)
    a, b = I.unbase(a), I.unbase(b)
    if isinstance(a, Ptr) and a.extra is not None and isinstance(a.extra, str):
        a = a.extra
    if isinstance(b, Ptr) and b.extra is not None and isinstance(b.extra, str):
        b = b.extra
    if isinstance(a, T) and isinstance(b, T):
        if a.w == 0:
            return not_(xor_b(a, b))
        if a.w < 0:
            return TM.build('fp.eq', (a, b), 0)
        if a.w != b.w:
            w = max(a.w, b.w)
            a = sext(a, w) if a.w < w else a
            b = sext(b, w) if b.w < w else b
        return eq(a, b)
    if isinstance(a, str) and isinstance(b, str):
        if a != b and (a == '' or b == ''):
            return eq(length(I, a + b), c64(0))
        if a != b and (has_atoms(a) or has_atoms(b)):
            a, b = sorted((a, b))
            return app('streq', [const(hash_str(a), 64), const(hash_str(b), 64)], 0)
        return boolt(a == b)
    if isinstance(a, (Ptr, It)) and isinstance(b, (Ptr, It)):
        return I.ptr_eq(a, b)
    h = getattr(a, 'equals', None) or getattr(b, 'equals', None)
    if h is not None:
        return a.equals(I, b) if getattr(a, 'equals', None) else b.equals(I, a)
    if isinstance(a, (Vec, Span)) and isinstance(b, (Vec, Span)):
        la, lb = length(I, a), length(I, b)
        if not (is_c(la) and is_c(lb)):
            raise Unsupported('== of symbolic sequences')
        if la is not lb:
            return FALSE
        ea, eb = elems(I, a), elems(I, b)
        return and_(*[eqval(I, x, y) for x, y in zip(ea, eb)])
    if type(a) is Obj and type(b) is Obj:
        # std::pair and friends
        return and_(*[eqval(I, a.f[k], b.f[k]) for k in a.f])
    if type(a) is Opt and type(b) is Opt:
        if a.has is FALSE and b.has is FALSE:
            return TRUE
        if a.has is TRUE and b.has is TRUE:
            return eqval(I, a.v, b.v)
        return FALSE
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == 'typeid' == b.tag:
        return boolt(a.name == b.name)
    raise Unsupported('== of %r and %r' % (a, b))


def free_eq(I, c):
    return eqval(I, c.args[0], c.args[1] if len(c.args) > 1 else c.this)


def g_eq(I, c):
    a = ([c.this] if c.this is not None else []) + list(c.args)
    return eqval(I, a[0], a[1])


def g_ne(I, c):
    return not_(g_eq(I, c))


def g_lt(I, c):
    a = ([c.this] if c.this is not None else []) + list(c.args)
    x, y = I.rv(a[0]), I.rv(a[1])
    if isinstance(x, str) and isinstance(y, str):
        return boolt(x < y)
    if isinstance(x, (It, Ptr)):
        return slt(I.kt(x.k), I.kt(y.k))
    raise Unsupported('operator<')


def g_minus(I, c):
    a = ([c.this] if c.this is not None else []) + list(c.args)
    x, y = I.rv(a[0]), I.rv(a[1])
    if isinstance(x, (It, Ptr)) and isinstance(y, (It, Ptr)):
        return sub(I.kt(x.k), I.kt(y.k))
    if isinstance(x, (It, Ptr)) and isinstance(y, T):
        return I.ptr_add(x, neg(to64(y)))
    return NotImplemented


def g_plus(I, c):
    a = ([c.this] if c.this is not None else []) + list(c.args)
    x, y = I.rv(a[0]), I.rv(a[1])
    if isinstance(x, (It, Ptr)) and isinstance(y, T):
        return I.ptr_add(x, to64(y))
    if isinstance(x, Ptr) and isinstance(x.extra, str):
        x = x.extra
    if isinstance(y, Ptr) and isinstance(y.extra, str):
        y = y.extra
    if isinstance(x, str) and isinstance(y, str):
        return x + y
    if isinstance(x, str) or isinstance(y, str):
        return '?'
    return NotImplemented


GENERIC.update({'operator==': g_eq, 'operator!=': g_ne, 'operator<': g_lt, 'operator-': g_minus, 'operator+': g_plus})


# ---------------------------------------------------------------- iterators and pointers as method receivers
def it_method(name):
    return IT_METHODS.get(name)


def m_deref(I, o, c):
    if isinstance(o, It):
        if o.kind == 'map':
            return LV(Cell(MapEntry(o.c, list(o.c.d)[o.k])))
        return itlv(I, o)
    return I.deref(o)


def m_arrow(I, o, c):
    if isinstance(o, It):
        if o.kind == 'map':
            return Ptr(Cell(MapEntry(o.c, list(o.c.d)[o.k])))
        lv = itlv(I, o)
        return Ptr(lv.c, lv.k)
    return o


def m_inc(d):
    def f(I, o, c):
        step = c64(d)
        n = I.ptr_add(o, step)
        I.store(c.this, n)
        return o if len(c.args) == 1 else c.this
    return f


def m_advance(sgn):
    def f(I, o, c):
        v = to64(c.val(0))
        n = I.ptr_add(o, v if sgn > 0 else neg(v))
        I.store(c.this, n)
        return c.this
    return f


def m_reset(I, o, c):
    I.store(c.this, c.val(0) if c.args else NULL)
    return None


IT_METHODS = {
    'operator*': m_deref, 'operator->': m_arrow, 'operator++': m_inc(1), 'operator--': m_inc(-1),
    'operator+=': m_advance(1), 'operator-=': m_advance(-1),
    'operator+': lambda I, o, c: I.ptr_add(o, to64(c.val(0))),
    'operator-': lambda I, o, c: (sub(I.kt(o.k), I.kt(c.val(0).k)) if isinstance(c.val(0), (It, Ptr)) else I.ptr_add(o, neg(to64(c.val(0))))),
    'operator[]': lambda I, o, c: I.deref(I.ptr_add(o, to64(c.val(0)))),
    'operator==': lambda I, o, c: eqval(I, o, c.args[0]),
    'operator!=': lambda I, o, c: not_(eqval(I, o, c.args[0])),
    'operator<': lambda I, o, c: slt(I.kt(o.k), I.kt(c.val(0).k)),
    'get': lambda I, o, c: o, 'operator bool': lambda I, o, c: boolt(o.c is not None),
    'reset': m_reset, 'lock': lambda I, o, c: o, 'release': lambda I, o, c: o,
    'base': lambda I, o, c: o,
    'use_count': lambda I, o, c: c64(1),
    'operator=': lambda I, o, c: (I.store(c.this, c.val(0)), c.this)[1],
    'operator()': lambda I, o, c: I.call_value(o, c.args),
}
ARRCLS[It] = it_method
ARRCLS[Ptr] = it_method


def closure_method(name):
    return {'operator()': lambda I, o, c: I.call_value(o, c.args, c.ty, c.node, c.fr),
            'operator bool': lambda I, o, c: TRUE,
            'operator=': lambda I, o, c: (I.store(c.this, c.val(0)), c.this)[1]}.get(name)


for k in (Closure, FnPtr, PyFn):
    ARRCLS[k] = closure_method


# ---------------------------------------------------------------- sequences
def m_size(I, o, c):
    n = length(I, o)
    w = c.ty.w if c.ty is not None and c.ty.k == 'int' else 64
    return n if w == 64 else trunc(n, w)


def m_at(I, o, c):
    i = to64(c.val(0))
    if isinstance(o, str):
        if is_c(i):
            return LV(Cell(const(ord(o[cval(i)]) if cval(i) < len(o) else 0, 8)))
        p = StrProxy(o)
        return LV(p, i)
    if type(o) is Span or type(o) is SArr:
        n = length(I, o)
        if n is not None:
            I.safety('index-in-bounds', I.inb(i, n))
    elif type(o) is Vec:
        if is_c(i) and not (0 <= sval(i) < len(o.items)):
            I.safety('index-in-bounds', FALSE)
            raise Throw('index out of bounds')
    return elemlv(I, o, i)


def m_begin(I, o, c):
    if type(o) is Map:
        return It(o, 0, 'map')
    if isinstance(o, str):
        return It(StrProxy(o), 0)
    if type(o) is Span:
        return It(o.c, o.off)
    if type(o) is SArr:
        return It(o, c64(0))
    return It(o, 0)


def m_end(I, o, c):
    if type(o) is Map:
        return It(o, len(o.d), 'map')
    if isinstance(o, str):
        return It(StrProxy(o), len(o))
    if type(o) is Span:
        return It(o.c, I.keyadd(o.off, o.n))
    if type(o) is SArr:
        return It(o, o.n)
    return It(o, len(o.items))


def m_rbegin(I, o, c):
    return It(RevView(o), 0)


def m_rend(I, o, c):
    return It(RevView(o), len(o.items))


class RevView(Proxy):
    """reversed view of a Vec; index i -> element n-1-i"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.seq = nextseq()

    def load(self, I, k):
        if isinstance(k, T):
            k = I.choose_int(k, 'reverse index')
        n = len(self.v.items)
        if not 0 <= k < n:
            I.safety('index-in-bounds', FALSE)
            raise Throw('reverse iterator out of range')
        return self.v.items[n - 1 - k]

    def store(self, I, k, v):
        I.setc(self.v, len(self.v.items) - 1 - k, v)

    def same(self, o):
        return isinstance(o, RevView) and o.v is self.v


def m_push(I, o, c):
    v = I.copyval(c.val(0))
    if isinstance(o, str):
        I.store(c.this, o + (chr(cval(v)) if is_c(v) else '?'))
        return None
    I.setc(o, '%items', o.items + [v])
    return None


def m_emplace_back(I, o, c):
    et = o.ety
    v = construct_from(I, et, c.args, c)
    I.setc(o, '%items', o.items + [v])
    return LV(o, len(o.items) - 1)


def construct_from(I, et, args, c):
    """T(args...)"""
    if et is None:
        return I.copyval(I.rv(args[0]))
    if et.k in ('int', 'enum', 'bool', 'float'):
        if not args:
            return I.default(et, True)
        v = I.rv(args[0])
        return conv_w(I, v, et, args[0])
    if et.k in ('ptr',):
        return I.rv(args[0]) if args else NULL
    if et.k == 'rec':
        r = I.P.recs[et.r]
        rn = strip_targs(r.name)
        vals = [I.rv(a) for a in args]
        if len(vals) == 1:
            v = vals[0]
            if type(v) is Obj and v.rec is not None and I.P.derives(v.rec, r.id):
                return I.copyval(v)
            if not isinstance(v, (T, Obj)) and (rn in LIBDEFAULT or hasattr(v, 'is_rec') and v.is_rec(rn)):
                if rn in ('std::shared_ptr', 'std::unique_ptr', 'std::function', 'std::basic_string') or type(v) in (Vec, Map, Opt, Span, SArr):
                    return I.copyval(v)
                return I.copyval(v)
        if not args:
            return I.default_construct(et)
        if rn == 'std::pair':
            return Obj(r, {'first': I.copyval(vals[0]), 'second': I.copyval(vals[1])})
        if rn == 'std::tuple':
            return Vec([I.copyval(v) for v in vals])
        h = I.overrides.get('%s::%s' % (rn, rn.split('::')[-1]))
        if h is not None and r.full is not None and rn == 'yacl::Buffer':
            v = h(I, Call(I, c.fr, c.fn, args, None, et, None))
            if v is not NotImplemented:
                return v
        # find a matching constructor in the program
        cands = [f for f in I.P.fns.values() if f.ctor and f.rec == r.id and len(f.params) == len(args) and not f.copy and not f.move]
        cands = [f for f in cands if all(argfits(I, v, t) for v, (_, _, t) in zip(vals, f.params))]
        if len(cands) >= 1:
            return I.construct(et, cands[0], args, None, c.fr)
        for f in I.P.fns.values():
            # default arguments
            if f.ctor and f.rec == r.id and len(f.params) > len(args) and all(d is not None for d in f.dargs[len(args):]) and all(argfits(I, v, t) for v, (_, _, t) in zip(vals, f.params)):
                fr = IP.Frame(f, f.tu)
                return I.construct(et, f, list(args) + [I.ev(d, fr) for d in f.dargs[len(args):]], None, c.fr)
        if rn in LIBDEFAULT and rn == 'std::vector':
            return b_vector_ctor(I, Call(I, c.fr, c.fn, args, None, et, None))
        if r.full and not r.bases_t and len(r.fields) == len(vals):
            return Obj(r, {fd['n']: I.copyval(v) for fd, v in zip(r.fields, vals)})
        if len(args) == 1:
            return I.copyval(vals[0])
    raise Unsupported('construct %s from %d args' % (et.s, len(args)))


def argfits(I, v, t):
    if t.k == 'ref':
        t = t.t
    if isinstance(v, T):
        return t.k in ('int', 'enum', 'bool', 'float') and (v.w == {'bool': 0, 'float': -(t.w or 0)}.get(t.k, t.w) or (t.k != 'float') == (v.w >= 0))
    if isinstance(v, str):
        return 'string' in t.s or 'char' in t.s
    if type(v) is Obj and v.rec is not None:
        return t.k == 'rec' and I.P.derives(v.rec, t.r)
    return t.k in ('rec', 'ptr')


def conv_w(I, v, et, a=None):
    if et.k == 'float' or v.w < 0:
        if et.k == 'float' and v.w == -et.w:
            return v
        raise Unsupported('float conversion in library call')
    if et.k == 'bool':
        return I.tobool(v)
    if v.w == et.w:
        return v
    if v.w == 0:
        return b2bv(v, et.w)
    if v.w > et.w:
        return trunc(v, et.w)
    # source signedness unknown here: accept constants and zero-extended values
    if is_c(v):
        return const(sval(v), et.w)
    raise Unsupported('widening in library call')


def default_construct(self, et):
    if et.k == 'rec':
        r = self.P.recs[et.r]
        if r.full and strip_targs(r.name) not in LIBDEFAULT:
            c = [f for f in self.P.fns.values() if f.ctor and f.rec == r.id and not f.params]
            o = Obj(r, {})
            if c:
                self.run_ctor(c[0], [], o, None)
            else:
                # T() without a user-provided constructor: zero-initialisation, then the default member initialisers
                self.fill_bases(o, r, True)
                self.fill_bases_default(o, r)
            return o
    return self.default(et, True)


Interp.default_construct = default_construct


def m_resize(I, o, c):
    n = c.val(0)
    if isinstance(o, str):
        n = I.choose_int(n, 'string size')
        I.store(c.this, (o + '\0' * n)[:n])
        return None
    if type(o) is SArr or not is_c(n):
        a = I.sarr_new('vec', to64(n), o.ety)
        I.store(c.this, a)
        return None
    n = cval(n)
    if n > 1 << 16:
        raise Unsupported('huge resize')
    items = list(o.items[:n])
    fill = c.val(1) if len(c.args) > 1 else None
    while len(items) < n:
        items.append(I.copyval(fill) if fill is not None else I.default_construct(o.ety))
    I.setc(o, '%items', items)
    return None


def m_clear(I, o, c):
    if isinstance(o, str):
        I.store(c.this, '')
    elif type(o) is Map:
        I.setc(o, '%d', {})
    else:
        I.setc(o, '%items', [])
    return None


def m_pop_back(I, o, c):
    if isinstance(o, str):
        I.store(c.this, o[:-1])
        return None
    if not o.items:
        I.safety('pop-nonempty', FALSE)
        raise Throw('pop_back on empty')
    I.setc(o, '%items', o.items[:-1])
    return None


def m_assign(I, o, c):
    if type(c.val(0)) in (It, Ptr):
        a, b = asit(I, c.args[0]), asit(I, c.args[1])
        if type(a.c) is SArr and b.c is a.c and a.kind != 'rev':
            src, lay, off = a.c, list(a.c.layers), I.kt(a.k)
            n = sub(I.kt(b.k), off)
            I.safety('iterator range within the container', and_(sle(c64(0), off), sle(c64(0), n), sle(I.kt(b.k), src.n)))
            I.store(c.this, SArr(fresh('asg', 1).args[0], n, dict(src.leaves), lambda p, i: I.layers_read(src, lay, add(off, i), p), src.rec, src.ety))
            return None
        I.setc(o, '%items', [I.copyval(I.load(x)) for x in itpair_to_list(I, c.args[0], c.args[1])])
        return None
    if type(c.val(0)) is Vec:
        I.setc(o, '%items', list(I.copyval(c.val(0)).items))
        return None
    n = I.choose_int(c.val(0), 'assign count')
    I.setc(o, '%items', [I.copyval(c.val(1)) for _ in range(n)])
    return None


def m_insert(I, o, c):
    if type(o) is Map:
        return map_insert(I, o, c)
    it = c.val(0)
    pos = it.k
    if not isinstance(pos, int):
        raise Unsupported('symbolic insert position')
    a1 = c.val(1)
    if len(c.args) == 3 and isinstance(a1, (It, Ptr)):
        new = [I.copyval(I.load(x)) for x in itpair_to_list(I, c.args[1], c.args[2])]
    elif len(c.args) == 3:
        new = [I.copyval(c.val(2)) for _ in range(I.choose_int(a1, 'insert count'))]
    elif type(a1) is Vec and o.ety is not None and c.fn.params[1][2].s.startswith('std::initializer_list'):
        new = list(a1.items)
    else:
        new = [I.copyval(a1)]
    I.setc(o, '%items', o.items[:pos] + new + o.items[pos:])
    return It(o, pos)


def m_erase(I, o, c):
    a = c.val(0)
    if type(o) is Map:
        d = dict(o.d)
        if isinstance(a, It):
            del d[list(d)[a.k]]
            I.setc(o, '%d', d)
            return a
        k = mkkey(a)
        n = 1 if k in d else 0
        d.pop(k, None)
        I.setc(o, '%d', d)
        return c64(n)
    p = a.k
    q = c.val(1).k if len(c.args) > 1 else p + 1
    I.setc(o, '%items', o.items[:p] + o.items[q:])
    return It(o, p)


def m_fill(I, o, c):
    if type(o) is not Vec:
        raise Unsupported('fill')
    I.setc(o, '%items', [I.copyval(c.val(0)) for _ in o.items])
    return None


def m_data(I, o, c):
    if isinstance(o, str):
        return Ptr(StrProxy(o), c64(0), o)
    if type(o) is Span:
        return Ptr(o.c, o.off) if o.c is not None else NULL
    if type(o) is SArr:
        return Ptr(o, c64(0))
    return Ptr(o, 0)


def m_seq_assign(I, o, c):
    v = I.unbase(c.val(0))
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        v = v.extra
    thisv = I.rv(c.this)
    if type(thisv) is Obj:
        I.setc(thisv, '%base', I.copyval(v))
        return c.this
    if type(o) is Vec and type(v) is Vec:
        # keep identity of the container object
        I.setc(o, '%items', I.copyval(v).items)
        return c.this
    if type(o) is Map and type(v) is Map:
        I.setc(o, '%d', I.copyval(v).d)
        return c.this
    I.store(c.this, I.copyval(v))
    return c.this


def m_swap(I, o, c):
    a = I.rv(c.this)
    b = c.val(0)
    I.assign(c.this, b)
    I.assign(c.args[0], a)
    return None


def m_back(I, o, c):
    if type(o) is Vec:
        if not o.items:
            I.safety('back-nonempty', FALSE)
            raise Throw('back() on empty')
        return LV(o, len(o.items) - 1)
    if isinstance(o, str):
        return LV(Cell(const(ord(o[-1]), 8)))
    return elemlv(I, o, sub(length(I, o), c64(1)))


def m_front(I, o, c):
    if type(o) is Vec and not o.items:
        I.safety('front-nonempty', FALSE)
        raise Throw('front() on empty')
    return elemlv(I, o, c64(0)) if not isinstance(o, str) else LV(Cell(const(ord(o[0]), 8)))


def m_subspan(I, o, c):
    off = to64(c.val(0))
    if type(o) is Span:
        rest = sub(o.n, off)
        n = rest
        if len(c.args) > 1 and not (is_c(c.val(1)) and cval(c.val(1)) == mask(64)):
            # the length is cut at the end of the span
            n = to64(c.val(1))
            k = I.known(ule(n, rest))
            n = n if k is True else rest if k is False else ite(ule(n, rest), n, rest)
        return Span(o.c, I.keyadd(o.off, off), n, o.ety)
    raise Unsupported('subspan')


SEQ = {
    'size': m_size, 'length': m_size, 'ssize': m_size, 'empty': lambda I, o, c: eq(length(I, o), c64(0)), 'operator[]': m_at, 'at': m_at,
    'begin': m_begin, 'end': m_end, 'cbegin': m_begin, 'cend': m_end, 'rbegin': m_rbegin, 'rend': m_rend, 'crbegin': m_rbegin, 'crend': m_rend,
    'push_back': m_push, 'emplace_back': m_emplace_back, 'resize': m_resize, 'reserve': lambda I, o, c: None, 'shrink_to_fit': lambda I, o, c: None,
    'clear': m_clear, 'pop_back': m_pop_back, 'assign': m_assign, 'insert': m_insert, 'erase': m_erase, 'fill': m_fill, 'data': m_data,
    'operator=': m_seq_assign, 'swap': m_swap, 'back': m_back, 'front': m_front, 'subspan': m_subspan, 'capacity': m_size,
    'operator==': lambda I, o, c: eqval(I, o, c.args[0]), 'operator!=': lambda I, o, c: not_(eqval(I, o, c.args[0])),
    'first': lambda I, o, c: Span(o.c, o.off, to64(c.val(0)), o.ety),
    'max_size': lambda I, o, c: c64((1 << 60) - 1),
    'emplace_front': lambda I, o, c: I.setc(o, '%items', [construct_from(I, o.ety, c.args, c)] + o.items),
    'push_front': lambda I, o, c: I.setc(o, '%items', [I.copyval(c.val(0))] + o.items),
    'pop_front': lambda I, o, c: I.setc(o, '%items', o.items[1:]),
    'c_str': m_data,
    'get_allocator': lambda I, o, c: Opaque('alloc'),
}
for k in (Vec, SArr, Span):
    ARRCLS[k] = lambda name: SEQ.get(name)


def s_append(I, o, c):
    v = c.val(0)
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        v = v.extra
    if isinstance(v, T):
        v = chr(cval(v)) if is_c(v) and cval(v) else '?'
    if not isinstance(v, str):
        v = '?'
    I.store(c.this, o + v)
    return c.this


def s_find(I, o, c):
    v = c.val(0)
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        v = v.extra
    if isinstance(v, T):
        v = chr(cval(v))
    st = cval(c.val(1)) if len(c.args) > 1 else 0
    r = o.find(v, st)
    return const(r, 64)


def s_needle(I, c):
    v = c.val(0)
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        v = v.extra
    if isinstance(v, T):
        v = chr(cval(v))
    if not isinstance(v, str):
        v = render(I, v)
    return v


def s_find_of(last, inv):
    def h(I, o, c):
        v = s_needle(I, c)
        if len(c.args) > 1 and not (is_c(c.val(1)) and cval(c.val(1)) in (0, mask(64))):
            raise Unsupported('search from a position')
        hits = [i for i, ch in enumerate(o) if (ch in v) != inv]
        return const((hits[-1] if last else hits[0]) if hits else -1, 64)
    return h


def s_rfind(I, o, c):
    if len(c.args) > 1:
        raise Unsupported('search from a position')
    return const(o.rfind(s_needle(I, c)), 64)


def s_pre(suffix):
    def h(I, o, c):
        v = s_needle(I, c)
        return boolt(o.endswith(v) if suffix else o.startswith(v))
    return h


def s_drop(I, o, c):
    n = cval(c.val(0))
    I.store(c.this, o[:len(o) - n])


def s_substr(I, o, c):
    a = I.choose_int(c.val(0), 'substr') if c.args else 0
    n = I.choose_int(c.val(1), 'substr') if len(c.args) > 1 else len(o)
    if a > len(o):
        raise Throw('out_of_range')
    return o[a:a + n]


STR = dict(SEQ)
STR.update({'operator+=': s_append, 'append': s_append, 'find': s_find, 'substr': s_substr, 'operator basic_string_view': lambda I, o, c: o,
            'compare': lambda I, o, c: const((o > c.val(0)) - (o < c.val(0)), 32), 'remove_prefix': lambda I, o, c: I.store(c.this, o[cval(c.val(0)):]),
            'remove_suffix': s_drop, 'find_first_of': s_find_of(False, False), 'find_last_of': s_find_of(True, False), 'find_first_not_of': s_find_of(False, True),
            'find_last_not_of': s_find_of(True, True), 'rfind': s_rfind, 'starts_with': s_pre(False), 'ends_with': s_pre(True)})


def str_method(name):
    if name.startswith('operator basic_string_view') or name.startswith('operator std::basic_string_view') or name.startswith('operator std::string_view'):
        return lambda I, o, c: o
    return STR.get(name)


ARRCLS[str] = str_method


# ---------------------------------------------------------------- maps
def map_find(I, o, c):
    k = mkkey(c.val(0))
    ks = list(o.d)
    return It(o, ks.index(k) if k in o.d else len(ks), 'map')


def map_index(I, o, c):
    k = mkkey(c.val(0))
    if k not in o.d:
        I.setc(o, '%d', {**o.d, k: I.default_construct(o.vty)})
    return LV(o, k)


def map_at(I, o, c):
    k = mkkey(c.val(0))
    if k not in o.d:
        raise Throw('map::at')
    return LV(o, k)


def map_insert(I, o, c):
    v = c.val(0)
    if o.vty is None:
        k = mkkey(v)
        had = k in o.d
        if not had:
            I.setc(o, '%d', {**o.d, k: None})
        return Obj(None, {'first': It(o, list(o.d).index(k), 'map'), 'second': boolt(not had)})
    k = mkkey(v.f['first'])
    had = k in o.d
    if not had:
        I.setc(o, '%d', {**o.d, k: I.copyval(v.f['second'])})
    return Obj(None, {'first': It(o, list(o.d).index(k), 'map'), 'second': boolt(not had)})


def map_emplace(I, o, c):
    k = mkkey(c.val(0))
    had = k in o.d
    if not had:
        v = construct_from(I, o.vty, c.args[1:], c) if o.vty is not None else None
        I.setc(o, '%d', {**o.d, k: v})
    return Obj(None, {'first': It(o, list(o.d).index(k), 'map'), 'second': boolt(not had)})


MAPM = {'find': map_find, 'operator[]': map_index, 'at': map_at, 'insert': map_insert, 'emplace': map_emplace, 'try_emplace': map_emplace,
        'end': m_end, 'begin': m_begin, 'cend': m_end, 'cbegin': m_begin, 'size': m_size, 'empty': SEQ['empty'], 'clear': m_clear, 'erase': m_erase,
        'contains': lambda I, o, c: boolt(mkkey(c.val(0)) in o.d), 'count': lambda I, o, c: c64(1 if mkkey(c.val(0)) in o.d else 0),
        'operator=': m_seq_assign, 'insert_or_assign': lambda I, o, c: I.setc(o, '%d', {**o.d, mkkey(c.val(0)): I.copyval(c.val(1))})}
ARRCLS[Map] = lambda name: MAPM.get(name)


# ---------------------------------------------------------------- optional
def o_value(I, o, c):
    if I.branch(o.has):
        return LV(o, 'v')
    if c.fn.simple == 'value':
        raise Throw('bad_optional_access')
    I.safety('optional-engaged', FALSE)
    raise Throw('empty optional dereferenced')


def o_assign(I, o, c):
    v = c.val(0)
    if type(v) is Opt:
        I.setc(o, 'has', v.has)
        I.setc(o, 'v', I.copyval(v.v))
    elif isinstance(v, Opaque) and v.tag == 'nullopt':
        I.setc(o, 'has', FALSE)
    else:
        I.setc(o, 'v', I.copyval(v))
        I.setc(o, 'has', TRUE)
    return c.this


def o_reset(I, o, c):
    I.setc(o, 'has', FALSE)


def o_value_or(I, o, c):
    if I.branch(o.has):
        return I.copyval(o.v)
    return I.copyval(c.val(0))


def o_emplace(I, o, c):
    I.setc(o, 'v', construct_from(I, None if len(c.args) == 1 else c.fn, c.args, c))
    I.setc(o, 'has', TRUE)
    return LV(o, 'v')


OPTM = {'has_value': lambda I, o, c: o.has, 'operator bool': lambda I, o, c: o.has, 'value': o_value, 'operator*': o_value,
        'operator->': lambda I, o, c: I.addr(o_value(I, o, c)), 'operator=': o_assign, 'reset': o_reset, 'value_or': o_value_or, 'emplace': o_emplace}
ARRCLS[Opt] = lambda name: OPTM.get(name)


@builtin('std::optional::optional')
def b_optional(I, c):
    if not c.args:
        return Opt(FALSE, None)
    v = c.val(0)
    if type(v) is Opt:
        return I.copyval(v)
    if isinstance(v, Opaque) and v.tag == 'nullopt' or (isinstance(v, Opaque) and 'nullopt' in v.tag):
        return Opt(FALSE, None)
    return Opt(TRUE, I.copyval(v))


GLOBALS['std::nullopt'] = lambda I: Opaque('nullopt')


# ---------------------------------------------------------------- constructors
@builtin('std::map::map', 'std::unordered_map::unordered_map')
def b_map_ctor(I, c):
    r = I.P.recs[c.ty.r]
    if c.args:
        v = I.unbase(I.rv(c.args[0]))
        if type(v) is not Map:
            raise Unsupported('map constructor')
        return Map(dict(v.d), v.kty, v.vty)
    return Map({}, r.ta[0], r.ta[1])


@builtin('std::vector::vector', 'std::initializer_list::initializer_list', 'std::deque::deque', 'std::list::list', 'absl::InlinedVector::InlinedVector')
def b_vector_ctor(I, c):
    r = I.P.recs[c.ty.r]
    et = r.ta[0] if r.ta else None
    args = [x for x in c.args]
    vals = [I.rv(a) for a in args]
    vals = [v for v in vals if not (isinstance(v, Opaque) and v.tag.startswith('std::allocator') or isinstance(v, Opaque) and v.tag == 'alloc')]
    if not vals:
        return Vec([], et)
    v = vals[0]
    if isinstance(v, T):
        if is_c(v):
            n = cval(v)
            if n > 1 << 16:
                raise Unsupported('huge vector')
            if len(vals) > 1:
                return Vec([I.copyval(vals[1]) for _ in range(n)], et)
            return Vec([I.default_construct(et) for _ in range(n)], et)
        leaves, rec = leaves_of(I, et)
        if len(vals) > 1:
            fill = leaf_values(vals[1])
            a = SArr(fresh('vec', 1).args[0], to64(v), leaves, lambda p, i: fill[p], rec, et)
        else:
            zero = lambda p, i: const(0, leaves[p]) if leaves[p] >= 0 else TM._mk('fp.const', (0,), leaves[p])
            a = SArr(fresh('vec', 1).args[0], to64(v), leaves, zero, rec, et)
        return a
    if isinstance(v, (It, Ptr)):
        a, b = asit(I, vals[0]), asit(I, vals[1])
        n = sub(I.kt(b.k), I.kt(a.k))
        if is_c(n):
            if a.kind == 'map':
                raise Unsupported('vector from map range')
            ia, ib = I.rv(a), I.rv(b)
            if isinstance(ia, It) and isinstance(ib, It) and isinstance(ia.kind, tuple) and isinstance(ib.kind, tuple) and ia.kind[1] is ib.kind[1] \
                    and (ia.k, ib.k) == (0, -1):
                return ia.kind[1]   # the whole range of an abstract shape
            return Vec([I.copyval(I.load(x)) for x in itpair_to_list(I, a, b)], et)
        return sarr_copy(I, et, a.c, a.k, n)
    v = I.unbase(v)
    if type(v) is Vec:
        return Vec([I.copyval(x) for x in v.items], et)
    if type(v) is SArr:
        return I.copyval(v)
    raise Unsupported('vector constructor from %r' % (v,))


def sarr_copy(I, et, src, off, n):
    leaves, rec = leaves_of(I, et)
    if type(src) is not SArr:
        raise Unsupported('copy from %r' % (src,))
    snap = list(src.layers)
    base = lambda p, i: I.layers_read(src, snap, add(i, I.kt(off)), p)
    return SArr(fresh('vec', 1).args[0], n, leaves, base, rec, et)


@builtin('std::array::array')
def b_array_ctor(I, c):
    if c.args:
        return I.copyval(c.val(0))
    return I.default(c.ty, False)


@builtin('std::basic_string::basic_string', 'std::basic_string_view::basic_string_view')
def b_string(I, c):
    if not c.args:
        return ''
    v = c.val(0)
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        v = v.extra
        if len(c.args) > 1 and isinstance(c.val(1), T) and is_c(c.val(1)):
            return v[:cval(c.val(1))]
        return v
    if isinstance(v, str):
        if len(c.args) > 1 and isinstance(c.val(1), T) and is_c(c.val(1)):
            a = cval(c.val(1))
            return v[a:]
        return v
    if isinstance(v, T) and len(c.args) >= 2:
        return chr(cval(c.val(1))) * cval(v)
    return '?'


@builtin('std::shared_ptr::shared_ptr', 'std::unique_ptr::unique_ptr', 'std::weak_ptr::weak_ptr', 'std::function::function')
def b_ptr_ctor(I, c):
    if not c.args:
        return NULL
    v = c.val(0)
    return v


@builtin('std::make_shared', 'std::make_unique')
def b_make(I, c):
    t = c.fn.ta[0] if c.fn.ta else None
    if t is None:
        raise Unsupported('make_shared type')
    if t.k == 'arr':
        n = c.val(0)
        return I.new_array(t.t, to64(n), True)
    v = construct_from(I, t, c.args, c)
    return Ptr(Cell(v))


@builtin('std::dynamic_pointer_cast', 'std::static_pointer_cast')
def b_dpc(I, c):
    p = c.val(0)
    if p.c is None:
        return p
    o = I.rv(I.deref(p))
    tgt = c.fn.ta[0].r
    rec = getattr(o, 'rec', None)
    if rec is None:
        h = getattr(o, 'isa', None)
        if h is None:
            raise Unsupported('dynamic_pointer_cast of %r' % (o,))
        ok = h(I.P.recs[tgt].name if tgt in I.P.recs else str(tgt))
    else:
        ok = I.P.derives(rec, tgt)
    return p if ok or c.fn.simple == 'static_pointer_cast' else NULL


@builtin('std::make_pair')
def b_make_pair(I, c):
    r = I.P.recs.get(c.ty.r) if c.ty is not None else None
    return Obj(r, {'first': I.copyval(c.val(0)), 'second': I.copyval(c.val(1))})


@builtin('std::pair::pair')
def b_pair(I, c):
    r = I.P.recs.get(c.ty.r)
    if not c.args:
        return Obj(r, {'first': I.default_construct(r.ta[0]), 'second': I.default_construct(r.ta[1])})
    if len(c.args) == 1:
        v = c.val(0)
        return Obj(r, {k: I.copyval(x) for k, x in v.f.items()})
    out = {}
    for nm, t, v in (('first', r.ta[0], c.val(0)), ('second', r.ta[1], c.val(1))):
        if isinstance(v, T) and t.k in ('int', 'enum', 'bool'):
            v = conv_w(I, v, t)
        out[nm] = I.copyval(v)
    return Obj(r, out)


OVERRIDES = {'std::pair::pair': b_pair}


@builtin('std::make_tuple', 'std::tuple::tuple', 'std::forward_as_tuple')
def b_make_tuple(I, c):
    if len(c.args) == 1 and type(c.val(0)) is Vec and c.fn.simple == 'tuple' and c.fn.params[0][2].s.startswith('std::tuple'):
        return I.copyval(c.val(0))
    if not c.args and c.fn.simple == 'tuple' and c.ty is not None and c.ty.k == 'rec':
        return LIBDEFAULT['std::tuple'](I, I.P.recs[c.ty.r], True)
    return Vec([I.copyval(v) for v in c.vals()])


@builtin('std::tie')
def b_tie(I, c):
    return Tie([I.lvof(a) for a in c.args])


class Tie:
    def __init__(self, lvs):
        self.lvs = lvs


def tie_assign(I, o, c):
    v = c.val(0)
    vals = [v.f['first'], v.f['second']] if type(v) is Obj else list(v.items)
    for lv, x in zip(o.lvs, vals):
        I.assign(lv, x) if not isinstance(x, T) else I.store(lv, x)
    return c.this


GLOBALS['std::ignore'] = lambda I: Opaque('ignore')
ARRCLS[Tie] = lambda n: {'operator=': tie_assign}.get(n)


@builtin('std::get')
def b_get(I, c):
    o = I.rv(c.args[0])
    i = c.fn.ta[0]
    if isinstance(i, int):
        if type(o) is Vec:
            return LV(o, i)
        if type(o) is Obj and 'first' in o.f:
            return LV(o, ('first', 'second')[i])
        if isinstance(o, MapEntry):
            return o.get_member(I, ('first', 'second')[i])
        if isinstance(o, tuple) and o[0] == '%subtree':
            _, arr, idx, path = o
            return LV(arr, ('%sub', idx, path + (i,)))
        lv = c.args[0]
        if type(lv) is LV and type(lv.c) is SArr:
            return LV(lv.c, ('%sub', lv.k, (i,)))
    raise Unsupported('std::get')


# ---------------------------------------------------------------- utilities
@builtin('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::launder', 'std::__niter_base')
def b_move(I, c):
    if len(c.args) == 3:
        return b_copy(I, c)
    return c.args[0]


@builtin('std::swap')
def b_swap(I, c):
    a, b = c.args
    va, vb = I.rv(a), I.rv(b)
    if isinstance(va, T) or isinstance(va, (Ptr, str)):
        I.store(a, vb)
        I.store(b, va)
    else:
        va, vb = I.copyval(va), I.copyval(vb)
        I.assign(a, vb)
        I.assign(b, va)
    return None


@builtin('std::exchange')
def b_exchange(I, c):
    old = I.copyval(c.val(0))
    I.assign(c.args[0], c.val(1)) if not isinstance(old, T) else I.store(c.args[0], c.val(1))
    return old


def tsigned(c, i=0):
    t = c.fn.params[i][2]
    t = t.t if t.k == 'ref' else t
    return t.sg


@builtin('std::min', 'std::max')
def b_minmax(I, c):
    ismin = c.fn.simple == 'min'
    if len(c.args) == 1:
        vals = elems(I, c.args[0])
        sg = True
        if c.ty is not None:
            sg = (c.ty.t if c.ty.k == 'ref' else c.ty).sg
    else:
        vals = [c.val(0), c.val(1)]
        sg = tsigned(c)
    r = vals[0]
    for v in vals[1:]:
        if r.w < 0:
            lt = fp2('<', v, r) if ismin else fp2('<', r, v)
        else:
            f = slt if sg else ult
            lt = f(v, r) if ismin else f(r, v)
        k = I.known(lt)
        r = ite(lt, v, r) if k is None else (v if k else r)
    return r


@builtin('std::clamp')
def b_clamp(I, c):
    v, lo, hi = c.vals()
    f = slt if tsigned(c) else ult
    return ite(f(v, lo), lo, ite(f(hi, v), hi, v))


@builtin('std::abs', 'abs', 'labs', 'llabs', '__builtin_abs', 'fabs', 'std::fabs')
def b_abs(I, c):
    v = c.val(0)
    if v.w < 0:
        return TM.build('fp.abs', (v,), v.w)
    return ite(slt(v, const(0, v.w)), neg(v), v)


@builtin('std::signbit')
def b_signbit(I, c):
    v = c.val(0)
    b = reinterpret(v, _ity(-v.w))
    return slt(b, const(0, b.w))


class _ity:
    def __init__(self, w):
        self.k, self.w, self.sg = 'int', w, False


class _fty:
    def __init__(self, w):
        self.k, self.w = 'float', w


@builtin('std::isnan', 'isnan', '__builtin_isnan')
def b_isnan(I, c):
    v = c.val(0)
    return TM.build('fp.isnan', (v,), 0) if v.w < 0 else FALSE


@builtin('std::isinf', 'isinf')
def b_isinf(I, c):
    v = c.val(0)
    return TM.build('fp.isinf', (v,), 0) if v.w < 0 else FALSE


@builtin('std::isfinite')
def b_isfinite(I, c):
    v = c.val(0)
    return and_(not_(TM.build('fp.isnan', (v,), 0)), not_(TM.build('fp.isinf', (v,), 0))) if v.w < 0 else TRUE


@builtin('std::round', 'round', 'std::floor', 'floor', 'std::ceil', 'ceil', 'std::trunc', 'trunc', 'std::rint', 'std::nearbyint')
def b_round(I, c):
    v = c.val(0)
    if v.w >= 0:
        raise Unsupported('round of int')
    m = {'round': 'rna', 'floor': 'rtn', 'ceil': 'rtp', 'trunc': 'rtz', 'rint': 'rne', 'nearbyint': 'rne'}[c.fn.simple]
    return TM._mk('fp.rti', (v, m), v.w)


@builtin('memcpy', 'std::memcpy', '__builtin_memcpy', 'memmove', 'std::memmove')
def b_memcpy(I, c):
    d, s, n = c.val(0), c.val(1), to64(c.val(2))
    if isinstance(d, Ptr) and type(d.c) is Cell and d.c.v is UNINIT and c.node is not None:
        # a scalar that has no value yet: its type is the static pointee type of the argument
        e = c.node['a'][0] if 'a' in c.node else None
        while isinstance(e, dict) and e.get('k') in ('cast', 'paren'):
            e = e['e']
        t = c.fr.tu.types[e['t']] if isinstance(e, dict) and 't' in e else None
        if t is not None and t.k == 'ptr' and t.t.k in ('int', 'enum', 'float') and is_c(n) and t.t.sz == cval(n) and type(s.c) in (Cell, Obj):
            sv = I.load(LV(s.c, s.k))
            if isinstance(sv, T) and abs(sv.w) == 8 * cval(n):
                I.store(LV(d.c, d.k), reinterpret(sv, t.t))
                return d
    do_memcpy(I, d, s, n)
    return d


def elem_size(I, cont):
    t = getattr(cont, 'ety', None)
    return t.sz if t is not None else None


def do_memcpy(I, d, s, n):
    if not isinstance(d, Ptr) or not isinstance(s, Ptr):
        raise Unsupported('memcpy of %r' % (d,))
    if type(d.c) in (Cell, Obj) and type(s.c) in (Cell, Obj, FnProxy) and is_c(n):
        sv = I.load(LV(s.c, s.k))
        dv = I.load(LV(d.c, d.k))
        nb = cval(n)
        if isinstance(sv, T):
            wd = dv.w if isinstance(dv, T) else None
            ty = d.extra or s.extra
            if isinstance(dv, T) and abs(dv.w) == abs(sv.w) == 8 * nb:
                I.store(LV(d.c, d.k), reinterpret(sv, _fty(-dv.w) if dv.w < 0 else _ity(dv.w)))
                return
            if dv is UNINIT and abs(sv.w) == 8 * nb and getattr(d, 'extra', None) is not None:
                I.store(LV(d.c, d.k), reinterpret(sv, d.extra))
                return
    if type(d.c) is SArr and type(s.c) is SArr and set(d.c.leaves) == {()} == set(s.c.leaves) and d.c.leaves[()] == 8 and s.c.leaves[()] in (16, 32, 64, 128):
        # the bytes of little-endian words
        w = s.c.leaves[()]
        lg = {16: 1, 32: 2, 64: 3, 128: 4}[w]
        if all(is_c(I.kt(x)) and cval(I.kt(x)) == 0 for x in (d.k, s.k)):
            def body(k):
                v = I.load(LV(s.c, lshr(k, c64(lg))))
                j = shl(band(k, c64((1 << lg) - 1)), c64(3))
                I.store(LV(d.c, k), trunc(lshr(v, trunc(j, w) if w < 64 else zext(j, w) if w > 64 else j), 8))
            I.induct(n, I.idxvar('k'), body)
            return
    if type(d.c) is Vec and type(s.c) is Cell and is_c(n) and isinstance(s.c.v, T):
        dv = I.load(LV(d.c, d.k))
        if isinstance(dv, T) and dv.w == s.c.v.w == 8 * cval(n):
            I.store(LV(d.c, d.k), s.c.v)
            return
    if type(d.c) is SArr or type(s.c) is SArr or type(d.c) is Vec:
        es = elem_size(I, d.c) or elem_size(I, s.c)
        if es:
            cnt = exact_div(n, c64(es)) if not is_c(n) else (c64(cval(n) // es) if cval(n) % es == 0 else None)
            if cnt is not None:
                copy_elems(I, d, s, cnt)
                return
    raise Unsupported('memcpy')


def copy_elems(I, d, s, n):
    if is_c(n):
        vals = [I.copyval(I.load(LV(s.c, I.keyadd(s.k, c64(i))))) for i in range(cval(n))]
        for i, v in enumerate(vals):
            I.store(LV(d.c, I.keyadd(d.k, c64(i))), v)
        return
    snap = list(s.c.layers)

    def body(k):
        I.store(LV(d.c, add(I.kt(d.k), k)), I.copyval(I.load(LV(s.c, add(I.kt(s.k), k)))))
    I.induct(n, I.idxvar('k'), body)


@builtin('memset', 'std::memset', '__builtin_memset')
def b_memset(I, c):
    d, v, n = c.val(0), c.val(1), to64(c.val(2))
    if not (is_c(v) and cval(v) == 0):
        raise Unsupported('memset non-zero')
    if type(d.c) is Vec and is_c(n):
        es = elem_size(I, d.c)
        for i in range(cval(n) // es):
            I.store(LV(d.c, I.keyadd(d.k, c64(i))), I.default(d.c.ety, True))
        return d
    if type(d.c) is SArr:
        es = elem_size(I, d.c)
        cnt = exact_div(n, c64(es))
        if cnt is not None:
            I.induct(cnt, I.idxvar('k'), lambda k: I.store(LV(d.c, add(I.kt(d.k), k)), I.default(d.c.ety, True)))
            return d
    raise Unsupported('memset')


# ---------------------------------------------------------------- algorithms
def call_pred(I, f, args):
    return I.tobool(I.rv(I.call_value(f, args)))


@builtin('std::all_of', 'std::any_of', 'std::none_of')
def b_all_of(I, c):
    f = c.val(2)
    out = []
    for lv in itpair_to_list(I, c.args[0], c.args[1]):
        out.append(call_pred(I, f, [lv]))
    if c.fn.simple == 'all_of':
        return and_(*out) if out else TRUE
    r = or_(*out) if out else FALSE
    return r if c.fn.simple == 'any_of' else not_(r)


@builtin('std::accumulate', 'std::reduce')
def b_accumulate(I, c):
    acc = I.copyval(c.val(2))
    f = c.val(3) if len(c.args) > 3 else None
    for lv in itpair_to_list(I, c.args[0], c.args[1]):
        if f is None:
            x = I.load(lv)
            if x.w < acc.w:
                x = sext(x, acc.w)
            acc = add(acc, x)
        elif isinstance(f, Opaque):
            x = I.load(lv)
            if isinstance(x, T) and isinstance(acc, T) and x.w < acc.w:
                x = sext(x, acc.w)
            acc = {'std::multiplies': mul, 'std::plus': add}[strip_targs(f.tag)](acc, x)
        else:
            acc = I.copyval(I.rv(I.call_value(f, [LV(Cell(acc)), lv])))
    return acc


@builtin('std::transform')
def b_transform(I, c):
    f = c.vals()[-1]
    src = itpair_to_list(I, c.args[0], c.args[1])
    two = len(c.args) == 5
    out = asit(I, c.args[3 if two else 2])
    s2 = asit(I, c.args[2]) if two else None
    for i, lv in enumerate(src):
        a = [lv]
        if two:
            a.append(LV(s2.c, I.keyadd(s2.k, c64(i))))
        if isinstance(f, Opaque):
            op = {'std::plus': add, 'std::multiplies': mul, 'std::minus': sub}[strip_targs(f.tag)]
            v = op(I.rv(a[0]), I.rv(a[1]))
        else:
            v = I.copyval(I.rv(I.call_value(f, a)))
        put_out(I, out, i, v)
    return adv_out(I, out, len(src))


def put_out(I, out, i, v):
    if out.kind == 'back_ins':
        I.setc(out.c, '%items', out.c.items + [v])
    else:
        I.store(LV(out.c, I.keyadd(out.k, c64(i))), v)


def adv_out(I, out, n):
    return out if out.kind == 'back_ins' else It(out.c, I.keyadd(out.k, c64(n)), out.kind)


@builtin('std::back_inserter', 'std::inserter')
def b_back_inserter(I, c):
    return It(I.unbase(I.rv(c.args[0])), 0, 'back_ins')


@builtin('std::copy', 'std::copy_n', 'std::move_backward')
def b_copy(I, c):
    if c.fn.simple == 'copy_n':
        a = asit(I, c.args[0])
        n = to64(c.val(1))
        out = asit(I, c.args[2])
        copy_elems(I, out, a, n)
        return It(out.c, I.keyadd(out.k, n))
    a, b = asit(I, c.args[0]), asit(I, c.args[1])
    out = asit(I, c.args[2])
    n = sub(I.kt(b.k), I.kt(a.k))
    if is_c(n):
        vals = [I.copyval(I.load(lv)) for lv in itpair_to_list(I, a, b)]
        for i, v in enumerate(vals):
            put_out(I, out, i, v)
        return adv_out(I, out, len(vals))
    copy_elems(I, out, a, n)
    return It(out.c, I.keyadd(out.k, n))


@builtin('std::fill', 'std::fill_n')
def b_fill(I, c):
    a = asit(I, c.args[0])
    if c.fn.simple == 'fill_n':
        n = to64(c.val(1))
    else:
        b = asit(I, c.args[1])
        n = sub(I.kt(b.k), I.kt(a.k))
    v = I.copyval(c.val(2))
    et = getattr(a.c, 'ety', None)
    if isinstance(v, T) and et is not None and et.k in ('int', 'enum', 'bool') and v.w != (et.w if et.k != 'bool' else 0):
        v = conv_w(I, v, et)
    if is_c(n):
        for i in range(sval(n)):
            I.store(LV(a.c, I.keyadd(a.k, c64(i))), I.copyval(v))
        return It(a.c, I.keyadd(a.k, n))
    I.induct(n, I.idxvar('k'), lambda k: I.store(LV(a.c, add(I.kt(a.k), k)), I.copyval(v)))
    return It(a.c, I.keyadd(a.k, n))


@builtin('std::reverse')
def b_reverse(I, c):
    lvs = itpair_to_list(I, c.args[0], c.args[1])
    vals = [I.load(x) for x in lvs]
    for lv, v in zip(lvs, reversed(vals)):
        I.store(lv, v)


@builtin('std::iota')
def b_iota(I, c):
    a, b = asit(I, c.args[0]), asit(I, c.args[1])
    v = c.val(2)
    n = sub(I.kt(b.k), I.kt(a.k))
    et = getattr(a.c, 'ety', None)
    w = et.w if et is not None else v.w
    vv = sext(v, w) if v.w < w else trunc(v, w) if v.w > w else v
    if is_c(n):
        for i in range(sval(n)):
            I.store(LV(a.c, I.keyadd(a.k, c64(i))), add(vv, const(i, w)))
        return None
    I.induct(n, I.idxvar('k'), lambda k: I.store(LV(a.c, add(I.kt(a.k), k)), add(vv, cast_w(k, w))))


@builtin('std::find', 'std::find_if', 'std::count', 'std::count_if')
def b_find(I, c):
    a = asit(I, c.args[0])
    lvs = itpair_to_list(I, c.args[0], c.args[1])
    f = c.val(2)
    isif = c.fn.simple.endswith('_if')
    if c.fn.simple.startswith('count'):
        r = c64(0)
        for lv in lvs:
            p = call_pred(I, f, [lv]) if isif else eqval(I, lv, f)
            r = add(r, b2bv(p, 64))
        return r
    for i, lv in enumerate(lvs):
        p = call_pred(I, f, [lv]) if isif else eqval(I, lv, f)
        if I.branch(p):
            return It(a.c, I.keyadd(a.k, c64(i)), a.kind)
    return It(a.c, I.keyadd(a.k, c64(len(lvs))), a.kind)


@builtin('std::for_each', 'std::for_each_n')
def b_for_each(I, c):
    f = c.val(2)
    for lv in itpair_to_list(I, c.args[0], c.args[1]):
        I.call_value(f, [lv])


@builtin('std::max_element', 'std::min_element')
def b_max_element(I, c):
    a = asit(I, c.args[0])
    lvs = itpair_to_list(I, c.args[0], c.args[1])
    best = 0
    for i in range(1, len(lvs)):
        x, y = I.load(lvs[best]), I.load(lvs[i])
        if len(c.args) > 2:
            lt = call_pred(I, c.val(2), [lvs[best], lvs[i]] if c.fn.simple == 'max_element' else [lvs[i], lvs[best]])
        else:
            lt = slt(x, y) if c.fn.simple == 'max_element' else slt(y, x)
        if I.branch(lt):
            best = i
    return It(a.c, I.keyadd(a.k, c64(best)))


@builtin('std::equal')
def b_equal(I, c):
    l1 = itpair_to_list(I, c.args[0], c.args[1])
    if len(c.args) >= 4 and isinstance(c.val(3), It):
        l2 = itpair_to_list(I, c.args[2], c.args[3])
        if len(l1) != len(l2):
            return FALSE
    else:
        b = asit(I, c.args[2])
        l2 = [LV(b.c, I.keyadd(b.k, c64(i))) for i in range(len(l1))]
    return and_(*[eqval(I, x, y) for x, y in zip(l1, l2)])


@builtin('std::distance')
def b_distance(I, c):
    a, b = asit(I, c.args[0]), asit(I, c.args[1])
    return sub(I.kt(b.k), I.kt(a.k))


@builtin('std::next', 'std::prev')
def b_next(I, c):
    a = asit(I, c.args[0])
    n = to64(c.val(1)) if len(c.args) > 1 else c64(1)
    return I.ptr_add(a, n if c.fn.simple == 'next' else neg(n))


@builtin('std::advance')
def b_advance(I, c):
    I.store(c.args[0], I.ptr_add(c.val(0), to64(c.val(1))))


@builtin('std::begin', 'std::cbegin')
def b_begin(I, c):
    return m_begin(I, I.unbase(I.rv(c.args[0])), c)


@builtin('std::end', 'std::cend')
def b_end(I, c):
    return m_end(I, I.unbase(I.rv(c.args[0])), c)


@builtin('std::size', 'std::ssize')
def b_size(I, c):
    return length(I, I.unbase(I.rv(c.args[0])))


def sym_sort(I, c, a, b):
    """sorting a whole array of symbolic length: its elements are rearranged by some permutation s; comparator facts about
    s are instantiated on demand (ghost 'sorts').  The comparator must be a strict weak order on the elements."""
    arr = a.c
    if I.kt(a.k) is not const(0, 64) or I.kt(b.k) is not arr.n or list(arr.leaves) != [()]:
        raise Unsupported('sort of a part of an array')
    n, w = arr.n, arr.leaves[()]
    f = c.val(2)
    old = list(arr.layers)
    nm = fresh('sigma', 64).args[0]
    I.ghost.setdefault('perms', {})[nm] = (nm + '^-1', n)
    I.ghost['perms'][nm + '^-1'] = (nm, n)

    def elem(i):
        return I.layers_read(arr, old, i, ())

    def cmp(x, y):
        return call_pred(I, f, [LV(Cell(x)), LV(Cell(y))])
    m = len(I.pc)
    e = []
    for _ in range(3):
        i = zext(fresh('e', 40), 64)
        I.assume(ult(i, n))
        e.append(elem(i))
    x, y, z = e
    I.safety('comparator is irreflexive', not_(cmp(x, x)))
    I.safety('comparator is transitive', implies(and_(cmp(x, y), cmp(y, z)), cmp(x, z)))
    I.safety('elements the comparator does not separate form classes', implies(and_(not_(cmp(y, x)), not_(cmp(z, y))), not_(cmp(z, x))))
    I.pcreset(m)
    k = fresh('k', 40)
    kt = zext(k, 64)
    at = app(nm, [kt], 64)
    I.assume(ult(at, n))
    val = elem(at)
    I.setc(arr, '%layers', old + [IP.Layer([(kvar_of(kt), n)], kt, {(): val})])
    I.ghost.setdefault('sorts', []).append((nm, n, lambda i: elem(app(nm, [i], 64)), cmp))
    if c.fn.simple != 'stable_sort':
        I.ghost.setdefault('unstable', set()).add(nm)     # elements the comparator does not separate come in any order


def kvar_of(kt):
    return kt.args[0]


@builtin('std::sort', 'std::stable_sort')
def b_sort(I, c):
    a_, b_ = asit(I, c.args[0]), asit(I, c.args[1])
    if type(a_.c) is SArr and a_.c is b_.c and not is_c(I.kt(b_.k)) and len(c.args) > 2:
        return sym_sort(I, c, a_, b_)
    lvs = itpair_to_list(I, c.args[0], c.args[1])
    vals = [I.copyval(I.load(x)) for x in lvs]
    # insertion sort with branching comparisons
    def less(x, y):
        if len(c.args) > 2:
            return I.branch(call_pred(I, c.val(2), [LV(Cell(x)), LV(Cell(y))]))
        return I.branch(slt(x, y))
    out = []
    for v in vals:
        i = len(out)
        while i > 0 and less(v, out[i - 1]):
            i -= 1
        out.insert(i, v)
    for lv, v in zip(lvs, out):
        I.store(lv, v)


FUNCTOR = {'std::plus': '+', 'std::multiplies': '*', 'std::minus': '-', 'std::less': '<', 'std::greater': '>', 'std::equal_to': '==', 'std::bit_xor': '^', 'std::bit_and': '&',
           'std::bit_or': '|', 'std::less_equal': '<=', 'std::greater_equal': '>=', 'std::not_equal_to': '!='}


def functor_call(I, o, c):
    op = FUNCTOR.get(strip_targs(o.tag))
    if op is None or len(c.args) != 2:
        return NotImplemented
    a, b = c.val(0), c.val(1)
    if not isinstance(a, T) or not isinstance(b, T) or a.w != b.w:
        return NotImplemented
    ty = [p[2].t if p[2].k == 'ref' else p[2] for p in c.fn.params]
    return I.arith(op, a, b, ty[0], ty[1], c.ty if c.ty is not None else ty[0])


for _n in list(FUNCTOR) + ['std::allocator']:
    _s = _n.split('::')[1]
    BUILTINS['%s::%s' % (_n, _s)] = (lambda nm: lambda I, c: Opaque(nm))(_n)


@builtin('std::invoke', 'std::__invoke')
def b_invoke(I, c):
    return I.call_value(c.val(0), c.args[1:])


@builtin('std::call_once')
def b_call_once(I, c):
    return I.call_value(c.val(1), c.args[2:])


@builtin('std::lock_guard::lock_guard', 'std::unique_lock::unique_lock', 'std::shared_lock::shared_lock', 'std::scoped_lock::scoped_lock')
def b_lock(I, c):
    return Opaque('lock')


# numeric_limits
def numlim(which):
    def f(I, c):
        t = c.ty
        if t.k == 'int':
            if which == 'max':
                return const(mask(t.w - 1) if t.sg else mask(t.w), t.w)
            if which == 'min' or which == 'lowest':
                return const(1 << (t.w - 1) if t.sg else 0, t.w)
        if t.k == 'float':
            vals = {('max', 32): 0x7f7fffff, ('max', 64): 0x7fefffffffffffff, ('lowest', 32): 0xff7fffff, ('lowest', 64): 0xffefffffffffffff,
                    ('min', 32): 0x00800000, ('min', 64): 0x0010000000000000, ('infinity', 32): 0x7f800000, ('infinity', 64): 0x7ff0000000000000,
                    ('quiet_NaN', 32): 0x7fc00000, ('quiet_NaN', 64): 0x7ff8000000000000, ('epsilon', 32): 0x34000000, ('epsilon', 64): 0x3cb0000000000000}
            return TM._mk('fp.const', (vals[(which, t.w)],), -t.w)
        if t.k == 'bool':
            return TRUE if which == 'max' else FALSE
        raise Unsupported('numeric_limits')
    return f


for _w in ('max', 'min', 'lowest', 'infinity', 'quiet_NaN', 'epsilon'):
    BUILTINS['std::numeric_limits::%s' % _w] = numlim(_w)


# atomics
def at_load(I, o, c):
    return o.v


def at_store(I, o, c):
    I.setc(o, None, c.val(0))
    return o.v


def at_inc(d):
    def f(I, o, c):
        old = o.v
        I.setc(o, None, add(old, const(d, old.w)))
        return old if len(c.args) else o.v
    return f


def at_fetch_add(I, o, c):
    old = o.v
    I.setc(o, None, add(old, cast_w(c.val(0), old.w)))
    return old


ATM = {'load': at_load, 'store': at_store, 'operator=': at_store, 'operator++': at_inc(1), 'operator--': at_inc(-1), 'fetch_add': at_fetch_add,
       'operator+=': lambda I, o, c: (at_fetch_add(I, o, c), o.v)[1], 'operator bool': at_load}


def atm(name):
    if name in ATM:
        return ATM[name]
    if name.startswith('operator ') or name.startswith('operator') and name[8:].strip().replace('_', '').replace(' ', '').isalnum():
        return at_load
    return None


ARRCLS[Cell] = atm
BUILTINS['std::atomic::atomic'] = lambda I, c: Cell(c.val(0) if c.args else const(0, 64))


# ---------------------------------------------------------------- absl / fmt / spdlog
@builtin('absl::Span::Span', 'absl::MakeSpan', 'absl::MakeConstSpan')
def b_span(I, c):
    if not c.args:
        return Span(None, 0, c64(0))
    a = c.args[0]
    v = I.unbase(I.rv(a))
    if len(c.args) == 2:
        v2 = c.val(1)
        if isinstance(v, Ptr) and v.c is None:
            return Span(None, 0, c64(0))
        if isinstance(v2, (Ptr, It)):
            return Span(v.c, v.k, sub(I.kt(v2.k), I.kt(v.k)), getattr(v.c, 'ety', None))
        return Span(v.c, v.k, to64(v2), getattr(v.c, 'ety', None))
    if type(v) is Span:
        return v
    if type(v) is Vec:
        return Span(v, 0, c64(len(v.items)), v.ety)
    if type(v) is SArr:
        return Span(v, c64(0), v.n, v.ety)
    if isinstance(v, str):
        return Span(StrProxy(v), 0, c64(len(v)))
    f = getattr(v, 'to_span', None)
    if f is not None:
        return f(I)
    raise Unsupported('Span of %r' % (v,))


# strings with symbolic parts: a private-use character stands for an unknown string (a named one, or the decimal rendering of a term)
ATOMS = {}
ATOMLIST = []


def str_atom(key):
    ch = ATOMS.get(key)
    if ch is None:
        ch = ATOMS[key] = chr(0xF0000 + len(ATOMLIST))
        ATOMLIST.append(key)
    return ch


def has_atoms(s):
    return any(ord(ch) >= 0xF0000 for ch in s)


def render(I, v, ty=None):
    v = I.unbase(I.rv(v))
    if isinstance(v, Ptr) and isinstance(v.extra, str):
        return v.extra
    if isinstance(v, str):
        return v
    if isinstance(v, Ptr):
        x = v.c
        while type(x) is Cell:
            x = x.v
        if isinstance(x, str):
            return x[(sval(I.kt(v.k)) if v.k is not None else 0):]
        if type(x) is Vec and (v.k is None or isinstance(v.k, int) or is_c(I.kt(v.k))):
            out = ''
            for y in x.items[(sval(I.kt(v.k)) if v.k is not None else 0):]:
                if not isinstance(y, T) or not is_c(y):
                    return '?'
                if cval(y) == 0:
                    return out
                out += chr(cval(y))
    if isinstance(v, T) and v.w > 1:
        u = ty.t if ty is not None and ty.k == 'ref' else ty
        if u is None or u.k not in ('int',) or u.w == 8:
            return '?'
        sg = bool(u.sg)
        if is_c(v):
            return str(sval(v) if sg else cval(v))
        return str_atom(('dec', v, sg))
    return '?'


def b_str(I, c):
    return '?'


def b_format(I, c):
    if not c.args:
        return ''
    f = I.rv(c.args[0])
    if isinstance(f, Ptr) and isinstance(f.extra, str):
        f = f.extra
    if not isinstance(f, str) or '?' in f:
        return '?'
    out, i, k = '', 0, 1
    while i < len(f):
        ch = f[i]
        if f.startswith('{{', i) or f.startswith('}}', i):
            out += ch
            i += 2
        elif ch == '{':
            j = f.find('}', i)
            if f[i:j + 1] != '{}' or k >= len(c.args):
                return '?'
            out += render(I, c.args[k], c.fn.params[k][2] if k < len(c.fn.params) else None)
            k += 1
            i = j + 1
        else:
            out += ch
            i += 1
    return out


class SStream(Container):
    def __init__(self):
        self.s = ''
        self.seq = IP.nextseq()

    def get(self, k):
        return self.s

    def put(self, k, v):
        self.s = v


def sstream_method(name):
    if name == 'str':
        return lambda I, o, c: o.s
    if name == 'operator<<':
        def f(I, o, c):
            I.setc(o, 's', o.s + render(I, c.args[0], c.fn.params[0][2]))
            return c.this
        return f
    return None


BUILTINS['fmt::format'] = BUILTINS['yacl::internal::Format'] = b_format
for _n in ('fmt::print', 'fmt::vformat', 'fmt::join', 'absl::StrCat', 'absl::StrJoin', 'std::to_string', 'fmt::to_string', 'std::type_info::name'):
    BUILTINS[_n] = b_str


def b_nop(I, c):
    return None


for _n in ('spdlog::info', 'spdlog::debug', 'spdlog::warn', 'spdlog::error', 'spdlog::trace', 'SPDLOG_DEBUG', 'free', 'Eigen::setNbThreads', 'Eigen::initParallel', 'spdlog::logger::log',
           'std::terminate', 'omp_set_num_threads'):
    BUILTINS[_n] = b_nop
BUILTINS['spdlog::default_logger_raw'] = lambda I, c: Ptr(Cell(Opaque('logger')))


class OpaqueMethods:
    pass


def opq_method(name):
    def f(I, o, c):
        if o.tag in ('alloc', 'mutex', 'lock', 'logger') or o.tag.startswith(('std::basic_o', 'spdlog', 'std::allocator')):
            if name.startswith('should_log'):
                return FALSE
            if name == 'str':
                return '?'
            return c.this
        if name == 'operator()':
            return functor_call(I, o, c)
        if o.tag == 'typeid':
            if name == 'name':
                return o.name
            if name == 'hash_code':
                return const(hash(o.name), 64)
            if name == 'operator==':
                return eqval(I, o, c.args[0])
            if name == 'operator!=':
                return not_(eqval(I, o, c.args[0]))
        return NotImplemented
    return f


ARRCLS[Opaque] = opq_method
ARRCLS[SStream] = sstream_method


def g_shl(I, c):
    o = I.rv(c.args[0])
    if type(o) is SStream:
        I.setc(o, 's', o.s + render(I, c.args[1], c.fn.params[1][2]))
        return c.args[0]
    return c.args[0] if isinstance(o, Opaque) else NotImplemented




def _byte(I, c):
    a = [I.rv(x) for x in ([c.this] if c.this is not None else []) + list(c.args)]
    return a if all(isinstance(x, T) for x in a) and a and a[0].w == 8 else None


def _byteop(f):
    def h(I, c):
        a = _byte(I, c)
        return f(*a) if a and len(a) == 2 else NotImplemented
    return h


def g_bshr(I, c, op=lshr):
    a = _byte(I, c)
    if not a:
        return NotImplemented if op is lshr else g_shl(I, c)
    I.safety('shift-range', ult(a[1], const(32, a[1].w)))
    k = trunc(a[1], 8) if a[1].w > 8 else a[1]
    big = not_(ult(a[1], const(8, a[1].w)))
    return ite(big, const(0, 8), op(a[0], k))


def g_bnot(I, c):
    a = _byte(I, c)
    return bnot(a[0]) if a and len(a) == 1 else NotImplemented


# std::byte operators ([support.types.byteops])
GENERIC.update({'operator&': _byteop(band), 'operator|': _byteop(bor), 'operator^': _byteop(bxor), 'operator~': g_bnot,
                'operator>>': g_bshr, 'operator<<': lambda I, c: g_bshr(I, c, shl)})
BUILTINS['std::operator<<'] = lambda I, c: GENERIC['operator<<'](I, c)
BUILTINS['std::basic_ostringstream::basic_ostringstream'] = lambda I, c: SStream()
BUILTINS['std::basic_stringstream::basic_stringstream'] = lambda I, c: SStream()
BUILTINS['std::basic_ostream::operator<<'] = lambda I, c: c.this if c.this is not None else c.args[0]


def method_of(I, o, name):
    g = ARRCLS.get(type(o))
    return g(name) if g else None


# yacl::parallel_for(begin, end, f(b,e)) : contract = the chunks partition [begin,end) and may run concurrently
class Future:
    """a finished task"""
    def __init__(self, v=None):
        self.v = v

    def copy(self, I):
        return self


ARRCLS[Future] = lambda n: {'get': lambda I, o, c: o.v, 'wait': lambda I, o, c: None, 'valid': lambda I, o, c: TRUE,
                            'operator=': lambda I, o, c: (I.store(c.this, I.unbase(c.val(0))), c.this)[1]}.get(n)


@builtin('std::async')
def b_async(I, c):
    # the task is run to completion where it is started
    a = list(c.args)
    if isinstance(I.rv(a[0]), T):
        a = a[1:]
    r = I.call_value(I.rv(a[0]), a[1:])
    return Future(I.copyval(I.rv(r)) if r is not None else None)


@builtin('std::future::future')
def b_future(I, c):
    return c.val(0) if c.args else Future()


@builtin('yacl::parallel_for')
def b_parallel_for(I, c):
    vals = c.vals()
    ints = [v for v in vals if isinstance(v, T)]
    f = [v for v in vals if not isinstance(v, T)][0]
    b, e = to64(ints[0]), to64(ints[1])
    parallel_chunks(I, b, e, f)
    return None


def parallel_chunks(I, b, e, f):
    n = sub(e, b)
    if is_c(n):
        if sval(n) <= 0:
            return
        if cval(n) <= 128:
            I.call_value(f, [b, e])
            return
    # symbolic chunk [B,E) inside [b,e): one arbitrary chunk, generalised to the partition
    B, E = I.idxvar('B'), I.idxvar('E')
    mark = len(I.log)
    pcm = len(I.pc)
    seq0 = nextseq()
    saved = I.rlog
    I.rlog = []
    I.assume(not_(ult(B, b)))
    I.assume(ult(B, E))
    I.assume(not_(ult(e, E)))
    I.merge(lambda: I.call_value(f, [B, E]))
    reads = I.rlog
    I.rlog = saved
    writes = {}
    for cc, key, old in I.log[mark:]:
        if cc.seq > seq0:
            continue
        writes.setdefault((id(cc), key), (cc, key, old))
    res = []
    for (cc, key, old) in writes.values():
        if key != '%layers':
            if type(cc) is Cell:
                I.require('concurrent iterations do not write one shared variable', FALSE)
            raise Unsupported('parallel chunk writes shared scalar')
        res.append((cc, old, cc.layers))
    I.rollback(mark)
    I.pcreset(pcm)
    Bv, Ev = B.args[0], E.args[0]
    new = []
    for arr, old, lay in res:
        out = list(old)
        for L in lay[len(old):]:
            NL = rechunk(I, L, B, E, b, e)
            out.append(NL)
            for (ra, ridx, rp) in reads:
                if ra is arr and rp in L.vals and ridx is not L.idx:
                    # a read of an element written by another chunk
                    if not read_ok(I, L, NL, ridx, B, E, b, e):
                        raise Unsupported('parallel chunk reads an element another iteration writes' + (' %s vs %s: %s' % (pp(ridx, 8), pp(NL.idx, 8), [pp(x, 6) for x in I.pc][-12:]) if os.environ.get('SPUV_TB') else ''))
        new.append((arr, out))
    for arr, out in new:
        I.setc(arr, '%layers', out)
    if saved is not None:
        saved.extend(reads)


def read_ok(I, L, NL, ridx, B, E, b, e):
    from .prove import prove
    ren = {v: fresh('o', v.w) for v, _ in NL.params}
    wi = subst(NL.idx, ren)
    asm = list(I.pc) + [not_(ult(B, b)), ult(B, E), not_(ult(e, E))]
    for v, n in NL.params:
        asm.append(ult(zext(ren[v], 64), n))
    for v, n in L.params:
        asm.append(ult(zext(v, 64), n))
    return prove(not_(eq(wi, ridx)), asm, 'bv', 4000, cvc5=False).ok is True


def rechunk(I, L, B, E, b, e):
    """layer produced by chunk [B,E) -> layer of the whole range [b,e)"""
    # find the parameter that runs over the chunk: idx = B + k (or multiples); substitute k -> j - B
    Bv, Ev = B.args[0], E.args[0]
    occ = lambda t: occurs(Bv, t) or occurs(Ev, t)
    for pi, (v, n) in enumerate(L.params):
        if occ(n) and n is sub(E, B):
            k = zext(v, 64)
            j = I.idxvar('j')
            jt = j.args[0]
            # new param j in [0, e-b): element = b + j ; old k = b + j - B
            rep = {v: trunc(sub(add(b, j), B), v.w)}
            # subst at the 64-bit level so that B cancels
            rep64 = {k: sub(add(b, j), B)}
            idx = subst64(L.idx, k, v, rep64)
            wide = sub(zext(add(b, j), 128), zext(Bv, 128))     # the element index is at least the chunk's begin: no wrap
            vals = {p: subst64(x, k, v, rep64, wide) for p, x in L.vals.items()}
            cond = subst64(L.cond, k, v, rep64)
            others = [(pv, subst64(pn, k, v, rep64)) for i, (pv, pn) in enumerate(L.params) if i != pi]
            if occ(idx) or any(occ(x) for x in vals.values()) or occ(cond) or any(occ(pn) for _, pn in others):
                raise Unsupported('result depends on the parallel chunking' + (' %s' % {p: pp(x, 6) for p, x in vals.items()} if os.environ.get('SPUV_TB') else ''))
            return Layer([(jt, sub(e, b))] + others, idx, vals, cond)
    raise Unsupported('parallel chunk writes outside its range')


def subst64(t, k, v, rep, wide=None):
    """replace zext64(v) by rep (a 64-bit term); remaining bare v by its truncation"""
    r = t
    if wide is not None and t.w == 128:
        r = subst(r, {zext(v, 128): wide})
    r = subst(r, {k: rep[k]})
    if occurs(v, r):
        r = subst(r, {v: trunc(rep[k], v.w)})
    return r


# bit counting
def popcount_term(x, rw):
    acc = const(0, rw)
    for i in range(x.w):
        acc = add(acc, zext(extract(x, i, i), rw))
    return acc


@builtin('__builtin_clz', '__builtin_clzl', '__builtin_clzll', 'absl::countl_zero', 'absl::numeric_internal::CountLeadingZeroes32')
def b_clz(I, c):
    x = c.val(0)
    w = x.w
    I.safety('clz-nonzero', not_(eq(x, const(0, w)))) if c.fn.simple.startswith('__builtin') else None
    r = const(w, 32)
    for i in range(w):
        r = ite(eq(extract(x, i, i), const(1, 1)), const(w - 1 - i, 32), r)
    return r


@builtin('__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll', 'absl::countr_zero')
def b_ctz(I, c):
    x = c.val(0)
    w = x.w
    r = const(w, 32)
    for i in range(w - 1, -1, -1):
        r = ite(eq(extract(x, i, i), const(1, 1)), const(i, 32), r)
    return r


@builtin('__builtin_popcount', '__builtin_popcountl', '__builtin_popcountll')
def b_popc(I, c):
    return popcount_term(c.val(0), 32)


@builtin('absl::bit_width')
def b_bitw(I, c):
    x = c.val(0)
    w = x.w
    rw = c.ty.w if c.ty is not None and c.ty.k == 'int' else 32
    r = const(0, rw)
    for i in range(w):
        r = ite(eq(extract(x, i, i), const(1, 1)), const(i + 1, rw), r)
    return r


@builtin('yacl::DecomposeUInt128', 'yacl::DecomposeInt128')
def b_dec128(I, c):
    v = c.val(0)
    return Obj(I.P.recs.get(c.ty.r), {'first': trunc(lshr(v, const(64, 128)), 64), 'second': trunc(v, 64)})


@builtin('std::pow', 'pow', 'std::log2', 'std::log', 'std::exp', 'std::sqrt', 'sqrt', 'std::ldexp')
def b_math(I, c):
    import math
    vs = c.vals()
    if all(v.op in ('fp.const', 'c') for v in vs):
        xs = [IP._f2py(v) if v.w < 0 else sval(v) for v in vs]
        w = -c.ty.w
        r = {'pow': math.pow, 'log2': math.log2, 'log': math.log, 'exp': math.exp, 'sqrt': math.sqrt, 'ldexp': math.ldexp}[c.fn.simple](*xs)
        return fpc(r, w)
    return app('cmath.' + c.fn.simple, vs, -c.ty.w)


@builtin('yacl::crypto::RandBytes')
def b_randbytes(I, c):
    """assumed: an arbitrary byte string of the requested length"""
    from .interp import SArr
    return SArr(fresh('randbytes', 1).args[0], to64(c.val(0)), {(): 8})


def prg_leaf(seed, iv, cnt, w, path):
    nm = 'prg%d' % w + ''.join('_%s' % p for p in path)
    return lambda i: app(nm, [seed, to64(iv), to64(cnt), i], w)


def b_fillprand(kind):
    """assumed: a deterministic byte stream of (seed, iv, counter); returns the counter advanced by the blocks consumed"""
    def h(I, c):
        v = c.vals()
        seed, iv, cnt, sp = v[1], v[2], v[3], v[4]
        seed = sp_w(seed, 128)
        et = c.fn.ta[0] if c.fn.ta else None
        esz = max(1, et.w // 8) if et is not None and et.k == 'int' else 1
        if isinstance(sp, Ptr):
            sp = Span(sp.c, sp.k, to64(v[5]), None)
        sp = I.unbase(sp)
        tgt = sp.c
        if type(tgt) is not SArr:
            if isinstance(tgt, Cell) and is_c(sp.n) and cval(sp.n) == 1:
                I.setc(tgt, 'v', prg_leaf(seed, iv, cnt, esz * 8, ())(c64(0)))
                return add(to64(cnt), c64(1))
            if type(tgt) is Vec:
                for j in range(len(tgt.items)):
                    I.store(LV(tgt, j), prg_leaf(seed, iv, cnt, esz * 8, ())(c64(j)))
                return add(to64(cnt), c64((len(tgt.items) * esz + 15) // 16))
            if type(tgt) is Obj and is_c(to64(sp.n)) and cval(sp.n) == 1 and sp.off in tgt.f:
                I.setc(tgt, sp.off, prg_leaf(seed, iv, cnt, esz * 8, ())(c64(0)))
                return add(to64(cnt), c64((esz + 15) // 16))
            raise Unsupported('random fill of %r' % (tgt,))
        nbytes = mul(to64(sp.n), c64(esz))
        if tgt.leaves is None:
            raw = I.ghost.get('fill_leaves')
            if raw is None:
                raise Unsupported('random fill of an untyped array')
            tgt.leaves = dict(raw)
        tot = sum(w for w in tgt.leaves.values()) // 8
        I.checks.append(('random fill covers the whole array', eq(nbytes, mul(tgt.n, c64(tot))), list(I.pc)))
        kt = fresh('e', 40)
        k = zext(kt, 64)
        vals = {}
        for p, w in tgt.leaves.items():
            x = prg_leaf(seed, iv, cnt, w, p)(k)
            if kind == 'ltn':
                n = cast(v[5], w)
                x = ite(eq(n, const(0, w)), x, urem(x, n))
            elif kind == 'mers':
                m = const((1 << {32: 31, 64: 61, 128: 127}[w]) - 1, w)
                x = band(x, m)
                x = ite(eq(x, m), const(0, w), x)
            vals[p] = x
        I.setc(tgt, '%layers', tgt.layers + [IP.Layer([(kt, tgt.n)], k, vals, total=True)])
        return add(to64(cnt), lshr(add(nbytes, c64(15)), c64(4)))
    return h


def sp_w(t, w):
    return t if t.w == w else (zext(t, w) if t.w < w else trunc(t, w))


def cast(t, w):
    return sp_w(t, w)


BUILTINS['yacl::crypto::FillPRand'] = b_fillprand('plain')
BUILTINS['yacl::crypto::FillPRandWithLtN'] = b_fillprand('ltn')
BUILTINS['yacl::crypto::FillPRandWithMersennePrime'] = b_fillprand('mers')
BUILTINS['yacl::crypto::SecureRandSeed'] = lambda I, c: fresh('seed', 128)
BUILTINS['yacl::crypto::SecureRandU64'] = lambda I, c: fresh('seed', 64)


@builtin('absl::has_single_bit', 'std::has_single_bit')
def f_single_bit(I, c):
    v = I.unbase(c.val(0))
    return and_(not_(eq(v, const(0, v.w))), eq(band(v, sub(v, const(1, v.w))), const(0, v.w)))
