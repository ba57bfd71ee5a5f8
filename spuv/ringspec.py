"""Contracts of the ring primitives (spu::mpc::ring_*): used at call sites and, unchanged, as proof obligations."""
from .terms import *
from . import terms as TM
from .interp import *
from .interp import Layer
from .arr import *
from .stdlib import to64, length

FM = {32: 1, 64: 2, 128: 3}
NS = 'spu::mpc::'


def hfn(P, n):
    c = [f for f in P.byname.get('vh::' + n, []) if f.hasbody]
    if len(c) != 1:
        raise Unsupported('harness function %s' % n)
    return c[0]


def hcall(I, n, *args):
    fn = hfn(I.P, n)
    return I.rv(I.invoke(fn, list(args), None, None))


_fm = {}


def fmval(P, w):
    """enumerator value of FM<w> in the current source"""
    return const(_fmnum(P, w), 32)


def _fmnum(P, w):
    return FM[w]


def ringty(I, w):
    return hcall(I, 'ring', fmval(I.P, w))


def field_w(I, ety):
    """ring width in bits of an element type (through the code's own field())"""
    ety = I.rv(ety) if type(ety) is LV else ety
    f = hcall(I, 'fieldof', LV(Cell(ety)))
    if not is_c(f):
        raise Unsupported('symbolic field')
    for w, n in FM.items():
        if n == cval(f):
            return w
    raise Throw('invalid field')


def sym_arr(I, name, shape, w, ety=None, leaves=None):
    a = new_arr(I, ety if ety is not None else ringty(I, w), shape, name, leaves if leaves is not None else {(): w})
    return a


def arr_of(c, i):
    a = c.val(i)
    if not isinstance(a, Arr):
        raise Unsupported('array argument')
    return a


def chk2(I, x, y, what):
    wx, wy = field_w(I, x.ety.v), field_w(I, y.ety.v)
    I.require('%s: equal ring fields' % what, TRUE if wx == wy else FALSE)
    I.require('%s: equal shapes' % what, same_shape(I, x.shape.v, y.shape.v))
    return wx


def with_w(I, a, w):
    """the ring element is the only leaf"""
    if a.store.leaves is None:
        a.store.leaves = {a.path: w}
    if {p[len(a.path):]: x for p, x in a.store.leaves.items() if p[:len(a.path)] == a.path} != {(): w}:
        raise Unsupported('ring operation on a non-ring layout %r' % (a.store.leaves,))


def mkres(I, x, f, w, name, shape=None, ety=None):
    """fresh array whose element i is f(i)"""
    return new_arr(I, I.copyval(ety if ety is not None else x.ety.v), I.copyval(shape if shape is not None else x.shape.v), name, {(): w}, lambda p, i: f(i))


def wrlayer(I, x, f):
    """x[i] := f(i) for every i"""
    n = x.numel(I)
    kt = fresh('e', 40)
    k = zext(kt, 64)
    idx = x.imap(k) if x.imap is not None else k
    I.setc(x.store, '%layers', x.store.layers + [Layer([(kt, n)], idx, {x.path: f(k)}, total=x.imap is None and x.store.n is n)])


B = lambda c, w: b2bv(c, w)

# name -> element function of (a, b, w)
EW2 = {
    'ring_add': lambda a, b, w: add(a, b),
    'ring_sub': lambda a, b, w: sub(a, b),
    'ring_mul': lambda a, b, w: mul(a, b),
    'ring_and': lambda a, b, w: band(a, b),
    'ring_xor': lambda a, b, w: bxor(a, b),
    'ring_equal': lambda a, b, w: b2bv(eq(a, b), w),
}
EW1 = {
    'ring_not': lambda a, w: bnot(a),
    'ring_neg': lambda a, w: neg(a),
}


def amt(b, w):
    return cast_w(b, w)


SH = {
    'ring_arshift': lambda a, b, w: ashr(a, amt(b, w)),
    'ring_rshift': lambda a, b, w: lshr(a, amt(b, w)),
    'ring_lshift': lambda a, b, w: shl(a, amt(b, w)),
}


def bitmask_fn(a, lo, hi, w):
    """keep bits [lo, hi), 0 <= lo < hi <= w"""
    r = const(0, w)
    m = bnot(const(0, w))
    lo, hi = cast_w(lo, w), cast_w(hi, w)
    width = sub(hi, lo)
    ones = sub(shl(const(1, w), width), const(1, w))     # width == w: shl gives 0, minus one gives all ones
    return band(a, shl(ones, lo))


def bitrev_fn(a, s, e, w):
    """bits [s,e) reversed, the rest kept (s, e constants)"""
    s, e = cval(s), cval(e)
    r = const(0, w)
    for i in range(w):
        src = i if not (s <= i < e) else s + e - 1 - i
        bit = lshr(band(a, const(1 << src, w)), const(src, w))
        r = bor(r, shl(bit, const(i, w)))
    return r


# ------------------------------------------------------------ element-wise result of a contract, given snapshots
def shift_bits(I, bits, idx, n):
    """bits: Vec/SArr of int64; splat when it has one element"""
    b = I.unbase(bits)
    if type(b) is Vec and len(b.items) == 1:
        return b.items[0]
    if type(b) is SArr:
        return I.layers_read(b, b.layers, idx, ())
    if type(b) is Vec and all(x is b.items[0] for x in b.items):
        return b.items[0]
    if type(b) is Vec:
        r = b.items[-1]
        for i in range(len(b.items) - 2, -1, -1):
            r = ite(eq(idx, const(i, 64)), b.items[i], r)
        return r
    raise Unsupported('shift amounts')


def install(I, skip=()):
    C = I.contracts

    def put(name, f):
        if name not in skip:
            C[NS + name] = f

    for nm, f in EW2.items():
        def pure(I, c, f=f, nm=nm):
            x, y = arr_of(c, 0), c.val(1)
            if not isinstance(y, Arr):
                if nm != 'ring_mul':
                    raise Unsupported('scalar operand of ' + nm)
                w = field_w(I, x.ety.v)
                with_w(I, x, w)
                sx = Snap(I, x)
                y = trunc(y, w) if y.w > w else y
                return mkres(I, x, lambda i: mul(sx.at(i), y), w, nm)
            w = chk2(I, x, y, nm)
            with_w(I, x, w), with_w(I, y, w)
            sx, sy = Snap(I, x), Snap(I, y)
            return mkres(I, x, lambda i: f(sx.at(i), sy.at(i), w), w, nm)

        def inpl(I, c, f=f, nm=nm):
            x, y = arr_of(c, 0), c.val(1)
            if not isinstance(y, Arr):
                w = field_w(I, x.ety.v)
                with_w(I, x, w)
                sx = Snap(I, x)
                y = trunc(y, w) if y.w > w else y
                wrlayer(I, x, lambda i: mul(sx.at(i), y))
                return None
            w = chk2(I, x, y, nm + '_')
            with_w(I, x, w), with_w(I, y, w)
            sx, sy = Snap(I, x), Snap(I, y)
            wrlayer(I, x, lambda i: f(sx.at(i), sy.at(i), w))
        put(nm, pure)
        put(nm + '_', inpl)
    for nm, f in EW1.items():
        def pure1(I, c, f=f, nm=nm):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            return mkres(I, x, lambda i: f(sx.at(i), w), w, nm)

        def inpl1(I, c, f=f, nm=nm):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            wrlayer(I, x, lambda i: f(sx.at(i), w))
        put(nm, pure1)
        put(nm + '_', inpl1)

    def chkbits(I, x, bits, w, nm):
        b = I.unbase(bits)
        ln = length(I, b)
        if not (is_c(ln) and cval(ln) == 1):
            I.require('%s: one shift amount or one per element' % nm, or_(eq(ln, const(1, 64)), eq(ln, x.numel(I))))
        if type(b) is Vec:
            for q in b.items:
                I.require('%s: shift amount in [0, %d)' % (nm, w), ult(q, const(w, 64)))
    for nm, f in SH.items():
        def pures(I, c, f=f, nm=nm):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            bits = I.copyval(c.val(1))
            chkbits(I, x, bits, w, nm)
            return mkres(I, x, lambda i: f(sx.at(i), shift_bits(I, bits, i, None), w), w, nm)

        def inpls(I, c, f=f, nm=nm):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            bits = I.copyval(c.val(1))
            chkbits(I, x, bits, w, nm)
            wrlayer(I, x, lambda i: f(sx.at(i), shift_bits(I, bits, i, None), w))
        put(nm, pures)
        put(nm + '_', inpls)

    def two(nm, g, reqs):
        def p(I, c):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            a, b = c.val(1), c.val(2)
            reqs(I, a, b, w)
            return mkres(I, x, lambda i: g(sx.at(i), a, b, w), w, nm)

        def q(I, c):
            x = arr_of(c, 0)
            w = field_w(I, x.ety.v)
            with_w(I, x, w)
            sx = Snap(I, x)
            a, b = c.val(1), c.val(2)
            reqs(I, a, b, w)
            wrlayer(I, x, lambda i: g(sx.at(i), a, b, w))
        put(nm, p)
        put(nm + '_', q)
    two('ring_bitmask', bitmask_fn, lambda I, a, b, w: I.require('ring_bitmask: low < high <= width', and_(ult(a, b), ule(b, const(w, 64)))))
    two('ring_bitrev', lambda x, a, b, w: bitrev_any(x, a, b, w), lambda I, a, b, w: I.require('ring_bitrev: start <= end <= width', and_(ule(a, b), ule(b, const(w, 64)))))

    def bitrev_any(x, a, b, w):
        if not (is_c(a) and is_c(b)):
            raise Unsupported('symbolic bit range')
        return bitrev_fn(x, a, b, w)

    def fld(v):
        for w, n in FM.items():
            if is_c(v) and cval(v) == n:
                return w
        raise Unsupported('symbolic field')

    def zeros(I, c):
        w = fld(c.val(0))
        return new_arr(I, ringty(I, w), I.copyval(c.val(1)), 'zeros', {(): w}, lambda p, i: const(0, w))

    def ones(I, c):
        w = fld(c.val(0))
        return new_arr(I, ringty(I, w), I.copyval(c.val(1)), 'ones', {(): w}, lambda p, i: const(1, w))
    put('ring_zeros', zeros)
    put('ring_ones', ones)

    def rand(I, c):
        w = fld(c.val(0))
        if len(c.args) > 2:
            return NotImplemented
        I.ghost['randcnt'] = I.ghost.get('randcnt', 0) + 1
        return new_arr(I, ringty(I, w), I.copyval(c.val(1)), 'rand', {(): w})
    put('ring_rand', rand)

    def randbit(I, c):
        w = fld(c.val(0))
        nm = fresh('randbit', 1).args[0]
        return new_arr(I, ringty(I, w), I.copyval(c.val(1)), 'randbit', {(): w}, lambda p, i: band(app(nm, [i], w), const(1, w)))
    put('ring_randbit', randbit)

    def assign(I, c):
        x, y = arr_of(c, 0), arr_of(c, 1)
        w = chk2(I, x, y, 'ring_assign')
        with_w(I, x, w), with_w(I, y, w)
        sy = Snap(I, y)
        wrlayer(I, x, lambda i: sy.at(i))
    put('ring_assign', assign)

    def rsum(I, c):
        v = I.unbase(c.val(0))
        items = [I.rv(lv) for lv in I.iterate(v, None)] if not isinstance(v, Vec) else [I.rv(LV(v, i)) for i in range(len(v.items))]
        I.require('ring_sum: at least one operand', TRUE if items else FALSE)
        if len(items) == 1:
            return items[0].copy(I)
        w = field_w(I, items[0].ety.v)
        sn = []
        for y in items:
            chk2(I, items[0], y, 'ring_sum')
            with_w(I, y, w)
            sn.append(Snap(I, y))
        return mkres(I, items[0], lambda i: add(*[s.at(i) for s in sn]), w, 'ring_sum')
    put('ring_sum', rsum)

    def castb(I, c):
        x = arr_of(c, 0)
        w = field_w(I, x.ety.v)
        with_w(I, x, w)
        sx = Snap(I, x)
        n = x.numel(I)
        return SArr(fresh('castbool', 1).args[0], n, {(): 8}, lambda p, i: trunc(band(sx.at(i), const(1, w)), 8))
    put('ring_cast_boolean', castb)

    def sel(I, c):
        cv, x, y = I.unbase(c.val(0)), arr_of(c, 1), arr_of(c, 2)
        w = chk2(I, x, y, 'ring_select')
        with_w(I, x, w), with_w(I, y, w)
        sx, sy = Snap(I, x), Snap(I, y)
        I.require('ring_select: one condition per element', eq(length(I, cv), x.numel(I)))
        if type(cv) is not SArr:
            raise Unsupported('ring_select conditions')
        lay = list(cv.layers)
        return mkres(I, x, lambda i: ite(eq(I.layers_read(cv, lay, i, ()), const(0, 8)), sx.at(i), sy.at(i)), w, 'ring_select')
    put('ring_select', sel)

    def alleq(I, c):
        x, y = arr_of(c, 0), arr_of(c, 1)
        w = chk2(I, x, y, 'ring_all_equal')
        return fresh('ring_all_equal', 0)
    put('ring_all_equal', alleq)

    def mmul(I, c):
        x, y = arr_of(c, 0), arr_of(c, 1)
        return mmul_res(I, x, y)
    put('ring_mmul', mmul)

    def mmul_(I, c):
        z, x, y = arr_of(c, 0), arr_of(c, 1), arr_of(c, 2)
        r = mmul_res(I, x, y)
        I.require('ring_mmul_: output shape', same_shape(I, z.shape.v, r.shape.v))
        sr = Snap(I, r)
        with_w(I, z, list(r.store.leaves.values())[0])
        wrlayer(I, z, lambda i: sr.at(i))
    put('ring_mmul_', mmul_)

    def splits(I, c, op):
        x = arr_of(c, 0)
        n = c.val(1)
        if not is_c(n):
            raise Unsupported('symbolic number of splits')
        I.require('splits: more than one', TRUE if cval(n) > 1 else FALSE)
        w = field_w(I, x.ety.v)
        with_w(I, x, w)
        sx = Snap(I, x)
        rs = [new_arr(I, ringty(I, w), I.copyval(x.shape.v), 'split', {(): w}) for _ in range(cval(n) - 1)]
        sn = [Snap(I, r) for r in rs]
        if op == 'add':
            f = lambda i: sub(sx.at(i), add(const(0, w), *[s.at(i) for s in sn]))
        else:
            def f(i):
                r = sx.at(i)
                for s in sn:
                    r = bxor(r, s.at(i))
                return r
        return Vec([mkres(I, x, f, w, 'split0')] + rs)
    put('ring_rand_additive_splits', lambda I, c: splits(I, c, 'add'))
    put('ring_rand_boolean_splits', lambda I, c: splits(I, c, 'xor'))


def mmul_res(I, x, y):
    w, wy = field_w(I, x.ety.v), field_w(I, y.ety.v)
    with_w(I, x, w), with_w(I, y, wy)
    I.require('ring_mmul: equal ring fields', TRUE if w == wy else FALSE)
    sx_, sy_ = I.unbase(x.shape.v), I.unbase(y.shape.v)
    if type(sx_) is not Vec or type(sy_) is not Vec:
        raise Unsupported('matrix product of abstract shapes')
    I.require('ring_mmul: two-dimensional operands', TRUE if len(sx_.items) == 2 and len(sy_.items) == 2 else FALSE)
    I.require('ring_mmul: contracting dimension', eq(sx_.items[1], sy_.items[0]))
    M, K, N = sx_.items[0], sx_.items[1], sy_.items[1]
    a, b = Snap(I, x), Snap(I, y)

    def at(idx):
        r, cc = rowcol(I, idx, N)
        kt = fresh('q', 40)
        k = zext(kt, 64)
        ia, ib = add(mul(r, K), k), add(mul(k, N), cc)
        # k < K inside the sum and cc < N, so these are the row and column of the two indices
        I.ghost.setdefault('rowcol2', {}).update({(ia, K): (r, k), (ib, N): (k, cc)})
        return mk_sum(kt, K, mul(a.at(ia), b.at(ib)))
    sh = Vec([M, N])
    return mkres(I, x, at, w, 'mmul', shape=sh)


def rowcol(I, idx, N):
    """row and column of flat index idx in a matrix with N columns; idx = i*N + j recognised structurally"""
    rc = I.ghost.get('rowcol', {}).get(idx) or I.ghost.get('rowcol2', {}).get((idx, N))
    if rc is not None:
        return rc
    return udiv(idx, N), urem(idx, N)
