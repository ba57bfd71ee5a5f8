"""Contracts of the state objects of the additive-share protocol (dealer, triple cache) and input builders."""
from .protocol import *
from . import protocol as PR

NS = 'spu::mpc::semi2k::'
FILES = BASE + ['/verif/harness/h_semi2k.cc', 'mpc/semi2k/arithmetic.cc', 'mpc/semi2k/boolean.cc', 'mpc/semi2k/conversion.cc', 'mpc/semi2k/type.cc']
STATES['Semi2kState'] = 'semi2k'
METHODS['semi2k', 'beaver'] = lambda I, W, r, c: ptr(SO('beaver', W, r))
METHODS['semi2k', 'beaver_cache'] = lambda I, W, r, c: ptr(SO('bcache', W, r))


def fam(I):
    """whose share types the kernels under contract use"""
    return getattr(I.P, 'family', 'semi2k')


def isa(I, a):
    return hcall(I, 'is_%s_a' % fam(I), LV(Cell(I.copyval(a.ety.v))))


def isb(I, a):
    return hcall(I, 'is_%s_b' % fam(I), LV(Cell(I.copyval(a.ety.v))))


def aty(I, w):
    return hcall(I, fam(I) + '_a', fmval(I.P, w))


def bty(I, w, n):
    return hcall(I, fam(I) + '_b', fmval(I.P, w), n if isinstance(n, T) else const(n, 64))


def pubty(I, w):
    return hcall(I, 'pubring', fmval(I.P, w))


def privty(I, w, o):
    return hcall(I, 'privring', fmval(I.P, w), const(o, 64))


def refty(I, w):
    """the type under which the reference protocol carries a secret, as its own input/output code makes it"""
    fn = fn_named(I.P, 'spu::mpc::Ref2kIo::getShareType')
    o = Obj(I.P.recs[fn.rec], {'field_': fmval(I.P, w)})
    return I.rv(I.invoke(fn, [const(VIS_SECRET, 32), const(0, 32)], LV(Cell(o)), None))


VIS_SECRET = 1
hcall = RS.hcall


# ------------------------------------------------------------ dealer
def desc_state(I, p):
    """None: no caching, 'init', or the name of the replayed mask"""
    if p is NULL or p is None:
        return None
    o = I.unbase(I.rv(I.deref(p)))
    st = I.rv(o.get('status'))
    if not is_c(st):
        raise Unsupported('symbolic replay status')
    if cval(st) == 1:
        return ('init', o)
    return ('replay', o.f['%mask'])


def masks(I, W, k, w, descs, r):
    out = []
    for j, p in enumerate(descs):
        d = desc_state(I, p)
        if d is not None and d[0] == 'replay':
            out.append(d[1])
            continue
        nm = 'mask%d.%d' % (k, j)
        if d is not None:
            I.setc(d[1], '%mask', nm)
        out.append(nm)
    return out


def bb(W, w, n, at, r):
    return BBuf(mul(n, const(w // 8, 64)), lambda i, ww: at(r, i), w, n)


def argd(c, i, dflt=None):
    if len(c.args) <= i:
        return dflt
    return c.val(i)


@method('beaver', 'Mul')
def b_mul(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    d = [argd(c, 2), argd(c, 3)]
    et = argd(c, 4)
    if et is not None and is_c(et) and cval(et) != 0:
        raise Unsupported('triples over a prime field')
    k = dealer(W, r, 'Mul', (w, n))
    a, b = masks(I, W, k, w, d, r)
    A, B = shares_of(W, a, w, None, 'add'), shares_of(W, b, w, None, 'add')
    C = shares_of(W, 'prod%d' % k, w, lambda i: mul(total(W, a, w, i, 'add'), total(W, b, w, i, 'add')), 'add')
    return Vec([bb(W, w, n, f, r) for f in (A, B, C)])


@method('beaver', 'Square')
def b_square(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    k = dealer(W, r, 'Square', (w, n))
    a, = masks(I, W, k, w, [argd(c, 2)], r)
    A = shares_of(W, a, w, None, 'add')

    def sq(i):
        t = total(W, a, w, i, 'add')
        return mul(t, t)
    C = shares_of(W, 'prod%d' % k, w, sq, 'add')
    return pair(I, c, bb(W, w, n, A, r), bb(W, w, n, C, r))


@method('beaver', 'MulPriv')
def b_mulpriv(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    k = dealer(W, r, 'MulPriv', (w, n))
    I.require('MulPriv: two parties', boolt(W.n == 2))
    a = lambda p, i: app('mask%d@%d' % (k, p), [i], w)
    C = shares_of(W, 'prod%d' % k, w, lambda i: mul(a(0, i), a(1, i)), 'add')
    return pair(I, c, bb(W, w, n, a, r), bb(W, w, n, C, r))


@method('beaver', 'Dot')
def b_dot(I, W, r, c):
    w = fieldw(I, c.val(0))
    M, N, K = to64(c.val(1)), to64(c.val(2)), to64(c.val(3))
    k = dealer(W, r, 'Dot', (w, M, N, K))
    a, b = masks(I, W, k, w, [argd(c, 4), argd(c, 5)], r)
    A, B = shares_of(W, a, w, None, 'add'), shares_of(W, b, w, None, 'add')
    C = shares_of(W, 'prod%d' % k, w, lambda i: matprod(I, lambda x: total(W, a, w, x, 'add'), lambda x: total(W, b, w, x, 'add'), K, N, i), 'add')
    return Vec([bb(W, w, mul(M, K), A, r), bb(W, w, mul(K, N), B, r), bb(W, w, mul(M, N), C, r)])


def matprod(I, a, b, K, N, i):
    row, col = RS.rowcol(I, i, N)
    q = fresh('q', 40)
    kk = zext(q, 64)
    return mk_sum(q, K, mul(a(add(mul(row, K), kk)), b(add(mul(kk, N), col))))


@method('beaver', 'And')
def b_and(I, W, r, c):
    nb = to64(c.val(0))
    k = dealer(W, r, 'And', (nb,))

    def buf(j):
        def f(i, w):
            a = ['and%d.%d' % (k, x) for x in range(3)]
            if j < 2:
                return app('%s@%d' % (a[j], r), [i], w)
            g = shares_of(W, a[2], w, lambda i: band(total(W, a[0], w, i, 'xor'), total(W, a[1], w, i, 'xor')), 'xor')
            return g(r, i)
        return BBuf(nb, f)
    return Vec([buf(0), buf(1), buf(2)])


@method('beaver', 'Trunc')
def b_trunc(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    bits = c.val(2)
    k = dealer(W, r, 'Trunc', (w, n, bits))
    I.require('Trunc: shift amount below the ring width', ult(bits, const(w, bits.w)))
    R = lambda i: app('tr%d' % k, [i], w)
    sh = trunc(bits, w) if bits.w > w else zext(bits, w)
    return pair(I, c, bb(W, w, n, shares_of(W, 'trr%d' % k, w, R, 'add'), r), bb(W, w, n, shares_of(W, 'trb%d' % k, w, lambda i: ashr(R(i), sh), 'add'), r))


@method('beaver', 'TruncPr')
def b_truncpr(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    bits = c.val(2)
    k = dealer(W, r, 'TruncPr', (w, n, bits))
    I.require('TruncPr: shift amount below the ring width', ult(bits, const(w, bits.w)))
    R = lambda i: app('tr%d' % k, [i], w)
    sh = trunc(bits, w) if bits.w > w else zext(bits, w)
    f = [R, lambda i: lshr(shl(R(i), const(1, w)), add(sh, const(1, w))), lambda i: lshr(R(i), const(w - 1, w))]
    return Vec([bb(W, w, n, shares_of(W, 'tp%d.%d' % (k, j), w, g, 'add'), r) for j, g in enumerate(f)])


@method('beaver', 'RandBit')
def b_randbit(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    k = dealer(W, r, 'RandBit', (w, n))
    return bb(W, w, n, shares_of(W, 'rbs%d' % k, w, lambda i: zext(app('rb%d' % k, [i], 1), w), 'add'), r)


@method('beaver', 'Eqz')
def b_eqz(I, W, r, c):
    w = fieldw(I, c.val(0))
    n = to64(c.val(1))
    k = dealer(W, r, 'Eqz', (w, n))
    R = lambda i: app('ez%d' % k, [i], w)
    return pair(I, c, bb(W, w, n, shares_of(W, 'eza%d' % k, w, R, 'add'), r), bb(W, w, n, shares_of(W, 'ezb%d' % k, w, R, 'xor'), r))


# ------------------------------------------------------------ triple cache
@method('bcache', 'GetCache')
def g_cache(I, W, r, c):
    x = c.val(0)
    rec = I.P.recs[c.ty.r] if c.ty is not None else None
    drec = None
    o = I.default_rec(rec, c.ty, True) if rec is not None else None
    if o is None:
        raise Unsupported('cache record')
    nm = W.cachename.get((r, x.store.name)) if hasattr(W, 'cachename') else None
    d = I.unbase(I.rv(o.get('replay_desc')))
    mode = W.cachemode.get(nm) if nm is not None else None
    if mode is None:
        I.setc(o, 'enabled', FALSE)
        I.setc(d, 'status', const(1, 32))
        return o
    I.setc(o, 'enabled', TRUE)
    if mode == 'init':
        I.setc(d, 'status', const(1, 32))
        return o
    I.setc(d, 'status', const(2, 32))
    I.setc(d, '%mask', 'cached.' + nm)
    s = [Snap(I, y) for y in W.inputs[nm]]
    w = W.w
    A = lambda i: total(W, 'cached.' + nm, w, i, 'add')
    X = lambda i: comb('add', [W.inval(nm, p, i) for p in range(W.n)])
    I.setc(o, 'open_cache', AR.new_arr(I, I.copyval(x.ety.v), I.copyval(x.shape.v), 'opened', {(): w}, lambda p, i: sub(X(i), A(i))))
    return o


@method('bcache', 'SetCache')
def s_cache(I, W, r, c):
    x, d, xa = c.val(0), I.unbase(c.val(1)), c.val(2)
    nm = W.cachename.get((r, x.store.name))
    mask = d.f.get('%mask')
    W.append(('cacheset', r), (nm, mask, Snap(I, xa), xa.numel(I)))


def cache_obls(I, W):
    """what is cached for x is exactly x - a for the mask the dealer tied to the cached descriptor"""
    for r in range(W.n):
        for nm, mask, s, n in W.logs.d.get(('cacheset', r), ()):
            if nm is None:
                yield 'cache: only arrays with caching enabled are recorded', FALSE
                continue
            i = fresh_idx(I, n, 'c')
            if mask is None:
                yield 'cache: recorded together with a descriptor the dealer filled', FALSE
                continue
            yield 'cache: recorded opening is x - a', eq(W.resolve(s.at(i)), W.resolve(sub(comb('add', [W.inval(nm, p, i) for p in range(W.n)]), total(W, mask, W.w, i, 'add'))))



def const_array(I, c):
    w = RS.field_w(I, c.val(0))
    return AR.new_arr(I, I.copyval(c.val(0)), I.copyval(c.val(1)), 'zeros', {(): w}, lambda p, i: const(0, w))


# ------------------------------------------------------------ running one kernel on all parties
class In:
    """a logical input: kind 'a' additive, 'b<bits>' xor-shared, 'p' public, 'v<owner>' private"""
    def __init__(self, name, kind, shape=None, ety=None, w=None):
        self.name, self.kind, self.shape, self.ety, self.w = name, kind, shape, ety, w
        self.value = None       # the value as a term of the index (a change of variables); the last party's word follows


def kind_ty(I, kind, w):
    if kind in 'az':
        return aty(I, w)
    if kind == 'p':
        return pubty(I, w)
    if kind == 's':
        return refty(I, w)
    if kind[0] == 'v':
        return privty(I, w, int(kind[1:]))
    if kind[0] == 'b':
        return bty(I, w, int(kind[1:]))
    raise Unsupported(kind)


def in_val(kind, name, w, p, i):
    """party p's word of the input"""
    if kind == 'z' and p == 2:
        return const(0, w)      # the assistant holds no share of an arithmetic secret
    if kind in 'az' or kind[0] == 'b':
        return app('%s@%d' % (name, p), [i], w)
    if kind in ('p', 's'):
        return app(name, [i], w)
    return app(name, [i], w) if p == int(kind[1:]) else app('junk.%s@%d' % (name, p), [i], w)


def share_in(x, w, p, i, n):
    if x.value is not None and x.kind[0] in 'psv':
        return x.value(i) if x.kind[0] != 'v' or p == int(x.kind[1:]) else in_val(x.kind, x.name, w, p, i)
    if x.value is None or p != (1 if x.kind == 'z' else n - 1):
        return in_val(x.kind, x.name, w, p, i)
    if x.kind == 'z':
        return sub(x.value(i), in_val('z', x.name, w, 0, i))
    rest = comb('add' if x.kind == 'a' else 'xor', [in_val(x.kind, x.name, w, q, i) for q in range(n - 1)])
    return sub(x.value(i), rest) if x.kind == 'a' else bxor(x.value(i), rest)


def plain(kind, name, w, n, i):
    """the value the parties' words of the input stand for"""
    if kind in 'az':
        return comb('add', [in_val(kind, name, w, p, i) for p in range(n)])
    if kind[0] == 'b':
        return comb('xor', [in_val(kind, name, w, p, i) for p in range(n)])
    return app(name, [i], w)


def shl2mul(t):
    """x << k written as x * (1 << k)"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        y = TM.rebuild(x, go) if x.op not in ('sum',) else x
        if y.op == 'shl' and not is_c(y.args[1]) and not is_c(y.args[0]):
            y = mul(y.args[0], shl(const(1, y.w), y.args[1]))
        memo[x.id] = y
        return y
    return go(t)


def kern(ctx, P, cls, n, w, ins, spec, out='a', args=None, cache=None, same=(), opts=None, numel=None, assume=None, setup=None,
         rank_ok=None, mode='bv', timeout=None, more=None, oshape=None, outw=None, addshares=False, norm=None, pre=None, select=None, ns=NS):
    """cls::proc run by all n parties: the result stands for spec(values of the inputs)"""
    def su(I):
        I.overrides['spu::makeConstantArrayRef'] = const_array
        if setup:
            setup(I)
    I = mk(P, n, w, opts, setup=su)
    fn = fn_named(P, ns + cls + '::proc')
    rec = P.recs[fn.parent] if isinstance(getattr(fn, 'parent', None), str) and fn.parent in P.recs else None

    def call(I):
        W = I.cur = World(I, n, w, opts)
        W.cachename, W.cachemode = {}, cache or {}
        W.inputs = {}
        W.kinds = {x.name: x.kind for x in ins}
        W.ws = {x.name: x.w or w for x in ins}
        W.inval = lambda nm, p, i: in_val(W.kinds[nm], nm, W.ws[nm], p, i)
        base = ashape('s')
        W.shape = base
        W.shapes = {}
        if assume:
            assume(I, W)
        for x in ins:
            W.shapes[x.name] = x.shape(I, W) if x.shape else base
            W.inputs[x.name] = []
            for p in range(n):
                src = dict(same).get(x.name)
                if src:
                    a = W.inputs[src][p]
                else:
                    ww = x.w or w
                    ety = x.ety(I, W) if x.ety else kind_ty(I, x.kind, ww)
                    a = AR.new_arr(I, ety, I.copyval(W.shapes[x.name]), x.name, {(): ww}, lambda q, i, p=p, x=x, ww=ww: share_in(x, ww, p, i, n))
                    W.cachename[p, a.store.name] = x.name
                W.inputs[x.name].append(a)
        W.snaps = [('input %s of party %d' % (x.name, p), W.inputs[x.name][p], Snap(I, W.inputs[x.name][p])) for x in ins for p in range(n) if x.name not in dict(same)]
        outs = []
        for p in range(n):
            av = [W.inputs[x.name][p].copy(I) if hasattr(W.inputs[x.name][p], 'copy') else W.inputs[x.name][p] for x in ins]
            al = args(I, W, p, av) if args else av
            outs.append(I.rv(I.invoke(fn, [LV(Cell(ctxof(W, p)))] + [LV(Cell(a)) for a in al], LV(Cell(Obj(None))), None)))
        return Vec(outs)

    def post(I, W, v):
        outs = v.items
        if select:
            for p, o in enumerate(outs):
                o = I.unbase(o)
                if type(o) is not Vec:
                    raise Unsupported('list of results')
                yield 'party %d: number of results' % p, boolt(len(o.items) == select[1])
                if len(o.items) != select[1]:
                    return
            outs = [I.rv(I.unbase(o).items[select[0]]) for o in outs]
        sh = oshape(I, W) if oshape else W.shape
        for p, o in enumerate(outs):
            yield 'party %d: result has the operands\' shape' % p, RS.same_shape(I, o.shape.v, sh)
        ow = outw or w
        kd = out
        want = out(I, W) if callable(out) else kind_ty(I, out, ow) if out != 'b*' else None
        for p, o in enumerate(outs):
            if kd == 'b*':
                yield 'party %d: result type' % p, and_(isb(I, o), eq(hcall(I, 'fieldof', LV(Cell(I.copyval(o.ety.v)))), fmval(I.P, ow)))
                continue
            yield 'party %d: result type' % p, hcall(I, 'sametype', LV(Cell(I.copyval(o.ety.v))), LV(Cell(want)))
        if oshape:
            i = None
            ncol = I.unbase(sh).items[1]
            i1, i2 = zext(fresh('r', 40), 64), zext(fresh('cc', 40), 64)
            I.assume(ult(i1, I.unbase(sh).items[0]))
            I.assume(ult(i2, ncol))
            i = add(mul(i1, ncol), i2)
            I.ghost['rowcol'] = {i: (i1, i2)}
            I.ghost['rowcol_n'] = [ncol]
        else:
            i = fresh_idx(I, AR.shape_numel(I, sh))
        V = {x.name: (lambda j, x=x: x.value(j) if x.value else plain(x.kind, dict(same).get(x.name, x.name), W.ws[x.name], n, j)) for x in ins}
        if pre:
            pre(I, W, V, i)
        s = spec(I, W, V, i) if spec else None
        kind = out if isinstance(out, str) else 'a' if addshares else 'b1'
        rs = [rd(I, o, i, ()) for o in outs]
        rs = [W.resolve(r) for r in rs]
        if any(r.w != ow for r in rs):
            yield 'result width', FALSE
        elif spec is None:
            W.tot = comb('add', rs)
        elif kind in 'az':
            if kind == 'z':
                yield 'the assistant\'s share of the result is zero', eq(rs[2], const(0, ow))
            g = eq(comb('add', rs), s)
            yield 'the shares of the result add up to the specified value', norm(W.resolve(g)) if norm else g
        elif kind[0] == 'b':
            g = eq(comb('xor', rs), s)
            yield 'the shares of the result xor to the specified value', norm(W.resolve(g)) if norm else g
        elif kind in ('p', 's'):
            for p in range(n):
                yield 'party %d: public result' % p, eq(rs[p], s)
        else:
            o = int(kind[1:])
            yield 'the owner receives the specified value', eq(rs[o], s)
        if more:
            yield from more(I, W, V, outs, i)
        for x in frame(I, W.snaps):
            yield x
        yield from cache_obls(I, W)
    fullrun(ctx, I, None, call, post, mode=mode, timeout=timeout)
