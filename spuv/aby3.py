"""Kernels of the replicated three-party protocol run by all three parties in lock step.

Party p holds the pair (x_p, x_{p+1}) of each element; the value is x_0+x_1+x_2 (xor for boolean shares)."""
from .protocol import *
from . import protocol as PR
from .semi2k import matprod, const_array
from . import terms as TM, prove as PV
from .terms import atoms

NS = 'spu::mpc::aby3::'
FILES = BASE + ['/verif/harness/h_aby3.cc', 'mpc/aby3/arithmetic.cc', 'mpc/aby3/boolean.cc', 'mpc/aby3/conversion.cc', 'mpc/aby3/type.cc', 'mpc/aby3/value.cc', 'mpc/aby3/ot.cc', 'core/type_util.cc']
hcall = RS.hcall
PT = {8: 'PT_U8', 16: 'PT_U16', 32: 'PT_U32', 64: 'PT_U64', 128: 'PT_U128'}
N = 3


def ptval(I, w):
    return hcall(I, 'pt_u%d' % w)


def dim(n):
    return zext(var(n, 20), 64)


def fitw(k, w):
    return trunc(k, w) if w < k.w else zext(k, w) if w > k.w else k


def below(v, nb):
    """v < 2^nb"""
    w = v.w
    return or_(ule(const(w, nb.w), nb), eq(lshr(v, fitw(nb, w)), const(0, w)))


def aty(I, w):
    return hcall(I, 'aby3_a', fmval(I.P, w))


def bty(I, bw, n):
    return hcall(I, 'aby3_b', ptval(I, bw), n if isinstance(n, T) else const(n, 64))


class In:
    """a logical input: 'a' arithmetic share, 'b' boolean share stored in bw-bit words and declared with nb bits (a number or a
    term), 'p' public, 'v<owner>' private"""
    def __init__(self, name, kind, shape=None, bw=None, nb=None, clean=True):
        self.name, self.kind, self.shape, self.bw, self.nb, self.clean = name, kind, shape, bw, nb, clean

    def word(self, j, i, w):
        """additive / xor component j"""
        x = app('%s#%d' % (self.name, j), [i], self.bw if self.kind == 'b' else w)
        return x

    def val(self, i, w):
        if self.kind in 'ab':
            return comb('add' if self.kind == 'a' else 'xor', [self.word(j, i, w) for j in range(N)])
        return app(self.name, [i], w)


def get_share(I, c):
    """contract of getFirstShare/getSecondShare: the component of each element, sharing storage"""
    x, j = c.val(0), c.val(1)
    if not is_c(j):
        raise Unsupported('symbolic component')
    j = cval(j)
    I.require('getShare: component 0 or 1', boolt(j in (0, 1)))
    ety = I.copyval(x.ety.v)
    if hcall(I, 'is_aby3_b', LV(Cell(ety))) is TRUE:
        b = hcall(I, 'aby3_back', LV(Cell(I.copyval(ety))))
        w = next(k for k in PT if cval(ptval(I, k)) == cval(b))
        ty = hcall(I, 'pt', b)
    else:
        w = RS.field_w(I, ety)
        ty = RS.ringty(I, w)
    if x.store.leaves is None:
        x.store.leaves = {x.path + (k,): w for k in (0, 1)}
    if (x.path + (j,)) not in x.store.leaves or x.store.leaves[x.path + (j,)] != w:
        raise Unsupported('component layout')
    a = Arr(x.store, Cell(ty), Cell(I.copyval(x.shape.v)), x.imap, x.path + (j,), x.name)
    return a


def with_facts(t, facts):
    """t with every boolean subterm that is a known fact (or the negation of one) replaced"""
    facts = list(facts)
    for f in facts[:]:
        if f.op == 'ult':
            facts.append(ne(f.args[1], const(0, f.args[1].w)))
    fs = {f.id for f in facts}
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            if x.w == 0 and x.id in fs:
                r = TRUE
            elif x.w == 0 and not_(x).id in fs:
                r = FALSE
            else:
                r = TM.rebuild(x, go) if x.op != 'sum' else x
            memo[x.id] = r
        return r
    return go(t)


def split_bits(name):
    """case split on the low bit of the three components of boolean share `name`"""
    def f(g, I, i):
        g = with_facts(g, I.pc)
        apps = sorted({a for a in atoms(g, lambda x: x.op == 'app' and x.args[0].startswith(name + '#'))}, key=lambda a: a.id)
        cases = [g]
        for a in apps:
            hi = app(a.args[0] + '.hi', list(a.args[1:]), a.w)
            cases = [TM.subst(c, {a: add(mul(hi, const(2, a.w)), const(b, a.w))}) for c in cases for b in (0, 1)]
        return and_(*[with_facts(c, I.pc) for c in cases])
    f.full = True
    return f


def bits_norm(name, nb):
    """write the low nb bits of every component of boolean share `name` as separate variables, conditionals as arithmetic"""
    def f(g, I, i):
        g = with_facts(g, I.pc)
        m = {}
        for a in atoms(g, lambda x: x.op == 'app' and x.args[0].startswith(name + '#')):
            v = const(0, a.w)
            for j in range(nb):
                b = app('%s.b%d' % (a.args[0], j), list(a.args[1:]), 1)
                v = bxor(v, shl(zext(b, a.w), const(j, a.w)))
            if nb < a.w:
                v = bxor(v, shl(app(a.args[0] + '.hi', list(a.args[1:]), a.w), const(nb, a.w)))
            m[a] = v
        g = with_facts(TM.subst(g, m), I.pc)
        return PR.bitarith(ite2arith(nested(g)))
    f.full = True
    return f


def nested(t):
    """inside ite(c, a, b): c is true in a and false in b"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = TM.rebuild(x, go) if x.op != 'sum' else x
            if r.op == 'ite':
                c, a, b = r.args
                n = not_(c)
                r = ite(c, TM.subst(a, {c: TRUE, n: FALSE}), TM.subst(b, {c: FALSE, n: TRUE}))
            memo[x.id] = r
        return r
    return go(t)


def bit_of(c):
    """a condition as a one-bit number"""
    if c.op == 'not':
        return bnot(bit_of(c.args[0]))
    if c.op == 'eq' and c.args[0].w == 1:
        return bnot(bxor(c.args[0], c.args[1]))
    return ite(c, const(1, 1), const(0, 1))


def ite2arith(t):
    """ite(c, a, b) of words as b + c*(a-b), c a one-bit number"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = TM.rebuild(x, go) if x.op != 'sum' else x
            if r.op == 'ite' and r.w > 1:
                c, a, b = r.args
                r = add(b, mul(zext(bit_of(c), r.w), sub(a, b)))
            memo[x.id] = r
        return r
    return go(t)


def kern(ctx, P, cls, w, ins, spec, out='a', args=None, same=(), opts=None, assume=None, setup=None, mode='bv', timeout=None, more=None, oshape=None,
         norm=None, pre=None, ow=None, obits=None, obw=None, fnname=None, select=None):
    n = N

    def su(I):
        I.overrides['spu::makeConstantArrayRef'] = const_array
        I.overrides[NS + 'getShare'] = get_share
        if setup:
            setup(I)
    I = mk(P, n, w, opts, setup=su)
    fn = fn_named(P, fnname or NS + cls + '::proc')
    drop = dict(same)
    byname = {x.name: x for x in ins}

    def call(I):
        W = I.cur = World(I, n, w, opts)
        W.inputs = {}
        W.shape = ashape('s')
        W.shapes = {}
        if assume:
            assume(I, W)
        for x in ins:
            sh = W.shapes[x.name] = x.shape(I, W) if x.shape else W.shape
            W.inputs[x.name] = []
            for p in range(n):
                if x.name in drop:
                    a = W.inputs[drop[x.name]][p]
                elif x.kind in 'ab':
                    nb = x.nb
                    ety = aty(I, w) if x.kind == 'a' else bty(I, x.bw, nb)
                    ww = w if x.kind == 'a' else x.bw
                    a = AR.new_arr(I, ety, I.copyval(sh), x.name, {(0,): ww, (1,): ww}, lambda q, i, p=p, x=x: x.word((p + q[0]) % n, i, w))
                else:
                    if x.kind == 'p':
                        ety, f = hcall(I, 'pubring', fmval(I.P, w)), lambda q, i, x=x: app(x.name, [i], w)
                    else:
                        o = int(x.kind[1:])
                        ety = hcall(I, 'privring', fmval(I.P, w), const(o, 64))
                        f = lambda q, i, x=x, p=p, o=o: app(x.name, [i], w) if p == o else app('junk.%s@%d' % (x.name, p), [i], w)
                    a = AR.new_arr(I, ety, I.copyval(sh), x.name, {(): w}, f)
                W.inputs[x.name].append(a)
        W.snaps = []
        for x in ins:
            if x.name not in drop:
                for p in range(n):
                    W.snaps.append(('input %s of party %d' % (x.name, p), W.inputs[x.name][p], Snap(I, W.inputs[x.name][p])))
        outs = []
        for p in range(n):
            av = [W.inputs[x.name][p].copy(I) for x in ins]
            al = args(I, W, p, av) if args else av
            outs.append(I.rv(I.invoke(fn, [LV(Cell(ctxof(W, p)))] + [LV(Cell(a)) for a in al], LV(Cell(Obj(None))), None)))
        return Vec(outs)

    def post(I, W, v):
        outs = [I.unbase(o) for o in v.items]
        sh = oshape(I, W) if oshape else W.shape
        for p, o in enumerate(outs):
            yield 'party %d: result has the operands\' shape' % p, RS.same_shape(I, o.shape.v, sh)
        rw = ow or w
        bwid = None
        for p, o in enumerate(outs):
            t = lambda: LV(Cell(I.copyval(o.ety.v)))
            if out == 'a':
                g = hcall(I, 'sametype', t(), LV(Cell(aty(I, rw))))
            elif out == 'p':
                g = hcall(I, 'sametype', t(), LV(Cell(hcall(I, 'pubring', fmval(I.P, rw)))))
            elif out[0] == 'v':
                g = hcall(I, 'sametype', t(), LV(Cell(hcall(I, 'privring', fmval(I.P, rw), const(int(out[1:]), 64)))))
            else:
                g = hcall(I, 'is_aby3_b', t())
            yield 'party %d: result type' % p, g
            if out == 'b':
                b = hcall(I, 'aby3_back', t())
                if not is_c(b):
                    raise Unsupported('symbolic storage type')
                bwid = next(k for k in PT if cval(ptval(I, k)) == cval(b))
                nb = hcall(I, 'aby3_nbits', t())
                if p:
                    yield 'party %d: declares the same bits as party 0' % p, eq(nb, nb0)
                    yield 'party %d: stores the same words as party 0' % p, boolt(bwid == bw0)
                else:
                    nb0, bw0 = nb, bwid
                    yield 'declared bits fit the storage', ule(nb, const(bwid, 64))
                    if obits is not None:
                        yield 'declared bits as specified', eq(nb, obits(I, W))
        if oshape:
            ncol = I.unbase(sh).items[1]
            i1, i2 = zext(fresh('r', 40), 64), zext(fresh('cc', 40), 64)
            I.assume(ult(i1, I.unbase(sh).items[0]))
            I.assume(ult(i2, ncol))
            i = add(mul(i1, ncol), i2)
            I.ghost['rowcol'] = {i: (i1, i2)}
            I.ghost['rowcol_n'] = [ncol]
        else:
            i = fresh_idx(I, AR.shape_numel(I, sh))
        V = {x.name: (lambda j, x=x: byname[drop.get(x.name, x.name)].val(j, w)) for x in ins}
        for x in ins:
            if x.kind == 'b' and x.clean and x.name not in drop:
                I.assume(below(x.val(i, w), x.nb if isinstance(x.nb, T) else const(x.nb, 64)))
        if pre:
            pre(I, W, V, i)
        s = spec(I, W, V, i) if spec else None
        if out in ('a', 'b'):
            cw = rw if out == 'a' else bwid
            ls = [rd(I, o, i, (q,)) for o in outs for q in (0, 1)]
            ls = [W.resolve(x) for x in ls]
            if any(x.w != cw for x in ls):
                yield 'component width', FALSE
                return
            for p in range(n):
                yield 'party %d\'s second component is party %d\'s first' % (p, (p + 1) % n), eq(ls[2 * p + 1], ls[2 * ((p + 1) % n)])
            tot = comb('add' if out == 'a' else 'xor', [ls[2 * p] for p in range(n)])
            W.tot = tot
            if s is None:
                g = TRUE
            elif out == 'b' and s.w != cw:
                # the storage is as wide as the declared bits; higher bits of the specified value are zero
                s2 = trunc(s, cw) if s.w > cw else zext(s, cw)
                if s.w > cw:
                    yield 'the specified value fits the storage', eq(zext(s2, s.w), s)
                s = s2
            if s is not None:
                g = eq(tot, s)
            yield 'the components of the result %s to the specified value' % ('add up' if out == 'a' else 'xor'), (norm(W.resolve(g), I, i) if getattr(norm, 'full', 0) else norm(W.resolve(g))) if norm else g
            if out == 'b':
                yield 'the result fits its declared bits', below(tot, nb0)
        elif out == 'p':
            for p in range(n):
                yield 'party %d: public result' % p, eq(W.resolve(rd(I, outs[p], i, ())), s)
        else:
            o = int(out[1:])
            yield 'the owner receives the specified value', eq(W.resolve(rd(I, outs[o], i, ())), s)
        for chk in W.logs.d.get(('checks', 0), ()):
            yield from chk()
        if more:
            yield from more(I, W, V, outs, i)
        for x in frame(I, W.snaps):
            yield x
    fullrun(ctx, I, None, call, post, mode=mode, timeout=timeout)


# ------------------------------------------------------------ gates of the layer below, by contract
def bw_of(I, ety):
    b = hcall(I, 'aby3_back', LV(Cell(I.copyval(ety))))
    if not is_c(b):
        raise Unsupported('symbolic storage type')
    return next(k for k in PT if cval(ptval(I, k)) == cval(b))


def nbits3(I, a):
    return hcall(I, 'aby3_nbits', LV(Cell(I.copyval(a.ety.v))))


def gate3(W, I, r, kind, ins, f, ety, ow, extra=(), op='xor', iop='xor'):
    """result pair of a gate whose reconstruction is f of the reconstructed operands (resharing is arbitrary)"""
    ms = []
    for x in ins:
        for q in (0, 1):
            a = get_share(I, _C(x, const(q, 64)))
            ms.append(PR.msg_of(I, a))
    k = W.site(r, 'gate ' + kind, tuple(extra), ms)
    nm = 'gate%d' % k
    W.vals[k] = (f, lambda i: [comb(iop, [W.ph(k, p, 2 * j, i, ms[2 * j].w) for p in range(N)]) for j in range(len(ins))])
    if r == 0:
        for j in range(len(ins)):
            def chk(j=j, k=k, n=ms[2 * j].n, w=ms[2 * j].w):
                i = fresh_idx(I, n)
                for p in range(N):
                    yield '%s: operand %d: party %d\'s second component is party %d\'s first' % (kind, j, p, (p + 1) % N), \
                        eq(W.resolve(W.ph(k, p, 2 * j + 1, i, w)), W.resolve(W.ph(k, (p + 1) % N, 2 * j, i, w)))
            W.append(('checks', 0), chk)

    def at(q, i):
        c = (r + q[0]) % N
        if c != N - 1:
            return app('%s#%d' % (nm, c), [i], ow)
        v = app('%%v.%d' % k, [i], ow)
        rest = comb(op, [app('%s#%d' % (nm, p), [i], ow) for p in range(N - 1)])
        return sub(v, rest) if op == 'add' else bxor(v, rest)
    return AR.new_arr(I, ety, I.copyval(ins[0].shape.v), nm, {(0,): ow, (1,): ow}, at)


class _C:
    """arguments of a direct call to a contract"""
    def __init__(self, *a):
        self.a = a

    def val(self, i):
        return self.a[i]


def isb3(I, a):
    I.require('gate operand is a boolean share', hcall(I, 'is_aby3_b', LV(Cell(I.copyval(a.ety.v)))))


def gates3(I):
    """contracts of the boolean kernels called from conversions, on the values the shares stand for"""
    def back(nb):
        n = cval(nb)
        return 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64 if n <= 64 else 128

    def cn(I, a):
        nb = nbits3(I, a)
        if not is_c(nb):
            raise Unsupported('symbolic declared width of a gate operand')
        return nb

    def two(name, f, nb):
        def h(I, c):
            so = I.unbase(I.rv(I.deref(c.val(0))))
            x, y = c.val(1), c.val(2)
            isb3(I, x)
            isb3(I, y)
            I.require('%s: operands of one shape' % name, RS.same_shape(I, x.shape.v, y.shape.v))
            n = nb(cn(I, x), cn(I, y))
            ow = back(n)
            return gate3(so.W, I, so.r, name, [x, y], lambda a, b: f(fitw(a, ow), fitw(b, ow)), bty(I, ow, n), ow)
        I.overrides['spu::mpc::' + name] = h
    mx = lambda a, b: ite(ult(a, b), b, a)
    two('add_bb', add, mx)
    two('xor_bb', bxor, mx)
    two('and_bb', band, lambda a, b: ite(ult(a, b), a, b))

    def rsh(I, c):
        so = I.unbase(I.rv(I.deref(c.val(0))))
        x, k = c.val(1), I.unbase(c.val(2))
        isb3(I, x)
        if type(k) is not Vec or len(k.items) != 1:
            raise Unsupported('shift amounts')
        k = k.items[0]
        nb = cn(I, x)
        n = ite(ult(k, nb), sub(nb, k), const(0, 64))
        ow = back(n)
        return gate3(so.W, I, so.r, 'rshift_b', [x], lambda v: fitw(lshr(v, fitw(k, v.w)), ow), bty(I, ow, n), ow, extra=(k,))
    I.overrides['spu::mpc::rshift_b'] = rsh

    def carry(I, c):
        so = I.unbase(I.rv(I.deref(c.val(0))))
        x, y, k = c.val(1), c.val(2), c.val(3)
        isb3(I, x)
        isb3(I, y)
        if not is_c(k):
            raise Unsupported('symbolic carry position')
        kk = cval(k)

        def f(a, b):
            if kk == 0:
                return const(0, 8)
            return zext(trunc(lshr(add(zext(trunc(a, kk), kk + 1), zext(trunc(b, kk), kk + 1)), const(kk, kk + 1)), 1), 8)
        return gate3(so.W, I, so.r, 'carry_a2b', [x, y], f, bty(I, 8, 1), 8, extra=(k,))
    I.overrides['spu::mpc::carry_a2b'] = carry


def decide_addresses(t, facts):
    """t with every comparison of indices that follows from the facts (or whose negation does) replaced by its value"""
    facts = list(facts)
    memo, known = {}, {}

    def decide(c):
        r = known.get(c.id)
        if r is None:
            r = c
            if PV.prove_lia(c, facts, 2000):
                r = TRUE
            elif PV.prove_lia(not_(c), facts, 2000):
                r = FALSE
            known[c.id] = r
        return r

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = TM.rebuild(x, go) if x.op != 'sum' else x
            if r.op in ('ult', 'eq') and r.args[0].w == 64:
                r = decide(r)
            memo[x.id] = r
        return r
    return go(t)


def addr_norm(g, I, i):
    """resolve the index comparisons of the obligation from its hypotheses"""
    return decide_addresses(g, I.pc)


addr_norm.full = True
