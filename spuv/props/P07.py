"""P07: arithmetic in the Mersenne prime fields 2^31-1, 2^61-1, 2^127-1 (mpc/utils/gfmp.h, gfmp_ops.cc)."""
from ..kernels import *
from ..check import Native

TRUSTED = ['NdArrayRef/NdArrayView element addressing (proved separately by the array property)', 'the moduli 2^31-1, 2^61-1 and 2^127-1 are prime, so gcd(p, a) = 1 for 0 < a < p',
           'gcd(a, 0) = a and gcd(a, b) = gcd(b, a mod b)']
ASSUMPTIONS = ['field operands are reduced (in [0, p)); exponents are arbitrary; divisors are non-zero', 'element counts below 2^40']
FILES = BASE + ['/verif/harness/h_gfmp.cc', 'mpc/utils/gfmp_ops.cc']
NS = 'spu::mpc::'
EXP = {32: 31, 64: 61, 128: 127}
TY = {32: 'u32', 64: 'u64', 128: 'u128'}
WIDE = 1024


def natives(tier):
    srcs = ['mpc/utils/gfmp_ops.cc', 'mpc/utils/ring_ops.cc', 'core/type.cc', 'core/type_util.cc', 'core/ndarray_ref.cc', 'core/shape.cc', 'mpc/utils/linalg.cc']
    yield Native('gfmp', srcs, ms_quick=12000)


def P_(w):
    return (1 << EXP[w]) - 1


def tasks(tier):
    P = load_program(FILES)
    out = []

    def fn(n, w):
        return fn_named(P, 'vh::%s_%s' % (n, TY[w]))

    def mulc(I, full):
        """contract of mul(x, y, *z): low half returned, high half stored, for the exact product `full`(x, y)"""
        def c(I, c):
            x, y = c.val(0), c.val(1)
            w = x.w
            F = full(I, x, y)
            z = c.val(2)
            if z is not NULL:
                I.store(LV(z.c, z.k), trunc(lshr(F, const(w, 2 * w)), w))
            return trunc(F, w)
        I.contracts[NS + 'mul'] = c

    # ---- exact double-width product
    def wmul(ctx, w):
        I = make_interp(P)
        x, y = var('x', w), var('y', w)
        z = Cell(const(0, w))

        def call(I):
            return callfn(I, fn('wmul', w) if w != 8 else fn_named(P, 'vh::wmul_u8'), x, y, Ptr(z, 0))

        def post(I, r):
            full = add(zext(r, 2 * w), shl(zext(z.v, 2 * w), const(w, 2 * w)))
            if w == 128:
                h = lambda v, k: zext(trunc(lshr(v, const(64 * k, w)), 64), 2 * w)
                # the four partial products are the same terms on both sides; any 128-bit values would do
                m = {}
                parts = {}
                for i in (0, 1):
                    for j in (0, 1):
                        a, b = trunc(lshr(x, const(64 * i, w)), 64), trunc(lshr(y, const(64 * j, w)), 64)
                        t = mul(zext(a, 128), zext(b, 128))
                        pv = bor(shl(zext(var('ph%d%d' % (i, j), 64), 128), const(64, 128)), zext(var('pl%d%d' % (i, j), 64), 128))
                        m[t] = pv
                        parts[i, j] = pv
                full = TM.subst_mono(full, m)
                v64 = lambda n, W: zext(var(n, 64), W)
                mid = add(add(v64('ph00', 66), v64('pl01', 66)), v64('pl10', 66))
                hi = add(add(add(parts[1, 1], v64('ph01', 128)), v64('ph10', 128)), zext(lshr(mid, const(64, 66)), 128))
                lo = add(parts[0, 0], add(shl(parts[0, 1], const(64, 128)), shl(parts[1, 0], const(64, 128))))
                yield 'low half', eq(trunc(full, 128), lo)
                yield 'high half', eq(trunc(lshr(full, const(128, 256)), 128), hi)
                want = const(0, 256)
                for (i, j), pv in parts.items():
                    want = add(want, shl(zext(pv, 256), const(64 * (i + j), 256)))
                full = add(zext(lo, 256), shl(zext(hi, 256), const(128, 256)))
            else:
                want = mul(zext(x, 2 * w), zext(y, 2 * w))
            yield 'low + 2^w high = x * y', eq(full, want)
        ctx.run(I, call, post, timeout=60000)
    for w in (8, 32, 64, 128):
        out.append(Task('mul/%d' % w, lambda ctx, w=w: wmul(ctx, w), weight=9 if w == 128 else 1))

    for w in (32, 64, 128):
        p = P_(w)
        pc = const(p, w)
        p2 = const(p, 2 * w)

        def mulmod(ctx, w=w, pc=pc, p=p):
            I = make_interp(P)
            x, y = var('x', w), var('y', w)
            H, L = var('H', w), var('L', EXP[w])
            F = bor(shl(zext(H, 2 * w), const(EXP[w], 2 * w)), zext(L, 2 * w))
            ctx.assumed.add('0 <= x, y <= p implies x*y <= p^2')
            mulc(I, lambda I, a, b: F if (a is x and b is y) or (a is y and b is x) else bad())

            def call(I):
                I.assume(ule(x, pc))
                I.assume(ule(y, pc))
                I.assume(ule(F, const(p * p, 2 * w)))
                I.assume(ule(H, pc))
                return callfn(I, fn('mulmod', w), x, y)

            def post(I, r):
                yield 'reduced', ult(r, pc)
                s = add(zext(H, 2 * w), zext(L, 2 * w))
                # F = 2^exp H + L, so F - (H + L) = H p: F and H + L are congruent
                h = var('h', 4 * w)
                yield 'lemma: 2^exp h = h + h p', eq(shl(h, const(EXP[w], 4 * w)), add(h, mul(h, const(p, 4 * w))))
                yield 'congruent to x * y', or_(eq(zext(r, 2 * w), s), eq(add(zext(r, 2 * w), const(p, 2 * w)), s))
            ctx.run(I, call, post, timeout=60000)
        out.append(Task('mul_mod/%d' % w, mulmod))

        def addmod(ctx, w=w, pc=pc):
            I = make_interp(P)
            x, y = var('x', w), var('y', w)

            def call(I):
                I.assume(ult(x, pc))
                I.assume(ule(y, pc))
                return callfn(I, fn('addmod', w), x, y)

            def post(I, r):
                s = add(zext(x, 2 * w), zext(y, 2 * w))
                P2 = zext(pc, 2 * w)
                yield 'reduced', ult(r, pc)
                yield 'congruent to x + y', or_(eq(s, zext(r, 2 * w)), eq(s, add(zext(r, 2 * w), P2)))
            ctx.run(I, call, post)
        out.append(Task('add_mod/%d' % w, addmod))

        def addinv(ctx, w=w, pc=pc):
            I = make_interp(P)
            x = var('x', w)

            def call(I):
                I.assume(ule(x, pc))
                return callfn(I, fn('addinv', w), x)
            ctx.run(I, call, lambda I, r: [('x + r = p', and_(eq(add(x, r), pc), ule(r, pc)))])
        out.append(Task('add_inv/%d' % w, addinv))

        def modp(ctx, w=w, pc=pc):
            I = make_interp(P)
            x = var('x', w)

            def post(I, r):
                yield 'reduced', ult(r, pc)
                yield 'x mod p', eq(r, TM.urem(x, pc)) if w == 32 else or_(*[eq(x, add(r, mul(const(k, w), pc))) for k in range(0, (1 << (w - EXP[w])) + 1) if k * P_(w) < 1 << w])
            ctx.run(I, lambda I: callfn(I, fn('modp', w), x), post)
        out.append(Task('mod_p/%d' % w, modp))

        # ---- extended gcd: x a + y b = gcd(a, b) in the field, by its own contract at the recursive call
        def egcd(ctx, w=w, pc=pc, base=False):
            I = make_interp(P)
            f = fn_named(P, NS + 'extend_gcd', pred=lambda f: f.params[0][2].w == w)
            gh = {}
            W = WIDE

            def G(t):
                if t in gh:
                    return gh[t]
                if is_c(t):
                    return const(cval(t), W)
                raise Unsupported('untracked field value %s' % pp(t, 4))
            a, b = var('a', w), var('b', w)
            q, r = var('q', W), var('rem', W)
            gh[b] = var('B', W)
            g = var('gcd', W)
            # a = q b + rem
            A = add(mul(q, gh[b]), r)
            gh[a] = A
            st = {'rec': 0}

            def c_mul(I, c):
                x, y = c.val(0), c.val(1)
                I.require('mul_mod operands at most p', and_(ule(x, pc), ule(y, pc)))
                v = fresh('m', w)
                I.fact(ult(v, pc))
                gh[v] = mul(G(x), G(y))
                return v

            def c_add(I, c):
                x, y = c.val(0), c.val(1)
                I.require('add_mod operands in range', and_(ult(x, pc), ule(y, pc)))
                v = fresh('s', w)
                I.fact(ult(v, pc))
                gh[v] = add(G(x), G(y))
                return v

            def c_inv(I, c):
                x = c.val(0)
                I.require('add_inv operand at most p', ule(x, pc))
                v = fresh('i', w)
                I.fact(ule(v, pc))
                gh[v] = sub(const(0, W), G(x))
                return v

            def c_rec(I, c):
                # only the recursive call: the outer body is run directly
                a2, b2 = c.val(0), c.val(1)
                if st['rec'] == 0 and a2 is a and b2 is b:
                    st['rec'] = 1
                    return NotImplemented
                I.require('recursion on (b, a mod b)', and_(eq(a2, b), eq(b2, TM.urem(a, b))))
                I.require('terminates: second argument decreases', ult(b2, b))
                I.require('arguments at most p', and_(ule(a2, pc), ule(b2, pc)))
                x2, y2 = fresh('x', w), fresh('y', w)
                I.fact(ult(x2, pc))
                I.fact(ult(y2, pc))
                gh[y2] = var('Y', W)
                gh[x2] = var('X', W)
                I.store(c.args[2], x2)
                I.store(c.args[3], y2)
                st['ret'] = (gh[x2], gh[y2])
                # X b + Y (a mod b) = gcd(b, a mod b) = gcd(a, b)
                gh['g'] = add(mul(gh[x2], gh[b]), mul(gh[y2], r))
                return None
            I.contracts.update({NS + 'mul_mod': c_mul, NS + 'add_mod': c_add, NS + 'add_inv': c_inv, NS + 'extend_gcd': c_rec})
            gh[TM.udiv(a, b)] = q
            X, Y = Cell(UNINIT), Cell(UNINIT)

            def call(I):
                st['rec'] = 0
                st.pop('ret', None)
                X.v = Y.v = UNINIT
                I.assume(ule(a, pc))
                I.assume(ule(b, pc))
                I.assume(ult(const(0, w), a))
                I.assume(eq(b, const(0, w)) if base else not_(eq(b, const(0, w))))
                return callfn(I, f, a, b, LV(X), LV(Y))

            def post(I, rr):
                x, y = X.v, Y.v
                yield 'coefficients reduced', and_(ult(x, pc), ult(y, pc))
                if 'ret' in st:
                    yield 'x a + y b = gcd(a, b)', eq(add(mul(G(x), A), mul(G(y), gh[b])), gh['g'])
                else:
                    # b = 0: gcd(a, 0) = a
                    yield 'base case', and_(eq(b, const(0, w)), eq(x, const(1, w)))
                    yield 'base case y', eq(y, const(0, w))
            ctx.run(I, call, post)
        out.append(Task('extend_gcd/%d' % w, egcd))
        out.append(Task('extend_gcd/%d base' % w, lambda ctx, f=egcd: f(ctx, base=True)))

        def mulinv(ctx, w=w, pc=pc):
            I = make_interp(P)
            x = var('x', w)
            st = {}

            def c_rec(I, c):
                a2, b2 = c.val(0), c.val(1)
                I.require('gcd of the modulus and the operand', and_(eq(a2, pc), eq(b2, x)))
                X, Y = fresh('X', w), fresh('Y', w)
                I.store(c.args[2], X)
                I.store(c.args[3], Y)
                st['Y'] = Y
                return None
            I.contracts[NS + 'extend_gcd'] = c_rec

            def call(I):
                I.assume(and_(ult(const(0, w), x), ult(x, pc)))
                return callfn(I, fn('mulinv', w), x)
            # X p + Y x = 1 mod p, hence Y is the inverse
            ctx.run(I, call, lambda I, r: [('the coefficient of the operand', eq(r, st['Y']))])
        out.append(Task('mul_inv/%d' % w, mulinv))

        def expmod(ctx, w=w, pc=pc, unroll=False):
            I = make_interp(P)
            x, e = var('x', w), var('e', w)
            gh = {}
            W = 2 * w

            def E(t):
                """exponent of x that the value t stands for"""
                if t in gh:
                    return gh[t]
                if t is x:
                    return const(1, W)
                if is_c(t) and cval(t) == 1:
                    return const(0, W)
                if t.op == 'ite':
                    return ite(t.args[0], E(t.args[1]), E(t.args[2]))
                raise Unsupported('untracked power %s' % pp(t, 4))

            def c_mul(I, c):
                a, b = c.val(0), c.val(1)
                v = fresh('m', w)
                I.fact(ult(v, pc))
                gh[v] = add(E(a), E(b))
                return v
            I.contracts[NS + 'mul_mod'] = c_mul

            def hook(I, s, fr):
                """loop rule: find (acc, base, count) with acc * base^count constant, checked on an arbitrary iteration"""
                loc = [(k, lv) for k, lv in fr.vars.items() if type(lv) is LV and isinstance(lv.c.v if lv.k is None else None, T)]
                if not loc:
                    loc = [(k, lv) for k, lv in fr.vars.items() if type(lv) is LV and isinstance(I.rv(lv), T) and I.rv(lv).w == w]
                init = {k: I.rv(lv) for k, lv in loc}

                def known(v):
                    try:
                        return E(v)
                    except Unsupported:
                        return None
                cnts = [k for k, v in init.items() if v is e]
                pows = [k for k, v in init.items() if known(v) is not None]
                lvs = dict(loc)
                for ck in cnts:
                    for ak in pows:
                        for bk in pows:
                            if len({ck, ak, bk}) < 3:
                                continue
                            out = step(I, s, fr, lvs, ck, ak, bk)
                            if out is None:
                                continue
                            kind = out
                            total = add(known(init[ak]), mul(known(init[bk]), zext(init[ck], W)))
                            F = fresh('pw', w)
                            gh[F] = total
                            for k in lvs:
                                I.setc(lvs[k].c, lvs[k].k, UNINIT if k != ak else F)
                            if kind == 'r':
                                raise Return(LV(Cell(F)))
                            return True
                raise Unsupported('no loop invariant found')

            def step(I, s, fr, lvs, ck, ak, bk):
                kinds = set()
                for bit in (0, 1):
                    mark, pcm = len(I.log), len(I.pc)
                    dec0, rl0 = I.dec, I.rlog
                    h = var('h!', w - 1)
                    cnt = bor(shl(zext(h, w), const(1, w)), const(bit, w))
                    av, bv = fresh('acc', w), fresh('base', w)
                    gh[av], gh[bv] = var('ga!', W), var('gb!', W)
                    total = add(gh[av], mul(gh[bv], add(mul(const(2, W), zext(h, W)), const(bit, W))))
                    I.rlog = []
                    work = [[]]
                    try:
                        n = 0
                        while work:
                            n += 1
                            if n > 64:
                                return None
                            for k, lv in lvs.items():
                                I.setc(lv.c, lv.k, cnt if k == ck else av if k == ak else bv if k == bk else fresh('any', w))
                            I.dec = Decider(work.pop())
                            kind = 'n'
                            val = None
                            try:
                                c = I.tobool(I.evr(s['c'], fr))
                                if not I.branch(c):
                                    raise Break()
                                I.st(s['b'], fr)
                            except Break:
                                kind = 'b'
                            except Continue:
                                pass
                            except Return as r:
                                kind = 'r'
                                val = I.rv(r.v)
                            except Infeasible:
                                kind = 'x'
                            work.extend(I.dec.alts)
                            if kind != 'x':
                                if kind == 'n':
                                    goals = [eq(add(E(I.rv(lvs[ak])), mul(E(I.rv(lvs[bk])), zext(I.rv(lvs[ck]), W))), total), ult(I.rv(lvs[ck]), cnt)]
                                else:
                                    kinds.add(kind)
                                    goals = [eq(E(I.rv(lvs[ak]) if kind == 'b' else val), total)]
                                for g in goals:
                                    if g is not TRUE and prove(g, list(I.pc), 'bv', 4000).ok is not True:
                                        return None
                            I.rollback(mark)
                            I.pcreset(pcm)
                    except Unsupported:
                        return None
                    finally:
                        I.rollback(mark)
                        I.pcreset(pcm)
                        I.dec, I.rlog = dec0, rl0
                return kinds.pop() if len(kinds) == 1 else None
            if not unroll:
                I.while_hook = hook

            def call(I):
                I.assume(ult(x, pc))
                return callfn(I, fn('expmod', w), x, e)
            ctx.run(I, call, lambda I, r: [('r = x^e', eq(E(r), zext(e, W)))], timeout=60000)
        out.append(Task('exp_mod/%d' % w, expmod, weight=5))
        if w == 32:
            out.append(Task('exp_mod/%d unrolled' % w, lambda ctx, f=expmod: f(ctx, unroll=True), weight=5))

    # ---- array forms
    uf = {'mul_mod': 2, 'add_mod': 2, 'add_inv': 1, 'mul_inv': 1, 'mod_p': 1, 'exp_mod': 2}

    def A(n, *a):
        if n in ('mul_mod', 'add_mod'):
            a = tuple(sorted(a, key=lambda t: t.id))
        return app('gf.' + n, list(a), a[0].w)
    SPEC = {'gfmp_mul_mod': lambda x, y: A('mul_mod', x, y), 'gfmp_add_mod': lambda x, y: A('add_mod', x, y), 'gfmp_sub_mod': lambda x, y: A('add_mod', x, A('add_inv', y)),
            'gfmp_div_mod': lambda x, y: A('mul_mod', x, A('mul_inv', y)), 'gfmp_exp_mod': lambda x, y: A('exp_mod', x, y), 'gfmp_mod': lambda x, y: A('mod_p', x)}

    def arrs(ctx, name, w, inplace, alias):
        I = make_interp(P)
        RS.install(I)
        for n, k in uf.items():
            I.contracts[NS + n] = lambda I, c, n=n: A(n, *c.vals())
        f = fn_named(P, NS + name + ('_' if inplace else ''))
        st = {}

        def call(I):
            ty = callfn(I, fn_named(P, 'vh::gfmp'), const(RS.cval(RS.fmval(P, w)) if False else cval(RS.fmval(P, w)), RS.fmval(P, w).w))
            sh = ashape()
            x = RS.sym_arr(I, 'x', sh, w, ety=ty)
            y = x if alias else RS.sym_arr(I, 'y', sh, w, ety=I.copyval(ty))
            st['s'] = (x, y, Snap(I, x), Snap(I, y))
            return callfn(I, f, *((x, y) if len(f.params) == 2 else (x,)))

        def post(I, r):
            x, y, sx, sy = st['s']
            t = x if inplace else r
            i = fresh_idx(I, x.numel(I))
            yield 'element-wise field operation', eq(rd(I, t, i), SPEC[name](sx.at(i), sy.at(i)))
            if not inplace:
                yield 'fresh storage', TRUE if r.store is not x.store and r.store is not y.store else FALSE
                yield 'shape kept', same_shape(I, r.shape.v, x.shape.v)
                yield 'type kept', RS.hcall(I, 'sametype', LV(Cell(r.ety.v)), LV(Cell(x.ety.v)))
            yield from frame(I, ([] if inplace else [('x', x, sx)]) + ([] if alias else [('y', y, sy)]))
        ctx.run(I, call, post)
    for name in SPEC:
        for w in (32, 64, 128):
            for inplace in (False, True):
                for alias in ((False, True) if name != 'gfmp_mod' else (False,)):
                    out.append(Task('%s%s%s/FM%d' % (name, '_' if inplace else '', ' aliased' if alias else '', w), lambda ctx, a=(name, w, inplace, alias): arrs(ctx, *a)))

    def zeros(ctx, w):
        I = make_interp(P)
        RS.install(I)
        st = {}

        def call(I):
            st['sh'] = ashape()
            return callfn(I, fn_named(P, NS + 'gfmp_zeros'), RS.fmval(P, w), st['sh'])

        def post(I, r):
            i = fresh_idx(I, r.numel(I))
            yield 'all zero', eq(rd(I, r, i), const(0, w))
        ctx.run(I, call, post)
    for w in (32, 64, 128):
        out.append(Task('gfmp_zeros/FM%d' % w, lambda ctx, w=w: zeros(ctx, w)))
    return out


def bad():
    raise Unsupported('product of other operands')
