"""Ring primitives: element-wise arithmetic modulo 2^k."""
from ..kernels import *
from ..check import Native

TRUSTED = ['NdArrayRef/NdArrayView element addressing (proved separately by the array property)',
           'yacl::parallel_for runs its body over chunks that partition the range; yacl PRG output is an arbitrary byte sequence']
ASSUMPTIONS = ['element counts below 2^40', 'shift amounts in [0, ring width)']
FILES = BASE
NS = RS.NS


def natives(tier):
    yield Native('ring_ops', ['mpc/utils/ring_ops.cc', 'core/type.cc', 'core/type_util.cc', 'core/ndarray_ref.cc', 'core/shape.cc', 'mpc/utils/linalg.cc'], ms_quick=12000)


def res_checks(I, r, x, exp, w, inplace, what):
    """r: result array; exp(i): expected element"""
    if not inplace:
        yield 'element type kept', hcall_same(I, r.ety.v, x.ety.v)
        yield 'shape kept', same_shape(I, r.shape.v, x.shape.v)
        yield 'fresh storage', TRUE if r.store is not x.store else FALSE
    i = fresh_idx(I, x.numel(I))
    yield what, eq(rd(I, r, i), exp(i))


def hcall_same(I, a, b):
    return RS.hcall(I, 'sametype', LV(Cell(a)), LV(Cell(b)))


def mk(P, name, w, build, post, skip, weight=1, throws_ok=None, sel=None):
    def run(ctx):
        I = make_interp(P)
        I.check_shift = True
        RS.install(I, skip=skip)
        fns = [f for f in P.byname.get(NS + skip[0], []) if f.hasbody and (sel is None or sel(f))]
        if not fns:
            raise Unsupported('no definition of ' + skip[0])
        for f in fns:
            st = {}

            def call(I):
                args, st['s'] = build(I)
                return callfn(I, f, *args)
            ctx.run(I, call, lambda I, r: post(I, r, st['s']), throws_ok)
    return Task(name + '/FM%d' % w, run, weight=weight)


def tasks(tier):
    P = load_program(FILES)
    T_ = []
    arrp = lambda k: (lambda f: len(f.params) == 2 and is_arr_param(f, 1))
    for w in (32, 64, 128):
        for nm, ef in RS.EW2.items():
            for alias in (False, True):
                def b(I, w=w, alias=alias):
                    sh = ashape()
                    x = RS.sym_arr(I, 'x', sh, w)
                    y = x if alias else RS.sym_arr(I, 'y', sh, w)
                    return (x, y), (x, y, Snap(I, x), Snap(I, y))

                def post(I, r, s, ef=ef, w=w, alias=alias):
                    x, y, sx, sy = s
                    yield from res_checks(I, r, x, lambda i: ef(sx.at(i), sy.at(i), w), w, False, 'result[i] = x[i] op y[i] mod 2^k')
                    yield from frame(I, [('x', x, sx), ('y', y, sy)])

                def post_(I, r, s, ef=ef, w=w, alias=alias):
                    x, y, sx, sy = s
                    yield from res_checks(I, x, x, lambda i: ef(sx.at(i), sy.at(i), w), w, True, "x'[i] = x[i] op y[i] mod 2^k")
                    if not alias:
                        yield from frame(I, [('y', y, sy)])
                al = ' aliased' if alias else ''
                T_.append(mk(P, nm + al, w, b, post, [nm], sel=arrp(0)))
                T_.append(mk(P, nm + '_' + al, w, b, post_, [nm + '_'], sel=arrp(0)))
        for nm, ef in RS.EW1.items():
            def b(I, w=w):
                x = RS.sym_arr(I, 'x', ashape(), w)
                return (x,), (x, Snap(I, x))

            def post(I, r, s, ef=ef, w=w):
                x, sx = s
                yield from res_checks(I, r, x, lambda i: ef(sx.at(i), w), w, False, 'result[i] = op x[i] mod 2^k')
                yield from frame(I, [('x', x, sx)])

            def post_(I, r, s, ef=ef, w=w):
                x, sx = s
                yield from res_checks(I, x, x, lambda i: ef(sx.at(i), w), w, True, "x'[i] = op x[i] mod 2^k")
            T_.append(mk(P, nm, w, b, post, [nm]))
            T_.append(mk(P, nm + '_', w, b, post_, [nm + '_']))

        # scalar multiplication
        def bs(I, w=w):
            x = RS.sym_arr(I, 'x', ashape(), w)
            y = var('scalar', 128)
            return (x, y), (x, Snap(I, x), y)

        def posts(I, r, s, w=w):
            x, sx, y = s
            i = fresh_idx(I, x.numel(I))
            yield 'result[i] = x[i] * c mod 2^k', eq(rd(I, r if r is not None else x, i), mul(sx.at(i), trunc(y, w) if w < 128 else y))
        sc = lambda f: len(f.params) == 2 and not is_arr_param(f, 1)
        T_.append(mk(P, 'ring_mul scalar', w, bs, posts, ['ring_mul'], sel=sc))
        T_.append(mk(P, 'ring_mul_ scalar', w, bs, posts, ['ring_mul_'], sel=sc))

        # shifts: one amount, or one per element
        for nm, ef in RS.SH.items():
            for per in (False, True):
                def b(I, w=w, per=per):
                    x = RS.sym_arr(I, 'x', ashape(), w)
                    n = x.numel(I)
                    if per:
                        bits = SArr('bits', n, {(): 64})
                        # amounts are in range, stated for every element through the access path
                        nbase = lambda p, i: zext(app('bits', [i], RS_LOG[w]), 64)
                        bits.base = nbase
                        I.assume(not_(eq(n, const64(1))))
                    else:
                        bits = Vec([zext(var('amt', RS_LOG[w]), 64)])
                    return (x, bits), (x, Snap(I, x), bits)

                def amount(I, bits, i):
                    return bits.items[0] if type(bits) is Vec else bits.base((), i)

                def post(I, r, s, ef=ef, w=w):
                    x, sx, bits = s
                    yield from res_checks(I, r, x, lambda i: ef(sx.at(i), amount(I, bits, i), w), w, False, 'result[i] = x[i] shifted by its amount')
                    yield from frame(I, [('x', x, sx)])

                def post_(I, r, s, ef=ef, w=w):
                    x, sx, bits = s
                    yield from res_checks(I, x, x, lambda i: ef(sx.at(i), amount(I, bits, i), w), w, True, "x'[i] = x[i] shifted by its amount")
                tag = ' per-element' if per else ' splat'
                T_.append(mk(P, nm + tag, w, b, post, [nm]))
                T_.append(mk(P, nm + '_' + tag, w, b, post_, [nm + '_']))

        # bit masks
        def bm(I, w=w):
            x = RS.sym_arr(I, 'x', ashape(), w)
            lo, hi = zext(var('lo', 8), 64), zext(var('hi', 8), 64)
            I.assume(ult(lo, hi))
            I.assume(ule(hi, const64(w)))
            return (x, lo, hi), (x, Snap(I, x), lo, hi)

        def pm(I, r, s, w=w):
            x, sx, lo, hi = s
            a = r if r is not None else x
            i = fresh_idx(I, x.numel(I))
            b = zext(fresh('bit', 8), 64)
            I.assume(ult(b, const64(w)))
            inr = and_(ule(lo, b), ult(b, hi))
            bit = lambda t: eq(band(lshr(t, cast_w(b, w)), const(1, w)), const(1, w))
            # per-bit statement: bit b of the result is bit b of the operand inside [lo,hi) and 0 outside
            yield 'bit b kept iff low <= b < high', eq(b2bv(bit(rd(I, a, i)), 8), b2bv(and_(inr, bit(sx.at(i))), 8))
            if r is not None:
                yield from frame(I, [('x', x, sx)])
        T_.append(mk(P, 'ring_bitmask', w, bm, pm, ['ring_bitmask'], weight=3))
        T_.append(mk(P, 'ring_bitmask_', w, bm, pm, ['ring_bitmask_'], weight=3))

        # bit reversal, one case per (start, end)
        pairs = sorted({(0, w), (0, 1), (3, 3), (w - 1, w), (5, w - 2), (7, 29), (w, w)}) if tier == 'quick' else [(a, c) for a in range(0, w + 1, 1 if w < 128 else 3) for c in range(a, w + 1, 1 if w < 64 else 5)] + [(0, w), (w, w)]

        def runrev(ctx, w=w, pairs=pairs, nms=()):
            for nm in nms:
                f = fn_named(P, NS + nm)
                for s_, e_ in pairs:
                    I = make_interp(P)
                    I.check_shift = True
                    RS.install(I, skip=[nm])
                    st = {}

                    def call(I):
                        x = RS.sym_arr(I, 'x', ashape(), w)
                        st['x'], st['s'] = x, Snap(I, x)
                        return callfn(I, f, x, const64(s_), const64(e_))

                    def post(I, r):
                        x, sx = st['x'], st['s']
                        a = r if r is not None else x
                        i = fresh_idx(I, x.numel(I))
                        yield 'bits [%d,%d) reversed, others kept (%s)' % (s_, e_, nm), eq(rd(I, a, i), RS.bitrev_fn(sx.at(i), const64(s_), const64(e_), w))
                    ctx.run(I, call, post)
        for nm in ('ring_bitrev', 'ring_bitrev_'):
            T_.append(Task('%s/FM%d' % (nm, w), lambda ctx, w=w, pairs=pairs, nm=nm, runrev=runrev: runrev(ctx, w, pairs, (nm,)), weight=20))

        # creation, copy, conversion
        def fieldarg(I, w=w):
            return const(RS.FM[w], 32)

        def mkc(nm, exp, w=w):
            def b(I):
                sh = ashape()
                if nm == 'ring_randbit':
                    I.assume(ult(sh.numel, const64(1 << 31)))
                return (fieldarg(I, w), sh), sh

            def post(I, r, sh):
                yield 'ring element type', hcall_same(I, r.ety.v, RS.ringty(I, w))
                yield 'requested shape', same_shape(I, r.shape.v, sh)
                i = fresh_idx(I, sh.numel)
                yield nm + ' content', exp(I, r, i)
            return mk(P, nm, w, b, post, [nm], sel=lambda f: len(f.params) == 2)
        T_.append(mkc('ring_zeros', lambda I, r, i, w=w: eq(rd(I, r, i), const(0, w))))
        T_.append(mkc('ring_ones', lambda I, r, i, w=w: eq(rd(I, r, i), const(1, w))))
        T_.append(mkc('ring_randbit', lambda I, r, i, w=w: ult(rd(I, r, i), const(2, w))))

        def ba(I, w=w):
            sh = ashape()
            x, y = RS.sym_arr(I, 'x', sh, w), RS.sym_arr(I, 'y', sh, w)
            return (x, y), (x, y, Snap(I, y))

        def pa(I, r, s):
            x, y, sy = s
            i = fresh_idx(I, x.numel(I))
            yield "x'[i] = y[i]", eq(rd(I, x, i), sy.at(i))
            yield from frame(I, [('y', y, sy)])
        T_.append(mk(P, 'ring_assign', w, ba, pa, ['ring_assign']))

        for k in (1, 2, 3, 5):
            def bsum(I, w=w, k=k):
                sh = ashape()
                xs = [RS.sym_arr(I, 'x%d' % j, sh, w) for j in range(k)]
                return (Vec(xs),), (xs, [Snap(I, x) for x in xs])

            def psum(I, r, s, w=w):
                xs, sn = s
                i = fresh_idx(I, xs[0].numel(I))
                yield 'result[i] = sum of operands mod 2^k', eq(rd(I, r, i), add(const(0, w), *[q.at(i) for q in sn]))
                for j, (x, q) in enumerate(zip(xs, sn)):
                    yield from frame(I, [('operand %d' % j, x, q)])
            T_.append(mk(P, 'ring_sum %d' % k, w, bsum, psum, ['ring_sum']))

        def bc(I, w=w):
            x = RS.sym_arr(I, 'x', ashape(), w)
            return (x,), (x, Snap(I, x))

        def pc_(I, r, s, w=w):
            x, sx = s
            i = fresh_idx(I, x.numel(I))
            yield 'one byte per element', eq(length(I, r), x.numel(I))
            yield 'result[i] = lowest bit of x[i]', eq(I.layers_read(r, r.layers, i, ()), trunc(band(sx.at(i), const(1, w)), 8))
        T_.append(mk(P, 'ring_cast_boolean', w, bc, pc_, ['ring_cast_boolean']))

        # pseudo-random fill: a pure function of (seed, counter); the counter moves past the consumed blocks
        def brand(I, w=w):
            sh = ashape()
            I.ghost['fill_leaves'] = {(): w}
            seed = var('seed0', 128)
            cnt = Cell(var('cnt0', 64))
            return (fieldarg(I, w), sh, seed, Ptr(cnt)), (sh, seed, cnt, cnt.v)

        def prand(I, r, s, w=w):
            sh, seed, cnt, c0 = s
            yield 'ring element type', hcall_same(I, r.ety.v, RS.ringty(I, w))
            yield 'requested shape', same_shape(I, r.shape.v, sh)
            i = fresh_idx(I, sh.numel)
            yield 'content is the stream of (seed, counter)', eq(rd(I, r, i), SL.prg_leaf(seed, const64(0), c0, w, ())(i))
            yield 'counter advanced by the consumed blocks', eq(cnt.v, add(c0, lshr(add(mul(sh.numel, const64(w // 8)), const64(15)), const64(4))))
        T_.append(mk(P, 'ring_rand seeded', w, brand, prand, ['ring_rand'], sel=lambda f: len(f.params) == 4))

        def brr(I, w=w):
            sh = ashape()
            I.assume(ult(sh.numel, const64(1 << 31)))
            lo, hi = zext(var('min', w), 128) if w < 128 else var('min', w), zext(var('max', w), 128) if w < 128 else var('max', w)
            I.assume(ule(lo, hi))
            return (fieldarg(I, w), sh, lo, hi), (sh, lo, hi)

        def prr(I, r, s, w=w):
            sh, lo, hi = s
            i = fresh_idx(I, sh.numel)
            yield 'requested shape', same_shape(I, r.shape.v, sh)
            v = generalise_rem(I, rd(I, r, i))
            v = zext(v, 128) if w < 128 else v
            yield 'min <= result[i] <= max', and_(ule(lo, v), ule(v, hi))
        T_.append(mk(P, 'ring_rand_range', w, brr, prr, ['ring_rand_range']))

        # equality up to an error bound: |x[i] - y[i]| <= err for every i
        def bae(I, w=w):
            sh = ashape()
            x, y = RS.sym_arr(I, 'x', sh, w), RS.sym_arr(I, 'y', sh, w)
            err = zext(var('err', 20), 64)
            return (x, y, err), (x, y, Snap(I, x), Snap(I, y), err)

        def pae(I, r, s, w=w):
            x, y, sx, sy, err = s
            # operands within a quarter of the range, so that the difference does not wrap
            q = const(1 << (w - 2), w)
            h = const(1 << (w - 1), w)

            def close(i):
                d = sub(sx.at(i), sy.at(i))
                return or_(not_(ult(cast_w(err, w), d)), not_(ult(cast_w(err, w), neg(d))))
            small = lambda i: and_(ult(add(sx.at(i), q), h), ult(add(sy.at(i), q), h))
            i = fresh_idx(I, x.numel(I))
            I.instantiate(i)
            yield 'true only if every element is within the bound', implies(and_(r, small(i)), close(i))
            # a false result names an offending element (the index the loop left at)
            ks = [zext(v, 64) for v in I.ghost.get('exit_idx', [])]
            yield 'false only if some element is outside the bound', or_(r, *[or_(not_(close(k)), not_(small(k))) for k in ks])
            yield from frame(I, [('x', x, sx), ('y', y, sy)])
        T_.append(mk(P, 'ring_all_equal', w, bae, pae, ['ring_all_equal']))

        def bsel(I, w=w):
            sh = ashape()
            x, y = RS.sym_arr(I, 'x', sh, w), RS.sym_arr(I, 'y', sh, w)
            c = SArr('c', sh.numel, {(): 8})
            return (c, x, y), (c, x, y, Snap(I, x), Snap(I, y))

        def psel(I, r, s, w=w):
            c, x, y, sx, sy = s
            i = fresh_idx(I, x.numel(I))
            yield 'result[i] = c[i] ? y[i] : x[i]', eq(rd(I, r, i), ite(eq(c.base_at((), i), const(0, 8)), sx.at(i), sy.at(i)))
            yield from frame(I, [('x', x, sx), ('y', y, sy)])
        T_.append(mk(P, 'ring_select', w, bsel, psel, ['ring_select']))

        for k in (2, 3, 4):
            for nm, comb in (('ring_rand_additive_splits', 'add'), ('ring_rand_boolean_splits', 'xor')):
                def bsp(I, w=w, k=k):
                    x = RS.sym_arr(I, 'x', ashape(), w)
                    return (x, const64(k)), (x, Snap(I, x))

                def psp(I, r, s, w=w, k=k, comb=comb):
                    x, sx = s
                    items = [I.rv(LV(r, j)) for j in range(len(r.items))]
                    yield 'number of splits', TRUE if len(items) == k else FALSE
                    i = fresh_idx(I, x.numel(I))
                    vs = [rd(I, a, i) for a in items]
                    t = vs[0]
                    for v in vs[1:]:
                        t = add(t, v) if comb == 'add' else bxor(t, v)
                    yield 'splits recombine to the input', eq(t, sx.at(i))
                    stores = [a.store for a in items]
                    # all but one of the splits are independent uniform draws
                    yield 'k-1 splits are fresh random', TRUE if sum(1 for a in items if a.store.base is None and a.store.name.startswith('rand') and not a.store.layers) == k - 1 and len(set(map(id, stores))) == k else FALSE
                    yield from frame(I, [('x', x, sx)])
                T_.append(mk(P, '%s %d' % (nm, k), w, bsp, psp, [nm]))
    return T_


RS_LOG = {32: 5, 64: 6, 128: 7}
