"""P24: the trusted-first-party dealer (mpc/semi2k/beaver/beaver_impl/{beaver_tfp,trusted_party})."""
from ..kernels import *
from .. import arr as AR
from .. import stdlib as SL
from .. import terms as TM
from ..protosrc import sources

TRUSTED = ['yacl FillPRand / FillPRandWithMersennePrime: a deterministic function of (seed, iv, counter, position), returns the counter advanced by the 16-byte blocks consumed',
           'yacl link: Gather delivers every party\'s buffer to rank 0 in rank order, Broadcast gives everyone the root\'s buffer',
           'SecureRandSeed returns a fresh word; SerializeUint128/SerializeVars and their inverses are inverse; yacl::Buffer holds the bytes it is given',
           'ring_* operations, applyInvPerm and genRandomPerm by their contracts (P01, P02, P13, P14); gfmp_* operations by theirs (P07)']
ASSUMPTIONS = ['2 to 4 parties', 'all parties enter a request with equal counters (established by the constructor and kept by every request: a discharged obligation)',
               'element counts below 2^40, matrix sides below 2^20', 'shift amounts of truncation pairs below the ring width (all such amounts at once)',
               'prime-field triples: the relation is proved as a polynomial identity with integer coefficients (holds in every commutative ring); that words stay reduced is P07',
               'the dealer reached over the network (beaver_ttp, ttp_server: brpc) is outside; both use the same TrustedParty functions']
FILES = ['mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc', 'mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc', 'mpc/utils/ring_ops.cc', 'mpc/utils/gfmp_ops.cc', 'core/type.cc',
         'core/type_util.cc', 'core/shape.cc', '/verif/harness/h_types.cc']
TFP = 'spu::mpc::semi2k::BeaverTfpUnsafe::'
FMT = {32: 1, 64: 2, 128: 3}


def natives(tier):
    from ..check import Native
    yield Native('dealer', sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape', 'mpc/semi2k', 'mpc/semi2k/beaver', 'mpc/semi2k/beaver/beaver_impl', 'mpc/semi2k/beaver/beaver_impl/trusted_party'), ms_quick=10000, opt='-O0')


class SBuf(Container):
    """a buffer holding one 128-bit seed"""

    def __init__(self, v):
        self.v = v
        self.seq = nextseq()

    def copy(self, I):
        return self

    def load(self, I, k):
        return self.v


AR.ARRCLS[SBuf] = lambda nm: {'size': lambda I, o, c: c64(16), 'data': lambda I, o, c: Ptr(Cell(o.v))}.get(nm)


class Out:
    """what the moved-out buffer of an array holds"""

    def __init__(self, I, a):
        self.a, self.n, self.size = a, a.numel(I), None

    def copy(self, I):
        return self


AR.ARRCLS[Out] = lambda nm: {'resize': lambda I, o, c: setattr(o, 'size', to64(c.val(0))), 'size': lambda I, o, c: o.size if o.size is not None else mul(o.n, c64(AR.elsize(I, o.a)))}.get(nm)


def key3(seed, ctr, n, i):
    return app('rperm', [seed, ctr, n, i], 64)


class Perm(Container):
    def __init__(self, seed, ctr, n):
        self.seed, self.ctr, self.n = seed, ctr, n
        self.seq = nextseq()

    def copy(self, I):
        return self

    def to_span(self, I):
        return SL.Span(self, c64(0), self.n, None)


AR.ARRCLS[Perm] = lambda nm: {'size': lambda I, o, c: o.n}.get(nm)


def install(I, P, st):
    RS.install(I)

    def buf(I, c):
        a = I.unbase(I.rv(c.args[0]))
        if isinstance(a, AR.ABuf):
            return Out(I, a.a.copy(I))
        if isinstance(a, (Out, SBuf)):
            return a
        if len(c.args) == 2:
            # bytes of one word
            v = I.rv(I.deref(c.val(0)))
            n = to64(c.val(1))
            I.require('a seed buffer covers the seed', eq(n, c64(16)))
            return SBuf(v)
        return NotImplemented
    I.overrides['yacl::Buffer::Buffer'] = buf

    def assign(I, c):
        a = I.unbase(I.rv(c.args[0]))
        if isinstance(a, AR.ABuf):
            a = Out(I, a.a.copy(I))
        t = c.this
        I.store(t, a)
        return t
    I.overrides['yacl::Buffer::operator='] = assign
    I.overrides['yacl::SerializeUint128'] = lambda I, c: SBuf(I.rv(c.args[0]))
    I.overrides['yacl::DeserializeUint128'] = lambda I, c: I.unbase(I.rv(c.args[0])).v
    I.overrides['yacl::ByteContainerView::ByteContainerView'] = lambda I, c: I.unbase(I.rv(c.args[0]))
    I.overrides['yacl::SerializeVars'] = lambda I, c: SBuf(I.rv(c.args[0]))
    I.overrides['yacl::DeserializeVars'] = lambda I, c: I.unbase(I.rv(c.args[0])).v

    def bcast(I, c):
        b, root = I.unbase(I.rv(c.args[1])), I.rv(c.args[2])
        if not is_c(root):
            raise Unsupported('symbolic root')
        if cval(root) == st['rank']:
            st['bcast'] = b.v
        if 'bcast' not in st:
            raise Unsupported('broadcast before its root')
        st.setdefault('roots', []).append(cval(root))
        return SBuf(st['bcast'])
    I.overrides['yacl::link::Broadcast'] = bcast

    def gather(I, c):
        b = I.unbase(I.rv(c.args[1]))
        st.setdefault('gather', []).append((b.v, I.rv(c.args[2])))
        return Vec([SBuf(var('g%d' % k, 128)) if k != st['rank'] else b for k in range(st['np'])] if st['rank'] == 0 else [])
    I.overrides['yacl::link::Gather'] = gather
    L = 'yacl::link::Context::'
    I.overrides[L + 'Rank'] = lambda I, c: c64(st['rank'])
    I.overrides[L + 'WorldSize'] = lambda I, c: c64(st['np'])
    for nm, k in (('FillPRand', 'plain'), ('FillPRandWithMersennePrime', 'word')):
        def fill(I, c, h=SL.b_fillprand('plain')):
            v = c.vals()
            r = h(I, c)
            st['draws'].setdefault(st['rank'], []).append((v[1], to64(v[3]), r))
            return r
        I.overrides['yacl::crypto::' + nm] = fill

    def rperm(I, c):
        n, seed, pc = c.val(0), c.val(1), c.val(2)
        ctr = I.rv(I.deref(pc))
        I.store(I.deref(pc), app('rperm_end', [ctr, n], 64))
        return Perm(seed, ctr, n)
    I.overrides['spu::mpc::genRandomPerm'] = rperm

    def inv(I, c):
        x, p = I.unbase(c.val(0)), I.unbase(c.val(1))
        for _ in range(3):
            if type(p) is SL.Span:
                p = I.unbase(p.c)
        if type(p) is not Perm:
            raise Unsupported('permutation %r' % (p,))
        w = RS.field_w(I, x.ety.v)
        RS.with_w(I, x, w)
        I.require('applyInvPerm: one position per element', eq(p.n, x.numel(I)))
        s = RS.Snap(I, x)

        def at(_, i):
            return s.at(app('rperm^-1', [p.seed, p.ctr, p.n, i], 64))
        return AR.new_arr(I, I.copyval(x.ety.v), I.copyval(x.shape.v), 'permuted', {(): w}, at)
    I.overrides['spu::mpc::applyInvPerm'] = inv

    def transpose(I, c):
        x = I.unbase(I.rv(c.this))
        sh = I.unbase(x.shape.v)
        if c.args or type(sh) is not Vec or len(sh.items) != 2:
            raise Unsupported('transpose')
        w = RS.field_w(I, x.ety.v)
        RS.with_w(I, x, w)
        s, (R, C) = RS.Snap(I, x), sh.items

        def at(_, i):
            a, b = RS.rowcol(I, i, R)
            return s.at(add(mul(b, C), a))
        return AR.new_arr(I, I.copyval(x.ety.v), Vec([C, R]), 'transposed', {(): w}, at)
    I.overrides['spu::NdArrayRef::transpose'] = transpose

    # prime field: operations of a commutative ring on words
    def gf(op, inplace):
        def h(I, c):
            x, y = I.unbase(c.val(0)), I.unbase(c.val(1))
            w = RS.field_w(I, x.ety.v)
            I.require('gfmp operands over one field', boolt(RS.field_w(I, y.ety.v) == w))
            I.require('gfmp operands of one shape', RS.same_shape(I, x.shape.v, y.shape.v))
            RS.with_w(I, x, w), RS.with_w(I, y, w)
            a, b = RS.Snap(I, x), RS.Snap(I, y)
            f = lambda i: op(a.at(i), b.at(i))
            if inplace:
                RS.wrlayer(I, x, f)
                return None
            return RS.mkres(I, x, f, w, 'gfmp')
        return h
    for nm, op in (('add', add), ('sub', sub), ('mul', mul)):
        I.overrides['spu::mpc::gfmp_%s_mod' % nm] = gf(op, False)
        I.overrides['spu::mpc::gfmp_%s_mod_' % nm] = gf(op, True)


def tasks(tier):
    P = load_program(FILES)
    out = []
    n = zext(var('n', 40), 64)
    CTR = zext(var('ctr', 60), 64)
    rec = P.recs['spu::mpc::semi2k::BeaverTfpUnsafe'] if 'spu::mpc::semi2k::BeaverTfpUnsafe' in P.recs else None
    drec = fn_named(P, TFP + 'Mul')

    def party(I, np, r):
        seeds = [var('s%d' % k, 128) for k in range(np)]
        return Obj(None, {'seed_': seeds[r], 'counter_': CTR, 'lctx_': Ptr(Cell(Obj(None))), 'seeds_': Vec(seeds if r == 0 else []), 'seeds_buff_': Vec([SBuf(s) for s in seeds] if r == 0 else [])})

    def desc(I, np, r, nm, mode, w, size, el):
        if mode is None:
            return NULL
        o = Obj(None, {'status': const({'init': 1, 'replay': 2, 'transpose': 3}[mode], 32)})
        if mode == 'init':
            o.f.update(prg_counter=fresh('garbage', 64), seed=fresh('garbage', 128), encrypted_seeds=Vec([]), size=fresh('garbage', 64), field=const(0, 32), eltype=const(0, 32))
        else:
            o.f.update(prg_counter=var(nm + '.ctr', 64), seed=var('%s.s%d' % (nm, r), 128), encrypted_seeds=Vec([SBuf(var('%s.s%d' % (nm, k), 128)) for k in range(np)] if r == 0 else []),
                       size=size, field=const(FMT[w], 32), eltype=const(el, 32))
        return Ptr(Cell(o))

    def parts(r):
        if type(r) is Obj:
            return [r.f['first'], r.f['second']]
        return list(r.items)

    def tot(xs, op):
        v = xs[0]
        for x in xs[1:]:
            v = add(v, x) if op == 'add' else bxor(v, x)
        return v

    def gen(label, meth, np, w, mkargs, spec, descs=(), sizes=None, setup=None, el=0, order=None, trows=None, tcols=None):
        """run the request at every party; spec(I, V, st) over V[j](p, i): word i of party p's j-th array"""
        def run(ctx):
            TM.UREM.clear()
            I = make_interp(P, abstract=True)
            st = dict(np=np)
            install(I, P, st)
            I.ghost['fill_leaves'] = {(): w}

            def call(I):
                for k in ('bcast', 'roots', 'gather'):
                    st.pop(k, None)
                st.update(draws={}, party={}, res={}, descs={})
                if setup is not None:
                    setup(I)
                for r in (order or range(np)):
                    st['rank'] = r
                    o = st['party'][r] = party(I, np, r)
                    ds = st['descs'][r] = [desc(I, np, r, nm, mode, w, sz, el) for nm, mode, sz in descs]
                    fn = fn_named(P, TFP + meth)
                    st['res'][r] = I.unbase(I.rv(I.invoke(fn, [LV(Cell(x)) for x in mkargs(ds)], LV(Cell(o)), None)))
                return c64(0)

            def post(I, _):
                res = {r: [I.unbase(I.rv(x)) for x in (parts(st['res'][r]) if not isinstance(st['res'][r], (Out, AR.ABuf)) else [st['res'][r]])] for r in range(np)}
                for r in res:
                    for x in res[r]:
                        if not isinstance(x, (Out, Perm)) and not (type(x) is Vec or type(x) is SArr):
                            raise Unsupported('result %r' % (x,))
                V = [lambda p, i, j=j: rd(I, res[p][j].a, i) for j in range(len(res[0]))]
                st['out'] = res
                yield from spec(I, V, st)
                want = sizes
                for j, sz in enumerate(want):
                    for r in range(np):
                        yield 'array %d has the requested size' % j, eq(res[r][j].n, sz)
                # streams
                e0 = I.rv(st['party'][0].f['counter_'])
                for r in range(1, np):
                    yield 'all parties end with equal counters', eq(I.rv(st['party'][r].f['counter_']), e0)
                    yield 'the seed is unchanged', eq(I.rv(st['party'][r].f['seed_']), var('s%d' % r, 128))
                    dr = [d for d in st['draws'].get(r, ()) if d[0] is var('s%d' % r, 128)]
                    I.assume(TRUE)
                    for a, (_, s1, t1) in enumerate(dr):
                        yield 'every fresh array is drawn at or after the counter', ule(CTR, s1)
                        if meth != 'PermPair':
                            yield 'every fresh array is drawn before the final counter', ule(t1, e0)
                        for _, s2, t2 in dr[a + 1:]:
                            yield 'no two fresh arrays share a part of the stream', or_(ule(t1, s2), ule(t2, s1))
                yield 'one counter at every party', boolt(True)
                for k, (nm, mode, sz) in enumerate(descs):
                    if mode is None:
                        continue
                    for r in range(np):
                        d = I.unbase(I.rv(I.deref(st['descs'][r][k])))
                        leaf = SL.prg_leaf(I.rv(d.f['seed']), c64(0), I.rv(d.f['prg_counter']), w, ())
                        i = fresh_idx(I, sz)
                        if mode == 'transpose':
                            # the session was for the transposed matrix
                            rr, cc = RS.rowcol(I, i, tcols[k])
                            yield 'the session of %s regenerates the same shares, transposed' % nm, eq(V[k](r, i), leaf(add(mul(cc, trows[k]), rr)))
                        else:
                            yield 'the session of %s regenerates the same shares' % nm, eq(V[k](r, i), leaf(i))
                        if mode == 'init':
                            yield 'the session of %s records the ring' % nm, eq(I.rv(d.f['field']), const(FMT[w], 32))
                            yield 'the session of %s records the size' % nm, eq(I.rv(d.f['size']), sz)
                            yield 'the session of %s records the kind of element' % nm, eq(I.rv(d.f['eltype']), const(el, 32))
                            es = I.unbase(I.rv(d.f['encrypted_seeds']))
                            if r == 0:
                                ss = [I.unbase(I.rv(x)).v for x in es.items]
                                yield 'the session of %s records every seed' % nm, and_(boolt(len(ss) == np), *[eq(a, var('s%d' % q, 128)) for q, a in enumerate(ss)])
                        else:
                            yield 'a replayed session is left alone', and_(eq(I.rv(d.f['prg_counter']), var(nm + '.ctr', 64)), eq(I.rv(d.f['seed']), var('%s.s%d' % (nm, r), 128)))
            ctx.run(I, call, post)
        out.append(Task(label, run))

    def group(w, np):
        f = const(FMT[w], 32)
        tag = ' [%d bits, %d parties]' % (w, np)

        def mulspec(I, V, st):
            i = fresh_idx(I, n)
            S = [tot([V[j](p, i) for p in range(np)], 'add') for j in range(3)]
            yield 'c = a * b', eq(S[2], mul(S[0], S[1]))
        modes = (None, 'init', 'replay')
        for el in (0, 1):
            for xm in modes:
                for ym in modes:
                    if el and (xm, ym) not in ((None, None), ('init', None), ('replay', 'init'), ('replay', 'replay')):
                        continue
                    gen('Mul%s, sessions %s/%s%s' % (' over the prime field' if el else '', xm or 'none', ym or 'none', tag), 'Mul', np, w, lambda ds, el=el: [f, n] + ds + [const(el, 32)], mulspec,
                        descs=(('x', xm, n), ('y', ym, n)), sizes=(n, n, n), el=el)
            if np == 2:
                def mpspec(I, V, st):
                    i = fresh_idx(I, n)
                    yield 'c = a * b for the parties\' own a and b', eq(tot([V[1](p, i) for p in range(np)], 'add'), mul(V[0](0, i), V[0](1, i)))
                gen('MulPriv%s%s' % (' over the prime field' if el else '', tag), 'MulPriv', np, w, lambda ds, el=el: [f, n, const(el, 32)], mpspec, sizes=(n, n), el=el)

        def sqspec(I, V, st):
            i = fresh_idx(I, n)
            S = [tot([V[j](p, i) for p in range(np)], 'add') for j in range(2)]
            yield 'b = a * a', eq(S[1], mul(S[0], S[0]))
        for xm in modes:
            gen('Square, session %s%s' % (xm or 'none', tag), 'Square', np, w, lambda ds: [f, n] + ds, sqspec, descs=(('x', xm, n),), sizes=(n, n))

        bits = zext(var('bits', 8), 64)

        def small(I):
            I.assume(ult(bits, c64(w)))
        fit = lambda t: zext(t, w) if t.w < w else trunc(t, w)

        def trspec(I, V, st):
            i = fresh_idx(I, n)
            S = [tot([V[j](p, i) for p in range(np)], 'add') for j in range(2)]
            yield 'b = a arithmetically shifted', eq(S[1], ashr(S[0], fit(bits)))
        gen('Trunc' + tag, 'Trunc', np, w, lambda ds: [f, n, bits], trspec, sizes=(n, n), setup=small)

        def tpspec(I, V, st):
            i = fresh_idx(I, n)
            S = [tot([V[j](p, i) for p in range(np)], 'add') for j in range(3)]
            yield 'the second is (r << 1) >> (bits + 1)', eq(S[1], lshr(shl(S[0], const(1, w)), add(fit(bits), const(1, w))))
            yield 'the third is the top bit of r', eq(S[2], lshr(S[0], const(w - 1, w)))

        def small1(I):
            I.assume(ult(bits, c64(w - 1)))
        gen('TruncPr' + tag, 'TruncPr', np, w, lambda ds: [f, n, bits], tpspec, sizes=(n, n, n), setup=small1)

        def rbspec(I, V, st):
            i = fresh_idx(I, n)
            yield 'a shared bit is 0 or 1', ule(tot([V[0](p, i) for p in range(np)], 'add'), const(1, w))
        gen('RandBit' + tag, 'RandBit', np, w, lambda ds: [f, n], rbspec, sizes=(n,))

        def ezspec(I, V, st):
            i = fresh_idx(I, n)
            yield 'the boolean sharing holds the value of the arithmetic one', eq(tot([V[1](p, i) for p in range(np)], 'xor'), tot([V[0](p, i) for p in range(np)], 'add'))
        gen('Eqz' + tag, 'Eqz', np, w, lambda ds: [f, n], ezspec, sizes=(n, n))

        for pr in range(np):
            def pmspec(I, V, st, pr=pr):
                i = fresh_idx(I, n)
                pv = st['out'][pr][2]
                if type(pv) is not Perm:
                    raise Unsupported('permutation %r' % (pv,))
                yield 'the permutation is drawn from the holder\'s seed', eq(pv.seed, var('s%d' % pr, 128))
                yield 'the permutation covers every element', eq(pv.n, n)
                at = key3(pv.seed, pv.ctr, pv.n, i)
                I.assume(ult(at, pv.n))
                g = eq(tot([V[1](p, at) for p in range(np)], 'add'), tot([V[0](p, i) for p in range(np)], 'add'))
                # lemma: the inverse of the permutation undoes it
                yield 'b at pi(i) = a at i', TM.subst(g, {app('rperm^-1', [pv.seed, pv.ctr, pv.n, at], 64): i})
                for r in range(np):
                    if r != pr:
                        yield 'nobody else gets the permutation', boolt(type(st['out'][r][2]) is Vec and not st['out'][r][2].items)
                yield 'the counter moves past the permutation', eq(I.rv(st['party'][pr].f['counter_']), app('rperm_end', [pv.ctr, pv.n], 64))
                for r in range(1, np):
                    for _, s, t in st['draws'].get(r, ()):
                        yield 'the permutation is drawn after the arrays', ule(t, pv.ctr)
            gen('PermPair, permutation at %d%s' % (pr, tag), 'PermPair', np, w, lambda ds, pr=pr: [f, n, c64(pr)], pmspec, sizes=(n, n), order=[pr] + [r for r in range(np) if r != pr])

        M, N, K = (zext(var(x, 20), 64) for x in 'mnk')

        def dotspec(xm, ym):
            def f_(I, V, st):
                i = fresh_idx(I, mul(M, N))
                ri, ci = RS.rowcol(I, i, N)
                A = lambda x: tot([V[0](p, x) for p in range(np)], 'add')
                B = lambda x: tot([V[1](p, x) for p in range(np)], 'add')
                q = fresh('q', 40)
                kk = zext(q, 64)
                I.ghost.setdefault('rowcol2', {}).update({(add(mul(ri, K), kk), K): (ri, kk), (add(mul(kk, N), ci), N): (kk, ci)})
                yield 'c = a . b', eq(tot([V[2](p, i) for p in range(np)], 'add'), mk_sum(q, K, mul(A(add(mul(ri, K), kk)), B(add(mul(kk, N), ci)))))
            return f_
        tm = modes + ('transpose',)
        for xm in tm:
            for ym in tm:
                gen('Dot, sessions %s/%s%s' % (xm or 'none', ym or 'none', tag), 'Dot', np, w, lambda ds: [f, M, N, K] + ds, dotspec(xm, ym), descs=(('x', xm, mul(M, K)), ('y', ym, mul(K, N))),
                    sizes=(mul(M, K), mul(K, N), mul(M, N)), trows=(M, K), tcols=(K, N))

    for w in (32, 64, 128):
        for np in (2, 3, 4):
            group(w, np)

    def bits_(np):
        nb = zext(var('n', 40), 64)
        el = lshr(add(nb, c64(15)), c64(4))

        def spec(I, V, st):
            i = fresh_idx(I, el)
            S = [tot([V[j](p, i) for p in range(np)], 'xor') for j in range(3)]
            yield 'c = a & b', eq(S[2], band(S[0], S[1]))
            for r in range(np):
                for x in st['out'][r]:
                    if x.size is None:
                        raise Unsupported('size of a bit buffer')
                    yield 'as many bytes as requested', eq(x.size, nb)
                    yield 'every byte handed out lies in the array', ule(nb, mul(x.n, c64(16)))
        gen('And [%d parties]' % np, 'And', np, 128, lambda ds: [nb], spec, sizes=(el, el, el))
    for np in (2, 3, 4):
        bits_(np)

    def ctor(np, r):
        def run(ctx):
            I = make_interp(P, abstract=True)
            st = dict(np=np, rank=r, draws={})
            install(I, P, st)
            ct = [f for f in P.byname.get(TFP + 'BeaverTfpUnsafe', ()) if f.hasbody]

            def call(I):
                st['gather'] = []
                o = st['o'] = Obj(None, {'seeds_': Vec([]), 'seeds_buff_': Vec([]), 'seed_': UNINIT, 'counter_': UNINIT, 'lctx_': UNINIT})
                I.run_ctor(ct[0], [LV(Cell(Ptr(Cell(Obj(None)))))], o, None)
                return c64(0)

            def post(I, _):
                o = st['o']
                s = I.rv(o.f['seed_'])
                yield 'the seed is fresh', boolt(s.op == 'v' and s.args[0].startswith('seed'))
                yield 'the counter starts at zero', eq(I.rv(o.f['counter_']), c64(0))
                if len(st['gather']) != 1:
                    raise Unsupported('set-up messages')
                yield 'the seed is given to the first party', and_(eq(st['gather'][0][0], s), eq(st['gather'][0][1], c64(0)))
                v = [I.rv(x) for x in I.unbase(I.rv(o.f['seeds_'])).items]
                b = [I.unbase(I.rv(x)).v for x in I.unbase(I.rv(o.f['seeds_buff_'])).items]
                e = [s if k == r else var('g%d' % k, 128) for k in range(np)] if r == 0 else []
                yield 'the first party holds every seed in rank order', boolt(len(v) == len(e)) if len(v) != len(e) else and_(TRUE, *[eq(x, y) for x, y in zip(v, e)])
                yield 'sessions carry the same seeds', boolt(len(b) == len(e)) if len(b) != len(e) else and_(TRUE, *[eq(x, y) for x, y in zip(b, e)])
            ctx.run(I, call, post)
        out.append(Task('set-up of party %d of %d' % (r, np), run))
    for np in (2, 3, 4):
        for r in range(np):
            ctor(np, r)
    return out
