"""P14: the parties' random streams (mpc/common/prg_state.{h,cc})."""
from ..kernels import *
from .. import arr as AR
from .. import stdlib as SL
from ..protosrc import proto, sources, COMMON

TRUSTED = ['yacl FillPRand: a deterministic function of (seed, iv, counter, position), returns the counter advanced by the 16-byte blocks consumed',
           'yacl ReplayShuffle: a permutation that is a deterministic function of (seed, counter); advances the counter',
           'yacl link: AllGather returns every party\'s buffer in the same order at all parties; a message sent to the previous party is what its receive from the next party returns',
           'SecureRandSeed returns a seed no other party knows', 'SerializeUint128 and DeserializeUint128 are inverse']
ASSUMPTIONS = ['2 to 5 parties for the set-up of the public seed (bounded); every other obligation for any number of parties', 'element counts below 2^40',
               'streams stay aligned across a history by induction on the calls: each stream a call touches advances by an amount that depends only on the requested size']
FILES = ['mpc/common/prg_state.cc', 'mpc/utils/permute.cc', 'core/type.cc', 'core/type_util.cc', 'core/shape.cc', '/verif/harness/h_prg.cc', '/verif/harness/h_types.cc']


def natives(tier):
    from ..check import Native
    yield Native('prgstate', sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape'), ms_quick=10000, opt='-O0')


FLDS = {'pub_seed_': 128, 'pub_counter_': 64, 'priv_seed_': 128, 'priv_counter_': 64, 'self_seed_': 128, 'next_seed_': 128, 'r0_counter_': 64, 'r1_counter_': 64}
# stream -> (seed, counter)
ST = {'public': ('pub_seed_', 'pub_counter_'), 'private': ('priv_seed_', 'priv_counter_'), 'self': ('self_seed_', 'r0_counter_'), 'next': ('next_seed_', 'r1_counter_')}


def shuffle(I, c):
    b, e, seed, pc = c.args
    b, e, pc = I.rv(b), I.rv(e), I.rv(pc)
    seed = I.rv(seed)
    nn = sub(e.i, b.i) if hasattr(e, 'i') else None
    tgt = b.c
    I.require('the whole vector is shuffled', and_(eq(b.k, c64(0)), eq(sub(e.k, b.k), tgt.n)))
    j = fresh_idx(I, tgt.n, 'j')
    I.require('the vector shuffled holds every position once', eq(I.rv(LV(tgt, j)), j))
    ctr = I.rv(I.load(pc.c, pc.k) if hasattr(I, 'load_') else LV(pc.c, pc.k))
    kt = fresh('e', 40)
    k = zext(kt, 64)
    n0 = tgt.n
    I.setc(tgt, '%layers', tgt.layers + [Layer([(kt, n0)], k, {(): app('shuffle', [seed, ctr, n0, k], 64)})])
    I.store(LV(pc.c, pc.k), app('shuffle_end', [ctr, n0], 64))
    return None


def tasks(tier):
    P = load_program(FILES)
    out = []

    def mk():
        I = make_interp(P)
        return I

    def state(I):
        o = Obj(P.recname('spu::mpc::PrgState') if hasattr(P, 'recname') else None, {k: var(k, w) for k, w in FLDS.items()})
        return o

    def moved(I, o, used):
        """seeds stay; the counters of the streams used advance by the blocks consumed, the others stay"""
        for nm, (sd, ct) in ST.items():
            yield 'the seed of the %s stream is unchanged' % nm, eq(I.rv(o.f[sd]), var(sd, 128))
            c = I.rv(o.f[ct])
            if nm in used:
                yield 'the counter of the %s stream moves past every block used' % nm, eq(c, add(var(ct, 64), used[nm]))
            else:
                yield 'the counter of the %s stream is unchanged' % nm, eq(c, var(ct, 64))

    def blocks(n, esz):
        return lshr(add(mul(n, c64(esz)), c64(15)), c64(4))

    n = zext(var('n', 40), 64)

    def fill(label, fname, w, used, mkargs):
        def run(ctx):
            I = mk()
            st = {}

            def call(I):
                o = st['o'] = state(I)
                args, st['arrs'] = mkargs(I)
                return I.invoke(fn_named(P, 'vh::' + fname), [LV(Cell(o))] + [LV(Cell(a)) for a in args], None, None)

            def post(I, r):
                o = st['o']
                yield from moved(I, o, {k: blocks(n, w // 8) for k in used})
                i = fresh_idx(I, n)
                for nm, a in st['arrs'].items():
                    v = I.rv(LV(a, i))
                    if nm in used:
                        sd, ct = ST[nm]
                        yield 'the words of the %s stream come from its seed and counter' % nm, eq(v, SL.prg_leaf(var(sd, 128), c64(0), var(ct, 64), w, ())(i))
                    else:
                        yield 'the array of the %s stream is left alone' % nm, eq(v, a.base_at((), i))
            ctx.run(I, call, post)
        out.append(Task(label, run))
    CT = {'both': (0, ('self', 'next')), 'first': (1, ('self',)), 'second': (2, ('next',))}
    for tn, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128)):
        def group(tn, w):
            sa = lambda nm: SArr(nm, n, {(): w})
            for c, (cv, used) in CT.items():
                def mkp(I, cv=cv):
                    a, b = sa('ra'), sa('rb')
                    return [Ptr(a, c64(0)), Ptr(b, c64(0)), n, const(cv, 32)], {'self': a, 'next': b}
                fill('fillPrssPair<%s>, %s' % (tn, c), 'prss_' + tn, w, used, mkp)
            for nm, fx in (('public', 'publ'), ('private', 'priv')):
                def mks(I, nm=nm):
                    a = sa('ra')
                    return [SL.Span(a, c64(0), n, None)], {nm: a}
                fill('fill%s<%s>' % (fx.capitalize(), tn), fx + '_' + tn, w, (nm,), mks)
        group(tn, w)

    # ---- whole arrays
    for fm, w in ((1, 32), (2, 64), (3, 128)):
        def group2(fm, w):
            def arrs(label, meth, used, ctrl):
                def run(ctx):
                    I = mk()
                    st = {}
                    sh = ashape()
                    N = AR.shape_numel(I, sh)

                    def call(I):
                        o = st['o'] = state(I)
                        I.ghost['fill_leaves'] = {(): w}
                        a = [const(fm, 32), sh] + ([const(ctrl, 32)] if ctrl is not None else [])
                        return I.rv(I.invoke(fn_named(P, 'spu::mpc::PrgState::' + meth), [LV(Cell(x)) for x in a], LV(Cell(o)), None))

                    def post(I, r):
                        yield from moved(I, st['o'], {k: blocks(N, w // 8) for k in used})
                        r = I.unbase(r)
                        res = [I.unbase(r)] if ctrl is None else [I.unbase(r.f['first']), I.unbase(r.f['second'])]
                        i = fresh_idx(I, N)
                        for k, a in zip(used if ctrl is None else ('self', 'next'), res):
                            yield '%s array has the requested shape' % k, RS.same_shape(I, a.shape.v, sh)
                            yield '%s array has the requested ring' % k, RS.is_ring(I, a, fm) if hasattr(RS, 'is_ring') else TRUE
                            if k in used:
                                sd, ct = ST[k]
                                yield 'the words of the %s stream come from its seed and counter' % k, eq(rd(I, a, i), SL.prg_leaf(var(sd, 128), c64(0), var(ct, 64), w, ())(i))
                    ctx.run(I, call, post)
                out.append(Task(label + ' [%d bits]' % w, run))
            for c, (cv, used) in CT.items():
                arrs('genPrssPair, ' + c, 'genPrssPair', used, cv)
            arrs('genPubl', 'genPubl', ('public',), None)
            arrs('genPriv', 'genPriv', ('private',), None)
        group2(fm, w)

    # ---- permutations
    def perms(label, meth, streams):
        def run(ctx):
            I = mk()
            I.overrides['yacl::crypto::ReplayShuffle'] = shuffle
            st = {}

            def call(I):
                o = st['o'] = state(I)
                return I.rv(I.invoke(fn_named(P, 'spu::mpc::PrgState::' + meth), [LV(Cell(n))], LV(Cell(o)), None))

            def post(I, r):
                r = I.unbase(r)
                res = [r] if len(streams) == 1 else [I.unbase(r.f['first']), I.unbase(r.f['second'])]
                i = fresh_idx(I, n)
                for nm, (sd, ct) in ST.items():
                    yield 'the seed of the %s stream is unchanged' % nm, eq(I.rv(st['o'].f[sd]), var(sd, 128))
                    e = app('shuffle_end', [var(ct, 64), n], 64) if nm in streams else var(ct, 64)
                    yield 'the counter of the %s stream' % nm, eq(I.rv(st['o'].f[ct]), e)
                for nm, a in zip(streams, res):
                    sd, ct = ST[nm]
                    yield 'one position per element (%s)' % nm, eq(length(I, a), n)
                    yield 'the %s permutation comes from its seed and counter' % nm, eq(I.rv(elemlv(I, a, i)), app('shuffle', [var(sd, 128), var(ct, 64), n, i], 64))
            ctx.run(I, call, post)
        out.append(Task(label, run))
    perms('genPrivPerm', 'genPrivPerm', ('private',))
    perms('genPrssPermPair', 'genPrssPermPair', ('self', 'next'))

    # ---- construction and forking
    def fork(ctx):
        I = mk()
        st = {}

        def call(I):
            st['o'] = state(I)
            return I.rv(I.invoke(fn_named(P, 'spu::mpc::PrgState::fork'), [], LV(Cell(st['o'])), None))

        def post(I, r):
            ch = child(I, r)
            yield from moved(I, st['o'], {k: c64(1) for k in ('public', 'self', 'next')})
            for k in ('public', 'self', 'next'):
                sd, ct = ST[k]
                yield 'the child\'s %s seed is the next word of the parent\'s %s stream' % (k, k), eq(I.rv(ch.f[sd]), SL.prg_leaf(var(sd, 128), c64(0), var(ct, 64), 128, ())(c64(0)))
                yield 'the child\'s %s counter starts at zero' % k, eq(I.rv(ch.f[ct]), c64(0))
            ps = I.rv(ch.f['priv_seed_'])
            yield 'the child\'s private seed is fresh', boolt(ps.op == 'v' and ps.args[0].startswith('seed'))
            yield 'the child\'s private counter starts at zero', eq(I.rv(ch.f['priv_counter_']), c64(0))
        ctx.run(I, call, post)
    out.append(Task('fork', fork))

    def child(I, r):
        r = I.unbase(r)
        for _ in range(4):
            if type(r) is Obj and 'self_seed_' in r.f:
                return r
            if hasattr(r, 'c'):
                r = I.unbase(I.rv(LV(r.c, getattr(r, 'k', None))))
            elif type(r) is Obj and len(r.f) == 1:
                r = I.unbase(next(iter(r.f.values())))
        raise Unsupported('result %r' % (r,))

    def ctor(np):
        def run(ctx):
            I = mk()
            log = {}

            def ser(I, c):
                return Opaque('bytes', I.rv(c.args[0])) if False else Buf(I.rv(c.args[0]))

            def deser(I, c):
                b = I.unbase(I.rv(c.args[0]))
                if type(b) is not Buf:
                    raise Unsupported('deserialise %r' % (b,))
                return b.v

            def gather(I, c):
                b = I.unbase(I.rv(c.args[1]))
                log.setdefault('gather', []).append((b.v, SL.render(I, c.args[2])))
                return Vec([Buf(var('pk%d.%d' % (len(log['gather']), k), 128)) for k in range(np)])

            def send(I, c):
                log.setdefault('send', []).append((I.rv(c.args[0]), I.unbase(I.rv(c.args[1])).v, SL.render(I, c.args[2])))
                return None

            def recv(I, c):
                log.setdefault('recv', []).append((I.rv(c.args[0]), SL.render(I, c.args[1])))
                return Buf(var('recv%d' % len(log['recv']), 128))
            I.overrides['yacl::SerializeUint128'] = ser
            I.overrides['yacl::DeserializeUint128'] = deser
            I.overrides['yacl::ByteContainerView::ByteContainerView'] = lambda I, c: I.unbase(I.rv(c.args[0]))
            I.overrides['yacl::link::AllGather'] = gather
            L = 'yacl::link::Context::'
            I.overrides[L + 'SendAsync'] = I.overrides[L + 'Send'] = I.overrides[L + 'SendAsyncThrottled'] = send
            I.overrides[L + 'Recv'] = recv
            I.overrides[L + 'PrevRank'] = lambda I, c: var('prev', 64)
            I.overrides[L + 'NextRank'] = lambda I, c: var('next', 64)
            I.overrides[L + 'Rank'] = lambda I, c: var('rank', 64)
            I.overrides[L + 'WorldSize'] = lambda I, c: c64(np)
            # the ring of parties
            rk = var('rank', 64)

            def call(I):
                log.clear()
                I.assume(ult(rk, c64(np)))
                I.assume(eq(var('prev', 64), ite(eq(rk, c64(0)), c64(np - 1), sub(rk, c64(1)))))
                I.assume(eq(var('next', 64), ite(eq(rk, c64(np - 1)), c64(0), add(rk, c64(1)))))
                return I.rv(I.invoke(fn_named(P, 'vh::prg_make'), [LV(Cell(Ptr(Cell(Obj(None)))))], None, None))

            def post(I, r):
                o = child(I, r)
                if len(log.get('gather', ())) != 1 or len(log.get('send', ())) != 1 or len(log.get('recv', ())) != 1:
                    raise Unsupported('set-up messages')
                pk = comb('add', [var('pk1.%d' % k, 128) for k in range(np)])
                yield 'the public seed combines every party\'s contribution and nothing local', eq(I.rv(o.f['pub_seed_']), pk)
                isf = lambda t: t.op == 'v' and t.args[0].startswith('seed')
                own = log['gather'][0][0]
                yield 'the contribution to the public seed is fresh', boolt(isf(own))
                (dst, val, tag), (src, rtag) = log['send'][0], log['recv'][0]
                yield 'the seed goes to the previous party', eq(dst, var('prev', 64))
                yield 'the seed comes from the next party', eq(src, var('next', 64))
                yield 'under one tag', boolt(tag == rtag)
                self = I.rv(o.f['self_seed_'])
                yield 'the seed sent is the own stream\'s', eq(val, self)
                yield 'the next stream\'s seed is the one received', eq(I.rv(o.f['next_seed_']), var('recv1', 128))
                priv = I.rv(o.f['priv_seed_'])
                yield 'the own and private seeds are fresh and distinct from the public contribution', boolt(isf(self) and isf(priv) and len({self.id, priv.id, own.id}) == 3)
                for k in FLDS:
                    if k.endswith('counter_'):
                        yield k + ' starts at zero', eq(I.rv(o.f[k]), c64(0))
            ctx.run(I, call, post)
        return run
    for np in (2, 3, 4, 5):
        out.append(Task('set-up of the streams [%d parties]' % np, ctor(np)))
    return out


class Buf:
    """serialised 128-bit word"""

    def __init__(self, v):
        self.v = v

    def copy(self, I):
        return self


def comb(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r
