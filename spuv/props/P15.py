"""P15: collective communication (mpc/common/communicator.*): every party runs the real body; the link layer is assumed."""
from ..protocol import *
from .. import protocol as PR
from ..check import Native
from .. import protosrc

TRUSTED = ['yacl link: AllGather / Gather deliver every party\'s bytes in rank order (Gather at the root only), Broadcast gives everyone the root\'s bytes, Send/Recv are ordered per pair; PrevRank/NextRank are the ring neighbours',
           'yacl::Buffer holds the bytes it is given', 'ring_add_, ring_xor_ by their contracts (P01), gfmp_add_mod_ by its (P07; sums of field elements as polynomials), makeCompactStrides by P08, clone by P09']
ASSUMPTIONS = ['2 to 5 parties (thorough: 8)', 'the parties pass arrays of one shape and element type (what the collectives are for)', 'arrays are read in row-major order: a compact array\'s memory is that order (P09)']
FILES = ['mpc/common/communicator.cc', 'mpc/utils/ring_ops.cc', 'mpc/utils/gfmp_ops.cc', 'core/type.cc', 'core/type_util.cc', 'core/shape.cc', 'mpc/common/pv2k.cc', 'mpc/aby3/type.cc',
         '/verif/harness/h_types.cc', '/verif/harness/h_comm.cc']


def natives(tier):
    yield Native('comm', protosrc.sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape'), ms_quick=6000)


class Raw:
    """the bytes at an address: elements of a source, in order"""
    def __init__(self, src, k):
        self.src, self.k = src, k

    def copy(self, I):
        return self


class Bytes:
    def __init__(self, msgs, nbytes):
        self.msgs, self.nbytes = msgs, nbytes

    def copy(self, I):
        return self


bdiv = PR.exact_div


class GBuf:
    """a received buffer: f(path-number, element, width) and its size in bytes; parts: widths of the element's parts"""
    def __init__(self, nbytes, f, ws):
        self.nbytes, self.f, self.ws = nbytes, f, ws

    def copy(self, I):
        return self


def gbuf_m(name):
    if name == 'size':
        return lambda I, o, c: o.nbytes
    if name == 'data':
        def data(I, o, c):
            if not c.fn.ta or c.fn.ta[0].k == 'void':
                return Ptr(Cell(o), None, 'gbuf')
            w = SL.leaves_of(I, c.fn.ta[0])[0][()]
            if o.ws != [w] and not (o.ws == [None]):
                raise Unsupported('received bytes read with another element width')
            n = bdiv(o.nbytes, w // 8)
            return Ptr(SArr(fresh('buf', 1).args[0], n, {(): w}, lambda p, i: o.f(0, i, w)), c64(0), c.fn.ta[0])
        return data
    return None


AR.ARRCLS[GBuf] = gbuf_m
AR.ARRCLS[Bytes] = lambda nm: {'size': lambda I, o, c: o.nbytes}.get(nm)


class Compact:
    def __init__(self, shape):
        self.shape = shape

    def copy(self, I):
        return self


def tasks(tier):
    P = load_program(FILES)
    out = []
    hcall = RS.hcall

    def hf(n):
        return fn_named(P, 'vc::' + n)

    def source(I, p):
        """message(s) readable from address p: (msgs, number of elements, bytes per element)"""
        if isinstance(p, Ptr) and isinstance(p.extra, Arr):
            p = Raw(p.extra, p.k)
        if isinstance(p, Raw):
            p = Ptr(p.src.store, p.k, p.src) if isinstance(p.src, Arr) else p.src
        a = p.extra if isinstance(p, Ptr) and isinstance(p.extra, Arr) else None
        if a is not None:
            if not (p.k is None or (is_c(I.kt(p.k)) and cval(I.kt(p.k)) == 0)):
                raise Unsupported('bytes from inside an array')
            cp = AR.ARR_METHODS['isCompact'](I, a, None)
            I.require('the bytes sent start at a compact array (row-major content)', cp)
            sub = leafw(a)
            s = Snap(I, a)
            ps = sorted(sub)
            return [Msg((lambda i, q=q: s.at(i, q)), a.numel(I), sub[q]) for q in ps], a.numel(I), sum(sub.values()) // 8
        if isinstance(p, Ptr) and type(p.c) is SArr:
            v, off = p.c, I.kt(p.k) if p.k is not None else c64(0)
            lay, w = list(v.layers), v.leaves[()]
            return [Msg(lambda i: I.layers_read(v, lay, add(off, i), ()), v.n, w)], sub_(v.n, off), w // 8
        raise Unsupported('bytes at %r' % (p,))

    def sub_(a, b):
        return TM.sub(a, b)

    def setup(I):
        W = lambda: I.cur

        def bcv(I, c):
            vals = c.vals()
            if len(vals) == 2:
                p, n = vals[0], to64(vals[1])
                if isinstance(p, Ptr):
                    ms, cnt, eb = source(I, p)
                    I.require('all of the array is sent, and nothing beyond it', eq(n, mul(cnt, c64(eb))))
                    return Bytes(ms, n)
            if len(vals) == 1:
                v = I.unbase(vals[0])
                if isinstance(v, Bytes):
                    return v
                if isinstance(v, (Vec, SArr)):
                    return Bytes([Msg(lambda i: const(0, 8), c64(1), 8, sized=False)], c64(1))      # a placeholder, not data
            raise Unsupported('byte view of %r' % (vals,))
        I.overrides['yacl::ByteContainerView::ByteContainerView'] = bcv

        I.bytecast = True

        def mcpy(I, c):
            s = c.val(1)
            if isinstance(s, Ptr) and s.extra == 'gbuf':
                d, o = c.val(0), I.unbase(s.c.v)
                w = o.ws[0] if d.c.leaves[()] == o.ws[0] and len(o.ws) == 1 else None
                if w is None or not isinstance(o, GBuf):
                    raise Unsupported('copy out of a received buffer')
                src = SArr(fresh('buf', 1).args[0], bdiv(o.nbytes, w // 8), {(): w}, lambda p, i: o.f(0, i, w))
                src.ety = getattr(d.c, 'ety', None)
                SL.do_memcpy(I, d, Ptr(src, c64(0)), to64(c.val(2)))
                return d
            return SL.b_memcpy(I, c)
        I.overrides['memcpy'] = I.overrides['std::memcpy'] = mcpy

        def tagk(v):
            s = SL.render(I, v)
            if s == '?':
                raise Unsupported('tag')
            return s

        def coll(kind):
            def h(I, c):
                w = W()
                r = w.rank
                b = I.unbase(I.rv(c.args[1]))
                if not isinstance(b, Bytes):
                    raise Unsupported('collective over %r' % (b,))
                if kind == 'AllGather':
                    root, tag = None, tagk(c.args[2])
                else:
                    root, tag = c.val(2), tagk(c.args[3])
                    if not is_c(root):
                        raise Unsupported('symbolic root')
                    root = cval(root)
                ref = w.expect
                msgs = b.msgs
                if kind == 'Broadcast' and r != root:
                    msgs = [Msg((lambda i, x=x: const(0, x)), bdiv(ref[0], sum(ref[1]) // 8), x) for x in ref[1]]
                k = w.site(r, kind, (root, tag), msgs)
                if kind == 'Broadcast':
                    if r == root:
                        I.require('the root sends the whole array', eq(b.nbytes, ref[0]))
                else:
                    I.require('every party contributes its whole array', eq(b.nbytes, ref[0]))

                def got(p):
                    return GBuf(ref[0], lambda j, i, wd, p=p: w.ph(k, p, j, i, wd), ref[1])
                if kind == 'AllGather':
                    return Vec([got(p) for p in range(w.n)])
                if kind == 'Gather':
                    return Vec([got(p) for p in range(w.n)] if r == root else [])
                return got(root)
            return h
        for nm in ('AllGather', 'Gather', 'Broadcast'):
            I.overrides['yacl::link::' + nm] = coll(nm)
        I.overrides['yacl::Buffer::Buffer'] = lambda I, c: I.unbase(I.rv(c.args[0])) if c.args else GBuf(c64(0), lambda j, i, w: const(0, w), [None])

        def strides(I, c):
            return Compact(I.copyval(c.val(0)))
        I.overrides['spu::makeCompactStrides'] = strides

        def ext(I, c, vals):
            b = I.unbase(I.rv(I.deref(vals[0]))) if isinstance(vals[0], Ptr) else None
            if not isinstance(b, GBuf) or len(vals) != 5:
                raise Unsupported('array over %r' % (b,))
            ety, shape, st, off = I.copyval(vals[1]), I.copyval(vals[2]), I.unbase(vals[3]), to64(vals[4])
            st = I.unbase(st.base) if not isinstance(st, (Compact, Vec)) and hasattr(st, 'base') else st
            I.require('the received array starts at the first byte', eq(off, c64(0)))
            n = AR.shape_numel(I, shape)
            es = to64(I.rv(I.call_method(ety, 'size')))
            if isinstance(st, Compact):
                I.require('strides of the shape', RS.same_shape(I, shape, st.shape))
            elif type(st) is Vec and len(st.items) == 1:
                I.require('strides of the shape', eq(to64(st.items[0]), c64(1)))
            else:
                raise Unsupported('strides of a received array')
            I.require('the buffer has the array\'s size', eq(b.nbytes, mul(n, es)))
            ws = b.ws
            if ws == [None]:
                ws = [RS.field_w(I, ety)]
            leaves = {(): ws[0]} if len(ws) == 1 else {(j,): w for j, w in enumerate(ws)}
            return AR.new_arr(I, ety, shape, 'newrecv', leaves, lambda p, i: b.f(p[0] if p else 0, i, ws[p[0] if p else 0]))
        I.ghost['ndref_ctor_ext'] = ext

        def gfadd(I, c):
            x, y = I.unbase(c.val(0)), I.unbase(c.val(1))
            w = RS.field_w(I, x.ety.v)
            RS.with_w(I, x, w), RS.with_w(I, y, w)
            a, b = RS.Snap(I, x), RS.Snap(I, y)
            RS.wrlayer(I, x, lambda i: add(a.at(i), b.at(i)))
            I.cur.gf = True
            return None
        I.overrides['spu::mpc::gfmp_add_mod_'] = gfadd

        old = I.overrides.get('spu::mpc::ring_add_')

        def no_gf(h):
            def g(I, c):
                for x in c.args[:1]:
                    v = I.unbase(I.rv(x))
                    if isinstance(v, Arr) and I.known(hcall(I, 'isgf', LV(Cell(I.copyval(v.ety.v))))) is True:
                        I.require('field elements are added in the field', FALSE)
                return h(I, c)
            return g
        if old is not None and P.byname.get('vh::isgf'):
            I.overrides['spu::mpc::ring_add_'] = no_gf(old)

    def lsend(I, W, r, c):
        dst = c.val(0)
        if not is_c(dst):
            raise Unsupported('symbolic destination')
        b = I.unbase(I.rv(c.args[1]))
        if not isinstance(b, Bytes):
            raise Unsupported('sending %r' % (b,))
        tag = SL.render(I, c.args[2])
        I.require('the whole array is sent', eq(b.nbytes, W.expect[0]))
        for j, m in enumerate(b.msgs):
            m.tag = '%s#%d' % (tag, j)
            W.append(('chan', r, cval(dst)), m)
        return None

    def lrecv(I, W, r, c):
        src = c.val(0)
        if not is_c(src):
            raise Unsupported('symbolic source')
        src = cval(src)
        tag = SL.render(I, c.args[1])
        q0 = W.count(('rcv', src, r))
        for j, w in enumerate(W.expect[1]):
            W.append(('rcv', src, r), ('%s#%d' % (tag, j), w))
        return GBuf(W.expect[0], lambda j, i, wd: app('%%s.%d.%d.%d' % (src, r, q0 + j), [i], wd), W.expect[1])
    PR.METHODS['lctx', 'SendAsync'] = lsend
    PR.METHODS['lctx', 'SendAsyncThrottled'] = lsend
    PR.METHODS['lctx', 'Send'] = lsend
    PR.METHODS['lctx', 'Recv'] = lrecv

    def task(label, n, run_party, spec, w, ety='ring', comps=1):
        """run_party(I, W, r, x, shape) -> result; spec(I, W, rs, i) yields goals"""
        def run(ctx):
            I = PR.mk(P, n, w, setup=setup)
            numel = zext(var('n', 40), 64)

            def call(I):
                W = I.cur = World(I, n, w)
                W.ws = {}
                W.gf = False
                W.expect = (mul(numel, c64(w * comps // 8)), [w] * comps)
                sh = AShape('s', numel)
                W.ins, rs = [], []
                snaps = []
                for r in range(n):
                    W.rank = r
                    e = RS.ringty(I, w) if ety == 'ring' else hcall(I, ety, fmval(I.P, w))
                    if ety == 'span':
                        x = None
                    leaves = {(): w} if comps == 1 else {(j,): w for j in range(comps)}
                    x = AR.new_arr(I, e, sh.copy(I) if hasattr(sh, 'copy') else sh, 'in%d' % r, leaves, lambda p, i, r=r: app('x%s@%d' % (p[0] if p else '', r), [i], w))
                    W.ins.append(x)
                    snaps.append(('operand of party %d' % r, x, Snap(I, x)))
                    co = Obj(None, {'stats_': Obj(None, {'latency': c64(0), 'comm': c64(0)}), 'lctx_': ptr(SO('lctx', W, r))})
                    rs.append(run_party(I, W, r, x, sh, Ptr(Cell(co))))
                W.snaps = snaps
                return rs

            def post(I, W, rs):
                i = fresh_idx(I, numel)
                yield from spec(I, W, rs, i)
                yield from frame(I, W.snaps)
            fullrun(ctx, I, None, call, post)
        out.append(Task(label, run))

    def X(r, i, w, j=None):
        return app('x%s@%d' % ('' if j is None else j, r), [i], w)

    def arr_ok(I, W, o, like, p):
        """shape and type arrive"""
        yield 'party %d: element type' % p, hcall(I, 'sametype', LV(Cell(I.copyval(o.ety.v))), LV(Cell(I.copyval(like.ety.v))))
        yield 'party %d: number of elements' % p, eq(o.numel(I), like.numel(I))

    TAG = 'tag'
    for n in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8)):
        for w in (32, 64, 128):
            ws = (w,) if tier == 'quick' and n == 4 and w != 64 else (w,)

            def group(n, w):
                nm = '[%d parties, %d bit]' % (n, w)
                for op, f in ((1, 'add'), (2, 'xor')):
                    def s_all(I, W, rs, i, f=f):
                        for p in range(n):
                            yield 'party %d: combination of all arrays' % p, eq(rd(I, rs[p], i, ()), comb(f, [X(q, i, w) for q in range(n)]))
                            yield from arr_ok(I, W, rs[p], W.ins[p], p)
                    task('allReduce %s %s' % (f, nm), n, lambda I, W, r, x, sh, c, op=op: callfn(I, hf('nd_allreduce'), c, const(op, 32), x, TAG), s_all, w)
                    for root in range(n):
                        def s_red(I, W, rs, i, f=f, root=root):
                            yield 'root: combination of all arrays', eq(rd(I, rs[root], i, ()), comb(f, [X(q, i, w) for q in range(n)]))
                            yield from arr_ok(I, W, rs[root], W.ins[root], root)
                        task('reduce %s to %d %s' % (f, root, nm), n, lambda I, W, r, x, sh, c, op=op, root=root: callfn(I, hf('nd_reduce'), c, const(op, 32), x, c64(root), TAG), s_red, w)

                def s_gf(I, W, rs, i):
                    for p in range(n):
                        yield 'party %d: field sum of all arrays' % p, eq(rd(I, rs[p], i, ()), comb('add', [X(q, i, w) for q in range(n)]))
                        yield 'party %d: computed in the field' % p, boolt(W.gf)
                task('allReduce field %s' % nm, n, lambda I, W, r, x, sh, c: callfn(I, hf('nd_allreduce'), c, const(1, 32), x, TAG), s_gf, w, ety='gfmp')

                def s_gfr(I, W, rs, i):
                    yield 'root: field sum of all arrays', eq(rd(I, rs[0], i, ()), comb('add', [X(q, i, w) for q in range(n)]))
                    yield 'root: computed in the field', boolt(W.gf)
                task('reduce field %s' % nm, n, lambda I, W, r, x, sh, c: callfn(I, hf('nd_reduce'), c, const(1, 32), x, c64(0), TAG), s_gfr, w, ety='gfmp')

                def s_rot(I, W, rs, i):
                    for p in range(n):
                        yield 'party %d: the next party\'s array' % p, eq(rd(I, rs[p], i, ()), X((p + 1) % n, i, w))
                        yield from arr_ok(I, W, rs[p], W.ins[p], p)
                task('rotate %s' % nm, n, lambda I, W, r, x, sh, c: callfn(I, hf('nd_rotate'), c, x, TAG), s_rot, w)
                for root in range(n):
                    def s_ga(I, W, rs, i, root=root):
                        for p in range(n):
                            v = I.unbase(I.rv(rs[p]))
                            if type(v) is not Vec:
                                raise Unsupported('gathered list')
                            if p == root:
                                yield 'root: one array per party', boolt(len(v.items) == n)
                                for q in range(min(n, len(v.items))):
                                    yield 'root: array of party %d in its place' % q, eq(rd(I, v.items[q], i, ()), X(q, i, w))
                                    yield from arr_ok(I, W, v.items[q], W.ins[q], p)
                            else:
                                yield 'party %d: nothing gathered' % p, boolt(all(isinstance(a, Arr) and a.store.leaves is None for a in v.items))
                    task('gather at %d %s' % (root, nm), n, lambda I, W, r, x, sh, c, root=root: callfn(I, hf('nd_gather'), c, x, c64(root), TAG), s_ga, w)

                    def s_bc(I, W, rs, i, root=root):
                        for p in range(n):
                            yield 'party %d: the root\'s array' % p, eq(rd(I, rs[p], i, ()), X(root, i, w))
                            yield from arr_ok(I, W, rs[p], W.ins[root], p)
                    task('broadcast from %d %s' % (root, nm), n, lambda I, W, r, x, sh, c, root=root: callfn(I, hf('nd_broadcast'), c, x, c64(root), I.copyval(x.ety.v), I.copyval(sh), TAG), s_bc, w)

                def p2p(I, W, r, x, sh, c):
                    if r == 0:
                        callfn(I, hf('nd_send'), c, c64(n - 1), x, TAG)
                    if r == n - 1:
                        return callfn(I, hf('nd_recv'), c, c64(0), I.copyval(x.ety.v), TAG)
                    return None

                def s_p2p(I, W, rs, i):
                    o = rs[n - 1]
                    yield 'the receiver holds the sender\'s array', eq(rd(I, o, i, ()), X(0, i, w))
                    yield from arr_ok(I, W, o, W.ins[0], n - 1)
                task('sendAsync/recv %s' % nm, n, p2p, s_p2p, w)

                def s_nb(I, W, rs, i):
                    for p in range(n):
                        for nm2, v, e in zip(('previous', 'next', 'own'), rs[p], ((p - 1) % n, (p + 1) % n, p)):
                            yield 'party %d: %s rank' % (p, nm2), eq(to64(v), c64(e))
                        yield 'party %d: number of parties' % p, eq(to64(rs[p][3]), c64(n))
                if w == 64:
                    task('ring neighbours %s' % nm, n, lambda I, W, r, x, sh, c: [I.rv(I.invoke(fn_named(P, 'spu::mpc::Communicator::' + m), [], c, None)) for m in ('prevRank', 'nextRank', 'getRank', 'getWorldSize')], s_nb, w)

                # typed forms
                def sp(I, W, r):
                    a = SArr('span%d' % r, W.ins[r].numel(I), {(): w}, lambda p, i, r=r: X(r, i, w))
                    return SL.Span(a, c64(0), a.n, hf('rotate_%d' % w).params[1][2])

                def el(I, v, i):
                    v = I.unbase(I.rv(v))
                    return I.load(LV(v, i))

                def t_rot(I, W, rs, i):
                    for p in range(n):
                        yield 'party %d: length' % p, eq(length(I, I.unbase(rs[p])), W.ins[p].numel(I))
                        yield 'party %d: the next party\'s list' % p, eq(el(I, rs[p], i), X((p + 1) % n, i, w))
                task('rotate<T> %s' % nm, n, lambda I, W, r, x, sh, c: callfn(I, hf('rotate_%d' % w), c, sp(I, W, r), TAG), t_rot, w)
                for f in ('add', 'xor'):
                    def t_all(I, W, rs, i, f=f):
                        for p in range(n):
                            yield 'party %d: length' % p, eq(length(I, I.unbase(rs[p])), W.ins[p].numel(I))
                            yield 'party %d: combination of all lists' % p, eq(el(I, rs[p], i), comb(f, [X(q, i, w) for q in range(n)]))
                    task('allReduce<T> %s %s' % (f, nm), n, lambda I, W, r, x, sh, c, f=f: callfn(I, hf('allreduce_%s_%d' % (f, w)), c, sp(I, W, r), TAG), t_all, w)
                for root in range(n):
                    def t_bc(I, W, rs, i, root=root):
                        for p in range(n):
                            yield 'party %d: length' % p, eq(length(I, I.unbase(rs[p])), W.ins[p].numel(I))
                            yield 'party %d: the root\'s list' % p, eq(el(I, rs[p], i), X(root, i, w))
                    task('bcast<T> from %d %s' % (root, nm), n, lambda I, W, r, x, sh, c, root=root: callfn(I, hf('bcast_%d' % w), c, sp(I, W, r), c64(root), TAG), t_bc, w)

                    def t_ga(I, W, rs, i, root=root):
                        v = I.unbase(I.rv(rs[root]))
                        yield 'root: one list per party', boolt(len(v.items) == n)
                        for q in range(min(n, len(v.items))):
                            yield 'root: list of party %d in its place' % q, eq(el(I, v.items[q], i), X(q, i, w))
                            yield 'root: its length', eq(length(I, I.unbase(v.items[q])), W.ins[q].numel(I))
                    task('gather<T> at %d %s' % (root, nm), n, lambda I, W, r, x, sh, c, root=root: callfn(I, hf('gather_%d' % w), c, sp(I, W, r), c64(root), TAG), t_ga, w)

                def tp2p(I, W, r, x, sh, c):
                    if r == 0:
                        callfn(I, hf('send_%d' % w), c, c64(n - 1), sp(I, W, r), TAG)
                    if r == n - 1:
                        return callfn(I, hf('recv_%d' % w), c, c64(0), TAG)
                    return None

                def t_p2p(I, W, rs, i):
                    yield 'length', eq(length(I, I.unbase(rs[n - 1])), W.ins[0].numel(I))
                    yield 'the receiver holds the sender\'s list', eq(el(I, rs[n - 1], i), X(0, i, w))
                task('sendAsync<T>/recv<T> %s' % nm, n, tp2p, t_p2p, w)
            group(n, w)
    return out
