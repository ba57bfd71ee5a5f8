"""P30: values through their wire form and back, inputs shared and reconstructed (core/value.cc, mpc/*/io.cc, device/io.cc)."""
from ..protocol import *
from .. import protocol as PR
from .. import semi2k as S2, aby3 as A3
from ..protosrc import sources, DIRS
from ..check import Native
from .. import stdlib as SL, terms as TM, arr as AR
from ..interp import Layer

TRUSTED = ['k < ceil(t/m) implies k*m < t (integer arithmetic), fewer than 2^56 chunks', 'NdArrayRef::clone copies the elements in row-major order into contiguous storage (P09)', 'protobuf messages keep what is stored in them; parsing back (fromProto) and IoClient by the run-time contract only', 'NdArrayRef/NdArrayView addressing, as(type), component views (getShare): by contract', 'ring_* operations and ring_rand_additive_splits by their contracts (P01)', 'makeConstantArrayRef: every element zero']
ASSUMPTIONS = ['element counts below 2^40', 'two to four parties (three where the protocol fixes it)']
FILES = BASE + ['/verif/harness/h_types.cc', '/verif/harness/h_aby3.cc', '/verif/harness/h_semi2k.cc', '/verif/harness/h_io.cc', 'mpc/semi2k/io.cc', 'mpc/semi2k/type.cc', 'mpc/securenn/io.cc', 'mpc/securenn/type.cc', 'mpc/aby3/io.cc',
                'mpc/aby3/type.cc', 'mpc/aby3/value.cc', 'mpc/ref2k/ref2k.cc', 'mpc/experimental/swift/io.cc', 'mpc/experimental/swift/type.cc', 'mpc/experimental/swift/value.cc', 'core/type_util.cc', 'core/value.cc']
hcall = RS.hcall
PARTIES = {'ref2k': (2, 3, 4), 'semi2k': (2, 3, 4), 'securenn': (3,), 'aby3': (3,), 'swift': (3,)}
FILES = list(dict.fromkeys(FILES))


def natives(tier):
    yield Native('value', sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape', *dict.fromkeys(DIRS['securenn'] + DIRS['aby3'] + DIRS['ref2k'] + DIRS['swift'])) + ['device/io.cc', 'device/symbol_table.cc'], ms_quick=10000, opt='-O0')


def swift_share(I, c):
    x, j = c.val(0), c.val(1)
    if not is_c(j):
        raise Unsupported('symbolic component')
    j = cval(j)
    I.require('getShare: component 0, 1 or 2', boolt(j in (0, 1, 2)))
    w = RS.field_w(I, I.copyval(x.ety.v))
    if x.store.leaves is None:
        x.store.leaves = {x.path + (k,): w for k in range(3)}
    if x.store.leaves.get(x.path + (j,)) != w:
        raise Unsupported('component layout')
    return Arr(x.store, Cell(RS.ringty(I, w)), Cell(I.copyval(x.shape.v)), x.imap, x.path + (j,), x.name)


class Bytes(Container):
    """the stored bytes of an array: element count, element size, layout; content known only by address"""

    def __init__(self, name, n, es, compact):
        self.name, self.n, self.es, self.compact = name, n, es, compact
        self.mem = SArr('bytes.' + name, mul(n, c64(es)), {(): 8})
        self.seq = nextseq()

    def copy(self, I):
        return self


def clone(I, o, c):
    # contract of NdArrayRef::clone: a compact copy, same elements in the same order
    r = Bytes(o.name, o.n, o.es, TRUE)
    r.mem = o.mem if o.compact is TRUE else SArr('clone.' + o.name, mul(o.n, c64(o.es)), {(): 8})
    return r


AR.ARRCLS[Bytes] = lambda nm: {'numel': lambda I, o, c: o.n, 'elsize': lambda I, o, c: c64(o.es), 'isCompact': lambda I, o, c: o.compact, 'clone': clone,
                               'data': lambda I, o, c: Ptr(o.mem, c64(0), None), 'buf': lambda I, o, c: Ptr(Cell(Buf(o)))}.get(nm)


class Buf:
    def __init__(self, o):
        self.o = o

    def copy(self, I):
        return self


AR.ARRCLS[Buf] = lambda nm: {'size': lambda I, o, c: mul(o.o.n, c64(o.o.es)), 'data': lambda I, o, c: Ptr(o.o.mem, c64(0), None)}.get(nm)


class Chunk(Container):
    """one ValueChunkProto: what was stored in each field; the content by source array, offset and length"""

    def __init__(self):
        self.f = {k: c64(0) for k in CK.values()}
        self.seq = nextseq()

    def get(self, k):
        return self.f[k]

    def put(self, k, v):
        self.f = dict(self.f)
        self.f[k] = v

    def copy(self, I):
        r = Chunk()
        r.f = dict(self.f)
        return r


def chunk_m(nm):
    def h(I, o, c):
        if nm == 'set_content':
            p = c.val(0)
            if len(c.args) != 2 or not isinstance(p, Ptr) or type(p.c) is not SArr or not p.c.name.startswith(('bytes.', 'clone.')):
                raise Unsupported('content of a chunk')
            ids = I.ghost.setdefault('mem', {})
            I.setc(o, 'src', const(ids.setdefault(p.c.name, len(ids) + 1), 64))
            I.setc(o, 'from', to64(p.k))
            I.setc(o, 'len', to64(c.val(1)))
            return None
        if nm in ('set_total_bytes', 'set_chunk_offset'):
            I.setc(o, nm, to64(c.val(0)))
            return None
        if nm == 'CopyFrom':
            return None
        raise Unsupported('chunk member ' + nm)
    return h


AR.ARRCLS[Chunk] = chunk_m
CK = {('total',): 'set_total_bytes', ('offset',): 'set_chunk_offset', ('src',): 'src', ('from',): 'from', ('len',): 'len'}


class Chunks(Container):
    """a vector of chunks of symbolic length"""

    def __init__(self):
        self.cnt = Cell(c64(0))
        self.arr = SArr('chunks', c64(1 << 62), {p: 64 for p in CK})
        self.seq = nextseq()

    def copy(self, I):
        return self


def chunks_m(nm):
    def add_(I, o, c):
        k = I.unbase(I.rv(c.args[0])) if c.args else None
        if type(k) is not Chunk:
            raise Unsupported('chunk %r' % (k,))
        at = o.cnt.v
        vals = {p: k.f[f] for p, f in CK.items()}
        I.setc(o.arr, '%layers', o.arr.layers + [Layer([], at, vals, TRUE)])
        I.setc(o.cnt, None, add(at, c64(1)))
        return None
    return {'emplace_back': add_, 'push_back': add_, 'size': lambda I, o, c: o.cnt.v, 'reserve': lambda I, o, c: None}.get(nm)


AR.ARRCLS[Chunks] = chunks_m


def tasks(tier):
    P = load_program(FILES)
    out = []
    N = zext(var('n', 40), 64)

    def base(n, w):
        I = PR.mk(P, n, w)
        I.cur = None
        I.overrides['spu::makeConstantArrayRef'] = S2.const_array
        I.overrides[A3.NS + 'getShare'] = A3.get_share
        I.overrides['spu::mpc::swift::getShare'] = swift_share
        return I

    def arr(I, ty, name, w, word=None, leaves=None):
        return AR.new_arr(I, ty, AShape('s', N), name, leaves or {(): w}, word or (lambda p, i: app(name, [i], w)))

    def task(label, run):
        out.append(Task(label, run))

    def input_(pr, n, w, pub, owner):
        def run(ctx):
            I = base(n, w)
            def call(I):
                f, v = fmval(P, w), hcall(I, 'vis_pub' if pub else 'vis_sec')
                raw = I.g_raw = arr(I, RS.ringty(I, w), 'x', w)
                I.g_sx = Snap(I, raw)
                I.g_sh = hcall(I, 'to_' + pr, f, c64(n), LV(Cell(raw)), v, const(owner, 32))
                I.g_ty = hcall(I, 'ty_' + pr, f, c64(n), v, const(owner, 32))
                return hcall(I, 'from_' + pr, f, c64(n), LV(Cell(I.g_sh)))

            def post(I, r):
                i = fresh_idx(I, N)
                sh = [I.unbase(I.rv(a)) for a in I.unbase(I.g_sh).items]
                yield 'one share per party', boolt(len(sh) == n)
                for k, a in enumerate(sh):
                    yield 'share type of party %d' % k, hcall(I, 'same_ty', LV(Cell(I.copyval(a.ety.v))), LV(Cell(I.copyval(I.g_ty))))
                    yield 'size of the share of party %d' % k, eq(a.numel(I), N)
                yield 'the plaintext comes back', eq(rd(I, r, i, ()), app('x', [i], w))
                yield 'number of elements', eq(r.numel(I), N)
                yield 'operand unchanged', eq(I.g_sx.at(i), rd(I, I.g_raw, i, ()))
            ctx.run(I, call, post, throws_ok=False)
        task('%s, %d parties, %d bits, %s' % (pr, n, w, 'public' if pub else 'secret' if owner < 0 else 'private to %d' % owner), run)

    def output(pr, n, w, bool_):
        """reconstruction from any sharing"""
        def run(ctx):
            I = base(n, w)

            def call(I):
                f = fmval(P, w)
                ty = {'semi2k': ('semi2k_a', 'semi2k_b'), 'securenn': ('securenn_a2', 'securenn_b2'), 'swift': ('swift_a', 'swift_b')}[pr][bool_]
                nb = [zext(var('nb', 5), 64)] if bool_ else []
                shs = []
                for p in range(n):
                    t = hcall(I, ty, f, *nb)
                    if pr == 'swift':
                        # components a1, a2, b, g of the sharing, as the parties hold them
                        names = [('a1', 'a2', 'bg'), ('a1', 'b', 'g'), ('a2', 'b', 'g')][p]
                        shs.append(arr(I, t, 'sh%d' % p, w, lambda q, i, nm=names: app(nm[q[0]], [i], w), {(k,): w for k in range(3)}))
                    else:
                        shs.append(arr(I, t, 'sh%d' % p, w))
                return hcall(I, 'from_' + pr, f, c64(n), LV(Cell(Vec(shs))))

            def post(I, r):
                i = fresh_idx(I, N)
                if pr == 'swift':
                    b, a1, a2 = [app(x, [i], w) for x in ('b', 'a1', 'a2')]
                    want = bxor(bxor(b, a1), a2) if bool_ else sub(sub(b, a1), a2)
                else:
                    want = comb('xor' if bool_ else 'add', [app('sh%d' % p, [i], w) for p in range(n)])
                yield 'the value the shares stand for', eq(rd(I, r, i, ()), want)
                yield 'number of elements', eq(r.numel(I), N)
            ctx.run(I, call, post, throws_ok=False)
        task('reconstruct %s, %d parties, %d bits, %s' % (pr, n, w, 'boolean' if bool_ else 'arithmetic'), run)

    def output3(w, bw):
        def run(ctx):
            I = base(3, w)

            def call(I):
                k = bw or w
                shs = []
                for p in range(3):
                    t = A3.bty(I, bw, zext(var('nb', 3), 64)) if bw else A3.aty(I, w)
                    shs.append(arr(I, t, 'sh%d' % p, w, lambda q, i, p=p: app('x%d' % ((p + q[0]) % 3), [i], k), {(0,): k, (1,): k}))
                return hcall(I, 'from_aby3', fmval(P, w), c64(3), LV(Cell(Vec(shs))))

            def post(I, r):
                i = fresh_idx(I, N)
                v = comb('xor' if bw else 'add', [app('x%d' % p, [i], bw or w) for p in range(3)])
                yield 'the value the shares stand for', eq(rd(I, r, i, ()), v if v.w == w else zext(v, w) if v.w < w else trunc(v, w))
                yield 'number of elements', eq(r.numel(I), N)
            ctx.run(I, call, post, throws_ok=False)
        task('reconstruct aby3, %d bits, %s' % (w, 'boolean in %d-bit words' % bw if bw else 'arithmetic'), run)

    def ceil_(t, m):
        return add(TM.build('udiv', (t, m), 64), ite(eq(TM.build('urem', (t, m), 64), c64(0)), c64(0), c64(1)))

    def wire_base(es, cx, compact):
        I = make_interp(P)
        I.cur = None
        I.overrides['std::vector::vector'] = lambda I, c: Chunks() if not c.args and (I.P.recs[c.ty.r].ta or [None])[0] is not None and 'ValueChunkProto' in I.P.recs[c.ty.r].ta[0].s else NotImplemented
        I.overrides['spu::pb::ValueChunkProto::ValueChunkProto'] = lambda I, c: Chunk() if not c.args else I.unbase(I.rv(c.args[0])).copy(I)
        I.overrides['spu::pb::ValueChunkProto::~ValueChunkProto'] = lambda I, c: None
        I.overrides['spu::pb::ValueMetaProto::ValueMetaProto'] = lambda I, c: Chunk()
        I.overrides['spu::pb::ValueMetaProto::~ValueMetaProto'] = lambda I, c: None
        I.overrides['spu::Value::toMetaProto'] = lambda I, c: Chunk()
        I.overrides['spu::Value::vtype'] = lambda I, c: hcall(I, 'vis_sec')

        def value():
            v = hcall(I, 'no_value')
            I.g_d = Bytes('real', N, es, boolt(compact[0]))
            I.g_i = Bytes('imag', N, es, boolt(compact[-1]))
            v.f['data_'] = I.g_d
            v.f['dtype_'] = hcall(I, 'dt_i32')
            if cx:
                v.f['imag_'] = SL.Opt(TRUE, I.g_i)
            return LV(Cell(v))
        return I, value
    M = var('max_chunk', 64)

    def count(es):
        def run(ctx):
            I, value = wire_base(es, 0, (1,))

            def call(I):
                I.assume(ne(M, c64(0)))
                return hcall(I, 'chunks_count', value(), M)

            def post(I, r):
                yield 'size of the data / size of a chunk, rounded up', eq(r, ceil_(mul(N, c64(es)), M))
            ctx.run(I, call, post, throws_ok=False)
        task('number of chunks, %d-byte elements' % es, run)

    def wire(es, cx, compact, empty):
        def run(ctx):
            I, value = wire_base(es, cx, compact)
            # contract of chunksCount (proved above): cnt = ceil(total / M); used below: k < cnt implies k * M < total
            cnt = c64(0) if empty else zext(var('chunks', 56), 64)
            I.overrides['spu::Value::chunksCount'] = lambda I, c: (I.require('chunksCount is asked for the size in use', eq(c.val(0), M)), cnt)[1]
            total = mul(N, c64(es))

            def call(I):
                I.assume(ne(M, c64(0)))
                I.assume(eq(N, c64(0)) if empty else ult(c64(0), N))
                if not empty:
                    I.assume(ult(c64(0), cnt))
                return hcall(I, 'to_proto', value(), M)

            def post(I, r):
                ch = I.unbase(r.f['chunks'])
                yield 'number of chunks', eq(ch.cnt.v, mul(cnt, c64(2 if cx else 1)))
                if empty:
                    return
                k = fresh_idx(I, cnt)
                off = mul(k, M)
                I.assume(ult(off, total))
                ids = I.ghost.get('mem', {})
                for part, o in enumerate((I.g_d, I.g_i) if cx else (I.g_d,)):
                    at = add(k, cnt) if part else k
                    g = lambda f: I.layers_read(ch.arr, ch.arr.layers, at, (f,))
                    rest = sub(total, off)
                    nm = 'imaginary part: ' if part else ''
                    yield nm + 'total size in every chunk', eq(g('total'), total)
                    yield nm + 'offset of chunk k', eq(g('offset'), off)
                    yield nm + 'bytes of chunk k start at its offset', eq(g('from'), off)
                    yield nm + 'length of chunk k', eq(g('len'), ite(ult(rest, M), rest, M))
                    yield nm + 'bytes of chunk k are those of the array in row-major order', eq(g('src'), c64(ids.get(('bytes.' if o.compact is TRUE else 'clone.') + o.name, 0)))
            ctx.run(I, call, post, throws_ok=False)
        task('wire form, %d-byte elements%s, %s%s' % (es, ', complex' if cx else '', '/'.join('contiguous' if x else 'strided' for x in compact), ', empty' if empty else ''), run)

    for es in (1, 2, 4, 8, 12, 16, 24, 32, 48):
        count(es)
        for cx in (0, 1):
            for compact in ((0, 0), (0, 1), (1, 0), (1, 1)) if cx else ((0,), (1,)):
                wire(es, cx, compact, False)
                if es in (1, 16):
                    wire(es, cx, compact, True)

    for w in (32, 64, 128):
        for pr, ns in PARTIES.items():
            for n in ns:
                input_(pr, n, w, True, -1)
                for o in range(-1, n):
                    input_(pr, n, w, False, o)
                if pr in ('semi2k', 'securenn', 'swift'):
                    output(pr, n, w, 0)
                    output(pr, n, w, 1)
        output3(w, 0)
        for bw in (8, 16, 32, 64, 128):
            if bw <= w:
                output3(w, bw)
    return out
