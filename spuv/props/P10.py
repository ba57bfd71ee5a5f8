"""P10: encoding plaintext arrays into the ring and back (core/encoding.cc)."""
from ..protocol import *
from .. import protocol as PR
from .. import interp as INTERP
from ..check import Native

TRUSTED = ['PtBufferView::get / set address the element at the flat index (evaluated at run time for compact and strided buffers)', 'IEEE arithmetic of the compiler is that of SMT-LIB (round to nearest even)']
ASSUMPTIONS = ['0 <= fraction bits <= ring width - 3', 'half-precision values: run-time enumeration of all 2^16 patterns only (their conversion to float is P03)']
FILES = ['core/encoding.cc', 'core/type.cc', 'core/type_util.cc', 'core/shape.cc', 'mpc/common/pv2k.cc', '/verif/harness/h_types.cc', '/verif/harness/h_enc.cc']
INTS = {'PT_I8': (8, 1), 'PT_U8': (8, 0), 'PT_I16': (16, 1), 'PT_U16': (16, 0), 'PT_I32': (32, 1), 'PT_U32': (32, 0), 'PT_I64': (64, 1), 'PT_U64': (64, 0), 'PT_I1': (0, 0)}


def natives(tier):
    yield Native('encode', ['core/encoding.cc', 'core/pt_buffer_view.cc', 'core/type.cc', 'core/type_util.cc', 'core/ndarray_ref.cc', 'core/shape.cc'], ms_quick=9000)


class PV(Container):
    """a view of a plaintext buffer: elements by flat index"""

    def __init__(self, pt, shape, n, w):
        self.pt, self.shape, self.w = pt, shape, w
        self.store = SArr('ptbuf', n, {(): w}, lambda p, i: app('pt', [i], w))
        self.seq = nextseq()

    def copy(self, I):
        return self

    def get_member(self, I, m):
        if m == 'pt_type':
            return LV(Cell(self.pt))
        if m == 'shape':
            return LV(Cell(self.shape))
        if m == 'write_able':
            return LV(Cell(TRUE))
        raise Unsupported('PtBufferView::' + m)


def bits_of(t):
    return 0 if t.k == 'bool' else -t.w if t.k == 'float' else t.w


def pv_m(name):
    def get(I, o, c):
        t = c.fn.ta[0] if c.fn.ta else None
        if t is None or t.k not in ('bool', 'int', 'float') or bits_of(t) != o.w:
            raise Unsupported('reading a plaintext buffer with type %s' % (t.s if t else '?'))
        return I.load(LV(o.store, to64(c.val(0))))

    def set_(I, o, c):
        t = c.fn.ta[0] if c.fn.ta else None
        if t is None or t.k not in ('bool', 'int', 'float') or bits_of(t) != o.w:
            raise Unsupported('writing a plaintext buffer with type %s' % (t.s if t else '?'))
        I.store(LV(o.store, to64(c.val(0))), c.val(1))
        return None
    return {'get': get, 'set': set_, 'isCompact': lambda I, o, c: fresh('isCompact', 0), 'isBitSet': lambda I, o, c: FALSE}.get(name)


AR.ARRCLS[PV] = pv_m


def frombits(b):
    return TM.build('fp.frombits', (b,), -b.w)


def encoded(b, f, k):
    """the k-bit word for the float with bit pattern b: truncation toward zero of value * 2^f, saturated to [-2^(k-2), 2^(k-2)-1]"""
    w = b.w
    mb, eb, bias = (23, 8, 127) if w == 32 else (52, 11, 1023)
    e, m, s = extract(b, w - 2, mb), extract(b, mb - 1, 0), eq(extract(b, w - 1, w - 1), const(1, 1))
    nan = and_(eq(e, const((1 << eb) - 1, eb)), not_(eq(m, const(0, mb))))
    E = zext(e, 16)
    sig = bor(zext(m, k + mb + 1), ite(eq(e, const(0, eb)), const(0, k + mb + 1), const(1 << mb, k + mb + 1)))
    # value * 2^f = sig * 2^(max(E,1) - bias - mb + f)
    sh = add(ite(eq(e, const(0, eb)), const(1, 16), E), const((f - bias - mb) & 0xffff, 16))
    W = k + mb + 1
    neg_sh = TM.sub(const(0, 16), sh)
    isneg = slt(sh, const(0, 16))
    big = and_(not_(isneg), not_(slt(sh, const(k, 16))))
    mag = ite(isneg, ite(slt(neg_sh, const(W, 16)), lshr(sig, zext(neg_sh, W)), const(0, W)), shl(sig, zext(sh, W)))
    top = const(1 << (k - 2), W)
    over = or_(eq(e, const((1 << eb) - 1, eb)), big, not_(ult(mag, top)))
    pos = ite(over, const((1 << (k - 2)) - 1, k), trunc(mag, k))
    ngt = ite(over, const((-(1 << (k - 2))) % (1 << k), k), TM.sub(const(0, k), trunc(mag, k)))
    return ite(nan, const(0, k), ite(s, ngt, pos))


def iff(a, b):
    return not_(TM.xor_b(a, b) if hasattr(TM, 'xor_b') else or_(and_(a, not_(b)), and_(not_(a), b)))


def tasks(tier):
    P = load_program(FILES)
    out = []
    enc, dec = fn_named(P, 'spu::encodeToRing'), fn_named(P, 'spu::decodeFromRing')

    hcall = RS.hcall
    I0 = []

    def ev(n):
        if not I0:
            I0.append(make_interp(P))
        return hcall(I0[0], 'e_' + n)

    def base(w):
        I = make_interp(P)
        I.cur = None
        return I

    def task(label, run, weight=1):
        out.append(Task(label, run, weight=weight))
    n = zext(var('n', 40), 64)

    def ints(pt, w):
        bw, sg = INTS[pt]
        dt = pt.replace('PT', 'DT')

        def word(i):
            x = app('pt', [i], bw)
            return b2bv(x, w) if bw == 0 else x if bw == w else sext(x, w) if sg else zext(x, w)

        def run(ctx):
            I = base(w)
            big = max(bw, 8) > w
            sh = AShape('s', n)

            def call(I):
                I.src = PV(ev(pt), sh, n, bw)
                I.dt = Cell(const(0, 32))
                I.enc = callfn(I, enc, I.src, fmval(P, w), var('fxp', 64), Ptr(I.dt))
                I.dst = PV(ev(pt), sh, n, bw)
                I.optt = Cell(const(0, 32))
                callfn(I, dec, I.enc, ev(dt), var('fxp', 64), Ptr(Cell(I.dst)), Ptr(I.optt))
                return I.enc

            def post(I, r):
                i = fresh_idx(I, n)
                yield 'the element keeps its value modulo 2^%d' % w, eq(rd(I, r, i, ()), word(i))
                yield 'element type', hcall(I, 'sametype', LV(Cell(I.copyval(r.ety.v))), LV(Cell(RS.ringty(I, w))))
                yield 'number of elements', eq(r.numel(I), n)
                yield 'data type', eq(I.dt.v, ev(dt))
                yield 'decoded type', eq(I.optt.v, ev(pt))
                a, b = I.load(LV(I.dst.store, i)), app('pt', [i], bw)
                yield 'decoding restores the element', eq(a, b) if bw else iff(a, b)
                a = I.load(LV(I.src.store, i))
                yield 'operand unchanged', eq(a, b) if bw else iff(a, b)
            if big:
                def only(I, r):
                    yield 'a ring that cannot hold the type is rejected', FALSE
                ctx.run(I, call, only, throws_ok=TRUE, expect_return=False)
            else:
                ctx.run(I, call, post, throws_ok=False)
        task('%s in %d bits' % (pt, w), run)

    def floats(fw, w, f):
        pt, dt = ('PT_F32', 'DT_F32') if fw == 32 else ('PT_F64', 'DT_F64')

        def run(ctx):
            I = base(w)
            sh = AShape('s', n)

            def call(I):
                I.src = PV(ev(pt), sh, n, -fw)
                I.src.store = SArr('ptbuf', n, {(): -fw}, lambda p, i: frombits(app('pt', [i], fw)))
                I.dt = Cell(const(0, 32))
                return callfn(I, enc, I.src, fmval(P, w), c64(f), Ptr(I.dt))

            def post(I, r):
                i = fresh_idx(I, n)
                yield 'element type', hcall(I, 'sametype', LV(Cell(I.copyval(r.ety.v))), LV(Cell(RS.ringty(I, w))))
                yield 'number of elements', eq(r.numel(I), n)
                yield 'data type', eq(I.dt.v, ev(dt))
                yield 'truncated, saturated fixed-point value', eq(rd(I, r, i, ()), encoded(app('pt', [i], fw), f, w))
            ctx.run(I, call, post, throws_ok=False, timeout=120000)
        task('float%d to %d bits, %d fraction bits' % (fw, w, f), run, weight=5)

    def back(fw, w, f):
        pt, dt = ('PT_F32', 'DT_F32') if fw == 32 else ('PT_F64', 'DT_F64')

        def run(ctx):
            I = base(w)
            sh = AShape('s', n)

            def call(I):
                a = I.a = AR.new_arr(I, RS.ringty(I, w), sh, 'x', {(): w}, lambda p, i: app('x', [i], w))
                I.sa = Snap(I, a)
                I.dst = PV(ev(pt), sh, n, -fw)
                I.dst.store = SArr('ptbuf', n, {(): -fw}, lambda p, i: frombits(app('pt', [i], fw)))
                I.optt = Cell(const(0, 32))
                callfn(I, dec, a, ev(dt), c64(f), Ptr(Cell(I.dst)), Ptr(I.optt))
                return None

            def post(I, r):
                i = fresh_idx(I, n)
                x = app('x', [i], w)
                q = TM.build('fp.div', (TM.build('fp.fromsbv', (x,), -64), INTERP.fpc(float(1 << f), -64)), -64)
                q = q if fw == 64 else TM.build('fp.conv', (q,), -32)
                yield 'decoded type', eq(I.optt.v, ev(pt))
                yield 'decoded value: x / 2^f, rounded to nearest', eq(TM.build('fp.tobits', (I.load(LV(I.dst.store, i)),), fw), TM.build('fp.tobits', (q,), fw))
                yield 'operand unchanged', eq(I.sa.at(i), rd(I, I.a, i, ()))
            ctx.run(I, call, post, throws_ok=False, timeout=200000)
        task('%d bits to float%d, %d fraction bits' % (w, fw, f), run, weight=5)

    for fw in (32, 64):
        for w, f in ((32, 8), (64, 18), (128, 26)):
            back(fw, w, f)

    def dec_i1(w):
        def run(ctx):
            I = base(w)
            sh = AShape('s', n)

            def call(I):
                a = AR.new_arr(I, RS.ringty(I, w), sh, 'x', {(): w}, lambda p, i: app('x', [i], w))
                I.dst = PV(ev('PT_I1'), sh, n, 0)
                I.optt = Cell(const(0, 32))
                return callfn(I, dec, a, ev('DT_I1'), c64(18), Ptr(Cell(I.dst)), Ptr(I.optt))

            def post(I, r):
                i = fresh_idx(I, n)
                yield 'a boolean is the low bit', iff(I.load(LV(I.dst.store, i)), eq(extract(app('x', [i], w), 0, 0), const(1, 1)))
            ctx.run(I, call, post, throws_ok=False)
        task('decode booleans from %d bits' % w, run)

        for pt, (bw, sg) in INTS.items():
            if bw == 0:
                continue

            def run2(ctx, pt=pt, bw=bw, sg=sg):
                I = base(w)
                sh = AShape('s', n)

                def call(I):
                    a = AR.new_arr(I, RS.ringty(I, w), sh, 'x', {(): w}, lambda p, i: app('x', [i], w))
                    I.dst = PV(ev(pt), sh, n, bw)
                    I.optt = Cell(const(0, 32))
                    return callfn(I, dec, a, ev(pt.replace('PT', 'DT')), c64(18), Ptr(Cell(I.dst)), Ptr(I.optt))

                def post(I, r):
                    i = fresh_idx(I, n)
                    x = app('x', [i], w)
                    yield 'the decoded integer is the word modulo 2^%d' % bw, eq(I.load(LV(I.dst.store, i)), x if bw == w else trunc(x, bw) if bw < w else sext(x, bw))
                ctx.run(I, call, post, throws_ok=False)
            task('decode %s from %d bits' % (pt, w), run2)
    for w in (32, 64, 128):
        dec_i1(w)

    for pt in INTS:
        for w in (32, 64, 128):
            ints(pt, w)
    for fw in (32, 64):
        for w, fs in ((32, (8,)), (64, (18,)), (128, (26,))) if tier == 'quick' else ((32, (0, 8, 14, 29)), (64, (0, 18, 40, 61)), (128, (0, 18, 26, 40, 64, 125))):
            for f in fs:
                floats(fw, w, f)
    return out
