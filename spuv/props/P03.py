"""P03: half-precision values follow IEEE binary16 (core/half.h).

Every entry point is executed symbolically on all bit patterns; the post-condition is the SMT-LIB floating-point theory's own
operation on the 16-bit sort, with round-to-nearest-even.  Elementary functions (exp, sin, ...) are compared with libm on every
one of the 2^16 inputs by native/half.cc (bounded: by enumeration of the complete input set for unary functions).
"""
from ..kernels import *
from ..check import Native

FILES = ['/verif/harness/h_half.cc']


def natives(tier):
    return [Native('half', [], opt='-O2', ms_quick=14000, ms_thorough=300000), Native('half', [], san=True, ms_quick=9000, ms_thorough=100000)]


def FH(b):
    return TM.build('fp.frombits', (b,), -16)


def isnan(x):
    return TM.build('fp.isnan', (x,), 0)


def same(bits, e):
    """the pattern `bits` represents the 16-bit float e (any NaN for NaN, signed zeros told apart)"""
    f = FH(bits)
    return or_(and_(isnan(f), isnan(e)), and_(not_(isnan(f)), not_(isnan(e)), eq(bits, TM.build('fp.tobits', (e,), 16))))


def iff(a, b):
    return not_(xor_b(a, b))


def tasks(tier):
    P = load_program(FILES)
    out = []
    a, b, c = var('a', 16), var('b', 16), var('c', 16)
    A, B = FH(a), FH(b)
    exp5, man = extract(a, 14, 10), extract(a, 9, 0)
    ones5 = eq(exp5, const(31, 5))
    zero = eq(band(a, const(0x7fff, 16)), const(0, 16))

    def add(name, args, spec, weight=1, timeout=40000, pre=None):
        def run(ctx):
            I = make_interp(P)

            def call(I):
                if pre is not None:
                    I.assume(pre)
                return callfn(I, fn_named(P, 'vh::' + name), *args)
            ctx.run(I, call, lambda I, r: [('IEEE binary16 result', spec(r))], timeout=timeout)
        out.append(Task(name[2:], run, weight=weight))
    two = lambda op: lambda r: same(r, TM.build(op, (A, B), -16))
    for n, op, w in (('add', 'fp.add', 9), ('sub', 'fp.sub', 9), ('addeq', 'fp.add', 9), ('subeq', 'fp.sub', 9)):
        add('h_' + n, (a, b), two(op), w, 150000)
    # products and quotients: one task per pair of classes (normal, or subnormal with a given leading bit, or special), the
    # exact significand product / quotient appears as one shared term on both sides
    for n in ('mul', 'muleq', 'div', 'diveq'):
        for ka in range(-1, 11):
            for kb in range(-1, 11):
                if tier == 'quick' and n.endswith('eq') and (ka > 0 or kb > 0) and ka + kb not in (0, 10):
                    continue
                out.append(Task('%s: classes %d, %d' % (n, ka, kb), lambda ctx, n=n, ka=ka, kb=kb: muldiv(ctx, P, n, a, b, ka, kb), weight=2))
        out.append(Task(n + ': specials', lambda ctx, n=n: muldiv(ctx, P, n, a, b, None, None), weight=2))
    add('h_neg', (a,), lambda r: eq(r, TM.bxor(a, const(0x8000, 16))))
    add('h_abs', (a,), lambda r: eq(r, band(a, const(0x7fff, 16))))
    lt = lambda x, y: TM.build('fp.lt', (x, y), 0)
    le = lambda x, y: TM.build('fp.le', (x, y), 0)
    fe = lambda x, y: TM.build('fp.eq', (x, y), 0)
    un = or_(isnan(A), isnan(B))
    for n, e in (('eq', fe(A, B)), ('ne', not_(fe(A, B))), ('lt', lt(A, B)), ('gt', lt(B, A)), ('le', le(A, B)), ('ge', le(B, A)),
                 ('isless', lt(A, B)), ('isgreater', lt(B, A)), ('islessequal', le(A, B)), ('isgreaterequal', le(B, A)),
                 ('islessgreater', or_(lt(A, B), lt(B, A))), ('isunordered', un)):
        add('h_' + n, (a, b), lambda r, e=e: iff(r, e))
    nzman = not_(eq(man, const(0, 10)))
    for n, e in (('isnan', and_(ones5, nzman)), ('isinf', and_(ones5, not_(nzman))), ('isfinite', not_(ones5)),
                 ('isnormal', and_(not_(ones5), not_(eq(exp5, const(0, 5))))), ('signbit', eq(extract(a, 15, 15), const(1, 1)))):
        add('h_' + n, (a,), lambda r, e=e: iff(r, e))
    cls = ite(and_(ones5, nzman), const(0, 32), ite(ones5, const(1, 32), ite(zero, const(2, 32), ite(eq(exp5, const(0, 5)), const(3, 32), const(4, 32)))))
    add('h_fpclassify', (a,), lambda r: eq(r, cls))          # FP_NAN 0, FP_INFINITE 1, FP_ZERO 2, FP_SUBNORMAL 3, FP_NORMAL 4
    add('h_copysign', (a, b), lambda r: eq(r, bor(band(a, const(0x7fff, 16)), band(b, const(0x8000, 16)))))
    for n, f in (('fmax', lambda x, y: le(y, x)), ('fmin', lambda x, y: le(x, y))):
        add('h_' + n, (a, b), lambda r, f=f: and_(or_(eq(r, a), eq(r, b)), implies(not_(or_(isnan(A), isnan(B))), and_(f(FH(r), A), f(FH(r), B))),
                                                 implies(and_(isnan(A), not_(isnan(B))), eq(r, b)), implies(and_(isnan(B), not_(isnan(A))), eq(r, a))))
    for n, w in (('to_float', 32), ('castto_float', 32), ('castto_double', 64)):
        add('h_' + n, (a,), lambda r, w=w: or_(and_(isnan(r), isnan(A)), eq(TM.build('fp.tobits', (r,), w), TM.build('fp.tobits', (TM.build('fp.conv', (A,), -w),), w))), 3)
    for n, w in (('from_float', 32), ('assign_float', 32), ('cast_float', 32), ('cast_double', 64)):
        f = var('f', -w)
        add('h_' + n, (f,), lambda r, f=f: same(r, TM.build('fp.conv', (f,), -16)), 3)
    for n, w, sg in (('i8', 8, 1), ('u8', 8, 0), ('i16', 16, 1), ('u16', 16, 0), ('i32', 32, 1), ('u32', 32, 0), ('i64', 64, 1), ('u64', 64, 0)):
        v = var('v', w)
        add('h_cast_' + n, (v,), lambda r, v=v, sg=sg: same(r, TM.build('fp.fromsbv' if sg else 'fp.fromubv', (v,), -16)), 4)
    fin = not_(ones5)
    for n, m in (('ceil', 'rtp'), ('floor', 'rtn'), ('trunc', 'rtz'), ('round', 'rna'), ('rint', 'rne'), ('nearbyint', 'rne')):
        add('h_' + n, (a,), lambda r, m=m: same(r, TM._mk('fp.rti', (A, m), -16)), 3)
    for n, m, w in (('lround', 'rna', 64), ('lrint', 'rne', 64), ('castto_i32', 'rne', 32), ('castto_i64', 'rne', 64)):
        add('h_' + n, (a,), lambda r, m=m, w=w: implies(fin, eq(r, TM.build('fp.tosbv', (TM._mk('fp.rti', (A, m), -16),), w))), 3)
    one = TM._mk('fp.const', (0x3c00,), -16)
    mone = TM._mk('fp.const', (0xbc00,), -16)
    add('h_inc', (a,), lambda r: same(r, TM.build('fp.add', (A, one), -16)), 3)
    add('h_dec', (a,), lambda r: same(r, TM.build('fp.add', (A, mone), -16)), 3)
    ab = band(a, const(0x7fff, 16))
    away = ite(eq(extract(a, 15, 15), const(1, 1)), not_(lt(B, A)) if False else lt(B, A), lt(A, B))
    na = ite(un, r_nan(), ite(fe(A, B), b, ite(eq(ab, const(0, 16)), bor(band(b, const(0x8000, 16)), const(1, 16)),
             ite(away, TM.add(a, const(1, 16)), TM.sub(a, const(1, 16))))))
    add('h_nextafter', (a, b), lambda r: ite_b(un, isnan(FH(r)), eq(r, na)))
    for k, v in enumerate((0x0400, 0xfbff, 0x7bff, 0x1400, 0x3800, 0x7c00, 0x7e00, 0x0001, 0x0000)):
        def lim(ctx, k=k, v=v):
            I = make_interp(P)
            ctx.run(I, lambda I: callfn(I, fn_named(P, 'vh::h_lim'), const(k, 32)), lambda I, r: [('numeric limit', isnan(FH(r)) if k == 6 else eq(r, const(v, 16)))])
        out.append(Task('numeric_limits(%d)' % k, lim))
    if tier != 'quick':
        add('h_sqrt', (a,), lambda r: same(r, TM.build('fp.sqrt', (A,), -16)), 9, 200000)
    return out


def r_nan():
    return const(0x7e00, 16)


def ite_b(c, x, y):
    return and_(implies(c, x), implies(not_(c), y))


def klass(x, k):
    """-1: normal; 0..9: subnormal with leading bit k; None-> other"""
    e = extract(x, 14, 10)
    m = band(x, const(0x3ff, 16))
    if k == -1:
        return and_(not_(eq(e, const(0, 5))), not_(eq(e, const(31, 5))))
    if k == 10:
        return eq(band(x, const(0x7fff, 16)), const(0, 16))
    return and_(eq(e, const(0, 5)), ule(const(1 << k, 16), m), ult(m, const(2 << k, 16)))


def muldiv(ctx, P, n, a, b, ka, kb):
    op = n[:3]
    I = make_interp(P)
    A, B = FH(a), FH(b)
    special = or_(*[eq(extract(x, 14, 10), const(31, 5)) for x in (a, b)])

    def call(I):
        if ka is None:
            I.assume(special)
        else:
            I.assume(klass(a, ka))
            I.assume(klass(b, kb))
        return callfn(I, fn_named(P, 'vh::h_' + n), a, b)

    def sig(x, k):
        """11-bit significand (leading bit set) as a 32-bit term, exponent of its unit as 32-bit"""
        m = zext(band(x, const(0x3ff, 16)), 32)
        if k == -1:
            return bor(m, const(0x400, 32)), sub(zext(extract(x, 14, 10), 32), const(25, 32))
        s = bor(shl(band(m, const((1 << k) - 1, 32)), const(10 - k, 32)), const(0x400, 32)) if k else const(0x400, 32)
        return s, const(-24 - (10 - k), 32)

    def post(I, r):
        sign = band(TM.bxor(a, b), const(0x8000, 16))
        if ka is None:
            # NaN operands, inf*0, inf/inf
            f = lambda x: TM.build('fp.conv', (x,), -64)
            nan = or_(isnan(A), isnan(B))
            inf = [eq(band(x, const(0x7fff, 16)), const(0x7c00, 16)) for x in (a, b)]
            zero = [eq(band(x, const(0x7fff, 16)), const(0, 16)) for x in (a, b)]
            if op == 'mul':
                bad = or_(nan, and_(inf[0], zero[1]), and_(inf[1], zero[0]))
                res = bor(sign, const(0x7c00, 16))
            else:
                bad = or_(nan, and_(inf[0], inf[1]))
                res = ite(inf[0], bor(sign, const(0x7c00, 16)), sign)
            yield 'NaN, infinities', ite_b(bad, isnan(FH(r)), eq(r, res))
            return
        if ka == 10 or kb == 10:
            if op == 'mul':
                yield 'zero times finite', eq(r, sign)
            elif kb == 10:
                yield 'division by zero', isnan(FH(r)) if ka == 10 else eq(r, bor(sign, const(0x7c00, 16)))
            else:
                yield 'zero over finite', eq(r, sign)
            return
        (ma, ea), (mb, eb) = sig(a, ka), sig(b, kb)
        if op == 'mul':
            p = mul(ma, mb)                       # exact, in [2^20, 2^22)
            e = add(ea, eb)
            hi = 21
        else:
            # quotient scaled so that it has at least 12 bits, with a sticky bit appended: rounds like the exact quotient
            lt = ult(ma, mb)
            num = shl(ma, add(const(12, 32), ite(lt, const(1, 32), const(0, 32))))
            den = shl(mb, const(1, 32))
            q, rem = TM.udiv(num, den), TM.urem(num, den)
            p = add(shl(q, const(1, 32)), ite(eq(rem, const(0, 32)), const(0, 32), const(1, 32)))   # in [2^12, 2^13)
            e = sub(sub(sub(ea, eb), const(12, 32)), ite(lt, const(1, 32), const(0, 32)))
            hi = 12
        # the double with significand p and unit exponent e (its value is exact: p < 2^22, |e| < 200)
        ph = not_(ult(p, const(1 << hi, 32)))
        top = ite(ph, const(hi, 32), const(hi - 1, 32)) if op == 'mul' else const(hi, 32)
        p64 = zext(p, 64)
        man = band(ite(ph, shl(p64, const(52 - hi, 64)), shl(p64, const(53 - hi, 64))) if op == 'mul' else shl(p64, const(52 - hi, 64)), const((1 << 52) - 1, 64))
        expf = zext(add(add(e, top), const(1023, 32)), 64)
        d = bor(bor(shl(zext(sign, 64), const(48, 64)), shl(expf, const(52, 64))), man)
        D = TM.build('fp.frombits', (d,), -64)
        goal = same(r, TM.build('fp.conv', (D,), -16))
        direct = goal
        # generalise: for every product / quotient and remainder in range
        if op == 'mul':
            pv = var('product', 32)
            goal = subst(goal, {p: pv})
            rng = [and_(ule(const(1 << 20, 32), pv), ult(pv, const(1 << 22, 32)))] if lemma_p(ctx) else []
        else:
            qv = var('quotient', 32)
            goal = subst(subst(goal, {q: qv}), {eq(rem, const(0, 32)): var('divides', 0)})
            rng = [and_(ule(const(1 << 11, 32), qv), ult(qv, const(1 << 12, 32)))] if lemma_q(ctx) else []
        if prove(goal, list(I.pc) + rng, 'bv', 20000, cvc5=False).ok is True:
            for f in rng:
                I.assume(f)
        else:
            goal = direct
        yield 'nearest half to the exact ' + ('product' if op == 'mul' else 'quotient'), goal
    ctx.run(I, call, post, timeout=60000)


def lemma_p(ctx):
    x, y = var('mx', 32), var('my', 32)
    rng = [ule(const(1024, 32), v) for v in (x, y)] + [ult(v, const(2048, 32)) for v in (x, y)]
    p = mul(x, y)
    return ctx.discharge('lemma: significand product has 21 or 22 bits', and_(ule(const(1 << 20, 32), p), ult(p, const(1 << 22, 32))), rng)


def lemma_q(ctx):
    """significands in [2^10, 2^11): the scaled quotient lies in [2^11, 2^12)"""
    x, y = var('mx', 32), var('my', 32)
    rng = [ule(const(1024, 32), v) for v in (x, y)] + [ult(v, const(2048, 32)) for v in (x, y)]
    lt = ult(x, y)
    num = ite(lt, shl(x, const(13, 32)), shl(x, const(12, 32)))
    q = TM.udiv(num, shl(y, const(1, 32)))
    return ctx.discharge('lemma: scaled quotient has 12 bits', and_(ule(const(1 << 11, 32), q), ult(q, const(1 << 12, 32))), rng)
