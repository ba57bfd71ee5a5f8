"""P06: bit helpers (core/bit_utils.h, core/bit_utils.cc)."""
from ..kernels import *
from ..check import Native
from .. import stdlib as SL

TRUSTED = ['yacl::pext_u64 / pdep_u64 (contract: parallel bit extract / deposit under a constant mask)', 'absl bit primitives countl_zero, bit_width']
ASSUMPTIONS = ['stride in [0, 6]; nbits -1 or between 1 and the bit width of the type']


def natives(tier):
    return [Native('bits', ['core/bit_utils.cc'], ms_quick=6000), Native('bits', ['core/bit_utils.cc'], san=True, ms_quick=5000)]


def l2c(n):
    k = 0
    while (1 << k) < n:
        k += 1
    return k


def permspec(v, w, stride, nbits, intl):
    L = l2c(nbits)
    B = 1 << L
    if stride >= L - 1:
        return v
    half = 1 << (L - stride - 1)
    r = const(0, w)
    groups = {}
    for i in range(w):
        blk, p = i // B * B, i % B
        lo, j = p & ((1 << stride) - 1), p >> stride
        q = blk + ((((j & 1) * half + (j >> 1)) << stride) | lo)
        frm, to = (q, i) if intl else (i, q)
        groups.setdefault(to - frm, 0)
        groups[to - frm] |= 1 << to
    for d, m in groups.items():
        x = shl(v, const(d, w)) if d >= 0 else lshr(v, const(-d, w))
        r = bor(r, band(x, const(m, w)))
    return r


def pext(v, mask):
    out, k = const(0, 64), 0
    for i in range(64):
        if mask >> i & 1:
            out = bor(out, band(lshr(v, const(i - k, 64)), const(1 << k, 64)))
            k += 1
    return out


def pdep(v, mask):
    out, k = const(0, 64), 0
    for i in range(64):
        if mask >> i & 1:
            out = bor(out, band(shl(v, const(i - k, 64)), const(1 << i, 64)))
            k += 1
    return out


def contracts(I):
    for n, f in (('yacl::pext_u64', pext), ('yacl::pdep_u64', pdep)):
        def c(I, c, f=f):
            m = c.val(1)
            if not is_c(m):
                raise Unsupported('symbolic mask')
            return f(c.val(0), cval(m))
        I.contracts[n] = c


def tasks(tier):
    P = load_program(['/verif/harness/h_bits.cc', 'core/bit_utils.cc'])
    out = []

    def t(name, fn, args, post, weight=1):
        def run(ctx):
            I = make_interp(P)
            I.check_shift = True
            contracts(I)
            ctx.run(I, lambda I: callfn(I, fn_named(P, 'vh::' + fn), *args), lambda I, r: post(r))
        out.append(Task(name, run, weight=weight))
    n = var('n', 64)
    one = const(1, 64)

    def flo(r):
        yield 'in range', and_(sle(const(0, 32), r), sle(r, const(63, 32)))
        r6 = zext(r, 64)
        yield '2^r <= n < 2^(r+1), or 0 for n <= 1', ite_b(ule(n, one), eq(r, const(0, 32)), eq(lshr(n, r6), one))

    def cei(r):
        yield 'in range', and_(sle(const(0, 32), r), sle(r, const(64, 32)))
        r6 = zext(r, 64)
        yield 'least r with n <= 2^r', ite_b(ule(n, one), eq(r, const(0, 32)),
                                             and_(ule(sub(n, one), sub(shl(one, r6), one) if False else lowmask(r6)), not_(ule(sub(n, one), lowmask(sub(r6, one))))))
    t('Log2Floor', 'log2floor', (n,), flo)
    t('Log2Ceil', 'log2ceil', (n,), cei)
    for T, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128)):
        v = var('v', w)

        def wid(r, v=v, w=w):
            exp = const(0, 64)
            for i in range(w):
                exp = ite(eq(extract(v, i, i), const(1, 1)), const(i + 1, 64), exp)
            yield 'position of the highest set bit', eq(r, exp)
        t('BitWidth<%s>' % T, 'width_' + T, (v,), wid)
        for stride in range(7):
            for op, intl in (('deintl', False), ('intl', True)):
                t('%s<%s> stride %d' % (op, T, stride), '%s0_%s' % (op, T), (v, const(stride, 64)),
                  lambda r, w=w, v=v, s=stride, i=intl: [('permutation of the bits', eq(r, permspec(v, w, s, w, i)))])
                nbs = [-1] + (list(range(1, w + 1)) if tier != 'quick' or w <= 32 else sorted({1 << k for k in range(8) if 1 << k <= w} | {3, 5, 24, 33, w - 1, w}))

                def many(ctx, T=T, op=op, intl=intl, v=v, w=w, s=stride, nbs=nbs):
                    for nb in nbs:
                        I = make_interp(P)
                        I.check_shift = True
                        contracts(I)
                        ctx.run(I, lambda I: callfn(I, fn_named(P, 'vh::%s_%s' % (op, T)), v, const(s, 64), const(nb, 64)),
                                lambda I, r: [('permutation of the bits, nbits %d' % nb, eq(r, permspec(v, w, s, w if nb == -1 else nb, intl)))])
                out.append(Task('%s<%s> stride %d, given nbits' % (op, T, stride), many, weight=2))

                def inv(ctx, T=T, op=op, v=v, s=stride):
                    I = make_interp(P)
                    other = 'intl' if op == 'deintl' else 'deintl'
                    ctx.run(I, lambda I: callfn(I, fn_named(P, 'vh::%s0_%s' % (other, T)), callfn(I, fn_named(P, 'vh::%s0_%s' % (op, T)), v, const(s, 64)), const(s, 64)),
                            lambda I, r: [('inverse of each other', eq(r, v))])
                out.append(Task('%s<%s> stride %d then back' % (op, T, stride), inv))
    v = var('v', 64)
    for stride in range(7):
        for op, intl in (('deintl', False), ('intl', True)):
            t('%s by pdep/pext, stride %d' % (op, stride), op + '_pdep', (v, const(stride, 64)),
              lambda r, s=stride, i=intl: [('permutation of the bits', eq(r, permspec(v, 64, s, 64, i)))])
    return out


def lowmask(k):
    """2^k - 1 for 0 <= k <= 64"""
    return ite(eq(k, const(64, 64)), const((1 << 64) - 1, 64), sub(shl(const(1, 64), k), const(1, 64)))


def ite_b(c, x, y):
    return and_(implies(c, x), implies(not_(c), y))
