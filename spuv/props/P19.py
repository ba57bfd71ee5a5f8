"""P19: replicated three-party boolean shares (mpc/aby3/boolean.cc)."""
from ..aby3 import *
from ..protosrc import proto
from .P06 import permspec

TRUSTED = ['NdArrayRef/NdArrayView addressing, getShareAs (component copies), rotate/sendAsync/recv: by contract (each proved or tested by its own property)',
           'pairwise pseudorandomness: a party\'s second stream is the next party\'s first stream (its own property)',
           'maxBitWidth(public array): a width that covers every element, the same at every party']
ASSUMPTIONS = ['element counts below 2^40', 'a boolean share declared with k bits stands for a value below 2^k (established by every kernel here, required of inputs)']

CLS = {8: (0, 8), 16: (9, 16), 32: (17, 32), 64: (33, 64), 128: (65, 128)}


def natives(tier):
    yield proto('aby3', 2)


def nbv(name):
    return zext(var('nb.' + name, 8), 64)


def inr(I, nb, c):
    lo, hi = CLS[c]
    if lo:
        I.assume(ule(c64(lo), nb))
    I.assume(ule(nb, c64(hi)))


def tasks(tier):
    P = load_program(FILES)
    out = []

    def bk(name, cls, w, ins, spec, cls_of=(), mbw=None, **k):
        def run(ctx):
            def setup(I):
                def h(I, c):
                    a = I.unbase(c.val(0))
                    return nbv('p.' + a.store.name.split('$')[0].split('!')[0])
                I.overrides['spu::maxBitWidth'] = h
            a0 = k.pop('assume', None)

            def assume(I, W):
                for nm, c in cls_of:
                    inr(I, nbv(nm), c)
                if mbw:
                    inr(I, nbv('p.' + mbw[0]), mbw[1])
                if a0:
                    a0(I, W)

            def pre(I, W, V, i):
                if mbw:
                    I.assume(below(V[mbw[0]](i), nbv('p.' + mbw[0])))
            kern(ctx, P, cls, w, ins, spec, setup=setup, assume=assume, pre=pre, **k)
        out.append(Task(name, run))

    def B(nm, bw):
        return In(nm, 'b', bw=bw, nb=nbv(nm))

    def wide(x, w):
        return zext(x, w) if x.w < w else x
    BW = (8, 16, 32, 64, 128)
    pairs = [(b, c) for b in BW for c in BW if c == b or (c < b and (tier != 'quick' or b == 128))]
    two = lambda f, w=128: (lambda I, W, V, i: f(wide(V['x'](i), w), wide(V['y'](i), w)))
    for b, c in pairs:
        t = 'declared %d..%d bits stored in %d' % (CLS[c] + (b,))
        X = B('x', b)
        for w in (32, 64, 128):
            if c > w:
                continue
            for o in range(3):
                if w == 64 or o == 1:
                    bk('B2V to %d of %s, %d-bit ring' % (o, t, w), 'B2V', w, [X], lambda I, W, V, i, w=w: fitw(V['x'](i), w), [('x', c)], out='v%d' % o,
                       args=lambda I, W, p, a, o=o: a + [c64(o)])
            bk('B2P of %s, %d-bit ring' % (t, w), 'B2P', w, [X], lambda I, W, V, i, w=w: fitw(V['x'](i), w), [('x', c)], out='p')
            for oc in BW:
                if oc > w:
                    continue
                for op, f in (('AndBP', band), ('XorBP', bxor)):
                    bk('%s of %s, public of %d..%d bits in %d' % ((op, t) + CLS[oc] + (w,)), op, w, [X, In('y', 'p')], two(f), [('x', c)], ('y', oc), out='b')
        for b2, c2 in pairs:
            if tier == 'quick' and (c2 != b2 and c != b):
                continue
            for op, f in (('AndBB', band), ('XorBB', bxor)):
                bk('%s of %s and declared %d..%d bits stored in %d' % ((op, t) + CLS[c2] + (b2,)), op, 64, [X, B('y', b2)], two(f), [('x', c), ('y', c2)], out='b')
        for b2 in BW:
            if b2 >= c:
                bk('CastTypeB of %s to %d' % (t, b2), 'CastTypeB', 64, [X], lambda I, W, V, i: V['x'](i), [('x', c)], out='b',
                   args=lambda I, W, p, a, b2=b2: a + [bty(I, b2, nbv('x'))])
        kk = var('k', 64)
        ka = lambda I, W, p, a: a + [Vec([kk])]
        for oc in BW:
            if oc <= c:
                def asm(I, W, oc=oc):
                    I.assume(sle(c64(0), kk))
                    n = nbv('x')
                    inr(I, ite(ult(kk, n), sub(n, kk), c64(0)), oc)
                bk('RShiftB of %s into %d' % (t, oc), 'RShiftB', 64, [X], lambda I, W, V, i: lshr(wide(V['x'](i), 128), ite(ult(kk, c64(128)), fitw(kk, 128), const(128, 128))), [('x', c)], out='b',
                   args=ka, assume=asm)
        for w in (32, 64, 128):
            if c > w:
                continue
            for oc in BW:
                if c <= oc <= w:
                    def asm(I, W, oc=oc, w=w):
                        I.assume(ult(kk, c64(w)))
                        s = add(nbv('x'), kk)
                        inr(I, ite(ult(c64(w), s), c64(w), s), oc)
                        I.assume(ule(c64(1), nbv('x')))
                    bk('LShiftB of %s into %d, %d-bit ring' % (t, oc, w), 'LShiftB', w, [X],
                       lambda I, W, V, i, w=w: wide(shl(fitw(V['x'](i), w), fitw(kk, w)), 128), [('x', c)], out='b', args=ka, assume=asm)
    for w in (32, 64, 128):
        kk = var('k', 64)
        ka = lambda I, W, p, a: a + [Vec([kk])]
        bk('ARShiftB, %d-bit ring' % w, 'ARShiftB', w, [In('x', 'b', bw=w, nb=w)], lambda I, W, V, i, w=w: ashr(V['x'](i), fitw(kk, w)), out='b', args=ka,
           assume=lambda I, W, w=w: I.assume(ult(kk, c64(w))))
        for oc in BW:
            if oc <= w:
                bk('P2B of %d..%d bits, %d-bit ring' % (CLS[oc] + (w,)), 'P2B', w, [In('x', 'p')], lambda I, W, V, i: V['x'](i), (), ('x', oc), out='b')
        bk('RandB, %d-bit ring' % w, 'RandB', w, [], lambda I, W, V, i, w=w: comb('xor', [band(app('prss.%d.0' % p, [i], w), const(1, w)) for p in range(3)]), out='b',
           args=lambda I, W, p, a: [I.copyval(W.shape)], obits=lambda I, W: c64(1))
    for b in BW:
        for lo, hi in sorted({(0, b), (0, 8), (3, 3), (2, 7), (b - 5, b), (0, 1), (b // 2, b - 1)} | ({(0, 2 * b), (1, b + 3)} if b < 128 else set())):
            bk('BitrevB of bits %d..%d, declared %d..%d bits stored in %d' % ((lo, hi) + CLS[b] + (b,)), 'BitrevB', 64, [B('x', b)],
               lambda I, W, V, i, lo=lo, hi=hi: RS.bitrev_fn(wide(V['x'](i), 128), c64(lo), c64(hi), 128), [('x', b)], out='b',
               args=lambda I, W, p, a, lo=lo, hi=hi: a + [c64(lo), c64(hi)])
        for nb in (1, 2, 4, 8, 16, 32, 64, 128):
            if nb <= b and (tier != 'quick' or b == max(8, nb) or (nb, b) == (8, 64)):
                for st in (0, 1, 2, 4):
                    for op, intl in (('BitIntlB', True), ('BitDeintlB', False)):
                        bk('%s of %d bits stored in %d, stride %d' % (op, nb, b, st), op, 64, [In('x', 'b', bw=b, nb=nb)],
                           lambda I, W, V, i, st=st, nb=nb, intl=intl: permspec(V['x'](i), V['x'](i).w, st, nb, intl), out='b', obits=lambda I, W, nb=nb: c64(nb),
                           args=lambda I, W, p, a, st=st: a + [c64(st)])
    return out
