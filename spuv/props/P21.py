"""P21: the three-party protocol with an assisting party (mpc/securenn)."""
from ..semi2k import *
from ..protosrc import proto
from . import P17
from .P06 import permspec

TRUSTED = ['NdArrayRef/NdArrayView addressing, ring primitives, allReduce/gather/reduce/send/recv: by contract (each its own property)',
           'pairwise generators: genPrssPair gives party i and i+1 the same words in the same order (its own property; the order of calls is an obligation here)',
           'add_bb and a2b called from conversions: by their contract on the values the shares stand for',
           'maxBitWidth(public array): a width that covers every element, the same at every party',
           'share_convert, msb and its optimised form: by run-time contract evaluation only']
ASSUMPTIONS = ['element counts below 2^40', 'three parties',
               'only the first two parties hold words of an arithmetic secret, the word of the third is zero (established by every kernel here, required of inputs)',
               'a boolean share declared with k bits stands for a value below 2^k (established by every kernel here, required of inputs)',
               'comparison by run-time contract evaluation: values in [-2^(k-2), 2^(k-2))']
NS21 = 'spu::mpc::securenn::'
FILES21 = BASE + ['/verif/harness/h_securenn.cc', 'mpc/securenn/arithmetic.cc', 'mpc/securenn/boolean.cc', 'mpc/securenn/conversion.cc', 'mpc/securenn/type.cc']


def natives(tier):
    yield proto('securenn', 1)
    yield proto('securenn', 6)


def dim(n):
    return zext(var(n, 20), 64)


def tasks(tier):
    P = load_program(FILES21)
    P.family = 'securenn'
    out = []
    bkern = P17.make_bkern(P, NS21)
    n = 3
    fitw, nb_in, masked = P17.fitw, P17.nb_in, P17.masked

    def group(w):
        tag = '%d bits' % w

        def T_(cls, ins, spec, nm='', out_='z', **k):
            out.append(Task('%s%s [%s]' % (cls, nm, tag), lambda ctx: kern(ctx, P, cls, n, w, ins, spec, out=out_, ns=NS21, **k)))

        def B_(cls, ins, spec, nm='', **k):
            out.append(Task('%s%s [%s]' % (cls, nm, tag), lambda ctx: bkern(ctx, cls, n, w, ins, spec, **k)))
        A, B, Pb = In('x', 'z'), In('y', 'z'), In('y', 'p')
        ident = lambda I, W, V, i: V['x'](i)
        T_('P2A', [In('x', 'p')], ident)
        T_('A2P', [A], ident, out_='p')
        for o in range(n):
            T_('A2V', [A], ident, out_='v%d' % o, args=lambda I, W, p, a, o=o: a + [c64(o)], nm=' to %d' % o)
            T_('V2A', [In('x', 'v%d' % o)], ident, nm=' from %d' % o)
        T_('RandA', [], lambda I, W, V, i: add(lshr(app('priv.0.0', [i], w), const(2, w)), lshr(app('priv.1.0', [i], w), const(2, w))), args=lambda I, W, p, a: [I.copyval(W.shape)])
        T_('NegateA', [A], lambda I, W, V, i: neg(V['x'](i)))
        T_('AddAP', [A, Pb], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
        T_('AddAA', [A, B], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
        T_('MulAP', [A, Pb], lambda I, W, V, i: mul(V['x'](i), V['y'](i)))
        T_('MulAA', [A, B], lambda I, W, V, i: mul(V['x'](i), V['y'](i)))
        T_('LShiftA', [A], lambda I, W, V, i: shl(V['x'](i), fitw(var('k', 64), w)), norm=shl2mul, nm=' by one amount', args=lambda I, W, p, a: a + [Vec([var('k', 64)])],
           assume=lambda I, W: I.assume(ult(var('k', 64), const(w, 64))))
        mx = lambda I, W: Vec([dim('M'), dim('K')])
        my = lambda I, W: Vec([dim('K'), dim('N')])
        mo = lambda I, W: Vec([dim('M'), dim('N')])
        mp = lambda I, W, V, i: matprod(I, V['x'], V['y'], dim('K'), dim('N'), i)
        T_('MatMulAP', [In('x', 'z', mx), In('y', 'p', my)], mp, oshape=mo)
        T_('MatMulAA', [In('x', 'z', mx), In('y', 'z', my)], mp, oshape=mo)
        T_('MatMulAA_simple', [In('x', 'z', mx), In('y', 'z', my)], mp, oshape=mo)

        X, Y = nb_in('x', w), nb_in('y', w)
        two = lambda f: (lambda I, W, V, i: f(V['x'](i), V['y'](i)))
        B_('B2P', [X], ident, kind='p')
        B_('P2B', [In('x', 'p')], ident)
        B_('AndBP', [X, Pb], two(band))
        B_('AndBB', [X, Y], two(band))
        B_('XorBP', [X, Pb], two(bxor))
        B_('XorBB', [X, Y], two(bxor))
        k1 = lambda I, W, p, a: a + [Vec([var('k', 64)])]
        kin = lambda I, W: I.assume(ult(var('k', 64), const(w, 64)))
        sh = lambda f: (lambda I, W, V, i: f(V['x'](i), fitw(var('k', 64), w)))
        Xv = P17.vnb_in('x', w)
        B_('LShiftB', [Xv], sh(shl), args=k1, assume=kin, norm=P17.shdist)
        B_('RShiftB', [Xv], sh(lshr), args=k1, assume=kin, norm=P17.shdist)
        B_('ARShiftB', [Xv], sh(ashr), args=k1, assume=kin, norm=P17.shdist)
        B_('A2B', [In('x', 'a')], ident)
        B_('B2A', [X], ident, kind='z')
        for nb in (0, 1, 3, 8, 9, 16, 17, 32, 33, 64, 65, 128):
            if nb > w or (nb == 128 and tier == 'quick'):
                continue
            Xn = In('x', 'b%d' % nb)
            if nb:
                Xn.value = lambda i, nb=nb: masked(i, nb, w)
            B_('B2A_Randbit', [Xn], ident, kind='z', nm=' of %d bits' % nb, fixed=nb, norm=bitarith)
        for lo, hi in sorted({(0, w), (0, 8), (3, 3), (2, 11), (w - 9, w), (0, 1)}):
            B_('BitrevB', [X], lambda I, W, V, i, lo=lo, hi=hi: RS.bitrev_fn(V['x'](i), c64(lo), c64(hi), w), nm=' of bits %d to %d' % (lo, hi),
               args=lambda I, W, p, a, lo=lo, hi=hi: a + [c64(lo), c64(hi)])
        for nb in (1, 2, 8, 32, 64, 128):
            if nb > w:
                continue
            for st in (0, 1, 2, 4):
                for op, intl in (('BitIntlB', True), ('BitDeintlB', False)):
                    B_(op, [In('x', 'b%d' % nb)], lambda I, W, V, i, st=st, nb=nb, intl=intl: permspec(V['x'](i), w, st, nb, intl), kind='b%d' % nb,
                       nm=' of %d bits, stride %d' % (nb, st), args=lambda I, W, p, a, st=st: a + [c64(st)])
    for w in (32, 64, 128):
        group(w)
    return out
