"""P16: additive secret sharing arithmetic (mpc/semi2k/arithmetic.cc)."""
from ..semi2k import *
from ..protosrc import proto

TRUSTED = ['NdArrayRef/NdArrayView addressing, ring primitives, allReduce/gather/send/recv: by contract (each proved or tested by its own property)',
           'the dealer hands out shares of random a, b and of a*b (its own property)', 'the triple cache returns for an array exactly what was recorded for it']
ASSUMPTIONS = ['element counts below 2^40', 'two or three parties (the bodies only distinguish rank 0 from the others)']


def natives(tier):
    yield proto('semi2k', 1)


def tasks(tier):
    P = load_program(FILES)
    out = []

    def T_(name, f, weight=1):
        out.append(Task(name, f))
    for n in (2, 3):
        for w in (32, 64, 128):
            tag = '%d parties, %d bits' % (n, w)

            def add_(cls, *a, nm='', **k):
                T_('%s%s [%s]' % (cls, nm, tag), lambda ctx, n=n, w=w: kern(ctx, P, cls, n, w, *a, **k))
            A, B, Pb = In('x', 'a'), In('y', 'a'), In('y', 'p')
            add_('P2A', [In('x', 'p')], lambda I, W, V, i: V['x'](i))
            add_('A2P', [A], lambda I, W, V, i: V['x'](i), out='p')
            for o in range(n):
                add_('A2V', [A], lambda I, W, V, i: V['x'](i), out='v%d' % o, args=lambda I, W, p, a, o=o: a + [c64(o)], nm=' to %d' % o)
                add_('V2A', [In('x', 'v%d' % o)], lambda I, W, V, i: V['x'](i), nm=' from %d' % o)
            add_('NegateA', [A], lambda I, W, V, i: neg(V['x'](i)))
            add_('AddAP', [A, Pb], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
            add_('AddAA', [A, B], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
            add_('MulAP', [A, Pb], lambda I, W, V, i: mul(V['x'](i), V['y'](i)))
            prod = lambda I, W, V, i: mul(V['x'](i), V['y'](i))
            for dv in (False, True):
                o = {'experimental_disable_vectorization': boolt(dv)}
                for cm in ({}, {'x': 'init'}, {'x': 'replay'}, {'y': 'init'}, {'y': 'replay'}, {'x': 'init', 'y': 'replay'}, {'x': 'replay', 'y': 'replay'}, {'x': 'init', 'y': 'init'}):
                    nm = ' vec=%d cache=%s' % (not dv, cm)
                    add_('MulAA', [A, B], prod, cache=cm, opts=o, nm=nm)
                for cm in ({}, {'x': 'init'}, {'x': 'replay'}):
                    add_('MulAA', [A, B], prod, cache=cm, opts=o, nm=' of one array vec=%d cache=%s' % (not dv, cm), same=(('y', 'x'),))
            for cm in ({}, {'x': 'init'}, {'x': 'replay'}):
                add_('SquareA', [A], lambda I, W, V, i: mul(V['x'](i), V['x'](i)), cache=cm, nm=' cache=%s' % cm)
            # shift amounts: one for all elements, or one per element
            def sh1(I, W, p, a):
                return a + [LV(Cell(Vec([var('k', 64)])))]

            def lsh(I, W, V, i):
                k = var('k', 64)
                return shl(V['x'](i), trunc(k, w) if w < 64 else zext(k, w))
            add_('LShiftA', [A], lambda I, W, V, i, w=w: shl(V['x'](i), fitw(var('k', 64), w)), norm=shl2mul, nm=' by one amount', args=lambda I, W, p, a: a + [Vec([var('k', 64)])],
                 assume=lambda I, W, w=w: I.assume(ult(var('k', 64), const(w, 64))))
            if n == 2:
                add_('MulA1B', [A, In('y', 'b1')], lambda I, W, V, i, w=w: mul(V['x'](i), band(V['y'](i), const(1, w))))
                for xo in (0, 1):
                    add_('MulVVS', [In('x', 'v%d' % xo), In('y', 'v%d' % (1 - xo))], lambda I, W, V, i: mul(V['x'](i), V['y'](i)), nm=' owner of x=%d' % xo)
            mx = lambda I, W: Vec([dim('M'), dim('K')])
            my = lambda I, W: Vec([dim('K'), dim('N')])
            mo = lambda I, W: Vec([dim('M'), dim('N')])
            mp = lambda I, W, V, i: matprod(I, V['x'], V['y'], dim('K'), dim('N'), i)
            add_('MatMulAP', [In('x', 'a', mx), In('y', 'p', my)], mp, oshape=mo)
            for dv in (False, True):
                o = {'experimental_disable_vectorization': boolt(dv)}
                for cm in ({}, {'x': 'init'}, {'x': 'replay'}, {'y': 'replay'}, {'x': 'init', 'y': 'replay'}):
                    add_('MatMulAA', [In('x', 'a', mx), In('y', 'a', my)], mp, oshape=mo, cache=cm, opts=o, nm=' vec=%d cache=%s' % (not dv, cm))
    return out


def dim(n):
    return zext(var(n, 20), 64)


def fitw(k, w):
    return trunc(k, w) if w < 64 else zext(k, w) if w > 64 else k
