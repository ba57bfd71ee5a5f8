"""P18: replicated three-party arithmetic (mpc/aby3/arithmetic.cc)."""
from ..aby3 import *
from ..protosrc import proto

TRUSTED = ['NdArrayRef/NdArrayView addressing, getFirstShare/getSecondShare (component views), ring primitives, rotate/sendAsync/recv: by contract (each proved or tested by its own property)',
           'pairwise pseudorandomness: a party\'s second stream is the next party\'s first stream (its own property)']
ASSUMPTIONS = ['element counts below 2^40']


def natives(tier):
    yield proto('aby3', 1)


def tasks(tier):
    P = load_program(FILES)
    out = []

    def T_(name, f, weight=1):
        out.append(Task(name, f))
    for w in (32, 64, 128):
        tag = '%d bits' % w

        def add_(cls, *a, nm='', **k):
            T_('%s%s [%s]' % (cls, nm, tag), lambda ctx, w=w: kern(ctx, P, cls, w, *a, **k))
        A, B, Pb = In('x', 'a'), In('y', 'a'), In('y', 'p')
        add_('P2A', [In('x', 'p')], lambda I, W, V, i: V['x'](i))
        add_('A2P', [A], lambda I, W, V, i: V['x'](i), out='p')
        for o in range(3):
            add_('A2V', [A], lambda I, W, V, i: V['x'](i), out='v%d' % o, args=lambda I, W, p, a, o=o: a + [c64(o)], nm=' to %d' % o)
            add_('V2A', [In('x', 'v%d' % o)], lambda I, W, V, i: V['x'](i), nm=' from %d' % o)
        add_('NegateA', [A], lambda I, W, V, i: neg(V['x'](i)))
        add_('AddAP', [A, Pb], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
        add_('AddAA', [A, B], lambda I, W, V, i: add(V['x'](i), V['y'](i)))
        add_('MulAP', [A, Pb], lambda I, W, V, i: mul(V['x'](i), V['y'](i)))
        add_('MulAA', [A, B], lambda I, W, V, i: mul(V['x'](i), V['y'](i)))
        add_('MulAA', [A, B], lambda I, W, V, i: mul(V['x'](i), V['y'](i)), same=(('y', 'x'),), nm=' of one array')
        mx = lambda I, W: Vec([dim('M'), dim('K')])
        my = lambda I, W: Vec([dim('K'), dim('N')])
        mo = lambda I, W: Vec([dim('M'), dim('N')])
        mp = lambda I, W, V, i: matprod(I, V['x'], V['y'], dim('K'), dim('N'), i)
        add_('MatMulAP', [In('x', 'a', mx), In('y', 'p', my)], mp, oshape=mo)
        add_('MatMulAA', [In('x', 'a', mx), In('y', 'a', my)], mp, oshape=mo)
        for bw in (8, 16, 32, 64, 128):
            add_('MulA1B', [A, In('y', 'b', bw=bw, nb=1)], lambda I, W, V, i, w=w: mul(V['x'](i), band(fitw(V['y'](i), w), const(1, w))), nm=' bit stored in %d' % bw, norm=split_bits('y'))
        add_('LShiftA', [A], lambda I, W, V, i, w=w: shl(V['x'](i), fitw(var('k', 64), w)), norm=shl2mul, nm=' by one amount', args=lambda I, W, p, a: a + [Vec([var('k', 64)])],
             assume=lambda I, W, w=w: I.assume(ult(var('k', 64), const(w, 64))))
    return out


from ..semi2k import shl2mul
