"""P25: kernels on public values, on values known to one party, and of the reference protocol (mpc/common/pv2k.cc, mpc/ref2k/ref2k.cc)."""
from ..semi2k import *
from ..protosrc import proto

NSP = 'spu::mpc::(anonymous namespace)::'
FILES25 = BASE + ['/verif/harness/h_semi2k.cc', 'mpc/semi2k/type.cc', 'mpc/ref2k/ref2k.cc']
TRUSTED = ['NdArrayRef/NdArrayView addressing, ring primitives, bcast: by contract (each proved or tested by its own property)',
           'public random values are the same at all parties (its own property)']
ASSUMPTIONS = ['element counts below 2^40', 'two or three parties (the bodies only distinguish the owner from the others)',
               'truncation by at least one bit (the API returns early for zero)', 'index inputs of the permutation kernels are permutations']


def natives(tier):
    yield proto('ref2k', 32 | 64)


def amt(w):
    k = var('k', 64)
    return trunc(k, w) if w < 64 else zext(k, w) if w > 64 else k


def bits_arg(I, W, p, a):
    return a + [Vec([var('k', 64)])]


def below(w, lo=0):
    def f(I, W):
        I.assume(ult(var('k', 64), const(w, 64)))
        if lo:
            I.assume(ule(const(lo, 64), var('k', 64)))
    return f


def rev(x, s, e, w):
    """bits [s, e) of x in opposite order, the others unchanged"""
    r = const(0, w)
    for b in range(w):
        c = s + e - 1 - b if s <= b < e else b
        r = bor(r, shl(band(lshr(x, const(c, w)), const(1, w)), const(b, w)))
    return r


def index_input(kind, w):
    """an array holding a permutation of the positions"""
    y = In('y', kind)

    def assume(I, W):
        n = AR.shape_numel(I, W.shape)
        I.assume(ult(n, const(1 << 31, 64)))
        I.ghost['perms'] = {'pi': ('pi^-1', n), 'pi^-1': ('pi', n)}

        def value(i):
            p = app('pi', [i], 64)
            I.assume(ult(p, n))
            return fit(p, w)
        y.value = value
    return y, assume


def sort_post(asc, kind, w):
    """the result is the inverse of the stable ordering permutation"""
    def more(I, W, V, outs, i):
        for (nm, n, _, cmp), p in zip(I.ghost['sorts'], [p for p in range(W.n) if kind == 'p' or p == int(kind[1:])]):
            a, b = zext(fresh('a', 40), 64), zext(fresh('b', 40), 64)
            for t in (ult(a, b), ult(b, n)):
                I.assume(t)
            sa, sb = app(nm, [a], 64), app(nm, [b], 64)
            I.assume(ult(sa, n))
            I.assume(ult(sb, n))
            ia, ib = (trunc(t, w) if w < 64 else zext(t, w) if w > 64 else t for t in (sa, sb))
            # what std::stable_sort (std::sort: without the order of ties) guarantees for positions a < b, with the comparator of the code
            I.assume(not_(eq(sa, sb)))
            I.assume(not_(I.tobool(cmp(ib, ia))))
            if nm not in I.ghost.get('unstable', ()):
                I.assume(or_(I.tobool(cmp(ia, ib)), ult(sa, sb)))
            xa, xb = V['x'](sa), V['x'](sb)
            yield 'party %d: earlier position, not larger key' % p, sle(xa, xb) if asc else sle(xb, xa)
            yield 'party %d: equal keys keep their order' % p, implies(eq(xa, xb), ult(sa, sb))
            yield 'party %d: element s(a) is sent to position a' % p, eq(rd(I, outs[p], sa, ()), fit(a, w))
    return more


MASK64 = (1 << 64) - 1


def fit(p, w):
    return trunc(p, w) if w < 64 else zext(p, w) if w > 64 else p


def tasks(tier):
    P = load_program(FILES25)
    out = []
    def group(n, w):
        tag = '%d parties, %d bits' % (n, w)

        def add_(cls, *a, nm='', **k):
            k.setdefault('ns', NSP)
            out.append(Task('%s%s [%s]' % (cls, nm, tag), lambda ctx, n=n, w=w: kern(ctx, P, cls, n, w, *a, **k)))
        V1 = lambda f: (lambda I, W, V, i: f(V['x'](i)))
        V2 = lambda f: (lambda I, W, V, i: f(V['x'](i), V['y'](i)))
        ident = V1(lambda x: x)
        one = const(1, w)
        msb = V1(lambda x: lshr(x, const(w - 1, w)))
        eqf = V2(lambda x, y: ite(eq(x, y), one, const(0, w)))
        tr = V1(lambda x: add(ashr(x, amt(w)), band(ashr(x, sub(amt(w), one)), one)))
        mx = lambda I, W: Vec([dim('M'), dim('K')])
        my = lambda I, W: Vec([dim('K'), dim('N')])
        mo = lambda I, W: Vec([dim('M'), dim('N')])
        mp = lambda I, W, V, i: matprod(I, V['x'], V['y'], dim('K'), dim('N'), i)
        owners = ['v%d' % o for o in range(n)]
        for o, v in enumerate(owners):
            add_('P2V', [In('x', 'p')], ident, out=v, args=lambda I, W, p, a, o=o: a + [c64(o)], nm=' to %d' % o)
            add_('V2P', [In('x', v)], ident, out='p', nm=' from %d' % o)
            add_('Ref2kS2V', [In('x', 's')], ident, out=v, args=lambda I, W, p, a, o=o: a + [c64(o)], nm=' to %d' % o)
            add_('Ref2kV2S', [In('x', v)], ident, out='s', nm=' from %d' % o)
        add_('Ref2kP2S', [In('x', 'p')], ident, out='s')
        add_('Ref2kS2P', [In('x', 's')], ident, out='p')
        for suf, k in [('PP', 'p')] + [('VV', v) for v in owners]:
            y, asm = index_input(k, w)
            add_('Perm' + suf, [In('x', k), y], lambda I, W, V, i: V['x'](app('pi', [i], 64)), out=k, assume=asm, nm=' ' + k, pre=lambda I, W, V, i: I.assume(ult(app('pi', [i], 64), AR.shape_numel(I, W.shape))))
            y, asm = index_input(k, w)
            add_('InvPerm' + suf, [In('x', k), y], lambda I, W, V, i: V['x'](app('pi^-1', [i], 64)), out=k, assume=asm, nm=' ' + k)
        for suf, k in [('P', 'p')] + [('V', v) for v in owners]:
            for asc in (True, False):
                add_('GenInvPerm' + suf, [In('x', k)], None, out=k, args=lambda I, W, p, a, asc=asc: a + [boolt(asc)], more=sort_post(asc, k, w), nm=' %s %s' % (k, 'ascending' if asc else 'descending'),
                     assume=lambda I, W: (I.assume(ult(AR.shape_numel(I, W.shape), const(1 << 31, 64))), I.ghost.pop('sorts', None), I.ghost.pop('perms', None)))
        for suf, k in [('P', 'p')] + [('V', v) for v in owners]:
            for cnt in (1, 2, 3):
                for end in (True, False):
                    xs = [In('x%d' % j, k) for j in range(cnt)]

                    def gm(I, W, V, i, cnt=cnt, end=end):
                        nl = AR.shape_numel(I, W.shape)
                        o = add(i, const(1 if end else MASK64, 64))
                        same = and_(*[eq(V['x%d' % j](i), V['x%d' % j](o)) for j in range(cnt)])
                        edge = eq(i, sub(nl, const(1, 64)) if end else const(0, 64))
                        return ite(edge, const(1 if end else 0, w), ite(same, const(0 if end else 1, w), const(1 if end else 0, w)))
                    add_('GroupMark' + suf, xs, gm, out=k, nm=' %s %d keys %s' % (k, cnt, 'ends' if end else 'starts'), args=lambda I, W, p, a, end=end: [Vec(a), boolt(end)],
                         assume=lambda I, W: I.assume(ult(const(0, 64), AR.shape_numel(I, W.shape))))
        add_('RandP', [], lambda I, W, V, i: app('publ.0', [i], w), out='p', args=lambda I, W, p, a: [W.shape], nm=' the same values at all parties')
        add_('Ref2kRandS', [], lambda I, W, V, i: lshr(app('publ.0', [i], w), const(2, w)), out='s', args=lambda I, W, p, a: [W.shape], nm=' the same values at all parties')
        # (suffixes of the kernel names, kinds of the operands)
        for pre, sufs in (('', [('P', 'p')] + [('V', v) for v in owners]), ('Ref2k', [('S', 's')])):
            for suf, k in sufs:
                X, nm = In('x', k), ' ' + k
                add_(pre + 'Negate' + suf, [X], V1(neg), out=k, nm=nm)
                add_(pre + 'Msb' + suf, [X], msb, out=k, nm=nm)
                for op, f in (('LShift', lambda x: shl(x, amt(w))), ('RShift', lambda x: lshr(x, amt(w))), ('ARShift', lambda x: ashr(x, amt(w)))):
                    add_(pre + op + suf, [X], V1(f), out=k, nm=nm, args=bits_arg, assume=below(w))
                if pre:
                    add_(pre + 'Trunc' + suf, [X], tr, out=k, nm=nm, args=lambda I, W, p, a: a + [var('k', 64), const(0, 32)], assume=below(w, 1))
                else:
                    add_(pre + 'Trunc' + suf, [X], tr, out=k, nm=nm, args=bits_arg, assume=below(w, 1))
                for s, e in ((0, 0), (0, w), (3, 3), (1, 9), (w // 2, w), (5, w - 2)):
                    add_(pre + 'Bitrev' + suf, [X], V1(lambda x, s=s, e=e: rev(x, s, e, w)), out=k, nm=nm + ' bits %d..%d' % (s, e), args=lambda I, W, p, a, s=s, e=e: a + [c64(s), c64(e)])
        for pre, sufs in (('', [('PP', 'p', 'p')] + [t for v in owners for t in (('VVV', v, v), ('VP', v, 'p'))]), ('Ref2k', [('SS', 's', 's'), ('SP', 's', 'p')])):
            for suf, k, l in sufs:
                ins, nm = [In('x', k), In('y', l)], ' %s %s' % (k, l)
                for op, f in (('Add', add), ('Mul', mul), ('And', band), ('Xor', bxor)):
                    add_(pre + op + suf, ins, V2(f), out=k, nm=nm)
                if not pre:
                    add_('Equal' + suf, ins, eqf, out=k, nm=nm)
                add_(pre + 'MatMul' + suf, [In('x', k, mx), In('y', l, my)], mp, out=k, oshape=mo, nm=nm)
    for n in (2, 3):
        for w in (32, 64, 128):
            group(n, w)
    return out


def dim(n):
    return zext(var(n, 20), 64)
