"""P17: boolean shares of the additive protocol and conversions between the two kinds of shares (mpc/semi2k)."""
from ..semi2k import *
from ..protosrc import proto
from .P06 import permspec

TRUSTED = ['NdArrayRef/NdArrayView addressing, ring primitives, allReduce: by contract (each its own property)',
           'the dealer hands out and-triples, shared random bits and the two sharings of one random word (its own property)',
           'add_bb, and_bb, xor_bb, rshift_b, carry_a2b, a2b called from conversions: by their contract on the values the shares stand for',
           'maxBitWidth(public array): a width that covers every element, the same at every party']
ASSUMPTIONS = ['element counts below 2^40', 'two or three parties', 'a boolean share declared with k bits stands for a value below 2^k (established by every kernel here, required of inputs)']


def below(v, nb):
    """v < 2^nb"""
    w = v.w
    k = fitw(nb, w)
    full = ule(const(w, nb.w), nb)
    return or_(full, eq(lshr(v, k), const(0, w)))


def fitw(k, w):
    return trunc(k, w) if w < k.w else zext(k, w) if w > k.w else k


def nbits_of(I, o):
    return hcall(I, 'nbits_of', LV(Cell(I.copyval(o.ety.v))))


def nb_in(name, w):
    """input whose declared width is a symbolic number of bits"""
    nb = zext(var('nb.' + name, 8), 64)

    def ety(I, W):
        I.assume(ule(nb, const(w, 64)))
        return bty(I, w, nb)
    x = In(name, 'b', None, ety)
    x.nb = nb
    x.kind = 'b*'
    return x


def outb(I, W):
    return None


def make_bkern(P, ns=NS):
    def bkern(ctx, cls, n, w, ins, spec, kind='b*', bits=None, **k):
        def setup(I):
            def mbw(I, c):
                a = I.unbase(c.val(0))
                nm = base_name(a)
                nb = zext(var('mbw.' + nm, 8), 64)
                I.assume(ule(nb, const(w, 64)))
                return nb
            I.overrides['spu::maxBitWidth'] = mbw
            gates(I, w)
        a0 = k.pop('assume', None)
        fixed = k.pop('fixed', None)

        def more(I, W, V, outs, i):
            if kind != 'b*':
                return
            nbs = [nbits_of(I, o) for o in outs]
            for p in range(1, n):
                yield 'parties agree on the declared number of bits', eq(nbs[0], nbs[p])
            yield 'declared number of bits fits the ring', ule(nbs[0], const(w, nbs[0].w))
            s = W.resolve(comb('xor', [rd(I, o, i, ()) for o in outs]))
            yield 'the value is below 2^(declared bits)', below(W.resolve(specof(I, W, V, i)), nbs[0])

        def specof(I, W, V, i):
            return spec(I, W, V, i)

        def pre(I, W, V, i):
            for x in ins:
                if x.kind == 'b*':
                    I.assume(below(V[x.name](i), x.nb))
                elif fixed is not None:
                    I.assume(below(V[x.name](i), const(fixed, 64)))
                elif x.kind == 'p':
                    mb = zext(var('mbw.' + x.name, 8), 64)
                    I.assume(ule(mb, const(w, 64)))
                    I.assume(below(V[x.name](i), mb))
        def spec2(I, W, V, i):
            # change of variables (the difference of the operands as one variable); keeps the obligations small
            if cls.startswith('Equal'):
                z = var('diff', w)
                x0 = app('x@0', [i], w)
                I.ghost['chvar'] = {x0: add(sub(x0, sub(V['x'](i), V['y'](i))), z)}
            return spec(I, W, V, i)
        kern(ctx, P, cls, n, w, ins, spec2, out=kind, setup=setup, more=more, pre=pre, assume=a0, ns=ns, **k)

    def base_name(a):
        return a.store.name.split('$')[0].split('!')[0]
    return bkern


def natives(tier):
    yield proto('semi2k', 6)


def tasks(tier):
    P = load_program(FILES)
    out = []

    bkern = make_bkern(P)

    for n in (2, 3):
        for w in (32, 64, 128):
            tag = '%d parties, %d bits' % (n, w)

            def add_(cls, *a, nm='', **k):
                out.append(Task('%s%s [%s]' % (cls, nm, tag), lambda ctx, n=n, w=w: bkern(ctx, cls, n, w, *a, **k)))
            X, Y, Pb = nb_in('x', w), nb_in('y', w), In('y', 'p')
            two = lambda f: (lambda I, W, V, i: f(V['x'](i), V['y'](i)))
            add_('B2P', [X], lambda I, W, V, i: V['x'](i), kind='p')
            add_('P2B', [In('x', 'p')], lambda I, W, V, i: V['x'](i))
            add_('AndBP', [X, Pb], two(band))
            add_('AndBB', [X, Y], two(band))
            add_('XorBP', [X, Pb], two(bxor))
            add_('XorBB', [X, Y], two(bxor))
            k1 = lambda I, W, p, a: a + [Vec([var('k', 64)])]
            kin = lambda I, W, w=w: I.assume(ult(var('k', 64), const(w, 64)))
            sh = lambda f, w=w: (lambda I, W, V, i: f(V['x'](i), fitw(var('k', 64), w)))
            Xv = vnb_in('x', w)
            add_('LShiftB', [Xv], sh(shl), args=k1, assume=kin, norm=shdist)
            add_('RShiftB', [Xv], sh(lshr), args=k1, assume=kin, norm=shdist)
            add_('ARShiftB', [Xv], sh(ashr), args=k1, assume=kin, norm=shdist)
            add_('A2B', [In('x', 'a')], lambda I, W, V, i: V['x'](i))
            add_('B2A', [X], lambda I, W, V, i: V['x'](i), kind='a')
            for eq_, ins in (('EqualAA', [In('x', 'a'), In('y', 'a')]), ('EqualAP', [In('x', 'a'), Pb])):
                add_(eq_, ins, lambda I, W, V, i, w=w: zext(ite(eq(V['x'](i), V['y'](i)), const(1, 1), const(0, 1)), w), opts={'opaque': True})
            if n == 2:
                add_('MsbA2B', [In('x', 'a')], lambda I, W, V, i, w=w: lshr(V['x'](i), const(w - 1, w)))
            for nb in (0, 1, 3, 8, 9, 16, 17, 32, 33, 64, 65, 128):
                if nb > w or (nb == 128 and n == 3 and tier == 'quick'):
                    continue
                Xn = In('x', 'b%d' % nb)
                if nb:
                    Xn.value = lambda i, nb=nb, w=w: masked(i, nb, w)
                add_('B2A_Randbit', [Xn], lambda I, W, V, i: V['x'](i), kind='a', nm=' of %d bits' % nb, fixed=nb, norm=bitarith)
                for j in sorted({0, nb // 2, nb - 1}):
                    if nb and j >= 0:
                        add_('B2A_Disassemble', [Xn], lambda I, W, V, i, j=j, w=w: band(lshr(V['x'](i), const(j, w)), const(1, w)), kind='a',
                             nm=' of %d bits, bit %d' % (nb, j), fixed=nb, norm=bitarith, select=(j, nb))
            for lo, hi in sorted({(0, w), (0, 8), (3, 3), (2, 11), (w - 9, w), (0, 1)}):
                add_('BitrevB', [X], lambda I, W, V, i, lo=lo, hi=hi, w=w: RS.bitrev_fn(V['x'](i), c64(lo), c64(hi), w), nm=' of bits %d to %d' % (lo, hi),
                     args=lambda I, W, p, a, lo=lo, hi=hi: a + [c64(lo), c64(hi)])
            for nb in (1, 2, 8, 32, 64, 128):
                if nb > w:
                    continue
                for st in (0, 1, 2, 4):
                    for op, intl in (('BitIntlB', True), ('BitDeintlB', False)):
                        add_(op, [In('x', 'b%d' % nb)], lambda I, W, V, i, st=st, nb=nb, w=w, intl=intl: permspec(V['x'](i), w, st, nb, intl), kind='b%d' % nb,
                             nm=' of %d bits, stride %d' % (nb, st), args=lambda I, W, p, a, st=st: a + [c64(st)])
            out.append(Task('RandB [%s]' % tag, lambda ctx, n=n, w=w: kern(
                ctx, P, 'RandB', n, w, [], lambda I, W, V, i: comb('xor', [band(app('priv.%d.0' % p, [i], w), const(1, w)) for p in range(n)]), out='b1',
                args=lambda I, W, p, a: [I.copyval(W.shape)])))
    return out


def masked(i, nb, w):
    """the value written as (opened bit) xor (dealt bit) at each position: every value below 2^nb is of this form"""
    r = const(0, w)
    for b in range(nb):
        bit = bxor(app('open%d' % b, [i], 1), app('rb0', [add(mul(i, const(nb, 64)), const(b, 64))], 1))
        r = add(r, shl(zext(bit, w) if w > 1 else bit, const(b, w)))
    return r


def shdist(t):
    """shifts distribute over xor"""
    memo = {}

    def go(x):
        if x.id in memo:
            return memo[x.id]
        y = TM.rebuild(x, go) if x.op not in ('sum',) else x
        if y.op in ('shl', 'lshr', 'ashr') and not is_c(y.args[1]):
            y = dist(y.op, y.args[0], y.args[1])
        memo[x.id] = y
        return y

    def dist(op, a, k):
        f = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
        parts = TM.xor_parts(a)
        if parts is None or len(parts) < 2:
            return f(a, k)
        return comb('xor', [f(p, k) for p in parts])
    return go(t)


def vnb_in(name, w):
    x = nb_in(name, w)
    x.value = lambda i: app('val.' + name, [i], w)
    return x


def isbsh(I, a):
    I.require('gate operand is a boolean share', isb(I, a))


def gates(I, w):
    """contracts of the kernels called from conversions, on the values the shares stand for"""
    def two(name, f, nb):
        def h(I, c):
            so = I.unbase(I.rv(I.deref(c.val(0))))
            x, y = c.val(1), c.val(2)
            isbsh(I, x)
            isbsh(I, y)
            I.require('%s: operands of one shape' % name, RS.same_shape(I, x.shape.v, y.shape.v))
            n1, n2 = nbits_of(I, x), nbits_of(I, y)
            return gate(so.W, I, so.r, name, [x, y], f, x, bty(I, w, nb(n1, n2)))
        I.overrides['spu::mpc::' + name] = h
    full = lambda a, b: const(w, 64)
    two('add_bb', add, full)
    two('and_bb', band, lambda a, b: ite(ult(b, a), b, a))
    two('xor_bb', bxor, lambda a, b: ite(ult(a, b), b, a))

    def a2b(I, c):
        so = I.unbase(I.rv(I.deref(c.val(0))))
        x = c.val(1)
        I.require('a2b: operand is an arithmetic share', isa(I, x))
        return gate2(so.W, I, so.r, 'a2b', x, bty(I, w, w))
    I.overrides['spu::mpc::a2b'] = a2b

    def rsh(I, c):
        so = I.unbase(I.rv(I.deref(c.val(0))))
        x, k = c.val(1), I.unbase(c.val(2))
        isbsh(I, x)
        if type(k) is not Vec or len(k.items) != 1:
            raise Unsupported('shift amounts')
        k = k.items[0]
        nb = nbits_of(I, x)
        return gate(so.W, I, so.r, 'rshift_b', [x], lambda v: lshr(v, fitw(k, v.w)), x, bty(I, w, ite(ult(k, nb), sub(nb, k), const(0, 64))), extra=(k,))
    I.overrides['spu::mpc::rshift_b'] = rsh

    def carry(I, c):
        so = I.unbase(I.rv(I.deref(c.val(0))))
        x, y, k = c.val(1), c.val(2), c.val(3)
        isbsh(I, x)
        isbsh(I, y)

        def f(a, b):
            return fk(a, b, k)

        def fk(a, b, k):
            if k.op == 'ite':
                return ite(k.args[0], fk(a, b, k.args[1]), fk(a, b, k.args[2]))
            if not is_c(k):
                raise Unsupported('symbolic carry position')
            k = cval(k)
            if k == 0:
                return const(0, a.w)
            return zext(trunc(lshr(add(zext(trunc(a, k), k + 1), zext(trunc(b, k), k + 1)), const(k, k + 1)), 1), a.w)
        return gate(so.W, I, so.r, 'carry_a2b', [x, y], f, x, bty(I, w, 1), extra=(k,))
    I.overrides['spu::mpc::carry_a2b'] = carry


def gate2(W, I, r, kind, x, ety):
    """share conversion: the result xor-shares the sum of the operand's shares"""
    m = msg_of(I, x)
    k = W.site(r, 'gate ' + kind, (), [m])
    nm = 'gate%d' % k

    def at(i):
        if r != W.n - 1:
            return app('%s@%d' % (nm, r), [i], m.w)
        v = comb('add', [W.ph(k, p, 0, i, m.w) for p in range(W.n)])
        return bxor(v, comb('xor', [app('%s@%d' % (nm, p), [i], m.w) for p in range(W.n - 1)]))
    return res_arr(I, x, at, m.w, nm, ety=ety)
