"""P20: conversions between replicated arithmetic and boolean shares (mpc/aby3/conversion.cc)."""
from ..aby3 import *
from ..protosrc import proto

TRUSTED = ['NdArrayRef/NdArrayView addressing, getShare (component views), rotate/sendAsync/recv: by contract (each proved or tested by its own property)',
           'pairwise pseudorandomness: a party\'s second stream is the next party\'s first stream (its own property)',
           'add_bb, xor_bb, rshift_b, carry_a2b called from conversions: by their contract on the values the shares stand for']
ASSUMPTIONS = ['element counts below 2^40 (equality, conversion by oblivious transfer: below 2^34; equality: at least 1)', 'a boolean share declared with k bits stands for a value below 2^k (established by every boolean kernel, required of inputs)']


def natives(tier):
    yield proto('aby3', 4)


CLS = {8: (0, 8), 16: (9, 16), 32: (17, 32), 64: (33, 64), 128: (65, 128)}


def tasks(tier):
    P = load_program(FILES)
    out = []

    def ck(name, cls, w, ins, spec, **k):
        a0 = k.pop('assume', None)

        def run(ctx):
            kern(ctx, P, cls, w, ins, spec, setup=gates3, assume=a0, **k)
        out.append(Task(name, run))
    for w in (32, 64, 128):
        A = In('x', 'a')
        tag = ' [%d bits]' % w
        ck('A2B' + tag, 'A2B', w, [A], lambda I, W, V, i: V['x'](i), out='b')
        ck('MsbA2B' + tag, 'MsbA2B', w, [A], lambda I, W, V, i, w=w: lshr(V['x'](i), const(w - 1, w)), out='b')
        nb = zext(var('nb.x', 8), 64)
        for b, (lo, hi) in CLS.items():
            if b > w:
                continue
            def asm(I, W, lo=lo, hi=hi, nb=nb):
                I.assume(ule(c64(max(lo, 1)), nb))
                I.assume(ule(nb, c64(hi)))
            ck('B2AByPPA of declared %d..%d bits stored in %d%s' % (max(lo, 1), hi, b, tag), 'B2AByPPA', w, [In('x', 'b', bw=b, nb=nb)], lambda I, W, V, i, w=w: fitw(V['x'](i), w), assume=asm)
            if b > 8:
                ck('B2ASelector of declared %d..%d bits stored in %d%s' % (lo, hi, b, tag), 'B2ASelector', w, [In('x', 'b', bw=b, nb=nb)], lambda I, W, V, i, w=w: fitw(V['x'](i), w), assume=asm)
        ck('B2AByPPA of 0 bits' + tag, 'B2AByPPA', w, [In('x', 'b', bw=8, nb=0)], lambda I, W, V, i, w=w: fitw(V['x'](i), w))
        for pv in (0, 1, 2, const((1 << 64) - 1, 64), const((1 << 64) - 2, 64)):
            pn = 'pivot %d mod 3' % pv if isinstance(pv, int) else 'pivot %d' % cval(pv)
            for cls, y in (('EqualAA', In('y', 'a')), ('EqualAP', In('y', 'p'))):
                if tier == 'quick' and w == 128 and (cls, pv) not in (('EqualAA', 0), ('EqualAA', 1), ('EqualAA', 2), ('EqualAP', 0)):
                    continue
                ck('%s, %s%s' % (cls, pn, tag), cls, w, [A, y], lambda I, W, V, i: ite(eq(V['x'](i), V['y'](i)), const(1, 8), const(0, 8)), out='b', opts={'pivot': pv, 'rounds': ('andbb',)}, norm=eqz_norm(y.kind),
                   assume=lambda I, W: (I.assume(ne(var('n.s', 40), const(0, 40))), I.assume(ult(var('n.s', 40), const(1 << 34, 40)))))
        for pv in (0, 1, 2, const((1 << 64) - 1, 64), const((1 << 64) - 2, 64)):
            pn = 'pivot %d mod 3' % pv if isinstance(pv, int) else 'pivot %d' % cval(pv)
            for nb in ((1, 2, 8) if tier == 'quick' else range(1, 9)):
                ck('B2AByOT of %d bits, %s%s' % (nb, pn, tag), 'B2AByOT', w, [In('x', 'b', bw=8, nb=nb)],
                   lambda I, W, V, i, w=w, nb=nb: sum_bits(V['x'](i), nb, w), opts={'pivot': pv, 'rounds': ('-',)}, norm=bits_norm('x', nb),
                   assume=lambda I, W: I.assume(ult(var('n.s', 40), const(1 << 34, 40))))
    return out


def sum_bits(v, nb, w):
    """a value below 2^nb, bit by bit"""
    r = const(0, w)
    for j in range(nb):
        r = add(r, shl(fitw(band(lshr(v, const(j, v.w)), const(1, v.w)), w), const(j, w)))
    return r


def eqz_norm(ykind):
    """change of variables: the first component of x is written as d - (the rest of the difference), the dealer's random
    value as c - d, for new variables d and c; a bijection for any values of the other components"""
    def f(g, I, i):
        m = {}
        get = lambda pre: sorted({a for a in atoms(g, lambda x: x.op == 'app' and x.args[0].startswith(pre))}, key=lambda a: a.args[0])
        xs, ys, rs = get('x#'), get('y#') if ykind == 'a' else [a for a in get('y') if a.args[0] == 'y'], get('priv.')
        if len(xs) != 3 or len(rs) != 1 or len({a.args[1].id for a in xs + ys + rs}) != 1:
            return g
        w = xs[0].w
        d, c = var('dif', w), var('opened', w)
        rest = const(0, w)
        for a in xs[1:]:
            rest = add(rest, a)
        for a in ys:
            rest = sub(rest, a)
        return TM.subst(TM.subst(g, {rs[0]: sub(c, d)}), {xs[0]: sub(d, rest)})
    f.full = True
    return f
