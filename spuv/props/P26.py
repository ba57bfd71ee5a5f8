"""P26: truncation kernels of the semi-honest protocols (mpc/{semi2k,aby3,securenn}/arithmetic.cc)."""
from .. import semi2k as S2
from .. import aby3 as A3
from ..semi2k import *
from ..protosrc import proto
from . import P17
from .P21 import FILES21, NS21

TRUSTED = ['NdArrayRef/NdArrayView addressing, ring primitives, allReduce/reduce/sendAsync/recv: by contract (each its own property)',
           'the dealer hands out sharings of a random word and of its shifted word, top bit (its own property)',
           'pairwise generators agree (its own property)', 'mul_vv called from the one-bit-error truncation: shares of the product of the two owners\' values']
ASSUMPTIONS = ['element counts below 2^40', 'shift amounts from 1 to the ring width - 3, those listed per task',
               'share-local truncation (trunc_a with two parties, and its replicated form): the two signed words that are shifted do not overflow when added and the negated one is not the most negative word; for uniformly random sharings of x this fails with probability |x|/2^(k-1)',
               'probabilistic truncation: -2^(k-2) <= x < 2^(k-2); with a sign hint the value has that sign']


def natives(tier):
    for p in ('semi2k', 'aby3', 'securenn'):
        yield proto(p, 8)


def amounts(w, tier):
    base = {1, 2, 8, 18, 31, 32, 33, 64, w // 2, w - 3}
    if tier == 'thorough':
        base |= set(range(1, w - 2, 3))
    return sorted(b for b in base if 1 <= b <= w - 3)


def within(R, x, b, lo, hi):
    """R - (x >> b) in [lo, hi]"""
    w = x.w
    d = sub(sub(R, ashr(x, const(b, w))), const(lo, w))
    return ule(d, const(hi - lo, w))


def no_ovf(a, b):
    """the signed words do not overflow when added, and the second can be negated"""
    s, z = add(a, b), const(0, a.w)
    A, B, Sg = slt(a, z), slt(b, z), slt(s, z)
    return and_(not_(and_(A, B, not_(Sg))), not_(and_(not_(A), not_(B), Sg)), ne(b, const(1 << (a.w - 1), a.w)))


def decide(I, g):
    """conditions on the element's position alone, decided under the path condition"""
    for _ in range(4):
        cs = {u.args[0] for u in atoms(g, lambda u: u.op == 'ite')}
        cs = [c for c in cs if not is_c(c) and not atoms(c, lambda y: y.op == 'app')]
        m = {}
        for c in cs:
            if prove(c, list(I.pc), 'bv', 4000, cvc5=False).ok is True:
                m[c] = TRUE
            elif prove(not_(c), list(I.pc), 'bv', 4000, cvc5=False).ok is True:
                m[c] = FALSE
        if not m:
            return g
        g = TM.subst(g, m)
    return g


def domain(x):
    w = x.w
    return and_(not_(slt(x, const(-(1 << (w - 2)), w))), slt(x, const(1 << (w - 2), w)))


def change(g, xs, P0, i, w):
    """change of variables: the opened word and the sum of the two masks instead of the first component and the first mask"""
    ms = sorted(atoms(g, lambda y: y.op == 'app' and y.args[0].startswith('prss.') and y.args[1] is i), key=lambda a: a.args[0])
    ms = [a for a in ms if a.args[0] in ('prss.%d.0' % P0, 'prss.%d.0' % ((P0 + 2) % 3))]
    if len(ms) != 2:
        return g
    r, c = var('rsum', w), var('opened', w)
    g = TM.subst(g, {ms[0]: sub(r, ms[1])})
    return TM.subst(g, {xs[0]: sub(sub(sub(c, const(1 << (w - 2), w)), add(xs[1], xs[2])), r)})


def change2(g, i):
    """change of variables: one word of the masked product instead of the mask that is added to it"""
    for z in atoms(g, lambda u: u.op == 'zext'):
        A = z.args[0]
        for c in atoms(A, lambda u: u.op == 'app' and u.args[0].startswith('prss.') and u.args[1] is not i):
            rest = TM.subst(A, {c: const(0, c.w)})
            t = var('prod', c.w)
            if c.w == A.w and add(rest, c) is A:
                return split(TM.subst(g, {c: sub(t, rest)}), t)
            if c.w == A.w and sub(rest, c) is A:
                return split(TM.subst(g, {c: sub(rest, t)}), t)
    return g


def split(g, t):
    """zext(e - t) = zext(e) - zext(t) + [e < t] * 2^(width of t)"""
    for z in atoms(g, lambda u: u.op == 'zext' and u.args[0] is not t  and atoms(u.args[0], lambda y: y is t)):
        e = add(z.args[0], t)
        if atoms(e, lambda y: y is t):
            continue
        v = sub(zext(e, z.w), zext(t, z.w))
        g = TM.subst(g, {z: add(v, mul(ite(ult(e, t), const(1, z.w), const(0, z.w)), const(1 << t.w, z.w)))})
    return g


def mulvv(I, c):
    """contract of mul_vv: additive shares of the product of two private values of different owners"""
    so = I.unbase(I.rv(I.deref(c.val(0))))
    W, r = so.W, so.r
    ops = [c.val(1), c.val(2)]
    ms = [msg_of(I, x) for x in ops]
    own = []
    for x in ops:
        t = LV(Cell(I.copyval(x.ety.v)))
        I.require('mul_vv: private operands', hcall(I, 'is_priv', t))
        o = hcall(I, 'owner_of', t)
        if not is_c(o):
            raise Unsupported('symbolic owner')
        own.append(cval(o))
    I.require('mul_vv: different owners', boolt(own[0] != own[1]))
    k = W.site(r, 'gate mul_vv', tuple(own), ms)
    w = ms[0].w
    W.vals[k] = (mul, lambda i: [W.ph(k, own[j], j, i, w) for j in (0, 1)])

    def at(i):
        if r != W.n - 1:
            return app('mulvv%d@%d' % (k, r), [i], w)
        v = app('%%v.%d' % k, [i], w)
        return sub(v, comb('add', [app('mulvv%d@%d' % (k, p), [i], w) for p in range(W.n - 1)]))
    return res_arr(I, ops[0], at, w, 'mulvv', ety=aty(I, w))


SIGNS = {'unknown': 0, 'positive': 1, 'negative': 2}


def tasks(tier):
    P2 = load_program(FILES)
    out = []

    def group2(n, w, b):
        tag = ' by %d [%d parties, %d bits]' % (b, n, w)
        args = lambda I, W, p, a: a + [c64(b), const(0, 32)]
        X = In('x', 'a')

        def truncA(ctx):
            def more(I, W, V, outs, i):
                x = V['x'](i)
                if n == 2:
                    I.assume(no_ovf(app('x@0', [i], w), app('x@1', [i], w)))
                else:
                    r = app('tr0', [i], w)
                    I.assume(no_ovf(sub(x, r), r))
                R = W.resolve(W.tot)
                yield 'truncated value within one unit of the shifted value', within(R, x, b, -1, 1)
            kern(ctx, P2, 'TruncA', n, w, [X], None, args=args, more=more)
        out.append(Task('semi2k TruncA' + tag, truncA))

        def truncPr(cls):
            def run(ctx):
                def more(I, W, V, outs, i):
                    x = V['x'](i)
                    I.assume(domain(x))
                    R = W.resolve(W.tot)
                    yield 'truncated value within one unit of the shifted value', within(R, x, b, -1, 1)
                Xv = In('x', 'a')
                Xv.value = lambda i: sub(app('opened', [i], w), app('tr0', [i], w)) if cls == 'TruncAPr' else app('val', [i], w)

                def setup(I):
                    I.overrides['spu::mpc::mul_vv'] = mulvv
                kern(ctx, P2, cls, n, w, [Xv], None, args=args, more=more, setup=setup)
            return run
        out.append(Task('semi2k TruncAPr' + tag, truncPr('TruncAPr')))
        if n == 2:
            out.append(Task('semi2k TruncAPr2' + tag, truncPr('TruncAPr2')))
    PS = load_program(FILES21)
    PS.family = 'securenn'

    def groups(w, b):
        """the assisted three-party protocol"""
        X = In('x', 'z')
        R0 = lambda i: comb('add', [app('priv.%d.0' % p, [i], w) for p in range(3)])
        X.value = lambda i: sub(app('opened', [i], w), app('rsum', [i], w))

        def run(ctx):
            def more(I, W, V, outs, i):
                x = V['x'](i)
                I.assume(domain(x))
                last = app('priv.2.0', [i], w)
                ch = {last: sub(app('rsum', [i], w), add(app('priv.0.0', [i], w), app('priv.1.0', [i], w)))}
                yield 'truncated value within one unit of the shifted value', TM.subst(within(W.resolve(W.tot), x, b, -1, 1), ch)
                yield 'the assistant\'s share of the result is zero', eq(W.resolve(rd(I, outs[2], i, ())), const(0, w))
            kern(ctx, PS, 'TruncAPr', 3, w, [X], None, out='z', args=lambda I, W, p, a: a + [c64(b), const(0, 32)], more=more, ns=NS21)
        out.append(Task('securenn TruncAPr by %d [%d bits]' % (b, w), run))

    P3 = load_program(A3.FILES)

    def group3(w, b):
        def one(cls, pv, sg):
            X = A3.In('x', 'a')

            def run(ctx):
                def more(I, W, V, outs, i):
                    x = V['x'](i)
                    xs = [app('x#%d' % k, [i], w) for k in range(3)]
                    z = const(0, w)
                    if cls == 'TruncA':
                        dom = no_ovf(xs[0], add(xs[1], xs[2]))
                    else:
                        dom = and_(domain(x), (TRUE, not_(slt(x, z)), slt(x, z))[sg])
                    g = decide(I, or_(not_(dom), within(W.resolve(W.tot), x, b, -1, 1)))
                    if cls == 'TruncA':
                        g = TM.subst(g, {xs[1]: sub(var('rest', w), xs[2])})
                        yield 'truncated value within one unit of the shifted value', g
                        return
                    P0 = (pv if isinstance(pv, int) else cval(pv)) % 3
                    if cls == 'TruncAPr' and not sg:
                        g = change(g, xs, P0, i, w)
                    else:
                        g = TM.subst(change2(g, i), {xs[(P0 + 1) % 3]: sub(var('rest', w), xs[P0])})
                    yield 'truncated value within one unit of the shifted value', g
                A3.kern(ctx, P3, cls, w, [X], None, args=lambda I, W, p, a: a + [c64(b), const(sg, 32)], more=more, opts={'pivot': pv} if pv is not None else None,
                        assume=lambda I, W: (I.assume(ult(var('n.s', 40), const(1 << 34, 40))), I.assume(ne(var('n.s', 40), const(0, 40)))))
            out.append(Task('aby3 %s%s%s by %d [%d bits]' % (cls, '' if pv is None else ', pivot %d' % (pv if isinstance(pv, int) else cval(pv)), (', value of unknown sign', ', value not negative', ', value negative')[sg] if cls == 'TruncAPr' else '', b, w), run))
        one('TruncA', None, 0)
        for pv in (0, 1, 2, const((1 << 64) - 1, 64)):
            for sg in (0, 1, 2):
                one('TruncAPr', pv, sg)
            one('TruncAPr2', pv, 0)
    for w in (32, 64, 128):
        for b in amounts(w, tier):
            groups(w, b)
            group3(w, b)
    for n in (2, 3):
        for w in (32, 64, 128):
            for b in amounts(w, tier):
                group2(n, w, b)
    return out
