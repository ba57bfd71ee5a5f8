"""P29: bit circuits (mpc/ab_api.cc, mpc/utils/circuits.h) compute their function when their gates do."""
import sys
from ..kernels import *
from .. import stdlib as SL
from ..bdd import Bdd

TRUSTED = ['gates (xor, and, shifts, constants) compute exactly on the words they are given and declare the number of bits the kernels of the additive and of the replicated protocol declare (their own properties)',
           'spu::vmap applies its function to each pair of its lists', 'std::function calls the callable it holds']
ASSUMPTIONS = ['operands have no bits set above their declared number of bits',
               'optional dispatch to a protocol-specific kernel (add_bb, bitintl_b, bitdeintl_b) is not taken here: the kernels are verified with their protocol']
FILES = ['mpc/ab_api.cc', '/verif/harness/h_circ.cc', 'core/type.cc', 'core/type_util.cc', 'core/shape.cc', 'core/bit_utils.cc', '/verif/harness/h_types.cc']
EXPLANATION = 'The number of bits is concrete in each obligation (every width a word can have is enumerated), the operands are arbitrary.'


def back(nb):
    for w in (8, 16, 32, 64, 128):
        if nb <= w:
            return w
    raise Throw('too many bits')


class Words:
    """table of words: bit functions (least significant first) and the declared number of bits; a value in the interpreted code is
    the number of its entry"""

    def __init__(self, w, shrink):
        self.b = Bdd()
        self.w, self.shrink = w, shrink
        self.tab = []

    def new(self, bits, nb):
        ow = back(nb) if self.shrink else self.w
        bits = (list(bits) + [0] * ow)[:ow]
        self.tab.append((tuple(bits), nb))
        return const(len(self.tab) - 1, 64)

    def get(self, t):
        if not isinstance(t, T) or not is_c(t):
            raise Unsupported('circuit value %r' % (t,))
        return self.tab[cval(t)]

    def input(self, off, n, nb):
        return self.new([self.b.var(2 * i + off) for i in range(n)], nb)

    def xor(self, x, y):
        (a, n), (b, m) = self.get(x), self.get(y)
        k = max(len(a), len(b))
        return self.new([self.b.xor(p, q) for p, q in zip(pad(a, k), pad(b, k))], max(n, m))

    def and_(self, x, y):
        (a, n), (b, m) = self.get(x), self.get(y)
        return self.new([self.b.and_(p, q) for p, q in zip(a, b)], min(n, m))

    def andp(self, x, v):
        a, n = self.get(x)
        return self.new([p if v >> i & 1 else 0 for i, p in enumerate(a)], min(n, min(v & ((1 << self.w) - 1), (1 << 128) - 1).bit_length()))

    def shl(self, x, k):
        a, n = self.get(x)
        return self.new([0] * k + list(a), min(n + k, self.w))

    def shr(self, x, k):
        a, n = self.get(x)
        return self.new(list(a[k:]), n - min(n, k))

    def setn(self, x, n):
        a, _ = self.get(x)
        return self.new(a, n)

    def add(self, x, y, n):
        """the sum of the low n bits, n + 1 bits"""
        B = self.b
        a, b = self.get(x)[0], self.get(y)[0]
        a, b = pad(a, n), pad(b, n)
        c, out = 0, []
        for p, q in zip(a[:n], b[:n]):
            h = B.xor(p, q)
            out.append(B.xor(h, c))
            c = B.xor(B.and_(p, q), B.and_(h, c))
        return out + [c]

    def same(self, got, want, what):
        """the functions agree; a differing input otherwise"""
        for i, (g, e) in enumerate(zip(got, want)):
            d = self.b.xor(g, e)
            if d:
                m = self.b.sat(d)
                x = sum(v << (k >> 1) for k, v in m.items() if k % 2 == 0)
                y = sum(v << (k >> 1) for k, v in m.items() if k % 2 == 1)
                return '%s (bit %d)' % (what, i), not_(and_(eq(var('x', 128), const(x, 128)), eq(var('y', 128), const(y, 128))))
        return what, TRUE


def pad(a, n):
    return (list(a) + [0] * n)[:max(n, len(a))] if len(a) < n else list(a)


def cint(t):
    t = t if isinstance(t, int) else t
    if not is_c(t):
        raise Unsupported('symbolic circuit parameter')
    return cval(t)


def tasks(tier):
    P = load_program(FILES)
    out = []

    def install(I, Wd):
        get = lambda I, x: I.unbase(I.rv(x))

        def gv(t):
            return Obj(None, {'h': t})

        def h(I, x):
            x = get(I, x)
            return x.f['h'] if type(x) is Obj else x
        O = I.overrides
        O['vh::gxor'] = lambda I, c: gv(Wd.xor(h(I, c.args[0]), h(I, c.args[1])))
        O['vh::gand'] = lambda I, c: gv(Wd.and_(h(I, c.args[0]), h(I, c.args[1])))
        O['vh::gshl'] = lambda I, c: gv(Wd.shl(h(I, c.args[0]), cint(c.val(1))))
        O['vh::gshr'] = lambda I, c: gv(Wd.shr(h(I, c.args[0]), cint(c.val(1))))
        O['vh::gnbits'] = lambda I, c: gv(Wd.setn(h(I, c.args[0]), cint(c.val(1))))
        O['vh::gconst'] = lambda I, c: gv(Wd.new([cint(c.val(1)) >> i & 1 for i in range(Wd.w)], Wd.w))
        # the value layer
        O['spu::Value::Value'] = lambda I, c: get(I, c.args[0]) if c.args else const(0, 64)
        from .P31 import valset
        O['spu::Value::operator='] = valset
        O['spu::SPUContext::hasKernel'] = lambda I, c: FALSE
        for nm in ('id', 'pid', 'lctx', 'prot'):
            O['spu::SPUContext::' + nm] = lambda I, c: c64(0)
        O['spu::getTracer'] = lambda I, c: c64(0)
        for nm in ('TraceAction', '~TraceAction'):
            O['spu::TraceAction::' + nm] = lambda I, c: None
        O['spu::Value::numel'] = lambda I, c: var('numel', 64)
        O['spu::Value::shape'] = lambda I, c: ashape()
        N = 'spu::mpc::'
        two = lambda f: (lambda I, c: f(get(I, c.args[1]), get(I, c.args[2])))
        O[N + 'xor_bb'] = two(Wd.xor)
        O[N + 'and_bb'] = two(Wd.and_)
        O[N + 'and_bp'] = lambda I, c: Wd.andp(get(I, c.args[1]), pub(I, c.args[2]))
        sh = lambda f: (lambda I, c: f(get(I, c.args[1]), amount(I, c.args[2])))
        O[N + 'lshift_b'] = sh(Wd.shl)
        O[N + 'rshift_b'] = sh(Wd.shr)
        O[N + 'numBits'] = lambda I, c: const(Wd.get(get(I, c.args[0]))[1], 64)
        O[N + 'setNumBits'] = lambda I, c: Wd.setn(get(I, c.args[0]), cint(c.val(1)))
        O[N + 'hack_make_p'] = lambda I, c: Pub(cint(c.val(1)))

        def pub(I, x):
            x = get(I, x)
            if type(x) is not Pub:
                raise Unsupported('public operand %r' % (x,))
            return x.v

        def amount(I, x):
            k = get(I, x)
            if type(k) is not Vec or len(k.items) != 1:
                raise Unsupported('shift amounts')
            return cint(I.rv(k.items[0]))
        O['spu::Value::storage_type'] = lambda I, c: Bty(c.this if c.this is not None else c.args[0])
        O['spu::vmap'] = lambda I, c: vm(I, c)

        def vm(I, c):
            from ..protocol import c_items
            xs, ys = c_items(I, c.val(0)), c_items(I, c.val(1))
            I.require('vmap: lists of equal length', boolt(len(xs) == len(ys)))
            f = I.rv(c.args[2])
            return Vec([I.rv(I.call_value(f, [LV(Cell(I.rv(x))), LV(Cell(I.rv(y)))])) for x, y in zip(xs, ys)])

        def tycall(name):
            def hh(I, o, c):
                if name == 'as':
                    return Ptr(Cell(o), None)
                v = get(I, o.lv)
                if name == 'nbits':
                    return const(Wd.get(v)[1], 64)
                if name == 'setNbits':
                    I.setc(o.lv.c, o.lv.k, Wd.setn(v, cint(c.val(0))))
                    return None
                raise Unsupported('type member ' + name)
            return hh
        ARRCLS[Bty] = tycall

    def run1(label, w, shrink, fname, inputs, extra, post):
        def run(ctx):
            I = make_interp(P)
            sys.setrecursionlimit(100000)
            Wd = Words(w, shrink)
            install(I, Wd)
            st = {}
            cls = fname.startswith('vh::')

            def call(I):
                ins = st['in'] = [Wd.input(o, n, nb) for o, n, nb in inputs]
                args = [LV(Cell(Obj(None, {'h': x}) if cls else x)) for x in ins] + [LV(Cell(x)) for x in extra]
                if not cls:
                    args = [LV(Cell(Ptr(Cell(Obj(None)), None)))] + args
                r = I.unbase(I.rv(I.invoke(fn_named(P, fname), args, None, None)))
                return r.f['h'] if cls else r

            def pst(I, r):
                r = I.unbase(I.rv(r)) if not isinstance(r, T) else r
                yield from post(Wd, st['in'], Wd.get(r))
            ctx.run(I, call, pst, throws_ok=FALSE)
        out.append(Task(label, run))


    def bits(r, n):
        return pad(r[0], n)[:n]

    def group(w, shrink):
        kind = 'words shrink to the declared bits' if shrink else '%d-bit words' % w
        tag = '[%s, %d-bit ring]' % (kind, w) if shrink else '[%s]' % kind
        for n in ([w] if not shrink else range(1, w + 1)):
            def sum_(n):
                def post(Wd, ins, r):
                    yield Wd.same(bits(r, n), Wd.add(ins[0], ins[1], n)[:n], 'sum of the %d-bit operands' % n)
                    yield 'declared number of bits covers the sum', boolt(r[1] >= n)
                run1('add_bb of %d bits %s' % (n, tag), w, shrink, 'spu::mpc::add_bb', [(0, n, n), (1, n, n)], [], post)
                run1('ppa_kogge_stone of %d bits %s' % (n, tag), w, shrink, 'spu::mpc::(anonymous namespace)::ppa_kogge_stone', [(0, n, n), (1, n, n)], [c64(n)], post)
                if n & (n - 1) == 0:
                    run1('ppa_sklansky of %d bits %s' % (n, tag), w, shrink, 'spu::mpc::(anonymous namespace)::ppa_sklansky', [(0, n, n), (1, n, n)], [c64(n)], post)
            sum_(n)
        for k in sorted({x for m in range(8) for x in (2 ** m, 2 ** m - 1) if 1 <= x <= w}):     # other widths are refused by the code
            def carry(k):
                def post(Wd, ins, r):
                    yield Wd.same(bits(r, 1), [Wd.add(ins[0], ins[1], k)[k]], 'carry out of the low %d bits' % k)
                    if k >= w - 1 and w > 1:
                        yield Wd.same(list(r[0])[1:], [0] * len(r[0]), 'no other bit is set')
                run1('carry_a2b out of %d bits %s' % (k, tag), w, shrink, 'spu::mpc::carry_a2b', [(0, w, w), (1, w, w)], [c64(k)], post)
            carry(k)
        nb = 1
        while nb <= w:
            for stride in range(0, nb.bit_length()):
                def shuffle(nb, stride):
                    def expect(Wd, x, intl):
                        a = pad(Wd.get(x)[0], nb)
                        lv = nb.bit_length() - 1
                        if stride >= lv:
                            return a[:nb]
                        r = [0] * nb
                        for i in range(nb):
                            lo, j = i & ((1 << stride) - 1), i >> stride
                            q = ((j & 1) << (lv - stride - 1) | j >> 1) << stride | lo
                            if intl:
                                r[i] = a[q]
                            else:
                                r[q] = a[i]
                        return r
                    for nm, intl in (('bitintl_b', True), ('bitdeintl_b', False)):
                        def post(Wd, ins, r, nm=nm, intl=intl):
                            yield Wd.same(bits(r, nb), expect(Wd, ins[0], intl), 'bits move to their places')
                            yield 'declared number of bits is kept', boolt(r[1] == nb)
                        run1('%s of %d bits, stride %d %s' % (nm, nb, stride, tag), w, shrink, 'spu::mpc::' + nm, [(0, nb, nb)], [c64(stride)], post)
                shuffle(nb, stride)
            nb *= 2
    for w in (32, 64, 128):
        group(w, False)
        group(w, True)

    def lib(w):
        tag = '[circuit library, %d-bit words]' % w
        ns = range(1, w + 1)
        for n in ns:
            def at(n):
                def sum_(Wd, ins, r):
                    yield Wd.same(bits(r, n), Wd.add(ins[0], ins[1], n)[:n], 'sum of the %d-bit operands' % n)

                def carry(Wd, ins, r):
                    yield Wd.same(bits(r, 1), [Wd.add(ins[0], ins[1], n)[n]], 'carry out of the low %d bits' % n)
                    yield Wd.same(list(r[0])[1:], [0] * len(r[0]), 'no other bit is set')

                def split(Wd, ins, r):
                    a = pad(Wd.get(ins[0])[0], n)[:n]
                    yield Wd.same(bits(r, n), a[0::2] + a[1::2], 'even bits below, odd bits above')
                two = [(0, n, w), (1, n, w)]
                run1('kogge_stone of %d bits %s' % (n, tag), w, False, 'vh::c_kogge', two, [c64(n)], sum_)
                run1('sklansky of %d bits %s' % (n, tag), w, False, 'vh::c_sklansky', two, [c64(n)], sum_)
                run1('carry_out of %d bits %s' % (n, tag), w, False, 'vh::c_carry', two, [c64(n)], carry)
                if n % 2 == 0:
                    run1('odd_even_split of %d bits %s' % (n, tag), w, False, 'vh::c_split', [(0, n, w)], [c64(n)], split)
            at(n)
    for w in (32, 64, 128):
        lib(w)
    return out


class Pub(Container):
    """a public constant, the same at every element"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v
        self.seq = nextseq()

    def copy(self, I):
        return self


class Bty(Container):
    """the element type of a value"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv
        self.seq = nextseq()

    def copy(self, I):
        return self
