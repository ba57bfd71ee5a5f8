"""P27: one function per operation, whatever the visibility of the operands (kernel/hal/ring.cc, kernel/hal/prot_wrapper.cc, mpc/api.cc, mpc/ab_api.cc)."""
from ..protocol import *
from .. import protocol as PR
from .. import semi2k as S2
from ..protosrc import sources
from ..check import Native
from .. import terms as TM, arr as AR, stdlib as SL

TRUSTED = ['dynDispatch/tiledDynDispatch: the registered kernel of that name computes the function its name says, on operands of the kinds its name says (for the kernels of the shipped protocols: P14, P16-P20, P25, P26)',
           'tracing has no effect on values', 'an array is represented by a word: element-wise operations act on it word by word, matrix product and transposition by (xy)^T = y^T x^T']
ASSUMPTIONS = ['a Boolean share of one bit holds 0 or 1', 'share types: those of semi2k (any share types derived from AShare / BShare take the same branches)']
FILES = BASE + ['/verif/harness/h_types.cc', '/verif/harness/h_semi2k.cc', 'mpc/semi2k/type.cc', 'core/type_util.cc', 'core/value.cc', 'mpc/api.cc', 'mpc/ab_api.cc', 'mpc/kernel.cc', 'kernel/hal/ring.cc', 'kernel/hal/prot_wrapper.cc']
FILES = list(dict.fromkeys(FILES))
hcall = RS.hcall
MP, HL = 'spu::mpc::', 'spu::kernel::hal::'


def natives(tier):
    yield Native('dispatch', sources('core', 'mpc', 'mpc/common', 'mpc/utils') + ['mpc/semi2k/type.cc', 'kernel/hal/ring.cc', 'kernel/hal/prot_wrapper.cc'], ms_quick=10000, opt='-O0')
    # blocked matrix product: the memory limit (256 MB in the tree) is the only text changed
    import os
    import re
    from .. import build
    t, k = re.subn(r'256UL\s*\*\s*1024\s*\*\s*1024', '400UL', open(build.REPO + '/src/libspu/kernel/hal/ring.cc').read())
    if k == 1:
        d = build.cachedir() + '/blocks'
        os.makedirs(d, exist_ok=True)
        open(d + '/ring_small_blocks.cc', 'w').write(t)
        yield Native('dispatch_blocks', sources('core', 'mpc', 'mpc/common', 'mpc/utils') + ['mpc/semi2k/type.cc', 'kernel/hal/prot_wrapper.cc'], main=build.VERIF + '/native/dispatch.cc', ms_quick=8000, opt='-O0',
                     extra=['-DRING_CC="%s/ring_small_blocks.cc"' % d])


class VV(Container):
    """a spu::Value: its (real) storage type and the plaintext it stands for"""

    def __init__(self, ty, t):
        self.ty, self.t = Cell(ty), t
        self.seq = nextseq()

    def copy(self, I):
        return VV(I.copyval(self.ty.v), self.t)


def T_(t):
    if t.op == 'app' and t.args[0] == 'T':
        return t.args[1]
    if t.op == 'app' and t.args[0] == 'mmul':
        return app('mmul', [T_(t.args[2]), T_(t.args[1])], t.w)
    return app('T', [t], t.w)


def boolw(c, w):
    return ite(c, const(1, w), const(0, w))


BIN = {'add': lambda x, y: add(x, y), 'mul': lambda x, y: mul(x, y), 'and': lambda x, y: band(x, y), 'xor': lambda x, y: bxor(x, y),
       'equal': lambda x, y: boolw(eq(x, y), x.w), 'mmul': lambda x, y: app('mmul', [x, y], x.w),
       'perm': lambda x, y: app('perm', [x, y], x.w), 'inv_perm': lambda x, y: app('inv_perm', [x, y], x.w)}
UN = {'negate': lambda x: sub(const(0, x.w), x), 'not': lambda x: bxor(x, const((1 << x.w) - 1, x.w)), 'msb': lambda x: TM.build('lshr', (x, const(x.w - 1, x.w)), x.w),
      'square': lambda x: mul(x, x)}


def conv(I, k, w, owner=None, nb=None):
    """a type of the given kind"""
    if k == 'p':
        return S2.pubty(I, w)
    if k == 'v':
        return S2.privty(I, w, owner)
    if k == 'a':
        return S2.aty(I, w)
    return S2.bty(I, w, w if nb is None else nb)


def kind(I, ty):
    lvt = lambda: LV(Cell(I.copyval(ty)))
    for k, f in (('p', 'is_pub'), ('v', 'is_priv'), ('a', 'is_semi2k_a'), ('b', 'is_semi2k_b')):
        r = hcall(I, f, lvt())
        if r is not TRUE and r is not FALSE:
            raise Unsupported('kind of a value: %s %r' % (f, r))
        if r is TRUE:
            return k
    raise Unsupported('kind of a value')


def owner_of(I, ty):
    r = hcall(I, 'owner_of', LV(Cell(I.copyval(ty))))
    if not is_c(r):
        raise Unsupported('owner of a value')
    return cval(r)


def install(I, w):
    O = I.overrides
    g = lambda x: I.unbase(I.rv(x))

    def val(x):
        x = g(x)
        if type(x) is not VV:
            raise Unsupported('operand %r' % (x,))
        return x

    def word(x):
        x = g(x)
        if type(x) is Vec:
            if len(x.items) != 1:
                raise Unsupported('list of amounts')
            x = I.rv(x.items[0])
        return TM.zext(x, w) if x.w < w else TM.trunc(x, w) if x.w > w else x

    def need(nm, x, kinds, what='operand'):
        k = kind(I, x.ty.v)
        I.require('%s: %s is %s' % (nm, what, {'a': 'an arithmetic share', 'b': 'a Boolean share', 'p': 'public', 'v': 'private', 'ab': 'secret'}[kinds]), boolt(k in kinds))
        return k

    def kernel(name, args):
        mk = lambda k, t, o=None, nb=None: VV(conv(I, k, w, o, nb), t)
        if name == 'make_p':
            return mk('p', TM.trunc(args_u(args[0]), w) if args_u(args[0]).w > w else args_u(args[0]))
        if name in ('transpose',):
            x = val(args[0])
            return VV(I.copyval(x.ty.v), T_(x.t))
        if name == 'common_type_b':
            return conv(I, 'b', w)
        if name == 'cast_type_s':
            x = val(args[0])
            need(name, x, 'ab')
            return VV(I.copyval(g(args[1])), x.t)
        if name == 'common_type_s':
            ks = [kind(I, I.copyval(g(a))) for a in args[:2]]
            return conv(I, 'a' if 'a' in ks else 'b', w)
        if name == 'cast_type_b':
            x = val(args[0])
            need(name, x, 'b')
            return VV(I.copyval(g(args[1])), x.t)
        if name in ('p2s', 'p2a', 'p2b', 'v2s', 'v2a', 'v2p', 's2p', 'a2p', 'b2p', 'a2b', 'b2a', 'p2v', 's2v', 'a2v', 'b2v'):
            x = val(args[0])
            need(name, x, {'s': 'ab'}.get(name[0], name[0]))
            if name[2] == 'v':
                o = g(args[1])
                if not is_c(o):
                    raise Unsupported('symbolic owner')
                return mk('v', x.t, cval(o))
            return mk({'s': 'a'}.get(name[2], name[2]), x.t)
        if name == 'msb_a2b':
            x = val(args[0])
            need(name, x, 'a')
            return mk('b', UN['msb'](x.t), None, 1)
        op, _, ks = name.rpartition('_')
        S = {'s': 'ab', 'm': 'ab'}
        if op in UN and len(ks) == 1:
            x = val(args[0])
            k = need(name, x, S.get(ks, ks))
            return VV(I.copyval(x.ty.v), UN[op](x.t)) if op != 'msb' or ks != 's' else mk('b', UN[op](x.t))
        if op in ('lshift', 'rshift', 'arshift', 'trunc', 'bitrev') and len(ks) == 1:
            x = val(args[0])
            need(name, x, S.get(ks, ks))
            return VV(conv(I, 'b', w) if kind(I, x.ty.v) == 'b' else I.copyval(x.ty.v), shiftspec(op, x.t, [word(a) for a in args[1:]]))
        if op in BIN or name == 'mul_a1b':
            x, y = val(args[0]), val(args[1])
            if name == 'mul_a1b':
                need(name, x, 'a', 'first operand')
                need(name, y, 'b', 'second operand')
                I.require('mul_a1b: one bit', eq(hcall(I, 'nbits_of', LV(Cell(I.copyval(y.ty.v)))), c64(1)))
                return mk('a', mul(x.t, y.t))
            ka = need(name, x, S.get(ks[0], ks[0]), 'first operand')
            kb = need(name, y, S.get(ks[1], ks[1]), 'second operand')
            t = BIN[op](x.t, y.t)
            if ka == kb == 'v':
                same = owner_of(I, x.ty.v) == owner_of(I, y.ty.v)
                if ks == 'vvs':
                    I.require(name + ': different owners', boolt(not same))
                    return mk('a', t)
                if ks in ('vvv', 'vv'):
                    I.require(name + ': one owner', boolt(same))
                    return VV(I.copyval(x.ty.v), t)
                raise Unsupported('kernel ' + name)
            if len(ks) != 2:
                raise Unsupported('kernel ' + name)
            if {ka, kb} <= {'p'}:
                return mk('p', t)
            if {ka, kb} <= {'p', 'v'}:
                return VV(I.copyval((x if ka == 'v' else y).ty.v), t)
            return mk('b' if 'b' in ks or op in ('and', 'xor', 'equal') else 'a', t)
        raise Unsupported('kernel ' + name)

    def args_u(x):
        return I.rv(x)

    O['spu::dynDispatch'] = lambda I, c: kernel(name_of(I, c.args[1]), c.args[2:])
    O[MP + 'tiledDynDispatch'] = lambda I, c: kernel(name_of(I, c.args[0]), c.args[2:])
    O['spu::SPUContext::hasKernel'] = lambda I, c: eq(var('has.' + name_of(I, c.args[0]), 1), const(1, 1))
    O['spu::SPUContext::getField'] = lambda I, c: fmval(I.P, w)
    O['spu::SPUContext::getFxpBits'] = lambda I, c: var('fxp', 64)
    for nm in ('id', 'pid', 'lctx', 'prot'):
        O['spu::SPUContext::' + nm] = lambda I, c: c64(0)
    O['spu::getTracer'] = lambda I, c: c64(0)
    for nm in ('TraceAction', '~TraceAction'):
        O['spu::TraceAction::' + nm] = lambda I, c: None
    O['spu::Value::Value'] = lambda I, c: g(c.args[0]).copy(I) if c.args else VV(None, None)
    from .P31 import valset
    O['spu::Value::operator='] = valset
    O['spu::Value::~Value'] = lambda I, c: None
    this = lambda c: val(c.this if c.this is not None else c.args[0])
    O['spu::Value::storage_type'] = lambda I, c: LV(this(c).ty)
    O['spu::Value::shape'] = lambda I, c: ashape()
    O['spu::Value::numel'] = lambda I, c: var('numel', 64)
    O['spu::Value::dtype'] = lambda I, c: var('dtype', 32)
    O['spu::Value::setDtype'] = lambda I, c: c.this


def name_of(I, x):
    s = I.unbase(I.rv(x))
    if isinstance(s, str):
        return s
    raise Unsupported('kernel name %r' % (s,))


def shiftspec(op, x, amts):
    return app('%s' % op, [x] + amts, x.w) if op != 'rshift' else TM.build('lshr', (x, amts[0]), x.w)


def tasks(tier):
    P = load_program(FILES)
    out = []

    def base(w):
        I = PR.mk(P, 2, w)
        I.cur = None
        install(I, w)
        return I

    def operand(I, w, nm, k):
        """k: p, v0, v1, a, b1, bn (any number of bits), b (all bits)"""
        x = var(nm, w)
        if k == 'b1':
            return VV(conv(I, 'b', w, None, 1), zext(var(nm, 1), w))
        if k == 'bn':
            nb = zext(var('nbits.' + nm, 8), 64)
            I.assume(ult(c64(1), nb))
            I.assume(ult(nb, c64(w + 1)))
            return VV(conv(I, 'b', w, None, nb), x)
        return VV(conv(I, k[0], w, int(k[1:] or 0)), x)

    def vis(ks):
        if any(k[0] in 'ab' for k in ks):
            return 's'
        o = {k[1:] for k in ks if k[0] == 'v'}
        return 's' if len(o) > 1 else 'v' + o.pop() if o else 'p'

    def task(w, fname, ks, extra, spec, want=None, optional=False, typearg=None):
        def run(ctx):
            I = base(w)
            fn = fn_named(P, fname)

            def call(I):
                I.g_ops = [operand(I, w, 'xy'[i], k) for i, k in enumerate(ks)]
                return I.invoke(fn, [LV(Cell(Ptr(Cell(Obj(None)), None)))] + [LV(Cell(o)) for o in I.g_ops] + [LV(Cell(e)) for e in extra], None, None)

            def post(I, r):
                r = I.unbase(I.rv(r))
                if optional and type(r) is SL.Opt:
                    if r.has is FALSE:
                        return
                    if r.has is not TRUE:
                        I.assume(r.has)
                    r = I.unbase(I.rv(r.v))
                if type(r) is not VV:
                    raise Unsupported('result %r' % (r,))
                yield 'the function of the plaintexts', eq(r.t, spec(*[o.t for o in I.g_ops]))
                v = want or vis(ks)
                k = kind(I, r.ty.v)
                yield 'visibility of the result', boolt({'a': 's', 'b': 's'}.get(k, k) == v[0] and (k != 'v' or owner_of(I, r.ty.v) == int(v[1:])))
            ctx.run(I, call, post, throws_ok=None)
        out.append(Task('%s(%s), %d bits' % (fname.split('::')[-1], ', '.join(ks), w), run))

    def evaluate(cls):
        # what a kernel is given is what it was called with, in order; what it returns is what the caller gets
        def run(ctx):
            I = base(64)
            fn = fn_named(P, MP + cls + '::evaluate')
            st = dict(out=[], calls=[])
            lists = cls in ('MergeKeysKernel', 'GroupMarkKernel', 'ConcateKernel', 'MultiKeyLowMcKernel')

            class Tok(Container):
                def __init__(self, what):
                    self.what = what
                    self.seq = nextseq()

                def copy(self, I):
                    return Tok(self.what)

                def get(self, k):
                    raise Unsupported('field %s of parameter' % k)

            def tokm(nm):
                def h(I, o, c):
                    if nm in ('data', 'as'):
                        return LV(Cell(o))
                    if nm == 'size':
                        return c64(2)
                    if nm == 'ndim':
                        return c64(1)
                    return NotImplemented
                return h
            AR.ARRCLS[Tok] = tokm
            g = lambda x: I.unbase(I.rv(x))
            word = lambda w_: lambda k: var('arg%d' % k, w_)

            def param(I, c):
                k = c.val(0)
                if not is_c(k):
                    raise Unsupported('parameter number')
                k = cval(k)
                ty = (c.ty.s if c.ty is not None else '').replace('const ', '').replace('&', '').strip()
                st.setdefault('asked', {})[k] = ty
                if k not in st['par']:
                    if lists and k == 0:
                        st['par'][k] = Vec([Tok('arg0.%d' % j) for j in range(3)])
                    elif ty.endswith('Value') or ty in ('spu::Shape', 'spu::Sizes', 'spu::Axes', 'spu::Index', 'spu::Strides', 'spu::Type', 'Shape', 'Sizes', 'Axes', 'Index', 'Strides', 'Type'):
                        st['par'][k] = Tok('arg%d' % k)
                    elif ty == 'bool':
                        st['par'][k] = eq(var('arg%d' % k, 1), const(1, 1))
                    else:
                        st['par'][k] = var('arg%d' % k, 32 if 'SignType' in ty else 64)
                return LV(Cell(st['par'][k]))
            st['par'] = {}
            I.overrides['spu::KernelEvalContext::getParam'] = param
            I.overrides['spu::KernelEvalContext::pushOutput'] = lambda I, c: st['out'].append(g(c.args[0]))
            I.overrides['spu::Value::Value'] = lambda I, c: g(c.args[0]) if c.args else Tok('none')
            I.overrides['spu::NdArrayRef::NdArrayRef'] = lambda I, c: g(c.args[0]) if c.args else Tok('none')
            from .P31 import valset
            I.overrides['spu::NdArrayRef::operator='] = valset
            I.overrides[MP + 'UnwrapValue'] = lambda I, c: g(c.args[0])
            I.overrides[MP + 'WrapValue'] = lambda I, c: g(c.args[0])
            I.overrides['spu::Value::data'] = lambda I, c: LV(Cell(g(c.this)))
            I.overrides['spu::Value::shape'] = lambda I, c: Shp(I, c)
            I.overrides['spu::Value::numel'] = lambda I, c: var('numel', 64)

            def Shp(I, c):
                return Vec([var('rows', 64), var('cols', 64)]) if cls in ('OramReadKernel', 'MatmulKernel') else Vec([var('rows', 64)]) if 'Oram' in cls else ashape()

            def proc(I, c):
                st['calls'].append([g(x) for x in c.args[1:]])
                return Vec([Tok('res.%d' % j) for j in range(2)]) if cls == 'DisassembleKernel' else Tok('res')
            I.overrides[MP + cls + '::proc'] = proc

            def show(x):
                return x.what if type(x) is Tok else x if isinstance(x, (T, bool)) else [show(g(y)) for y in PR.c_items(I, x)]

            def call(I):
                return I.invoke(fn, [LV(Cell(Ptr(Cell(Obj(None)), None)))], LV(Cell(Obj(P.recs.get(fn.rec) or None, {}))), None)

            def post(I, r):
                yield 'the kernel runs once', boolt(len(st['calls']) == 1)
                if len(st['calls']) != 1:
                    return
                want = [show(st['par'][k]) for k in sorted(st['par'])]
                got = [show(x) for x in st['calls'][0]]
                yield 'all parameters from the first on are used', boolt(sorted(st['par']) == list(range(len(got))))
                for k, (a, b) in enumerate(zip(want, got)):
                    yield 'argument %d is parameter %d' % (k, k), eq(a, b) if isinstance(a, T) and isinstance(b, T) and a.w == b.w else boolt(a == b)
                yield 'the result is what the kernel computed', boolt([show(x) for x in st['out']] == [['res.0', 'res.1'] if cls == 'DisassembleKernel' else 'res'])
            ctx.run(I, call, post, throws_ok=TRUE if cls in ('ShiftKernel', 'BinaryKernel', 'PermKernel', 'GenInvPermKernel', 'MatmulKernel', 'OramOneHotKernel', 'OramReadKernel') else None)
        out.append(Task('%s::evaluate' % cls, run))
    for cls in ('RandKernel', 'UnaryKernel', 'RevealToKernel', 'ShiftKernel', 'BinaryKernel', 'MatmulKernel', 'Conv2DKernel', 'BitrevKernel', 'TruncAKernel', 'BitSplitKernel', 'CastTypeKernel', 'PermKernel', 'GenInvPermKernel',
                'MergeKeysKernel', 'GroupMarkKernel', 'BroadcastKernel', 'DimsBasedKernel', 'ShapeBasedKernel', 'ExtractSliceKernel', 'UpdateSliceKernel', 'PadKernel', 'ConcateKernel', 'DisassembleKernel', 'OramOneHotKernel', 'OramReadKernel', 'MultiKeyLowMcKernel'):
        evaluate(cls)

    def common(w, x, y):
        def run(ctx):
            I = base(w)
            fn = fn_named(P, HL + '_common_type')

            def call(I):
                o = [operand(I, w, 'xy'[i], k) for i, k in enumerate((x, y))]
                return I.invoke(fn, [LV(Cell(Ptr(Cell(Obj(None)), None)))] + [LV(Cell(I.copyval(a.ty.v))) for a in o], None, None)

            def post(I, r):
                k = kind(I, I.copyval(I.unbase(I.rv(r))))
                v = vis((x,) if x == y else (x, y))
                yield 'visibility of the common type', boolt({'a': 's', 'b': 's'}.get(k, k) == v[0])
                if v[0] == 'v':
                    yield 'owner', boolt(owner_of(I, I.copyval(I.unbase(I.rv(r)))) == int(v[1:]))
                if v == 's' and x[0] in 'ab' and y[0] in 'ab':
                    yield 'arithmetic as soon as one of them is', boolt(k == ('a' if 'a' in (x, y) else 'b'))
            ctx.run(I, call, post)
        if not (x[0] == 'v' and y[0] == 'v' and x != y):    # two owners: left to the protocol's common_type_v
            out.append(Task('_common_type(%s, %s), %d bits' % (x, y, w), run))

    def cast(w, x, y):
        def run(ctx):
            I = base(w)
            fn = fn_named(P, HL + '_cast_type')

            def call(I):
                I.g_x, o = operand(I, w, 'x', x), operand(I, w, 'y', y)
                I.g_to = I.copyval(o.ty.v)
                return I.invoke(fn, [LV(Cell(Ptr(Cell(Obj(None)), None))), LV(Cell(I.g_x)), LV(Cell(I.copyval(o.ty.v)))], None, None)

            def post(I, r):
                r = I.unbase(I.rv(r))
                yield 'the value stays', eq(r.t, I.g_x.t)
                k = kind(I, r.ty.v)
                if x[0] in 'ab' and y[0] in 'ab' or y[0] in 'pv':
                    yield 'the kind asked for', boolt(k == y[0] and (k != 'v' or owner_of(I, r.ty.v) == int(y[1:])))
                else:
                    yield 'the visibility asked for', boolt(k in 'ab')
            ctx.run(I, call, post)
        out.append(Task('_cast_type(%s to %s), %d bits' % (x, y, w), run))

    S = ('a', 'b1', 'bn', 'b')
    ALL = ('p', 'v0', 'v1') + S
    for w in (32, 64, 128):
        for op in ('add', 'mul', 'and', 'xor'):
            for x in ALL:
                for y in ALL:
                    task(w, HL + '_' + op, (x, y), [], BIN[op])
        for x in ALL:
            for y in ALL:
                task(w, HL + '_sub', (x, y), [], lambda a, b: sub(a, b))
                if P.byname.get(HL + '_mmul_impl'):     # internal helpers: reached natively as well
                    task(w, HL + '_mmul_impl', (x, y), [], BIN['mmul'])
                if P.byname.get(HL + '_equal_impl') and x[0] != 'v' and y[0] != 'v':
                    task(w, HL + '_equal_impl', (x, y), [], BIN['equal'], optional=True)
        for x in ALL:
            for op in ('not', 'negate', 'msb', 'square'):
                task(w, HL + '_' + op, (x,), [], UN[op])
            for op in ('lshift', 'rshift', 'arshift'):
                task(w, HL + '_' + op, (x,), [Vec([var('k', 64)])], lambda a, op=op: shiftspec(op, a, [wd(var('k', 64), a.w)]))
            task(w, HL + '_bitrev', (x,), [var('s', 64), var('e', 64)], lambda a: shiftspec('bitrev', a, [wd(var('s', 64), a.w), wd(var('e', 64), a.w)]))
            task(w, HL + '_trunc', (x,), [var('k', 64), var('sign', 32)], lambda a: shiftspec('trunc', a, [wd(ite(eq(var('k', 64), c64(0)), var('fxp', 64), var('k', 64)), a.w), wd(var('sign', 32), a.w)]))
        for f, ks, v in (('p2s', ('p',), 's'), ('s2p', S, 'p'), ('v2s', ('v0', 'v1'), 's'), ('v2p', ('v0', 'v1'), 'p')):
            for x in ks:
                task(w, MP + f, (x,), [], lambda a: a, want=v)
        for x in S:
            task(w, MP + 's2v', (x,), [c64(1)], lambda a: a, want='v1')
        task(w, MP + 'p2v', ('p',), [c64(1)], lambda a: a, want='v1')
        for x in ALL:
            for y in ALL:
                common(w, x, y)
                if x == y or y[0] in 'ab' or x == 'p':
                    cast(w, x, y)
    return out


def wd(t, w):
    return TM.zext(t, w) if t.w < w else TM.trunc(t, w) if t.w > w else t
