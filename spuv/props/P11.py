"""P11: runtime configuration completion (core/config.cc) and wire conversion (spu.cc)."""
from ..kernels import *
from .. import stdlib as SL
from ..check import Native

TRUSTED = ['protobuf generated accessors: set_x stores, x reads what was stored (zero / empty when nothing was), has_x tells whether the sub-message exists; parsing the serialised bytes gives the message back',
           'yacl::get_num_threads is positive']
ASSUMPTIONS = ['text fields are compared as opaque values', 'lists of names have 0 to 3 entries (bounded)']
FILES = ['core/config.cc', 'spu.cc', '/verif/harness/h_config.cc']


def natives(tier):
    yield Native('config', ['core/config.cc', 'spu.cc'], ms_quick=8000, san=True)


class PB(Container):
    """a protobuf message: what was stored in each field"""
    __slots__ = ('f',)

    def __init__(self, f=None):
        self.f = f or {}
        self.seq = nextseq()

    def get(self, k):
        return self.f.get(k, UNINIT)

    def put(self, k, v):
        self.f = dict(self.f)
        self.f[k] = v

    def copy(self, I):
        return PB({k: (v.copy(I) if type(v) is PB else Vec(list(v.items)) if type(v) is Vec else v) for k, v in self.f.items()})


class Bytes:
    def __init__(self, pb):
        self.pb = pb

    def copy(self, I):
        return self


def pbm(name):
    def h(I, o, c):
        n = name
        if n == 'SerializeAsString':
            return Bytes(o.copy(I))
        if n == 'ParseFromString':
            b = I.unbase(I.rv(c.args[0]))
            if type(b) is not Bytes:
                raise Unsupported('parse of %r' % (b,))
            ok = I.branch(var('parse_ok', 0))
            if ok:
                for k, v in b.pb.copy(I).f.items():
                    I.setc(o, k, v)
                return TRUE
            return FALSE
        for p in ('set_', 'mutable_', 'has_', 'add_', 'clear_'):
            if n.startswith(p) and not (p == 'set_' and not c.args):
                k = n[len(p):]
                if p == 'set_':
                    v = I.rv(c.args[0])
                    v = v if isinstance(v, T) else SL.render(I, v)
                    I.setc(o, k, v)
                    return None
                if p == 'mutable_':
                    if o.get(k) is UNINIT:
                        I.setc(o, k, PB())
                    return Ptr(o, k)
                if p == 'has_':
                    return boolt(o.get(k) is not UNINIT)
                if p == 'add_' and c.args:
                    old = o.get(k)
                    I.setc(o, k, Vec((list(old.items) if type(old) is Vec else []) + [SL.render(I, c.args[0])]))
                    return None
        if c.args:
            raise Unsupported('protobuf member %s' % n)
        v = o.get(n)
        t = c.ty
        while t is not None and t.k == 'ref':
            t = t.elem if hasattr(t, 'elem') else None
        if v is UNINIT:
            rt = c.fn.ret
            if rt.k == 'bool':
                return FALSE
            if rt.w and rt.w > 0:
                return const(0, rt.w)
            if 'string' in rt.s:
                v = ''
            elif 'Repeated' in rt.s:
                v = Vec([])
            else:
                raise Unsupported('protobuf field %s of type %s' % (n, rt.s))
        return LV(Cell(v)) if not isinstance(v, T) else v
    return h


ARRCLS[PB] = pbm


def eqv(a, b):
    if isinstance(a, T) and isinstance(b, T):
        return FALSE if a.w != b.w else not_(xor_b(a, b)) if a.w == 0 else eq(a, b)
    if isinstance(a, str) and isinstance(b, str):
        return boolt(a == b)
    raise Unsupported('comparison of %r and %r' % (a, b))


def plain(I, v):
    """scalar / text value of a field, or None"""
    v = I.unbase(I.rv(v)) if not isinstance(v, T) else v
    return v if isinstance(v, (T, str)) else None


def tasks(tier):
    P = load_program(FILES)
    out = []

    def f(n):
        return fn_named(P, 'vh::' + n)

    def cfgfn(n):
        return fn_named(P, 'spu::' + n)

    def mk():
        I = make_interp(P)

        def ctor(I, c):
            a = I.unbase(I.rv(c.args[0])) if c.args else None
            return a.copy(I) if type(a) is PB else PB()
        for t in ('RuntimeConfig', 'CompilerOptions', 'ExecutableProto'):
            I.overrides['spu::pb::%s::%s' % (t, t)] = ctor
            I.overrides['spu::pb::%s::~%s' % (t, t)] = lambda I, c: None

        def nthreads(I, c):
            v = var('threads', 32)
            I.fact(slt(const(0, 32), v))
            return v
        I.overrides['yacl::get_num_threads'] = nthreads
        return I

    def symbolic(I, o, pre):
        """fill every scalar and text field with an arbitrary value; returns {path: value}"""
        st = {}
        for k in list(o.f):
            v = plain(I, o.f[k])
            if isinstance(v, T):
                s = var(pre + k, v.w)
                I.setc(o, k, s)
                st[k] = s
            elif isinstance(v, str):
                s = SL.str_atom(('str', pre + k))
                I.setc(o, k, s)
                st[k] = s
            elif type(o.f[k]) is Obj:
                for kk, vv in symbolic(I, o.f[k], pre + k + '.').items():
                    st[k + '.' + kk] = vv
        return st

    def flat(I, o):
        st = {}
        for k in list(o.f):
            v = plain(I, o.f[k])
            if v is not None:
                st[k] = v
            elif type(o.f[k]) is Obj:
                for kk, vv in flat(I, o.f[k]).items():
                    st[k + '.' + kk] = vv
        return st

    # ---- completion
    DEFAULTS = {'fxp_div_goldschmidt_iters': 2, 'quick_sort_threshold': 32, 'fxp_exp_iters': 8, 'fxp_log_iters': 3, 'fxp_log_orders': 8, 'sine_cosine_iters': 10}
    MODES = {'fxp_exp_mode': 2, 'fxp_log_mode': 3, 'sigmoid_mode': 3}

    def expected(s, thr):
        e = dict(s)
        fm = s['field']
        w = fm.w
        is_ = lambda k: eq(fm, const(k, w))
        def dflt(k, v):
            z = eq(s[k], const(0, s[k].w))
            e[k] = ite(z, v if isinstance(v, T) else const(v, s[k].w), s[k])
        for k, v in DEFAULTS.items():
            dflt(k, v)
        for k, v in MODES.items():
            dflt(k, v)
        dflt('max_concurrency', thr)
        fb = s['fxp_fraction_bits'].w
        dflt('fxp_fraction_bits', ite(is_(1), const(8, fb), ite(is_(2), const(18, fb), const(26, fb))))
        ko = 'experimental_exp_prime_offset'
        e[ko] = ite(and_(eq(s['fxp_exp_mode'], const(3, s['fxp_exp_mode'].w)), eq(s[ko], const(0, s[ko].w)), is_(3)), const(13, s[ko].w), s[ko])
        kc = 'experimental_inter_op_concurrency'
        ki = s['experimental_enable_inter_op_par']
        e[kc] = ite(and_(ki, eq(s[kc], const(0, s[kc].w))), const(8, s[kc].w), s[kc])
        return e

    def complete(ctx, copy):
        I = mk()
        st = {}

        def call(I):
            o = callfn(I, f('cfg'))
            s = symbolic(I, o, 'c.')
            st['s'] = s
            I.assume(ule(s['field'], const(3, s['field'].w)))
            cell = Cell(o)
            if copy:
                r = callfn(I, cfgfn('makeFullRuntimeConfig'), LV(cell))
                st['in'] = flat(I, o)
                return r
            callfn(I, cfgfn('populateRuntimeConfig'), LV(cell))
            st['one'] = flat(I, o)
            callfn(I, cfgfn('populateRuntimeConfig'), LV(cell))
            return o

        def post(I, r):
            s = st['s']
            e = expected(s, var('threads', 32))
            got = flat(I, r)
            for k in e:
                yield 'option %s' % k, eqv(got[k], e[k])
            yield 'no option lost', boolt(set(got) == set(e))
            if copy:
                for k in s:
                    yield 'argument untouched: %s' % k, eqv(st['in'][k], s[k])
            else:
                for k in e:
                    yield 'idempotent: %s' % k, eqv(st['one'][k], got[k])
            yield 'protocol and field are mandatory', and_(ne(s['protocol'], const(0, s['protocol'].w)), ne(s['field'], const(0, s['field'].w)))
        s0 = lambda: or_(eq(st['s']['protocol'], const(0, st['s']['protocol'].w)), eq(st['s']['field'], const(0, st['s']['field'].w)))

        class L:
            pass
        # raising exactly on the incomplete configurations
        ctx.run(I, call, post, throws_ok=or_(eq(var('c.protocol', 32), const(0, 32)), eq(var('c.field', 32), const(0, 32))))
    out.append(Task('populateRuntimeConfig', lambda ctx: complete(ctx, False)))
    out.append(Task('makeFullRuntimeConfig', lambda ctx: complete(ctx, True)))

    # ---- wire form
    STRUCT = {'ttp_beaver_config', 'cheetah_2pc_config'}

    def config(I, sub, cheetah):
        o = callfn(I, f('cfg'))
        s = symbolic(I, o, 'c.')
        p = s['protocol']
        I.assume(eq(p, const(4, p.w)) if cheetah else ne(p, const(4, p.w)))
        if sub:
            t = callfn(I, f('ttp'))
            for k, v in symbolic(I, t, 't.').items():
                s['ttp.' + k] = v
            I.setc(o, 'ttp_beaver_config', Ptr(Cell(t), None))
            if sub > 1:
                c = callfn(I, f('ssl'))
                for k, v in symbolic(I, c, 'ssl.').items():
                    s['ssl.' + k] = v
                I.setc(t, 'ssl_config', Ptr(Cell(c), None))
        return o, s

    def flatc(I, r):
        got = flat(I, r)
        t = I.rv(r.f['ttp_beaver_config'])
        if t is not NULL and isinstance(t, Ptr):
            t = I.unbase(I.load(LV(t.c, t.k)))
            for k, v in flat(I, t).items():
                got['ttp.' + k] = v
            c = I.rv(t.f['ssl_config'])
            if c is not NULL and isinstance(c, Ptr):
                for k, v in flat(I, I.unbase(I.load(LV(c.c, c.k)))).items():
                    got['ssl.' + k] = v
        return got

    def wire(ctx, how, sub, cheetah):
        I = mk()
        st = {}

        def call(I):
            o, s = config(I, sub, cheetah)
            st['s'] = s
            if how == 'bytes':
                b = callfn(I, f('ser'), LV(Cell(o)))
                r = callfn(I, f('cfg'))
                st['dflt'] = flatc(I, r)
                st['ok'] = callfn(I, f('parse'), LV(Cell(r)), LV(Cell(b)))
                st['pb'] = b.pb
            else:
                m = callfn(I, f('toproto'), LV(Cell(o)))
                st['pb'] = m
                st['dflt'] = flatc(I, callfn(I, f('cfg')))
                r = callfn(I, f('fromproto'), LV(Cell(m)))
                st['ok'] = TRUE
            st['in'] = flatc(I, o)
            return r

        def post(I, r):
            s, got = st['s'], flatc(I, r)
            ok = st['ok']
            for k in s:
                yield 'argument untouched: %s' % k, eqv(st['in'][k], s[k])
            if ok is FALSE:
                yield 'reported failure', not_(var('parse_ok', 0))
                for k, v in st['dflt'].items():
                    yield 'unchanged on failure: %s' % k, eqv(got[k], v)
                return
            yield 'success reported', ok if how != 'bytes' else and_(ok, var('parse_ok', 0))
            want = {k: v for k, v in s.items() if cheetah or not k.startswith('cheetah')}
            for k, v in st['dflt'].items():
                if k.startswith('cheetah') and not cheetah:
                    want[k] = v
            yield 'same set of options', boolt(set(got) == set(want))
            for k in want:
                if k in got:
                    yield 'round trip: %s' % k, eqv(got[k], want[k])
            for k, v in s.items():
                if '.' not in k:
                    yield 'stored under its own name: %s' % k, eqv(st['pb'].get(k), v) if st['pb'].get(k) is not UNINIT else FALSE
        ctx.run(I, call, post)
    for how in ('bytes', 'message'):
        for sub in (0, 1, 2):
            for ch in (False, True):
                out.append(Task('wire form/%s/%d%s' % (how, sub, ' cheetah' if ch else ''), lambda ctx, a=(how, sub, ch): wire(ctx, *a)))

    def copts(ctx):
        I = mk()
        st = {}

        def call(I):
            o = callfn(I, f('copts'))
            st['s'] = symbolic(I, o, 'o.')
            b = callfn(I, f('serco'), LV(Cell(o)))
            r = callfn(I, f('copts'))
            st['dflt'] = flat(I, r)
            st['ok'] = callfn(I, f('parseco'), LV(Cell(r)), LV(Cell(b)))
            return r

        def post(I, r):
            got = flat(I, r)
            if st['ok'] is FALSE:
                for k, v in st['dflt'].items():
                    yield 'unchanged on failure: %s' % k, eqv(got[k], v)
                return
            for k, v in st['s'].items():
                yield 'round trip: %s' % k, eqv(got[k], v)
        ctx.run(I, call, post)
    out.append(Task('CompilerOptions wire form', copts))

    def eqo(ctx, fn, mkn, diff):
        I = mk()
        st = {}

        def call(I):
            a, b = callfn(I, f(mkn)), callfn(I, f(mkn))
            sa, sb = symbolic(I, a, 'a.'), symbolic(I, b, 'b.')
            for k in sb:
                if isinstance(sb[k], str) and k != diff:
                    I.setc(b, k, sa[k])
                    sb[k] = sa[k]
            st['v'] = (sa, sb)
            return callfn(I, f(fn), LV(Cell(a)), LV(Cell(b)))

        def post(I, r):
            sa, sb = st['v']
            same = and_(*[eqv(sa[k], sb[k]) if isinstance(sa[k], T) else SL.eqval(I, sa[k], sb[k]) for k in sa])
            yield 'equal exactly when every option is', not_(xor_b(r, same))
        ctx.run(I, call, post)
    out.append(Task('CompilerOptions equality', lambda ctx: eqo(ctx, 'eqco', 'copts', None)))
    out.append(Task('CompilerOptions equality, other text', lambda ctx: eqo(ctx, 'eqco', 'copts', 'pretty_print_dump_dir')))
    out.append(Task('CompilationSource equality', lambda ctx: eqo(ctx, 'eqcs', 'csrc', None)))
    out.append(Task('CompilationSource equality, other text', lambda ctx: eqo(ctx, 'eqcs', 'csrc', 'ir_txt')))

    def exe(ctx, n, m):
        I = mk()
        st = {}

        def call(I):
            o = callfn(I, f('exec'))
            st['s'] = symbolic(I, o, 'e.')
            ins = [SL.str_atom(('str', 'in%d' % i)) for i in range(n)]
            outs = [SL.str_atom(('str', 'out%d' % i)) for i in range(m)]
            st['l'] = (ins, outs)
            I.setc(o, 'input_names', Vec(list(ins)))
            I.setc(o, 'output_names', Vec(list(outs)))
            b = callfn(I, f('serex'), LV(Cell(o)))
            r = callfn(I, f('exec'))
            st['ok'] = callfn(I, f('parseex'), LV(Cell(r)), LV(Cell(b)))
            return r

        def post(I, r):
            if st['ok'] is FALSE:
                yield 'reported', not_(var('parse_ok', 0))
                return
            got = flat(I, r)
            for k, v in st['s'].items():
                yield 'round trip: %s' % k, eqv(got[k], v)
            for k, l in zip(('input_names', 'output_names'), st['l']):
                x = [SL.render(I, v) for v in r.f[k].items]
                yield 'names in order: %s' % k, boolt(x == l)
        ctx.run(I, call, post)
    for n, m in ((0, 1), (1, 0), (2, 3)):
        out.append(Task('ExecutableProto wire form/%d,%d' % (n, m), lambda ctx, a=(n, m): exe(ctx, *a), bounded='lists of at most 3 names'))
    return out
