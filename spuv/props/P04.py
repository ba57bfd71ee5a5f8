"""Complexity expressions: value, variables, printed form."""
from ..kernels import *
from ..check import Native
from .. import stdlib as SL

TRUSTED = ['std::log2 on doubles: for n in (2^k, 2^(k+1)], n <= 2^40, the result lies in (k, k+1] (log2 is exact on powers of two and monotone)',
           'fmt "{}" renders an unsigned integer in decimal']
ASSUMPTIONS = ['logarithms are of values in [1, 2^40]']
NS = 'spu::ce::'


def natives(tier):
    yield Native('cexpr', ['core/cexpr.cc'], ms_quick=6000)
    yield Native('cexpr_san', ['core/cexpr.cc'], main='/verif/native/cexpr.cc', ms_quick=5000, san=True)


class AbsExpr(Container):
    """any expression of the given kind: its value and its text are unknown"""

    def __init__(self, name, kind, prio):
        self.name, self.kind, self.prio = name, kind, prio
        self.val = var('v' + name, 64)
        self.text = SL.str_atom(('expr', name, kind))
        self.evals = 0
        self.seq = IP.nextseq()

    def isa(self, tgt):
        return 'BaseBinaryExpr' not in tgt and 'BinaryExpr' not in tgt or self.kind != 'leaf'

    def get(self, k):
        raise Unsupported('field of an abstract expression')


def abs_method(name):
    def f(I, o, c):
        if name == 'eval':
            I.require('sub-expression evaluated with the given bindings', TRUE if I.rv(c.args[0]) is I.ghost['params'] else FALSE)
            return o.val
        if name == 'expr':
            return o.text
        if name == 'priority' and o.prio is not None:
            return o.prio
        return NotImplemented
    return f if name in ('eval', 'expr', 'priority') else None


SL.ARRCLS[AbsExpr] = abs_method
OPS = {'+': add, '-': sub, '*': mul}
KIND = {'leaf': 3, '*': 2, '+': 1, '-': 1}


class Bad(Exception):
    pass


def parse(text, toks):
    """value of a printed form; an unknown sub-text of kind k stands for any text of that grammar level.
    returns (value term, level): 1 sum, 2 product, 3 atom"""
    pos = [0]

    def peek():
        return text[pos[0]] if pos[0] < len(text) else None

    def atom():
        ch = peek()
        if ch is None:
            raise Bad()
        if ch in toks:
            pos[0] += 1
            a = toks[ch]
            return a.val, KIND[a.kind]
        if ord(ch) >= 0xF0000:
            key = SL.ATOMLIST[ord(ch) - 0xF0000]
            if key[0] != 'dec':
                raise Bad()
            pos[0] += 1
            return key[1], 3
        if ch == '(':
            pos[0] += 1
            v, l = expr()
            if peek() != ')':
                raise Bad()
            pos[0] += 1
            return v, 3
        raise Bad()

    def prod():
        v, l = atom()
        while peek() == '*':
            if l < 2:
                raise Bad()          # an unparenthesised sum on the left of '*'
            pos[0] += 1
            r, lr = atom()
            if lr < 2:
                raise Bad()
            v, l = mul(v, r), 2      # a product on the right re-associates to the same value
        return v, l

    def expr():
        v, l = prod()
        while peek() in ('+', '-'):
            op = peek()
            pos[0] += 1
            r, lr = prod()
            if op == '-' and lr < 2:
                raise Bad()          # a-(b+c) printed without its parentheses
            v, l = OPS[op](v, r), 1
        return v, l
    v, l = expr()
    if pos[0] != len(text):
        raise Bad()
    return v, l


def params(I):
    m = Map({'K': var('pK', 64), 'N': var('pN', 64)})
    I.ghost['params'] = m
    return m


def meth(I, ptr, name, *args):
    """virtual call on the object a CExpr points to"""
    o = I.rv(I.deref(ptr))
    if type(o) is AbsExpr:
        return SL.ARRCLS[AbsExpr](name)(I, o, IP.Call(I, None, None, [LV(Cell(a)) for a in args], None, None, None))
    base = [f for f in I.P.byname.get(NS + 'BaseExpr::' + name, [])]
    if not base:
        raise Unsupported('BaseExpr::' + name)
    f2 = I.P.vresolve(o.rec, base[0].id)
    if f2 is None:
        raise Unsupported('no override')
    return I.rv(I.invoke(I.P.fns[f2], [LV(Cell(a)) for a in args], I.deref(ptr), None))


def isptr(t):
    return 'shared_ptr' in t.s or 'CExpr' in t.s


def prio_of(I, op):
    """priority reported by a real node of this operator"""
    f = [x for x in I.P.byname[NS + 'operator' + op] if x.hasbody and all(isptr(p[2]) for p in x.params)][0]
    r = callfn(I, f, Ptr(Cell(AbsExpr('p', 'leaf', None))), Ptr(Cell(AbsExpr('q', 'leaf', None))))
    o = I.rv(I.deref(r))
    for fn in I.P.fns.values():
        if fn.simple == 'priority' and fn.rec == o.rec.id and fn.hasbody:
            return I.rv(I.invoke(fn, [], I.deref(r), None))
    return None


def operand(I, nm, kind):
    if kind == 'int':
        return var('v' + nm, 64), var('v' + nm, 64), None
    a = AbsExpr(nm, kind, prio_of(I, kind) if kind != 'leaf' else None)
    return Ptr(Cell(a)), a.val, a


def tasks(tier):
    P = load_program(['core/cexpr.cc', '/verif/harness/h_cexpr.cc'])
    out = []

    def binop(ctx, f, op, ka, kb):
        I = make_interp(P)
        st = {}

        def call(I):
            pa, va, a = operand(I, 'a', ka)
            pb, vb, b = operand(I, 'b', kb)
            st.update(va=va, vb=vb, toks={x.text: x for x in (a, b) if x})
            m = params(I)
            r = callfn(I, f, pa, pb)
            st['text'] = meth(I, r, 'expr')
            return meth(I, r, 'eval', m)

        def post(I, v):
            yield 'eval applies the operator modulo 2^64', eq(v, OPS[op](st['va'], st['vb']))
            if '?' in st['text']:
                raise Unsupported('printed form is not tracked: %r' % st['text'])
            try:
                pv, lvl = parse(st['text'], st['toks'])
                yield 'printed form denotes the same value', eq(pv, OPS[op](st['va'], st['vb']))
                yield 'printed form has the grammar level of the operator', boolt(lvl == KIND[op])
            except Bad:
                yield 'printed form denotes the same value', FALSE
        ctx.run(I, call, post)
    for op in OPS:
        for f in P.byname.get(NS + 'operator' + op, []):
            if not f.hasbody or len(f.params) != 2:
                continue
            ks = [['leaf', '+', '-', '*'] if isptr(p[2]) else ['int'] for p in f.params]
            for ka in ks[0]:
                for kb in ks[1]:
                    out.append(Task('operator%s(%s,%s)' % (op, ka, kb), lambda ctx, f=f, op=op, ka=ka, kb=kb: binop(ctx, f, op, ka, kb)))

    def konst(ctx):
        I = make_interp(P)
        st = {}

        def call(I):
            r = callfn(I, fn_named(P, NS + 'Const'), var('n', 64))
            st['text'] = meth(I, r, 'expr')
            return meth(I, r, 'eval', params(I))

        def post(I, v):
            yield 'value', eq(v, var('n', 64))
            yield 'text is the decimal numeral', boolt(st['text'] == SL.str_atom(('dec', var('n', 64), False)))
        ctx.run(I, call, post)
    out.append(Task('Const', konst))

    def variable(ctx, nm, present):
        I = make_interp(P)
        st = {}

        def call(I):
            r = callfn(I, fn_named(P, NS + 'Variable'), nm, 'some description') if nm else callfn(I, fn_named(P, NS + present))
            st['text'] = meth(I, r, 'expr')
            m = params(I)
            return meth(I, r, 'eval', m)
        want = nm or present

        def post(I, v):
            yield 'value bound to the name', eq(v, var('p' + want, 64)) if want in ('K', 'N') else FALSE
            yield 'text is the name', boolt(st['text'] == want)
        if want in ('K', 'N'):
            ctx.run(I, call, post)
        else:
            ctx.run(I, call, post, throws_ok=TRUE, expect_return=False)
    for nm, pr in (('K', None), ('N', None), ('M', None), (None, 'K'), (None, 'N')):
        out.append(Task('Variable(%s)' % (nm or pr + '()'), lambda ctx, nm=nm, pr=pr: variable(ctx, nm, pr)))

    def log(ctx, f, kind):
        I = make_interp(P)
        st = {}

        def call(I):
            p, v, a = operand(I, 'a', kind)
            I.assume(ule(const(1, 64), v))
            I.assume(ule(v, const(1 << 40, 64)))
            st.update(v=v, a=a)
            r = callfn(I, f, p)
            st['text'] = meth(I, r, 'expr')
            return meth(I, r, 'eval', params(I))

        def post(I, r):
            inner = st['a'].text if st['a'] else SL.str_atom(('dec', st['v'], False))
            yield 'text is log(operand)', boolt(st['text'] == 'log(' + inner + ')')
            # facts about the library logarithm at the argument it was called with
            logs = []
            seen = set()

            def walk(t):
                if t.id in seen:
                    return
                seen.add(t.id)
                if t.op == 'app' and t.args and str(t.args[0]).endswith('log2'):
                    logs.append(t)
                for c in TM_children(t):
                    walk(c)
            walk(r)
            v = st['v']
            for k in range(-1, 40):
                lo = 0 if k < 0 else 1 << k
                cond = and_(ult(const(lo, 64), v), ule(v, const(1 << (k + 1), 64)))
                asm = []
                for L in logs:
                    arg = L.args[-1]
                    if k < 0:
                        asm.append(TM.build('fp.eq', (L, fpc(0.0, -64)), 0))
                    else:
                        asm += [TM.build('fp.lt', (fpc(float(k), -64), L), 0), TM.build('fp.le', (L, fpc(float(k + 1), -64)), 0)]
                yield 'ceil(log2) for operands in (%d, %d]' % (lo, 1 << (k + 1)), implies(and_(cond, *asm), eq(r, const(k + 1, 64)))
        ctx.run(I, call, post)
    for f in P.byname.get(NS + 'Log', []):
        for kind in (['leaf', '+', '*'] if isptr(f.params[0][2]) else ['int']):
            out.append(Task('Log(%s)' % kind, lambda ctx, f=f, kind=kind: log(ctx, f, kind)))
    return out
