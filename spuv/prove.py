"""Back ends: canonical-form normaliser first, then z3 (bit-vectors / integers / IEEE floats), cvc5 fallback."""
import os
import subprocess
import tempfile
import time
import z3
from .terms import *
from . import terms as TM

STATS = {'norm': 0, 'z3': 0, 'cvc5': 0, 'z3_time': 0.0, 'cvc5_time': 0.0}


class Untranslatable(Exception):
    pass


def fsort(w):
    return {-16: z3.Float16(), -32: z3.Float32(), -64: z3.Float64()}[w]


def zsort(w, mode):
    if w == 0:
        return z3.BoolSort()
    if w < 0:
        return fsort(w)
    if mode == 'int':
        return z3.IntSort()
    return z3.BitVecSort(w)


class ToZ3:
    def __init__(self, mode='bv'):
        self.mode = mode
        self.memo = {}
        self.names = {}
        self.side = []

    def uf(self, name, argw, w):
        key = (name, tuple(argw), w)
        f = self.names.get(key)
        if f is None:
            f = z3.Function('%s#%d' % (name, len(self.names)), *[zsort(a, self.mode) for a in argw], zsort(w, self.mode))
            self.names[key] = f
        return f

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            pend = [] if x.op == 'sum' else [s for s in subterms1(x) if s.id not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            self.memo[x.id] = self.one(x)
        return self.memo[t.id]

    def one(self, t):
        op, a, w = t.op, t.args, t.w
        M = self.memo
        g = lambda x: M[x.id]
        I = self.mode == 'int'
        if op == 'c':
            if I:
                return z3.IntVal(TM.signed(a[0], w) if w >= 32 else a[0])
            return z3.BitVecVal(a[0], w)
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'v':
            return z3.Const('%s@%d' % (a[0], w), zsort(w, self.mode))
        if op == 'app':
            if len(a) == 1:
                return z3.Const('%s@%d' % (a[0], w), zsort(w, self.mode))
            return self.uf(a[0], [x.w for x in a[1:]], w)(*[g(x) for x in a[1:]])
        if op == 'sum':
            return z3.Const('sum$%d' % t.id, zsort(w, self.mode))
        if op == 'lin':
            s = None
            for mono, c in a:
                cc = TM.signed(c, w) if I else c
                p = None
                for i in mono:
                    y = M[i]
                    p = y if p is None else p * y
                k = z3.IntVal(cc) if I else z3.BitVecVal(c, w)
                p = k if p is None else (p if c == 1 else k * p)
                s = p if s is None else s + p
            return s
        if op == 'opq':
            return g(a[0])
        if op == 'ite':
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'eq':
            return g(a[0]) == g(a[1])
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'and':
            return z3.And(*[g(x) for x in a])
        if op == 'ult':
            return g(a[0]) < g(a[1]) if I else z3.ULT(g(a[0]), g(a[1]))
        if op == 'slt':
            return g(a[0]) < g(a[1])
        if I:
            if op in ('udiv', 'sdiv'):
                return g(a[0]) / g(a[1])      # operands are constrained non-negative by the caller
            if op in ('urem', 'srem'):
                return g(a[0]) % g(a[1])
            if op in ('zext', 'sext', 'trunc'):
                return g(a[0])
            raise Untranslatable(op)
        if op == 'anf':
            s = None
            for mono, c in a:
                p = None
                for i in mono:
                    p = M[i] if p is None else p & M[i]
                if p is None:
                    p = z3.BitVecVal(c, w)
                elif c != mask(w):
                    p = p & z3.BitVecVal(c, w)
                s = p if s is None else s ^ p
            return s
        if op == 'bandop':
            return g(a[0]) & g(a[1])
        if op in ('shl', 'lshr', 'ashr'):
            x, s = g(a[0]), g(a[1])
            if a[1].w < w:
                s = z3.ZeroExt(w - a[1].w, s)
            elif a[1].w > w:
                hi = z3.Extract(a[1].w - 1, w, s)
                s = z3.If(hi == 0, z3.Extract(w - 1, 0, s), z3.BitVecVal(mask(w), w))
            return {'shl': lambda: x << s, 'lshr': lambda: z3.LShR(x, s), 'ashr': lambda: x >> s}[op]()
        if op == 'zext':
            return z3.ZeroExt(w - a[0].w, g(a[0]))
        if op == 'sext':
            return z3.SignExt(w - a[0].w, g(a[0]))
        if op == 'trunc':
            return z3.Extract(w - 1, 0, g(a[0]))
        if op == 'udiv':
            return z3.UDiv(g(a[0]), g(a[1]))
        if op == 'urem':
            return z3.URem(g(a[0]), g(a[1]))
        if op == 'sdiv':
            return g(a[0]) / g(a[1])
        if op == 'srem':
            return z3.SRem(g(a[0]), g(a[1]))
        if op.startswith('fp.'):
            return self.fp(op, t, g)
        raise Untranslatable(op)

    def fp(self, op, t, g):
        a, w = t.args, t.w
        rm = {'rne': z3.RNE(), 'rtz': z3.RTZ()}
        if op == 'fp.const':
            return z3.fpBVToFP(z3.BitVecVal(a[0], -w), fsort(w))
        if op == 'fp.frombits':
            return z3.fpBVToFP(g(a[0]), fsort(w))
        if op == 'fp.tobits':
            return z3.fpToIEEEBV(g(a[0]))
        if op in ('fp.add', 'fp.sub', 'fp.mul', 'fp.div'):
            f = {'fp.add': z3.fpAdd, 'fp.sub': z3.fpSub, 'fp.mul': z3.fpMul, 'fp.div': z3.fpDiv}[op]
            return f(z3.RNE(), g(a[0]), g(a[1]))
        if op == 'fp.sqrt':
            return z3.fpSqrt(z3.RNE(), g(a[0]))
        if op == 'fp.fma':
            return z3.fpFMA(z3.RNE(), g(a[0]), g(a[1]), g(a[2]))
        if op == 'fp.neg':
            return z3.fpNeg(g(a[0]))
        if op == 'fp.abs':
            return z3.fpAbs(g(a[0]))
        if op == 'fp.conv':
            return z3.fpFPToFP(z3.RNE(), g(a[0]), fsort(w))
        if op == 'fp.lt':
            return z3.fpLT(g(a[0]), g(a[1]))
        if op == 'fp.le':
            return z3.fpLEQ(g(a[0]), g(a[1]))
        if op == 'fp.eq':
            return z3.fpEQ(g(a[0]), g(a[1]))
        if op == 'fp.isnan':
            return z3.fpIsNaN(g(a[0]))
        if op == 'fp.isinf':
            return z3.fpIsInf(g(a[0]))
        if op == 'fp.tosbv':
            return z3.fpToSBV(z3.RTZ(), g(a[0]), z3.BitVecSort(w))
        if op == 'fp.toubv':
            return z3.fpToUBV(z3.RTZ(), g(a[0]), z3.BitVecSort(w))
        if op == 'fp.fromsbv':
            return z3.fpSignedToFP(z3.RNE(), g(a[0]), fsort(w))
        if op == 'fp.fromubv':
            return z3.fpUnsignedToFP(z3.RNE(), g(a[0]), fsort(w))
        if op == 'fp.rti':
            return z3.fpRoundToIntegral({'rne': z3.RNE(), 'rtz': z3.RTZ(), 'rtp': z3.RTP(), 'rtn': z3.RTN(), 'rna': z3.RNA()}[a[1]], g(a[0]))
        raise Untranslatable(op)


class Result:
    def __init__(self, ok, how, model=None, detail=''):
        self.ok = ok            # True proved, False refuted (model), None unknown
        self.how = how
        self.model = model
        self.detail = detail

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.ok, self.how, self.model)


def model_dict(m, tr):
    d = {}
    for dcl in m.decls():
        v = m[dcl]
        if dcl.arity() == 0:
            try:
                d[dcl.name()] = v.as_long() if hasattr(v, 'as_long') else str(v)
            except Exception:
                d[dcl.name()] = str(v)
        else:
            d[dcl.name()] = str(v)[:300]
    return d


class ToLIA:
    """sound abstraction of word arithmetic in linear integer arithmetic (wrap-around counted by integer variables);
    everything non-linear becomes an unconstrained value of its range, so only 'proved' means anything"""
    def __init__(self):
        self.memo = {}
        self.side = []
        self.nv = 0

    def var(self, lo, hi):
        self.nv += 1
        v = z3.Int('l%d' % self.nv)
        self.side.append(z3.And(v >= lo, v <= hi))
        return v

    def term(self, t):
        """(expr, lo, hi)"""
        r = self.memo.get(t.id)
        if r is not None:
            return r
        m = (1 << t.w) - 1
        if t.op == 'c':
            r = (z3.IntVal(t.args[0]), t.args[0], t.args[0])
        elif t.op == 'zext':
            r = self.term(t.args[0])
        elif t.op == 'ite':
            c, a, b = self.boolean(t.args[0]), self.term(t.args[1]), self.term(t.args[2])
            r = (z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]))
        elif t.op == 'lin':
            e, lo, hi = z3.IntVal(0), 0, 0
            for mono, c in TM.lin_of(t).items():
                if c > m >> 1:
                    c -= m + 1
                if len(mono) == 0:
                    x = (z3.IntVal(1), 1, 1)
                elif len(mono) == 1:
                    x = self.term(TM._byid[mono[0]])
                else:
                    k = ('mono',) + tuple(mono)
                    x = self.memo.get(k)
                    if x is None:
                        # the product itself (before wrap-around): a non-negative integer
                        h = 1
                        for i in mono:
                            h *= self.term(TM._byid[i])[2]
                        if h > m:
                            x = (self.var(0, m), 0, m)
                        else:
                            x = (self.var(0, h), 0, h)
                        self.memo[k] = x
                e = e + c * x[0]
                lo, hi = lo + min(c * x[1], c * x[2]), hi + max(c * x[1], c * x[2])
            if lo < 0 or hi > m:
                q = self.var(lo // (m + 1), hi // (m + 1))
                e = e - q * (m + 1)
                self.side.append(z3.And(e >= 0, e <= m))
                lo, hi = 0, m
            r = (e, lo, hi)
        elif t.op == 'lshr' and TM.is_c(t.args[1]) and t.args[0].op != 'anf':
            x = self.term(t.args[0])
            k = 1 << TM.cval(t.args[1])
            q = self.var(x[1] // k, x[2] // k)
            self.side.append(z3.And(q * k <= x[0], x[0] < q * k + k))
            r = (q, x[1] // k, x[2] // k)
        elif t.op == 'trunc' or self.masked(t):
            x0, c = (t.args[0], m) if t.op == 'trunc' else self.masked(t)
            x = self.term(x0)
            if c.bit_length() < x0.w or x[2] > c:
                x = self.modp(x, c.bit_length())
            low = (c & -c).bit_length() - 1
            if low:
                y = self.modp(x, low)
                r = (x[0] - y[0], 0, x[2])
            else:
                r = x
        else:
            hi = min(m, TM._umax(t))
            r = (self.var(0, hi), 0, hi)
        self.memo[t.id] = r
        return r

    def masked(self, t):
        """t is atom & c with c one run of ones"""
        if t.op == 'anf' and len(t.args) == 1 and len(t.args[0][0]) == 1:
            c = t.args[0][1]
            if c and (c + (c & -c)) & c == 0:
                return TM._byid[t.args[0][0][0]], c
        return None

    def modp(self, x, k):
        if x[2] < 1 << k and x[1] >= 0:
            return x
        q = self.var(x[1] >> k, x[2] >> k)
        e = x[0] - q * (1 << k)
        self.side.append(z3.And(e >= 0, e < 1 << k))
        return (e, 0, (1 << k) - 1)

    def boolean(self, t):
        r = self.memo.get(('b', t.id))
        if r is not None:
            return r
        op = t.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'not':
            r = z3.Not(self.boolean(t.args[0]))
        elif op in ('and', 'or'):
            r = (z3.And if op == 'and' else z3.Or)([self.boolean(a) for a in t.args])
        elif op in ('ult', 'eq') and t.args[0].w > 0 and t.args[0].w <= 64:
            a, b = self.term(t.args[0])[0], self.term(t.args[1])[0]
            r = a < b if op == 'ult' else a == b
        elif op == 'slt' and t.args[0].w <= 64 and TM._umax(t.args[0]) < 1 << (t.args[0].w - 1) and TM._umax(t.args[1]) < 1 << (t.args[0].w - 1):
            r = self.term(t.args[0])[0] < self.term(t.args[1])[0]
        else:
            self.nv += 1
            r = z3.Bool('b%d' % self.nv)
        self.memo['b', t.id] = r
        return r


def addressy(t):
    """a comparison of 64-bit quantities (indices, sizes)"""
    if t.op == 'not':
        return addressy(t.args[0])
    if t.op in ('and', 'or'):
        return all(addressy(a) for a in t.args)
    return t.op in ('ult', 'eq') and t.args[0].w == 64 and not TM.is_c(t.args[0]) or t.op == 'ult' and t.args[0].w == 64


class LIACtx:
    """prove_lia for many goals under the same facts"""
    def __init__(self, facts, timeout=1000):
        self.tr = ToLIA()
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.n = 0
        for f in facts:
            self.s.add(self.tr.boolean(f))
        self.sync()

    def sync(self):
        for x in self.tr.side[self.n:]:
            self.s.add(x)
        self.n = len(self.tr.side)

    def truth(self, c):
        """True / False when the facts decide c, else None"""
        try:
            g = self.tr.boolean(c)
            self.sync()
            if self.s.check(z3.Not(g)) == z3.unsat:
                return True
            if self.s.check(g) == z3.unsat:
                return False
        except z3.Z3Exception:
            pass
        return None


def prove_lia(goal, asm, timeout=1000):
    try:
        tr = ToLIA()
        g = tr.boolean(goal)
        a = [tr.boolean(x) for x in asm]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(a + tr.side)
        s.add(z3.Not(g))
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def prove(goal, assume=(), mode='bv', timeout=20000, cvc5=True):
    """validity of assume => goal"""
    if goal is TRUE:
        STATS['norm'] += 1
        return Result(True, 'norm')
    asm = and_(*assume) if assume else TRUE
    if asm is FALSE:
        STATS['norm'] += 1
        return Result(True, 'norm-vacuous')
    if goal is FALSE and asm is TRUE:
        return Result(False, 'norm', {}, 'goal is false by normalisation')
    t0 = time.time()
    if mode == 'bv' and goal is not FALSE and addressy(goal):
        if prove_lia(goal, list(assume)):
            STATS['z3_time'] += time.time() - t0
            STATS['z3'] += 1
            return Result(True, 'z3')
        t0 = time.time()
    try:
        tr = ToZ3(mode)
        s = z3.Solver() if mode == 'bv' else z3.Solver()
        s.set('timeout', int(timeout))
        za = tr(asm)
        zg = tr(goal)
        s.add(za)
        s.add(z3.Not(zg))
        r = s.check()
    except Untranslatable as e:
        return Result(None, 'untranslatable', None, str(e))
    except z3.Z3Exception as e:
        return Result(None, 'z3-error', None, str(e)[:200])
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        STATS['z3'] += 1
        return Result(True, 'z3')
    if r == z3.sat:
        m = s.model()
        R = Result(False, 'z3', model_dict(m, tr), '')
        R.zm = m
        R.tr = tr
        return R
    if cvc5:
        t0 = time.time()
        fn = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
        fn.write('(set-logic ALL)\n' + s.to_smt2())
        fn.close()
        try:
            out = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), fn.name], capture_output=True, text=True, timeout=timeout / 1000 + 5).stdout
        except Exception:
            out = ''
        os.unlink(fn.name)
        STATS['cvc5_time'] += time.time() - t0
        if out.startswith('unsat'):
            STATS['cvc5'] += 1
            return Result(True, 'cvc5')
        if out.startswith('sat'):
            return Result(False, 'cvc5', {}, 'cvc5: sat')
    return Result(None, 'unknown', None, 'solver gave no answer')
