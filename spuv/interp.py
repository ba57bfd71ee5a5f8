"""Symbolic executor for the exported C++ AST (clang, after template instantiation).

The text executed is exactly the function bodies of /repo's current source; a call is either
  * replaced by the callee's contract (I.contracts), checked elsewhere against the callee's own body,
  * executed from its own body in /repo (helpers without a contract), or
  * a trusted primitive of the language / standard library (I.builtins).
Unbounded loops are handled by an induction rule (induct): one symbolic iteration, injective writes,
no read of another iteration's write; accumulators become closed-form sums.
"""
import re
from .terms import *
from . import terms as TM
from .prove import prove

W64 = 64
import os as _os
DEBUG = bool(_os.environ.get('SPUV_DEBUG'))


class Unsupported(Exception):
    pass


class LoopExit(Exception):
    """control flow leaves a symbolic loop"""


class LoopExit(Exception):
    """control flow leaves a symbolic loop"""


class Infeasible(Exception):
    pass


class Throw(Exception):
    def __init__(self, msg=''):
        self.msg = msg


class Ctl(Exception):
    pass


class Break(Ctl):
    pass


class Continue(Ctl):
    pass


class Return(Ctl):
    def __init__(self, v):
        self.v = v


class NoMerge(Exception):
    pass


_seq = [0]


def nextseq():
    _seq[0] += 1
    return _seq[0]


class Container:
    __slots__ = ('seq',)


class Cell(Container):
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v
        self.seq = nextseq()

    def get(self, k):
        return self.v

    def put(self, k, v):
        self.v = v


class Obj(Container):
    __slots__ = ('rec', 'f')

    def __init__(self, rec, f=None):
        self.rec = rec
        self.f = f if f is not None else {}
        self.seq = nextseq()

    def get(self, k):
        return self.f.get(k, UNINIT)

    def put(self, k, v):
        self.f[k] = v

    def __repr__(self):
        return '%s%r' % (self.rec.id if self.rec else '?', self.f)


class _Uninit:
    def __repr__(self):
        return 'UNINIT'


UNINIT = _Uninit()


class Vec(Container):
    """concrete-length sequence (C array, std::array, std::vector)"""
    __slots__ = ('items', 'ety')

    def __init__(self, items, ety=None):
        self.items = items
        self.ety = ety
        self.seq = nextseq()

    def get(self, k):
        if k == '%items':
            return self.items
        return self.items[k]

    def put(self, k, v):
        if k == '%items':
            self.items = v
        else:
            self.items = self.items[:k] + [v] + self.items[k + 1:]

    def __repr__(self):
        return 'Vec%r' % (self.items,)


class Layer:
    __slots__ = ('params', 'idx', 'vals', 'cond', 'total')

    def __init__(self, params, idx, vals, cond=TRUE, total=False):
        self.total = total      # written at every index of the array
        self.params = params    # [(var, n)]
        self.idx = idx
        self.vals = vals        # {path: Term}
        self.cond = cond


class SArr(Container):
    """symbolic-length array; leaves {path: width}; content: base function + layers"""
    __slots__ = ('name', 'n', 'leaves', 'layers', 'base', 'rec', 'ety', 'tag', 'init')

    def __init__(self, name, n, leaves, base=None, rec=None, ety=None):
        self.name = name
        self.n = n
        self.leaves = leaves
        self.layers = []
        self.base = base
        self.rec = rec
        self.ety = ety
        self.seq = nextseq()
        self.tag = None

    def get(self, k):
        return self.layers

    def put(self, k, v):
        self.layers = v

    def base_at(self, path, idx):
        if self.base is not None:
            return self.base(path, idx)
        w = self.leaves[path]
        return app('%s%s' % (self.name, ''.join('.%s' % p for p in path)), [idx], w)

    def __repr__(self):
        return 'SArr(%s,%r)' % (self.name, self.n)


class LV:
    __slots__ = ('c', 'k')

    def __init__(self, c, k=None):
        self.c = c
        self.k = k

    def __repr__(self):
        return 'LV(%r,%r)' % (self.c if not isinstance(self.c, Obj) else self.c.rec, self.k)


class Ptr:
    """pointer = container + key; key None for cells; null: c is None"""
    __slots__ = ('c', 'k', 'extra')

    def __init__(self, c, k=None, extra=None):
        self.c = c
        self.k = k
        self.extra = extra

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.c, self.k)


NULL = Ptr(None)


class Closure:
    def __init__(self, rec, caps, fn, tu):
        self.rec = rec
        self.caps = caps      # vid -> LV ;  'this' -> LV
        self.fn = fn
        self.tu = tu


class FnPtr:
    def __init__(self, fn):
        self.fn = fn


class PyFn:
    """callable value implemented by python (contract-level closures)"""
    def __init__(self, f):
        self.f = f


class Opaque:
    """value of a library type with no modelled content (streams, allocators, …)"""
    def __init__(self, tag, **kw):
        self.tag = tag
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Opaque(%s)' % self.tag


class Opt(Container):
    __slots__ = ('has', 'v')

    def __init__(self, has=FALSE, v=None):
        self.has = has
        self.v = v
        self.seq = nextseq()

    def get(self, k):
        return self.v if k == 'v' else self.has

    def put(self, k, v):
        if k == 'v':
            self.v = v
        else:
            self.has = v


class Map(Container):
    __slots__ = ('d', 'vty', 'kty')

    def __init__(self, d=None, kty=None, vty=None):
        self.d = d or {}
        self.kty = kty
        self.vty = vty
        self.seq = nextseq()

    def get(self, k):
        if k == '%d':
            return self.d
        return self.d[k]

    def put(self, k, v):
        if k == '%d':
            self.d = v
        else:
            self.d = dict(self.d)
            self.d[k] = v


class It:
    """iterator into a container at concrete position (immutable value)"""
    __slots__ = ('c', 'k', 'kind')

    def __init__(self, c, k, kind='vec'):
        self.c = c
        self.k = k
        self.kind = kind


class Frame:
    __slots__ = ('fn', 'tu', 'vars', 'this', 'args', 'clo')

    def __init__(self, fn, tu):
        self.fn = fn
        self.tu = tu
        self.vars = {}
        self.this = None
        self.args = []
        self.clo = None


class Decider:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.alts = []


def strip_targs(n):
    """qualified name without template arguments"""
    op = ''
    m = re.search(r'operator[^A-Za-z0-9_].*$', n)
    if m:
        op = m.group(0)
        n = n[:m.start()]
    out = []
    d = 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    n = ''.join(out)
    n = n.replace('__cxx11::', '')
    return n + op


_bn = {}


def basename(fn):
    r = _bn.get(fn.name)
    if r is None:
        r = _bn[fn.name] = strip_targs(fn.name)
    return r


BUILTINS = {}       # name -> f(I, fr, call)  for free functions and methods
ARRM = {}           # methods on abstract values keyed by (python class, method name)


def builtin(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


class Call:
    """evaluated call: fn, args (LV or value as produced by eval), this (LV or None), ret type, node"""
    __slots__ = ('fn', 'args', 'this', 'ty', 'node', 'fr', 'I')

    def __init__(self, I, fr, fn, args, this, ty, node):
        self.I, self.fr, self.fn, self.args, self.this, self.ty, self.node = I, fr, fn, args, this, ty, node

    def val(self, i):
        return self.I.rv(self.args[i])

    def vals(self):
        return [self.I.rv(a) for a in self.args]

    def obj(self):
        return self.I.unbase(self.I.rv(self.this))


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.log = []
        self.pc = []            # facts: assumptions + path condition
        self.pcset = set()
        self.factset = set()
        self.newfacts = []
        self.dec = Decider([])
        self.contracts = {}     # basename -> f(I, Call) -> value | NotImplemented
        self.overrides = {}
        self.used_contracts = {}
        self.used_builtins = {}
        self.executed = {}
        self.throws = []        # (pc, msg)
        self.foralls = []       # (guard, k, n, fact at k, …): facts that hold at every index of a completed loop
        self.checks = []        # (name, goal, pc)
        self.nomerge = set()
        self.globals = {}
        self.statics = {}
        self.depth = 0
        self.mode = 'bv'
        self.rlog = None
        self.ghost = {}
        self.maxunroll = 4096
        self.nbranch = 0
        self.btimeout = 3000
        self.recdepth = {}
        self.noinline = set()
        self.solver_calls = 0
        self.mode = 'bv'         # theory used for path feasibility
        self.while_hook = None
        self.dirtydepth = 0
        self.maxpaths = 4000
        self.check_shift = False
        self.onthrow = None

    # ------------------------------------------------------------ facts and branching
    def assume(self, c):
        if c is TRUE:
            return
        if c is FALSE:
            raise Infeasible()
        if c.op == 'and':
            for x in c.args:
                self.assume(x)
            return
        self.pc.append(c)
        self.pcset.add(c)

    def fact(self, c):
        """an assumption about fresh symbols only: holds on every path, survives joins"""
        if c is TRUE:
            return
        self.factset.add(c)
        self.pc.append(c)
        self.pcset.add(c)

    def pcmark(self):
        return len(self.pc)

    def pcreset(self, m):
        if len(self.pc) > m:
            del self.pc[m:]
            self.pcset = set(self.pc)

    def known(self, c):
        """cheap entailment; returns True/False/None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pcset:
            return True
        n = not_(c)
        if n in self.pcset:
            return False
        if c.op == 'and':
            rs = [self.known(x) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
        if c.op == 'not' and c.args[0].op == 'and':
            r = self.known(c.args[0])
            if r is not None:
                return not r
        return None

    def entails(self, c, timeout=None):
        k = self.known(c)
        if k is not None:
            return k is True
        self.solver_calls += 1
        r = prove(c, self.pc, self.mode, timeout or self.btimeout, cvc5=False)
        return r.ok is True

    def branch(self, c):
        """decide a boolean Term on this path"""
        if isinstance(c, bool):
            return c
        k = self.known(c)
        if k is not None:
            return k
        d = self.dec
        if len(d.taken) < len(d.prefix):
            tag, b = d.prefix[len(d.taken)]
            if tag == 'm':
                raise Unsupported('replay of a path went another way')
            d.taken.append((tag, b))
            if tag == 'q':
                self.assume_quiet(c if b else not_(c))
            else:
                self.assume(c if b else not_(c))
            return b
        self.nbranch += 1
        self.solver_calls += 1
        r1 = prove(not_(c), self.pc, self.mode, self.btimeout, cvc5=False)
        if r1.ok is True:
            d.taken.append(('q', False))
            self.assume_quiet(not_(c))
            return False
        r2 = prove(c, self.pc, self.mode, self.btimeout, cvc5=False)
        if r2.ok is True:
            d.taken.append(('q', True))
            self.assume_quiet(c)
            return True
        d.alts.append(d.taken + [('b', False)])
        d.taken.append(('b', True))
        self.assume(c)
        return True

    def try_merge(self, key, run):
        """(True, value) when the paths of run() could be joined, (False, None) when the caller has to fork; a replayed
        path repeats the choice recorded for it"""
        d = self.dec
        i = len(d.taken)
        if i < len(d.prefix):
            tag, ok = d.prefix[i]
            if tag != 'm':
                raise Unsupported('replay of a path went another way')
            d.taken.append(('m', ok))
            if not ok:
                return False, None
            try:
                return True, self.merge(run)
            except NoMerge:
                raise Unsupported('replay of a path could not be joined')
        ok = key not in self.nomerge
        d.taken.append(('m', ok))
        if not ok:
            return False, None
        try:
            return True, self.merge(run)
        except NoMerge:
            self.nomerge.add(key)
            d.taken[i] = ('m', False)
            return False, None

    def assume_quiet(self, c):
        self.pcset.add(c)

    def choose_int(self, t, what=''):
        """concretise a bit-vector term when it is constant"""
        if is_c(t):
            return cval(t)
        raise Unsupported('symbolic %s: %s' % (what, pp(t, 4)))

    # ------------------------------------------------------------ memory
    def setc(self, c, k, v):
        try:
            old = c.get(k)
        except (KeyError, IndexError):
            old = None
        self.log.append((c, k, old))
        c.put(k, v)

    def rollback(self, m):
        log = self.log
        while len(log) > m:
            c, k, old = log.pop()
            c.put(k, old)

    def load(self, lv):
        c, k = lv.c, lv.k
        if type(c) is SArr:
            return self.sarr_load(c, k)
        if type(c) is Vec:
            if isinstance(k, T):
                return self.vec_at(c, k)
            if not (0 <= k < len(c.items)):
                self.safety('index-in-bounds', FALSE)
                raise Throw('index out of bounds')
            v = c.items[k]
            return v
        if isinstance(c, Proxy):
            return c.load(self, k)
        v = c.get(k)
        return v

    def safety(self, name, goal):
        if goal is TRUE:
            return
        self.checks.append((name, goal, list(self.pc)))

    def vec_at(self, vec, idx):
        if is_c(idx):
            i = sval(idx)
            if not (0 <= i < len(vec.items)):
                self.safety('index-in-bounds', FALSE)
                raise Throw('index out of bounds')
            return vec.items[i]
        n = len(vec.items)
        self.safety('index-in-bounds', ult(idx, const(n, idx.w)))
        if n == 0:
            raise Throw('index out of bounds')
        if not all(isinstance(x, T) for x in vec.items):
            # split on the index value
            for i in range(n):
                if self.branch(eq(idx, const(i, idx.w))):
                    return vec.items[i]
            raise Infeasible()
        r = vec.items[n - 1]
        for i in range(n - 2, -1, -1):
            r = ite(eq(idx, const(i, idx.w)), vec.items[i], r)
        return r

    def store(self, lv, v):
        c, k = lv.c, lv.k
        if type(c) is SArr:
            return self.sarr_store(c, k, v)
        if isinstance(c, Proxy):
            return c.store(self, k, v)
        if type(c) is Vec and isinstance(k, T):
            if is_c(k):
                k = sval(k)
            else:
                n = len(c.items)
                self.safety('index-in-bounds', ult(k, const(n, k.w)))
                if not isinstance(v, T) or not all(isinstance(x, T) or x is UNINIT for x in c.items):
                    for i in range(n):
                        if self.branch(eq(k, const(i, k.w))):
                            return self.setc(c, i, v)
                    raise Infeasible()
                new = [ite(eq(k, const(i, k.w)), v, x if x is not UNINIT else app('uninit', [const(i, 64)], v.w)) for i, x in enumerate(c.items)]
                self.setc(c, '%items', new)
                return
        if type(c) is Vec and not (0 <= k < len(c.items)):
            self.safety('index-in-bounds', FALSE)
            raise Throw('index out of bounds')
        self.setc(c, k, v)

    # symbolic arrays
    def _mkelem(self, arr, vals):
        """build element value from leaves"""
        if () in arr.leaves:
            return vals[()]
        return arr.rec(vals)

    def sarr_load(self, arr, key):
        if isinstance(key, tuple) and key and key[0] == '%sub':
            _, idx, path = key
            sub = {p: w for p, w in arr.leaves.items() if p[:len(path)] == path}
            if path in sub:
                return self.sarr_read(arr, idx, path)
            return ('%subtree', arr, idx, path)
        if () in arr.leaves:
            return self.sarr_read(arr, key, ())
        vals = {p: self.sarr_read(arr, key, p) for p in arr.leaves}
        return build_elem(arr, vals)

    def sarr_read(self, arr, idx, path):
        if self.rlog is not None:
            self.rlog.append((arr, idx, path))
        if arr.n is not None:
            self.safety('element-in-bounds(%s)' % arr.name, self.inb(idx, arr.n))
        return self.layers_read(arr, arr.layers, idx, path)

    def inb(self, idx, n):
        c = ult(idx, n)
        if self.known(c):
            return TRUE
        return c

    def layers_read(self, arr, layers, idx, path):
        acc = []
        for L in reversed(layers):
            if path not in L.vals:
                continue
            m = self.invert(L, idx)
            if m is False:
                continue
            cond, sub = m
            cond = and_(cond, subst(L.cond, sub) if sub else L.cond)
            k = True if L.total else self.known(cond)
            if k is False:
                continue
            val = subst(L.vals[path], sub) if sub else L.vals[path]
            if k is True:
                r = val
                break
            acc.append((cond, val))
        else:
            r = arr.base_at(path, idx)
        for cond, val in reversed(acc):
            r = ite(cond, val, r)
        pe = self.ghost.get('perms')
        if pe and isinstance(r, T) and r.w >= 32:
            c = perm_core(r, pe)
            if c is not None:
                self.assume(ult(c, pe[c.args[0]][1]))
        return r

    def invert(self, L, j):
        """solve L.idx(params) == j; returns False | (cond, {var: term})"""
        if not L.params:
            c = eq(L.idx, j)
            k = self.known(c)
            if k is False:
                return False
            return (TRUE if k else c, {})
        r = solve_affine(L.idx, L.params, j, self)
        if r is False:
            return False
        if r is None:
            raise Unsupported('cannot invert array index %s at %s' % (pp(L.idx, 5), pp(j, 5)))
        cond, sub = r
        sub2 = {}
        for v, q in sub.items():
            if v.w < 64:
                sub2[zext(v, 64)] = q
                sub2[zext(v, 128)] = zext(q, 128)
                sub2[v] = trunc(q, v.w)
            else:
                sub2[v] = q
        for v, n in L.params:
            cond = and_(cond, self.simp(ult(sub[v], subst(n, sub2) if fv_in(n, L.params) else n)))
        return cond, sub2

    def simp(self, c):
        k = self.known(c)
        return c if k is None else (TRUE if k else FALSE)

    def sarr_store(self, arr, key, v):
        if isinstance(key, tuple) and key and key[0] == '%sub':
            _, idx, path = key
            if isinstance(v, T):
                vals = {path: v}
            else:
                vals = {path + p: x for p, x in leaf_values(v).items()}
        else:
            idx = key
            if isinstance(v, tuple) and v and v[0] == '%subtree':
                raise Unsupported('store of subtree')
            vals = leaf_values(v)
        if arr.n is not None:
            self.safety('element-in-bounds(%s)' % arr.name, self.inb(idx, arr.n))
        for p in vals:
            if p not in arr.leaves:
                raise Unsupported('leaf mismatch %r %r' % (p, arr.leaves))
            if vals[p] is UNINIT:
                vals[p] = app('uninit', [], arr.leaves[p])
            if vals[p].w != arr.leaves[p]:
                raise Unsupported('leaf width mismatch')
        if arr.tag == 'ro':
            raise Unsupported('write through a narrower view')
        self.setc(arr, '%layers', arr.layers + [Layer([], idx, vals)])

    # ------------------------------------------------------------ helpers
    def rv(self, x):
        return self.load(x) if type(x) is LV else x

    def lvof(self, x):
        """make an LV for a value or LV"""
        return x if type(x) is LV else LV(Cell(x))

    def unbase(self, o):
        while type(o) is Obj and '%base' in o.f:
            o = o.f['%base']
        return o

    def deref(self, p):
        if type(p) is LV:
            return p
        if isinstance(p, Ptr):
            if p.c is None:
                self.safety('null-dereference', FALSE)
                raise Throw('null pointer dereference')
            return LV(p.c, p.k)
        if isinstance(p, It):
            return LV(p.c, p.k)
        raise Unsupported('deref of %r' % (p,))

    def addr(self, lv):
        v = lv
        return Ptr(v.c, v.k)

    def copyval(self, v):
        if isinstance(v, T) or isinstance(v, (str, Ptr, It)) or v is UNINIT or v is None:
            return v
        if type(v) is Obj:
            return Obj(v.rec, {k: self.copyval(x) for k, x in v.f.items()})
        if type(v) is Vec:
            return Vec([self.copyval(x) for x in v.items], v.ety)
        if type(v) is Opt:
            return Opt(v.has, self.copyval(v.v))
        if type(v) is Map:
            return Map({k: self.copyval(x) for k, x in v.d.items()}, v.kty, v.vty)
        if type(v) is SArr:
            n = SArr(v.name, v.n, v.leaves, v.base, v.rec, v.ety)
            n.layers = list(v.layers)
            return n
        if isinstance(v, tuple) and v and v[0] == '%subtree':
            _, arr, idx, path = v
            sub = {p[len(path):]: self.sarr_read(arr, idx, p) for p in arr.leaves if p[:len(path)] == path}
            return tree_value(sub)
        f = getattr(v, 'copy', None)
        if f is not None:
            return f(self)
        if isinstance(v, (Closure, FnPtr, PyFn, Opaque)):
            return v
        return v

    def bv_of(self, v, w):
        return v

    # conversions between arithmetic types
    def conv(self, v, src, dst):
        if dst.k == 'bool':
            return self.tobool(v)
        if dst.k in ('int', 'enum'):
            if not isinstance(v, T):
                raise Unsupported('int conv of %r' % (v,))
            w = dst.w
            if v.w == 0:
                return b2bv(v, w)
            if v.w < 0:
                return self.fp2int(v, dst)
            if v.w == w:
                return v
            if v.w > w:
                return trunc(v, w)
            return sext(v, w) if src.sg else zext(v, w)
        if dst.k == 'float':
            if v.w < 0:
                if v.w == -dst.w:
                    return v
                return TM.build('fp.conv', (v,), -dst.w) if v.op != 'fp.const' else fpconst_conv(v, -dst.w)
            if v.w == 0:
                v = b2bv(v, 32)
                return TM.build('fp.fromubv', (v,), -dst.w)
            return TM.build('fp.fromsbv' if src.sg else 'fp.fromubv', (v,), -dst.w)
        raise Unsupported('conv to %s' % dst.s)

    def fp2int(self, v, dst):
        return TM.build('fp.tosbv' if dst.sg else 'fp.toubv', (v,), dst.w)

    def tobool(self, v):
        if isinstance(v, T):
            if v.w == 0:
                return v
            if v.w > 0:
                return not_(eq(v, const(0, v.w)))
            return not_(TM.build('fp.eq', (v, TM._mk('fp.const', (0,), v.w)), 0))
        if isinstance(v, Ptr):
            return FALSE if v.c is None else TRUE
        if isinstance(v, (Closure, FnPtr, PyFn)):
            return TRUE
        raise Unsupported('tobool %r' % (v,))

    def default(self, ty, zero=False, tu=None):
        """value of a default/zero-initialised object of type ty"""
        if ty.k == 'int' or ty.k == 'enum':
            return const(0, ty.w) if zero else UNINIT
        if ty.k == 'bool':
            return FALSE if zero else UNINIT
        if ty.k == 'float':
            return TM._mk('fp.const', (0,), -ty.w) if zero else UNINIT
        if ty.k in ('ptr', 'nullptr', 'mptr'):
            return NULL if zero else UNINIT
        if ty.k == 'arr':
            return Vec([self.default(ty.t, zero) for _ in range(ty.n)], ty.t)
        if ty.k == 'rec':
            r = self.P.recs.get(ty.r)
            return self.default_rec(r, ty, zero)
        raise Unsupported('default of %s' % ty.s)

    def default_rec(self, r, ty, zero):
        f = LIBDEFAULT.get(strip_targs(r.name))
        if f is not None:
            return f(self, r, zero)
        if not r.full:
            return Opaque(r.id)
        o = Obj(r, {})
        self.fill_bases(o, r, zero)
        return o

    def fill_bases(self, o, r, zero):
        for tid in r.bases_t:
            t = r.tu.types[tid]
            b = self.P.recs[t.r]
            bn = strip_targs(b.name)
            if bn in LIBDEFAULT:
                o.f['%base'] = LIBDEFAULT[bn](self, b, True)
            elif b.full:
                self.fill_bases(o, b, zero)
        for fd in r.fields:
            t = r.tu.types[fd['t']]
            o.f[fd['n']] = self.default(t, zero)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expr kind %s (%s)' % (e['k'], e.get('cls')))
        return m(e, fr)

    def evr(self, e, fr):
        """evaluate to value"""
        v = self.ev(e, fr)
        return self.load(v) if type(v) is LV else v

    def evlv(self, e, fr):
        v = self.ev(e, fr)
        return v if type(v) is LV else LV(Cell(v))

    def ty(self, e, fr):
        return fr.tu.types[e['t']]

    def e_int(self, e, fr):
        t = self.ty(e, fr)
        if t.k == 'bool':
            return TRUE if int(e['v']) else FALSE
        return const(int(e['v']), t.w)

    def e_flt(self, e, fr):
        t = self.ty(e, fr)
        if t.w not in (32, 64, 16):
            bits = int(e['bits'])
            if t.w == 128:
                return x87_to_f64(bits)
            raise Unsupported('long double')
        return TM._mk('fp.const', (int(e['bits']),), -t.w)

    def e_str(self, e, fr):
        s = e['v']
        return LV(Cell(s))

    def e_null(self, e, fr):
        return NULL

    def e_fref(self, e, fr):
        return FnPtr(self.P.fns[e['f']])

    def e_unsup(self, e, fr):
        if e.get('cls') == 'SourceLocExpr':
            return Opaque('srcloc')
        raise Unsupported('expr %s' % e.get('cls'))

    def e_this(self, e, fr):
        return self.addr(fr.this)

    def e_nopx(self, e, fr):
        return None

    def e_ref(self, e, fr):
        v = fr.vars.get(e['v'])
        if v is not None:
            return v
        if fr.clo is not None:
            v = fr.clo.caps.get(e['v'])
            if v is not None:
                return v
        if 'cv' in e:
            t = self.ty(e, fr)
            n = int(e['cv'])
            return LV(Cell((TRUE if n else FALSE) if t.k == 'bool' else const(n, t.w)))
        if e.get('sl'):
            v = self.statics.get((fr.tu, e['v']))
            if v is not None:
                return v
        g = fr.tu.globals.get(e['v'])
        if g is not None:
            return self.global_lv(fr.tu, g)
        raise Unsupported('unknown variable %s' % e.get('n'))

    def global_lv(self, tu, g):
        key = (tu, g['G'])
        lv = self.globals.get(key)
        if lv is None:
            h = GLOBALS.get(g['n'])
            t = tu.types[g['t']]
            if h is not None:
                v = h(self)
            elif 'init' in g:
                f = Frame(None, tu)
                v = self.ev(g['init'], f)
                if t.k == 'ref':
                    v = self.lvof(v)
                    self.globals[key] = v
                    return v
                v = self.rv(v)
            else:
                raise Unsupported('global %s' % g['n'])
            lv = LV(Cell(v))
            self.globals[key] = lv
        return lv

    def e_mem(self, e, fr):
        b = self.ev(e['o'], fr)
        if e['arrow']:
            b = self.deref(self.rv(b))
        o = self.rv(b)
        while isinstance(o, tuple) or not isinstance(o, Container) and not hasattr(o, 'get_member'):
            if isinstance(o, tuple) and o and o[0] == '%subtree':
                _, arr, idx, path = o
                return LV(arr, ('%sub', idx, path + (e['m'],)))
            raise Unsupported('member %s of %r' % (e['m'], o))
        if hasattr(o, 'get_member'):
            return o.get_member(self, e['m'])
        if type(o) is Obj:
            if type(b) is LV and type(b.c) is SArr:
                # element of a symbolic array: address the leaf
                arr, k = b.c, b.k
                idx, path = (k[1], k[2]) if isinstance(k, tuple) else (k, ())
                return LV(arr, ('%sub', idx, path + (e['m'],)))
            if e['m'] not in o.f:
                if o.rec is not None and o.rec.union and len(o.f) == 1:
                    return LV(UnionProxy(o, e['m'], self.ty(e, fr)), None)
                raise Unsupported('no field %s in %s' % (e['m'], o.rec))
            return LV(o, e['m'])
        raise Unsupported('member %s of %r' % (e['m'], o))

    def e_mat(self, e, fr):
        v = self.ev(e['e'], fr)
        return v if type(v) is LV else LV(Cell(v))

    def e_idx(self, e, fr):
        a = self.evr(e['a'], fr)
        i = self.evr(e['i'], fr)
        if isinstance(i, Ptr):
            a, i = i, a
        it = fr.tu.types[e['i']['t']]
        return self.ptr_index(a, i, it)

    def ptr_index(self, a, i, it=None):
        p = self.ptr_add(a, i, it)
        return self.deref(p)

    def ptr_add(self, p, i, it=None):
        if isinstance(p, str):
            p = Ptr(StrProxy(p), const(0, 64))
        if isinstance(p, It):
            return It(p.c, self.keyadd(p.k, i), p.kind)
        if not isinstance(p, Ptr):
            raise Unsupported('pointer arithmetic on %r' % (p,))
        if isinstance(i, T) and i.w != 64:
            i = sext(i, 64) if (it is None or it.sg) else zext(i, 64)
        if is_c(i) and cval(i) == 0:
            return p
        if p.c is None:
            raise Unsupported('arithmetic on null')
        if type(p.c) is Cell or type(p.c) is Obj:
            raise Unsupported('pointer arithmetic on scalar object')
        return Ptr(p.c, self.keyadd(p.k, i), p.extra)

    def keyadd(self, k, i):
        if isinstance(k, int) and is_c(i):
            return k + sval(i)
        if isinstance(k, int):
            k = const(k, 64)
        r = add(k, i)
        if is_c(r):
            return sval(r)
        return r

    def e_zero(self, e, fr):
        return self.default(self.ty(e, fr), True)

    def e_stmtexpr(self, e, fr):
        raise Unsupported('statement expression')

    def e_throw(self, e, fr):
        raise Throw('throw')

    def e_typeid(self, e, fr):
        if 'at' in e:
            return LV(Cell(Opaque('typeid', name=fr.tu.types[e['at']].s)))
        raise Unsupported('typeid of expr')

    def e_new(self, e, fr):
        t = fr.tu.types[e['at']]
        if 'n' in e:
            n = self.evr(e['n'], fr)
            return self.new_array(t, n, 'e' in e)
        v = self.evr(e['e'], fr) if e.get('e') else self.default(t, False)
        return Ptr(Cell(v))

    def new_array(self, t, n, zero):
        if is_c(n):
            return Ptr(Vec([self.default(t, zero) for _ in range(cval(n))], t), 0)
        return Ptr(self.sarr_new('new', n, t), const(0, 64))

    def e_delete(self, e, fr):
        return None

    def e_arrcopy(self, e, fr):
        return self.copyval(self.evr(e['e'], fr))

    def e_stdil(self, e, fr):
        v = self.evr(e['e'], fr)
        return v

    def e_il(self, e, fr):
        t = self.ty(e, fr)
        a = [self.ev(x, fr) for x in e['a']]
        if t.k == 'rec':
            r = self.P.recs[t.r]
            rn = strip_targs(r.name)
            if rn == 'std::array':
                inner = a[0] if len(a) == 1 and isinstance(self.rv(a[0]), Vec) and e['a'][0]['k'] == 'il' else None
                if inner is not None:
                    return self.rv(inner)
                vals = [self.rv(x) for x in a]
                n = r.ta[1]
                while len(vals) < n:
                    vals.append(self.default(r.ta[0], True))
                return Vec(vals, r.ta[0])
            if r.full:
                o = Obj(r, {})
                if r.union:
                    fd = e.get('uf') or r.fields[0]['n']
                    o.f[fd] = self.rv(a[0]) if a else self.default(r.tu.types[r.fields[0]['t']], True)
                    return o
                nb = 0
                bases = self.P.bases(r)
                if bases and a:
                    for b in bases:
                        bv = self.rv(a[nb])
                        nb += 1
                        if type(bv) is Obj:
                            o.f.update(bv.f)
                        else:
                            o.f['%base'] = bv
                for i, fd in enumerate(r.fields):
                    ft = r.tu.types[fd['t']]
                    if i + nb < len(a):
                        x = a[i + nb]
                        if ft.k == 'ref':
                            o.f[fd['n']] = self.lvof(x)
                        else:
                            o.f[fd['n']] = self.rv(x)
                    elif 'init' in fd:
                        f2 = Frame(None, r.tu)
                        f2.this = LV(Cell(o))
                        o.f[fd['n']] = self.rv(self.ev(fd['init'], f2))
                    else:
                        o.f[fd['n']] = self.default(ft, True)
                return o
            if not a and rn.startswith('std::'):
                return Opaque(rn)
            raise Unsupported('init list for %s' % t.s)
        if t.k == 'arr':
            vals = [self.rv(x) for x in a]
            n = t.n
            if len(vals) == 1 and isinstance(vals[0], str) and n != 1:
                return vals[0]
            while len(vals) < n:
                if e.get('fill') is not None:
                    vals.append(self.evr(e['fill'], fr))
                else:
                    vals.append(self.default(t.t, True))
            return Vec(vals, t.t)
        if not a:
            return self.default(t, True)
        return self.rv(a[0]) if not e.get('lv') else a[0]

    def e_lambda(self, e, fr):
        caps = {}
        for c in e['c']:
            if 'this' in c:
                if c['this'] == 2:
                    caps['this'] = LV(Cell(self.copyval(self.rv(fr.this))))
                else:
                    caps['this'] = fr.this
            elif c.get('ref'):
                if 'e' in c:
                    caps[c['v']] = self.evlv(c['e'], fr)
                else:
                    caps[c['v']] = self.e_ref({'v': c['v'], 'n': c.get('n'), 't': c['t']}, fr)
            else:
                v = self.evr(c['e'], fr) if 'e' in c else self.rv(self.e_ref({'v': c['v'], 'n': c.get('n'), 't': c['t']}, fr))
                caps[c['v']] = LV(Cell(self.copyval(v)))
        fn = self.P.fns.get(e['f']) if 'f' in e else None
        return Closure(e['r'], caps, fn, fr.tu)

    # --- unary / binary
    def e_un(self, e, fr):
        op = e['op']
        if op in ('++', '--'):
            lv = self.evlv(e['e'], fr)
            v = self.rv(lv)
            t = fr.tu.types[e['e']['t']]
            if isinstance(v, (Ptr, It)):
                nv = self.ptr_add(v, const(1 if op == '++' else -1, 64))
            elif v.w > 0:
                nv = add(v, const(1 if op == '++' else -1, v.w))
            else:
                raise Unsupported('++ on %r' % v)
            self.store(lv, nv)
            return v if e['post'] else lv
        if op == '&':
            lv = self.ev(e['e'], fr)
            if type(lv) is not LV:
                if isinstance(lv, FnPtr):
                    return lv
                raise Unsupported('address of rvalue')
            return self.addr(lv)
        if op == '*':
            p = self.evr(e['e'], fr)
            if isinstance(p, FnPtr):
                return p
            return self.deref(p)
        if op == '__extension__':
            return self.ev(e['e'], fr)
        v = self.evr(e['e'], fr)
        if op == '!':
            return not_(self.tobool(v))
        if op == '-':
            if v.w < 0:
                return fp1('neg', v)
            return neg(v)
        if op == '~':
            return bnot(v)
        if op == '+':
            return v
        raise Unsupported('unary %s' % op)

    def purish(self, e):
        """expression that cannot write or throw"""
        c = e.get('%pure')
        if c is None:
            c = _pure(e)
            e['%pure'] = c
        return c

    def e_bin(self, e, fr):
        op = e['op']
        if op == '&&' or op == '||':
            a = self.tobool(self.evr(e['a'], fr))
            k = self.known(a)
            if k is not None:
                if (op == '&&') != k:
                    return FALSE if op == '&&' else TRUE
                return self.tobool(self.evr(e['b'], fr))
            if self.purish(e['b']):
                d = self.dec
                di = len(d.taken)
                replay = di < len(d.prefix)
                if replay:
                    tag, ok = d.prefix[di]
                    if tag != 'm':
                        raise Unsupported('replay of a path went another way')
                else:
                    ok = id(e) not in self.nomerge
                d.taken.append(('m', ok))
                if ok:
                    m = self.pcmark()
                    lm = len(self.log)
                    nt = len(self.throws)
                    nc = len(self.checks)
                    try:
                        self.assume(a if op == '&&' else not_(a))
                        b = self.merge(lambda: self.tobool(self.evr(e['b'], fr)))
                        self.pcreset(m)
                        if len(self.log) == lm and len(self.throws) == nt:
                            return and_(a, b) if op == '&&' else or_(a, b)
                    except (Unsupported, Throw, NoMerge, Infeasible):
                        pass
                    if replay:
                        raise Unsupported('replay of a path could not be joined')
                    self.pcreset(m)
                    self.rollback(lm)
                    del self.throws[nt:]
                    del self.checks[nc:]
                    self.nomerge.add(id(e))
                    d.taken[di] = ('m', False)
            if self.branch(a):
                return self.tobool(self.evr(e['b'], fr)) if op == '&&' else TRUE
            return FALSE if op == '&&' else self.tobool(self.evr(e['b'], fr))
        if op == ',':
            self.ev(e['a'], fr)
            return self.ev(e['b'], fr)
        if op == '=':
            b = self.evr(e['b'], fr)
            lv = self.evlv(e['a'], fr)
            self.store(lv, b)
            return lv
        a = self.evr(e['a'], fr)
        b = self.evr(e['b'], fr)
        return self.arith(op, a, b, fr.tu.types[e['a']['t']], fr.tu.types[e['b']['t']], self.ty(e, fr))

    def arith(self, op, a, b, ta, tb, tr):
        if not isinstance(a, T) or not isinstance(b, T):
            return self.ptr_arith(op, a, b, ta, tb)
        if a.w < 0 or b.w < 0:
            return fp2(op, a, b)
        if a.w == 0 and b.w == 0:
            if op == '==':
                return not_(xor_b(a, b))
            if op == '!=':
                return xor_b(a, b)
            raise Unsupported('bool arith ' + op)
        if op in ('<<', '>>'):
            if self.check_shift and not is_c(b):
                self.safety('shift-amount', ult(b, const(a.w, b.w)))
            if is_c(b) and (cval(b) >= a.w):
                self.safety('shift-amount', FALSE)
            if b.w != a.w:
                b = zext(b, a.w) if b.w < a.w else (trunc(b, a.w) if is_c(b) else trunc(b, a.w))
            if op == '<<':
                return shl(a, b)
            return ashr(a, b) if ta.sg else lshr(a, b)
        if a.w != b.w:
            raise Unsupported('width mismatch %s %d %d' % (op, a.w, b.w))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '&':
            return band(a, b)
        if op == '|':
            return bor(a, b)
        if op == '^':
            return bxor(a, b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op in ('<', '>', '<=', '>='):
            if op == '>':
                a, b = b, a
            elif op == '<=':
                a, b = b, a
            lt = slt(a, b) if ta.sg else ult(a, b)
            return not_(lt) if op in ('<=', '>=') else lt
        if op in ('/', '%'):
            z = eq(b, const(0, b.w))
            if z is not FALSE:
                self.safety('division-by-zero', not_(z))
            if op == '/':
                q = ratio(a, b)         # the divisor is nonzero: required just above
                if q is not None:
                    return q
                return sdiv(a, b) if ta.sg else udiv(a, b)
            return srem(a, b) if ta.sg else urem(a, b)
        raise Unsupported('op %s' % op)

    def ptr_arith(self, op, a, b, ta, tb):
        if op in ('==', '!='):
            r = self.ptr_eq(a, b)
            return r if op == '==' else not_(r)
        if op == '+':
            if isinstance(a, T):
                a, b, ta, tb = b, a, tb, ta
            return self.ptr_add(a, b, tb)
        if op == '-':
            if isinstance(b, T):
                b2 = sext(b, 64) if tb.sg else zext(b, 64)
                return self.ptr_add(a, neg(b2))
            if a.c is b.c:
                return sub(self.kt(a.k), self.kt(b.k))
        if op in ('<', '>', '<=', '>=') and a.c is b.c:
            x, y = self.kt(a.k), self.kt(b.k)
            if op in ('>', '<='):
                x, y = y, x
            lt = slt(x, y)
            return lt if op in ('<', '>') else not_(lt)
        raise Unsupported('pointer op %s' % op)

    def kt(self, k):
        return const(k, 64) if isinstance(k, int) else k

    def ptr_eq(self, a, b):
        if isinstance(a, (Ptr, It)) and isinstance(b, (Ptr, It)):
            if a.c is None or b.c is None:
                return TRUE if a.c is b.c else FALSE
            if a.c is not b.c:
                if isinstance(a.c, Proxy) and isinstance(b.c, Proxy) and a.c.same(b.c):
                    pass
                else:
                    return FALSE
            if a.k is None or b.k is None or isinstance(a.k, str) or isinstance(b.k, str):
                return TRUE if a.k == b.k else FALSE
            if isinstance(a.k, tuple) or isinstance(b.k, tuple):
                return TRUE if a.k == b.k else FALSE
            return eq(self.kt(a.k), self.kt(b.k))
        if a is b:
            return TRUE
        raise Unsupported('compare %r %r' % (a, b))

    def e_cas(self, e, fr):
        lv = self.evlv(e['a'], fr)
        b = self.evr(e['b'], fr)
        a = self.rv(lv)
        op = e['op'][:-1]
        ta = fr.tu.types[e['a']['t']]
        tb = fr.tu.types[e['b']['t']]
        lt = fr.tu.types[e['lt']]
        ct = fr.tu.types[e['ct']]
        if not isinstance(a, T):
            if a is UNINIT:
                raise Unsupported('compound assignment to uninitialised')
            r = self.ptr_arith(op, a, b, ta, tb)
        else:
            a2 = self.conv(a, ta, lt)
            r = self.arith(op, a2, b, lt, tb, ct)
            r = self.conv(r, ct, ta)
        self.store(lv, r)
        return lv

    def e_cond(self, e, fr):
        c = self.tobool(self.evr(e['c'], fr))
        k = self.known(c)
        if k is not None:
            return self.ev(e['a'] if k else e['b'], fr)
        ok, v = self.try_merge(id(e), lambda: self.evr(e['a'], fr) if self.branch(c) else self.evr(e['b'], fr))
        if ok:
            return v
        return self.ev(e['a'] if self.branch(c) else e['b'], fr)

    def e_cast(self, e, fr):
        ck = e['ck']
        if ck == 'LValueToRValue':
            lv = self.ev(e['e'], fr)
            v = self.load(lv) if type(lv) is LV else lv
            if type(v) is LV:
                v = self.load(v)
            if v is UNINIT:
                t = self.ty(e, fr)
                if t.k in ('int', 'enum', 'bool', 'float'):
                    w = {'bool': 0}.get(t.k, t.w if t.k != 'float' else -t.w)
                    return fresh('uninit', w)
            return v
        sub = e['e']
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return self.ev(sub, fr)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.ev(sub, fr)
        if ck == 'Dynamic':
            return self.dyncast(e, fr)
        t = self.ty(e, fr)
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral', 'BooleanToSignedIntegral'):
            v = self.evr(sub, fr)
            return self.conv(v, fr.tu.types[sub["t"]], t)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(self.evr(sub, fr))
        if ck == 'ArrayToPointerDecay':
            lv = self.ev(sub, fr)
            v = self.rv(lv)
            if isinstance(v, str):
                return Ptr(StrProxy(v), const(0, 64), v)
            if type(v) is Vec:
                return Ptr(v, 0)
            if type(v) is SArr:
                return Ptr(v, const(0, 64))
            raise Unsupported('array decay %r' % (v,))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(sub, fr)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            self.ev(sub, fr)
            return None
        if ck == 'BitCast':
            p = self.evr(sub, fr)
            return self.ptr_cast(p, fr.tu.types[sub['t']], t)
        if ck == 'LValueBitCast':
            lv = self.evlv(sub, fr)
            p = self.ptr_cast(self.addr(lv), None, None, fr.tu.types[sub['t']], t)
            return self.deref(p)
        if ck == 'IntegralToPointer':
            v = self.evr(sub, fr)
            if is_c(v) and cval(v) == 0:
                return NULL
        raise Unsupported('cast %s' % ck)

    def dyncast(self, e, fr):
        v = self.ev(e['e'], fr)
        t = self.ty(e, fr)
        if t.k == 'ptr':
            p = self.rv(v)
            if p.c is None:
                return p
            o = self.rv(self.deref(p))
            tgt = t.t.r
        else:
            o = self.rv(v)
            tgt = t.r
        rec = getattr(o, 'rec', None)
        if rec is None:
            h = getattr(o, 'isa', None)
            if h is None:
                raise Unsupported('dynamic_cast of %r' % (o,))
            ok = h(tgt)
        else:
            ok = self.P.derives(rec, tgt)
        if ok:
            return v if t.k != 'ptr' else p
        if t.k == 'ptr':
            return NULL
        raise Throw('bad_cast')

    def ptr_cast(self, p, st, dt, se=None, de=None):
        se = se or (st.t if st is not None else None)
        de = de or (dt.t if dt is not None else None)
        if not isinstance(p, Ptr) or p.c is None:
            return p
        return PTRCAST(self, p, se, de)

    # ------------------------------------------------------------ calls
    def evargs(self, lst, fr):
        return [self.ev(x, fr) for x in lst]

    def e_call(self, e, fr):
        if 'cv' in e and not e.get('lv'):
            t = self.ty(e, fr)
            if t.k in ('int', 'enum', 'bool'):
                n = int(e['cv'])
                return (TRUE if n else FALSE) if t.k == 'bool' else const(n, t.w)
        if 'f' in e:
            fn = self.P.fns[e['f']]
            args = self.evargs(e['a'], fr)
            if e.get('memop'):
                this = args[0]
                if type(this) is not LV:
                    this = LV(Cell(this))
                return self.call(fn, args[1:], this, self.ty(e, fr), e, fr)
            return self.call(fn, args, None, self.ty(e, fr), e, fr)
        cal = self.evr(e['cal'], fr)
        args = self.evargs(e['a'], fr)
        return self.call_value(cal, args, self.ty(e, fr), e, fr)

    def call_value(self, cal, args, ty=None, e=None, fr=None):
        if isinstance(cal, Ptr) and cal.c is not None:
            cal = self.rv(self.deref(cal))
        if isinstance(cal, FnPtr):
            return self.call(cal.fn, args, None, ty, e, fr)
        if isinstance(cal, Closure):
            fn = cal.fn
            if fn is None:
                rec = self.P.recs.get(cal.rec)
                fid = rec.call if rec is not None else None
                fn = self.P.fns.get(fid) if fid else None
            if fn is None:
                # generic lambda called through a value: pick the only instantiation
                c = [f for f in self.P.fns.values() if f.rec == cal.rec and f.hasbody and f.simple == 'operator()']
                if len(c) == 1:
                    fn = c[0]
                elif len(c) > 1:
                    fn = self.pick_inst(c, args)
                if fn is None:
                    raise Unsupported('generic lambda without body')
            return self.invoke(fn, args, None, cal)
        if isinstance(cal, PyFn):
            return cal.f(self, args)
        if type(cal) is Obj:
            c = [f for f in self.P.fns.values() if f.rec == cal.rec.id and f.simple == 'operator()' and f.hasbody]
            if len(c) == 1:
                return self.invoke(c[0], args, LV(Cell(cal)), None)
        raise Unsupported('call of %r' % (cal,))

    def pick_inst(self, cands, args):
        best = []
        for f in cands:
            if len(f.params) != len(args):
                continue
            ok = True
            for (v, n, t), a in zip(f.params, args):
                x = self.rv(a)
                tt = t.t if t.k == 'ref' else t
                if isinstance(x, T):
                    w = {'bool': 0, 'float': -tt.w}.get(tt.k, tt.w)
                    if tt.k not in ('int', 'enum', 'bool', 'float') or w != x.w:
                        ok = False
                elif tt.k in ('int', 'enum', 'bool', 'float'):
                    ok = False
            if ok:
                best.append(f)
        return best[0] if len(best) == 1 else None

    def e_mcall(self, e, fr):
        if 'cal' in e:
            raise Unsupported('member pointer call')
        b = self.ev(e['o'], fr)
        if e['arrow']:
            this = self.deref(self.rv(b))
        else:
            this = b if type(b) is LV else LV(Cell(b))
        fn = self.P.fns[e['f']]
        args = self.evargs(e['a'], fr)
        if e.get('virt'):
            o = self.rv(this)
            rec = getattr(o, 'rec', None)
            if isinstance(o, Obj) and rec is not None:
                f2 = self.P.vresolve(rec, e['f'])
                if f2 is not None:
                    fn = self.P.fns[f2]
        return self.call(fn, args, this, self.ty(e, fr), e, fr)

    def e_ctor(self, e, fr):
        t = self.ty(e, fr)
        if t.k == 'arr':
            # array of class type
            return Vec([self.ctor_value(t.t, e, [], fr) for _ in range(t.n)], t.t)
        fn = self.P.fns[e['f']]
        if (fn.copy or fn.move) and len(e['a']) == 1 and e.get('elide') and not e['a'][0].get('lv'):
            return self.ev(e['a'][0], fr)
        args = self.evargs(e['a'], fr)
        return self.construct(t, fn, args, e, fr)

    def ctor_value(self, t, e, args, fr):
        return self.construct(t, self.P.fns[e['f']], args, e, fr)

    def construct(self, t, fn, args, e, fr):
        rec = self.P.recs[t.r]
        bn = basename(fn)
        h = self.overrides.get(bn) or self.contracts.get(bn)
        if h is not None:
            r = h(self, Call(self, fr, fn, args, None, t, e))
            if r is not NotImplemented:
                return r
        if len(args) == 2:
            ka, kb = (self.rv(a) for a in args)
            if isinstance(ka, It) and isinstance(kb, It) and isinstance(ka.kind, tuple) and ka.kind[0] == 'ashape' and isinstance(kb.kind, tuple) \
                    and ka.kind[1] is kb.kind[1] and (ka.k, kb.k) == (0, -1):
                return ka.kind[1]   # the whole range of an abstract shape
        if (fn.copy or fn.move) and len(args) >= 1 and (fn.dflt or not fn.hasbody):
            v = self.rv(args[0])
            if fn.copy or not getattr(v, 'moveonly', False):
                return self.copyval(v)
            return v
        if rec.full and not rec.lam:
            rn = strip_targs(rec.name)
            if rn not in LIBDEFAULT:
                o = Obj(rec, {})
                if e is not None and e.get('zero'):
                    self.fill_bases(o, rec, True)
                self.run_ctor(fn, args, o, fr)
                b = o.f.get('%base')
                if rn == 'spu::Shape' and getattr(b, 'abstract_shape', False):
                    return b
                return o
        b = BUILTINS.get(bn)
        if b is not None:
            self.used_builtins[bn] = self.used_builtins.get(bn, 0) + 1
            return b(self, Call(self, fr, fn, args, None, t, e))
        if rec.lam:
            return self.copyval(self.rv(args[0]))
        raise Unsupported('constructor %s' % fn.name)

    def run_ctor(self, fn, args, o, fr):
        """construct into o (Obj); o.rec may be derived"""
        rec = self.P.recs[fn.rec]
        if fn.hasbody or fn.inits:
            f2 = Frame(fn, fn.tu)
            f2.this = LV(Cell(o))
            self.bind(f2, fn, args)
            f2.args = args
            done = set()
            for i in fn.inits:
                if 'deleg' in i:
                    v = self.evr_ctor_into(i['e'], o, f2)
                elif 'base' in i:
                    bt = fn.tu.types[i['base']]
                    brec = self.P.recs[bt.r]
                    x = i['e']
                    if strip_targs(brec.name) in LIBDEFAULT or not brec.full:
                        if x['k'] == 'inhctor':
                            bf = self.P.fns[x['f']]
                            v = self.construct(bt, bf, args, None, f2)
                        else:
                            v = self.evr(x, f2)
                        if strip_targs(brec.name) in LIBDEFAULT:
                            o.f['%base'] = v
                        continue
                    if x['k'] == 'inhctor':
                        self.run_ctor(self.P.fns[x['f']], args, o, f2)
                    elif x['k'] == 'ctor':
                        self.evr_ctor_into(x, o, f2)
                    else:
                        v = self.evr(x, f2)
                        if type(v) is Obj:
                            o.f.update(v.f)
                elif 'm' in i:
                    fd = next((x for x in rec.fields if x['n'] == i['m']), None)
                    ft = rec.tu.types[fd['t']] if fd is not None else None
                    v = self.ev(i['e'], f2)
                    if ft is not None and ft.k == 'ref':
                        o.f[i['m']] = self.lvof(v)
                    else:
                        o.f[i['m']] = self.rv(v)
                    done.add(i['m'])
            for fd in rec.fields:
                if fd['n'] not in o.f and not rec.union:
                    o.f[fd['n']] = self.default(rec.tu.types[fd['t']], False)
            if fn.body:
                try:
                    self.st(fn.body, f2)
                except Return:
                    pass
            return o
        if fn.copy or fn.move:
            s = self.rv(args[0])
            s = self.unb(s)
            for k, v in s.f.items():
                o.f[k] = self.copyval(v)
            return o
        if fn.dflt or not args:
            self.fill_bases_default(o, rec)
            return o
        raise Unsupported('constructor without body %s' % fn.name)

    def unb(self, s):
        return s

    def fill_bases_default(self, o, r):
        for b in self.P.bases(r):
            bn = strip_targs(b.name)
            if bn in LIBDEFAULT:
                o.f['%base'] = LIBDEFAULT[bn](self, b, True)
            elif b.full:
                self.fill_bases_default(o, b)
        for fd in r.fields:
            t = r.tu.types[fd['t']]
            if 'init' in fd:
                f2 = Frame(None, r.tu)
                f2.this = LV(Cell(o))
                o.f[fd['n']] = self.rv(self.ev(fd['init'], f2))
            elif fd['n'] not in o.f:
                o.f[fd['n']] = self.default(t, False)

    def evr_ctor_into(self, x, o, fr):
        if x['k'] != 'ctor':
            v = self.evr(x, fr)
            if type(v) is Obj:
                o.f.update(v.f)
            return o
        fn = self.P.fns[x['f']]
        args = self.evargs(x['a'], fr)
        return self.run_ctor(fn, args, o, fr)

    def bind(self, f2, fn, args):
        n = len(fn.params)
        for i, (vid, name, t) in enumerate(fn.params):
            if i >= len(args):
                raise Unsupported('missing argument in call of %s' % fn.name)
            a = args[i]
            if t.k == 'ref':
                f2.vars[vid] = a if type(a) is LV else LV(Cell(a))
            else:
                v = self.load(a) if type(a) is LV else a
                if type(v) is tuple:
                    v = self.copyval(v)
                if isinstance(v, T) and t.k in ('int', 'enum') and t.w and v.w > 1 and v.w != t.w and is_c(v):
                    v = const(sval(v), t.w)       # forwarded literal (make_unique and the like)
                f2.vars[vid] = LV(Cell(v))

    def call(self, fn, args, this, ty, e, fr):
        bn = basename(fn)
        c = Call(self, fr, fn, args, this, ty, e)
        if this is not None:
            o = self.rv(this)
            if type(o) is Vec and type(this) is LV and type(this.c) is SArr and fn.simple in ('operator[]', 'at'):
                # component of an element of a symbolic array
                i = c.val(0)
                if not is_c(i):
                    raise Unsupported('symbolic component of an array element')
                i = cval(i)
                if i >= len(o.items):
                    self.safety('index-in-bounds', FALSE)
                    raise Throw('index out of bounds')
                k = this.k
                idx, path = (k[1], k[2]) if isinstance(k, tuple) and k and k[0] == '%sub' else (k, ())
                return LV(this.c, ('%sub', idx, path + (i,)))
            if not isinstance(o, (T, Obj)):
                h = ARRM.get((type(o), fn.simple))
                if h is None and type(o) in ARRCLS and not isinstance(o, Closure):
                    g = ARRCLS[type(o)]
                    h = g(fn.simple)
                if h is not None:
                    r = h(self, o, c)
                    if r is not NotImplemented:
                        return r
            if isinstance(o, Closure) and fn.simple == 'operator()':
                if fn.hasbody:
                    return self.invoke(fn, args, None, o)
                return self.call_value(o, args, ty, e, fr)
        h = self.overrides.get(bn)
        if h is not None:
            r = h(self, c)
            if r is not NotImplemented:
                return r
        h = self.contracts.get(bn)
        if h is not None:
            r = h(self, c)
            if r is not NotImplemented:
                self.used_contracts[bn] = self.used_contracts.get(bn, 0) + 1
                return r
        if fn.noret:
            why = ''
            if args:
                v = self.rv(args[0])
                v = getattr(getattr(v, 'c', None), 's', v)
                why = ': ' + v if isinstance(v, str) else ''
            raise Throw(bn + why)
        if fn.hasbody and not (fn.body is None):
            return self.invoke(fn, args, this, None)
        if (fn.copy or fn.move) and fn.ctor:
            return self.copyval(self.rv(args[0]))
        if fn.simple == 'operator=' and this is not None and (fn.copy or fn.move or fn.dflt or len(args) == 1):
            b = BUILTINS.get(bn)
            if b is not None:
                return b(self, c)
            src = self.rv(args[0])
            self.assign(this, src)
            return this
        b = BUILTINS.get(bn)
        if b is None and this is not None:
            u = self.unbase(self.rv(this))
            h = ARRM.get((type(u), fn.simple))
            if h is None and type(u) in ARRCLS and not isinstance(u, Closure):
                h = ARRCLS[type(u)](fn.simple)
            if h is not None:
                r = h(self, u, c)
                if r is not NotImplemented:
                    return r
        if b is None and bn.startswith('operator') is False:
            b = BUILTINS.get(fn.simple) if bn.startswith('std::') or '::' not in bn else None
        if b is None:
            m = GENERIC.get(fn.simple)
            if m is not None:
                r = m(self, c)
                if r is not NotImplemented:
                    return r
            raise Unsupported('call of %s (no body, no contract) on %r' % (fn.name, self.rv(this) if this is not None else None))
        self.used_builtins[bn] = self.used_builtins.get(bn, 0) + 1
        return b(self, c)

    def assign(self, lv, src):
        """class assignment"""
        src = self.copyval(src)
        dst = self.rv(lv)
        if type(dst) is Obj and type(src) is Obj and (type(lv.c) is Cell):
            for k, v in src.f.items():
                if dst.f.get(k) is not v:
                    self.setc(dst, k, v)
            return
        self.store(lv, src)

    def invoke(self, fn, args, this, clo):
        key = fn.id
        self.executed[key] = self.executed.get(key, 0) + 1
        d = self.recdepth.get(key, 0)
        if d > 60:
            raise Unsupported('recursion in %s' % fn.name)
        if self.depth > 300:
            raise Unsupported('call depth')
        self.recdepth[key] = d + 1
        self.depth += 1
        try:
            ok, v = self.try_merge(key, lambda: self.invoke0(fn, args, this, clo))
            return v if ok else self.invoke0(fn, args, this, clo)
        finally:
            self.depth -= 1
            self.recdepth[key] = d

    def invoke0(self, fn, args, this, clo):
        f2 = Frame(fn, fn.tu)
        f2.this = this
        f2.args = args
        f2.clo = clo
        if clo is not None:
            f2.this = clo.caps.get('this')
        self.bind(f2, fn, args)
        try:
            self.st(fn.body, f2)
        except Return as r:
            v = r.v
            if fn.ret.k == 'ref':
                return v if type(v) is LV else LV(Cell(v))
            v = self.load(v) if type(v) is LV else v
            if type(v) is tuple:
                v = self.copyval(v)
            return v
        if fn.ret.k == 'void' or fn.ctor or fn.dtor:
            return None
        self.safety('falls-off-end(%s)' % fn.name, FALSE)
        raise Infeasible()

    # ------------------------------------------------------------ merging sub-exploration
    def merge(self, run):
        mark = len(self.log)
        pcm = len(self.pc)
        outer = self.dec
        d = Decider([])
        self.dec = d
        nf0, self.newfacts = self.newfacts, []
        try:
            try:
                v = run()
                out = ('v', v)
            except Return as r:
                out = ('ret', r.v)
            except Break:
                out = ('brk', None)
            except Continue:
                out = ('cnt', None)
            except Throw as t:
                if not d.alts:
                    raise
                out = ('thr', t)
            except Infeasible:
                if not d.alts:
                    raise
                out = ('inf', None)
            if not d.alts:
                return self.unout(out)
            results = []
            work = list(d.alts)
            results.append(self.collect(mark, pcm, out))
            np = 1
            while work:
                pre = work.pop()
                d = Decider(pre)
                self.dec = d
                np += 1
                if np > self.maxpaths:
                    raise Unsupported('too many paths')
                try:
                    out = ('v', run())
                except Return as r:
                    out = ('ret', r.v)
                except Break:
                    out = ('brk', None)
                except Continue:
                    out = ('cnt', None)
                except Throw as t:
                    out = ('thr', t)
                except Infeasible:
                    out = ('inf', None)
                work.extend(d.alts)
                results.append(self.collect(mark, pcm, out))
        except (Unsupported, NoMerge):
            self.rollback(mark)
            self.pcreset(pcm)
            self.dec = outer
            raise
        finally:
            self.dec = outer
            facts, self.newfacts = self.newfacts, nf0
        for f in facts:
            if f not in self.pcset:
                self.fact(f)
        return self.combine(results, mark)

    def unout(self, out):
        k, v = out
        if k == 'v':
            return v
        if k == 'ret':
            raise Return(v)
        if k == 'brk':
            raise Break()
        if k == 'cnt':
            raise Continue()

    def collect(self, mark, pcm, out):
        new = self.pc[pcm:]
        pc = and_(*[c for c in new if c not in self.factset]) if new else TRUE
        self.newfacts += [c for c in new if c in self.factset]
        writes = {}
        for c, k, old in self.log[mark:]:
            kk = (id(c), k)
            if kk not in writes:
                writes[kk] = (c, k, old)
        w = {kk: (c, k, c.get(k), old) for kk, (c, k, old) in writes.items()}
        self.rollback(mark)
        self.pcreset(pcm)
        return pc, out, w

    def combine(self, results, mark):
        live = []
        for pc, out, w in results:
            if out[0] == 'inf':
                continue
            if out[0] == 'thr':
                self.throws.append((and_(*(self.pc + [pc])), out[1].msg))
                self.assume(not_(pc))
                continue
            live.append((pc, out, w))
        if not live:
            raise Throw('all paths throw')
        kinds = {o[0] for _, o, _ in live}
        if len(kinds) > 1:
            raise NoMerge()
        # value
        try:
            v = self.mergevals([(pc, o[1]) for pc, o, _ in live])
        except NoMerge:
            raise
        keys = {}
        for pc, o, w in live:
            for kk, (c, k, new, old) in w.items():
                keys[kk] = (c, k, old)
        newv = []
        for kk, (c, k, old) in keys.items():
            vs = [(pc, w[kk][2] if kk in w else old) for pc, o, w in live]
            if k == '%layers':
                newv.append((c, k, self.mergelayers(old, vs)))
            elif any(x is UNINIT for _, x in vs) and not all(x is UNINIT for _, x in vs):
                ok = [(p, x) for p, x in vs if x is not UNINIT]
                newv.append((c, k, self.mergevals(ok)))
            else:
                newv.append((c, k, self.mergevals(vs)))
        for c, k, x in newv:
            self.setc(c, k, x)
        # path facts: disjunction holds
        return self.unout((live[0][1][0], v))

    def mergelayers(self, old, vs):
        n = len(old)
        out = list(old)
        exts = [(pc, x[n:]) for pc, x in vs]
        # element-wise merge when every path wrote the same elements in the same order
        if all(len(e) == len(exts[0][1]) for _, e in exts) and all(
                all(a.idx is b.idx and a.params == b.params and a.cond is b.cond and set(a.vals) == set(b.vals) for a, b in zip(e, exts[0][1])) for _, e in exts):
            for i, L in enumerate(exts[0][1]):
                vals = {p: self.mergevals([(pc, e[i].vals[p]) for pc, e in exts]) for p in L.vals}
                out.append(Layer(L.params, L.idx, vals, L.cond))
            return out
        for pc, e in exts:
            for L in e:
                out.append(Layer(L.params, L.idx, L.vals, and_(L.cond, pc)))
        return out

    def mergevals(self, vs):
        first = vs[0][1]
        if all(x is first for _, x in vs):
            return first
        if isinstance(first, T):
            if not all(isinstance(x, T) and x.w == first.w for _, x in vs):
                raise NoMerge()
            r = vs[-1][1]
            for pc, x in reversed(vs[:-1]):
                r = ite(pc, x, r)
            return r
        if isinstance(first, LV):
            if all(type(x) is LV and x.c is first.c and x.k == first.k for _, x in vs):
                return first
            if all(type(x) is LV for _, x in vs):
                raise NoMerge()
        if type(first) is Obj and all(type(x) is Obj and x.rec is first.rec and set(x.f) == set(first.f) for _, x in vs):
            return Obj(first.rec, {k: self.mergevals([(pc, x.f[k]) for pc, x in vs]) for k in first.f})
        if type(first) is Vec and all(type(x) is Vec and len(x.items) == len(first.items) for _, x in vs):
            return Vec([self.mergevals([(pc, x.items[i]) for pc, x in vs]) for i in range(len(first.items))], first.ety)
        if type(first) is list and all(type(x) is list and len(x) == len(first) for _, x in vs):
            return [self.mergevals([(pc, x[i]) for pc, x in vs]) for i in range(len(first))]
        if isinstance(first, (Ptr, It)) and all(type(x) is type(first) and x.c is first.c and (x.k is first.k or x.k == first.k) for _, x in vs):
            return first
        if isinstance(first, str) and all(isinstance(x, str) and x == first for _, x in vs):
            return first
        if type(first) is Opt and all(type(x) is Opt for _, x in vs):
            has = self.mergevals([(pc, x.has) for pc, x in vs])
            inner = [(pc, x.v) for pc, x in vs if x.v is not None]
            return Opt(has, self.mergevals(inner) if inner else None)
        raise NoMerge()

    # ------------------------------------------------------------ statements
    def st(self, s, fr):
        if s is None:
            return
        getattr(self, 's_' + s['k'])(s, fr)

    def s_block(self, s, fr):
        for x in s['b']:
            self.st(x, fr)

    def s_nop(self, s, fr):
        pass

    def s_unsup(self, s, fr):
        raise Unsupported('statement %s' % s.get('cls'))

    def s_try(self, s, fr):
        self.st(s['b'], fr)

    def s_expr(self, s, fr):
        self.ev(s['e'], fr)

    def s_decl(self, s, fr):
        for d in s['d']:
            if d['k'] == 'var':
                self.declvar(d, fr)

    def declvar(self, d, fr):
        t = fr.tu.types[d['t']]
        if d.get('static'):
            key = (fr.tu, d['v'])
            if key in self.statics:
                fr.vars[d['v']] = self.statics[key]
                return
        if 'init' in d and d['init'] is not None:
            if t.k == 'ref':
                v = self.ev(d['init'], fr)
                lv = v if type(v) is LV else LV(Cell(v))
                if type(lv.c) is Cell and type(lv.c.v) is LV:
                    lv = lv.c.v
            else:
                v = self.evr(d['init'], fr)
                if type(v) is tuple:
                    v = self.copyval(v)
                if isinstance(v, str) and t.k == 'arr':
                    v = Vec([const(ord(ch), 8) for ch in v] + [const(0, 8)] * (t.n - len(v)), t.t)
                lv = LV(Cell(v))
        else:
            if t.k == 'rec':
                lv = LV(Cell(self.default(t, False)))
            else:
                lv = LV(Cell(self.default(t, False)))
        fr.vars[d['v']] = lv
        if d.get('static'):
            self.statics[(fr.tu, d['v'])] = lv
        for b in d.get('bind', []):
            if 'hv' in b:
                v = self.ev(b['e'], fr)
                x = v if type(v) is LV else LV(Cell(v))
                fr.vars[b['hv']] = x
                fr.vars[b['v']] = x
            else:
                v = self.ev(b['e'], fr)
                fr.vars[b['v']] = v if type(v) is LV else LV(Cell(v))

    def s_ret(self, s, fr):
        if 'e' in s and s['e'] is not None:
            v = self.ev(s['e'], fr)
            if fr.fn is not None and fr.fn.ret.k != 'ref' and type(v) is LV:
                v = self.load(v)
            raise Return(v)
        raise Return(None)

    def s_break(self, s, fr):
        raise Break()

    def s_continue(self, s, fr):
        raise Continue()

    def s_if(self, s, fr):
        if 'init' in s:
            self.st(s['init'], fr)
        if 'cv' in s:
            self.declvar(s['cv'], fr)
        c = self.tobool(self.evr(s['c'], fr))
        k = self.known(c)
        if k is None:
            key = id(s)
            if not has_ctl(s):
                ok, v = self.try_merge(key, lambda: self.st(s['a'], fr) if self.branch(c) else self.st(s['e'], fr))
                if ok:
                    return v
            k = self.branch(c)
        self.st(s['a'] if k else s['e'], fr)

    def s_switch(self, s, fr):
        if 'init' in s:
            self.st(s['init'], fr)
        if 'cv' in s:
            self.declvar(s['cv'], fr)
        v = self.evr(s['c'], fr)
        flat = []
        body = s['b']
        stmts = body['b'] if body['k'] == 'block' else [body]

        def add_(x):
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(x)
                x = x['b']
            if x is not None:
                flat.append(x)
        for x in stmts:
            add_(x)
        start = None
        dflt = None
        for i, x in enumerate(flat):
            if x['k'] == 'default':
                dflt = i
            elif x['k'] == 'case' and start is None:
                cv = self.evr(x['e'], fr)
                if 'hi' in x:
                    hv = self.evr(x['hi'], fr)
                    t = and_(not_(slt(v, cv)), not_(slt(hv, v)))
                else:
                    t = eq(v, cv) if v.w else not_(xor_b(v, cv))
                if self.branch(t):
                    start = i
                    break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for x in flat[start:]:
                if x['k'] not in ('case', 'default'):
                    self.st(x, fr)
        except Break:
            pass

    def body_once(self, s, fr):
        """returns False if the loop must stop"""
        try:
            self.st(s['b'], fr)
        except Break:
            return False
        except Continue:
            pass
        return True

    def s_while(self, s, fr):
        if self.while_hook is not None and self.while_hook(self, s, fr):
            return
        n = nsym = 0
        while True:
            if 'cv' in s:
                self.declvar(s['cv'], fr)
            c = self.tobool(self.evr(s['c'], fr))
            k = self.known(c)
            if n == 0 and k is not False and c is not TRUE:
                if self.sym_loop({'c': s['c'], 'inc': None, 'b': s['b'], 'k': 'while', 'l': s.get('l')}, fr, c):
                    return
            if k is None:
                k = self.branch(c)
                nsym += 1
                if nsym > 140:
                    raise Unsupported('symbolic loop without an induction rule')
            if not k:
                return
            if not self.body_once(s, fr):
                return
            n += 1
            if n > self.maxunroll:
                raise Unsupported('loop unrolling limit')

    def s_do(self, s, fr):
        n = 0
        while True:
            if not self.body_once(s, fr):
                return
            c = self.tobool(self.evr(s['c'], fr))
            if not self.branch(c):
                return
            n += 1
            if n > self.maxunroll:
                raise Unsupported('loop unrolling limit')

    def s_for(self, s, fr):
        self.st(s['init'], fr)
        n = nsym = 0
        while True:
            c = self.tobool(self.evr(s['c'], fr)) if s['c'] is not None else TRUE
            k = self.known(c)
            if n == 0 and k is not False and c is not TRUE:
                if self.sym_loop(s, fr, c):
                    return
            if k is None:
                k = self.branch(c)
                nsym += 1
                if nsym > 140:
                    raise Unsupported('symbolic loop without an induction rule')
            if not k:
                return
            if not self.body_once(s, fr):
                return
            if s['inc'] is not None:
                self.ev(s['inc'], fr)
            n += 1
            if n > self.maxunroll:
                raise Unsupported('loop unrolling limit')

    def s_rfor(self, s, fr):
        if s.get('init'):
            self.st(s['init'], fr)
        r = self.ev(s['r'], fr)
        rl = r if type(r) is LV else LV(Cell(r))
        v = self.unbase(self.rv(rl))
        d = s['d']['d'][0]
        t = fr.tu.types[d['t']]
        its = self.iterate(v, rl)
        if its is None:
            raise Unsupported('range-for over %r' % (v,))
        if isinstance(its, tuple) and its[0] == 'sym':
            _, n, getlv = its
            self.rfor_sym(s, fr, d, t, n, getlv)
            return
        for lv in its:
            self.bindloopvar(d, t, lv, fr)
            if not self.body_once(s, fr):
                break

    def bindloopvar(self, d, t, lv, fr):
        if t.k == 'ref':
            fr.vars[d['v']] = lv
        else:
            fr.vars[d['v']] = LV(Cell(self.copyval(self.rv(lv))))
        for b in d.get('bind', []):
            if 'hv' in b:
                v = self.ev(b['e'], fr)
                x = v if type(v) is LV else LV(Cell(v))
                fr.vars[b['hv']] = x
                fr.vars[b['v']] = x
            else:
                v = self.ev(b['e'], fr)
                fr.vars[b['v']] = v if type(v) is LV else LV(Cell(v))

    def iterate(self, v, lv):
        if type(v) is Vec:
            return [LV(v, i) for i in range(len(v.items))]
        if isinstance(v, str):
            return [LV(Cell(const(ord(c), 8))) for c in v]
        if type(v) is Map:
            out = []
            for k in list(v.d):
                out.append(LV(Cell(MapEntry(v, k))))
            return out
        if type(v) is SArr:
            return ('sym', v.n, lambda k: LV(v, k))
        f = getattr(v, 'iterate', None)
        if f is not None:
            return f(self)
        return None

    def rfor_sym(self, s, fr, d, t, n, getlv):
        k = self.idxvar('k')

        def body(k):
            self.bindloopvar(d, t, getlv(k), fr)
            if not self.body_once(s, fr):
                raise Unsupported('break in symbolic loop')
        self.induct(n, k, body)

    def idxvar(self, name):
        return zext(fresh(name, 40), 64)

    # ------------------------------------------------------------ symbolic loops
    def sym_loop(self, s, fr, c0):
        """try the induction rule on a counting loop; returns True when it applied"""
        cond = s['c']
        if s['inc'] is None:
            return False
        if cond is None or cond['k'] != 'bin' or cond['op'] not in ('<', '<=', '!=', '>', '>='):
            return False
        a, b = cond['a'], cond['b']
        left = a
        while left['k'] == 'cast':
            left = left['e']
        down = cond['op'] in ('>', '>=') and left['k'] == 'ref' and fr.tu.types[a['t']].sg
        if cond['op'] == '>=' and not down:
            return False
        if cond['op'] == '>' and not down:
            a, b = b, a
        base = a
        while base['k'] == 'cast':
            base = base['e']
        if base['k'] != 'ref':
            return False
        lv = self.ev(base, fr)
        start = self.rv(lv)
        if not isinstance(start, T) or start.w <= 0:
            return False
        bound = self.evr(b, fr)
        if not isinstance(bound, T):
            return False
        # step
        mark = len(self.log)
        probe = fresh('probe', start.w)
        self.setc(lv.c, lv.k, probe)
        self.ev(s['inc'], fr)
        step = sub(self.rv(lv), probe)
        self.rollback(mark)
        if occurs(probe, step):
            return False
        # widen start to bound's width through the cast in the condition
        sw = start
        if sw.w != bound.w:
            m2 = len(self.log)
            sw = self.evr(a, fr)
            self.rollback(m2)
        span = sub(bound, sw)
        if cond['op'] == '<=':
            span = add(span, const(1, span.w))
        if down:
            # counting down by one from sw to bound (included for >=)
            if not (is_c(step) and sval(step) == -1) or sw.w != start.w:
                return False
            n = sub(sw, bound)
            ok = not_(slt(sw, bound))
            if cond['op'] == '>=':
                n = add(n, const(1, n.w))
                ok = not_(slt(add(sw, const(1, sw.w)), bound))
        elif is_c(step) and cval(step) == 1:
            n = span
        else:
            st_w = zext(step, span.w) if step.w < span.w else step
            n = udiv_exact_or_ceil(span, st_w, self)
            if n is None:
                return False
        sg = fr.tu.types[a['t']].sg
        if down:
            if not self.entails(ok) and not self.branch(ok):
                return True
        elif cond['op'] != '!=':
            # zero iterations when start >= bound: require start <= bound to be known, else split
            ok = not_(slt(bound, sw)) if sg else not_(ult(bound, sw))
            if cond['op'] == '<=':
                ok = TRUE if self.entails_nonneg(span) else ok
            if ok is not TRUE and not self.entails(ok):
                if not self.branch(ok):
                    return True
        key = (fr.fn.name if fr.fn is not None else None)
        k = self.idxvar('k')
        kk = k
        vid = base['v']

        def body(k):
            kx = trunc(k, start.w) if start.w < 64 else (zext(k, start.w) if start.w > 64 else k)
            self.setc(lv.c, lv.k, add(start, mul(kx, step)))
            if not self.body_once(s, fr):
                raise LoopExit()
            # the body must not modify the counter
            cur = self.rv(lv)
            if cur is not add(start, mul(kx, step)):
                raise Unsupported('loop counter modified in the body')
            self.ev(s['inc'], fr)      # the increment may move other variables too
        n64 = n if n.w == 64 else (zext(n, 64) if n.w < 64 else trunc(n, 64))
        mark0, pcm0, chk0, thr0 = len(self.log), len(self.pc), len(self.checks), len(self.throws)
        dec0, rl0 = self.dec, self.rlog
        try:
            self.induct(n64, k, body, skip=(lv.c, lv.k))
        except (NoMerge, LoopExit):
            self.rollback(mark0)
            self.pcreset(pcm0)
            self.dec, self.rlog = dec0, rl0
            del self.checks[chk0:], self.throws[thr0:]

            def setk(k):
                kx = trunc(k, start.w) if start.w < 64 else (zext(k, start.w) if start.w > 64 else k)
                self.setc(lv.c, lv.k, add(start, mul(kx, step)))
                self.st(s['b'], fr)
                self.ev(s['inc'], fr)
            if self.exit_loop(n64, setk, (lv.c, lv.k)):
                return True      # left by break: the counter keeps its value
        nx = n if n.w == start.w else (trunc(n, start.w) if n.w > start.w else zext(n, start.w))
        self.setc(lv.c, lv.k, add(start, mul(nx, step)))
        return True

    def entails_nonneg(self, t):
        return False

    def exit_loop(self, n, body, skip):
        """a loop that changes nothing until it leaves early (return / break / throw): either no iteration leaves, or
        the first one that leaves is executed.  Returns True when left by break."""
        seq0 = nextseq()
        k = self.idxvar('k')
        kvar = k if k.op == 'v' else k.args[0]
        pcm = len(self.pc)
        mark = len(self.log)
        outer, rl = self.dec, self.rlog
        self.rlog = []
        self.assume(ult(k, n))
        base = len(self.pc)
        exits, keep = [], []
        work = [[]]
        np = 0
        try:
            while work:
                self.dec = Decider(work.pop())
                np += 1
                if np > self.maxpaths:
                    raise Unsupported('too many paths')
                out = 'v'
                try:
                    body(k)
                except (Return, Break):
                    out = 'x'
                except Continue:
                    pass
                except Throw:
                    out = 'x'
                except Infeasible:
                    out = 'inf'
                work.extend(self.dec.alts)
                pc = and_(*self.pc[base:]) if len(self.pc) > base else TRUE
                if out == 'x':
                    exits.append(pc)
                elif out == 'v':
                    for c, key, old in self.log[mark:]:
                        if c.seq > seq0 or (c is skip[0] and key == skip[1]):
                            continue
                        raise Unsupported('loop with an early exit and other effects')
                self.rollback(mark)
                self.pcreset(base)
        finally:
            self.rollback(mark)
            self.pcreset(pcm)
            self.dec, self.rlog = outer, rl
        if not exits:
            raise Unsupported('loop body')
        ex = or_(*exits)
        # the guard and the witness are functions of the (canonical) exit condition
        key = (subst(ex, {kvar: var('$b', kvar.w)}).id, n.id)
        if key not in _exitmemo:
            _exitmemo[key] = (fresh('leaves', 0), self.idxvar('k0'))
        left, k0 = _exitmemo[key]
        # no exit in any iteration: usable at any index through instantiate()
        self.foralls.append((not_(left), kvar, n, not_(ex), implies(left, and_(ult(k0, n), subst(ex, {kvar: k0 if k0.op == 'v' else k0.args[0]})))))
        if self.branch(left):
            self.assume(ult(k0, n))
            self.assume(subst(ex, {kvar: k0 if k0.op == 'v' else k0.args[0]}))
            self.ghost['exit_idx'] = [k0 if k0.op == 'v' else k0.args[0]]
            try:
                body(k0)
            except Break:
                return True
            except Continue:
                raise Infeasible()
            raise Infeasible()
        return False

    def widen_exact(self, t, m):
        """replace sext/zext(trunc(x)) by x where the path condition makes the truncation lossless"""
        def go(x):
            if x.op in ('sext', 'zext') and x.args[0].op == 'trunc' and x.args[0].args[0].w <= x.w:
                y = zext(x.args[0].args[0], x.w)
                if self.entails(eq(x, y)):
                    m[x] = y
        seen = set()

        def walk(x):
            if x.id in seen:
                return
            seen.add(x.id)
            go(x)
            for y in TM.subterms1(x):
                walk(y)
        walk(t)
        return subst(t, m) if m else t

    def instantiate(self, idx):
        for v, kvar, n, fact, wit in self.foralls:
            self.assume(wit)
            ix = idx
            if kvar.w < 64:
                if ix.op == 'zext' and ix.args[0].w == kvar.w:
                    ix = ix.args[0]
                else:
                    ix = trunc(ix, kvar.w)
            self.assume(implies(and_(v, ult(idx, n)), subst(fact, {kvar: ix})))

    def induct(self, n, k, body, skip=None, chunk=False):
        """one arbitrary iteration k < n of body, generalised"""
        if is_c(n):
            if cval(n) == 0:
                return
        seq0 = nextseq()
        carried = {}     # (id,c key) -> (c,k,old,fresh)
        ck0, th0 = len(self.checks), len(self.throws)
        for attempt in range(6):
            mark = len(self.log)
            pcm = len(self.pc)
            del self.checks[ck0:], self.throws[th0:]
            # rlog
            saved_rlog = self.rlog
            self.rlog = []
            self.assume(ult(k, n))
            for kk, (c, key, old, sym) in carried.items():
                self.setc(c, key, sym)
            try:
                self.merge(lambda: body(k))
            except Throw:
                self.rlog = saved_rlog
                raise
            except (Return, Break, Continue):
                raise LoopExit()
            writes = {}
            for c, key, old in self.log[mark:]:
                if c.seq > seq0:
                    continue
                if skip is not None and c is skip[0] and key == skip[1]:
                    continue
                kk = (id(c), key)
                if kk not in writes:
                    writes[kk] = (c, key, old)
            reads = self.rlog
            self.rlog = saved_rlog
            layers = []
            scal = []
            for kk, (c, key, old) in writes.items():
                if key == '%layers':
                    layers.append((c, old, c.layers))
                else:
                    scal.append((kk, c, key, old, c.get(key)))
            newc = [x for x in scal if x[0] not in carried]
            self.rollback(mark)
            self.pcreset(pcm)
            if newc:
                for kk, c, key, old, new in newc:
                    carried[kk] = self.mkcarried(c, key, old, new)
                continue
            break
        else:
            raise Unsupported('loop-carried state did not stabilise')
        # closed forms for carried scalars
        syms = {}
        finals = []
        allsyms = [sym for (_, _, _, sym) in carried.values() for sym in leafsyms(sym)]
        kvar = k if k.op == 'v' else k.args[0]
        pend = [(c, key, old, carried[kk][3], new) for kk, c, key, old, new in scal]
        flat = []
        for c, key, old, sym, new in pend:
            for p, s_, o_, n_ in flat_carried(sym, old, new):
                flat.append([c, key, p, s_, o_, n_, None])
        changed = True
        while changed and any(x[6] is None for x in flat):
            changed = False
            for x in flat:
                if x[6] is not None:
                    continue
                c, key, p, sym, old, new, _ = x
                nn = subst(new, syms)
                other = [s for s in allsyms if s is not sym and occurs(s, nn)]
                if other:
                    continue
                r = self.close_form(sym, old, nn, kvar, k, n)
                if r is None:
                    continue
                at_k, final = r
                syms[sym] = at_k
                x[6] = final
                changed = True
        # write-first temporaries: any remaining must not be read
        for x in flat:
            if x[6] is None:
                raise Unsupported('loop-carried variable has no closed form: %s -> %s' % (pp(x[3], 3), pp(x[5], 6)))
        if syms:
            self.checks[ck0:] = [(nm, subst(g, syms), [subst(x, syms) for x in pc]) for nm, g, pc in self.checks[ck0:]]
            self.throws[th0:] = [(subst(pc, syms), m) for pc, m in self.throws[th0:]]
        # apply scalars
        byk = {}
        for c, key, p, sym, old, new, final in flat:
            byk.setdefault((id(c), key), (c, key, {}))[2][p] = final
        for kk, (c, key, d) in byk.items():
            oldv = carried[kk][2]
            self.setc(c, key, rebuild_carried(oldv, d))
        # apply layers
        for arr, old, new in layers:
            ext = new[len(old):]
            out = list(old)
            for L in ext:
                L = Layer(L.params, subst(L.idx, syms), {p: subst(v, syms) for p, v in L.vals.items()}, subst(L.cond, syms))
                if not (occurs(kvar, L.idx) or any(occurs(kvar, m) for _, m in L.params)):
                    # same element in every iteration
                    if not any(occurs(kvar, v) for v in L.vals.values()) and not occurs(kvar, L.cond):
                        out.append(Layer(L.params, L.idx, L.vals, and_(L.cond, self.simp(ult(const(0, 64), n)))))
                        continue
                    raise Unsupported('array element accumulated across iterations')
                if has_trunc(L.idx):
                    pcm2 = len(self.pc)
                    self.assume(ult(k, n))
                    for v_, n_ in L.params:
                        self.assume(ult(zext(v_, 64) if v_.w < 64 else v_, n_))
                    m_ = {}
                    li = self.widen_exact(L.idx, m_)
                    L = Layer(L.params, li, {p: subst(v, m_) for p, v in L.vals.items()} if m_ else L.vals, L.cond)
                    self.pcreset(pcm2)
                NL = Layer([(kvar_t(k), n)] + list(L.params), L.idx, L.vals, L.cond)
                if not injective(NL, self):
                    raise Unsupported('writes of different iterations may overlap: %s' % pp(L.idx, 6))
                # reads of this array inside the loop
                for (ra, ridx, rpath) in reads:
                    if ra is arr and rpath in L.vals:
                        ridx = subst(ridx, syms)
                        if ridx is L.idx:
                            continue
                        if not self.noconflict(NL, ridx, kvar, n):
                            raise Unsupported('iteration reads an element another iteration writes: read %s write %s' % (pp(ridx, 6), pp(L.idx, 6)))
                out.append(NL)
            # several layers: overlapping between different layers across iterations
            exts = out[len(old):]
            for i in range(len(exts)):
                for j in range(i + 1, len(exts)):
                    if exts[i].idx is not exts[j].idx and set(exts[i].vals) & set(exts[j].vals):
                        if not self.layers_disjoint(exts[i], exts[j], kvar):
                            raise Unsupported('two writes in a loop may overlap across iterations: %s | %s' % (pp(exts[i].idx, 6), pp(exts[j].idx, 6)))
            self.setc(arr, '%layers', out)
        if saved_rlog is not None:
            saved_rlog.extend((a, subst(i, syms), p) for a, i, p in reads)

    def mkcarried(self, c, key, old, new):
        return (c, key, old, symlike(old, new))

    def close_form(self, sym, old, new, kvar, k, n):
        """new = f(sym,k).  Returns (value before iteration k, value after the loop)"""
        kt = kvar_t(k)
        if not occurs(sym, new):
            # plain overwrite; value before iteration k is the previous iteration's
            if occurs_t(kt, new):
                before = ite(eq(k, const(0, k.w)), old, subst(new, {kt: sub40(kt)})) if isinstance(old, T) else None
                last = subst(new, {kt: trunc(sub(n, const(1, 64)), kt.w)})
            else:
                before = ite(eq(k, const(0, k.w)), old, new) if isinstance(old, T) else None
                last = new
            pos = self.simp(ult(const(0, 64), n))
            if not isinstance(old, T):
                return (fresh('undef', new.w), last)
            return (before, ite(pos, last, old))
        if new is sym:
            return (old, old)
        if new.w > 0:
            g = sub(new, sym)
            if not occurs(sym, g):
                if not occurs_t(kt, g):
                    kw = cast_w(k, g.w)
                    nw = cast_w(n, g.w)
                    return (add(old, mul(kw, g)), add(old, mul(nw, g)))
                return (add(old, mk_sum(kt, k, g)), add(old, mk_sum(kt, n, g)))
            g = bxor(new, sym)
            if not occurs(sym, g):
                return (bxor(old, app('xorsum', [lam_id(kt, g), k], g.w)), bxor(old, app('xorsum', [lam_id(kt, g), n], g.w)))
        return None

    def noconflict(self, L, ridx, kvar, n):
        """element ridx (iteration k) is not written by any other iteration"""
        # rename the layer's params
        ren = {v: fresh(v.args[0] if v.op == 'v' else 'p', v.w) for v, _ in L.params}
        widx = subst(L.idx, ren)
        asm = list(self.pc)
        for v, m in L.params:
            asm.append(ult(zext(ren[v], 64), subst(m, ren)))
        asm.append(ult(zext(kvar, 64), n))
        kt = L.params[0][0]
        goal = or_(not_(eq(widx, ridx)), eq(ren[kt], kt))
        if goal is TRUE:
            return True
        return prove(goal, asm, 'bv', 5000, cvc5=False).ok is True

    def layers_disjoint(self, A, B, kvar):
        ren = {v: fresh(v.args[0], v.w) for v, _ in B.params}
        bi = subst(B.idx, ren)
        goal = not_(eq(A.idx, bi))
        if goal is TRUE:
            return True
        asm = list(self.pc)
        for v, m in A.params:
            asm.append(ult(zext(v, 64), m))
        for v, m in B.params:
            asm.append(ult(zext(ren[v], 64), subst(m, ren)))
        asm += [A.cond, subst(B.cond, ren)]
        return prove(goal, asm, 'bv', 5000, cvc5=False).ok is True

    # arrays
    def sarr_new(self, name, n, ty):
        leaves, rec = leaves_of(self, ty)
        a = SArr(fresh(name, 1).args[0], n, leaves, None, rec, ty)
        return a

    # ------------------------------------------------------------ top-level path exploration
    def explore(self, setup, on_path):
        """setup(I) performs the call and returns a value; on_path(value) is called per feasible path"""
        work = [[]]
        npaths = 0
        base_pc = list(self.pc)
        while work:
            pre = work.pop()
            self.dec = Decider(pre)
            self.log = []
            self.pc = list(base_pc)
            self.pcset = set(self.pc)
            self.depth = 0
            self.recdepth = {}
            npaths += 1
            if npaths > self.maxpaths:
                raise Unsupported('too many paths')
            try:
                v = setup(self)
                on_path(self, v)
            except Throw as t:
                self.throws.append((and_(*self.pc), t.msg))
                if self.onthrow is not None:
                    self.onthrow(self, t)
            except Infeasible:
                pass
            work.extend(self.dec.alts)
        return npaths


# ---------------------------------------------------------------- carried-state helpers
def symlike(old, new):
    if isinstance(new, T):
        return fresh('C', new.w)
    if type(new) is list:
        if type(old) is list and len(old) == len(new):
            return [symlike(o, x) if not (x is o) else x for o, x in zip(old, new)]
        raise Unsupported('container grows in a symbolic loop')
    if type(new) is Obj:
        return Obj(new.rec, {f: symlike(old.f.get(f) if type(old) is Obj else None, x) for f, x in new.f.items()})
    if type(new) is Vec:
        return Vec([symlike(old.items[i] if type(old) is Vec and len(old.items) == len(new.items) else None, x) for i, x in enumerate(new.items)], new.ety)
    if isinstance(new, (Ptr, It)) and type(old) is type(new) and new.c is old.c:
        return reptr(new, fresh('C', 64))
    raise Unsupported('loop-carried value %r' % (new,))


def leafsyms(s):
    if isinstance(s, T):
        return [s]
    if type(s) is list:
        return [y for x in s for y in leafsyms(x)]
    if type(s) is Obj:
        return [y for x in s.f.values() for y in leafsyms(x)]
    if type(s) is Vec:
        return [y for x in s.items for y in leafsyms(x)]
    if isinstance(s, (Ptr, It)):
        return [s.k] if isinstance(s.k, T) else []
    return []


def reptr(p, k):
    return Ptr(p.c, k, p.extra) if isinstance(p, Ptr) else It(p.c, k, p.kind)


def flat_carried(sym, old, new, path=()):
    if isinstance(sym, T):
        return [(path, sym, old, new)]
    out = []
    if type(sym) is list:
        for i, s in enumerate(sym):
            if isinstance(s, T) or type(s) in (list, Obj, Vec):
                if s is not old[i]:
                    out += flat_carried(s, old[i], new[i], path + (i,))
    elif type(sym) is Obj:
        for f, s in sym.f.items():
            out += flat_carried(s, old.f.get(f, UNINIT) if type(old) is Obj else UNINIT, new.f[f], path + (f,))
    elif type(sym) is Vec:
        for i, s in enumerate(sym.items):
            out += flat_carried(s, old.items[i] if type(old) is Vec else UNINIT, new.items[i], path + (i,))
    elif isinstance(sym, (Ptr, It)):
        def kt(k):
            return const(k, 64) if isinstance(k, int) else k
        out.append((path + ('%k', old), sym.k, kt(old.k), kt(new.k)))
    return out


def rebuild_carried(old, d):
    if () in d:
        return d[()]
    for p in d:
        if p[0] == '%k':
            return reptr(p[1], d[p])
    if type(old) is list:
        return [rebuild_carried(x, {p[1:]: v for p, v in d.items() if p[0] == i}) if any(p[0] == i for p in d) else x for i, x in enumerate(old)]
    if type(old) is Obj:
        return Obj(old.rec, {f: rebuild_carried(x, {p[1:]: v for p, v in d.items() if p[0] == f}) if any(p[0] == f for p in d) else x for f, x in old.f.items()})
    if type(old) is Vec:
        return Vec([rebuild_carried(x, {p[1:]: v for p, v in d.items() if p[0] == i}) if any(p[0] == i for p in d) else x for i, x in enumerate(old.items)], old.ety)
    raise Unsupported('rebuild carried')


def kvar_t(k):
    return k if k.op == 'v' else k.args[0]


def occurs_t(v, t):
    return occurs(v, t)


def sub40(kt):
    return sub(kt, const(1, kt.w))


def cast_w(t, w):
    if t.w == w:
        return t
    return trunc(t, w) if t.w > w else zext(t, w)


def lam_id(kt, g):
    """canonical opaque id for a lambda body"""
    b = subst(g, {kt: var('$b', kt.w)})
    return TM._mk('opq', (b,), g.w) if False else app('lam', [b], g.w)


def fv_in(n, params):
    return any(occurs(v, n) for v, _ in params)


def injective(L, I):
    """different parameter values give different indices"""
    ps = L.params
    pe = I.ghost.get('perms')
    c0 = perm_core(L.idx, pe) if pe else None
    d = lin_of(L.idx if c0 is None else c0.args[1])
    coefs = []
    vids = {}
    for v, n in ps:
        z = zext(v, 64) if v.w < 64 else v
        vids[z.id] = (v, n)
    per = {v: {} for v, _ in ps}
    for mono, c in d.items():
        hit = [i for i in mono if i in vids]
        if len(hit) > 1:
            return False
        if len(hit) == 1:
            rest = tuple(i for i in mono if i != hit[0])
            per[vids[hit[0]][0]][rest] = c
        else:
            # parameter hidden in another atom?
            for i in mono:
                if any(occurs(v, TM._byid[i]) for v, _ in ps):
                    return False
    co = {v: mk_lin(per[v], 64) for v in per}
    if any(c is const(0, 64) for c in co.values()):
        return False
    if len(ps) == 1:
        c = co[ps[0][0]]
        if is_c(c):
            return True
        return I.entails(not_(eq(c, const(0, 64))))
    # mixed radix: order the params so that coef(outer) >= coef(inner)*n(inner)
    import itertools
    for perm in itertools.permutations(ps):
        ok = True
        # perm from innermost outwards
        span = const(1, 64)
        for i, (v, n) in enumerate(perm):
            if i > 0:
                pv, pn = perm[i - 1]
                need = mul(co[pv], pn)
                if co[v] is need or I.known(not_(ult(co[v], need))) is True or (is_c(co[v]) and is_c(need) and cval(co[v]) >= cval(need)):
                    continue
                ok = False
                break
        if ok:
            return True
    return False


def perm_core(idx, perms):
    """the application of a permutation of [0, n), n < 2^31, under exact casts"""
    while True:
        if idx.op in ('zext', 'sext', 'trunc') and idx.w >= 32:
            idx = idx.args[0]
        elif idx.op == 'anf' and len(idx.args) == 1 and len(idx.args[0][0]) == 1 and idx.args[0][1] & 0x7fffffff == 0x7fffffff:
            idx = TM._byid[idx.args[0][0][0]]       # masked by at least 31 low bits
        else:
            break
    return idx if idx.op == 'app' and idx.args[0] in perms else None


def solve_affine(idx, params, j, I):
    """find params with idx(params) == j. False: impossible. None: unknown. else (cond, {v: 40-bit term})"""
    if idx is j:
        return (TRUE, {v: (zext(v, 64) if v.w < 64 else v) for v, _ in params})
    pe = I.ghost.get('perms')
    if pe:
        pc_ = perm_core(idx, pe)
        if pc_ is not None:
            inv, n = pe[pc_.args[0]]
            jc = perm_core(j, pe)
            if jc is not None and jc.args[0] == pc_.args[0]:
                j = jc.args[1]
            else:
                j = app(inv, [j], 64)
                I.assume(ult(j, n))
            return solve_affine(pc_.args[1], params, j, I)
    d = lin_of(idx)
    vids = {}
    for v, n in params:
        z = zext(v, 64) if v.w < 64 else v
        vids[z.id] = v
    per = {v: {} for v, _ in params}
    base = {}
    for mono, c in d.items():
        hit = [i for i in mono if i in vids]
        if len(hit) > 1:
            return None
        if hit:
            rest = list(mono)
            rest.remove(hit[0])
            per[vids[hit[0]]][tuple(rest)] = c
        else:
            if any(occurs(v, TM._byid[i]) for i in mono for v, _ in params):
                return None
            base[mono] = c
    rem = sub(j, mk_lin(base, 64))
    if len(params) == 1:
        v, n = params[0]
        co = mk_lin(per[v], 64)
        q = exact_div(rem, co)
        if q is not None:
            return (TRUE, {v: q})
        if is_c(co):
            s = cval(co)
            if sval(co) == -1:
                return (TRUE, {v: neg(rem)})
            # constant remainder mod s ?
            rd = lin_of(rem)
            r0 = rd.get((), 0)
            if all(c % s == 0 for m, c in rd.items() if m != ()) and r0 % s != 0:
                return False
            if s < (1 << 32):
                # generic: k = rem / s with divisibility side condition
                return (eq(urem(rem, co), const(0, 64)), {v: udiv(rem, co)})
        # symbolic stride: remainder splits as q*co + r with 0 < r < co -> not an element
        return None
    # several params: assign by matching coefficients, largest first
    order = sorted(params, key=lambda p: -len(pp(mk_lin(per[p[0]], 64), 9)))
    import itertools
    for perm in itertools.permutations(params):
        sub_ = {}
        r = rem
        ok = True
        for v, n in perm:
            co = mk_lin(per[v], 64)
            if v is perm[-1][0]:
                q = exact_div(r, co)
                if q is None:
                    ok = False
                    break
                sub_[v] = q
                r = const(0, 64)
            else:
                q, r = part_div(r, co)
                sub_[v] = q
        if not ok:
            continue
        # all ranges must be entailed for uniqueness (mixed radix), otherwise unknown
        good = True
        for v, n in perm:
            if I.known(ult(sub_[v], n)) is not True and not I.entails(ult(sub_[v], n), 1000):
                good = False
        if good:
            return (TRUE, sub_)
    return None


def narrow(q, w):
    return trunc(q, w) if q.w > w else q


def exact_div(p, c):
    """polynomial p / monomial-or-const c, exact or None"""
    if c is const(1, 64):
        return p
    q, r = part_div(p, c)
    return q if r is const(0, 64) else None


def part_div(p, c):
    """split p = q*c + r by monomials; c is a single monomial or constant"""
    cd = lin_of(c)
    if len(cd) != 1:
        # polynomial divisor: only p == c*k patterns with a single atom factor
        return const(0, 64), p
    (cm, cc), = cd.items()
    q = {}
    r = {}
    for mono, k in lin_of(p).items():
        rest = list(mono)
        ok = True
        for x in cm:
            if x in rest:
                rest.remove(x)
            else:
                ok = False
                break
        ks = TM.signed(k, 64)
        if ok and ks % cc == 0 and cc < (1 << 63):
            q[tuple(rest)] = (ks // cc) & mask(64)
        else:
            r[mono] = k
    return mk_lin(q, 64), mk_lin(r, 64)


def udiv_exact_or_ceil(span, step, I):
    if is_c(step) and cval(step) == 0:
        return None
    q = exact_div(span, step) if span.w == 64 else None
    if q is not None:
        return q
    if is_c(step) and 0 < cval(step) < (1 << 31):
        return udiv(add(span, sub(step, const(1, span.w))), step)
    return None


# ---------------------------------------------------------------- element trees
def leaf_values(v):
    if isinstance(v, T):
        return {(): v}
    if v is UNINIT:
        return {(): UNINIT}
    if type(v) is Vec:
        out = {}
        for i, x in enumerate(v.items):
            for p, y in leaf_values(x).items():
                out[(i,) + p] = y
        return out
    if type(v) is Obj:
        out = {}
        for k, x in v.f.items():
            for p, y in leaf_values(x).items():
                out[(k,) + p] = y
        return out
    raise Unsupported('leaf values of %r' % (v,))


def tree_value(sub):
    if () in sub:
        return sub[()]
    heads = []
    for p in sub:
        if p[0] not in heads:
            heads.append(p[0])
    if all(isinstance(h, int) for h in heads):
        return Vec([tree_value({p[1:]: v for p, v in sub.items() if p[0] == i}) for i in range(len(heads))])
    return Obj(None, {h: tree_value({p[1:]: v for p, v in sub.items() if p[0] == h}) for h in heads})


def build_elem(arr, vals):
    v = tree_value(vals)
    if type(v) is Obj and arr.rec is not None:
        v.rec = arr.rec
    return v


def leaves_of(I, ty):
    """leaf paths of an element type"""
    if ty.k in ('int', 'enum'):
        return {(): ty.w}, None
    if ty.k == 'bool':
        return {(): 0}, None
    if ty.k == 'float':
        return {(): -ty.w}, None
    if ty.k == 'arr':
        sub, _ = leaves_of(I, ty.t)
        return {(i,) + p: w for i in range(ty.n) for p, w in sub.items()}, None
    if ty.k == 'rec':
        r = I.P.recs[ty.r]
        rn = strip_targs(r.name)
        if rn == 'std::array':
            sub, _ = leaves_of(I, r.ta[0])
            return {(i,) + p: w for i in range(r.ta[1]) for p, w in sub.items()}, None
        if r.full:
            out = {}
            for fd in r.fields:
                sub, _ = leaves_of(I, r.tu.types[fd['t']])
                for p, w in sub.items():
                    out[(fd['n'],) + p] = w
            return out, r
    raise Unsupported('element type %s' % ty.s)


# ---------------------------------------------------------------- floats
def fp1(op, a):
    if a.op == 'fp.const' and op == 'neg':
        return TM._mk('fp.const', (a.args[0] ^ (1 << (-a.w - 1)),), a.w)
    return TM.build('fp.' + op, (a,), a.w)


import struct


def _f2py(t):
    b = t.args[0]
    if t.w == -64:
        return struct.unpack('<d', struct.pack('<Q', b))[0]
    if t.w == -32:
        return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<e', struct.pack('<H', b))[0]


def fpc(x, w):
    """IEEE constant from a python float (exactly representable)"""
    if w == -64:
        b = struct.unpack('<Q', struct.pack('<d', x))[0]
    elif w == -32:
        b = struct.unpack('<I', struct.pack('<f', x))[0]
    else:
        b = struct.unpack('<H', struct.pack('<e', x))[0]
    return TM._mk('fp.const', (b,), w)


def fpconst_conv(v, w):
    return TM.build('fp.conv', (v,), w)


def x87_to_f64(bits):
    raise Unsupported('long double literal')


def fp2(op, a, b):
    if op in ('+', '-', '*', '/'):
        return TM.build('fp.' + {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], (a, b), a.w)
    if op == '<':
        return TM.build('fp.lt', (a, b), 0)
    if op == '>':
        return TM.build('fp.lt', (b, a), 0)
    if op == '<=':
        return TM.build('fp.le', (a, b), 0)
    if op == '>=':
        return TM.build('fp.le', (b, a), 0)
    if op == '==':
        return TM.build('fp.eq', (a, b), 0)
    if op == '!=':
        return not_(TM.build('fp.eq', (a, b), 0))
    raise Unsupported('float op ' + op)


# ---------------------------------------------------------------- proxies
class Proxy(Container):
    __slots__ = ()

    def get(self, k):
        return None

    def put(self, k, v):
        pass

    def same(self, o):
        return False


class StrProxy(Proxy):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s
        self.seq = nextseq()

    def load(self, I, k):
        if isinstance(k, T):
            k = I.choose_int(k, 'string index')
        return const(ord(self.s[k]), 8) if k < len(self.s) else const(0, 8)

    def store(self, I, k, v):
        raise Unsupported('write to string literal')

    def same(self, o):
        return isinstance(o, StrProxy) and o.s == self.s


class FnProxy(Proxy):
    """lvalue backed by python getter/setter"""
    __slots__ = ('g', 'p')

    def __init__(self, g, p=None):
        self.g = g
        self.p = p
        self.seq = nextseq()

    def load(self, I, k):
        return self.g(I, k)

    def store(self, I, k, v):
        if self.p is None:
            raise Unsupported('store through read-only proxy')
        return self.p(I, k, v)


class UnionProxy(Proxy):
    __slots__ = ('o', 'm', 'ty')

    def __init__(self, o, m, ty):
        self.o = o
        self.m = m
        self.ty = ty
        self.seq = nextseq()

    def load(self, I, k):
        (m, v), = self.o.f.items()
        return reinterpret(v, self.ty)

    def store(self, I, k, v):
        I.setc(self.o, self.m, v)


class MapEntry:
    """pair<const K, V>& view of a map entry"""
    def __init__(self, m, k):
        self.m = m
        self.k = k

    def get_member(self, I, name):
        if name == 'first':
            return LV(Cell(self.k if isinstance(self.k, (str,)) else unkey(self.k)))
        return LV(self.m, self.k)


def unkey(k):
    if isinstance(k, tuple) and k and k[0] == '%c':
        return const(k[1], k[2])
    return k


def mkkey(v):
    if isinstance(v, T):
        if is_c(v):
            return ('%c', cval(v), v.w)
        raise Unsupported('symbolic map key')
    if isinstance(v, str):
        return v
    raise Unsupported('map key %r' % (v,))


def reinterpret(v, ty):
    """bit reinterpretation of a scalar"""
    if ty.k == 'float':
        if v.w == -ty.w:
            return v
        if v.w == ty.w:
            return TM.build('fp.frombits', (v,), -ty.w)
    if ty.k in ('int', 'enum'):
        if v.w == ty.w:
            return v
        if v.w == -ty.w:
            if v.op == 'fp.const':
                return const(v.args[0], ty.w)
            if v.op == 'fp.frombits':
                return v.args[0]
            return TM.build('fp.tobits', (v,), ty.w)
    raise Unsupported('reinterpretation')


class CastView(Proxy):
    """reinterpret_cast view of an array of fixed-width scalars; index in units of the new type"""
    __slots__ = ('p', 'sw', 'dw', 'ty')

    def __init__(self, p, sw, dw, ty):
        self.p, self.sw, self.dw, self.ty = p, sw, dw, ty
        self.seq = nextseq()

    def same(self, o):
        return isinstance(o, CastView) and o.p.c is self.p.c and o.p.k == self.p.k and o.dw == self.dw


def ptr_cast_default(I, p, se, de):
    """pointer reinterpretation: same-size scalars only (plus char views of nothing)"""
    if de is None or de.k == 'void' or se is None or se.k == 'void':
        return p
    if p.extra is not None and isinstance(p.extra, str):
        return p
    sw = getattr(se, 'sz', None)
    dw = getattr(de, 'sz', None)
    if se.k == 'rec' and de.k == 'rec':
        return p
    if dw == 1 and getattr(I, 'bytecast', False):
        return p
    if sw == dw and se.k in ('int', 'enum') and de.k in ('int', 'enum'):
        return p
    if sw == dw:
        if type(p.c) is Cell or type(p.c) is Obj:
            src = LV(p.c, p.k)

            def g(I, k):
                return reinterpret(I.load(src), de)

            def s(I, k, v):
                I.store(src, reinterpret(v, se))
            return Ptr(FnProxy(g, s), None)
        return p
    raise Unsupported('pointer cast %s -> %s' % (se.s, de.s))


PTRCAST = ptr_cast_default
LIBDEFAULT = {}
GLOBALS = {}
GENERIC = {}
ARRCLS = {}


_exitmemo = {}


def has_trunc(t):
    seen = set()

    def walk(x):
        if x.id in seen:
            return False
        seen.add(x.id)
        if x.op in ('sext', 'zext') and x.args[0].op == 'trunc':
            return True
        return any(walk(y) for y in TM.subterms1(x))
    return walk(t)


def has_ctl(s):
    c = s.get('%ctl')
    if c is None:
        c = s['%ctl'] = _has_ctl(s.get('a')) or _has_ctl(s.get('e'))
    return c


def _has_ctl(s):
    if s is None:
        return False
    k = s['k']
    if k in ('ret', 'break', 'continue'):
        return True
    if k == 'block':
        return any(_has_ctl(x) for x in s['b'])
    if k == 'if':
        return _has_ctl(s.get('a')) or _has_ctl(s.get('e'))
    if k in ('for', 'while', 'do', 'rfor'):
        return _has_ret(s['b'])
    if k == 'switch':
        return _has_ret(s['b'])
    if k in ('case', 'default', 'try'):
        return _has_ctl(s['b'])
    return False


def _has_ret(s):
    if s is None:
        return False
    k = s['k']
    if k == 'ret':
        return True
    if k == 'block':
        return any(_has_ret(x) for x in s['b'])
    if k == 'if':
        return _has_ret(s.get('a')) or _has_ret(s.get('e'))
    if 'b' in s and isinstance(s['b'], dict):
        return _has_ret(s['b'])
    return False


def _pure(e):
    k = e['k']
    if k in ('int', 'flt', 'str', 'ref', 'this', 'null', 'fref', 'zero'):
        return True
    if k in ('cast', 'mat'):
        return e.get('ck') != 'Dynamic' and _pure(e['e'])
    if k == 'un':
        return e['op'] in ('!', '-', '~', '+') and _pure(e['e'])
    if k == 'bin':
        return e['op'] not in ('=', '/', '%') and _pure(e['a']) and _pure(e['b'])
    if k == 'cond':
        return _pure(e['c']) and _pure(e['a']) and _pure(e['b'])
    if k == 'mem':
        return not e['arrow'] and _pure(e['o'])
    if k in ('call', 'mcall'):
        return 'cal' not in e and all(_pure(x) for x in e['a']) and (k == 'call' or _pure(e['o'])) and e.get('op') in (None, '==', '!=', '<', '>', '<=', '>=', '[]', '()')
    return False
