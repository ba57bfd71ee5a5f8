"""Hash-consed terms with canonical forms.

Sorts: w > 0 bit-vector of width w;  w == 0 boolean;  w == -16/-32/-64 IEEE float.
Arithmetic over Z/2^w is kept as a polynomial ('lin': monomial -> coefficient over atoms), bitwise
algebra as a masked algebraic normal form ('anf': AND-monomial -> mask, XORed).
Both are canonical, so most ring identities are decided by pointer equality.
"""
import sys
sys.setrecursionlimit(200000)

MAXMONO = 4000


class T:
    __slots__ = ('op', 'args', 'w', 'id', '_kz', '_hash')

    def __repr__(self):
        return pp(self, 6)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_tab = {}
_byid = []


def _mk(op, args, w):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.w = op, args, w
        t.id = len(_byid)
        t._kz = None
        _byid.append(t)
        _tab[k] = t
    return t


def mask(w):
    return (1 << w) - 1


def const(v, w):
    if w == 0:
        return TRUE if v else FALSE
    return _mk('c', (v & mask(w),), w)


TRUE = _mk('true', (), 0)
FALSE = _mk('false', (), 0)


def var(name, w):
    return _mk('v', (name,), w)


_fresh = {}


def reset_fresh():
    _fresh.clear()


def fresh(name, w):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var(name if n == 0 else '%s!%d' % (name, n), w)


def app(name, args, w):
    return _mk('app', (name,) + tuple(args), w)


def is_c(t):
    return t.op == 'c'


def cval(t):
    return t.args[0]


def sval(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def signed(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- known zero bits
def kz(t):
    """mask of bits known to be zero"""
    if t._kz is None:
        t._kz = _kz(t)
    return t._kz


def _kz(t):
    w = t.w
    m = mask(w)
    op = t.op
    if op == 'c':
        return m & ~t.args[0]
    if op == 'zext':
        return (m & ~mask(t.args[0].w)) | kz(t.args[0])
    if op == 'ite':
        return kz(t.args[1]) & kz(t.args[2])
    if op == 'anf':
        nz = 0
        for mono, c in t.args:
            x = c
            for a in mono:
                x &= ~kz(_byid[a])
            nz |= x
        return m & ~nz
    if op == 'lin':
        # trailing zeros common to all monomials; leading zeros by upper bound
        tz = w
        ub = 0
        for mono, c in t.args:
            k = (c & -c).bit_length() - 1
            u = c
            for a in mono:
                nzb = mask(w) & ~kz(_byid[a])
                if nzb == 0:
                    k = w
                    u = 0
                    break
                k += (nzb & -nzb).bit_length() - 1
                u *= nzb
            tz = min(tz, k)
            ub += u
        r = mask(min(tz, w))
        if ub <= m:
            r |= m & ~mask(ub.bit_length())
        return r
    if op == 'lshr':
        x, s = t.args
        if is_c(s):
            k = cval(s)
            return ((kz(x) >> k) | (m & ~mask(max(0, w - k)))) & m
        # upper bound
        nz = m & ~kz(x)
        return m & ~mask(nz.bit_length())
    if op == 'shl':
        x, s = t.args
        nz = m & ~kz(x)
        return mask((nz & -nz).bit_length() - 1) if nz else m
    if op == 'urem':
        if is_c(t.args[1]) and cval(t.args[1]) > 0:
            return m & ~mask((cval(t.args[1]) - 1).bit_length())
        return m & ~mask((m & ~kz(t.args[0])).bit_length())
    if op == 'udiv':
        return m & ~mask((m & ~kz(t.args[0])).bit_length())
    if op == 'extract':
        x, hi, lo = t.args
        return (kz(x) >> lo) & m
    if op == 'concat':
        a, b = t.args
        return (kz(a) << b.w) | kz(b)
    return 0


def nzmask(t):
    return mask(t.w) & ~kz(t)


# ---------------------------------------------------------------- linear/polynomial forms
def lin_of(t):
    """dict monomial(tuple of ids)->coef"""
    if t.op == 'lin':
        return dict(t.args)
    if t.op == 'c':
        return {(): t.args[0]} if t.args[0] else {}
    return {(t.id,): 1}


def mk_lin(d, w):
    m = mask(w)
    d = {k: v & m for k, v in d.items() if v & m}
    if not d:
        return const(0, w)
    if len(d) == 1:
        (mono, c), = d.items()
        if mono == ():
            return const(c, w)
        if len(mono) == 1:
            a = _byid[mono[0]]
            if c == 1:
                return a
            if c & (c - 1) == 0:
                k = c.bit_length() - 1
                if a.op == 'anf':
                    return anf_shl(a, k)
                if a.op == 'lshr' and is_c(a.args[1]):
                    return _anf_shr_then_shl(a.args[0], cval(a.args[1]), k, w)
    items = tuple(sorted(d.items()))
    return _mk('lin', items, w)


def add(*ts):
    w = ts[0].w
    if len(ts) == 2:
        if ts[0].op == 'c' and ts[0].args[0] == 0:
            return ts[1]
        if ts[1].op == 'c' and ts[1].args[0] == 0:
            return ts[0]
    d = dict(lin_of(ts[0]))
    for t in ts[1:]:
        assert t.w == w, (t, w)
        for k, v in lin_of(t).items():
            d[k] = d.get(k, 0) + v
    return mk_lin(d, w)


def neg(t):
    return mk_lin({k: -v for k, v in lin_of(t).items()}, t.w)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    d = dict(lin_of(a))
    for k, v in lin_of(b).items():
        d[k] = d.get(k, 0) - v
    return mk_lin(d, a.w)


def mul(a, b):
    assert a.w == b.w, (a, b)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        c = cval(b)
        if c == 0:
            return b
        if c == 1:
            return a
        return mk_lin({k: v * c for k, v in lin_of(a).items()}, a.w)
    la, lb = lin_of(a), lin_of(b)
    if len(la) * len(lb) > MAXMONO:
        return _mk('lin', ((tuple(sorted((opaque(a).id, opaque(b).id))), 1),), a.w)
    d = {}
    m = mask(a.w)
    for ka, va in la.items():
        for kb, vb in lb.items():
            k = tuple(sorted(ka + kb)) if ka and kb else ka or kb
            d[k] = (d.get(k, 0) + va * vb) & m
    return mk_lin(d, a.w)


def opaque(t):
    """wrap a lin as an atom"""
    if t.op == 'lin':
        return _mk('opq', (t,), t.w)
    return t


def box(t):
    """t as an atom"""
    return _mk('opq', (t,), t.w) if t.op in ('lin', 'anf') else t


def mulc(a, c):
    return mul(a, const(c, a.w))


# ---------------------------------------------------------------- ANF
def anf_of(t):
    if t.op == 'anf':
        return dict(t.args)
    if t.op == 'c':
        return {(): t.args[0]} if t.args[0] else {}
    return {(t.id,): mask(t.w)}


def _lin_as_masked_atom(a):
    return a


def mk_anf(d, w):
    m = mask(w)
    out = {}
    for mono, c in d.items():
        c &= m
        for a in mono:
            c &= nzmask(_byid[a])
        if c:
            out[mono] = c
    if not out:
        return const(0, w)
    if len(out) == 1:
        (mono, c), = out.items()
        if mono == ():
            return const(c, w)
        if len(mono) == 1:
            a = _byid[mono[0]]
            if nzmask(a) & ~c == 0:
                return a
    # masked to full: store canonical mask (only possibly-nonzero bits)
    return _mk('anf', tuple(sorted(out.items())), w)


def bxor(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return const(0, a.w)
    d = anf_of(a)
    for k, v in anf_of(b).items():
        d[k] = d.get(k, 0) ^ _nm(k, v, a.w)
    return mk_anf({k: v for k, v in d.items()}, a.w)


def _nm(mono, c, w):
    for a in mono:
        c &= nzmask(_byid[a])
    return c


def bnot(a):
    return bxor(a, const(-1, a.w))


def _popcnt(x):
    return bin(x).count('1')


def band(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return a
    if is_c(a):
        a, b = b, a
    if is_c(b):
        c = cval(b)
        if c == 0:
            return b
        return mk_anf({k: v & c for k, v in anf_of(a).items()}, a.w)
    da, db = anf_of(a), anf_of(b)
    if len(da) * len(db) > MAXMONO:
        return _mk('bandop', tuple(sorted((a, b), key=lambda x: x.id)), a.w)
    d = {}
    for ka, va in da.items():
        for kb, vb in db.items():
            c = va & vb
            if c:
                k = tuple(sorted(set(ka) | set(kb)))
                d[k] = d.get(k, 0) ^ c
    return mk_anf(d, a.w)


def bor(a, b):
    if is_c(b) and cval(b) == 0:
        return a
    if is_c(a) and cval(a) == 0:
        return b
    if nzmask(a) & nzmask(b) == 0:
        return bxor(a, b)
    return bxor(bxor(a, b), band(a, b))


def anf_shl(t, k):
    w = t.w
    if k >= w:
        return const(0, w)
    d = {}
    for mono, c in anf_of(t).items():
        nm = tuple(sorted(set(_shl_atom(_byid[a], k).id for a in mono)))
        # an atom shifted may itself become an anf/const: rebuild
        if any(_byid[i].op in ('anf', 'c') for i in nm):
            x = const((c << k) & mask(w), w)
            for i in nm:
                x = band(x, _byid[i])
            for kk, vv in anf_of(x).items():
                d[kk] = d.get(kk, 0) ^ vv
        else:
            d[nm] = d.get(nm, 0) ^ ((c << k) & mask(w))
    return mk_anf(d, w)


def _shl_atom(a, k):
    return mk_lin({m: v << k for m, v in lin_of(a).items()}, a.w)


def anf_lshr(t, k):
    w = t.w
    if k >= w:
        return const(0, w)
    res = {}
    for mono, c in anf_of(t).items():
        cc = c >> k
        x = const(cc, w)
        for a in mono:
            x = band(x, _lshr_atom(_byid[a], k))
        for kk, vv in anf_of(x).items():
            res[kk] = res.get(kk, 0) ^ vv
    return mk_anf(res, w)


def _pow2_lin(a):
    """a == 2^k * b with single monomial -> (b,k) else None"""
    if a.op == 'lin' and len(a.args) == 1:
        mono, c = a.args[0]
        if c & (c - 1) == 0 and c > 1:
            return mk_lin({mono: 1}, a.w), c.bit_length() - 1
    return None


def _lshr_atom(a, k):
    w = a.w
    if k == 0:
        return a
    if nzmask(a) >> k == 0:
        return const(0, w)
    if is_c(a):
        return const(cval(a) >> k, w)
    if a.op == 'lin' and all(not m or c % (1 << k) == 0 and len(m) == 1 for m, c in a.args) \
            and sum(c * (nzmask(_byid[m[0]]) if m else 1) for m, c in a.args) <= mask(w):
        return mk_lin({m: c >> k for m, c in a.args}, w)     # no product or sum wraps
    p = _pow2_lin(a)
    if p:
        b, s = p
        if k <= s:
            return band(_shl_atom(b, s - k), const(mask(w - k), w))
        return band(_lshr_atom(b, k - s), const(mask(w - k), w))
    if a.op == 'lshr' and is_c(a.args[1]):
        return _lshr_atom(a.args[0], k + cval(a.args[1]))
    if a.op == 'zext' and k >= a.args[0].w:
        return const(0, w)
    if a.op == 'zext':
        x = lshr(a.args[0], const(k, a.args[0].w))
        if x.op == 'lshr':
            return _mk('zext', (x,), w)
        return zext(x, w)
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], lshr(a.args[1], const(k, w)), lshr(a.args[2], const(k, w)))
    return _mk('lshr', (a, const(k, w)), w)


def _anf_shr_then_shl(x, j, k, w):
    m = (mask(w) << k) & mask(w)
    if k <= j:
        y = lshr(x, const(j - k, w)) if j > k else x
    else:
        y = _shl_atom(x, k - j) if x.op != 'anf' else anf_shl(x, k - j)
    # bits available: ((x>>j)<<k): bits k .. k + (w-j) - 1
    m &= (mask(w - j) << k) & mask(w)
    return band(y, const(m, w))


def shl(a, s):
    w = a.w
    if is_c(s):
        k = cval(s)
        if k >= w:
            return const(0, w)
        if k == 0:
            return a
        if is_c(a):
            return const(cval(a) << k, w)
        if a.op == 'anf':
            return anf_shl(a, k)
        return mk_lin({m: v << k for m, v in lin_of(a).items()}, w)
    if is_c(a) and cval(a) == 0:
        return a
    s = _norm_amt(s, w)
    if a.op == 'anf':   # distribute over xor (masks stay outside)
        r = const(0, w)
        for mono, c in a.args:
            x = const(c, w)
            for i in mono:
                x = band(x, _byid[i])
            if x.op == 'anf' and len(x.args) == 1:
                r = bxor(r, _mk('shl', (x, s), w))
            else:
                r = bxor(r, shl(x, s))
        return r
    return _mk('shl', (a, s), w)


def _norm_amt(s, w):
    # shift amounts are compared modulo their numeric value: use width-w amounts
    if s.w == w:
        return s
    if s.w < w:
        return zext(s, w)
    return s


def lshr(a, s):
    w = a.w
    if is_c(s):
        k = cval(s)
        if k >= w:
            return const(0, w)
        if k == 0:
            return a
        if is_c(a):
            return const(cval(a) >> k, w)
        if a.op == 'anf':
            return anf_lshr(a, k)
        return _lshr_atom(a, k)
    if is_c(a) and cval(a) == 0:
        return a
    return _mk('lshr', (a, s), w)


def ashr(a, s):
    w = a.w
    if is_c(s):
        k = min(cval(s), w - 1)
        if k == 0:
            return a
        if is_c(a):
            return const(sval(a) >> k, w)
        if kz(a) >> (w - 1):
            return lshr(a, const(k, w))
        if a.op == 'ashr' and is_c(a.args[1]):
            return ashr(a.args[0], const(min(w - 1, k + cval(a.args[1])), w))
        return _mk('ashr', (a, const(k, w)), w)
    if is_c(a) and cval(a) == 0:
        return a
    if kz(a) >> (w - 1):
        return lshr(a, s)
    return _mk('ashr', (a, s), w)


# ---------------------------------------------------------------- width changes
def zext(a, w):
    if a.w == w:
        return a
    assert a.w < w and a.w > 0, (a, w)
    if is_c(a):
        return const(cval(a), w)
    if a.op == 'zext':
        return zext(a.args[0], w)
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == 'anf':
        r = const(0, w)
        for mono, c in a.args:
            x = const(c, w)
            for i in mono:
                x = band(x, _mkzext(_byid[i], w))
            r = bxor(r, x)
        return r
    return _mkzext(a, w)


def _mkzext(a, w):
    if is_c(a):
        return const(cval(a), w)
    if a.op == 'zext':
        return _mkzext(a.args[0], w)
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == 'anf':
        return zext(a, w)
    if a.op == 'extract' and a.args[2] == 0 and False:
        pass
    if a.op == 'lin':
        # no overflow possible -> push inside
        ub = 0
        for mono, c in a.args:
            u = c
            for i in mono:
                u *= nzmask(_byid[i])
            ub += u
        if ub <= mask(a.w):
            d = {}
            for mono, c in a.args:
                x = const(c, w)
                for i in mono:
                    x = mul(x, _mkzext(_byid[i], w))
                for k, v in lin_of(x).items():
                    d[k] = d.get(k, 0) + v
            return mk_lin(d, w)
    if a.op == 'trunc':
        x = a.args[0]
        y = band(x, const(mask(a.w), x.w))
        if x.w == w:
            return y
        if x.w < w:
            return zext(y, w)
        return trunc(y, w)
    return _mk('zext', (a,), w)


def sext(a, w):
    if a.w == w:
        return a
    if is_c(a):
        return const(sval(a), w)
    if a.op == 'sext':
        return sext(a.args[0], w)
    if a.op == 'zext' or kz(a) >> (a.w - 1):
        return zext(a, w)
    if a.op == 'ite' and (is_c(a.args[1]) or is_c(a.args[2])):
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return _mk('sext', (a,), w)


def trunc(a, w):
    if a.w == w:
        return a
    assert w < a.w, (a, w)
    if is_c(a):
        return const(cval(a), w)
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return zext(x, w) if a.op == 'zext' else sext(x, w)
    if a.op == 'trunc':
        return trunc(a.args[0], w)
    if a.op == 'lin':
        d = {}
        m = mask(w)
        for mono, c in a.args:
            if c & m == 0:
                continue
            x = const(c, w)
            for i in mono:
                x = mul(x, trunc(_byid[i], w))
            for k, v in lin_of(x).items():
                d[k] = d.get(k, 0) + v
        return mk_lin(d, w)
    if a.op == 'anf':
        r = const(0, w)
        for mono, c in a.args:
            x = const(c, w)
            for i in mono:
                x = band(x, trunc(_byid[i], w))
            r = bxor(r, x)
        return r
    if a.op == 'ite':
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == 'opq':
        return box(trunc(a.args[0], w)) if a.args[0].op == 'anf' else opaque(trunc(a.args[0], w))
    if a.op == 'sum':
        v, n, body = a.args
        return mk_sum(v, n, trunc(body, w))
    if a.op == 'lshr' and is_c(a.args[1]) and a.args[0].op == 'zext':
        x = a.args[0].args[0]
        if x.w >= w:
            return trunc(lshr(x, const(cval(a.args[1]), x.w)), w)
    return _mk('trunc', (a,), w)


def extract(a, hi, lo):
    w = hi - lo + 1
    x = lshr(a, const(lo, a.w)) if lo else a
    return trunc(x, w) if w < a.w else x


# ---------------------------------------------------------------- division
def udiv(a, b):
    w = a.w
    if is_c(b):
        c = cval(b)
        if c == 1:
            return a
        if c and is_c(a):
            return const(cval(a) // c, w)
        if c and c & (c - 1) == 0:
            return lshr(a, const(c.bit_length() - 1, w))
    if is_c(a) and cval(a) == 0:
        return a
    return _mk('udiv', (a, b), w)


def ratio(a, b):
    """a / b for b known to be nonzero, when a is visibly a multiple of b and no product wraps; else None"""
    if a is b:
        return const(1, a.w)
    la, lb = lin_of(a), lin_of(b)
    if len(la) != 1 or len(lb) != 1:
        return None
    (ka, ca), = la.items()
    (kb, cb), = lb.items()
    if ka != kb or len(ka) != 1 or ca % cb:
        return None
    m = mk_lin({ka: 1}, a.w)
    return const(ca // cb, a.w) if ca * nzmask(m) <= mask(a.w) >> 1 else None


UREM = {}      # (term id, modulus) -> residue fixed by the case under analysis


def urem(a, b):
    w = a.w
    if is_c(b):
        c = cval(b)
        if UREM and (a.id, c) in UREM:
            return const(UREM[(a.id, c)], w)
        if c == 1:
            return const(0, w)
        if c and is_c(a):
            return const(cval(a) % c, w)
        if c and c & (c - 1) == 0:
            return band(a, const(c - 1, w))
    if is_c(a) and cval(a) == 0:
        return a
    return _mk('urem', (a, b), w)


def sdiv(a, b):
    w = a.w
    if is_c(b) and is_c(a) and cval(b):
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, w)
    if is_c(b) and cval(b) == 1:
        return a
    if is_c(a) and cval(a) == 0:
        return a
    if kz(a) >> (w - 1) and kz(b) >> (w - 1):
        return udiv(a, b)
    return _mk('sdiv', (a, b), w)


def srem(a, b):
    w = a.w
    if is_c(b) and is_c(a) and cval(b):
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, w)
    if is_c(b) and cval(b) == 1:
        return const(0, w)
    if is_c(a) and cval(a) == 0:
        return a
    if kz(a) >> (w - 1) and kz(b) >> (w - 1):
        return urem(a, b)
    return _mk('srem', (a, b), w)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 0)


def and_(*xs):
    s = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == 'and' else (x,)):
            if y.id in seen:
                continue
            if y.op == 'not' and y.args[0].id in seen:
                return FALSE
            if not_(y).id in seen:
                return FALSE
            seen.add(y.id)
            s.append(y)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk('and', tuple(sorted(s, key=lambda t: t.id)), 0)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def xor_b(a, b):
    if a is b:
        return FALSE
    if a is TRUE:
        return not_(b)
    if b is TRUE:
        return not_(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return eq(a, not_(b))


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.w == 0:
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return _mk('ite', (c, a, b), a.w)


def eq(a, b):
    assert a.w == b.w, (a, b)
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk('eq', (a, b), 0)
    if a.w < 0:
        if a.id > b.id:
            a, b = b, a
        return _mk('eq', (a, b), 0)
    if is_c(a) and is_c(b):
        return FALSE
    if is_c(a):
        a, b = b, a
    if is_c(b):
        c = cval(b)
        if c & kz(a):
            return FALSE
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if is_c(x) and is_c(y):
                if cval(x) == c:
                    return a.args[0]
                if cval(y) == c:
                    return not_(a.args[0])
                return FALSE
            if is_c(x) or is_c(y):
                return ite(a.args[0], eq(x, b), eq(y, b))
        if a.op in ('zext',):
            return eq(a.args[0], const(c, a.args[0].w))
        if a.op == 'sext':
            if signed(c, a.w) == signed(c, a.args[0].w):
                return eq(a.args[0], const(c, a.args[0].w))
            return FALSE
    if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return eq(a.args[0], b.args[0])
    if a.op == 'lin' or b.op == 'lin':
        d = sub(a, b)
        if is_c(d):
            return TRUE if cval(d) == 0 else FALSE
        # constant difference cannot vanish if parity forbids it: leave to the solver
        # normalise: lowest monomial coefficient sign
        c0 = lin_of(d).get((), 0)
        rest = add(d, const(-c0, d.w))
        n = neg(rest)
        if rest.id <= n.id:
            l, r = rest, const(-c0, d.w)
        else:
            l, r = n, const(c0, d.w)
        return _mk('eq', (l, r), 0)
    if a.id > b.id and not is_c(b):
        a, b = b, a
    return _mk('eq', (a, b), 0)


def ne(a, b):
    return not_(eq(a, b))


def _umax(t):
    return nzmask(t)


def ult(a, b):
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if is_c(b) and cval(b) == 0:
        return FALSE
    if is_c(a) and cval(a) == mask(a.w):
        return FALSE
    if is_c(b) and _umax(a) < cval(b):
        return TRUE
    if is_c(a) and _umax(b) <= cval(a):
        return FALSE
    if is_c(b) and a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
    if is_c(b) and cval(b) == 1:
        return eq(a, const(0, a.w))
    if is_c(a) and cval(a) == 0:
        return ne(b, a)
    return _mk('ult', (a, b), 0)


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    w = a.w
    if a is b:
        return FALSE
    if is_c(a) and is_c(b):
        return TRUE if sval(a) < sval(b) else FALSE
    if kz(a) >> (w - 1) and kz(b) >> (w - 1):
        return ult(a, b)
    if is_c(b) and a.op == 'ite' and is_c(a.args[1]) and is_c(a.args[2]):
        return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    if a.op == 'sext' and is_c(b) and signed(cval(b), w) == signed(cval(b), a.args[0].w):
        return slt(a.args[0], const(cval(b), a.args[0].w))
    if b.op == 'sext' and is_c(a) and signed(cval(a), w) == signed(cval(a), b.args[0].w):
        return slt(const(cval(a), b.args[0].w), b.args[0])
    return _mk('slt', (a, b), 0)


def sle(a, b):
    return not_(slt(b, a))


def b2bv(b, w):
    return ite(b, const(1, w), const(0, w))


# ---------------------------------------------------------------- binder sums
def mk_sum(v, n, body):
    """sum over v in [0,n) of body (v: var term, n: term)"""
    w = body.w
    if is_c(n) and cval(n) <= 16:
        r = const(0, w)
        for i in range(cval(n)):
            r = add(r, subst(body, {v: const(i, v.w)}))
        return r
    d = lin_of(body)
    if not d:
        return const(0, w)
    out = const(0, w)
    for mono, c in d.items():
        ind, dep = [], []
        for i in mono:
            (dep if occurs(v, _byid[i]) else ind).append(i)
        if not dep:
            nn = n if n.w == w else (trunc(n, w) if n.w > w else zext(n, w))
            base = nn
        else:
            # flatten nested sums order: canonical bound variable by depth
            inner = mk_lin({tuple(sorted(dep)): 1}, w)
            base = _mksum1(v, n, inner)
        x = const(c, w)
        for i in ind:
            x = mul(x, _byid[i])
        out = add(out, mul(x, base))
    return out


def _depth(t, memo=None):
    """max binder depth inside t"""
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    r = 0
    for s in subterms1(t):
        r = max(r, _depth(s, memo))
    if t.op == 'sum':
        r += 1
    memo[t.id] = r
    return r


def _mksum1(v, n, inner):
    d = _depth(inner)
    bv = var('%%b%d' % d, v.w)
    if bv is not v:
        if not occurs(bv, inner):
            inner2 = subst(inner, {v: bv})
        else:
            inner2, bv = inner, v
    else:
        inner2 = inner
    if inner2.op == 'sum':
        # order nested sums canonically by bound-term id
        bv2, n2, in2 = inner2.args
        if not occurs(bv, n2) and not occurs(bv2, n) and n2.id < n.id:
            x, y = fresh('%sw', v.w), fresh('%sw', v.w)
            core = subst(in2, {bv: x, bv2: y})
            return mk_sum(y, n2, mk_sum(x, n, core))
    return _mk('sum', (bv, n, inner2), inner2.w)


def subterms1(t):
    op = t.op
    if op in ('lin', 'anf'):
        s = []
        for mono, _ in t.args:
            for i in mono:
                s.append(_byid[i])
        return s
    if op in ('c', 'v', 'true', 'false'):
        return ()
    if op == 'app':
        return t.args[1:]
    return [a for a in t.args if isinstance(a, T)]


_occ = {}


def fv(t):
    r = _occ.get(t.id)
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _occ:
            stack.pop()
            continue
        pend = [s for s in subterms1(x) if s.id not in _occ]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        if x.op == 'v':
            r = frozenset((x.id,))
        else:
            r = frozenset()
            for s in subterms1(x):
                r = r | _occ[s.id]
            if x.op in ('sum', 'xsum'):
                r = r - {x.args[0].id}
        _occ[x.id] = r
    return _occ[t.id]


def occurs(v, t):
    return v.id in fv(t)


# ---------------------------------------------------------------- substitution / rebuild
def rebuild(t, f):
    """rebuild t with children mapped by f"""
    op = t.op
    w = t.w
    a = t.args
    if op in ('c', 'v', 'true', 'false'):
        return t
    if op == 'lin':
        d = {}
        ch = False
        for mono, c in a:
            nm = [f(_byid[i]) for i in mono]
            if all(n is _byid[i] for n, i in zip(nm, mono)):
                d[mono] = d.get(mono, 0) + c
                continue
            ch = True
            x = const(c, w)
            for n in nm:
                x = mul(x, n)
            for k, v in lin_of(x).items():
                d[k] = d.get(k, 0) + v
        return mk_lin(d, w) if ch else t
    if op == 'anf':
        r = None
        ch = False
        d = {}
        for mono, c in a:
            nm = [f(_byid[i]) for i in mono]
            if all(n is _byid[i] for n, i in zip(nm, mono)):
                d[mono] = d.get(mono, 0) ^ c
                continue
            ch = True
            x = const(c, w)
            for n in nm:
                x = band(x, n)
            for k, v in anf_of(x).items():
                d[k] = d.get(k, 0) ^ v
        return mk_anf(d, w) if ch else t
    if op == 'app':
        n = tuple(f(x) for x in a[1:])
        return t if n == a[1:] else app(a[0], n, w)
    if op == 'sum':
        v, n, b = a
        n2, b2 = f(n), f(b)
        if n2 is n and b2 is b:
            return t
        return mk_sum(v, n2, b2)
    n = tuple(f(x) if isinstance(x, T) else x for x in a)
    if n == a:
        return t
    return build(op, n, w)


def build(op, n, w):
    g = _ctor.get(op)
    if g:
        return g(n, w)
    return _mk(op, n, w)


_ctor = {
    'shl': lambda n, w: shl(*n), 'lshr': lambda n, w: lshr(*n), 'ashr': lambda n, w: ashr(*n),
    'zext': lambda n, w: zext(n[0], w), 'sext': lambda n, w: sext(n[0], w), 'trunc': lambda n, w: trunc(n[0], w),
    'udiv': lambda n, w: udiv(*n), 'urem': lambda n, w: urem(*n), 'sdiv': lambda n, w: sdiv(*n), 'srem': lambda n, w: srem(*n),
    'not': lambda n, w: not_(*n), 'and': lambda n, w: and_(*n), 'ite': lambda n, w: ite(*n), 'eq': lambda n, w: eq(*n),
    'ult': lambda n, w: ult(*n), 'slt': lambda n, w: slt(*n), 'bandop': lambda n, w: band(*n),
    'opq': lambda n, w: box(n[0]),
}


def subst(t, m):
    """m: dict Term->Term (vars or any terms)"""
    keyv = frozenset(k.id for k in m if k.op == 'v')
    general = any(k.op != 'v' for k in m)
    memo = {}
    mm = {k.id: v for k, v in m.items()}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in mm:
            r = mm[x.id]
        elif not general and not (fv(x) & keyv):
            r = x
        elif x.op == 'sum' and (x.args[0].id in keyv):
            mm2 = {k: v for k, v in m.items() if k is not x.args[0]}
            r = subst(x, mm2) if mm2 else x
        else:
            if x.op == 'sum':
                # avoid capture
                bv = x.args[0]
                if any(bv.id in fv(v) for v in m.values()):
                    nb = fresh('%cap', bv.w)
                    b2 = subst(x.args[2], {bv: nb})
                    r = mk_sum(nb, go(x.args[1]), go(b2))
                    memo[x.id] = r
                    return r
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def subst_mono(t, m):
    """replace nonlinear monomials of 'lin' terms: m maps a product term (single monomial, coefficient 1) to a term of its width"""
    mm = {}
    for k, v in m.items():
        assert k.op == 'lin' and len(k.args) == 1 and k.args[0][1] == 1, k
        mm[(k.w, k.args[0][0])] = v
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'lin' and any((x.w, mono) in mm for mono, c in x.args):
            r = const(0, x.w)
            for mono, c in x.args:
                v = mm.get((x.w, mono))
                if v is None:
                    v = const(1, x.w)
                    for i in mono:
                        v = mul(v, go(_byid[i]))
                r = add(r, mul(const(c, x.w), v))
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def map_apps(t, fn, memo=None):
    """bottom-up rewrite of 'app' atoms: fn(app term)->Term or None"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        y = rebuild(x, go)
        if y.op == 'app':
            z = fn(y)
            if z is not None:
                y = z
        memo[x.id] = y
        return y
    return go(t)


def atoms(t, pred, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if pred(x):
            acc.append(x)
        stack.extend(subterms1(x))
    return acc


def size(t):
    return len(atoms(t, lambda x: True))


# ---------------------------------------------------------------- printing
def pp(t, d=50):
    if d <= 0:
        return '..'
    op = t.op
    if op == 'c':
        v = t.args[0]
        return str(v) if v < 1 << 16 else (str(v - (1 << t.w)) if v > mask(t.w) - 65536 else hex(v))
    if op == 'v':
        return t.args[0]
    if op in ('true', 'false'):
        return op
    if op == 'lin':
        s = []
        for mono, c in t.args:
            cs = signed(c, t.w)
            ms = '*'.join(pp(_byid[i], d - 1) for i in mono)
            if not mono:
                s.append(str(cs))
            elif cs == 1:
                s.append(ms)
            else:
                s.append('%s*%s' % (cs if abs(cs) < 1 << 20 else hex(c), ms))
        return '(' + ' + '.join(s) + ')'
    if op == 'anf':
        s = []
        for mono, c in t.args:
            ms = '&'.join(pp(_byid[i], d - 1) for i in mono)
            if not mono:
                s.append(hex(c))
            elif c == mask(t.w):
                s.append(ms)
            else:
                s.append('%s&%s' % (hex(c), ms))
        return '(' + ' ^ '.join(s) + ')'
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(pp(x, d - 1) for x in t.args[1:]))
    return '%s%s(%s)' % (op, t.w if op in ('zext', 'sext', 'trunc') else '', ', '.join(pp(x, d - 1) if isinstance(x, T) else str(x) for x in t.args))


# ---------------------------------------------------------------- concrete evaluation
def evaluate(t, env, appfn=None):
    """evaluate with env: var name -> int; appfn(name, argvals, w) -> int"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        op, w, a = x.op, x.w, x.args
        m = mask(w) if w > 0 else 1
        if op == 'c':
            r = a[0]
        elif op == 'true':
            r = 1
        elif op == 'false':
            r = 0
        elif op == 'v':
            r = env[a[0]] & m if w >= 0 else env[a[0]]
        elif op == 'app':
            r = appfn(a[0], tuple(go(y) for y in a[1:]), w)
        elif op == 'lin':
            r = 0
            for mono, c in a:
                p = c
                for i in mono:
                    p = p * go(_byid[i]) & m
                r += p
            r &= m
        elif op == 'anf':
            r = 0
            for mono, c in a:
                p = c
                for i in mono:
                    p &= go(_byid[i])
                r ^= p
        elif op == 'opq':
            r = go(a[0])
        elif op == 'bandop':
            r = go(a[0]) & go(a[1])
        elif op == 'ite':
            r = go(a[1]) if go(a[0]) else go(a[2])
        elif op == 'eq':
            r = int(go(a[0]) == go(a[1]))
        elif op == 'ult':
            r = int(go(a[0]) < go(a[1]))
        elif op == 'slt':
            r = int(signed(go(a[0]), a[0].w) < signed(go(a[1]), a[1].w))
        elif op == 'not':
            r = 1 - go(a[0])
        elif op == 'and':
            r = int(all(go(y) for y in a))
        elif op == 'zext':
            r = go(a[0])
        elif op == 'sext':
            r = signed(go(a[0]), a[0].w) & m
        elif op == 'trunc':
            r = go(a[0]) & m
        elif op == 'shl':
            s = go(a[1])
            r = (go(a[0]) << s) & m if s < w else 0
        elif op == 'lshr':
            s = go(a[1])
            r = go(a[0]) >> s if s < w else 0
        elif op == 'ashr':
            s = min(go(a[1]), w - 1)
            r = (signed(go(a[0]), w) >> s) & m
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            x0, y0 = go(a[0]), go(a[1])
            if y0 == 0:
                r = m if op == 'udiv' else x0
            else:
                r = cval(build(op, (const(x0, w), const(y0, w)), w))
        elif op == 'sum':
            v, n, b = a
            r = 0
            for i in range(go(n)):
                e2 = dict(env)
                e2[v.args[0]] = i
                r += evaluate(b, e2, appfn)
            r &= m
        else:
            raise NotImplementedError(op)
        memo[x.id] = r
        return r
    return go(t)


def xor_parts(t):
    """the operands whose xor is t (None: t is no xor)"""
    if t.op != 'anf':
        return None
    return [mk_anf({k: v}, t.w) for k, v in anf_of(t).items()]
