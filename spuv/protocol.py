"""Running the real body of a protocol kernel once per party, in lock step.

Every party's body runs with its own shares.  What another party sends is not known while one party runs, so each
received value is a placeholder naming (call number, party, operand); after all parties have run, placeholders are
replaced by what that party really passed at that call, and the obligations are stated over the result.  That all parties
make the same calls (kind, tag, size, width) is an obligation of its own."""
from .kernels import *
from .prove import LIACtx
from . import stdlib as SL
from .stdlib import to64, length, c64
from . import arr as AR
from .interp import Container, nextseq

PB = ['/verif/harness/h_types.cc', 'core/type.cc', 'core/type_util.cc', 'mpc/common/pv2k.cc']


class World:
    def __init__(self, I, n, w, opts=None):
        self.I = I
        self.n = n
        self.w = w
        self.opts = opts or {}
        self.logs = Map({('seq', r): () for r in range(n)})
        self.memo = {}
        self.vals = {}
        self.defs = {}
        self.pubfacts = []      # callbacks: index -> fact to assume (public data dependent contracts)

    def append(self, key, x):
        d = self.logs.d
        cur = d.get(key, ())
        if key not in d:
            self.I.setc(self.logs, '%d', dict(d, **{}) | {key: ()})
        self.I.setc(self.logs, key, cur + (x,))
        return len(cur)

    def count(self, key):
        return len(self.logs.d.get(key, ()))

    # ------------------------------------------------------------ collective calls
    def site(self, r, kind, meta, msgs):
        """msgs: list of Msg; returns the call number"""
        return self.append(('seq', r), (kind, meta, tuple(msgs)))

    def ph(self, k, r, j, idx, w):
        return app('%%m.%d.%d.%d' % (k, r, j), [idx], w)

    def round_of(self, x):
        """(k, p, j) if x is a placeholder of a rotate call whose tag is listed in opts['rounds']"""
        nm = x.args[0]
        if not nm.startswith('%m.'):
            return None
        k, p, j = map(int, nm[3:].split('.'))
        seqs = [self.logs.d[('seq', q)] for q in range(self.n)]
        if any(k >= len(s) or s[k][0] != 'rotate' or s[k][1] != seqs[0][k][1] or j >= len(s[k][2]) or s[k][2][j].w != x.w for s in seqs):
            return None
        return (k, p, j) if seqs[0][k][1][0] in self.opts['rounds'] else None

    def resolve_rounds(self, t):
        """like resolve, but what is sent in a listed round stays a variable: with T the xor of what the parties send,
        the last party's part is T ^ the other parts (T by the code that computes the parts). Index comparisons that
        follow from the path condition are replaced by their values on the way."""
        I = self.I
        memo = self.opts.setdefault('%rmemo', {})
        self.sync_pc()

        def msg(q, k, j, idx):
            return self.logs.d[('seq', q)][k][2][j].at(idx)

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == 'app' and x.args[0].startswith('%n.'):
                r = go(self.one_level(x))
            elif x.op == 'app' and len(x.args) == 2 and x.args[0].startswith('%'):
                idx = go(x.args[1])
                rd = self.round_of(x)
                if rd is None:
                    y = app(x.args[0], [idx], x.w)
                    r = go(self.one_level(y)) if y.args[0].startswith(('%m.', '%s.', '%v.')) else y
                else:
                    k, p, j = rd
                    if p < self.n - 1:
                        r = app(x.args[0], [idx], x.w)
                    else:
                        r = const(0, x.w)
                        for q in range(self.n):
                            r = bxor(r, go(msg(q, k, j, idx)))
                        r = TM.box(r)
                        for q in range(self.n - 1):
                            r = bxor(r, self.ph(k, q, j, idx, x.w))
            elif x.op == 'sum':
                raise Unsupported('sum in a round')
            else:
                r = TM.rebuild(x, go)
                if r.op in ('ult', 'slt', 'eq') and r.args[0].w == 64:
                    r = self.decide(r)
                elif r.op == 'lshr' and is_c(r.args[1]) and r.args[0].op == 'lin' and r.w <= 64:
                    k = cval(r.args[1])
                    if all(not m or c % (1 << k) == 0 for m, c in r.args[0].args):
                        q = TM.mk_lin({m: c >> k for m, c in r.args[0].args}, r.w)
                        if self.decide(eq(r, q)) is TRUE:
                            r = q
                elif r.op == 'anf' and r.w == 64 and len(r.args) == 1 and len(r.args[0][0]) == 1:
                    a, c = TM._byid[r.args[0][0][0]], r.args[0][1]      # a & c with a <= c = 2^k - 1
                    if c & (c + 1) == 0 and self.decide(ult(const(c, 64), a)) is FALSE:
                        r = a
            memo[x.id] = r
            return r
        # the placeholders of the last round are replaced by the code that computes them
        top = {}
        for a in TM.atoms(t, lambda x: x.op == 'app' and len(x.args) == 2 and x.args[0].startswith('%m.')):
            rd = self.round_of(a)
            if rd is not None:
                top[a] = msg(rd[1], rd[0], rd[2], a.args[1])
        return go(TM.subst(t, top))

    def decide(self, c):
        known = self.sync_pc()
        r = known.get(c.id)
        if r is None:
            if len(known) % 24 == 0:
                known['%lia'] = LIACtx(self.I.pc)       # keep the solver's state small
            r = known['%lia'].truth(c)
            r = known[c.id] = c if r is None else boolt(r)
        return r

    def sync_pc(self):
        known = self.opts.setdefault('%known', {})
        pc = tuple(x.id for x in self.I.pc)
        if known.get('%pc') != pc:
            known.clear()
            self.opts['%rmemo'].clear()
            known['%pc'] = pc
            known['%lia'] = LIACtx(self.I.pc)
        return known

    def one_level(self, x):
        """the term a placeholder stands for"""
        nm, idx, w = x.args[0], x.args[1] if len(x.args) > 1 else None, x.w
        if nm.startswith('%m.'):
            k, p, j = map(int, nm[3:].split('.'))
            seq = self.logs.d[('seq', p)]
            v = seq[k][2][j].at(idx) if k < len(seq) and j < len(seq[k][2]) else None
        elif nm.startswith(('%s.', '%n.')):
            src, dst, q = map(int, nm[3:].split('.')[:3])
            chan = self.logs.d.get(('chan', src, dst), ())
            v = None if q >= len(chan) else chan[q].n if nm.startswith('%n.') else chan[q].at(idx)
        else:
            f, rec = self.vals[int(nm[3:])]
            v = f(*rec(idx))
        return v if v is not None and v.w == w else app('missing' + nm[2:], list(x.args[1:]), w)

    def resolve(self, t):
        """replace placeholders by what the party passed"""
        if self.opts.get('rounds'):
            return self.resolve_rounds(t)
        memo = self.memo
        I = self.I

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == 'app':
                args = [go(a) for a in x.args[1:]]
                nm = x.args[0]
                if nm.startswith('%m.'):
                    k, p, j = map(int, nm[3:].split('.'))
                    seq = self.logs.d[('seq', p)]
                    if k >= len(seq) or j >= len(seq[k][2]):
                        r = app('missing' + nm[2:], args, x.w)
                    else:
                        m = seq[k][2][j]
                        v = m.at(args[0])
                        if v.w != x.w:
                            r = app('mismatch' + nm[2:], args, x.w)
                        else:
                            r = go(v)
                elif nm.startswith('%s.'):
                    src, dst, q = map(int, nm[3:].split('.')[:3])
                    chan = self.logs.d.get(('chan', src, dst), ())
                    if q >= len(chan):
                        r = app('missing' + nm[2:], args, x.w)
                    else:
                        v = chan[q].at(args[0])
                        r = go(v) if v.w == x.w else app('mismatch' + nm[2:], args, x.w)
                elif nm.startswith('%v.'):
                    f, rec = self.vals[int(nm[3:])]
                    r = f(*[go(x) for x in rec(args[0])])
                    if self.opts.get('opaque'):
                        r, d = app('val.' + nm[3:], args, x.w), r
                        if r.id not in self.defs:
                            I.assume(eq(r, d))
                elif nm.startswith('%n.'):
                    src, dst, q = map(int, nm[3:].split('.')[:3])
                    chan = self.logs.d.get(('chan', src, dst), ())
                    r = go(chan[q].n) if q < len(chan) else app('missing' + nm[2:], args, x.w)
                else:
                    r = app(nm, args, x.w)
            elif x.op == 'sum':
                bv, n, body = x.args
                kt = fresh('rs', bv.w)
                m = I.pcmark()
                keep = dict(memo)
                nn = go(n)
                I.assume(ult(zext(kt, 64) if kt.w < 64 else kt, nn if nn.w == 64 else zext(nn, 64)))
                b = go(subst(body, {bv: kt}))
                I.pcreset(m)
                r = mk_sum(kt, nn, b)
            else:
                r = TM.rebuild(x, go)
            memo[x.id] = r
            return r
        return go(t)

    # ------------------------------------------------------------ obligations on the interaction
    def lockstep(self):
        d = self.logs.d
        n = self.n
        s0 = d[('seq', 0)]
        ok = all(len(d[('seq', r)]) == len(s0) for r in range(n))
        yield 'all parties make the same sequence of collective calls', boolt(ok and all(d[('seq', r)][k][0] == s0[k][0] for r in range(n) for k in range(len(s0))))
        if ok:
            for k, (kind, meta, msgs) in enumerate(s0):
                for r in range(1, n):
                    kind2, meta2, msgs2 = d[('seq', r)][k]
                    same = boolt(len(meta) == len(meta2) and len(msgs) == len(msgs2))
                    if same is TRUE:
                        for a, b in zip(meta, meta2):
                            if isinstance(a, T) and isinstance(b, T):
                                same = and_(same, eq(self.resolve(a), self.resolve(b)) if a.w == b.w else FALSE)
                            elif a != b:
                                same = FALSE
                        for a, b in zip(msgs, msgs2):
                            if a.sized or b.sized:
                                same = and_(same, boolt(a.w == b.w), eq(self.resolve(a.n), self.resolve(b.n)))
                    yield 'call %d (%s): the parties agree on kind, tag and size' % (k, kind), same
        for r in range(n):
            a, b = d.get(('prss1', r), ()), d.get(('prss0', (r + 1) % n), ())
            same = boolt(len(a) == len(b))
            if same is TRUE:
                for (w1, n1), (w2, n2) in zip(a, b):
                    same = and_(same, boolt(w1 == w2), eq(self.resolve(n1), self.resolve(n2)))
            yield 'party %d and its next draw the same amount of shared randomness' % r, same
        for r in range(1, n):
            a, b = d.get(('publ', 0), ()), d.get(('publ', r), ())
            same = boolt(len(a) == len(b))
            if same is TRUE:
                for (w1, n1), (w2, n2) in zip(a, b):
                    same = and_(same, boolt(w1 == w2), eq(self.resolve(n1), self.resolve(n2)))
            yield 'all parties draw the same public randomness', same
        for i in range(n):
            for j in range(n):
                q = d.get(('rcv', i, j), ())
                s = d.get(('chan', i, j), ())
                if q or s:
                    same = boolt(len(q) == len(s) and all(a == b.tag and (w is None or w == b.w) for (a, w), b in zip(q, s)))
                    yield 'messages from party %d to %d: each is received once, in order, with its tag and element size' % (i, j), same


class Msg:
    def __init__(self, at, n, w, tag='', sized=True):
        self.at, self.n, self.w, self.tag, self.sized = at, n, w, tag, sized


class SO:
    """a party's handle on a state object"""
    def __init__(self, kind, W, r):
        self.kind, self.W, self.r = kind, W, r

    def copy(self, I):
        return self

    def __repr__(self):
        return 'SO(%s@%d)' % (self.kind, self.r)

    def get_member(self, I, m):
        if self.kind == 'config':
            if m in self.W.opts:
                return LV(Cell(self.W.opts[m]))
            return LV(Cell(var('config.' + m, 0)))
        if self.kind == 'cache':
            if m == 'enabled':
                return LV(Cell(boolt(self.W.opts.get('cache.' + self.r, False))))
        raise Unsupported('member %s of %s' % (m, self.kind))


METHODS = {}


def method(kind, *names):
    def d(f):
        for nm in names:
            METHODS[kind, nm] = f
        return f
    return d


def so_call(name):
    def h(I, o, c):
        f = METHODS.get((o.kind, name))
        if f is None:
            return NotImplemented
        return f(I, o.W, o.r, c)
    return h


AR.ARRCLS[SO] = so_call


def ptr(x):
    return Ptr(Cell(x))


def ctxof(W, r):
    return ptr(SO('ctx', W, r))


STATES = {'Communicator': 'comm', 'PrgState': 'prg', 'Z2kState': 'z2k'}


@method('ctx', 'getState')
def m_getstate(I, W, r, c):
    n = c.fn.ta[0].s.split('::')[-1]
    if n not in STATES:
        raise Unsupported('state ' + n)
    return ptr(SO(STATES[n], W, r))


METHODS['sctx', 'getState'] = m_getstate
METHODS['ctx', 'sctx'] = lambda I, W, r, c: ptr(SO('sctx', W, r))
METHODS['sctx', 'config'] = lambda I, W, r, c: LV(Cell(SO('config', W, r)))
METHODS['z2k', 'getDefaultField'] = lambda I, W, r, c: fmval(I.P, W.w)
fmval = RS.fmval
METHODS['comm', 'getRank'] = lambda I, W, r, c: c64(r)
METHODS['comm', 'getWorldSize'] = lambda I, W, r, c: c64(W.n)
METHODS['comm', 'nextRank'] = lambda I, W, r, c: c64((r + 1) % W.n)
METHODS['comm', 'prevRank'] = lambda I, W, r, c: c64((r - 1) % W.n)
METHODS['comm', 'addCommStatsManually'] = lambda I, W, r, c: None
METHODS['comm', 'getStats'] = lambda I, W, r, c: Opaque('stats')
METHODS['comm', 'lctx'] = lambda I, W, r, c: ptr(SO('lctx', W, r))
METHODS['lctx', 'Rank'] = lambda I, W, r, c: c64(r)
METHODS['lctx', 'WorldSize'] = lambda I, W, r, c: c64(W.n)
METHODS['lctx', 'NextRank'] = lambda I, W, r, c: c64((r + 1) % W.n)
METHODS['lctx', 'PrevRank'] = lambda I, W, r, c: c64((r - 1) % W.n)


def leafw(a):
    if a.store.leaves is None:
        raise Unsupported('an array that was never written is sent')
    sub = {p[len(a.path):]: w for p, w in a.store.leaves.items() if p[:len(a.path)] == a.path}
    return sub


def msg_of(I, a, tag=''):
    """message(s) carrying array a"""
    if a.store.leaves is None:
        RS.with_w(I, a, RS.field_w(I, a.ety.v))
    sub = leafw(a)
    if set(sub) != {()}:
        raise Unsupported('an array of multi-component elements is sent')
    s = Snap(I, a)
    return Msg(lambda i: s.at(i), a.numel(I), sub[()], tag)


def msg_span(I, v, ety_w=None, tag=''):
    v = I.unbase(v)
    if type(v) is SL.Span:
        if isinstance(v.c, SArr):
            lay, c, off = list(v.c.layers), v.c, v.off
            w = v.c.leaves[()]
            return Msg(lambda i: I.layers_read(c, lay, add(I.kt(off), i), ()), v.n, w, tag)
        if type(v.c) is Vec:
            items = list(v.c.items)
            o = sval(I.kt(v.off))
            return vec_msg(items[o:o + cval(v.n)], tag)
    if type(v) is SArr:
        lay = list(v.layers)
        return Msg(lambda i: I.layers_read(v, lay, i, ()), v.n, v.leaves[()], tag)
    if type(v) is Vec:
        return vec_msg(list(v.items), tag)
    raise Unsupported('message %r' % (v,))


def vec_msg(items, tag):
    def at(i):
        if is_c(i):
            return items[cval(i)]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(eq(i, c64(k)), items[k], r)
        return r
    if not items:
        raise Unsupported('empty message')
    return Msg(at, c64(len(items)), items[0].w, tag)


def tagof(c, i):
    v = c.I.unbase(c.val(i))
    try:
        s = SL.render(c.I, v)
        return s
    except Unsupported:
        return '?'


def res_arr(I, like, f, w, name, shape=None, ety=None):
    return AR.new_arr(I, I.copyval(ety if ety is not None else like.ety.v), I.copyval(shape if shape is not None else like.shape.v), name, {(): w}, lambda p, i: f(i))


def res_vec(I, f, n, w, name):
    return SArr(fresh(name, 1).args[0], n, {(): w}, lambda p, i: f(i))


def comb(op, xs):
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x) if op == 'add' else bxor(r, x)
    return r


@method('comm', 'allReduce')
def m_allreduce(I, W, r, c):
    if len(c.args) == 3:
        op = c.val(0)
        if not is_c(op):
            raise Unsupported('symbolic reduction')
        I.require('allReduce: a supported reduction', boolt(cval(op) in (1, 2)))
        op = 'add' if cval(op) == 1 else 'xor'
        x = c.val(1)
        m = msg_of(I, x)
        k = W.site(r, 'allReduce', (op, tagof(c, 2)), [m])
        return res_arr(I, x, lambda i: comb(op, [W.ph(k, p, 0, i, m.w) for p in range(W.n)]), m.w, 'allred')
    fid = c.fn.id
    op = 'add' if 'St4plus' in fid else 'xor' if 'St7bit_xor' in fid else None
    if op is None:
        raise Unsupported('reduction function of ' + fid)
    m = msg_span(I, c.val(0))
    k = W.site(r, 'allReduce', (op, tagof(c, 1)), [m])
    return res_vec(I, lambda i: comb(op, [W.ph(k, p, 0, i, m.w) for p in range(W.n)]), m.n, m.w, 'allred')


@method('comm', 'reduce')
def m_reduce(I, W, r, c):
    op = 'add' if cval(c.val(0)) == 1 else 'xor'
    x = c.val(1)
    m = msg_of(I, x)
    root = c.val(2)
    if not is_c(root):
        raise Unsupported('symbolic root')
    k = W.site(r, 'reduce', (op, cval(root), tagof(c, 3)), [m])
    if r != cval(root):
        return AR.a_clone(I, x, None)
    return res_arr(I, x, lambda i: comb(op, [W.ph(k, p, 0, i, m.w) for p in range(W.n)]), m.w, 'red')


@method('comm', 'rotate')
def m_rotate(I, W, r, c):
    v = I.unbase(c.val(0))
    nx = (r + 1) % W.n
    if isinstance(v, Arr):
        if set(leafw(v)) != {()}:
            sub = leafw(v)
            s = Snap(I, v)
            ps = sorted(sub)
            ms = [Msg((lambda i, p=p: s.at(i, p)), v.numel(I), sub[p]) for p in ps]
            k = W.site(r, 'rotate', (tagof(c, 1),), ms)
            return AR.new_arr(I, I.copyval(v.ety.v), I.copyval(v.shape.v), 'rot', dict(sub), lambda p, i: W.ph(k, nx, ps.index(p), i, sub[p]))
        m = msg_of(I, v)
        k = W.site(r, 'rotate', (tagof(c, 1),), [m])
        return res_arr(I, v, lambda i: W.ph(k, nx, 0, i, m.w), m.w, 'rot')
    m = msg_span(I, v)
    k = W.site(r, 'rotate', (tagof(c, 1),), [m])
    if tagof(c, 1) in W.opts.get('rounds', ()) and type(v) is SL.Span:
        fill_span(I, v, lambda i, w: W.ph(k, r, 0, i, w))      # what was sent, by its name
    return res_vec(I, lambda i: W.ph(k, nx, 0, i, m.w), m.n, m.w, 'rot')


@method('comm', 'gather')
def m_gather(I, W, r, c):
    v = I.unbase(c.val(0))
    root = c.val(1)
    if not is_c(root):
        raise Unsupported('symbolic root')
    root = cval(root)
    arr = isinstance(v, Arr)
    m = msg_of(I, v) if arr else msg_span(I, v)
    k = W.site(r, 'gather', (root, tagof(c, 2)), [m])
    mk = (lambda p: res_arr(I, v, lambda i: W.ph(k, p, 0, i, m.w), m.w, 'gath')) if arr else (lambda p: res_vec(I, lambda i: W.ph(k, p, 0, i, m.w), m.n, m.w, 'gath'))
    if r == root:
        return Vec([mk(p) for p in range(W.n)])
    if arr:
        return Vec([Arr(SArr('null', c64(0), None), Cell(UNINIT), Cell(Vec([]))) for _ in range(W.n)])
    return Vec([])


@method('comm', 'broadcast')
def m_broadcast(I, W, r, c):
    x, root, ety, shape = c.val(0), c.val(1), c.val(2), c.val(3)
    if not is_c(root):
        raise Unsupported('symbolic root')
    root = cval(root)
    if r == root:
        m = msg_of(I, x)
        m.sized = True
        w = m.w
        res = lambda k: res_arr(I, x, lambda i: W.ph(k, root, 0, i, w), w, 'bc')
    else:
        w = RS.field_w(I, ety)
        m = Msg(lambda i: const(0, w), AR.shape_numel(I, shape), w)
        res = lambda k: res_arr(I, None, lambda i: W.ph(k, root, 0, i, w), w, 'bc', shape=shape, ety=ety)
    k = W.site(r, 'broadcast', (root, tagof(c, 4)), [m])
    return res(k)


@method('comm', 'bcast')
def m_bcast(I, W, r, c):
    root = c.val(1)
    if not is_c(root):
        raise Unsupported('symbolic root')
    root = cval(root)
    m = msg_span(I, c.val(0))
    k = W.site(r, 'bcast', (root, tagof(c, 2)), [m])
    return res_vec(I, lambda i: W.ph(k, root, 0, i, m.w), m.n, m.w, 'bc')


@method('comm', 'sendAsync')
def m_send(I, W, r, c):
    dst = c.val(0)
    if not is_c(dst):
        raise Unsupported('symbolic destination')
    v = I.unbase(c.val(1))
    I.require('sendAsync: destination is another party', boolt(cval(dst) < W.n and cval(dst) != r))
    m = msg_of(I, v) if isinstance(v, Arr) else msg_span(I, v)
    m.tag = tagof(c, 2)
    W.append(('chan', r, cval(dst)), m)


@method('comm', 'recv')
def m_recv(I, W, r, c):
    src = c.val(0)
    if not is_c(src):
        raise Unsupported('symbolic source')
    src = cval(src)
    I.require('recv: source is another party', boolt(src < W.n and src != r))
    arr = len(c.args) == 3
    tag = tagof(c, 2 if arr else 1)
    ety = c.val(1) if arr else None
    if arr:
        w = RS.field_w(I, ety)
    else:
        t = c.fn.ta[0]
        w = SL.leaves_of(I, t)[0][()]
    q = W.append(('rcv', src, r), (tag, w))
    n = zext(app('%%n.%d.%d.%d' % (src, r, q), [], 40), 64)
    nn = app('%%n.%d.%d.%d' % (src, r, q), [], 64)
    I.fact(ult(nn, c64(1 << 48)))
    f = lambda i: app('%%s.%d.%d.%d' % (src, r, q), [i], w)
    if arr:
        return res_arr(I, None, f, w, 'recv', shape=Vec([nn]), ety=ety)
    return res_vec(I, f, nn, w, 'recv')


# ------------------------------------------------------------ pseudorandom generator
def fieldw(I, f):
    for w, n in RS.FM.items():
        if is_c(f) and cval(f) == n:
            return w
    raise Unsupported('symbolic field')


def prss_at(W, owner, q, i, w):
    return app('prss.%d.%d' % (owner, q), [i], w)


def empty_arr():
    return Arr(SArr('null', c64(0), None), Cell(UNINIT), Cell(Vec([])))


@method('prg', 'genPrssPair')
def m_prss(I, W, r, c):
    w = fieldw(I, c.val(0))
    shape = I.copyval(c.val(1))
    ctrl = c.val(2)
    if not is_c(ctrl):
        raise Unsupported('symbolic selection of randomness')
    ctrl = cval(ctrl)
    n = AR.shape_numel(I, shape)
    ty = RS.ringty(I, w)
    out = []
    for j, (key, owner) in enumerate((('prss0', r), ('prss1', (r + 1) % W.n))):
        if (ctrl == 1 and j == 1) or (ctrl == 2 and j == 0):
            out.append(AR.new_arr(I, I.copyval(ty), shape, 'unused', {(): w}))     # declared, content unspecified
            continue
        q = W.append((key, r), (w, n))
        out.append(AR.new_arr(I, I.copyval(ty), shape, 'prss', {(): w}, lambda p, i, owner=owner, q=q: prss_at(W, owner, q, i, w)))
    return pair(I, c, out[0], out[1])


def pair(I, c, a, b):
    r = I.P.recs.get(c.ty.r) if c.ty is not None else None
    return Obj(r, {'first': a, 'second': b})


@method('prg', 'genPriv')
def m_priv(I, W, r, c):
    w = fieldw(I, c.val(0))
    q = W.append(('priv', r), (w, 0))
    return AR.new_arr(I, RS.ringty(I, w), I.copyval(c.val(1)), 'priv', {(): w}, lambda p, i: app('priv.%d.%d' % (r, q), [i], w))


@method('prg', 'genPubl')
def m_publ(I, W, r, c):
    w = fieldw(I, c.val(0))
    sh = I.copyval(c.val(1))
    q = W.append(('publ', r), (w, AR.shape_numel(I, sh)))
    return AR.new_arr(I, RS.ringty(I, w), sh, 'publ', {(): w}, lambda p, i: app('publ.%d' % q, [i], w))


def fill_span(I, sp, f):
    """every element of a span := f(i, width)"""
    sp = I.unbase(sp)
    if type(sp) is not SL.Span:
        raise Unsupported('fill of %r' % (sp,))
    if is_c(sp.n):
        for i in range(cval(sp.n)):
            lv_ = LV(sp.c, sp.off if i == 0 else I.keyadd(sp.off, c64(i)))
            w = sp.ety.w if sp.ety is not None else None
            old = lv_.c.get(lv_.k) if not isinstance(lv_.c, SArr) else None
            if w is None:
                raise Unsupported('width of a filled span')
            I.store(lv_, f(c64(i), w))
        return
    a = sp.c
    if type(a) is not SArr or not (is_c(I.kt(sp.off)) and cval(I.kt(sp.off)) == 0):
        raise Unsupported('fill of part of an array')
    w = a.leaves[()]
    kt = fresh('e', 40)
    k = zext(kt, 64)
    I.setc(a, '%layers', a.layers + [IP.Layer([(kt, sp.n)], k, {(): f(k, w)}, total=a.n is sp.n)])


from . import interp as IP


@method('prg', 'fillPubl')
def m_fillpubl(I, W, r, c):
    sp = I.unbase(c.val(0))
    t = c.fn.ta[0]
    if type(sp) is SL.Span and sp.ety is None:
        sp = SL.Span(sp.c, sp.off, sp.n, t)
    q = W.append(('publ', r), (t.w, to64(sp.n)))
    pv = W.opts.get('pivot')
    if pv is not None and t.w == 64 and is_c(to64(sp.n)) and cval(to64(sp.n)) == 1:
        # case of the analysis: the one public word drawn has this value, or this residue modulo 3
        if not isinstance(pv, T):
            x = app('publ.%d' % q, [c64(0)], 64)
            TM.UREM[(x.id, 3)] = pv
            pv = x
        fill_span(I, sp, lambda i, w: pv)
        return
    fill_span(I, sp, lambda i, w: app('publ.%d' % q, [i], w))


@method('prg', 'fillPriv')
def m_fillpriv(I, W, r, c):
    sp = I.unbase(c.val(0))
    t = c.fn.ta[0]
    if type(sp) is SL.Span and sp.ety is None:
        sp = SL.Span(sp.c, sp.off, sp.n, t)
    q = W.append(('priv', r), (t.w, 0))
    fill_span(I, sp, lambda i, w: app('priv.%d.%d' % (r, q), [i], w))


@method('prg', 'fillPrssPair')
def m_fillprss(I, W, r, c):
    t = c.fn.ta[0]
    p0, p1, n, ctrl = c.val(0), c.val(1), to64(c.val(2)), c.val(3)
    if not is_c(ctrl):
        raise Unsupported('symbolic selection of randomness')
    ctrl = cval(ctrl)
    for j, (p, key, owner) in enumerate(((p0, 'prss0', r), (p1, 'prss1', (r + 1) % W.n))):
        if (ctrl == 1 and j == 1) or (ctrl == 2 and j == 0):
            continue
        q = W.append((key, r), (t.w, n))
        if p.c is None:
            raise Unsupported('randomness written through a null pointer')
        fill_span(I, SL.Span(p.c, p.k if p.k is not None else 0, n, t), lambda i, w, owner=owner, q=q: prss_at(W, owner, q, i, w))


# ------------------------------------------------------------ dealer randomness in raw buffers
class BBuf:
    """yacl::Buffer holding n elements of width w (w None: raw bytes, element width chosen by the reader)"""
    def __init__(self, nbytes, f, w=None, n=None):
        self.nbytes, self.f, self.w, self.n = nbytes, f, w, n

    def copy(self, I):
        return self

    def sarr(self, I, w):
        if self.w is not None and self.w != w:
            raise Unsupported('a buffer of %d-bit elements read as %d-bit' % (self.w, w))
        n = self.n if self.w is not None else exact_div(self.nbytes, w // 8)
        return SArr(fresh('buf', 1).args[0], n, {(): w}, lambda p, i: self.f(i, w))


def exact_div(t, d):
    if d == 1:
        return t
    l = TM.lin_of(t) if hasattr(TM, 'lin_of') else None
    if l and all(cc % d == 0 for cc in l.values()):
        return TM.mk_lin({m: cc // d for m, cc in l.items()}, t.w)
    return udiv(t, const(d, t.w))


def bbuf_m(name):
    if name == 'size':
        return lambda I, o, c: o.nbytes
    if name == 'data':
        def data(I, o, c):
            t = c.fn.ta[0]
            w = SL.leaves_of(I, t)[0][()]
            return Ptr(o.sarr(I, w), c64(0), t)
        return data
    return None


AR.ARRCLS[BBuf] = bbuf_m


def buf_ctor(I, c):
    a = I.unbase(c.val(0)) if c.args else None
    return a if isinstance(a, BBuf) else NotImplemented


def ndref_from_buf(I, c, vals):
    p = vals[0]
    b = I.unbase(I.rv(I.deref(p))) if isinstance(p, Ptr) else None
    if isinstance(b, BBuf) and len(vals) == 3:
        ety, shape = vals[1], vals[2]
        w = RS.field_w(I, ety)
        n = AR.shape_numel(I, shape)
        I.require('array over a buffer: the buffer has the array\'s size', eq(b.nbytes, mul(n, c64(w // 8))))
        a = AR.new_arr(I, I.copyval(ety), I.copyval(shape), 'frombuf', {(): w}, lambda q, i: b.f(i, w))
        return a
    raise Unsupported('NdArrayRef constructor over %r' % (b,))


def dealer(W, r, kind, meta, msgs=()):
    return W.site(r, 'dealer ' + kind, meta, msgs)


def shares_of(W, name, w, spec, op):
    """party-wise function: shares named `name` that combine to spec(i) (None: free shares)"""
    def at(r, i):
        if spec is None or r != W.n - 1:
            return app('%s@%d' % (name, r), [i], w)
        rest = comb(op, [app('%s@%d' % (name, p), [i], w) for p in range(W.n - 1)])
        return sub(spec(i), rest) if op == 'add' else bxor(spec(i), rest)
    return at


def total(W, name, w, i, op):
    return comb(op, [app('%s@%d' % (name, p), [i], w) for p in range(W.n)])


# ------------------------------------------------------------ gates of the layer below, by contract
def gate(W, I, r, kind, ins, f, like, ety, op='xor', extra=(), w=None):
    """result share of a gate whose reconstruction is f of the reconstructed operands (resharing is arbitrary)"""
    ms = [msg_of(I, x) for x in ins]
    k = W.site(r, 'gate ' + kind, tuple(extra), ms)
    w = w or ms[0].w
    nm = 'gate%d' % k
    W.vals[k] = (f, lambda i: [comb(op_in(kind, j, op), [W.ph(k, p, j, i, m.w) for p in range(W.n)]) for j, m in enumerate(ms)])

    def at(i):
        if r != W.n - 1:
            return app('%s@%d' % (nm, r), [i], w)
        v = app('%%v.%d' % k, [i], w)
        rest = comb(op, [app('%s@%d' % (nm, p), [i], w) for p in range(W.n - 1)])
        return sub(v, rest) if op == 'add' else bxor(v, rest)
    return res_arr(I, like, at, w, nm, ety=ety)


GATE_IN = {}


def op_in(kind, j, op):
    return GATE_IN.get(kind, op)


# ------------------------------------------------------------ interpreter set-up
def mk(P, n, w, opts=None, skip=(), setup=None):
    TM.UREM.clear()
    I = make_interp(P, abstract=True)
    RS.install(I, skip=skip)
    I.ghost['ndref_ctor_ext'] = ndref_from_buf
    I.overrides['yacl::Buffer::Buffer'] = buf_ctor

    def vmap(I, c):
        # contract of spu::vmap(list, fn) for an element-wise fn: fn applied to each array
        items = [I.rv(x) for x in c_items(I, c.val(0))]
        f = c.args[1]
        return Vec([I.rv(I.call_value(I.rv(f), [LV(Cell(x.copy(I)))])) for x in items])

    def vmap2(I, c):
        xs = [I.rv(x) for x in c_items(I, c.val(0))]
        ys = [I.rv(x) for x in c_items(I, c.val(1))]
        f = c.args[2]
        I.require('vmap: lists of equal length', boolt(len(xs) == len(ys)))
        return Vec([I.rv(I.call_value(I.rv(f), [LV(Cell(x.copy(I))), LV(Cell(y.copy(I)))])) for x, y in zip(xs, ys)])

    def vm(I, c):
        if len(c.args) == 2:
            return vmap(I, c)
        if len(c.args) == 3:
            v = I.unbase(c.val(0))
            if isinstance(v, (It, Ptr)):
                return NotImplemented
            return vmap2(I, c)
        return NotImplemented
    I.overrides['spu::vmap'] = vm

    def vreduce(I, c):
        # contract of spu::vreduce: some bracketing of fn over the list, in order
        items = [I.rv(x) for x in SL.itpair_to_list(I, c.val(0), c.val(1))]
        I.require('vreduce: at least one element', boolt(len(items) > 0))
        f = I.rv(c.args[2])
        while len(items) > 1:
            nxt = []
            for i in range(0, len(items) - 1, 2):
                nxt.append(I.rv(I.call_value(f, [LV(Cell(items[i])), LV(Cell(items[i + 1]))])))
            if len(items) % 2:
                nxt.append(items[-1])
            items = nxt
        return items[0]
    I.overrides['spu::vreduce'] = vreduce
    for ns in ('spu::', 'spu::mpc::'):
        I.overrides[ns + 'WrapValue'] = lambda I, c: c.val(0)
        I.overrides[ns + 'UnwrapValue'] = lambda I, c: c.val(0)
    I.overrides['spu::Value::Value'] = lambda I, c: c.val(0) if c.args else AR.LIBDEFAULT['spu::NdArrayRef'](I, None, True)
    if setup is not None:
        setup(I)
    return I


def c_items(I, v):
    v = I.unbase(v)
    if type(v) in (Vec, SL.Span):
        it = I.iterate(v, None)
        return it
    raise Unsupported('list %r' % (v,))


# ------------------------------------------------------------ reasoning about single bits inside ring arithmetic
def bitof(t, b):
    """bit b of t as a one-bit term, pushed through word operations that act bit by bit"""
    w = t.w
    if kz(t) >> b & 1:
        return const(0, 1)
    if t.op == 'c':
        return const(t.args[0] >> b & 1, 1)
    if t.op == 'zext':
        return bitof(t.args[0], b)
    if t.op == 'trunc':
        return bitof(t.args[0], b)
    if t.op == 'lshr' and is_c(t.args[1]):
        return bitof(t.args[0], b + cval(t.args[1]))
    if t.op == 'shl' and is_c(t.args[1]):
        return bitof(t.args[0], b - cval(t.args[1]))
    if t.op == 'anf':
        r = const(0, 1)
        for mono, c in t.args:
            if not c >> b & 1:
                continue
            x = const(1, 1)
            for i in mono:
                x = band(x, bitof(TM._byid[i], b))
            r = bxor(r, x)
        return r
    if t.op == 'lin':
        d = TM.lin_of(t)
        parts = [(m, c, mask(w) & ~kz(mk_lin({m: c}, w))) for m, c in d.items()]
        seen, disjoint = 0, True
        for _, _, z in parts:
            z &= mask(b) if b else 0
            if seen & z:
                disjoint = False
            seen |= z
        # no two summands meet below bit b, so nothing is carried into it
        use = [(m, c) for m, c, z in parts if z >> b & 1] if disjoint else None
        if use is not None:
            r = const(0, 1)
            for m, c in use:
                x = monobit(m, c, b, w)
                if x is None:
                    r = None
                    break
                r = bxor(r, x)
            if r is not None:
                return r
    return trunc(lshr(t, const(b, w)) if b else t, 1)


def monobit(m, c, b, w):
    """bit b of c * (product of m)"""
    k = (c & -c).bit_length() - 1
    if not m:
        return const(c >> b & 1, 1)
    odd = c >> k
    if b < k:
        return const(0, 1)
    b -= k
    if len(m) == 1:
        a = TM._byid[m[0]]
        if odd == 1 or not (mask(a.w) & ~kz(a)) & mask(b):
            return bitof(a, b)
        return None
    if b == 0:
        x = const(1, 1)
        for i in m:
            x = band(x, bitof(TM._byid[i], 0))
        return x
    return None


def bitfactors(t):
    """factors of ring products of which only one bit can be set are written as that bit, shifted"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'lin':
            out = const(0, x.w)
            for mono, c in TM.lin_of(x).items():
                p = const(c, x.w)
                for i in mono:
                    a = TM._byid[i]
                    nz = mask(a.w) & ~kz(a)
                    if len(mono) > 1 and nz and nz & (nz - 1) == 0:
                        b = nz.bit_length() - 1
                        a = shl(zext(bitof(a, b), a.w), const(b, a.w)) if a.w > 1 else bitof(a, b)
                    else:
                        a = go(a)
                    p = mul(p, a)
                out = add(out, p)
            r = out
        elif x.op == 'sum':
            r = x
        else:
            r = TM.rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def bit_poly(b, w):
    """one-bit term as an integer polynomial: {frozenset of one-bit atom ids: coefficient}"""
    if b.op == 'c':
        return {frozenset(): 1} if b.args[0] else {}
    if b.op == 'anf':
        r = {}
        for mono, c in b.args:
            if not c & 1:
                continue
            x = {frozenset(): 1}
            for i in mono:
                x = poly_mul(x, bit_poly(TM._byid[i], w), w)
            xy = poly_mul(r, x, w)
            r = dict(r)
            for k, v in x.items():
                r[k] = (r.get(k, 0) + v) & mask(w)
            for k, v in xy.items():
                r[k] = (r.get(k, 0) - 2 * v) & mask(w)
            if len(r) > 400:
                return None
        return {k: v for k, v in r.items() if v}
    if b.op == 'not':
        r = {k: -v & mask(w) for k, v in bit_poly(b.args[0], w).items()}
        r[frozenset()] = (r.get(frozenset(), 0) + 1) & mask(w)
        return {k: v for k, v in r.items() if v}
    return {frozenset([b.id]): 1}


def poly_mul(x, y, w):
    r = {}
    for a, c in x.items():
        for b, d in y.items():
            k = a | b
            r[k] = (r.get(k, 0) + c * d) & mask(w)
    return {k: v for k, v in r.items() if v}


def bitarith(t):
    """sums of products in which factors of at most one possible bit are written out as integer polynomials over one-bit atoms"""
    memo = {}

    def lin(x):
        w = x.w
        acc = {}
        for mono, c in TM.lin_of(x).items():
            poly = {frozenset(): c}
            rest = const(1, w)
            for i in mono:
                a = TM._byid[i]
                nz = mask(a.w) & ~kz(a)
                if a.w > 1 and nz and nz & (nz - 1) == 0:
                    b = nz.bit_length() - 1
                    q = bit_poly(bitof(a, b), w)
                    poly = poly_mul(poly, {k: v << b for k, v in q.items()}, w)
                else:
                    rest = mul(rest, go(a))
            for k, v in poly.items():
                kk = (k, rest.id)
                if kk in acc:
                    acc[kk][1] = (acc[kk][1] + v) & mask(w)
                else:
                    acc[kk] = [rest, v]
        r = const(0, w)
        for (k, _), (rest, v) in acc.items():
            if not v:
                continue
            m = const(v, w)
            for i in sorted(k):
                m = mul(m, zext(TM._byid[i], w))
            r = add(r, mul(m, rest))
        return r

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = lin(x) if x.op == 'lin' and x.w > 1 else x if x.op == 'sum' else TM.rebuild(x, go)
        return r
    if t.op == 'eq':
        a, b = t.args
        return eq(lin_any(sub(a, b), lin), const(0, a.w))
    return go(t)


def lin_any(x, f):
    return f(x) if x.w > 1 else x


# ------------------------------------------------------------ inputs
def ashare(I, W, name, r, ety, shape, w, op='add', value=None):
    """party r's share of `name`: free, except that with value given the last share is fixed by it"""
    f = shares_of(W, name, w, value, op)
    a = AR.new_arr(I, ety, shape, name, {(): w}, lambda p, i: f(r, i))
    return a


def public(I, name, ety, shape, w):
    return AR.new_arr(I, ety, shape, name, {(): w}, lambda p, i: app(name, [i], w))


def fullrun(ctx, I, W_of, call, post, throws_ok=None, mode='bv', timeout=None):
    """run with placeholder resolution of path conditions and of the obligations raised on the way"""
    I.checks = []
    I.throws = []
    done = [0]
    st = {}

    def call2(I):
        I.cur = None
        st['n0'] = len(I.checks)
        return call(I)

    def post2(I, v):
        W = I.cur
        W.memo.clear()
        newpc = [W.resolve(p) for p in I.pc]
        # obligations raised while running this path
        keep = I.checks[:]
        out = []
        for nm, g, pc in keep[st['n0']:]:
            g2 = W.resolve(g)
            if g2 is TRUE:
                continue
            out.append((nm, g2, [W.resolve(p) for p in pc]))
        I.pc[:] = []
        I.pcset = set()
        for p in newpc:
            if p is TRUE:
                continue
            if p is FALSE:
                raise Infeasible()
            I.pc.append(p)
            I.pcset.add(p)
        def fin(g):
            g = W.resolve(g)
            rc = I.ghost.get('rowcol')
            if rc:
                m = {}
                for idx, (a, b) in rc.items():
                    for N in I.ghost.get('rowcol_n', ()):
                        m[udiv(idx, N)], m[urem(idx, N)] = a, b
                g = subst(g, m)
            cv = I.ghost.get('chvar')
            if cv:
                g = subst(g, cv)
                pc = [subst(x, cv) for x in I.pc]
                I.pc[:] = pc
                I.pcset = set(pc)
            return g
        for key, ch in W.logs.d.items():
            if key[0] == 'chan':
                for q, m in enumerate(ch):
                    st.setdefault('lens', {}).setdefault('%%n.%d.%d.%d' % (key[1], key[2], q), set()).add(W.resolve(m.n))
        for nm, g in post(I, W, v):
            yield nm, fin(g)
        for nm, g in W.lockstep():
            yield nm, fin(g)
        st.setdefault('extra', []).extend(out)
    # ctx.run drops checks appended during post, so resolved ones are collected separately
    ctx_run(ctx, I, call2, post2, st, throws_ok, mode, timeout)


def ctx_run(ctx, I, call, post, st, throws_ok, mode, timeout):
    goals, returned = [], []
    I.checks = []
    I.throws = []

    def on_path(I, v):
        n0 = len(I.checks)
        for nm, g in post(I, v):
            goals.append((nm, g, list(I.pc)))
        returned.append(list(I.pc))
        del I.checks[st['n0']:]
    I.explore(call, on_path)
    seen = set()
    ok = False
    for pc in returned[:8]:
        r = PV.prove(FALSE, pc, 'bv', 5000, cvc5=False)
        if r.ok is not True:
            ok = True
            break
    ctx.obls.append(Obl(ctx.name, 'reachable-return', 'proved' if ok else 'refuted', 'z3', 0.0, '' if ok else 'no feasible returning path'))
    for nm, g, pc in goals:
        ctx._one(nm, g, pc, seen, mode, timeout, ())
    for nm, g, pc in st.get('extra', []) + I.checks:
        ctx._one('safety: ' + nm, g, pc, seen, mode, timeout, ())
    # the length of a message a party had not received yet where it raised: what its sender sends on every returning path
    # (the causally first party to raise has received only messages whose senders did not raise)
    lens = {}
    for nm, ts in st.get('lens', {}).items():
        if len(ts) == 1:
            lens[nm] = next(iter(ts))
    for pc, msg in I.throws:
        m = {a: lens[a.args[0]] for a in TM.atoms(pc, lambda x: x.op == 'app' and x.args[0] in lens)}
        for _ in range(3):
            pc = subst(pc, m) if m else pc
        g = not_(pc) if throws_ok is None or throws_ok is False else implies(pc, throws_ok)
        ctx._one('does not raise under its precondition', g, [], seen, mode, timeout, (), info=str(msg))
    for d, s in ((ctx.contracts, I.used_contracts), (ctx.builtins, I.used_builtins), (ctx.executed, I.executed)):
        for k, v in s.items():
            d[k] = d.get(k, 0) + v


from . import prove as PV
