"""P09: array views and copies (core/ndarray_ref.h, core/ndarray_ref.cc)."""
import itertools
from ..kernels import *
from ..interp import LIBDEFAULT, mkkey
from ..check import Native

TRUSTED = ['std::vector, std::set, std::transform as the C++ standard describes them', 'yacl::Buffer: data() is the address of its first byte']
ASSUMPTIONS = ['views: ranks 0 to 3 (bounded); dimensions and strides are arbitrary, element size arbitrary, address arithmetic does not wrap',
               'a dimension of size one has stride zero (every constructor and view establishes it, checked by the run-time contract)',
               'reshape of strided arrays, clone, expand, concatenate, pad, gather, scatter, slice update, pack and unpack: run-time contract only (bounded)']
LEVEL = 'other'
EXPLANATION = 'Deductive: every view, indexing form and iterator step is executed symbolically against its address contract and every obligation is discharged for all dimensions, strides, offsets and element sizes, separately for each rank from 0 to 3 and each pattern of unit dimensions; copying operations are evaluated against their contract at run time on seeded arrays (bounded).'
FILES = ['core/shape.cc', 'core/ndarray_ref.cc', 'core/type.cc', 'core/type_util.cc', 'mpc/common/pv2k.cc', '/verif/harness/h_types.cc', '/verif/harness/h_shape.cc', '/verif/harness/h_ndarray.cc']
MAXR = 3


def natives(tier):
    yield Native('ndarray', ['core/ndarray_ref.cc', 'core/shape.cc', 'core/type.cc', 'core/type_util.cc'], ms_quick=15000, san=True)


def base_mem():
    return FnProxy(None)


def uniq(I, c):
    """std::set of known integers"""
    v = c.vals()
    if len(v) < 2 or not all(isinstance(x, It) for x in v[:2]):
        raise Unsupported('std::set constructor')
    b, e = v[:2]
    xs = [I.rv(LV(b.c, k)) for k in range(b.k, e.k)]
    if not all(isinstance(x, T) and is_c(x) for x in xs):
        raise Unsupported('std::set of unknown values')
    return Map({mkkey(x): TRUE for x in xs}, None, None)


def abstract_index_mode(I):
    """views: which indexing mode the constructor selects is decided by the at(position) tasks"""
    def h(I, c):
        return Obj(I.P.recs[c.fn.ret.r], {'first': fresh('fast', 0), 'second': fresh('step', 64)})
    I.overrides['spu::(anonymous namespace)::can_use_fast_indexing'] = h


def tasks(tier):
    P = load_program(FILES)
    out = []

    def f(n):
        return fn_named(P, 'vh::' + n)

    def mk():
        I = make_interp(P, abstract=False)
        LIBDEFAULT.pop('spu::NdArrayRef', None)      # the real class, not its abstraction
        MEM = base_mem()
        I.overrides['yacl::Buffer::data'] = lambda I, c: Ptr(MEM, const64(0), 'raw')
        es = var('elsize', 64)
        I.mode = 'int'
        I.overrides['std::set::set'] = uniq

        def size(I, c):
            return es
        I.overrides['spu::Type::size'] = size
        return I, es

    def vec(I, kind, xs):
        return callfn(I, f(kind), const64(len(xs)), *(list(xs) + [const64(0)] * (5 - len(xs))))

    def axes(I, xs):
        return callfn(I, f('axes'), const64(len(xs)), *[const64(x) for x in list(xs) + [0] * (3 - len(xs))])

    def sym(I, n, pre='', ones=()):
        """an array of rank n: arbitrary dimensions >= 1, strides (0 for unit dimensions), offset"""
        d = [const64(1) if k in ones else var('%sd%d' % (pre, k), 64) for k in range(n)]
        s = [const64(0) if k in ones else var('%ss%d' % (pre, k), 64) for k in range(n)]
        o = var(pre + 'off', 64)
        for k in range(n):
            if k not in ones:
                I.assume(slt(const64(1), d[k]))
        t = callfn(I, fn_named(P, 'vh::ring'), RS.fmval(P, 64))
        b = Ptr(Cell(Opaque('buffer')))
        return callfn(I, f('mk'), b, t, vec(I, 'sh', d), vec(I, 'st', s), o), d, s, o

    def parts(I, r):
        n = cval(callfn(I, f('rank'), r))
        ns = cval(callfn(I, f('nstrides'), r))
        if ns != n:
            raise Unsupported('%d strides for rank %d' % (ns, n))
        return [callfn(I, f('dimof'), r, const64(k)) for k in range(n)], [callfn(I, f('strideof'), r, const64(k)) for k in range(n)], callfn(I, f('offs'), r)

    def addr(es, o, idx, st):
        e = const64(0)
        for a, b in zip(idx, st):
            e = add(e, mul(a, b))
        return add(o, mul(es, e))

    def inb(I, d, pre='i'):
        """an arbitrary index within dimensions d"""
        r = []
        for k, x in enumerate(d):
            if is_c(x) and cval(x) == 1:
                r.append(const64(0))
                continue
            v = var('%s%d' % (pre, k), 64)
            I.assume(and_(sle(const64(0), v), slt(v, x)))
            r.append(v)
        return r

    def byteoff(p):
        if not isinstance(p, Ptr) or not isinstance(p.c, FnProxy):
            raise Unsupported('address %r' % (p,))
        return p.k if isinstance(p.k, T) else const64(p.k)

    def task(name, n, build, mode='int', timeout=None, indexing=False):
        def run(ctx):
            I, es = mk()
            st = {}
            if not indexing:
                abstract_index_mode(I)

            def call(I):
                return build(I, es, st)
            ctx.run(I, call, lambda I, r: st['post'](I, r), mode=mode, throws_ok=st.get('throws'), timeout=timeout)
        out.append(Task('%s (rank %s)' % (name, n), run, bounded='rank %s' % n))

    def is_view(I, es, r, a, dims, fmap, d, s, o):
        """post: shape dims, address of element i is the source's address of fmap(i)"""
        rd_, rs_, ro = parts(I, r)
        yield 'rank', boolt(len(rd_) == len(dims))
        for k, (x, y) in enumerate(zip(rd_, dims)):
            yield 'dimension %d' % k, eq(x, y)
        yield 'storage is shared', callfn(I, f('samebuf'), r, a)
        i = inb(I, rd_)
        # an index along a dimension known to be one is zero
        i = [const64(0) if I.entails(eq(x, const64(1))) else v for v, x in zip(i, rd_)]
        yield 'every element is the one the definition names', eq(addr(es, ro, i, rs_), addr(es, o, fmap(I, i), s))
        for k, x in enumerate(rd_):
            yield 'dimension %d: stride zero when its size is one' % k, implies(eq(x, const64(1)), eq(rs_[k], const64(0)))

    def onesets(n):
        return [c for m in range(n + 1) for c in itertools.combinations(range(n), m)]

    for n in range(MAXR + 1):
        for ones in onesets(n):
            tag = '%d%s' % (n, ', unit dimensions %s' % list(ones) if ones else '')

            def b_at(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                i = inb(I, d)
                ix = vec(I, 'ix', i)

                def post(I, r):
                    yield 'const access by index', eq(byteoff(r[0]), addr(es, o, i, s))
                    yield 'access by index', eq(byteoff(r[1]), addr(es, o, i, s))
                st['post'] = post
                return callfn(I, f('ati'), a, ix), callfn(I, f('atim'), lv(a), ix)
            task('at(index)', tag, b_at)

            def b_flat(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                i = inb(I, d)
                pos = const64(0)
                for k in range(n):
                    p = i[k]
                    for x in d[k + 1:]:
                        p = mul(p, x)
                    pos = add(pos, p)
                cache = {}

                def unflat(I, c):
                    # contract of unflattenIndex (P08): the coordinates of position flat(i) are i
                    v = c.vals()
                    if v[0] is not pos:
                        raise Unsupported('flat index is not the one given')
                    return vec(I, 'ix', i)
                I.overrides['spu::unflattenIndex'] = unflat

                def post(I, r):
                    fast = I.known(callfn(I, f('fast'), a))
                    fs = callfn(I, f('faststride'), a)
                    m = {}
                    if fast is not False:
                        # on the fast path every stride of a non-unit dimension is the compact one times the step
                        live = [k for k in range(n) if k not in ones]
                        p = fs
                        for k in reversed(live):
                            yield 'fast indexing only for evenly spaced arrays (dimension %d)' % k, eq(s[k], p)
                            if k != live[-1]:
                                m[s[k]] = p
                            p = mul(p, d[k])
                    for nm, x in (('const access by position', r[0]), ('access by position', r[1])):
                        yield nm, eq(subst(byteoff(x), m), subst(addr(es, o, i, s), m))
                st['post'] = post
                return callfn(I, f('at'), a, pos), callfn(I, f('atm'), lv(a), pos)
            task('at(position)', tag, b_flat, indexing=True)

            def b_step(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                i = inb(I, d)

                def flatten(I, c):
                    # reshape of an evenly spaced array to one dimension keeps its elements (contract, checked at run time)
                    return flat1(I, c.this)

                def flat1(I, x):
                    x = I.rv(x)
                    nel = const64(1)
                    for y in d:
                        nel = mul(nel, y)
                    t = callfn(I, fn_named(P, 'vh::ring'), RS.fmval(P, 64))
                    one = nel is const64(1)
                    return callfn(I, f('mk'), Ptr(Cell(Opaque('buffer'))), t, vec(I, 'sh', [nel]), vec(I, 'st', [const64(0) if one else callfn(I, f('faststride'), x)]), o)
                I.overrides['spu::NdArrayRef::reshape'] = flatten
                live = [k for k in range(n) if k not in ones]

                def post(I, r):
                    fast = I.known(callfn(I, f('fast'), a))
                    fs = callfn(I, f('faststride'), a)
                    fr, to, ok = byteoff(callfn(I, f('stepfrom'), r)), callfn(I, f('stepto'), r), callfn(I, f('stepvalid'), r)
                    last = and_(TRUE, *[eq(add(i[k], const64(1)), d[k]) for k in live])
                    m = {}
                    if fast is not False:
                        p = fs
                        for k in reversed(live):
                            if k != live[-1]:
                                m[s[k]] = p
                            p = mul(p, d[k])
                    yield 'starts at the element', eq(subst(fr, m), subst(addr(es, o, i, s), m))
                    if fast is not True:
                        yield 'ends exactly after the last element', not_(xor_b(ok, not_(last)))
                    if I.entails(not_(ok)) or to.c is None:
                        return
                    for k in live:
                        later = [j for j in live if j > k]
                        sb = {d[j]: add(i[j], const64(1)) for j in later}
                        nx = [i[j] if j < k or j in ones else add(i[k], const64(1)) if j == k else const64(0) for j in range(n)]
                        here = and_(ne(add(i[k], const64(1)), d[k]), *[eq(add(i[j], const64(1)), d[j]) for j in later])
                        want = subst(subst(addr(es, o, nx, s), m), sb)
                        yield 'next element in row-major order (dimension %d advances)' % k, implies(here, eq(subst(subst(byteoff(to), m), sb), want))
                st['post'] = post
                return callfn(I, f('step'), a, vec(I, 'ix', i))
            task('Iterator++', tag, b_step, indexing=True)

            def b_slice(I, es, st, n=n, ones=ones, stepped=True):
                a, d, s, o = sym(I, n, '', ones)
                b, e, t = [[var('%s%d' % (c, k), 64) for k in range(n)] for c in 'bet']
                for k in range(n):
                    I.assume(and_(sle(const64(0), b[k]), slt(b[k], d[k]), sle(b[k], e[k]), sle(e[k], d[k])))
                    if stepped:
                        I.assume(sle(const64(1), t[k]))

                def post(I, r):
                    rd_, rs_, ro = parts(I, r)
                    yield 'rank', boolt(len(rd_) == n)
                    for k in range(n):
                        tk = t[k] if stepped else const64(1)
                        x = sub(e[k], b[k])
                        # count = ceil((e-b)/t): the last one is inside, one more is not
                        yield 'dimension %d counts every step below the end' % k, and_(sle(const64(0), rd_[k]), sle(x, mul(rd_[k], tk)), or_(eq(rd_[k], const64(0)), slt(mul(sub(rd_[k], const64(1)), tk), x)), or_(ne(x, const64(0)), eq(rd_[k], const64(0))))
                        yield 'dimension %d: stride zero when its size is one' % k, implies(eq(rd_[k], const64(1)), eq(rs_[k], const64(0)))
                    yield 'storage is shared', callfn(I, f('samebuf'), r, a)
                    yield 'the first element is the one at the start index', eq(ro, addr(es, o, b, s))
                    for k in range(n):
                        i, one = var('i%d' % k, 64), eq(rd_[k], const64(1))
                        rng = and_(sle(const64(0), i), slt(i, rd_[k]))
                        walk = lambda i, c: eq(mul(subst(rs_[k], {one: c}), i), mul(mul(s[k], t[k] if stepped else const64(1)), i))
                        yield 'dimension %d of size one has index zero' % k, implies(and_(rng, one), eq(i, const64(0)))
                        yield 'every element along dimension %d is the one the definition names (one element)' % k, implies(one, walk(const64(0), TRUE))
                        yield 'every element along dimension %d is the one the definition names' % k, implies(and_(rng, not_(one)), walk(i, FALSE))
                st['post'] = post
                if stepped:
                    return callfn(I, f('slice'), a, vec(I, 'ix', b), vec(I, 'ix', e), vec(I, 'st', t))
                return callfn(I, f('slice1'), a, vec(I, 'ix', b), vec(I, 'ix', e))
            if len(ones) == 0 or n < 3:
                task('slice with steps', tag, b_slice)
                task('slice', tag, lambda I, es, st, n=n, ones=ones: b_slice(I, es, st, n, ones, False))

            def b_scalar(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                i = inb(I, d)
                st['post'] = lambda I, r: is_view(I, es, r, a, [], lambda I, j: i, d, s, o)
                return callfn(I, f('scalar'), a, vec(I, 'ix', i))
            task('slice_scalar_at', tag, b_scalar)

            for perm in itertools.permutations(range(n)):
                def b_tr(I, es, st, n=n, ones=ones, perm=perm):
                    a, d, s, o = sym(I, n, '', ones)

                    def fmap(I, j):
                        v = [None] * n
                        for k in range(n):
                            v[perm[k]] = j[k]
                        return v
                    st['post'] = lambda I, r: is_view(I, es, r, a, [d[p] for p in perm], fmap, d, s, o)
                    return callfn(I, f('transpose'), a, axes(I, perm))
                task('transpose %s' % (perm,), tag, b_tr)

            def b_trd(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                st['post'] = lambda I, r: is_view(I, es, r, a, d[::-1], lambda I, j: j[::-1], d, s, o)
                return callfn(I, f('transposed'), a)
            task('transpose', tag, b_trd)

            for m in range(2 ** n):
                ax = [k for k in range(n) if m >> k & 1]

                def b_rev(I, es, st, n=n, ones=ones, ax=ax):
                    a, d, s, o = sym(I, n, '', ones)
                    st['post'] = lambda I, r: is_view(I, es, r, a, d, lambda I, j: [sub(sub(d[k], const64(1)), j[k]) if k in ax else j[k] for k in range(n)], d, s, o)
                    return callfn(I, f('reverse'), a, axes(I, ax))
                task('reverse %s' % ax, tag, b_rev)

            for rn in range(n, MAXR + 1):
                for dims in itertools.combinations(range(rn), n):
                    for explicit in ((True, False) if dims == tuple(range(rn - n, rn)) else (True,)):
                        if explicit and n == 0 and rn > 0:
                            continue

                        def b_bc(I, es, st, n=n, ones=ones, rn=rn, dims=dims, explicit=explicit):
                            a, d, s, o = sym(I, n, '', ones)
                            t = []
                            for k in range(rn):
                                if k in dims and dims.index(k) not in ones:
                                    t.append(d[dims.index(k)])
                                else:
                                    v = var('t%d' % k, 64)
                                    I.assume(slt(const64(0), v))
                                    t.append(v)
                            st['post'] = lambda I, r: is_view(I, es, r, a, t, lambda I, j: [const64(0) if k in ones else j[dims[k]] for k in range(n)], d, s, o)
                            return callfn(I, f('broadcast'), a, vec(I, 'sh', t), axes(I, dims if explicit else []))
                        task('broadcast_to rank %d dims %s%s' % (rn, list(dims), '' if explicit else ' (implicit)'), tag, b_bc)

            def b_as(I, es, st, n=n, ones=ones):
                a, d, s, o = sym(I, n, '', ones)
                t = callfn(I, fn_named(P, 'vh::ring'), RS.fmval(P, 32))
                st['post'] = lambda I, r: is_view(I, es, r, a, d, lambda I, j: j, d, s, o)
                return callfn(I, f('as'), a, t)
            task('as', tag, b_as)
    return out
