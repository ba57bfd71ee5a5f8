"""P08: shapes, strides and indices (core/shape.h, core/shape.cc)."""
from ..kernels import *
from ..check import Native

TRUSTED = ['std::vector, std::accumulate, std::any_of, std::fill as the C++ standard describes them']
ASSUMPTIONS = ['ranks 0 to 5 (bounded); dimensions are arbitrary with products below 2^62, so 64-bit arithmetic does not wrap and is treated as mathematical']
LEVEL = 'other'
EXPLANATION = 'Deductive: each function is executed symbolically against its contract and every obligation is discharged for all dimensions, strides and indices (integers, no size bound), separately for each rank from 0 to 5; higher ranks are covered only by the run-time contract.'
FILES = ['core/shape.cc', '/verif/harness/h_shape.cc']
MAXR = 5


def natives(tier):
    yield Native('shape', ['core/shape.cc'], ms_quick=4000, san=True)


def nonneg(t):
    return sle(const64(0), t)


def prod(xs):
    r = const64(1)
    for x in xs:
        r = mul(r, x)
    return r


def tasks(tier):
    P = load_program(FILES)
    out = []

    def f(n):
        return fn_named(P, 'vh::' + n)

    def vec(I, kind, xs):
        return callfn(I, f(kind), const64(len(xs)), *(list(xs) + [const64(0)] * (5 - len(xs))))

    def symdims(n, zero=True):
        return [var('d%d' % k, 64) for k in range(n)]

    def dimfacts(I, d, least):
        for x in d:
            I.assume(sle(const64(least), x))

    def items(I, v, n, getter):
        return [callfn(I, f(getter), v, const64(k)) for k in range(n)]

    def task(name, n):
        def deco(fn):
            def run(ctx):
                I = make_interp(P, abstract=False)
                st = {}

                def call(I):
                    return fn(I, st)
                ctx.run(I, call, lambda I, r: st['post'](I, r), throws_ok=st.get('throws'), mode='int')
            out.append(Task('%s (rank %d)' % (name, n), run, bounded='rank %d' % n))
            return fn
        return deco

    for n in range(MAXR + 1):
        @task('Shape::numel, ndim, dim, isEmpty, isScalar', n)
        def _(I, st, n=n):
            d = symdims(n)
            dimfacts(I, d, 0)
            s = vec(I, 'sh', d)

            def post(I, r):
                yield 'element count is the product of the dimensions', eq(r[0], prod(d))
                yield 'rank', eq(r[1], const64(n))
                yield 'empty iff some dimension is zero', not_(xor_b(r[2], or_(*[eq(x, const64(0)) for x in d]) if d else FALSE))
                yield 'scalar iff rank zero', not_(xor_b(r[3], boolt(n == 0)))
                yield 'tensor iff not scalar', not_(xor_b(r[4], boolt(n != 0)))
                for k in range(n):
                    yield 'dimension %d' % k, eq(r[5][k], d[k])
            st['post'] = post
            return ([callfn(I, f(g), s) for g in ('numel', 'ndim', 'isempty', 'isscalar', 'istensor')] +
                    [[callfn(I, f('dim'), s, const64(k)) for k in range(n)]])

        @task('makeCompactStrides', n)
        def _(I, st, n=n):
            d = symdims(n)
            dimfacts(I, d, 0)
            s = vec(I, 'sh', d)

            def post(I, r):
                yield 'one stride per dimension', eq(callfn(I, f('lens'), r), const64(n))
                for k, t in enumerate(items(I, r, n, 'gets')):
                    yield 'stride %d is the product of the later dimensions (0 for a unit dimension)' % k, eq(t, ite(eq(d[k], const64(1)), const64(0), prod(d[k + 1:])))
            st['post'] = post
            return callfn(I, f('compact'), s)

        @task('flattenIndex', n)
        def _(I, st, n=n):
            d = symdims(n)
            x = [var('x%d' % k, 64) for k in range(n)]
            s, i = vec(I, 'sh', d), vec(I, 'ix', x)

            def post(I, r):
                e = const64(0)
                for k in range(n):
                    e = add(e, mul(x[k], prod(d[k + 1:])))
                yield 'row-major position', eq(r, e)
            st['post'] = post
            return callfn(I, f('flat'), i, s)

        @task('calcFlattenOffset', n)
        def _(I, st, n=n):
            d = symdims(n)
            x = [var('x%d' % k, 64) for k in range(n)]
            t = [var('t%d' % k, 64) for k in range(n)]
            s, i, tt = vec(I, 'sh', d), vec(I, 'ix', x), vec(I, 'st', t)

            def post(I, r):
                e = const64(0)
                for k in range(n):
                    e = add(e, mul(x[k], t[k]))
                yield 'offset is the sum of index times stride', eq(r, e)
            st['post'] = post
            return callfn(I, f('off'), i, s, tt)

        @task('calcFlattenOffset over compact strides', n)
        def _(I, st, n=n):
            d = symdims(n)
            x = [var('x%d' % k, 64) for k in range(n)]
            for a, b in zip(x, d):
                I.assume(nonneg(a))
                I.assume(slt(a, b))
            s, i = vec(I, 'sh', d), vec(I, 'ix', x)

            def post(I, r):
                e = const64(0)
                for k in range(n):
                    e = add(e, mul(x[k], prod(d[k + 1:])))
                # an index of a unit dimension is 0, whatever its stride
                m = {x[k]: const64(0) for k in range(n)}
                for nm, v in (('absent strides mean compact ones', r[0]), ('compact strides give the row-major position', r[1])):
                    for ones in range(2 ** n):
                        u = [k for k in range(n) if ones >> k & 1]
                        sb = {d[k]: const64(1) for k in u}
                        sb.update({x[k]: const64(0) for k in u})
                        g = implies(and_(TRUE, *[eq(d[k], const64(1)) if k in u else ne(d[k], const64(1)) for k in range(n)]), eq(subst(v, sb), subst(e, sb)))
                        yield nm + ' (unit dimensions %s)' % u, g
            st['post'] = post
            return callfn(I, f('offc'), i, s), callfn(I, f('off'), i, s, callfn(I, f('compact'), s))

        @task('Index::inBounds', n)
        def _(I, st, n=n):
            d = symdims(n)
            x = [var('x%d' % k, 64) for k in range(n)]
            s, i = vec(I, 'sh', d), vec(I, 'ix', x)
            other = vec(I, 'ix', x + [const64(0)]) if n < 5 else None

            def post(I, r):
                yield 'true exactly when every coordinate is within its dimension', not_(xor_b(r[0], and_(TRUE, *[and_(nonneg(a), slt(a, b)) for a, b in zip(x, d)])))
                if r[1] is not None:
                    yield 'false when the ranks differ', not_(r[1])
            st['post'] = post
            return callfn(I, f('inb'), i, s), callfn(I, f('inb'), other, s) if other is not None else None

        @task('bumpIndices', n)
        def _(I, st, n=n):
            d = symdims(n)
            x = [var('x%d' % k, 64) for k in range(n)]
            for a, b in zip(x, d):
                I.assume(nonneg(a))
                I.assume(slt(a, b))
            s = vec(I, 'sh', d)
            i = lv(vec(I, 'ix', x))
            # row-major position as nested Horner form; d-1 maxima
            def pos(v):
                e = const64(0)
                for k in range(n):
                    e = add(e, mul(v[k], prod(d[k + 1:])))
                return e

            def post(I, r):
                y = items(I, I.rv(i), n, 'geti')
                yield 'false exactly at the last index', not_(xor_b(not_(r), and_(TRUE, *[eq(add(a, const64(1)), b) for a, b in zip(x, d)])))
                for k in range(n):
                    later = and_(TRUE, *[eq(add(a, const64(1)), b) for a, b in zip(x[k + 1:], d[k + 1:])])
                    here = eq(add(x[k], const64(1)), d[k])
                    yield 'coordinate %d of the successor' % k, implies(r, eq(y[k], ite(later, ite(here, const64(0), add(x[k], const64(1))), x[k])))
                    yield 'coordinate %d unchanged at the end' % k, implies(not_(r), eq(y[k], x[k]))
                    yield 'coordinate %d within bounds' % k, and_(nonneg(y[k]), slt(y[k], d[k]))
                # the successor's position: with the coordinates after k at their maximum, d_j = x_j + 1
                for k in range(n):
                    sb = {d[j]: add(x[j], const64(1)) for j in range(k + 1, n)}
                    z = x[:k] + [add(x[k], const64(1))] + [const64(0)] * (n - k - 1)
                    yield 'successor with coordinate %d bumped is at the next position' % k, eq(subst(pos(z), sb), add(subst(pos(x), sb), const64(1)))
            st['post'] = post
            return callfn(I, f('bump'), s, i)

        @task('unflattenIndex', n)
        def _(I, st, n=n):
            d = symdims(n)
            v = var('x', 64)
            dimfacts(I, d, 1)
            I.assume(nonneg(v))
            s = vec(I, 'sh', d)

            def post(I, r):
                yield 'one coordinate per dimension', eq(callfn(I, f('leni'), r), const64(n))
                y = items(I, r, n, 'geti')
                q = v
                for k in reversed(range(n)):
                    yield 'coordinate %d' % k, eq(y[k], srem(q, d[k]))
                    q = sdiv(q, d[k])
            st['post'] = post
            return callfn(I, f('unflat'), v, s)

        def lemmas(ctx, n=n):
            """position and coordinates: the two maps are mutually inverse (from the contracts above)"""
            d = [var('d%d' % k, 64) for k in range(n)]
            # unflatten then flatten: q_{k+1} = q_k * d_k + r_k, with q_0 = 0
            r = [var('r%d' % k, 64) for k in range(n)]
            e = const64(0)
            x = const64(0)
            for k in range(n):
                e = add(e, mul(r[k], prod(d[k + 1:])))
                x = add(mul(x, d[k]), r[k])
            ctx.discharge('flattening the coordinates of a position gives the position', eq(e, x), [], 'int')
            a, q, rr, dd = var('A', 64), var('q', 64), var('r', 64), var('d', 64)
            z = const64(0)
            ctx.discharge('division keeps a position within the leading dimensions', slt(q, a),
                          [sle(z, rr), sle(const64(1), dd), slt(add(mul(q, dd), rr), mul(a, dd))], 'int')
            q2, r2 = var('q2', 64), var('r2', 64)
            ctx.discharge('quotient and remainder are unique', and_(eq(q, q2), eq(rr, r2)),
                          [sle(z, rr), slt(rr, dd), sle(z, r2), slt(r2, dd), eq(add(mul(q, dd), rr), add(mul(q2, dd), r2))], 'int')
            ctx.discharge('a coordinate within bounds keeps the position within the count', and_(slt(add(mul(q, dd), rr), mul(a, dd)), sle(z, add(mul(q, dd), rr))),
                          [sle(z, rr), slt(rr, dd), sle(z, q), slt(q, a)], 'int')
        out.append(Task('position <-> coordinates (rank %d)' % n, lemmas))
    return out
