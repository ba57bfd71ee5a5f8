"""Strided matrix product."""
from ..kernels import *
from ..check import Native
from .. import eigen as EG

TRUSTED = ['Eigen: Map(p, r, c, Stride(o, i)) of a row-major matrix addresses element (a, b) at p + a*o + b*i; a*b is the matrix product in the element type; assignment writes exactly the destination elements']
ASSUMPTIONS = ['distinct output positions have distinct addresses', 'dimensions below 2^40', 'the output does not overlap the inputs']
FILES = ['/verif/harness/h_linalg.cc'] + BASE


def natives(tier):
    yield Native('linalg', [], ms_quick=10000, san=False)
    yield Native('linalg_san', [], main='/verif/native/linalg.cc', ms_quick=6000, san=True)


def tasks(tier):
    P = load_program(FILES)
    out = []
    mms = [f for f in P.byname.get('spu::mpc::linalg::matmul', []) if f.hasbody]
    seen = set()
    for f in mms:
        et = f.params[9][2].t.w
        key = f.params[9][2].s
        if key in seen:
            continue
        seen.add(key)

        def run(ctx, f=f, et=et):
            I = make_interp(P)
            st = {}

            def call(I):
                d = {n: var(n, 64) for n in ('LDA', 'IDA', 'LDB', 'IDB', 'LDC', 'IDC')}
                M, N, K = [zext(var(n, 40), 64) for n in 'MNK']
                A, B, C = [SArr(n, zext(var('len' + n, 40), 64), {(): et}) for n in 'ABC']
                oa, ob, oc = [zext(var('off' + n, 40), 64) for n in 'ABC']
                st.update(d, M=M, N=N, K=K, A=A, B=B, C=C, oa=oa, ob=ob, oc=oc)
                return callfn(I, f, M, N, K, Ptr(A, oa), d['LDA'], d['IDA'], Ptr(B, ob), d['LDB'], d['IDB'], Ptr(C, oc), d['LDC'], d['IDC'])

            def post(I, r):
                s = st
                i, j = fresh_idx(I, s['M'], 'i'), fresh_idx(I, s['N'], 'j')
                at = add(s['oc'], add(mul(i, s['LDC']), mul(j, s['IDC'])))
                kt = fresh('k', 40)
                k = zext(kt, 64)
                exp = mk_sum(kt, s['K'], mul(s['A'].base_at((), add(s['oa'], add(mul(i, s['LDA']), mul(k, s['IDA'])))),
                                             s['B'].base_at((), add(s['ob'], add(mul(k, s['LDB']), mul(j, s['IDB']))))))
                got = I.layers_read(s['C'], s['C'].layers, at, ())
                yield 'C[i,j] = sum_k A[i,k]*B[k,j]', eq(got, exp)
                yield 'A is only read', TRUE if not s['A'].layers else FALSE
                yield 'B is only read', TRUE if not s['B'].layers else FALSE
                # frame of C: every write of the body is at an address i*LDC + j*IDC with i < M, j < N
                for L in s['C'].layers:
                    ps = L.params
                    ok = len(ps) == 2
                    g = FALSE
                    if ok:
                        a, b = [zext(v, 64) for v, _ in ps]
                        for x, y, nx, ny in ((a, b, ps[0][1], ps[1][1]), (b, a, ps[1][1], ps[0][1])):
                            g = or_(g, and_(eq(L.idx, add(s['oc'], add(mul(x, s['LDC']), mul(y, s['IDC'])))), eq(nx, s['M']), eq(ny, s['N'])))
                    if not ok:
                        raise Unsupported('write pattern of the product')
                    yield 'writes only the output elements', g
            ctx.run(I, call, post)
        out.append(Task('matmul<%s>' % key, run))
    if not out:
        raise Unsupported('no instance of the matrix product')
    # ring_mmul: strided operands handed to the product with their own strides
    for w in (32, 64, 128):
        for nm in ('ring_mmul', 'ring_mmul_'):
            for cM in ('1', 'M'):
                for cN in ('1', 'N'):
                    out.append(Task('%s/FM%d %sx%s' % (nm, w, cM, cN), lambda ctx, nm=nm, w=w, cM=cM, cN=cN: ring_mm(ctx, P, nm, w, cM, cN)))
    return out


def mat_arr(I, name, rows, cols, w, compact=False):
    """two-dimensional array with arbitrary strides over raw storage"""
    n = var('buf' + name, 64)
    if compact:
        s0 = ite(eq(rows, const64(1)), const64(0), cols)
        s1 = ite(eq(cols, const64(1)), const64(0), const64(1))
        off = const64(0)
    else:
        s0, s1, off = var('s0' + name, 64), var('s1' + name, 64), zext(var('o' + name, 40), 64)
    store = SArr(name, n, {(): w})
    a = Arr(store, Cell(RS.ringty(I, w)), Cell(Vec([rows, cols])), None, (), name, [s0, s1], off)
    a.fast = FALSE

    def imap(idx):
        r, c = RS.rowcol(I, idx, cols)
        return add(off, add(mul(r, s0), mul(c, s1)))
    a.imap = imap
    return a


def ring_mm(ctx, P, nm, w, cM, cN):
    I = make_interp(P)
    RS.install(I, skip=[nm])
    f = fn_named(P, RS.NS + nm)
    st = {}

    # contract of the product, as proved above
    def mm(I, c):
        M, N, K, A, LDA, IDA, B, LDB, IDB, C, LDC, IDC = [v if isinstance(v, Ptr) else to64(v) for v in c.vals()]
        st['mm'] = (M, N, K, A, LDA, IDA, B, LDB, IDB, C, LDC, IDC)
        for p in (A, B, C):
            if p.c.leaves is None:
                p.c.leaves = {(): w}
        it, jt, kt = fresh('mi', 40), fresh('mj', 40), fresh('mk', 40)
        i, j, k = zext(it, 64), zext(jt, 64), zext(kt, 64)
        val = mk_sum(kt, K, mul(I.layers_read(A.c, A.c.layers, add(I.kt(A.k), add(mul(i, LDA), mul(k, IDA))), ()),
                                I.layers_read(B.c, B.c.layers, add(I.kt(B.k), add(mul(k, LDB), mul(j, IDB))), ())))
        I.require('matmul: output distinct from inputs', TRUE if C.c is not A.c and C.c is not B.c else FALSE)
        ps = [(v, n) for v, n, one in ((it, M, is_c(M)), (jt, N, is_c(N))) if not one]
        idx = add(I.kt(C.k), add(mul(i, LDC), mul(j, IDC)))
        sub0 = {v: const(0, 40) for v, n in ((it, M), (jt, N)) if is_c(n)}
        I.setc(C.c, '%layers', C.c.layers + [IP.Layer(ps, subst(idx, sub0) if sub0 else idx, {(): subst(val, sub0) if sub0 else val})])
    I.contracts['spu::mpc::linalg::matmul'] = mm

    def call(I):
        M = const64(1) if cM == '1' else zext(var('M', 20), 64)
        N = const64(1) if cN == '1' else zext(var('N', 20), 64)
        K = zext(var('K', 20), 64)
        for d in (M, N):
            if not is_c(d):
                I.assume(ult(const64(1), d))
        A, B = mat_arr(I, 'A', M, K, w), mat_arr(I, 'B', K, N, w)
        st.update(M=M, N=N, K=K, A=A, B=B, w=w)
        I.ghost['new_strides'] = True
        if nm.endswith('_'):
            C = mat_arr(I, 'C', M, N, w)
            st['C'] = C
            return callfn(I, f, C, A, B)
        return callfn(I, f, A, B)

    def post(I, r):
        M, N, K, A, B = st['M'], st['N'], st['K'], st['A'], st['B']
        C = st['C'] if r is None else r
        if r is not None:
            yield 'result shape is M x N', same_shape(I, C.shape.v, Vec([M, N]))
            yield 'result element type', RS.hcall(I, 'sametype', LV(Cell(C.ety.v)), LV(Cell(A.ety.v)))
        i = const64(0) if is_c(M) else zext(fresh('i', 20), 64)
        j = const64(0) if is_c(N) else zext(fresh('j', 20), 64)
        for x, n in ((i, M), (j, N)):
            if not is_c(n):
                I.assume(ult(x, n))
        kt = fresh('k', 40)
        k = zext(kt, 64)
        el = lambda a, r_, c_: a.store.base_at((), add(a.off, add(mul(r_, a.strides[0]), mul(c_, a.strides[1]))))
        exp = mk_sum(kt, K, mul(el(A, i, k), el(B, k, j)))
        if r is None:
            at = add(C.off, add(mul(i, C.strides[0]), mul(j, C.strides[1])))
        else:
            at = add(mul(i, N), j)
        got = I.layers_read(C.store, C.store.layers, at, ())
        yield 'result[i,j] = sum_k lhs[i,k]*rhs[k,j] mod 2^k', eq(got, exp)
        for L in C.store.layers:
            # row range and column range of every write
            want = [x for x in (M, N) if not is_c(x)]
            if len(L.params) != len(want):
                raise Unsupported('write pattern of the product')
            ns = [n for _, n in L.params]
            yield 'writes only the output elements', and_(*[or_(*[eq(n, x) for x in want]) for n in ns], *[or_(*[eq(n, x) for n in ns]) for x in want])
        yield 'operands are only read', TRUE if not A.store.layers and not B.store.layers else FALSE
    ctx.run(I, call, post)


from ..stdlib import to64
