"""P13: permutations (mpc/utils/permute.cc) and tiling (mpc/utils/tiling_util.h)."""
from ..kernels import *
from .. import stdlib as SL
from ..protosrc import sources, proto

TRUSTED = ['std::stable_sort: rearranges by a permutation that puts the elements in order and keeps the order of elements the comparator does not separate',
           'yacl ReplayShuffle: rearranges by a permutation that is a deterministic function of seed, counter and length',
           'NdArrayRef / NdArrayView addressing (its own property)']
ASSUMPTIONS = ['element counts below 2^31 for permutations stored in 32-bit words, below 2^40 otherwise', 'an index array holds a permutation of the positions (precondition of apply and invert)',
               'tiled execution: run-time contract only (bounded; the tile-size constant of core/parallel_utils.h is replaced by 3 in the build so that arrays of up to four dimensions and some thousands of elements span many tiles; nothing else of the text is changed)']
FILES = ['mpc/utils/permute.cc', 'core/type.cc', 'core/type_util.cc', 'core/shape.cc', '/verif/harness/h_types.cc']
RINGS = (32, 64, 128)


def natives(tier):
    from ..check import Native
    yield Native('permtile', sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape'), ms_quick=12000, opt='-O0', tasks=3)
    yield proto('aby3', 1 | 2 | 4 | 8 | 32, tiled=True)


def fit(p, w):
    return trunc(p, w) if w < 64 else zext(p, w) if w > 64 else p


def tasks(tier):
    P = load_program(FILES)
    out = []
    NSP = 'spu::mpc::'

    def perm_setup(I, n):
        I.assume(ult(n, const(1 << 31, 64)))
        I.ghost['perms'] = {'pi': ('pi^-1', n), 'pi^-1': ('pi', n)}

    def pi(I, i, n, nm='pi'):
        p = app(nm, [i], 64)
        I.assume(ult(p, n))
        return p

    def shape1(n):
        return Vec([n])

    def index_arr(I, n, w):
        return Arr_(I, n, w, lambda path, i: fit(pi(I, i, n), w))

    def Arr_(I, n, w, base):
        return new_arr(I, RS.ringty(I, w), shape1(n), 'pv', {(): w}, base)

    def index_vec(I, n):
        return SArr('pv', n, {(): 64}, lambda path, i: pi(I, i, n))

    def task(label, call, post):
        def run(ctx):
            I = make_interp(P)
            st = {}
            ctx.run(I, lambda I: call(I, st), lambda I, r: post(I, r, st))
        out.append(Task(label, run))

    def apply_(w, pw, inv):
        name = NSP + ('applyInvPerm' if inv else 'applyPerm')
        n = zext(var('n', 40), 64)

        def call(I, st):
            perm_setup(I, n)
            x = st['x'] = new_arr(I, RS.ringty(I, w), shape1(n), 'x', {(): w})
            if pw:
                pv = LV(Cell(index_arr(I, n, pw)))
            else:
                pv = LV(Cell(SL.Span(index_vec(I, n), c64(0), n, None)))
            fs = [f for f in P.byname[name] if f.hasbody and ('NdArray' in tname(f, 1)) == bool(pw)]
            if len(fs) != 1:
                raise Unsupported('%s: %d definitions' % (name, len(fs)))
            return I.unbase(I.rv(I.invoke(fs[0], [LV(Cell(x)), pv], None, None)))

        def post(I, r, st):
            yield 'same length', eq(AR.shape_numel(I, r.shape.v), n)
            yield 'same ring', boolt(RS.field_w(I, I.rv(LV(r.ety))) == w)
            i = fresh_idx(I, n)
            p = pi(I, i, n)
            if inv:
                yield 'element i goes to position pi(i)', eq(rd(I, r, p), rd(I, st['x'], i))
            else:
                yield 'element i comes from position pi(i)', eq(rd(I, r, i), rd(I, st['x'], p))
            yield 'the input is unchanged', boolt(not st['x'].c.layers) if hasattr(st['x'], 'c') and hasattr(st['x'].c, 'layers') else TRUE
        task('%s [%d bits, %s]' % (name[len(NSP):], w, 'positions in %d-bit words' % pw if pw else 'positions in a vector'), call, post)

    for w in RINGS:
        for pw in (0,) + RINGS:
            for inv in (False, True):
                apply_(w, pw, inv)

    def inverse(w):
        n = zext(var('n', 40), 64)

        def call(I, st):
            perm_setup(I, n)
            return I.unbase(callfn(I, fn_named(P, NSP + 'genInversePerm'), index_arr(I, n, w)))

        def post(I, r, st):
            yield 'same length', eq(AR.shape_numel(I, r.shape.v), n)
            yield 'same ring', boolt(RS.field_w(I, I.rv(LV(r.ety))) == w)
            i = fresh_idx(I, n)
            yield 'position pi(i) holds i', eq(rd(I, r, pi(I, i, n)), fit(i, w))
        task('genInversePerm [%d bits]' % w, call, post)

        def call2(I, st):
            st['n'] = AR.shape_numel(I, ashape())
            x = st['x'] = new_arr(I, RS.ringty(I, w), ashape(), 'x', {(): w})
            return I.unbase(callfn(I, fn_named(P, NSP + 'ring2pv'), x))

        def post2(I, r, st):
            yield 'one position per element', eq(length(I, r), st['n'])
            i = fresh_idx(I, st['n'])
            v = rd(I, st['x'], i)
            yield 'positions are the ring values', eq(I.rv(elemlv(I, r, i)), trunc(v, 64) if w > 64 else sext(v, 64) if w < 64 else v) if w > 32 else \
                eq(I.rv(elemlv(I, r, i)), zext(v, 64))
        task('ring2pv [%d bits]' % w, call2, post2)

        def call3(I, st):
            I.assume(ult(n, const(1 << 31, 64)))
            x = st['x'] = new_arr(I, RS.ringty(I, w), shape1(n), 'x', {(): w})
            return I.unbase(callfn(I, fn_named(P, NSP + 'genPermBySort'), x))

        def post3(I, r, st):
            yield 'one position per element', eq(length(I, r), n)
            if len(I.ghost.get('sorts', ())) != 1:
                raise Unsupported('sorts')
            nm, m, _, cmp = I.ghost['sorts'][0]
            yield 'every position is sorted', eq(m, n)
            a, b = zext(fresh('a', 40), 64), zext(fresh('b', 40), 64)
            for t in (ult(a, b), ult(b, n)):
                I.assume(t)
            sa, sb = pi(I, a, n, nm), pi(I, b, n, nm)
            I.assume(not_(I.tobool(cmp(sb, sa))))
            I.assume(not_(eq(sa, sb)))
            if nm not in I.ghost.get('unstable', ()):
                I.assume(or_(I.tobool(cmp(sa, sb)), ult(sa, sb)))
            yield 'the result is the sorting permutation', eq(I.rv(elemlv(I, r, a)), sa)
            xa, xb = rd(I, st['x'], sa), rd(I, st['x'], sb)
            yield 'keys ascend as signed numbers', sle(xa, xb)
            yield 'equal keys keep their order', implies(eq(xa, xb), ult(sa, sb))
        task('genPermBySort [%d bits]' % w, call3, post3)
    for w in RINGS:
        inverse(w)

    def randperm():
        from .P14 import shuffle
        n = zext(var('n', 40), 64)

        def call(I, st):
            I.overrides['yacl::crypto::ReplayShuffle'] = shuffle
            st['ctr'] = Cell(var('ctr', 64))
            return I.unbase(callfn(I, fn_named(P, NSP + 'genRandomPerm'), n, var('seed', 128), Ptr(st['ctr'])))

        def post(I, r, st):
            i = fresh_idx(I, n)
            yield 'one position per element', eq(length(I, r), n)
            yield 'the shuffled positions, a function of seed, counter and length', eq(I.rv(elemlv(I, r, i)), app('shuffle', [var('seed', 128), var('ctr', 64), n, i], 64))
            yield 'the counter moves on', eq(I.rv(LV(st['ctr'])), app('shuffle_end', [var('ctr', 64), n], 64))
        task('genRandomPerm', call, post)
    randperm()
    return out
