"""P12: value types and their textual form (core/type.*, the protocols' type.*, mpc/common/pv2k.*)."""
from ..kernels import *
from ..check import Native
from .. import stdlib as SL
from .. import protosrc

TRUSTED = ['magic_enum: enum_name is injective on enumerators and yields an identifier; enum_cast is its inverse and reports any other text',
           'fmt "{}" renders strings verbatim, integers in decimal, enumerators by their operator<< (their name)',
           'std::stoul / std::stoll read a decimal numeral up to the first non-digit', 'std::unordered_map and std::unique_ptr as finite map and owning pointer']
ASSUMPTIONS = ['the positions inside a text are counted in parts (names, numerals, separators) instead of characters', 'the tag "has mac" of the spdz2k arithmetic share is bookkeeping of the holder, not a type parameter']
FILES = ['core/type.cc', 'core/type_util.cc', 'mpc/common/pv2k.cc', 'mpc/aby3/type.cc', 'mpc/semi2k/type.cc', 'mpc/securenn/type.cc', 'mpc/spdz2k/type.cc', 'mpc/cheetah/type.cc',
         'mpc/experimental/swift/type.cc', '/verif/harness/h_typert.cc']
FIELDS = {1: 4, 2: 8, 3: 16}
PTS = {1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 16, 10: 16, 11: 1, 30: 2, 31: 4, 32: 8, 50: 8, 51: 16}
BACK = {2: 1, 4: 2, 6: 4, 8: 8, 10: 16}
IFACES = ['Ring2k', 'Gfp', 'Public', 'Secret', 'Private', 'AShare', 'OShare', 'OPShare', 'BShare', 'PShare', 'RingTy']
EXP = {1: 31, 2: 61, 3: 127}
# class -> (kind of parameters, words per element, interfaces)
CLASSES = {
    'Void': ('none', 0, ''), 'Pt': ('pt', 1, ''), 'Ring': ('field', 1, 'Ring2k RingTy'), 'Gfmp': ('field', 1, 'Gfp Ring2k'), 'Pub': ('field', 1, 'Ring2k RingTy Public'),
    'Priv': ('owner', 1, 'Ring2k Private'),
    'aby3_A': ('field', 2, 'Ring2k RingTy Secret AShare'), 'aby3_O': ('field', 2, 'Ring2k RingTy Secret OShare'), 'aby3_OP': ('field', 1, 'Ring2k RingTy Secret OPShare'),
    'aby3_P': ('perm', 2, 'Ring2k RingTy Secret PShare'), 'aby3_B': ('back', 2, 'Secret BShare'),
    'semi2k_A': ('field', 1, 'Ring2k RingTy Secret AShare'), 'semi2k_B': ('nbits', 1, 'Ring2k RingTy Secret BShare'), 'semi2k_P': ('perm', 1, 'Ring2k RingTy Secret PShare'),
    'securenn_A': ('field', 1, 'Ring2k RingTy Secret AShare'), 'securenn_B': ('nbits', 1, 'Ring2k RingTy Secret BShare'),
    'spdz2k_A': ('field', 2, 'Ring2k RingTy Secret AShare'), 'spdz2k_B': ('spdzb', None, 'Ring2k RingTy Secret BShare'),
    'cheetah_A': ('field', 1, 'Ring2k RingTy Secret AShare'), 'cheetah_B': ('nbits', 1, 'Ring2k RingTy Secret BShare'), 'cheetah_P': ('perm', 1, 'Ring2k RingTy Secret PShare'),
    'swift_A': ('field', 3, 'Ring2k RingTy Secret AShare'), 'swift_B': ('nbits', 3, 'Ring2k RingTy Secret BShare'), 'swift_P': ('perm', 1, 'Ring2k RingTy Secret PShare'),
}


def natives(tier):
    yield Native('typert', protosrc.sources('core', 'mpc', 'mpc/common', 'mpc/utils', 'mpc/standard_shape') + FILES[3:-1], ms_quick=4000)


def tasks(tier):
    P = load_program(FILES)
    out = []

    def f(n):
        return fn_named(P, 'vt::' + n)

    names = {}

    def ename(fn):
        # the enumeration a magic_enum instance works on
        s = str(fn.params[0][2].s) if 'enum_name' in fn.name else str(fn.ret.s)
        return 'FieldType' if 'FieldType' in s else 'PtType' if 'PtType' in s else s

    def enum_text(kind, v):
        if not is_c(v):
            raise Unsupported('name of a symbolic enumerator')
        k = cval(v)
        if k not in ((0, 1, 2, 3) if kind == 'FieldType' else [0] + list(PTS)):
            return ''
        t = '%s_%d' % (kind, k)
        names[t] = (kind, k)
        return t

    def mk():
        I = make_interp(P)

        def enum_name(I, c):
            return enum_text(ename(c.fn), I.rv(c.args[0]))

        def enum_cast(I, c):
            s = SL.render(I, c.args[0])
            k = names.get(s)
            if k is None or k[0] != ename(c.fn):
                return Opt()
            return Opt(TRUE, const(k[1], 32))

        def fmt(I, c):
            args = []
            for i, a in enumerate(c.args):
                v = I.unbase(I.rv(a))
                ty = c.fn.params[i][2] if i < len(c.fn.params) else None
                u = ty.t if ty is not None and ty.k == 'ref' else ty
                if isinstance(v, T) and u is not None and ('FieldType' in str(u.s) or 'PtType' in str(u.s)):
                    v = enum_text('FieldType' if 'FieldType' in str(u.s) else 'PtType', v)
                    args.append(v)
                else:
                    args.append(SL.render(I, v, ty))
            o, k = '', 1
            t = args[0]
            if any(x == '?' for x in args[1:]):
                return '?'
            parts = t.split('{}')
            for i, p in enumerate(parts):
                o += p
                if i + 1 < len(parts):
                    o += args[k]
                    k += 1
            return o

        def num(signed):
            def g(I, c):
                s = SL.render(I, c.args[0])
                if s and ord(s[0]) >= 0xF0000 and (len(s) == 1 or not (s[1].isdigit() or ord(s[1]) >= 0xF0000)):
                    k = SL.ATOMLIST[ord(s[0]) - 0xF0000]
                    if k[0] != 'dec':
                        raise Unsupported('numeral')
                    if not signed and k[2]:
                        raise Unsupported('sign of a numeral')
                    if signed and not k[2]:
                        raise Unsupported('range of a numeral')
                    return k[1]
                d = ''
                for i, ch in enumerate(s):
                    if ch.isdigit() or (i == 0 and ch == '-' and signed):
                        d += ch
                    else:
                        break
                if not d.strip('-') or has_text(s):
                    raise Throw('invalid_argument')
                return const(int(d), 64)
            return g

        def has_text(s):
            return any(ord(ch) >= 0xF0000 for ch in s)
        I.overrides['magic_enum::enum_name'] = enum_name
        I.overrides['std::mutex::mutex'] = lambda I, c: SL.Opaque('mutex')
        I.overrides['std::once_flag::once_flag'] = lambda I, c: SL.Opaque('once')

        def once(I, c):
            I.call_value(c.val(1), [])
        I.overrides['std::call_once'] = once
        I.strparts = True
        I.overrides['magic_enum::enum_cast'] = enum_cast
        I.overrides['fmt::format'] = fmt
        I.overrides['std::stoul'] = I.overrides['std::stoull'] = num(False)
        I.overrides['std::stoll'] = I.overrides['std::stol'] = num(True)
        return I

    def cf(v):
        return const(v, 32)

    def params(kind):
        """(constant part, symbolic part) of every combination"""
        if kind in ('none', 'perm'):
            return [()]
        if kind == 'pt':
            return [(p,) for p in PTS]
        if kind == 'field':
            return [(x,) for x in FIELDS]
        if kind == 'owner':
            return [(x, 'owner') for x in FIELDS]
        if kind == 'nbits':
            return [(x, 'nbits') for x in FIELDS]
        if kind == 'back':
            return [(p, 'nbits') for p in PTS]
        if kind == 'spdzb':
            return [(p, 'nbits', x) for p in BACK for x in FIELDS]

    def build(I, cl, ps, tag=''):
        """the type object with these parameters (counts and owners symbolic), built by its own constructor; returns (type, {param: term})"""
        kind = CLASSES[cl][0]
        d = {}
        a = []
        if kind == 'pt':
            d['pt'] = cf(ps[0])
        elif kind in ('field', 'owner', 'nbits'):
            d['field'] = cf(ps[0])
        elif kind == 'perm':
            d['field'] = cf(2)
        if kind == 'back':
            d['back'] = cf(ps[0])
        if kind == 'spdzb':
            d['back'], d['field'] = cf(ps[0]), cf(ps[2])
        if kind == 'owner':
            d['owner'] = var('owner' + tag, 64)
        if 'nbits' in ps:
            n = d['nbits'] = var('nbits' + tag, 64)
            lim = 8 * (FIELDS[ps[0]] if kind == 'nbits' else PTS[ps[0]])
            I.assume(ule(n, c64(lim)))
        order = {'none': [], 'perm': [], 'pt': ['pt'], 'field': ['field'], 'owner': ['field', 'owner'], 'nbits': ['field', 'nbits'], 'back': ['back', 'nbits'], 'spdzb': ['back', 'nbits', 'field']}[kind]
        return callfn(I, f('mk_' + cl), *[d[k] for k in order]), d

    def getters(I, cl, t):
        kind = CLASSES[cl][0]
        g = {}
        c = LV(Cell(t))
        if kind in ('field', 'owner', 'nbits', 'spdzb', 'perm'):
            g['field'] = callfn(I, f('get_field'), c)
        if kind in ('nbits', 'back', 'spdzb'):
            g['nbits'] = callfn(I, f('get_nbits'), c)
        if kind == 'owner':
            g['owner'] = callfn(I, f('get_owner'), c)
        if kind == 'pt':
            g['pt'] = callfn(I, f('get_pt'), c)
        if kind == 'back':
            g['back'] = callfn(I, f('get_back_aby3'), c)
        if kind == 'spdzb':
            g['back'] = callfn(I, f('get_back_spdz'), c)
        if cl == 'Gfmp':
            g['p'] = callfn(I, f('get_p'), c)
            g['exp'] = callfn(I, f('get_exp'), c)
        if cl == 'spdz2k_B':
            g['k'] = callfn(I, f('get_k'), c)
        return g

    def wanted(cl, ps, d):
        e = dict(d)
        if cl == 'Gfmp':
            e['p'] = const((1 << EXP[ps[0]]) - 1, 128)
            e['exp'] = c64(EXP[ps[0]])
        if cl == 'spdz2k_B':
            e['k'] = c64(FIELDS[ps[2]] * 4)
        return e

    def size_of(cl, ps):
        kind, words, _ = CLASSES[cl]
        if kind == 'none':
            return 0
        if kind == 'perm':
            return 8 * words
        if kind in ('pt', 'back'):
            return PTS[ps[0]] * words
        if kind == 'spdzb':
            return FIELDS[ps[2]] * 2 * (FIELDS[ps[2]] * 4)
        return FIELDS[ps[0]] * words

    def group(cl):
        kind, _, ifs = CLASSES[cl]

        def trip(ctx):
            for ps in params(kind):
                I = mk()
                st = {}

                def call(I):
                    t, d = build(I, cl, ps)
                    callfn(I, f('reg'))
                    c = LV(Cell(t))
                    st['d'], st['g0'] = d, getters(I, cl, t)
                    s = callfn(I, f('show'), c)
                    if s == '?':
                        raise Unsupported('text of the type')
                    st['s'] = s
                    u = callfn(I, f('parse'), s)
                    uc = LV(Cell(u))
                    st['g1'] = getters(I, cl, u) if I.known(callfn(I, f('isa_' + cl), uc)) is True else None
                    st['same'] = and_(callfn(I, f('same'), c, uc), callfn(I, f('same'), uc, c))
                    st['diff'] = callfn(I, f('differ'), c, uc)
                    st['isa'] = callfn(I, f('isa_' + cl), uc)
                    st['sz'] = (callfn(I, f('sizeoft'), c), callfn(I, f('sizeoft'), uc))
                    st['s2'] = callfn(I, f('show'), uc)
                    return u

                def post(I, r):
                    e = wanted(cl, ps, st['d'])
                    n = '%s%s: ' % (cl, ps)
                    for k, v in e.items():
                        yield n + 'parameter %s as given' % k, eq(st['g0'][k], v)
                        yield n + 'parameter %s read back' % k, eq(st['g1'][k], v) if st['g1'] is not None else FALSE
                    yield n + 'parsed type equals the original', st['same']
                    yield n + 'and != says so too', not_(st['diff'])
                    yield n + 'parsed type has the same class', st['isa']
                    yield n + 'element size', eq(st['sz'][0], c64(size_of(cl, ps)))
                    yield n + 'element size after parsing', eq(st['sz'][1], c64(size_of(cl, ps)))
                    yield n + 'same text again', boolt(st['s'] == st['s2'])
                ctx.run(I, call, post)
        out.append(Task('round trip ' + cl, trip))

        def equal(ctx):
            for ps in params(kind):
                I = mk()
                st = {}

                def call(I):
                    a, da = build(I, cl, ps, '.a')
                    res = []
                    for qs in params(kind):
                        b, db = build(I, cl, qs, '.b%d' % len(res))
                        e = TRUE
                        for k in da:
                            e = and_(e, eq(da[k], db[k]))
                        r = callfn(I, f('same'), LV(Cell(a)), LV(Cell(b)))
                        res.append((qs, r, e))
                    st['r'] = res
                    return None

                def post(I, r):
                    for qs, r, e in st['r']:
                        yield '%s%s equals %s%s exactly when all parameters agree' % (cl, ps, cl, qs), not_(xor_b(r, e))
                ctx.run(I, call, post)
        out.append(Task('equality ' + cl, equal))

        def cls(ctx):
            I = mk()
            st = {}
            ps = params(kind)[-1]

            def call(I):
                t, d = build(I, cl, ps)
                c = LV(Cell(t))
                st['is'] = {k: callfn(I, f('isa_' + k), c) for k in list(CLASSES) + ['i' + x for x in IFACES]}
                st['as'] = {}
                for k in st['is']:
                    try:
                        callfn(I, f('as_' + k), c)
                        st['as'][k] = True
                    except Throw:
                        st['as'][k] = False
                st['eq'] = {}
                for o in CLASSES:
                    if o != cl:
                        q = params(CLASSES[o][0])
                        for i, qs in enumerate(q if len(q) <= 3 else [q[-1]]):
                            b, _ = build(I, o, qs, '.o%s%d' % (o, i))
                            st['eq'][o, qs] = callfn(I, f('same'), c, LV(Cell(b)))
                # copies are values of their own
                u = callfn(I, f('copyof'), c)
                uc = LV(Cell(u))
                st['copy'] = callfn(I, f('same'), c, uc)
                st['csz'] = callfn(I, f('sizeoft'), uc)
                v = callfn(I, f('mk_Void'))
                vc = Cell(v)
                callfn(I, f('assign'), LV(vc), c)
                st['asg'] = callfn(I, f('same'), LV(vc), c)
                st['asz'] = callfn(I, f('sizeoft'), LV(vc))
                if 'BShare' in ifs:
                    callfn(I, f('set_nbits'), uc, c64(0))
                    callfn(I, f('set_nbits'), LV(vc), c64(0))
                    st['n'] = (callfn(I, f('get_nbits'), c), d['nbits'], callfn(I, f('get_nbits'), uc))
                return t

            def post(I, r):
                for k, b in st['is'].items():
                    want = (k == cl) if not k.startswith('i') else k[1:] in ifs.split()
                    if cl.endswith(('_A', '_B', '_P', '_O', '_OP')) or cl == 'Pub':
                        if k == 'Ring':
                            want = 'RingTy' in ifs
                    yield '%s: recognised as %s' % (cl, k), not_(xor_b(b, boolt(want)))
                    yield '%s: reading it as %s is refused exactly when it is not one' % (cl, k), boolt(st['as'][k] == want)
                for (o, qs), b in st['eq'].items():
                    yield '%s differs from %s%s' % (cl, o, qs), not_(b)
                yield '%s: a copy is equal' % cl, st['copy']
                yield '%s: a copy has the size' % cl, eq(st['csz'], c64(size_of(cl, ps)))
                yield '%s: an assigned type is equal' % cl, st['asg']
                yield '%s: an assigned type has the size' % cl, eq(st['asz'], c64(size_of(cl, ps)))
                if 'n' in st:
                    yield '%s: changing a copy leaves the original' % cl, eq(st['n'][0], st['n'][1])
                    yield '%s: setNbits stores' % cl, eq(st['n'][2], c64(0))
            ctx.run(I, call, post)
        out.append(Task('classes ' + cl, cls))

        if kind == 'nbits':
            def dflt(ctx):
                for x in FIELDS:
                    I = mk()

                    def call(I):
                        t = callfn(I, f('mkd_' + cl), cf(x))
                        return callfn(I, f('get_nbits'), LV(Cell(t)))
                    ctx.run(I, call, lambda I, r: [('%s: every bit valid by default' % cl, eq(r, c64(8 * FIELDS[x])))])
            out.append(Task('default width ' + cl, dflt))
        if kind in ('nbits', 'back', 'spdzb'):
            def wide(ctx):
                for ps in params(kind):
                    I = mk()
                    n = var('nbits', 64)
                    lim = 8 * (FIELDS[ps[0]] if kind == 'nbits' else PTS[ps[0]])
                    ok = ule(n, c64(lim))
                    if kind == 'nbits':
                        ok = or_(ok, eq(n, c64((1 << 64) - 1)))

                    def call(I):
                        a = {'nbits': [cf(ps[0]), n], 'back': [cf(ps[0]), n], 'spdzb': [cf(ps[0]), n] + [cf(x) for x in ps[2:]]}[kind]
                        return callfn(I, f('mk_' + cl), *a)
                    ctx.run(I, call, lambda I, r: [('%s%s: only widths the storage holds' % (cl, ps), ok)], throws_ok=not_(ok))
            out.append(Task('width limit ' + cl, wide))
    for cl in CLASSES:
        group(cl)

    def kinds(ctx):
        for p in PTS:
            I = mk()

            def call(I):
                t = callfn(I, f('mk_Pt'), cf(p))
                return (callfn(I, f('intty'), LV(Cell(t))), callfn(I, f('floatty'), LV(Cell(t))))

            def post(I, r):
                yield 'plaintext type %d: integer' % p, not_(xor_b(r[0], boolt(1 <= p <= 10)))
                yield 'plaintext type %d: floating point' % p, not_(xor_b(r[1], boolt(30 <= p <= 32)))
            ctx.run(I, call, post)
        I = mk()

        def call2(I):
            t = callfn(I, f('mk_Ring'), cf(2))
            return (callfn(I, f('intty'), LV(Cell(t))), callfn(I, f('floatty'), LV(Cell(t))))
        ctx.run(I, call2, lambda I, r: [('ring elements are no plaintext type', and_(not_(r[0]), not_(r[1])))])
    out.append(Task('isIntTy isFloatTy', kinds))

    def bad(ctx):
        for s in ('Nothing<>', 'Ring<>', 'Ring<PtType_8>', 'Ring<nonsense>', 'Plaintext<FieldType_2>', 'Ring<FieldType_2', 'Ring', '', '<FieldType_2>', 'Void<x>', 'ring<FieldType_2>'):
            I = mk()

            def call(I):
                enum_text('FieldType', cf(2))
                enum_text('PtType', cf(8))
                callfn(I, f('reg'))
                return callfn(I, f('parse'), s)
            ctx.run(I, call, lambda I, r: [('%r is refused' % s, FALSE)], throws_ok=TRUE, expect_return=False)
    out.append(Task('malformed text', bad))
    return out
