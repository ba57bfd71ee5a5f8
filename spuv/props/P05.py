"""Paths of a program snapshot: injective, nested in the rank folder, variable name recoverable."""
from ..kernels import *
from ..check import Native
from .. import stdlib as SL

TRUSTED = ['std::filesystem::path: p / s appends a separator and s when s is relative and non-empty; stem/extension split at the last dot',
           'fmt "{}" renders strings verbatim and integers in decimal']
ASSUMPTIONS = ['variable names are non-empty and contain no path separator', 'rank and chunk numbers are non-negative']
NS = 'spu::device::'


def natives(tier):
    yield Native('dump_paths', ['device/utils/debug_dump_constant.cc'], ms_quick=5000)


def p_div(I, c):
    a, b = [SL.render(I, x) for x in c.args[-2:]] if c.this is None else (SL.render(I, c.this), SL.render(I, c.args[0]))
    if a == '?' or b == '?':
        raise Unsupported('path operand')
    return a + '/' + b


def p_ctor(I, c):
    if not c.args:
        return ''
    v = SL.render(I, c.args[0])
    if v == '?':
        raise Unsupported('path source')
    return v


def tokens(comp):
    """component text -> list of ('lit', s) / ('str', name) / ('dec', term)"""
    out = []
    for ch in comp:
        if ord(ch) >= 0xF0000:
            k = SL.ATOMLIST[ord(ch) - 0xF0000]
            out.append((k[0], k))
        elif out and out[-1][0] == 'lit':
            out[-1] = ('lit', out[-1][1] + ch)
        else:
            out.append(('lit', ch))
    return out


def decodable(toks):
    """the component determines every one of its parts: read numbers from the right, one free name is what remains"""
    free = [i for i, t in enumerate(toks) if t[0] == 'str']
    if len(free) > 1:
        return False
    f = free[0] if free else len(toks)
    right, left = toks[f + 1:], toks[:f]
    for i, t in enumerate(right):
        if t[0] == 'dec' and (i == 0 or right[i - 1][0] != 'lit' or right[i - 1][1][-1].isdigit()):
            return False
    for i, t in enumerate(left):
        if t[0] == 'dec' and i + 1 < len(toks) and (toks[i + 1][0] != 'lit' or toks[i + 1][1][0].isdigit()):
            return False
    return True


def litends(toks):
    return (toks[0][1] if toks[0][0] == 'lit' else None, toks[-1][1] if toks[-1][0] == 'lit' else None)


def apart(a, b):
    """two components can never be the same text"""
    if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0] == 'lit':
        return a[0][1] != b[0][1]
    sa, sb = litends(a), litends(b)
    for x, y, pre in ((sa[0], sb[0], True), (sa[1], sb[1], False)):
        if x is not None and y is not None:
            m = min(len(x), len(y))
            if (x[:m] != y[:m]) if pre else (x[-m:] != y[-m:]):
                return True
    return False


def shown(b, what):
    if not b:
        raise Unsupported('not shown: ' + what)
    return TRUE


def tasks(tier):
    P = load_program(['device/utils/debug_dump_constant.cc'])
    BASE_, NAME = SL.str_atom(('str', 'base')), SL.str_atom(('str', 'name'))

    def mk():
        I = make_interp(P)
        for n in ('std::filesystem::path::path', 'std::filesystem::__cxx11::path::path'):
            I.overrides[n] = p_ctor
        for n in ('std::filesystem::operator/', 'std::filesystem::__cxx11::operator/'):
            I.overrides[n] = p_div
        return I

    def get(I, n, *a):
        r = callfn(I, fn_named(P, NS + n), *a)
        r = SL.render(I, r)
        if '?' in r:
            raise Unsupported('path text is not tracked')
        return r
    rank, chunk = var('rank', 64), var('chunk', 64)
    KINDS = {'folder': ('getRankFolder', (BASE_, rank)), 'config': ('getConfigFilePath', (BASE_,)), 'code': ('getCodeFilePath', (BASE_,)),
             'meta': ('getMetaFilePath', (BASE_, rank, NAME)), 'chunk': ('getValueChunkFilePath', (BASE_, rank, NAME, chunk))}

    def one(ctx, k):
        I = mk()
        fn, a = KINDS[k]
        st = {}

        def call(I):
            st['f'] = get(I, 'getRankFolder', BASE_, rank)
            st['ext'] = get(I, 'getMetaExtension')
            return get(I, fn, *a)

        def post(I, r):
            yield 'lies under the snapshot folder', boolt(r.startswith(BASE_ + '/'))
            comps = [tokens(c) for c in r[len(BASE_) + 1:].split('/')]
            yield 'the path determines rank, name and chunk', shown(all(decodable(c) for c in comps) and
                                                                   {x for c in comps for x in c if x[0] != 'lit'} == {t for t in ([('dec', ('dec', rank, True))] if rank in a else []) +
                                                                    ([('str', ('str', 'name'))] if NAME in a else []) + ([('dec', ('dec', chunk, True))] if chunk in a else [])}, 'path decodable')
            if k in ('meta', 'chunk'):
                yield 'lies in the folder of its rank', boolt(r.startswith(st['f'] + '/') and '/' not in r[len(st['f']) + 1:])
            if k == 'meta':
                e = st['ext']
                yield 'file name is the variable name plus the metadata extension', boolt(r[len(st['f']) + 1:] == NAME + e and e[:1] == '.' and e.count('.') == 1 and len(e) > 1)
        ctx.run(I, call, post)
    out = [Task(KINDS[k][0], lambda ctx, k=k: one(ctx, k)) for k in KINDS]

    def pair(ctx, k1, k2):
        I = mk()

        def call(I):
            return get(I, KINDS[k1][0], *KINDS[k1][1]), get(I, KINDS[k2][0], *KINDS[k2][1])

        def post(I, r):
            a, b = [[tokens(c) for c in x[len(BASE_) + 1:].split('/')] for x in r]
            yield 'never the same path', shown(len(a) != len(b) or any(apart(x, y) for x, y in zip(a, b)), 'paths differ')
            yield 'neither is a folder of the other', shown(any(apart(x, y) for x, y in zip(a, b)) or 'folder' in (k1, k2) and len(a) != len(b), 'not nested')
        ctx.run(I, call, post)
    ks = list(KINDS)
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            out.append(Task('%s / %s' % (a, b), lambda ctx, a=a, b=b: pair(ctx, a, b)))
    return out
