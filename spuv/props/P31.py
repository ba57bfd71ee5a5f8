"""P31: the variable table (device/symbol_table.cc)."""
from ..kernels import *
from .. import stdlib as SL
from ..check import Native

TRUSTED = ['std::unordered_map: operator[] stores under the key, find/count/at/contains look the key up, erase removes it, clear removes all (modelled as a finite map from names to values)']
ASSUMPTIONS = ['names and values are opaque: names are compared for equality only, a stored value is handed back as it is']
FILES = ['device/symbol_table.cc', 'core/value.cc', 'core/type.cc', 'core/type_util.cc', 'core/bit_utils.cc', 'core/parallel_utils.cc', 'core/ndarray_ref.cc', 'core/shape.cc']


def natives(tier):
    yield Native('symtab', FILES, ms_quick=6000, san=True)


class SymMap(Container):
    """map from opaque names to opaque values; the state is a pair of functions of the name"""
    __slots__ = ('st',)

    def __init__(self, has, val):
        self.st = (has, val)
        self.seq = nextseq()

    def get(self, k):
        if k == '%st':
            return self.st
        h, v = self.st
        return v(k)

    def put(self, k, x):
        if k == '%st':
            self.st = x
            return
        h, v = self.st
        self.st = (lambda n, h=h, k=k: or_(eq(n, k), h(n)), lambda n, v=v, k=k, x=x: ite(eq(n, k), x, v(n)))

    def copy(self, I):
        m = SymMap(*self.st)
        return m


def store(I, m, k, x):
    h, v = m.st
    x = I.unbase(I.rv(x))
    if not isinstance(x, T):
        raise Unsupported('stored value is not a value')
    I.setc(m, '%st', (lambda n: or_(eq(n, k), h(n)), lambda n: ite(eq(n, k), x, v(n))))


class Slot(Container):
    """the reference operator[] returns"""
    __slots__ = ('m', 'key')

    def __init__(self, m, key):
        self.m, self.key = m, key
        self.seq = nextseq()


class MIt(Container):
    __slots__ = ('m', 'key')

    def __init__(self, m, key):
        self.m, self.key = m, key          # key None: end()
        self.seq = nextseq()

    def copy(self, I):
        return self

    def equals(self, I, o):
        o = I.unbase(I.rv(o))
        if type(o) is not MIt or o.m is not self.m:
            raise Unsupported('iterator comparison')
        if self.key is None or o.key is None:
            return boolt(self.key is None and o.key is None)
        return eq(self.key, o.key)


def ksym(I, a):
    k = I.unbase(I.rv(a))
    if not isinstance(k, T):
        raise Unsupported('map key %r' % (k,))
    return k


def pair_of(I, m, k):
    return Obj(None, {'first': k, 'second': m.st[1](k)})


def mapm(name):
    def h(I, m, c):
        has, val = m.st
        none = lambda n: FALSE
        if name == 'find':
            k = ksym(I, c.args[0])
            return MIt(m, k) if I.branch(has(k)) else MIt(m, None)
        if name in ('end', 'cend'):
            return MIt(m, None)
        if name == 'count':
            return ite(has(ksym(I, c.args[0])), const(1, 64), const(0, 64))
        if name == 'contains':
            return has(ksym(I, c.args[0]))
        if name == 'at':
            k = ksym(I, c.args[0])
            if not I.branch(has(k)):
                raise Unsupported('at() of an absent name')
            return val(k)
        if name == 'operator[]':
            k = ksym(I, c.args[0])
            if I.branch(not_(has(k))):
                store(I, m, k, fresh('empty', 64))
            return LV(m, k)
        if name in ('insert_or_assign',):
            store(I, m, ksym(I, c.args[0]), c.args[1])
            return None
        if name in ('emplace', 'try_emplace', 'insert'):
            if len(c.args) != 2:
                raise Unsupported('insert of a pair')
            k = ksym(I, c.args[0])
            if I.branch(not_(has(k))):
                store(I, m, k, c.args[1])
            return None
        if name == 'erase':
            a = I.unbase(I.rv(c.args[0]))
            k = a.key if type(a) is MIt else ksym(I, c.args[0])
            if k is None:
                raise Unsupported('erase of end()')
            I.setc(m, '%st', (lambda n: and_(not_(eq(n, k)), has(n)), val))
            return ite(has(k), const(1, 64), const(0, 64))
        if name == 'clear':
            I.setc(m, '%st', (none, val))
            return None
        raise Unsupported('map member ' + name)
    return h


def itm(name):
    def h(I, o, c):
        if name in ('operator==', 'operator!='):
            x = I.unbase(I.rv(c.args[-1]))
            if type(x) is not MIt or x.m is not o.m:
                raise Unsupported('iterator comparison')
            if o.key is None or x.key is None:
                e = boolt(o.key is None and x.key is None)
            else:
                e = eq(o.key, x.key)
            return e if name == 'operator==' else not_(e)
        if name in ('operator->', 'operator*'):
            if o.key is None:
                I.require('iterator is dereferenced only when it designates an element', FALSE)
                raise Unsupported('dereference of end()')
            p = Cell(pair_of(I, o.m, o.key))
            return Ptr(p, None) if name == 'operator->' else LV(p)
        raise Unsupported('iterator member ' + name)
    return h


def valset(I, c):
    d = c.this
    I.setc(d.c, d.k, I.unbase(I.rv(c.args[-1])))
    return d


ARRCLS[SymMap] = mapm
ARRCLS[MIt] = itm


def tasks(tier):
    P = load_program(FILES)
    out = []

    def task(label, meth, nargs, post):
        def run(ctx):
            I = make_interp(P)
            fn = fn_named(P, 'spu::device::SymbolTable::' + meth)
            has0 = lambda n: app('has', [n], 0)
            val0 = lambda n: app('val', [n], 64)
            I.overrides['spu::Value::Value'] = lambda I, c: I.unbase(I.rv(c.args[0])) if c.args else fresh('empty', 64)
            I.overrides['spu::Value::operator='] = valset
            name, v = var('name', 64), var('value', 64)
            q = var('other', 64)
            st = {}

            def call(I):
                st['o'] = Obj(None, {'data_': SymMap(has0, val0)})
                args = [LV(Cell(name)), LV(Cell(v))][:nargs]
                return I.invoke(fn, args, LV(Cell(st['o'])), None)

            def pst(I, r):
                mm = st['o'].f['data_']
                if type(mm) is not SymMap:
                    raise Unsupported('table representation')
                has, val = mm.st
                yield from post(I, r, name, v, q, has0, val0, has, val)
            ctx.run(I, call, pst, throws_ok=not_(has0(name)) if meth == 'getVar' else FALSE)
        out.append(Task(label, run))

    def same(has0, val0, has, val, q):
        yield 'which names are stored is unchanged', not_(xor_b(has(q), has0(q)))
        yield 'the stored values are unchanged', implies(has0(q), eq(val(q), val0(q)))

    def p_set(I, r, n, v, q, has0, val0, has, val):
        yield 'the name is stored', has(n)
        yield 'with the value given', eq(val(n), v)
        yield 'other names: stored exactly when they were', implies(ne(q, n), not_(xor_b(has(q), has0(q))))
        yield 'other names: value unchanged', implies(and_(ne(q, n), has0(q)), eq(val(q), val0(q)))

    def p_get(I, r, n, v, q, has0, val0, has, val):
        yield 'the stored value is returned, and only for stored names', and_(has0(n), eq(I.unbase(I.rv(r)), val0(n)))
        yield from same(has0, val0, has, val, q)

    def p_has(I, r, n, v, q, has0, val0, has, val):
        yield 'presence is reported', not_(xor_b(I.rv(r), has0(n)))
        yield from same(has0, val0, has, val, q)

    def p_del(I, r, n, v, q, has0, val0, has, val):
        yield 'the name is gone', not_(has(n))
        yield 'other names: stored exactly when they were', implies(ne(q, n), not_(xor_b(has(q), has0(q))))
        yield 'other names: value unchanged', implies(and_(ne(q, n), has0(q)), eq(val(q), val0(q)))

    def p_clear(I, r, n, v, q, has0, val0, has, val):
        yield 'no name is stored', not_(has(q))
    task('setVar', 'setVar', 2, p_set)
    task('getVar', 'getVar', 1, p_get)
    task('hasVar', 'hasVar', 1, p_has)
    task('delVar', 'delVar', 1, p_del)
    task('clear', 'clear', 0, p_clear)
    return out
