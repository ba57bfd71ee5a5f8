"""Loads the JSONL produced by the exporter."""
import json
import os


class Ty:
    __slots__ = ('k', 's', 'w', 'sg', 't', 'r', 'n', 'v', 'sz', 'const', 'rv')

    def __repr__(self):
        return self.s


class Rec:
    def __repr__(self):
        return 'Rec(%s)' % self.id


class Fn:
    __slots__ = ('id', 'tu', 'o', 'name', 'rec', 'ret', 'params', 'body', 'inits', 'hasbody', 'static', 'virt', 'ctor', 'pn', 'loc', 'ta', 'dflt', 'noret', 'copy', 'move', 'dtor', 'simple', 'pure', 'dargs')

    def __repr__(self):
        return 'Fn(%s)' % (self.pn or self.name)


class TU:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}


class Program:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.byname = {}
        self.tus = []
        self.loaded = set()
        self.mcache = {}

    def load(self, path):
        if path in self.loaded:
            return
        self.loaded.add(path)
        tu = TU(path)
        self.tus.append(tu)
        raw_t = []
        raw_r = []
        raw_f = []
        with open(path) as fh:
            for line in fh:
                o = json.loads(line)
                if 'T' in o:
                    raw_t.append(o)
                elif 'F' in o:
                    raw_f.append(o)
                elif 'R' in o:
                    raw_r.append(o)
                elif 'G' in o:
                    tu.globals[o['G']] = o
        for o in raw_t:
            t = Ty()
            t.k = o['k']
            t.s = o['s']
            t.w = o.get('w', 0)
            t.sg = bool(o.get('sg'))
            t.const = bool(o.get('c'))
            t.sz = o.get('sz')
            t.v = o.get('v')
            t.n = o.get('n')
            t.rv = o.get('rv')
            t.r = o.get('r')
            t.t = o.get('t')
            tu.types[o['T']] = t
        for o in raw_t:
            t = tu.types[o['T']]
            if t.t is not None:
                t.t = tu.types.get(t.t)
        for o in raw_r:
            r = self.recs.get(o['R'])
            if r is None or (not r.full and 'f' in o):
                r = r or Rec()
                r.id = o['R']
                r.name = o['n']
                r.tu = tu
                r.full = 'f' in o
                r.fields = o.get('f', [])
                r.bases_t = o.get('b', [])
                r.methods = o.get('m', [])
                r.ta = [tu.types[a['t']] if 't' in a else (int(a['i']) if 'i' in a else None) for a in o.get('ta', [])]
                r.lam = o.get('lam')
                r.call = o.get('call')
                r.dtor = o.get('dtor')
                r.union = o.get('u')
                r.o = o
                r._vt = {}
                self.recs[o['R']] = r
        for o in raw_f:
            old = self.fns.get(o['F'])
            if old is not None and (old.hasbody or not o.get('hasbody')):
                continue
            f = Fn()
            f.id = o['F']
            f.tu = tu
            f.o = o
            f.name = o['n']
            f.pn = o.get('pn')
            f.rec = o.get('r')
            f.ret = tu.types.get(o['ret'])
            f.params = [(p['v'], p['n'], tu.types[p['t']]) for p in o['p']]
            f.dargs = [p.get('d') for p in o['p']]
            f.body = o.get('body')
            f.inits = o.get('inits', [])
            f.hasbody = bool(o.get('hasbody'))
            f.static = bool(o.get('static'))
            f.virt = bool(o.get('virt'))
            f.pure = bool(o.get('pure'))
            f.ctor = bool(o.get('ctor'))
            f.copy = bool(o.get('copy'))
            f.move = bool(o.get('move'))
            f.dtor = bool(o.get('dtor'))
            f.dflt = bool(o.get('dflt'))
            f.noret = bool(o.get('noret'))
            f.loc = o.get('loc')
            f.simple = f.name.rsplit('::', 1)[-1] if 'operator' not in f.name else 'operator' + f.name.rsplit('operator', 1)[-1]
            f.ta = [tu.types[a['t']] if 't' in a else (int(a['i']) if 'i' in a else None) for a in o.get('ta', [])]
            if old is not None:
                lst = self.byname.get(old.name)
                if lst and old in lst:
                    lst.remove(old)
            self.fns[f.id] = f
            self.byname.setdefault(f.name, []).append(f)

    def bases(self, r):
        out = []
        for tid in r.bases_t:
            t = r.tu.types[tid]
            b = self.recs.get(t.r)
            if b is not None:
                out.append(b)
        return out

    def derives(self, r, target):
        if r.id == target:
            return True
        return any(self.derives(b, target) for b in self.bases(r))

    def overridden(self, fid, r, acc):
        for m in r.methods:
            if m['f'] == fid:
                for x in m.get('ov', []):
                    if x not in acc:
                        acc.add(x)
                        for b in self.bases(r):
                            self._ov_up(x, b, acc)
        return acc

    def _ov_up(self, fid, r, acc):
        self.overridden(fid, r, acc)
        for b in self.bases(r):
            self._ov_up(fid, b, acc)

    def vresolve(self, r, fid):
        c = r._vt.get(fid)
        if c is not None:
            return c
        res = None
        for m in r.methods:
            if m['f'] == fid or fid in self.overridden(m['f'], r, set()):
                res = m['f']
                break
        if res is None:
            for b in self.bases(r):
                x = self.vresolve(b, fid)
                if x is not None:
                    f = self.fns.get(x)
                    if res is None or (f is not None and not f.pure):
                        res = x
                    if f is not None and not f.pure:
                        break
        r._vt[fid] = res
        return res

    def find(self, name, **kw):
        c = [f for f in self.byname.get(name, []) if f.hasbody]
        np = kw.get('nparams')
        if np is not None:
            c = [f for f in c if len(f.params) == np]
        sig = kw.get('sig')
        if sig is not None:
            c = [f for f in c if sig in f.id]
        return c
