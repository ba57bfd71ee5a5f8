"""Reduced ordered decision diagrams: the back end that decides the circuit obligations (equality of boolean functions is identity
of diagrams)."""


class Bdd:
    def __init__(self):
        self.nodes = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        self.uniq = {}
        self.memo = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = self.uniq[k] = len(self.nodes)
            self.nodes.append(k)
        return r

    def var(self, v):
        return self.mk(v, 0, 1)

    def and_(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        if a == 0:
            return 0
        if a == 1:
            return b
        k = ('&', a, b)
        r = self.memo.get(k)
        if r is None:
            va, la, ha = self.nodes[a]
            vb, lb, hb = self.nodes[b]
            v = min(va, vb)
            if va != v:
                la = ha = a
            if vb != v:
                lb = hb = b
            r = self.memo[k] = self.mk(v, self.and_(la, lb), self.and_(ha, hb))
        return r

    def xor(self, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        k = ('^', a, b)
        r = self.memo.get(k)
        if r is None:
            va, la, ha = self.nodes[a]
            vb, lb, hb = self.nodes[b]
            if a == 1:
                r = self.mk(vb, self.xor(1, lb), self.xor(1, hb))
            else:
                v = min(va, vb)
                if va != v:
                    la = ha = a
                if vb != v:
                    lb = hb = b
                r = self.mk(v, self.xor(la, lb), self.xor(ha, hb))
            self.memo[k] = r
        return r

    def sat(self, a):
        """an assignment under which a holds (None when there is none); unnamed variables are free"""
        if a == 0:
            return None
        m = {}
        while a != 1:
            v, lo, hi = self.nodes[a]
            if lo != 0:
                m[v], a = 0, lo
            else:
                m[v], a = 1, hi
        return m
