"""Reduced ordered binary decision diagrams over named atoms."""


class BDD:
    def __init__(self):
        self.false = 0
        self.true = 1
        self.nodes = [None, None]      # id -> (var, hi, lo)
        self.uniq = {}
        self.vars = []
        self.varidx = {}
        self.memo = {}

    def _mk(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def var(self, atom):
        i = self.varidx.get(atom)
        if i is None:
            i = len(self.vars)
            self.varidx[atom] = i
            self.vars.append(atom)
        return self._mk(i, 1, 0)

    def atom(self, i):
        return self.vars[i]

    def node(self, n):
        return self.nodes[n]

    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.nodes[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x <= 1 or self.nodes[x][0] != v:
                return x
            return self.nodes[x][1] if b else self.nodes[x][2]
        r = self._mk(v, self.ite(co(f, 1), co(g, 1), co(h, 1)), self.ite(co(f, 0), co(g, 0), co(h, 0)))
        self.memo[k] = r
        return r

    def not_(self, a):
        return self.ite(a, 0, 1)

    def and_(self, a, b):
        return self.ite(a, b, 0)

    def or_(self, a, b):
        return self.ite(a, 1, b)

    def implies(self, a, b):
        return self.ite(a, b, 1) == 1

    def support(self, f):
        out = set(); st = [f]; seen = set()
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            v, h, l = self.nodes[x]
            out.add(self.vars[v])
            st += [h, l]
        return out

    def restrict(self, f, atom, val):
        i = self.varidx.get(atom)
        if i is None:
            return f
        memo = {}

        def go(x):
            if x <= 1: return x
            if x in memo: return memo[x]
            v, h, l = self.nodes[x]
            if v == i:
                r = h if val else l
            elif v > i:
                r = x
            else:
                r = self._mk(v, go(h), go(l))
            memo[x] = r
            return r
        return go(f)

    def exists(self, f, pred):
        """quantify away atoms for which pred holds"""
        for a in list(self.support(f)):
            if pred(a):
                f = self.or_(self.restrict(f, a, True), self.restrict(f, a, False))
        return f

    def forall(self, f, pred):
        for a in list(self.support(f)):
            if pred(a):
                f = self.and_(self.restrict(f, a, True), self.restrict(f, a, False))
        return f

    def show(self, f, showatom=str):
        if f == 1: return 'true'
        if f == 0: return 'false'
        terms = []

        def go(x, acc):
            if len(terms) > 6: return
            if x == 1:
                terms.append(' && '.join(acc) or 'true'); return
            if x == 0: return
            v, h, l = self.nodes[x]
            s = showatom(self.vars[v])
            go(h, acc + [s]); go(l, acc + ['!' + s])
        go(f, [])
        return ' || '.join(terms)
