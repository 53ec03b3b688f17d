"""A path-sensitive typestate engine: an automaton's states are pushed through
the control flow graph until nothing new is reached. Branch conditions on call
results, arguments and flag variables are kept, so that correlated branches are
not confused."""
from .core import *
from .trav import *


class St:
    """an immutable map"""
    __slots__ = ('t', 'h')

    def __init__(self, t=()):
        self.t = t; self.h = hash(t)

    def get(self, k, d=None):
        for a, b in self.t:
            if a == k:
                return b
        return d

    def set(self, k, v):
        l = [x for x in self.t if x[0] != k]
        if v is not None:
            l.append((k, v))
        l.sort(key=repr)
        return St(tuple(l))

    def upd(self, **kw):
        s = self
        for k, v in kw.items():
            s = s.set(k, v)
        return s

    def keys(self):
        return [a for a, b in self.t]

    def __eq__(self, o):
        return self.t == o.t

    def __hash__(self):
        return self.h

    def __repr__(self):
        return '{' + ', '.join('%s=%s' % x for x in self.t) + '}'


def stable(at):
    """an atom whose value does not change by itself: over arguments, call
    results and constants"""
    def ok(t):
        return all(u[0] in ('c', 'arg', 'call', 'lin', 'and', 'lshr', 'op', 'g', 'f', 'al') for u in subterms(t))
    if at[0] not in ('eq0', 'eq', 'ult', 'slt', 'cmp'):
        return False
    return all(ok(x) for x in at[1:] if isinstance(x, tuple))


class Auto:
    def __init__(self, f, step, limit=30000, edge=None, ssa=None, assume=()):
        self.f = f; self.step = step; self.limit = limit; self.edgehook = edge
        self.assume = dict(assume)
        self.n = 0
        self.flagphis()
        self.liveness()

    def flagphis(self):
        """merges of constants on which branches depend"""
        f = self.f
        used = set()
        for b in f.order:
            t = f.term_instr(b)
            if t.op == 'br' and len(t.ops) == 3:
                for at in f.bdd.support(f.cond(t.ops[0])):
                    for x in at[1:]:
                        if isinstance(x, tuple) and x and isinstance(x[0], str):
                            for u in subterms(x):
                                if u[0] in ('phi', 'cur'):
                                    used.add(u)
        todo = list(used)
        self.flags = {}
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            ins = f.ins.get(t[1])
            if ins is None or ins.op != 'phi':
                continue
            incs = [(f.term(o), p) for o, p in ins.d['inc']]
            if any(x[0] == 'c' for x, p in incs) and len(incs) <= 12:
                self.flags[t] = ins
                for x, p in incs:
                    if x[0] in ('phi', 'cur'):
                        todo.append(x)
        self.phisat = {}
        for t, ins in self.flags.items():
            self.phisat.setdefault(ins.blk, []).append((t, ins))

    def liveness(self):
        """the blocks in which a fact about a condition or flag still matters"""
        f = self.f
        self.live = {}
        uses = {}
        for b in f.order:
            t = f.term_instr(b)
            if t.op == 'br' and len(t.ops) == 3:
                for at in f.bdd.support(f.cond(t.ops[0])):
                    if stable(at):
                        uses.setdefault(('lit', at), set()).add(b)
                    for x in at[1:]:
                        if isinstance(x, tuple) and x and isinstance(x[0], str):
                            for u in subterms(x):
                                if u in self.flags:
                                    uses.setdefault(('flag', u), set()).add(b)
        # flags flow into other flags
        for t, ins in self.flags.items():
            for o, p in ins.d['inc']:
                x = f.term(o)
                if x in self.flags:
                    uses.setdefault(('flag', x), set()).add(p)
        for k, bs in uses.items():
            defs = set()
            if k[0] == 'flag':
                defs.add(f.ins[k[1][1]].blk)
            else:
                for x in k[1][1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        for u in subterms(x):
                            if u[0] == 'call':
                                defs.add(f.ins[u[1]].blk)
            seen = set(); st = list(bs)
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b in defs and b not in ():
                    if k[0] == 'lit':
                        continue
                    continue
                st.extend(p for p in f.pred[b])
            self.live[k] = seen

    def edge(self, st, a, b):
        """the state after the edge, or None if it cannot be taken"""
        f = self.f; B = f.bdd
        c = f.edge_cond(a, b)
        env = {k[1]: C(v) for k, v in st.t if isinstance(k, tuple) and k[0] == 'flag'}
        lits = {k[1]: v for k, v in st.t if isinstance(k, tuple) and k[0] == 'lit'}
        if c == B.false:
            return None
        if c != B.true:
            for at in list(B.support(c)):
                v = lits.get(at)
                if v is None and at in self.assume:
                    v = self.assume[at]
                if v is not None:
                    c = B.restrict(c, at, v)
                    continue
                if env and any(isinstance(x, tuple) and x and isinstance(x[0], str) and any(u in env for u in subterms(x)) for x in at[1:]):
                    new = tuple(subst(x, env) if isinstance(x, tuple) else x for x in at)
                    if new[0] == 'eq0':
                        nv = f.cmp('eq', new[1], NULL)
                    elif new[0] in ('eq', 'ult', 'slt'):
                        if new[0] != 'eq' and new[1][0] == 'c' and new[2][0] == 'c':
                            nv = B.true if new[1][1] < new[2][1] else B.false
                        else:
                            nv = f.cmp(new[0], new[1], new[2])
                    else:
                        continue
                    c = B.ite(nv, B.restrict(c, at, True), B.restrict(c, at, False)) if nv > 1 else B.restrict(c, at, nv == B.true)
            if c == B.false:
                return None
            for at in B.support(c):
                if stable(at) and (('lit', at) in self.live):
                    v = B.var(at)
                    if B.implies(c, v):
                        st = st.set(('lit', at), True)
                    elif B.implies(c, B.not_(v)):
                        st = st.set(('lit', at), False)
        if self.edgehook:
            st = self.edgehook(st, a, b, c)
            if st is None:
                return None
        for t, ins in self.phisat.get(b, ()):
            for o, p in ins.d['inc']:
                if p == a:
                    x = f.term(o)
                    v = None
                    if x[0] == 'c':
                        v = x[1]
                    elif x in env:
                        v = env[x][1]
                    st = st.set(('flag', t), v)
        drop = [k for k, v in st.t if isinstance(k, tuple) and k[0] in ('lit', 'flag') and b not in self.live.get(k, ())]
        if drop:
            st = St(tuple(x for x in st.t if x[0] not in drop))
        return st

    def run(self, init, entry=None):
        f = self.f
        seen = {}
        work = [(entry if entry is not None else f.entry, s) for s in ([init] if isinstance(init, St) else init)]
        while work:
            b, st = work.pop()
            if (b, st) in seen:
                continue
            seen[(b, st)] = True
            self.n += 1
            if self.n > self.limit:
                raise Broken('%s: too many states' % f.name)
            states = [st]
            for i in f.blocks[b]:
                if i.is_call():
                    # its result is a new one
                    t = ('call', i.id)
                    ns = []
                    for s in states:
                        for k in s.keys():
                            if isinstance(k, tuple) and k[0] == 'lit' and any(isinstance(x, tuple) and x and isinstance(x[0], str) and any(u[0] == 'call' and u[1] == i.id for u in subterms(x)) for x in k[1][1:]):
                                s = s.set(k, None)
                        ns.append(s)
                    states = ns
                out = []
                for s in states:
                    r = self.step(i, s)
                    if r is None:
                        continue
                    if isinstance(r, list):
                        out.extend(r)
                    else:
                        out.append(r)
                states = out
                if not states:
                    break
            for s in states:
                for t in f.lsucc(b):
                    n = self.edge(s, b, t)
                    if n is not None:
                        work.append((t, n))
        return seen


def lit(st, at):
    return st.get(('lit', at))


def recond(f, c, env):
    """a condition with terms substituted"""
    B = f.bdd
    if c <= 1:
        return c
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, h, l = B.node(x)
        at = B.atom(v)
        r = B.ite(reatom(f, at, env), go(h), go(l))
        memo[x] = r
        return r
    return go(c)


def reatom(f, at, env):
    B = f.bdd
    if at[0] not in ('eq0', 'eq', 'ult', 'slt'):
        return B.var(at)
    new = tuple(resub(f, x, env) if isinstance(x, tuple) else x for x in at)
    if new == at:
        return B.var(at)
    if new[0] == 'eq0':
        return f.cmp('eq', new[1], NULL)
    if new[0] != 'eq' and new[1][0] == 'c' and new[2][0] == 'c':
        return B.true if new[1][1] < new[2][1] else B.false
    return f.cmp(new[0], new[1], new[2])


def resub(f, t, env):
    """substitute in a term, also inside the conditions of selections"""
    if t in env:
        return env[t]
    if t[0] == 'sel':
        c = recond(f, t[1], env)
        a, b = resub(f, t[2], env), resub(f, t[3], env)
        if c == f.bdd.true:
            return a
        if c == f.bdd.false:
            return b
        return ('sel', c, a, b) if a != b else a
    if t[0] == 'bool':
        c = recond(f, t[1], env)
        if c <= 1:
            return C(1 if c == f.bdd.true else 0)
        return ('bool', c)
    if t[0] == 'lin':
        return lin(t[1], [(resub(f, u, env), k) for u, k in t[2]])
    if t[0] in ('c', 'g', 'arg', 'al', 'call', 'phi', 'cur', 'i', 'f', 'u', 'k'):
        return t
    if t[0] == 'and':
        return mk_and(resub(f, t[1], env), t[2])
    if t[0] == 'lshr':
        return mk_lshr(resub(f, t[1], env), t[2])
    return tuple(resub(f, x, env) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def paths(f, start=None, limit=4000):
    """the paths of a function without loops: [(condition, env, blocks)];
    None if there are loops on the way"""
    B = f.bdd
    out = []
    work = [(start if start is not None else f.entry, B.true, {}, ())]
    n = 0
    while work:
        b, c, env, tr = work.pop()
        if b in tr:
            return None
        n += 1
        if n > limit:
            return None
        tr = tr + (b,)
        if not f.lsucc(b):
            out.append((c, env, tr))
            continue
        for s in f.lsucc(b):
            ec = recond(f, f.edge_cond(b, s), env)
            nc = B.and_(c, ec)
            if nc == B.false:
                continue
            ne = env
            for i in f.blocks[s]:
                if i.op != 'phi':
                    break
                for o, p in i.d['inc']:
                    if p == b:
                        t = f.vterm(i.id)
                        if t[0] in ('phi', 'cur'):
                            if ne is env:
                                ne = dict(env)
                            ne[t] = resub(f, f.term(o), env)
            work.append((s, nc, ne, tr))
    return out
