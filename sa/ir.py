"""The program representation the analyses work on: control flow, dominance,
loops, canonical terms for values and addresses, types, and conditions."""
import sys
from .bdd import BDD
sys.setrecursionlimit(20000)

M64 = (1 << 64) - 1
NULL = ('c', 0)


def C(n):
    return ('c', n)


def lin(const, parts):
    """const + sum(coeff*term); parts: dict term->coeff"""
    d = {}
    todo = list(parts.items()) if isinstance(parts, dict) else list(parts)
    while todo:
        t, k = todo.pop()
        if k == 0:
            continue
        if t[0] == 'c':
            const += t[1] * k
        elif t[0] == 'lin':
            const += t[1] * k
            for u, c in t[2]:
                todo.append((u, c * k))
        else:
            d[t] = d.get(t, 0) + k
    items = [(t, k) for t, k in d.items() if k != 0]
    const &= M64
    if const >> 63:
        const -= 1 << 64
    if not items:
        return ('c', const)
    if len(items) == 1 and items[0][1] == 1 and const == 0:
        return items[0][0]
    items.sort(key=lambda x: (repr(x[0]), x[1]))
    return ('lin', const, tuple(items))


def add(a, b):
    return lin(0, [(a, 1), (b, 1)])


def sub(a, b):
    return lin(0, [(a, 1), (b, -1)])


def parts_of(t):
    """(const, {term: coeff})"""
    if t[0] == 'c':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lshr(t, k):
    if k == 0:
        return t
    if t[0] == 'c':
        return C((t[1] & M64) >> k)
    if t[0] == 'and':
        return mk_and(mk_lshr(t[1], k), t[2] >> k)
    if t[0] == 'lshr':
        return mk_lshr(t[1], t[2] + k)
    return ('lshr', t, k)


def mk_and(t, m):
    m &= M64
    if m == M64:
        return t
    if m == 0:
        return NULL
    if t[0] == 'c':
        return C(t[1] & m)
    if t[0] == 'and':
        return mk_and(t[1], t[2] & m)
    if t[0] == 'lshr':
        m &= M64 >> t[2]
        if m == M64 >> t[2]:
            return t
    return ('and', t, m)


def subterms(t):
    yield t
    if t[0] == 'lin':
        for u, _ in t[2]:
            yield from subterms(u)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from subterms(x)


def subst(t, mp):
    """replace subterms"""
    if t in mp:
        return mp[t]
    if t[0] == 'lin':
        return lin(t[1], [(subst(u, mp), k) for u, k in t[2]])
    if t[0] in ('c', 'g', 'arg', 'al', 'call', 'phi', 'cur', 'i', 'f', 'u'):
        return t
    if t[0] == 'and':
        return mk_and(subst(t[1], mp), t[2])
    if t[0] == 'lshr':
        return mk_lshr(subst(t[1], mp), t[2])
    return tuple(subst(x, mp) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


class Instr:
    __slots__ = ('id', 'op', 'ty', 'loc', 'd', 'blk', 'idx', 'fn')

    def __init__(self, d, blk, idx, fn):
        self.id = d['id']; self.op = d['op']; self.ty = d['ty']; self.loc = d.get('loc')
        self.d = d; self.blk = blk; self.idx = idx; self.fn = fn

    @property
    def ops(self):
        return self.d.get('ops', [])

    def callee(self):
        c = self.d.get('callee')
        if c and c[0] == 'f':
            return c[1]
        return None

    def is_call(self):
        return self.op in ('call', 'invoke')

    def where(self):
        if self.loc:
            ch = self.loc[2]
            s = '%s:%d' % (self.loc[0], self.loc[1])
            if len(ch) > 1:
                s += ' (in %s, inlined into %s)' % (ch[0], ch[-1])
            elif ch:
                s += ' (in %s)' % ch[0]
            return s
        return '%s (function %s)' % (self.fn.file, self.fn.name)

    def __repr__(self):
        return '<%s %%%d %s>' % (self.op, self.id, self.where())


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = []
        self.parent = None
        self.children = []
        self.exits = []     # (from, to)

    def depth(self):
        d = 0; p = self
        while p:
            d += 1; p = p.parent
        return d

    def __repr__(self):
        return '<loop @%d>' % self.header


class Module:
    def __init__(self, j, name=''):
        self.name = name
        self.types = j['types']
        self.globals = {g['name']: g for g in j['globals']}
        self.structs_ll = j['structs']
        self.structs = {}
        for i, t in enumerate(self.types):
            if t['k'] in ('struct', 'union') and not t.get('decl') and t['name']:
                self.structs.setdefault(t['name'], i)
        # typedef'd anonymous structs
        for i, t in enumerate(self.types):
            if t['k'] == 'typedef' and t.get('to', -1) >= 0:
                u = self.types[t['to']]
                if u['k'] == 'struct' and not u['name']:
                    self.structs.setdefault(t['name'], t['to'])
        self.funcs = {}
        self.decls = {}
        for f in j['functions']:
            if f['decl']:
                self.decls[f['name']] = f
            else:
                self.funcs[f['name']] = Func(f, self)
        self.noreturn = {'abort', 'exit', '_exit', '__assert_fail'} | {f['name'] for f in j['functions'] if f.get('noreturn')}

    # ---- types
    def strip(self, tid):
        while tid is not None and tid >= 0 and self.types[tid]['k'] in ('typedef', 'qual', 'volatile'):
            tid = self.types[tid]['to']
        return tid

    def pointee(self, tid):
        tid = self.strip(tid)
        if tid is None or tid < 0 or self.types[tid]['k'] != 'ptr':
            return None
        return self.types[tid]['to']

    def tname(self, tid):
        """the struct's name, for a struct type"""
        s = self.strip(tid)
        if s is None or s < 0:
            return None
        if self.types[s]['k'] in ('struct', 'union'):
            if self.types[s]['name']:
                return self.types[s]['name']
            for n, i in self.structs.items():
                if i == s:
                    return n
        return None

    def fields(self, sname):
        """[(name, offset, size, typeid)] with nested members flattened"""
        cache = self.__dict__.setdefault('_fields', {})
        if sname in cache:
            return cache[sname]
        out = []

        def walk(tid, base, prefix, depth):
            t = self.types[self.strip(tid)]
            for m in t.get('m', []):
                o = base + m['off'] // 8
                nm = prefix + m['name'] if m['name'] else prefix.rstrip('.')
                mt = self.strip(m['t'])
                out.append((nm, o, m['bits'] // 8, m['t']))
                if mt is not None and mt >= 0 and self.types[mt]['k'] in ('struct', 'union') and depth < 4:
                    walk(mt, o, (prefix + m['name'] + '.') if m['name'] else prefix, depth + 1)
        if sname in self.structs:
            walk(self.structs[sname], 0, '', 0)
        cache[sname] = out
        return out

    def off(self, sname, fname):
        for n, o, s, t in self.fields(sname):
            if n == fname:
                return o
        return None

    def fsize(self, sname, fname):
        for n, o, s, t in self.fields(sname):
            if n == fname:
                return s
        return None

    def ssize(self, sname):
        i = self.structs.get(sname)
        return self.types[i]['bits'] // 8 if i is not None else None

    def is_gc_struct(self, sname):
        """a structure which begins with the GC header"""
        if sname == 'GGGGC_Header':
            return True
        i = self.structs.get(sname)
        if i is None:
            return False
        ms = self.types[i].get('m', [])
        for m in ms:
            if m['off'] == 0:
                n = self.tname(m['t'])
                if n == 'GGGGC_Header':
                    return True
        return False


class Func:
    def __init__(self, f, mod):
        self.mod = mod
        self.name = f['name']
        self.src = f.get('src') or f['name']
        self.file = f.get('file', '?')
        self.line = f.get('line', 0)
        self.sig = f['sig']
        self.internal = f['internal']
        self.recursive = f['recursive']
        self.args = f['args']
        self.argids = {a['id']: i for i, a in enumerate(f['args'])}
        self.ins = {}
        self.blocks = {}
        for b in f['blocks']:
            l = []
            for i, d in enumerate(b['i']):
                ins = Instr(d, b['id'], i, self)
                l.append(ins)
                self.ins[ins.id] = ins
            self.blocks[b['id']] = l
        self.order = [b['id'] for b in f['blocks']]
        self.entry = self.order[0]
        self.succ = {}
        self.pred = {b: [] for b in self.order}
        for b in self.order:
            t = self.blocks[b][-1]
            s = []
            for x in t.d.get('succ', []):
                if x not in s:
                    s.append(x)
            self.succ[b] = s
            for x in s:
                self.pred[x].append(b)
        self.vars = {}
        for op, n, t in f.get('vars', []):
            if op[0] == 'v':
                self.vars.setdefault(op[1], []).append((n, t))
        self.argname = {}
        for a in self.args:
            vs = self.vars.get(a['id'])
            self.argname[a['id']] = vs[0][0] if vs else (a['name'] or 'arg%d' % self.argids[a['id']])
        self._terms = {}
        self._geptypes = {}
        self._termtypes = {}
        self._phiinfo = {}
        self._inprog = set()
        self.bdd = BDD()
        self._live = None
        self._dom = None
        self._pdom = None
        self._loops = None
        self.curinfo = {}

    # ---------------------------------------------------------------- CFG
    def term_instr(self, b):
        return self.blocks[b][-1]

    def live_blocks(self):
        """blocks from which a normal end (return, or an endless loop) can be
        reached: the others only lead to a noreturn call"""
        if self._live is None:
            dead = set()
            for b in self.order:
                if self.blocks[b][-1].op in ('unreachable',):
                    dead.add(b)
            ch = True
            while ch:
                ch = False
                for b in self.order:
                    if b not in dead and self.succ[b] and all(s in dead for s in self.succ[b]):
                        dead.add(b); ch = True
            # landing pads and resumes are exceptional exits, not normal ones
            self._live = set(self.order) - dead
        return self._live

    def lsucc(self, b):
        l = self.live_blocks()
        return [s for s in self.succ[b] if s in l]

    def rpo(self):
        if not hasattr(self, '_rpo'):
            seen = set(); out = []
            stack = [(self.entry, iter(self.succ[self.entry]))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succ[s])))
                        break
                else:
                    out.append(b); stack.pop()
            self._rpo = out[::-1]
            self._rpoidx = {b: i for i, b in enumerate(self._rpo)}
        return self._rpo

    def _domtree(self, entry, succ, pred, nodes):
        order = []
        seen = {entry}
        stack = [(entry, iter(succ(entry)))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(succ(s)))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred(b):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        return idom

    def idom(self):
        if self._dom is None:
            self._dom = self._domtree(self.entry, lambda b: self.succ[b], lambda b: self.pred[b], self.order)
        return self._dom

    def dominates(self, a, b):
        d = self.idom()
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            n = d[b]
            if n == b:
                return False
            b = n

    def idominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk:
            return a.idx <= b.idx
        return self.dominates(a.blk, b.blk)

    def loops(self):
        if self._loops is not None:
            return self._loops
        hdrs = {}
        for b in self.rpo():
            for s in self.succ[b]:
                if self.dominates(s, b):
                    hdrs.setdefault(s, []).append(b)
        loops = {}
        for h, ls in hdrs.items():
            l = Loop(h); l.latches = ls
            l.blocks = {h}
            st = [x for x in ls]
            while st:
                x = st.pop()
                if x in l.blocks:
                    continue
                l.blocks.add(x)
                st.extend(p for p in self.pred[x])
            loops[h] = l
        for l in loops.values():
            best = None
            for m in loops.values():
                if m is not l and l.header in m.blocks and l.blocks <= m.blocks:
                    if best is None or len(m.blocks) < len(best.blocks):
                        best = m
            l.parent = best
            if best:
                best.children.append(l)
            for b in l.blocks:
                for s in self.succ[b]:
                    if s not in l.blocks:
                        l.exits.append((b, s))
        self._loops = loops
        self._loopof = {}
        for b in self.order:
            best = None
            for l in loops.values():
                if b in l.blocks and (best is None or len(l.blocks) < len(best.blocks)):
                    best = l
            self._loopof[b] = best
        return loops

    def loop_of(self, b):
        self.loops()
        return self._loopof[b]

    def loop_chain(self, b):
        """innermost first"""
        l = self.loop_of(b); out = []
        while l:
            out.append(l); l = l.parent
        return out

    def reach(self, starts, avoid=(), live=True):
        """blocks reachable from the given blocks, without entering avoid"""
        seen = set(); st = [s for s in starts if s not in avoid]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in (self.lsucc(b) if live else self.succ[b]):
                if s not in avoid and s not in seen:
                    st.append(s)
        return seen

    # --------------------------------------------------------------- terms
    def term(self, op):
        """canonical term of an operand"""
        k = op[0]
        if k == 'v':
            return self.vterm(op[1])
        if k == 'c':
            return C(op[1])
        if k == 'n':
            return NULL
        if k == 'g':
            return ('g', op[1])
        if k == 'f':
            return ('f', op[1])
        if k == 'gep':
            return self.gepterm(op[1])
        if k == 'ce':
            if op[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'sext', 'trunc', 'addrspacecast'):
                return self.term(op[2][0])
            if op[1] == 'add':
                return add(self.term(op[2][0]), self.term(op[2][1]))
            if op[1] == 'sub':
                return sub(self.term(op[2][0]), self.term(op[2][1]))
            return ('k', repr(op))
        if k in ('u', 'agg', 'fp', 'k', 'm', 'asm'):
            return ('u', k)
        return ('k', repr(op))

    def gepterm(self, g):
        base = self.term(g['base'])
        sty = g['srcty']
        if sty.startswith('%') and (g['off'] or g['path']):
            n = sty[1:].strip('"')
            for p in ('struct.', 'class.', 'union.'):
                if n.startswith(p):
                    n = n[len(p):]
            self._geptypes.setdefault(base, set()).add(n)
        t = lin(g['off'], [(base, 1)] + [(self.term(o), sc) for sc, o in g['var']])
        return t

    def vterm(self, vid):
        t = self._terms.get(vid)
        if t is not None:
            return t
        if vid in self.argids:
            t = ('arg', self.argids[vid])
            self._terms[vid] = t
            return t
        ins = self.ins[vid]
        if vid in self._inprog:
            return ('i', vid)
        self._inprog.add(vid)
        try:
            t = self._build(ins)
        finally:
            self._inprog.discard(vid)
        self._terms[vid] = t
        if vid in self.vars:
            for n, ty in self.vars[vid]:
                self._termtypes.setdefault(t, set()).add(ty)
        return t

    def _build(self, ins):
        op = ins.op
        if op == 'phi':
            return self._phi(ins)
        if op == 'alloca':
            return ('al', ins.id)
        if op == 'load':
            a = self.term(ins.ops[0])
            # a load through a phi of addresses: a list cursor
            o = ins.ops[0]
            if o[0] == 'v' and o[1] in self.ins and self.ins[o[1]].op == 'phi':
                self.vterm(o[1])
                inf = self.curinfo.get(('cur', o[1]))
                if inf and inf['kind'] == 'pending' and self.classify_addr_phi(self.ins[o[1]], ins):
                    return ('cur', ins.id)
            return ('ld', a, ins.d['sz'])
        if op in ('getelementptr',):
            return self.gepterm(ins.d['gep'])
        if op in ('call', 'invoke'):
            c = ins.callee()
            if c and (c.startswith('llvm.threadlocal.address')):
                return self.term(ins.ops[0])
            if c and c.startswith('llvm.expect'):
                return self.term(ins.ops[0])
            if c and (c.startswith('llvm.umax') or c.startswith('llvm.umin') or c.startswith('llvm.smax') or c.startswith('llvm.smin')):
                x, y = sorted((self.term(ins.ops[0]), self.term(ins.ops[1])), key=repr)
                return ('op', c[5:9], x, y)
            return ('call', ins.id, c or '?')
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'sext', 'freeze', 'addrspacecast'):
            if op in ('zext', 'sext') and self.is_bool(ins.ops[0]):
                c = ('bool', self.cond(ins.ops[0]))
                return lin(0, [(c, -1)]) if op == 'sext' else c
            return self.term(ins.ops[0])
        if op == 'trunc':
            t = self.term(ins.ops[0])
            w = ins.d.get('w', 64)
            return mk_and(t, (1 << w) - 1)
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'urem', 'udiv', 'srem', 'sdiv'):
            if ins.d.get('w') == 1:
                return ('bool', self.cond(['v', ins.id]))
            a = self.term(ins.ops[0]); b = self.term(ins.ops[1])
            if op == 'add':
                return add(a, b)
            if op == 'sub':
                return sub(a, b)
            if op == 'mul':
                if b[0] == 'c':
                    return lin(0, [(a, b[1])])
                if a[0] == 'c':
                    return lin(0, [(b, a[1])])
                x, y = sorted((a, b), key=repr)
                return ('op', 'mul', x, y)
            if op == 'shl':
                if b[0] == 'c' and 0 <= b[1] < 64:
                    return lin(0, [(a, 1 << b[1])])
                return ('op', 'shl', a, b)
            if op == 'lshr' or (op == 'ashr' and ins.d.get('w') == 64):
                if b[0] == 'c':
                    return mk_lshr(a, b[1])
                return ('op', op, a, b)
            if op == 'and':
                if b[0] == 'c':
                    return mk_and(a, b[1])
                if a[0] == 'c':
                    return mk_and(b, a[1])
                x, y = sorted((a, b), key=repr)
                return ('op', 'and', x, y)
            if op == 'urem' and b[0] == 'c' and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                return mk_and(a, b[1] - 1)
            if op == 'udiv' and b[0] == 'c' and b[1] > 0 and b[1] & (b[1] - 1) == 0:
                return mk_lshr(a, b[1].bit_length() - 1)
            if op in ('or', 'xor'):
                x, y = sorted((a, b), key=repr)
                if op == 'or' and (x[0] == 'c' and y[0] != 'c'):
                    x, y = y, x
                return ('op', op, x, y)
            return ('op', op, a, b)
        if op == 'sdiv' and False:
            pass
        if op == 'select':
            if ins.d.get('w') == 1:
                return ('bool', self.cond(['v', ins.id]))
            a = self.term(ins.ops[1]); b = self.term(ins.ops[2])
            if a == b:
                return a
            return ('sel', self.cond(ins.ops[0]), a, b)
        if op == 'icmp':
            return ('bool', self.cond(['v', ins.id]))
        if op == 'extractvalue':
            return ('i', ins.id)
        return ('i', ins.id)

    def is_bool(self, op):
        return op[0] == 'v' and op[1] in self.ins and self.ins[op[1]].d.get('w') == 1

    def _phi(self, ins):
        l = self.loops().get(ins.blk)
        key = ('cur', ins.id)
        if l is None:
            ts = []
            self._inprog.discard(ins.id)   # no cycle through a non-header phi except via header phis
            self._terms[ins.id] = ('phi', ins.id)
            for o, b in ins.d['inc']:
                ts.append(self.term(o))
            del self._terms[ins.id]
            s = set(t for t in ts if t != ('phi', ins.id))
            if len(s) == 1:
                return ts[0]
            return ('phi', ins.id)
        # loop header
        self._terms[ins.id] = key
        self.curinfo[key] = {'kind': 'pending', 'loop': l, 'phi': ins}
        out = [o for o, b in ins.d['inc'] if b not in l.blocks]
        inn = [o for o, b in ins.d['inc'] if b in l.blocks]
        return key

    def cursor(self, key):
        """classify a loop-header phi. Returns dict with kind:
        list: follows a field: next = load(cur + k);  init
        ind: next = cur + step; init
        other"""
        inf = self.curinfo.get(key)
        if inf is None:
            if key[0] == 'cur' and key[1] in self.ins:
                self.vterm(key[1])
                inf = self.curinfo.get(key)
        if inf is None:
            return None
        if inf['kind'] != 'pending':
            return inf
        ins = inf['phi']; l = inf['loop']
        inf['kind'] = 'other'
        init = [self.term(o) for o, b in ins.d['inc'] if b not in l.blocks]
        nxt = [self.term(o) for o, b in ins.d['inc'] if b in l.blocks]
        nxt = self.expand_phis(nxt, l, key)
        inf['init'] = init[0] if len(set(init)) == 1 else None
        inf['nexts'] = nxt
        s = set(nxt)
        if len(s) == 1:
            n = next(iter(s))
            if n[0] == 'ld':
                c, p = parts_of(n[1])
                if p == {key: 1}:
                    inf['kind'] = 'list'; inf['next'] = c
                    return inf
            c, p = parts_of(n)
            if p == {key: 1}:
                inf['kind'] = 'ind'; inf['step'] = c
                return inf
        inf['kind'] = 'other'
        return inf

    def expand_phis(self, ts, l, key=None):
        """expand in-loop non-header phis to their possible values"""
        out = []; seen = set()
        st = list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t[0] == 'phi' and self.ins[t[1]].blk in l.blocks:
                for o, b in self.ins[t[1]].d['inc']:
                    st.append(self.term(o))
            else:
                out.append(t)
        return out

    def classify_addr_phi(self, ph, load):
        """phi{&head, &cur->next} whose load is the cursor itself"""
        l = self.loops().get(ph.blk)
        if l is None or load.blk not in l.blocks:
            return False
        lk = ('cur', load.id)
        pk = ('cur', ph.id)
        inn = [o for o, b in ph.d['inc'] if b in l.blocks]
        out = [o for o, b in ph.d['inc'] if b not in l.blocks]
        self._terms[load.id] = lk
        nx = self.expand_phis([self.term(o) for o in inn], l)
        ks = set()
        for n in nx:
            c, p = parts_of(n)
            if p != {lk: 1}:
                ks = None
                break
            ks.add(c)
        if ks is None or len(ks) != 1 or len(out) != 1:
            del self._terms[load.id]
            # terms built meanwhile may mention lk: drop them
            for v in [v for v, t in self._terms.items() if lk in subterms(t)]:
                del self._terms[v]
            return False
        k = next(iter(ks))
        inita = self.term(out[0])
        self.curinfo[lk] = {'kind': 'list', 'loop': l, 'phi': ph, 'load': load, 'next': k,
                            'init': ('ld', inita, 8), 'inita': inita, 'nexts': [('ld', lin(k, {lk: 1}), 8)]}
        self.curinfo[pk] = {'kind': 'addrphi', 'loop': l, 'phi': ph, 'of': lk, 'init': inita, 'nexts': nx}
        return True

    # ------------------------------------------------------------- types
    def ptypes(self, t):
        """candidate names of the structures the term may point to"""
        cache = self.__dict__.setdefault('_pt', {})
        if t in cache:
            return cache[t]
        cache[t] = set()
        out = set(self._geptypes.get(t, ()))
        m = self.mod

        def addptr(tid):
            p = m.pointee(tid)
            n = m.tname(p) if p is not None else None
            if n:
                out.add(n)

        for tid in self._termtypes.get(t, ()):
            if t[0] == 'al':
                n = m.tname(tid)
                if n: out.add(n)
            else:
                addptr(tid)
        k = t[0]
        if k == 'arg':
            i = t[1]
            if i + 1 < len(self.sig):
                addptr(self.sig[i + 1])
        elif k == 'g':
            g = m.globals.get(t[1])
            if g and g.get('t', -1) >= 0:
                n = m.tname(g['t'])
                if n: out.add(n)
        elif k == 'al':
            for n, tid in self.vars.get(t[1], ()):
                nm = m.tname(tid)
                if nm: out.add(nm)
            aty = self.ins[t[1]].d.get('aty', '')
            if aty.startswith('%'):
                n = aty[1:].strip('"')
                for p in ('struct.', 'class.', 'union.'):
                    if n.startswith(p): n = n[len(p):]
                out.add(n)
        elif k == 'ld':
            for tid in self.objtypes(t[1]):
                addptr(tid)
        elif k == 'and':
            if t[2] > (1 << 63) and ((~t[2]) & M64) >= 0xfff:
                out.add('GGGGC_Pool')
            else:
                out |= self.ptypes(t[1])
        elif k == 'op' and t[1] == 'or':
            out |= self.ptypes(t[2])
        elif k == 'cur':
            inf = self.cursor(t)
            if inf:
                if inf.get('init') is not None:
                    out |= self.ptypes(inf['init'])
                for n in inf.get('nexts', ()):
                    if n != t:
                        out |= self.ptypes(n)
        elif k == 'phi':
            for o, b in self.ins[t[1]].d['inc']:
                out |= self.ptypes(self.term(o))
        elif k == 'sel':
            out |= self.ptypes(t[2]) | self.ptypes(t[3])
        elif k == 'call':
            c = t[2]
            sig = None
            if c in m.funcs: sig = m.funcs[c].sig
            elif c in m.decls: sig = m.decls[c]['sig']
            if sig: addptr(sig[0])
        elif k == 'lin':
            for tid in self.objtypes(t):
                n = m.tname(tid)
                if n: out.add(n)
        cache[t] = out
        return out

    def objtypes(self, addr):
        """candidate types (ids) of the object at an address"""
        m = self.mod
        out = set()
        if addr[0] == 'g':
            g = m.globals.get(addr[1])
            if g and g.get('t', -1) >= 0:
                out.add(g['t'])
                # arrays and structures: also the first element
                s = m.strip(g['t'])
                if m.types[s]['k'] == 'array':
                    out.add(m.types[s]['to'])
        if addr[0] == 'al':
            for n, tid in self.vars.get(addr[1], ()):
                out.add(tid)
        if addr[0] == 'arg':
            i = addr[1]
            if i + 1 < len(self.sig):
                p = m.pointee(self.sig[i + 1])
                if p is not None: out.add(p)
        for tid in self._termtypes.get(addr, ()):
            if addr[0] != 'al':
                p = m.pointee(tid)
                if p is not None: out.add(p)
        c, p = parts_of(addr)
        for base, k in p.items():
            if k != 1:
                continue
            if base[0] == 'g' and base != addr:
                g = m.globals.get(base[1])
                if g and g.get('t', -1) >= 0:
                    s = m.strip(g['t'])
                    if m.types[s]['k'] == 'array':
                        out.add(m.types[s]['to'])
            for sn in self.ptypes(base):
                for n, o, sz, tid in m.fields(sn):
                    st = m.strip(tid)
                    if st is not None and st >= 0 and m.types[st]['k'] == 'array':
                        es = m.types[m.strip(m.types[st]['to'])]['bits'] // 8 if m.strip(m.types[st]['to']) >= 0 else 0
                        if es and c >= o and (len(p) > 1 or c > o) and (c - o) % es == 0:
                            # an element
                            if len(p) == 1 and c >= o + max(sz, es):
                                continue
                            out.add(m.types[st]['to'])
                    if len(p) == 1 and o == c:
                        out.add(tid)
        return out

    def asfield(self, addr, struct, field, strict=True):
        """the X such that addr == &X->field with X a struct*, or None"""
        o = self.mod.off(struct, field)
        if o is None:
            return None
        c, p = parts_of(addr)
        base = lin(c - o, p)
        if base[0] == 'c':
            return None
        if base[0] == 'lin':
            # pools' addresses may themselves be sums; other sums are no objects
            pass
        ts = self.ptypes(base)
        if struct in ts:
            return base
        if not strict and not ts:
            return base
        if struct == 'GGGGC_Header' and any(self.mod.is_gc_struct(x) for x in ts):
            return base
        return None

    def aselem(self, addr, struct, field):
        """(X, index term) such that addr == &X->field[index], or None"""
        m = self.mod
        o = m.off(struct, field)
        if o is None:
            return None
        esz = None; fsz = 0
        for n, oo, sz, tid in m.fields(struct):
            if n == field:
                st = m.types[m.strip(tid)]
                fsz = m.fsize(struct, field) or 0
                if st['k'] == 'array':
                    esz = m.types[m.strip(st['to'])]['bits'] // 8
        if not esz:
            return None
        c, p = parts_of(addr)
        for b, k in p.items():
            if k == 1 and struct in self.ptypes(b):
                rest = dict(p); del rest[b]
                if any(kk % esz for kk in rest.values()) or (c - o) % esz:
                    continue
                if not rest and not (0 <= c - o < fsz) and fsz > esz:
                    continue
                return b, lin((c - o) // esz, {u: kk // esz for u, kk in rest.items()})
        return None

    # --------------------------------------------------------- conditions
    def cond(self, op):
        """BDD of an i1 operand"""
        B = self.bdd
        if op[0] == 'c':
            return B.true if op[1] else B.false
        if op[0] != 'v':
            return B.var(('u', repr(op)))
        if op[1] in self.argids:
            return B.not_(B.var(('eq0', ('arg', self.argids[op[1]]))))
        cache = self.__dict__.setdefault('_conds', {})
        if op[1] in cache:
            return cache[op[1]]
        ins = self.ins[op[1]]
        r = self._cond(ins)
        cache[op[1]] = r
        return r

    def _cond(self, ins):
        B = self.bdd
        if ins.op == 'icmp':
            return self.cmp(ins.d['pred'], self.term(ins.ops[0]), self.term(ins.ops[1]), ins)
        if ins.op == 'xor' and ins.d.get('w') == 1:
            a, b = self.cond(ins.ops[0]), self.cond(ins.ops[1])
            return B.ite(a, B.not_(b), b)
        if ins.op == 'and' and ins.d.get('w') == 1:
            return B.and_(self.cond(ins.ops[0]), self.cond(ins.ops[1]))
        if ins.op == 'or' and ins.d.get('w') == 1:
            return B.or_(self.cond(ins.ops[0]), self.cond(ins.ops[1]))
        if ins.op == 'select' and ins.d.get('w') == 1:
            return B.ite(self.cond(ins.ops[0]), self.cond(ins.ops[1]), self.cond(ins.ops[2]))
        if ins.op == 'freeze':
            return self.cond(ins.ops[0])
        if ins.op == 'trunc':
            t = mk_and(self.term(ins.ops[0]), 1)
            return B.not_(B.var(('eq0', t)))
        return B.var(('b', ins.id))

    def cmp(self, pred, a, b, ins=None):
        B = self.bdd
        if pred in ('ne',):
            return B.not_(self.cmp('eq', a, b))
        if pred in ('ugt', 'sgt'):
            return self.cmp(pred[0] + 'lt', b, a)
        if pred in ('uge', 'sge'):
            return B.not_(self.cmp(pred[0] + 'lt', a, b))
        if pred in ('ule', 'sle'):
            return B.not_(self.cmp(pred[0] + 'lt', b, a))
        if pred == 'eq':
            if a == b:
                return B.true
            if a[0] == 'c':
                a, b = b, a
            if b[0] == 'c':
                if a[0] == 'c':
                    return B.true if a[1] == b[1] else B.false
                if a[0] == 'bool':
                    return B.not_(a[1]) if b[1] == 0 else a[1]
                if a[0] == 'g' or a[0] == 'al' or a[0] == 'f':
                    if b[1] == 0:
                        return B.false
                # move constants to one side
                c, p = parts_of(a)
                if a[0] == 'lin':
                    if len(p) == 1:
                        (t, k), = p.items()
                        if k == 1:
                            return self.cmp('eq', t, C(b[1] - c))
                        if k == -1:
                            return self.cmp('eq', t, C(c - b[1]))
                    # x - y + c == k
                    if len(p) == 2 and sorted(p.values()) == [-1, 1] and b[1] == c:
                        x = [t for t in p if p[t] == 1][0]; y = [t for t in p if p[t] == -1][0]
                        return self.cmp('eq', x, y)
                if a[0] == 'and' and a[2] & (a[2] - 1) == 0 and (b[1] & M64) == a[2]:
                    return B.not_(B.var(('eq0', a)))
                if b[1] == 0:
                    return B.var(('eq0', a))
                return B.var(('eq', a, b))
            # remove what both sides have in common
            d = sub(a, b)
            if d == NULL:
                return B.true
            if d[0] == 'c':
                return B.false
            x, y = sorted((a, b), key=repr)
            return B.var(('eq', x, y))
        if pred == 'ult':
            if a == b:
                return B.false
            if b == C(1):
                return self.cmp('eq', a, NULL)
            if b == NULL:
                return B.false
            if a == NULL:
                return B.not_(self.cmp('eq', b, NULL))
            return B.var(('ult', a, b))
        if pred == 'slt':
            if a == b:
                return B.false
            return B.var(('slt', a, b))
        return B.var(('cmp', pred, a, b))

    def edge_cond(self, a, b):
        """condition of taking the edge a->b, as a BDD, with edges to dead
        (noreturn) code regarded as never taken"""
        B = self.bdd
        t = self.blocks[a][-1]
        live = self.lsucc(a)
        if b not in live:
            return B.false
        if len(live) == 1:
            return B.true
        if t.op == 'br' and len(t.ops) == 3:
            c = self.cond(t.ops[0])
            s = t.d['succ']
            if s[0] == b:
                return c
            return B.not_(c)
        if t.op == 'switch':
            v = self.term(t.ops[0])
            r = B.false
            alls = B.false
            for cv, cb in t.d['cases']:
                e = self.cmp('eq', v, C(cv))
                alls = B.or_(alls, e)
                if cb == b:
                    r = B.or_(r, e)
            if t.d['default'] == b:
                r = B.or_(r, B.not_(alls))
            return r
        return B.var(('edge', a, b))

    def region_conds(self, loop):
        """conditions under which each block directly in the loop's body (or
        the function's, for None) is reached within one iteration; inner loops
        count as one node. Returns {block: cond}; for blocks in inner loops,
        the condition of entering the outermost inner loop containing them."""
        cache = self.__dict__.setdefault('_rc', {})
        key = loop.header if loop else None
        if key in cache:
            return cache[key]
        B = self.bdd
        blocks = loop.blocks if loop else set(self.order)
        self.loops()
        # map block -> node (itself or the header of the child loop)
        node = {}
        kids = loop.children if loop else [l for l in self.loops().values() if l.parent is None]
        for b in blocks:
            node[b] = b
        for k in kids:
            for b in k.blocks:
                node[b] = k.header
        kid = {k.header: k for k in kids}
        entry = loop.header if loop else self.entry
        entry = node[entry]
        # edges between nodes
        edges = {}
        live = self.live_blocks()
        for n in set(node.values()):
            es = []
            if n in kid:
                k = kid[n]
                exits = [(a, b) for a, b in k.exits if b in live]
                tgts = []
                for a, b in exits:
                    if b in blocks and not (loop and b == loop.header):
                        if b not in tgts: tgts.append(b)
                    else:
                        if ('out', b) not in tgts: tgts.append(('out', b))
                rest = B.true
                for i, tg in enumerate(tgts):
                    if i == len(tgts) - 1:
                        c = rest
                    else:
                        v = B.var(('exit', k.header, tg if isinstance(tg, int) else tg[1]))
                        c = B.and_(rest, v)
                        rest = B.and_(rest, B.not_(v))
                    if isinstance(tg, int):
                        es.append((node[tg], c))
            else:
                for s in self.lsucc(n):
                    if s in blocks and not (loop and s == loop.header):
                        es.append((node[s], self.edge_cond(n, s)))
            edges[n] = es
        # topological order
        indeg = {n: 0 for n in edges}
        reachn = set(); st = [entry]
        while st:
            x = st.pop()
            if x in reachn: continue
            reachn.add(x)
            st.extend(y for y, _ in edges[x])
        for n in reachn:
            for y, _ in edges[n]:
                indeg[y] += 1
        conds = {n: B.false for n in edges}
        conds[entry] = B.true
        st = [n for n in reachn if indeg[n] == 0]
        done = set()
        while st:
            x = st.pop()
            done.add(x)
            for y, c in edges[x]:
                conds[y] = B.or_(conds[y], B.and_(conds[x], c))
                indeg[y] -= 1
                if indeg[y] == 0:
                    st.append(y)
        if reachn - done:
            # irreducible: be conservative
            for n in reachn - done:
                conds[n] = B.var(('irr', n))
        out = {b: conds[node[b]] for b in blocks if node[b] in conds}
        cache[key] = out
        return out

    def chain_conds(self, blk):
        """[(loop, cond)] from outermost to innermost: for each loop around
        the block, the condition within one of its iterations of reaching the
        next level; first element is (None, cond) for the function body"""
        ch = self.loop_chain(blk)[::-1]
        out = [(None, self.region_conds(None)[blk])]
        for l in ch:
            out.append((l, self.region_conds(l)[blk]))
        return out

    # --------------------------------------------------------- iteration
    def exit_info(self, loop):
        """for each live exit edge: (from, to, cond)"""
        live = self.live_blocks()
        return [(a, b, self.edge_cond(a, b)) for a, b in loop.exits if b in live]

    def preheader(self, loop):
        ps = [p for p in self.pred[loop.header] if p not in loop.blocks]
        return ps[0] if len(ps) == 1 else None

    def header_cursors(self, loop):
        out = []
        for i in self.blocks[loop.header]:
            if i.op != 'phi':
                break
            k = self.vterm(i.id)
            out.append(k)
        for k, inf in list(self.curinfo.items()):
            if inf['loop'] is loop and k not in out:
                out.append(k)
        # force classification of address phis
        for i in self.blocks[loop.header]:
            if i.op == 'load':
                t = self.vterm(i.id)
                if t[0] == 'cur' and t not in out:
                    out.append(t)
        return [k for k in out if k[0] == 'cur']

    def list_walks(self, loop):
        """list cursors of a loop with what they cover: dicts with cur, init,
        next, complete (every element up to the null end is visited)"""
        B = self.bdd
        res = []
        for k in self.header_cursors(loop):
            inf = self.cursor(k)
            if not inf or inf['kind'] != 'list':
                continue
            isnull = self.cmp('eq', k, NULL)
            nxt = inf['nexts'][0]
            nextnull = self.cmp('eq', nxt, NULL)
            complete = True
            rotated = False
            exits = self.exit_info(loop)
            if not exits:
                complete = False
            for a, b, c in exits:
                if B.implies(c, isnull) and c != B.false:
                    continue
                if B.implies(c, nextnull):
                    rotated = True
                    continue
                complete = False
            res.append({'cur': k, 'init': inf['init'], 'next': inf['next'], 'complete': complete,
                        'rotated': rotated, 'loop': loop})
        return res

    def ind_walks(self, loop):
        """induction variables (cur, init, step) with the exit tests on them:
        tests is a list of (exiting block, K): the loop is left there exactly
        when the cursor has reached K. complete: there is no other way out"""
        res = []
        for k in self.header_cursors(loop):
            inf = self.cursor(k)
            if not inf or inf['kind'] != 'ind' or inf['init'] is None or inf['step'] == 0:
                continue
            step = inf['step']
            complete = True; tests = []
            for a, b, c in self.exit_info(loop):
                K = self.exit_bound(c, k, step)
                if K is None:
                    complete = False
                    continue
                tests.append((a, K))
            if not tests:
                complete = False
            res.append({'cur': k, 'init': inf['init'], 'step': step, 'tests': tests,
                        'complete': complete, 'loop': loop})
        return res

    def exit_bound(self, c, k, step):
        """c is an exit condition. If it says exactly that the cursor k has
        reached (going by step) the value K, return K"""
        B = self.bdd
        if c <= 1:
            return None
        var, hi, lo = B.node(c)
        if (hi, lo) not in ((B.true, B.false), (B.false, B.true)):
            return None
        pos = hi == B.true     # exit when atom true
        atom = B.atom(var)
        if atom[0] == 'eq0':
            rel, a, b = 'eq', atom[1], NULL
        elif atom[0] in ('eq', 'ult', 'slt'):
            rel, a, b = atom[0], atom[1], atom[2]
        else:
            return None
        d = sub(a, b)
        cc, p = parts_of(d)
        if k not in p or abs(p[k]) != 1:
            return None
        sign = p[k]
        rest = dict(p); del rest[k]
        if any(k in list(subterms(t)) for t in rest):
            return None
        # a - b = sign*k + rest + cc, zero at:
        K = lin(-sign * cc, {t: -sign * v for t, v in rest.items()})
        if rel == 'eq':
            return K if pos else None
        if pos:          # leaves when a < b
            if sign == 1 and step == -1:
                return add(K, C(-1))
            if sign == -1 and step == 1:
                return add(K, C(1))
            return None
        if sign == 1:    # goes on while k < K
            return K if step > 0 else None
        return K if step < 0 else None

    def walked(self, w, blk):
        """(first, end) of the cursor values with which the block is reached:
        first inclusive, end exclusive, in the direction of the step; None if
        the loop can be left otherwise"""
        if not w['complete']:
            return None
        ends = set()
        for a, K in w['tests']:
            if a != blk and self.dominates(a, blk):
                ends.add(K)
            else:
                ends.add(add(K, C(w['step'])))
        if len(ends) != 1:
            return None
        return w['init'], next(iter(ends))

    def addr_range(self, addr, blk):
        """if addr is affine in an induction variable of the innermost loop
        around blk, the range of addresses [start, end) and stride visited.
        Returns (start, end, stride, walk) or None"""
        l = self.loop_of(blk)
        if l is None:
            return None
        for w in self.ind_walks(l):
            k = w['cur']
            c, p = parts_of(addr)
            if k not in p:
                continue
            beta = p[k]
            rest = dict(p); del rest[k]
            if any(k in list(subterms(t)) for t in rest):
                continue
            r = self.walked(w, blk)
            if r is None:
                continue
            first, end = r
            alpha = lin(c, rest)
            A = lin(0, [(alpha, 1), (first, beta)])
            E = lin(0, [(alpha, 1), (end, beta)])
            stride = beta * w['step']
            if stride < 0:
                # visited from A down to (not including) E
                A, E = add(E, C(-stride)), add(A, C(-stride))
                stride = -stride
            return A, E, stride, w
        return None


def show(t, f=None):
    """a readable form of a term"""
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == 'c':
        return str(t[1]) if abs(t[1]) < 4096 else hex(t[1] & M64)
    if k == 'arg':
        if f is not None:
            for a in f.args:
                if f.argids[a['id']] == t[1]:
                    return f.argname[a['id']]
        return 'arg%d' % t[1]
    if k == 'g':
        return '&' + t[1]
    if k == 'f':
        return t[1]
    if k == 'al':
        if f is not None and t[1] in f.vars:
            return '&' + f.vars[t[1]][0][0]
        return '&local%d' % t[1]
    if k == 'ld':
        a = t[1]
        if a[0] == 'g':
            return a[1]
        if f is not None and a[0] == 'lin':
            for b, kk in a[2]:
                if kk == 1 and len(a[2]) == 1:
                    for s in f.ptypes(b):
                        for n, o, sz, ty in f.mod.fields(s):
                            if o == a[1]:
                                return '%s->%s' % (show(b, f), n)
        return '*(%s)' % show(a, f)
    if k == 'lin':
        s = ' + '.join(('%s*%s' % (c, show(u, f)) if c != 1 else show(u, f)) for u, c in t[2])
        if t[1]:
            s += ' + %d' % t[1]
        return '(' + s + ')'
    if k == 'and':
        return '(%s & %s)' % (show(t[1], f), hex(t[2]))
    if k == 'lshr':
        return '(%s >> %d)' % (show(t[1], f), t[2])
    if k == 'op':
        return '(%s %s %s)' % (show(t[2], f), t[1], show(t[3], f))
    if k == 'cur':
        if f is not None:
            vs = f.vars.get(t[1])
            if vs:
                return vs[0][0]
        return 'cursor%d' % t[1]
    if k == 'phi':
        if f is not None and t[1] in f.vars:
            return f.vars[t[1]][0][0]
        return 'merge%d' % t[1]
    if k == 'call':
        return '%s(...)' % t[2]
    return str(t)
