"""An abstract interpreter over the IR with symbolic memory and linked-list
shapes. No code is run: values are terms over symbolic objects, every branch
which the terms do not decide is followed both ways, lists of unknown length
are possibly-empty segments which are unfolded only where they are looked at,
and states which agree on everything live are merged, so the exploration is
finite and covers all inputs of the given shape.

Values: terms of ir.py over the atoms
 ('o', name)        an object (distinct from every other object)
 ('n', k)           a list node unfolded from a segment (an object too)
 ('al', id) ('g', name) ('f', name)
 ('s', ...)         an unknown value; ('s', ..., 'gc') when it is a reference
 ('seg', k)         address of the first node of a segment, or of what follows
 ('any', k)         a value which may differ at every look
 ('stale', v)       a reference to an object which may have been moved
"""
import time
from .core import *
from . import rules_sync
from .rules_sync import collects

OBJ = ('o', 'n', 'al', 'g', 'f')
MAXSTATES = 20000


def sgn64(x):
    return x - (1 << 64) if x >> 63 else x



class Bad(Exception):
    pass


class Give(Exception):
    """the interpretation cannot go on"""


class State:
    __slots__ = ('env', 'mem', 'facts', 'segs', 'orig', 'u', 'zero', 'trace', 'nk')

    def __init__(self):
        self.env = {}; self.mem = {}; self.facts = {}; self.segs = {}; self.orig = {}
        self.u = {}; self.zero = set(); self.trace = (); self.nk = 0

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env); s.mem = dict(self.mem); s.facts = dict(self.facts)
        s.segs = dict(self.segs); s.orig = {k: list(v) for k, v in self.orig.items()}
        s.u = dict(self.u); s.zero = set(self.zero); s.trace = self.trace; s.nk = self.nk
        return s

    def subst(self, mp):
        def go(v):
            return subst2(v, mp)
        self.env = {k: go(v) for k, v in self.env.items()}
        nm = {}
        for k, v in self.mem.items():
            nm[go(k)] = go(v)
        self.mem = nm
        nf = {}
        for at, v in self.facts.items():
            nf[tuple(go(x) if isinstance(x, tuple) else x for x in at)] = v
        self.facts = nf
        self.segs = {k: (v[0], go(v[1])) for k, v in self.segs.items()}
        self.u = {k: go2(v, mp) for k, v in self.u.items()}


def subst2(t, mp):
    if not isinstance(t, tuple):
        return t
    try:
        if t in mp:
            return mp[t]
    except TypeError:
        pass          # something else than a term in it
    if not t:
        return t
    if t[0] == 'lin':
        return lin(t[1], [(subst2(u, mp), k) for u, k in t[2]])
    if t[0] == 'and':
        return mk_and(subst2(t[1], mp), t[2])
    if t[0] == 'lshr':
        return mk_lshr(subst2(t[1], mp), t[2])
    if t[0] in ('c', 'o', 'n', 'al', 'g', 'f', 'seg', 'any'):
        return t
    return tuple(subst2(x, mp) if isinstance(x, tuple) else x for x in t)


def go2(v, mp):
    if isinstance(v, frozenset):
        return frozenset(go2(x, mp) for x in v)
    if isinstance(v, tuple):
        return subst2(v, mp)
    return v


def atoms(t):
    """the atoms of a value"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return
    k = t[0]
    if k == 'c':
        return
    if k == 'lin':
        for u, _ in t[2]:
            yield from atoms(u)
        return
    if k in ('o', 'n', 'al', 'g', 'f', 's', 'seg', 'any', 'len'):
        yield t
        return
    for x in t[1:]:
        if isinstance(x, tuple):
            yield from atoms(x)


def base_of(a):
    """(base atom, offset) of an address with a single base, or None"""
    c, p = parts_of(a)
    if len(p) == 1:
        (t, k), = p.items()
        if k == 1:
            return t, c
    return None


def is_gc(t):
    """does the value refer to a collected object?"""
    c, p = parts_of(t)
    for b, k in p.items():
        if k == 1 and (b[0] in ('n',) or (b[0] == 'o' and b[-1] == 'gc') or (b[0] == 's' and b[-1] == 'gc') or b[0] == 'seg' and b[-1] == 'gc'):
            return b
    return None


class Interp:
    def __init__(self, ctx, f, gcsegs=True):
        self.ctx = ctx; self.f = f; self.m = f.mod
        self.calls = {}          # name -> handler(self, st, i, args) -> [(st, value)]
        self.segnext = {}        # segment label -> offset of next
        self.ends = []           # (state, return value)
        self.bad = {}            # (what) -> (instr, detail)
        self.states = 0
        self.lazy = None         # hook(st, addr, sz, i) -> value or None
        self.onstore = None      # hook(st, i, addr, val)
        self.onload = None
        self.loopheads = {l.header for l in f.loops().values()}
        self.ondead = None
        self.walkdead = False    # follow paths which only end the program, too
        self.entry = f.entry     # where to start
        self.dedupe = True       # (off: everything is determined)
        self.stops = {}          # block -> callback(st): do not go on from there
        self.budget = 60
        self._live = self.liveness()
        self.collecting = None   # hook or default
        self.stop_at_bad = True
        self.maxlen = MAXSTATES
        self.visits = {}; self.last = {}; self.patience = 12
        self.gcsafe = True
        self.barriers = True
        self.PS = ('g', 'ggggc_pointerStack')
        # local variables of more than one word
        self.lencells = set()
        self.aggr = set()
        for i, a, v in stores(f):
            c, p = parts_of(a)
            if c or len(p) > 1:
                self.aggr |= {t for t in p if t[0] == 'al'}

    def arith(self, op, a, b, w):
        return arith(op, a, b, w)

    def report(self, what, i, detail):
        self.bad.setdefault(what, (i, detail))

    # ------------------------------------------------------------ liveness
    def liveness(self):
        f = self.f
        c = f.__dict__.get('_ilive')
        if c:
            return c
        use = {}; deff = {}; phiuse = {}

        def opids(o, out):
            if not isinstance(o, (list, tuple)) or not o:
                if isinstance(o, dict):
                    for v in o.values():
                        opids(v, out)
                return
            if o[0] == 'v' and len(o) > 1 and isinstance(o[1], int):
                out.add(o[1]); return
            for x in o:
                if isinstance(x, (list, tuple, dict)):
                    opids(x, out)
        for b in f.order:
            u = set(); d = set()
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for o, p in i.d['inc']:
                        s = set(); opids(o, s)
                        phiuse.setdefault((p, b), set()).update(s)
                    d.add(i.id); continue
                s = set()
                opids(i.d.get('ops', []), s)
                if 'gep' in i.d:
                    opids([i.d['gep']['base']], s); opids([o for sc, o in i.d['gep']['var']], s)
                if i.d.get('callee'):
                    opids([i.d['callee']], s)
                u |= s - d
                d.add(i.id)
            use[b] = u; deff[b] = d
        live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set()
                for s in f.succ[b]:
                    o |= (live[s] - {i.id for i in f.blocks[s] if i.op == 'phi'}) | phiuse.get((b, s), set())
                n = use[b] | (o - deff[b])
                # phis' uses were subtracted with defs, fine
                if n != live[b]:
                    live[b] = n; ch = True
        for b in f.order:
            live[b] |= {i.id for i in f.blocks[b] if i.op == 'phi'}
        f.__dict__['_ilive'] = live
        return live

    # ------------------------------------------------------------- operands
    def val(self, st, o):
        f = self.f
        k = o[0]
        if k == 'v':
            v = st.env.get(o[1])
            if v is not None:
                return v
            if o[1] in f.argids:
                return ('s', 'arg', f.argids[o[1]])
            return ('any', 'undef%d' % o[1])
        if k == 'c':
            return C(o[1])
        if k == 'n':
            return NULL
        if k in ('g', 'f'):
            return (k, o[1])
        if k == 'gep':
            return self.gep(st, o[1])
        if k == 'ce':
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'zext', 'sext', 'trunc', 'addrspacecast'):
                return self.val(st, o[2][0])
            if o[1] == 'add':
                return add(self.val(st, o[2][0]), self.val(st, o[2][1]))
            if o[1] == 'sub':
                return sub(self.val(st, o[2][0]), self.val(st, o[2][1]))
            if o[1] == 'icmp' and any(x[0] == 'f' and x[1].startswith('_ZTH') for x in o[2]):
                return C(0)     # (initialisation of thread-local variables: none has any)
        return ('any', 'k' + repr(o)[:40])

    def gep(self, st, g):
        return lin(g['off'], [(self.val(st, g['base']), 1)] + [(self.val(st, o), sc) for sc, o in g['var']])

    # ------------------------------------------------------------ segments
    def newseg(self, st, label, end):
        st.nk += 1
        s = ('seg', st.nk, 'gc') if self.segnext[label][1] else ('seg', st.nk)
        st.segs[s] = (label, end)
        return s

    def newnode(self, st, label):
        st.nk += 1
        return ('n', st.nk, 'gc') if self.segnext[label][1] else ('o', 'n%d' % st.nk)

    def unfold(self, st, s):
        """the two cases of a segment: [(state, is empty)]"""
        label, end = st.segs[s]
        e = st.copy()
        del e.segs[s]
        for k, l in e.orig.items():
            e.orig[k] = [x for x in l if x != s]
        e.subst({s: end, ('len', s): C(0)})
        n = st
        node = self.newnode(n, label)
        rest = self.newseg(n, label, end)
        del n.segs[s]
        for k, l in n.orig.items():
            n.orig[k] = [y for x in l for y in ((node, rest) if x == s else (x,))]
        n.subst({s: node, ('len', s): lin(1, {('len', rest): 1})})
        n.mem[add(node, C(self.segnext[label][0]))] = rest
        return [e, n]

    # ---------------------------------------------------------- conditions
    def decide(self, st, c, i=None):
        """[(state, truth)] of a condition value"""
        if c[0] == 'c':
            return [(st, bool(c[1]))]
        if c[0] == 'not':
            return [(s, not b) for s, b in self.decide(st, c[1], i)]
        if c[0] in ('band', 'bor'):
            out = []
            for s, b in self.decide(st, c[1], i):
                if b == (c[0] == 'bor'):
                    out.append((s, b))
                else:
                    # the other operand may have been changed by substitution
                    out.extend(self.decide(s, getattr(s, 'tmp', None) or c[2], i))
            return out
        if c[0] == 'cmp':
            return self.cmp(st, c[1], c[2], c[3], i)
        return self.cmp(st, 'ne', c, NULL, i)

    def cmp(self, st, pred, a, b, i=None):
        if pred == 'ne':
            return [(s, not r) for s, r in self.cmp(st, 'eq', a, b, i)]
        if pred in ('ugt', 'sgt'):
            return self.cmp(st, pred[0] + 'lt', b, a, i)
        if pred in ('uge', 'sge'):
            return [(s, not r) for s, r in self.cmp(st, pred[0] + 'lt', a, b, i)]
        if pred in ('ule', 'sle'):
            return [(s, not r) for s, r in self.cmp(st, pred[0] + 'lt', b, a, i)]
        if a[0] == 'stale' or b[0] == 'stale':
            o = b if a[0] == 'stale' else a
            if o != NULL:
                self.use_stale(a if a[0] == 'stale' else b, i, 'compared')
            if a[0] == 'stale': a = a[1]
            if b[0] == 'stale': b = b[1]
        if pred == 'eq':
            d = sub(a, b)
            if d[0] == 'c':
                return [(st, d[1] == 0)]
            for x in (a, b):
                if x[0] == 'seg':
                    out = []
                    for s in self.unfold(st.copy(), x):
                        label, end = st.segs[x]
                        if x in s.segs:
                            raise Give('segment survives unfolding')
                        # re-evaluate under the substitution
                        emp = not any(k not in st.segs for k in s.segs)
                        mp = {x: end, ('len', x): C(0)} if emp else self.unfold_map(st, s, x)
                        out.extend(self.cmp(s, 'eq', subst2(a, mp), subst2(b, mp), i))
                    return out
            ba, bb = base_of(a), base_of(b)
            if b[0] == 'c' and ba and ba[0][0] in OBJ:
                if b[1] == 0 or ba[1] == 0:
                    return [(st, False)]
            if a[0] == 'c' and bb and bb[0][0] in OBJ:
                if a[1] == 0 or bb[1] == 0:
                    return [(st, False)]
            if ba and bb and ba[0][0] in OBJ and bb[0][0] in OBJ and ba[0] != bb[0]:
                return [(st, False)]
            # fresh objects differ from whatever was there before
            for x, y in ((ba, bb), (bb, ba)):
                if x and y and x[0] in st.u.get('fresh', ()) and y[0][0] == 's':
                    return [(st, False)]
        if any(at[0] == 'any' for v in (a, b) for at in atoms(v)):
            return [(st, True), (st.copy(), False)]
        # canonical form: d (pred) 0 for eq
        if pred == 'eq':
            d = sub(a, b)
            c, p = parts_of(d)
            items = sorted(p.items(), key=repr)
            if items[0][1] < 0:
                d = lin(0, [(d, -1)])
            at = ('eq', d)
            if self.nonzero(st, d):
                return [(st, False)]
        else:
            at = (pred, a, b)
            if a[0] == 'c' and b[0] == 'c':
                return [(st, (a[1] & M64) < (b[1] & M64) if pred == 'ult' else a[1] < b[1])]
            if a == b:
                return [(st, False)]
            if pred == 'ult' and b == C(1):
                return self.cmp(st, 'eq', a, NULL, i)
            if pred == 'ult' and b == NULL:
                return [(st, False)]
            if pred == 'ult' and a == NULL:
                return self.cmp(st, 'ne', b, NULL, i)
            if pred in ('ult', 'slt'):
                r = self.lenless(st, a, b, i)
                if r is not None:
                    return r
            if pred == 'ult' and (pred, b, a) in st.facts and st.facts[(pred, b, a)]:
                return [(st, False)]
        if at in st.facts:
            if st.facts[at]:
                self.gen0(st, at)
            return [(st, st.facts[at])]
        t = st; e = st.copy()
        e.facts[at] = False
        t.facts[at] = True
        self.gen0(t, at)
        if pred == 'eq':
            # an unknown value which equals something is that
            c, p = parts_of(at[1])
            cand = [x for x, k in p.items() if k in (1, -1) and x[0] in ('s', 'len', 'ld', 'op', 'and', 'lshr', 'r', 'div', 'rem')]
            cand.sort(key=lambda x: (x[0] != 's', x[0] != 'len', repr(x)))
            for x in cand:
                k = p[x]
                rest = dict(p); del rest[x]
                v = lin(-c * k, [(u, -kk * k) for u, kk in rest.items()])
                if x not in set(subterms(v)) and x[0] in ('s', 'len'):
                    t.facts.pop(at, None)
                    t.subst({x: v})
                    t.u['last'] = ({x: v},)
                    break
        return [(t, True), (e, False)]

    def lenless(self, st, a, b, i):
        """comparing lengths: they are not negative and do not wrap"""
        c, p = parts_of(sub(b, a))
        if not p or not all(x[0] == 'len' for x in p):
            return None
        if c > 0 and all(k > 0 for k in p.values()):
            return [(st, True)]
        if c <= 0 and all(k < 0 for k in p.values()):
            return [(st, False)]
        for x in p:
            if x[1] in st.segs:
                out = []
                for s in self.unfold(st.copy(), x[1]):
                    emp = not any(k not in st.segs for k in s.segs)
                    mp = {x[1]: st.segs[x[1]][1], x: C(0)} if emp else self.unfold_map(st, s, x[1])
                    out.extend(self.cmp(s, 'ult', subst2(a, mp), subst2(b, mp), i))
                return out
        return None

    def gen0(self, st, at):
        """on learning that a generation is the youngest: no mark is needed"""
        if at[0] == 'eq' and at[1][0] == 'ld':
            b = base_of(at[1][1])
            if b and is_pool(b[0]) and b[1] == self.m.off('GGGGC_Pool', 'gen') and base_of(b[0][1]):
                st.u['bar'] = st.u.get('bar', frozenset()) | {base_of(b[0][1])[0]}

    def unfold_map(self, old, new, x):
        label, end = old.segs[x]
        rest = [k for k in new.segs if k not in old.segs][0]
        k = rest[1] - 1
        node = ('n', k, 'gc') if self.segnext[label][1] else ('o', 'n%d' % k)
        return {x: node, ('len', x): lin(1, {('len', rest): 1})}

    def nonzero(self, st, d):
        """is the linear value surely not 0? constants plus lengths"""
        c, p = parts_of(d)
        if c > 0 and all(k > 0 and x[0] in ('len', 'pos') for x, k in p.items()):
            return True
        if c < 0 and all(k < 0 and x[0] in ('len', 'pos') for x, k in p.items()):
            return True
        return False

    # ----------------------------------------------------------- staleness
    def use_stale(self, v, i, how):
        b = v[1]
        self.report('stale ' + nameof(self, b), i, 'a reference (%s) loaded before a possible collection is %s after it' % (nameof(self, b), how))

    def collect(self, st, i):
        """a collection may happen here: everything not in a registered
        variable, a global or an object becomes stale"""
        self.flush(st, i)
        st.u['fresh'] = frozenset()
        st.u['bar'] = frozenset()
        st.u['ep'] = st.u.get('ep', 0) + (0 if st.u.get('noep') else 0)
        if not self.gcsafe:
            return
        reg = self.registered(st, i)
        for k, v in list(st.env.items()):
            if v[0] != 'stale' and is_gc(v):
                st.env[k] = ('stale', v)
        for k, v in list(st.mem.items()):
            if v[0] == 'stale' or not isinstance(v, tuple) or not is_gc(v):
                continue
            b = base_of(k)
            root = b[0] if b else None
            if root is not None and root[0] == 'al' and k not in reg:
                st.mem[k] = ('stale', v)
            elif (k in st.u.get('written', ())) and k not in reg and not self.in_heap(k):
                st.mem[k] = ('stale', v)
            elif root is not None and is_gc(root) and root[0] == 'stale':
                st.mem[k] = ('stale', v)
        # what is known of old generations no longer holds
        for at in list(st.facts):
            if any(x[0] == 'any' or (x[0] == 'ld' and is_pool(x[1])) for y in at if isinstance(y, tuple) for x in subterms(y)):
                del st.facts[at]

    def in_heap(self, addr):
        c, p = parts_of(addr)
        return any(k == 1 and is_gc(t) for t, k in p.items())

    def registered(self, st, i=None):
        out = set(st.u.get('perm', ()))
        fr = st.mem.get(self.PS)
        n = 0
        while fr is not None and fr[0] == 'al' and n < 20:
            n += 1
            sz = st.mem.get(add(fr, C(8)))
            if sz is None or sz[0] != 'c':
                self.report('frame size', i, 'a root frame is visible to the collector without a known number of entries')
                break
            for j in range(sz[1]):
                p = st.mem.get(add(fr, C(16 + 8 * j)))
                if p is None:
                    self.report('frame entry', i, 'entry %d of a root frame visible to the collector was never set' % j)
                    continue
                out.add(p)
            fr = st.mem.get(fr)
        return out

    # ------------------------------------------------- stores and the barrier
    def flush(self, st, i):
        """at a point which may collect, or at the end: every reference stored
        into an object must have been remembered"""
        if not self.barriers:
            st.u['stored'] = frozenset()
            return
        for o, w in st.u.get('stored', frozenset()):
            if o not in st.u.get('bar', ()):
                ins = self.f.ins.get(w)
                self.report('barrier ' + nameof(self, o), ins, 'a reference is stored into an object (%s) which may be old, and its card is not marked on every such path' % nameof(self, o))
        st.u['stored'] = frozenset()

    def note_store(self, st, i, a, v):
        b = base_of(a)
        c, p = parts_of(a)
        # a remembered-set mark
        for t, k in p.items():
            if k == 1 and is_pool(t):
                o = t[1]
                ob = base_of(o)
                if ob and i.d.get('sz') == 1:
                    rest = dict(p); del rest[t]
                    off = c
                    ro = self.m.off('GGGGC_Pool', 'remember')
                    if ro is not None and off == ro and v[0] == 'c' and v[1] & 0xff:
                        card = lin(0, rest)
                        cb = self.m.consts.get('GGGGC_CARD_BYTES', 4096)
                        ncards = self.m.consts.get('GGGGC_CARDS_PER_POOL')
                        want = mk_and(mk_lshr(o, cb.bit_length() - 1), ncards - 1)
                        if card == want and ob[1] == 0:
                            st.u['bar'] = st.u.get('bar', frozenset()) | {ob[0]}
                        else:
                            self.report('card', i, 'the card marked is %s, not that of the object' % showv(card))
                return
        objs = [t for t, k in p.items() if k == 1 and is_gc(t)]
        if objs and (is_gc(v) or (v[0] == 's' and i.d.get('vty') == 'ptr')) and v != NULL:
            o = objs[0]
            if o not in st.u.get('fresh', ()):
                st.u['stored'] = st.u.get('stored', frozenset()) | {(o, i.id)}

    # ------------------------------------------------------------ execution
    def load(self, st, i, a, sz):
        if a[0] == 'stale':
            self.use_stale(a, i, 'dereferenced')
            return []
        c, p = parts_of(a)
        for t, k in p.items():
            if t[0] == 'stale' and k == 1:
                self.use_stale(t, i, 'dereferenced')
                return []
        if a[0] == 'c':
            if -4096 < a[1] < 65536:
                self.report('null', i, 'a null reference is dereferenced')
                return []
        for t, k in p.items():
            if t[0] == 'seg' and k == 1:
                out = []
                for s in self.unfold(st.copy(), t):
                    emp = not any(x not in st.segs for x in s.segs)
                    mp = {t: st.segs[t][1], ('len', t): C(0)} if emp else self.unfold_map(st, s, t)
                    out.extend(self.load(s, i, subst2(a, mp), sz))
                return out
        if self.onload:
            r = self.onload(self, st, i, a, sz)
            if r is not None:
                return r
        if a in st.mem:
            return [(st, st.mem[a])]
        v = None
        if self.lazy:
            v = self.lazy(self, st, i, a, sz)
        if v is None:
            v = self.default(st, i, a, sz)
        if v[0] != 'any':
            st.mem[a] = v
        return [(st, v)]

    def default(self, st, i, a, sz):
        b = base_of(a)
        if b and b[0] in st.zero:
            return NULL
        if i.d.get('vol') or a == ('g', 'ggggc_stopTheWorld'):
            return ('any', 'v%d' % i.id)
        if i.d.get('w') and i.d['w'] < 64:
            c, p = parts_of(a)
            if any(is_pool(t) for t in p):
                return ('ld', a, sz)
            return ('s', 'ld', a, sz)
        gc = gcload(self.f, i)
        c, p = parts_of(a)
        if any(is_pool(t) for t in p):
            return ('ld', a, sz)
        if gc:
            return ('s', 'ld', a, 'gc')
        return ('s', 'ld', a, sz)

    def store(self, st, i, a, v):
        if a[0] == 'stale':
            self.use_stale(a, i, 'written through')
            return []
        c, p = parts_of(a)
        for t, k in p.items():
            if t[0] == 'stale' and k == 1:
                self.use_stale(t, i, 'written through')
                return []
            if t[0] == 'seg' and k == 1:
                out = []
                for s in self.unfold(st.copy(), t):
                    emp = not any(x not in st.segs for x in s.segs)
                    mp = {t: st.segs[t][1], ('len', t): C(0)} if emp else self.unfold_map(st, s, t)
                    out.extend(self.store(s, i, subst2(a, mp), subst2(v, mp)))
                return out
        if a[0] == 'c':
            self.report('null', i, 'a null reference is written through')
            return []
        if v[0] == 'stale' and not (base_of(a) and base_of(a)[0][0] == 'al'):
            self.use_stale(v, i, 'stored')
        b = base_of(a)
        if i.d.get('sz', 8) > 8:
            # an aggregate
            for j in range(0, i.d['sz'], 8):
                st.mem[add(a, C(j))] = ('any', 'agg%d' % i.id)
            return [st]
        self.note_store(st, i, a, v)
        if self.onstore:
            r = self.onstore(self, st, i, a, v)
            if r is not None:
                return r
        # other cells of the same base which may be the same one
        if b is None:
            bases = [t for t, k in p.items() if k == 1 and t[0] in ('o', 'n', 's', 'g', 'al')]
            if any(is_pool(t) for t in p):
                return [st]
            for k in list(st.mem):
                kc, kp = parts_of(k)
                if any(t in kp for t in bases):
                    d = sub(k, a)
                    if d[0] != 'c' and not self.nonzero(st, d) and st.facts.get(('eq', d)) is not False:
                        if not self.disjoint(st, k, a):
                            del st.mem[k]
        else:
            for k in list(st.mem):
                if k != a and base_of(k) is None:
                    kc, kp = parts_of(k)
                    if b[0] in kp and not self.disjoint(st, k, a):
                        del st.mem[k]
        if b and b[0][0] == 'g' and self.in_reg_ok(b[0]):
            pass
        if b is None or b[0][0] not in ('al',):
            if not self.in_heap(a):
                st.u['written'] = st.u.get('written', frozenset()) | {a}
        st.mem[a] = v
        return [st]

    def in_reg_ok(self, g):
        return False

    def disjoint(self, st, k, a):
        return False

    def step(self, st, i):
        """[(state)] after the instruction; the terminators are handled in run"""
        f = self.f
        op = i.op
        E = st.env
        if op == 'alloca':
            E[i.id] = ('al', i.id)
            return [st]
        if op == 'load':
            out = []
            for s, v in self.load(st, i, self.val(st, i.ops[0]), i.d['sz']):
                s.env[i.id] = v
                out.append(s)
            return out
        if op == 'store':
            return self.store(st, i, self.val(st, i.ops[1]), self.val(st, i.ops[0]))
        if op == 'getelementptr':
            E[i.id] = unstale(lambda: self.gep(st, i.d['gep']))
            return [st]
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            E[i.id] = self.val(st, i.ops[0])
            return [st]
        if op in ('zext', 'sext'):
            v = self.val(st, i.ops[0])
            if v[0] in ('cmp', 'not', 'band', 'bor'):
                out = []
                for s, b in self.decide(st, v, i):
                    s.env[i.id] = C((1 if op == 'zext' else -1) if b else 0)
                    out.append(s)
                return out
            E[i.id] = v
            return [st]
        if op == 'trunc':
            v = self.val(st, i.ops[0])
            w = i.d.get('w', 64)
            if w == 1:
                E[i.id] = ('cmp', 'ne', self.arith('and', v, C(1), 64), NULL)
            else:
                E[i.id] = self.arith('and', v, C((1 << w) - 1), 64) if v[0] != 'stale' else ('any', 't')
            return [st]
        if op == 'icmp':
            E[i.id] = ('cmp', i.d['pred'], self.val(st, i.ops[0]), self.val(st, i.ops[1]))
            return [st]
        if op == 'select':
            out = []
            for s, b in self.decide(st, self.val(st, i.ops[0]), i):
                s.env[i.id] = self.val(s, i.ops[1] if b else i.ops[2])
                out.append(s)
            return out
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'urem', 'udiv', 'srem', 'sdiv'):
            a = self.val(st, i.ops[0]); b = self.val(st, i.ops[1])
            if i.d.get('w') == 1:
                if op == 'xor' and b == C(1) or b == C(-1):
                    E[i.id] = ('not', a)
                elif op in ('and', 'or'):
                    E[i.id] = ('band' if op == 'and' else 'bor', a, b)
                else:
                    out = []
                    for s, x in self.decide(st, a, i):
                        for s2, y in self.decide(s, self.val(s, i.ops[1]), i):
                            s2.env[i.id] = C(int(x != y))
                            out.append(s2)
                    return out
                return [st]
            E[i.id] = self.arith(op, a, b, i.d.get('w', 64))
            return [st]
        if op in ('call', 'invoke'):
            return self.call(st, i)
        if op in ('fence', 'unreachable'):
            return [st]
        E[i.id] = ('any', 'i%d' % i.id)
        return [st]

    def call(self, st, i):
        f = self.f
        c = i.callee()
        args = [self.val(st, o) for o in i.ops]
        if c and c.startswith('_ZTH'):
            return [st]      # the initialisation hook of a thread-local variable
        if c and c.startswith('llvm.'):
            if c.startswith('llvm.threadlocal.address') or c.startswith('llvm.expect'):
                st.env[i.id] = args[0]
                return [st]
            if c.startswith('llvm.memset.'):
                return self.memset(st, i, args)
            if c.startswith('llvm.memcpy.') or c.startswith('llvm.memmove.'):
                return self.memcpy(st, i, args)
            if c.startswith('llvm.umin') or c.startswith('llvm.umax'):
                out = []
                for s, b in self.cmp(st, 'ult', args[0], args[1], i):
                    s.env[i.id] = self.val(s, i.ops[0 if b == c.startswith('llvm.umin') else 1])
                    out.append(s)
                return out
            st.env[i.id] = ('any', 'c%d' % i.id)
            return [st]
        h = self.calls.get(c) if c else self.calls.get('*')
        if h is not None:
            r = h(self, st, i, args)
            if r is not None:
                out = []
                for s, v in r:
                    if v is not None:
                        s.env[i.id] = v
                    out.append(s)
                return out
        for n, a in enumerate(args):
            if a[0] == 'stale':
                self.use_stale(a, i, 'passed to %s' % (c or 'a function'))
                args[n] = a[1]
        col = collects(self.ctx, f, i)
        if c == 'ggggc_globalize':
            self.globalize(st, i)
        if col:
            self.collect(st, i)
        # what the callee may change
        self.havoc(st, i, args)
        if c in FRESH:
            o = ('o', '%s%d' % (c[6:10], i.id), 'gc')
            for k in list(st.mem):
                if o in set(atoms(k)):
                    del st.mem[k]
            st.u['fresh'] = st.u.get('fresh', frozenset()) | {o}
            st.zero = set(st.zero) | {o}
            v = o
        elif c == 'malloc':
            t = st.copy(); t.env[i.id] = NULL
            v = ('o', 'malloc%d' % i.id)
            st.env[i.id] = v
            for k in list(st.mem):
                if v in set(atoms(k)):
                    del st.mem[k]
            return [t, st]
        else:
            gc = gccall(f, i)
            st.u['nc'] = 0
            v = ('s', 'call', i.id, 'gc') if gc else ('s', 'call', i.id)
            # a second call at the same place is another value
            if uses(st, v):
                v = ('any', 'call%d' % i.id) if not gc else v
        st.env[i.id] = v
        return [st]

    def havoc(self, st, i, args):
        """forget memory a call may change: globals which are not this
        thread's, and what is reachable from arguments"""
        c = i.callee()
        if c in PURE:
            return
        for k in list(st.mem):
            b = base_of(k)
            if b and b[0][0] == 'g' and b[0] != self.PS and k not in st.u.get('keep', ()):
                if k in st.u.get('written', ()) and k in self.registered(st, i):
                    continue
                del st.mem[k]
        for a in args:
            b = base_of(a) if isinstance(a, tuple) else None
            if b and b[0][0] == 'al' and c not in NOTOUCH:
                for k in list(st.mem):
                    kb = base_of(k)
                    if kb and kb[0] == b[0]:
                        st.mem[k] = ('any', 'h%d' % i.id)

    def globalize(self, st, i):
        fr = st.mem.get(self.PS)
        if fr and fr[0] == 'al':
            sz = st.mem.get(add(fr, C(8)))
            if sz and sz[0] == 'c':
                st.u['perm'] = st.u.get('perm', frozenset()) | {st.mem.get(add(fr, C(16 + 8 * j))) for j in range(sz[1])}

    def memset(self, st, i, args):
        a, v, n = args[0], args[1], args[2]
        b = base_of(a)
        if b is None or any(is_pool(t) for t in parts_of(a)[1]):
            return [st]
        for k in list(st.mem):
            kb = base_of(k)
            if kb and kb[0] == b[0] and n[0] == 'c':
                if b[1] <= kb[1] < b[1] + n[1]:
                    st.mem[k] = C(0) if v == C(0) else ('any', 'ms%d' % i.id)
            elif kb and kb[0] == b[0]:
                del st.mem[k]
        if n[0] == 'c' and n[1] <= 512 and v == C(0):
            for j in range(0, n[1], 8):
                st.mem[add(a, C(j))] = NULL
        return [st]

    def memcpy(self, st, i, args):
        d, s, n = args[0], args[1], args[2]
        if d[0] == 'stale' or s[0] == 'stale':
            self.use_stale(d if d[0] == 'stale' else s, i, 'copied')
            return []
        bd = base_of(d)
        if bd is None:
            return [st]
        for k in list(st.mem):
            kb = base_of(k)
            if kb and kb[0] == bd[0] and (n[0] != 'c' or bd[1] <= kb[1] < bd[1] + n[1]):
                del st.mem[k]
        if n[0] == 'c' and n[1] <= 1024:
            for j in range(0, n[1] - 7, 8):
                x = st.mem.get(add(s, C(j)))
                st.mem[add(d, C(j))] = x if x is not None else ('s', 'ld', add(s, C(j)), 8)
        return [st]

    # ----------------------------------------------------------------- run
    # --------------------------------------------- loops that clear or copy
    def idiom(self, h):
        """a loop which does nothing but clear or copy consecutive words:
        (phis, store, (phi, bound operand), exit block)"""
        f = self.f
        c = f.__dict__.setdefault('_idioms', {})
        if h in c:
            return c[h]
        c[h] = None
        l = f.loop_of(h)
        if l is None or l.header != h or len(l.blocks) > 2 or l.children or len(l.latches) != 1:
            return None
        phis = {}; defs = {}
        store = load = cmp = None
        order = [h] + [b for b in l.blocks if b != h]
        for b in order:
            for i in f.blocks[b]:
                defs[i.id] = i
                if i.op == 'phi':
                    phis[i.id] = i
                elif i.op == 'store':
                    if store is not None:
                        return None
                    store = i
                elif i.op == 'load':
                    if load is not None:
                        return None
                    load = i
                elif i.op == 'icmp':
                    if cmp is not None:
                        return None
                    cmp = i
                elif i.op not in ('br', 'getelementptr', 'add', 'shl', 'mul'):
                    return None
        t = f.blocks[h][-1]
        if store is None or cmp is None or t.op != 'br' or len(t.ops) != 3 or t.ops[0] != ['v', cmp.id]:
            return None
        if len(l.exits) != 1 or l.exits[0][0] != h:
            return None
        su = t.d['succ']
        inl = [x in l.blocks for x in su]
        pred = cmp.d.get('pred')
        if inl == [True, False]:
            if pred not in ('ult', 'slt', 'ne'):
                return None
        elif inl == [False, True]:
            if pred not in ('uge', 'sge', 'eq'):
                return None
        else:
            return None
        if cmp.ops[0][0] != 'v' or cmp.ops[0][1] not in phis or cmp.ops[1][0] == 'v' and cmp.ops[1][1] in defs:
            return None
        steps = {}
        for k, i in phis.items():
            nx = [o for o, p in i.d['inc'] if p in l.blocks]
            if len(nx) != 1 or nx[0][0] != 'v' or nx[0][1] not in defs:
                return None
            d = f.term(nx[0]); e = f.term(['v', k])
            z = sub(d, e)
            if z[0] != 'c':
                return None
            steps[k] = sgn64(z[1])
        # addresses: changing by a word each time round
        def word(o):
            d = f.term(o)
            n = 0
            for k, q in parts_of(d)[1].items():
                for ph, stp in steps.items():
                    if k == f.term(['v', ph]):
                        n += q * stp
                    elif any(x == f.term(['v', ph]) for x in subterms(k)):
                        return False
            return n == 8
        if not word(store.ops[1]):
            return None
        if load is not None:
            if store.ops[0] != ['v', load.id] or not word(load.ops[0]):
                return None
        elif store.ops[0] not in (['c', 0], ['n']) and not (store.ops[0][0] == 'c' and store.ops[0][1] == 0):
            return None
        st = steps[cmp.ops[0][1]]
        if st not in (1, 8):
            return None
        c[h] = (l, phis, steps, store, load, cmp, [x for x, y in zip(su, inl) if not y][0], st)
        return c[h]

    def do_idiom(self, st, h):
        l, phis, steps, store, load, cmp, ex, stp = self.idiom(h)
        f = self.f
        a0 = self.val(st, cmp.ops[0]); n = sub(self.val(st, cmp.ops[1]), a0)
        c, p = parts_of(n)
        words = n if stp == 1 else None
        nbytes = lin(c * 8, [(k, 8 * q) for k, q in p.items()]) if stp == 1 else n
        tmp = st.copy()
        for b in l.blocks:
            for i in f.blocks[b]:
                if i.op in ('getelementptr', 'add', 'shl', 'mul'):
                    r = self.step(tmp, i)
                    tmp = r[0] if r else tmp
        dst = self.val(tmp, store.ops[1])
        if load is None:
            outs = self.memset(st, store, [dst, NULL, nbytes])
        else:
            outs = self.memcpy(st, store, [dst, self.val(tmp, load.ops[0]), nbytes])
        res = []
        for s in outs:
            s = s[0] if isinstance(s, tuple) else s
            s = s.copy()
            for k in phis:
                v = self.val(s, ['v', k])
                if steps[k] == stp:
                    s.env[k] = add(v, n)
                elif stp == 1:
                    s.env[k] = add(v, lin(c * 8, [(q, 8 * z) for q, z in p.items()]))
                else:
                    s.env[k] = ('any', 'after%d' % k)
            res.append((s, ex))
        return res

    def run(self, st):
        f = self.f
        t0 = time.process_time()
        rpo = {b: n for n, b in enumerate(f.rpo())}
        import heapq
        seen = set()
        work = []
        cnt = 0
        heapq.heappush(work, (0, 0, self.entry, st))
        if self.entry == f.entry:
            self.enter(st, f.entry, None)
        first = True
        while work:
            _, _, b, st = heapq.heappop(work)
            if not first and b in self.stops:
                self.stops[b](st)
                continue
            first = False
            self.states += 1
            if self.states > self.maxlen:
                raise Give('too many states')
            if time.process_time() - t0 > self.budget:
                raise Give('it takes too long')
            cur = [st]
            if b in self.loopheads and self.idiom(b):
                for s, nb in self.do_idiom(st, b):
                    self.enter(s, nb, b)
                    cnt += 1
                    heapq.heappush(work, (rpo.get(nb, 0), cnt, nb, s))
                continue
            blk = f.blocks[b]
            for i in blk:
                if i.op == 'phi':
                    continue
                if i.op in ('br', 'switch', 'ret', 'unreachable'):
                    break
                nxt = []
                for s in cur:
                    nxt.extend(self.step(s, i))
                cur = nxt
                if not cur:
                    break
            if len(self.bad) > 12:
                return
            t = blk[-1]
            for s in cur:
                if t.op == 'ret':
                    v = self.val(s, t.ops[0]) if t.ops else None
                    self.flush(s, t)
                    if v is not None and v[0] == 'stale':
                        self.use_stale(v, t, 'returned')
                        v = v[1]
                    self.ends.append((s, v, t))
                    continue
                if t.op == 'unreachable':
                    continue
                if t.op == 'br' and len(t.ops) == 3:
                    c = self.val(s, t.ops[0])
                    su = t.d['succ']
                    outs = [(x, su[0] if r else su[1]) for x, r in self.decide(s, c, t)]
                elif t.op == 'switch':
                    outs = []
                    v = self.val(s, t.ops[0])
                    cs = [s]
                    for cv, cb in t.d['cases']:
                        n2 = []
                        for x in cs:
                            for y, r in self.cmp(x, 'eq', self.val(x, t.ops[0]), C(cv), t):
                                if r:
                                    outs.append((y, cb))
                                else:
                                    n2.append(y)
                        cs = n2
                    outs.extend((x, t.d['default']) for x in cs)
                else:
                    outs = [(s, t.d['succ'][0])]
                live = f.lsucc(b) if not self.walkdead else f.blocks
                for x, nb in outs:
                    if nb not in live:
                        if self.ondead is not None:
                            self.ondead(x, t)
                        continue
                    if self.dedupe or len(outs) > 1 or len(cur) > 1:
                        x = x.copy()
                    self.enter(x, nb, b)
                    if not self.dedupe:
                        cnt += 1
                        heapq.heappush(work, (rpo.get(nb, 0), cnt, nb, x))
                        continue
                    if nb in self.loopheads and nb not in self.stops:
                        self.widen(x, nb)
                        self.visits[nb] = self.visits.get(nb, 0) + (nb not in self.stops)
                        if self.visits[nb] > self.patience:
                            self.blur(x, nb)
                    k = (nb, self.key(x))
                    if k in seen:
                        continue
                    seen.add(k)
                    cnt += 1
                    heapq.heappush(work, (rpo.get(nb, 0), cnt, nb, x))

    def enter(self, st, b, frm):
        f = self.f
        if frm is not None:
            vals = []
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                for o, p in i.d['inc']:
                    if p == frm:
                        vals.append((i.id, self.val(st, o)))
                        break
            for k, v in vals:
                st.env[k] = v
        lv = self._live[b]
        st.env = {k: v for k, v in st.env.items() if k in lv}
        if getattr(self, 'blurnums', False):
            # numbers made from addresses tell nothing
            for k, v in st.env.items():
                if v[0] in ('lin', 'lshr', 'and', 'op') and not base_of(v) and any(x[0] in ('o', 'n', 'seg') for x in subterms0(v)):
                    st.env[k] = ('any', 'z%d' % k)

    def widen(self, st, b):
        """fold what has been walked over back into segments"""
        changed = True
        # cells which only cache what was read are read again
        nodes = {x for l in st.orig.values() for x in l}
        for k in [k for k, v in st.mem.items() if v[0] == 's' and v[1] == 'ld' and v[2] == k]:
            b = base_of(k)
            if b and b[0] in nodes:
                del st.mem[k]
        while changed:
            changed = False
            cnt = self.refcounts(st)
            for lab, l in st.orig.items():
                run = []
                for idx, x in enumerate(l):
                    if idx == 0 and lab in getattr(self, 'keepfirst', ()):
                        pass
                    if self.foldable(st, l, idx, cnt):
                        run.append(idx)
                        nx = idx + 1
                        if len(run) >= 2 or x[0] != 'seg':
                            # fold this piece with its predecessor, or alone
                            if len(run) >= 2:
                                a, bb = run[-2], run[-1]
                                self.fold(st, lab, l, a, bb)
                            else:
                                self.fold(st, lab, l, idx, idx)
                            changed = True
                            break
                    else:
                        run = []
                if changed:
                    break
        self.rename(st)

    def blur(self, st, b):
        """loop variables which keep changing"""
        old = self.last.setdefault(b, {})
        for i in self.f.blocks[b]:
            if i.op != 'phi':
                break
            v = st.env.get(i.id)
            if v is None or v[0] in ('any',):
                continue
            if getattr(self, 'blurnums', False) and base_of(v) and base_of(v)[0][0] in ('o', 'n', 'seg'):
                continue
            if i.id in old and old[i.id] != v:
                st.env[i.id] = self.blurred(v, 'w%d' % i.id)
            else:
                old[i.id] = v
        for k, v in list(st.mem.items()):
            kb = base_of(k)
            if kb and kb[0][0] == 'al' and v[0] != 'any':
                if k in old and old[k] != v:
                    if v[0] == 'stale' or is_gc(v) and not any(x[0] in ('o', 'n') for x in atoms(v)) or not is_gc(v) and not any(x[0] in ('al', 'g') for x in atoms(v)):
                        st.mem[k] = self.blurred(v, 'w%s' % (k[1],))
                else:
                    old[k] = v
        st.facts = {}

    def blurred(self, v, n):
        if v[0] == 'stale':
            return ('stale', self.blurred(v[1], n))
        if is_gc(v):
            return ('s', 'blur', n, 'gc')
        return ('any', n)

    def piecenext(self, st, x):
        if x in st.segs:
            return st.segs[x][1]
        lab = None
        for k, l in st.orig.items():
            if x in l:
                lab = k
        return st.mem.get(add(x, C(self.segnext[self.labelof(lab)][0])))

    def labelof(self, lab):
        return lab.split('.')[0]

    def refcounts(self, st):
        cnt = {}

        def see(v, n=1):
            for a in atoms(v):
                cnt[a] = cnt.get(a, 0) + n
        for v in st.env.values(): see(v)
        for k, v in st.mem.items(): see(v)
        for s, (l, e) in st.segs.items(): see(e)
        for at in st.facts:
            for x in at[1:]: see(x, 5)
        for k, v in st.u.items():
            if isinstance(v, (tuple,)): see(v, 5)
            if isinstance(v, frozenset):
                for x in v:
                    see(x, 5) if isinstance(x, tuple) else None
        return cnt

    def foldable(self, st, l, idx, cnt):
        x = l[idx]
        lab = [k for k, y in st.orig.items() if y is l][0]
        if x in getattr(self, 'pinned', ()):
            return False
        if x in st.segs:
            nx = st.segs[x][1]
        else:
            off = self.segnext[self.labelof(lab)][0]
            nx = st.mem.get(add(x, C(off)))
            for k, v in st.mem.items():
                kb = base_of(k)
                if kb and kb[0] == x and kb[1] != off:
                    return False
                if kb is None and x in set(atoms(k)):
                    return False
        want = l[idx + 1] if idx + 1 < len(l) else None
        if want is not None and nx != want:
            return False
        if want is None and nx != NULL:
            return False
        # only one reference to it, unless it is first
        return cnt.get(x, 0) <= 1

    def fold(self, st, lab, l, a, b):
        x, y = l[a], l[b]
        end = self.piecenext(st, y)
        lens = [('len', z) if z in st.segs else None for z in ((x, y) if x != y else (x,))]
        T = lin(sum(1 for z in lens if z is None), [(z, 1) for z in lens if z])
        s = self.newseg(st, self.labelof(lab), end)
        # the length of what is folded, wherever it is known
        if T[0] != 'c':
            z = [z for z in lens if z][0]
            st.subst({z: lin(0, [(('len', s), 1), (T, -1), (z, 1)])})
        else:
            def relate(v):
                c, p = parts_of(v)
                if c >= T[1] and all(q[0] == 'len' for q in p):
                    return lin(0, [(v, 1), (T, -1), (('len', s), 1)])
                return v
            for k, v in list(st.env.items()):
                st.env[k] = relate(v)
            for k, v in list(st.u.items()):
                if isinstance(v, tuple) and v and isinstance(v[0], str): st.u[k] = relate(v)
            for k, v in list(st.mem.items()):
                if k[0] == 'al' and k not in self.aggr or k in self.lencells: st.mem[k] = relate(v)
        for z in set((x, y)):
            if z in st.segs:
                del st.segs[z]
            else:
                for k in list(st.mem):
                    kb = base_of(k)
                    if kb and kb[0] == z:
                        del st.mem[k]
        l[a:b + 1] = [s]
        st.subst({x: s})

    def rename(self, st):
        """give nodes and segments names by their place, so that equal states
        look equal"""
        order = []
        for lab in sorted(st.orig):
            for x in st.orig[lab]:
                if x in getattr(self, 'pinned', ()):
                    continue
                if x not in order and x[0] in ('n', 'seg') or (x[0] == 'o' and str(x[1]).startswith('n') and str(x[1])[1:].isdigit()):
                    order.append(x)
        for s in sorted(st.segs):
            if s not in order:
                order.append(s)
        mp = {}; back = {}
        for n, x in enumerate(order, 1):
            if x[0] == 'seg':
                mp[x] = ('seg', 900000 + n) + x[2:]
                back[mp[x]] = ('seg', n) + x[2:]
            elif x[0] == 'n':
                mp[x] = ('n', 900000 + n) + x[2:]
                back[mp[x]] = ('n', n) + x[2:]
            else:
                mp[x] = ('o', 'n%d' % (900000 + n)); back[mp[x]] = ('o', 'n%d' % n)
        for m in (mp, back):
            m = dict(m)
            segs = {m.get(k, k): v for k, v in st.segs.items()}
            st.segs = segs
            for lab in st.orig:
                st.orig[lab] = [m.get(x, x) for x in st.orig[lab]]
            for k, v in list(m.items()):
                m[('len', k)] = ('len', v)
            st.subst(m)
            st.zero = {m.get(x, x) for x in st.zero}
        st.nk = len(order) + 1

    def key(self, st):
        # facts about what is no longer there are dropped
        at = set()
        for v in st.env.values():
            at.update(subterms0(v))
        for k, v in st.mem.items():
            at.update(subterms0(k)); at.update(subterms0(v))
        for k, v in st.u.items():
            if isinstance(v, tuple): at.update(subterms0(v))
            elif isinstance(v, frozenset):
                for x in v: at.update(subterms0(x))
        for s, (l, e) in st.segs.items():
            at.update(subterms0(e))
        for l in st.orig.values():
            at.update(l)
        nf = {}
        for a, v in st.facts.items():
            ok = all(x in at or x[0] == 'len' for y in a[1:] if isinstance(y, tuple) for x in atoms(y))
            if ok and any(x[0] == 'ld' for y in a[1:] if isinstance(y, tuple) for x in subterms(y)):
                ok = all(y in at or y[0] in ('c',) for y in a[1:] if isinstance(y, tuple))
            if ok:
                nf[a] = v
        st.facts = nf
        # cells read from pools only cache what is there
        st.mem = {k: v for k, v in st.mem.items() if v[0] != 'ld' or k[0] == 'al'}
        u = {k: v for k, v in st.u.items() if k not in ('last', 'nc')}
        st.u = u
        return (frozenset(st.env.items()), frozenset(st.mem.items()), frozenset(nf.items()),
                frozenset(st.segs.items()), tuple(sorted((k, tuple(v)) for k, v in st.orig.items())),
                frozenset(u.items()), frozenset(st.zero))


def subterms0(v):
    if isinstance(v, tuple) and v and isinstance(v[0], str):
        yield v
        for x in v[1:]:
            if isinstance(x, tuple):
                yield from subterms0(x)
    elif isinstance(v, tuple):
        for x in v:
            yield from subterms0(x)


def uses(st, v):
    return any(v in set(subterms0(x)) for x in list(st.env.values()) + list(st.mem.values()))


def unstale(fn):
    return fn()


def is_pool(t):
    return t[0] == 'and' and t[2] > (1 << 63) and ((~t[2]) & M64) >= 0xfff


FRESH = {'ggggc_malloc', 'ggggc_mallocSlot', 'ggggc_mallocRaw', 'ggggc_mallocPointerArray', 'ggggc_mallocDataArray',
         'ggggc_allocateDescriptor', 'ggggc_allocateDescriptorL', 'ggggc_allocateDescriptorT',
         'ggggc_allocateDescriptorPA', 'ggggc_allocateDescriptorDA'}
PURE = {'pthread_self', 'strlen', 'memcmp', 'strcmp', 'fprintf', 'perror', 'printf', 'fwrite', 'fputs', 'puts', 'free', 'malloc', '__errno_location'}
NOTOUCH = {'ggggc_malloc', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'free'}


def arith(op, a, b, w):
    stale = a[0] == 'stale' or b[0] == 'stale'
    if stale:
        a2 = a[1] if a[0] == 'stale' else a
        b2 = b[1] if b[0] == 'stale' else b
        return ('stale', arith(op, a2, b2, w))
    r = None
    if op == 'add': r = add(a, b)
    elif op == 'sub': r = sub(a, b)
    elif op == 'mul':
        if b[0] == 'c': r = lin(0, [(a, b[1])])
        elif a[0] == 'c': r = lin(0, [(b, a[1])])
    elif op == 'shl' and b[0] == 'c' and 0 <= b[1] < 64: r = lin(0, [(a, 1 << b[1])])
    elif op in ('lshr', 'ashr') and b[0] == 'c': r = mk_lshr(a, b[1])
    elif op == 'and':
        if b[0] == 'c': r = mk_and(a, b[1])
        elif a[0] == 'c': r = mk_and(b, a[1])
    elif op == 'urem' and b[0] == 'c' and b[1] > 0 and b[1] & (b[1] - 1) == 0: r = mk_and(a, b[1] - 1)
    elif op == 'udiv' and b[0] == 'c' and b[1] > 0 and b[1] & (b[1] - 1) == 0: r = mk_lshr(a, b[1].bit_length() - 1)
    elif op in ('or', 'xor') and a[0] == 'c' and b[0] == 'c':
        r = C(a[1] | b[1] if op == 'or' else a[1] ^ b[1])
    elif op == 'or' and b == NULL: r = a
    elif op == 'or' and a == NULL: r = b
    elif op in ('urem', 'udiv') and a[0] == 'c' and b[0] == 'c' and b[1]:
        r = C(a[1] % b[1] if op == 'urem' else a[1] // b[1])
    if r is None:
        if op in ('or', 'xor', 'and', 'mul'):
            a, b = sorted((a, b), key=repr)
        r = ('op', op, a, b)
    if w and w < 64 and op in ('add', 'sub', 'mul', 'shl') and r[0] == 'c':
        r = C(r[1] & ((1 << w) - 1))
    return r


def gctype(m, tid, voidok=True):
    """is the (DWARF) type a reference to a collected object?"""
    p = m.pointee(tid)
    if p is None:
        return False
    s = m.strip(p)
    if s is None or s < 0:
        return voidok
    n = m.tname(p)
    return bool(n and m.is_gc_struct(n))


def gcload(f, i):
    c = f.__dict__.setdefault('_gcl', {})
    if i.id not in c:
        r = False
        t = f.term(i.ops[0])
        for tid in f.objtypes(t):
            if gctype(f.mod, tid, voidok=f.cfg_voidgc if hasattr(f, 'cfg_voidgc') else True):
                r = True
        c[i.id] = r
    return c[i.id]


def gccall(f, i):
    m = f.mod
    c = i.callee()
    sig = None
    if c in m.funcs: sig = m.funcs[c].sig
    elif c in m.decls: sig = m.decls[c].get('sig')
    return bool(sig and gctype(m, sig[0], voidok=False)) or c == 'GGC_ListShift'


def nameof(I, t):
    f = I.f
    b = is_gc(t) or t
    if b[0] == 's' and b[1] == 'arg':
        for a, n in f.argids.items():
            if n == b[2]:
                return f.argname.get(a, 'argument %d' % n)
    if b[0] == 'o':
        return str(b[1])
    if b[0] == 's' and b[1] == 'ld':
        c, p = parts_of(b[2])
        for x in p:
            return 'what was loaded from %s+%d' % (nameof(I, x), c)
    if b[0] in ('n', 'seg'):
        return 'a list node'
    if b[0] in ('g', 'al'):
        if b[0] == 'al':
            v = f.vars.get(b[1])
            if v: return v[0][0]
        return str(b[1])
    if b[0] == 's' and b[1] == 'call':
        ins = f.ins.get(b[2])
        return 'the result of %s' % (ins.callee() if ins else '?')
    return showv(b)


def showv(t):
    try:
        return show(t)
    except Exception:
        return repr(t)[:80]


def start(f):
    """the initial state: arguments by type"""
    st = State()
    for a, n in f.argids.items():
        gc = n + 1 < len(f.sig) and gctype(f.mod, f.sig[n + 1])
        v = ('s', 'arg', n, 'gc') if gc else ('s', 'arg', n)
        st.env[a] = v
    return st
