"""Stale references: C01. A flow-sensitive analysis of every library function
which may collect: which values are references to collected objects, which of
them were obtained before a point which may collect, and which variables are
registered with the collector at that point."""
from .core import *
from .trav import *
from .rules_sync import *
from .interp import gctype, gccall, FRESH

CONFS = ['g2', 'g2all', 'g2ext', 'g1all', 'g2dbg', 'pms', 'pmsall', 'pmsext', 'pmsdbg', 'cxx', 'cxxnognuc', 'nognuc', 'genbar']
PTROPS = ('getelementptr', 'bitcast', 'freeze', 'addrspacecast', 'inttoptr', 'ptrtoint', 'phi', 'select')


def native_arg(f, a):
    """an argument which is handed to the operating system's objects"""
    seen = {a}; work = [a]
    while work:
        x = work.pop()
        for b in f.order:
            for i in f.blocks[b]:
                if not any(o[0] == 'v' and o[1] == x for o in i.ops) and not ('gep' in i.d and i.d['gep']['base'] == ['v', x]):
                    continue
                if i.is_call():
                    c = i.callee() or ''
                    if c.startswith(('pthread_', 'sem_', 'dispatch_')) or c.endswith('_raw') or c in ('ggc_mutex_unlock', 'ggc_mutex_trylock', 'ggc_sem_post', 'free', 'realloc'):
                        return True
                elif i.op in PTROPS and i.id not in seen:
                    seen.add(i.id); work.append(i.id)
    return False


class Stale:
    def __init__(self, ctx, f):
        self.ctx = ctx; self.f = f; self.m = f.mod
        self.bad = {}
        self.points = 0
        self.PS = ('g', 'ggggc_pointerStack')
        self.frames()
        self.regs = set().union(*self.reg.values()) if self.reg else set()
        self.gcvals()

    # which SSA values are references
    def gcvals(self):
        f = self.f
        gc = set()
        for a, n in f.argids.items():
            if n + 1 < len(f.sig) and gctype(self.m, f.sig[n + 1]) and not native_arg(f, a):
                gc.add(a)
        ch = True
        while ch:
            ch = False
            for b in f.order:
                for i in f.blocks[b]:
                    if i.id is None or i.id in gc:
                        continue
                    r = False
                    if i.op == 'load':
                        r = self.gcload(i)
                    elif i.is_call():
                        r = gccall(f, i) or (i.callee() or '') in FRESH or (i.callee() or '').startswith('llvm.launder')
                    elif i.op in ('phi', 'select', 'getelementptr', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                        r = any(o[0] == 'v' and o[1] in gc for o in self.srcs(i))
                    if r:
                        gc.add(i.id); ch = True
        self.gc = gc

    def srcs(self, i):
        if i.op == 'phi':
            return [o for o, p in i.d['inc']]
        if i.op == 'getelementptr':
            b = i.d['gep']['base']
            return [b]
        if i.op == 'select':
            return list(i.ops[1:])
        return list(i.ops)

    def gcload(self, i):
        if i.d.get('w') and i.d['w'] < 64:
            return False
        return self.addrgc(i.ops[0], set())

    def addrgc(self, op, seen):
        """does the address hold a reference?"""
        f = self.f
        if op[0] == 'v' and op[1] in f.ins and f.ins[op[1]].op in ('phi', 'select'):
            if op[1] in seen:
                return False
            seen.add(op[1])
            i = f.ins[op[1]]
            return any(self.addrgc(o, seen) for o in self.srcs(i))
        t = f.term(op)
        if t in self.regs and t[0] in ('al', 'g'):
            return True
        for tid in f.objtypes(t):
            p = self.m.pointee(tid)
            if p is None:
                continue
            s = self.m.strip(p)
            if s is None or s < 0:
                # a void pointer: one in an object or in a variable of this thread
                b = base_of(t)
                if b and b[0] == 'g' and b[1] not in ('ggggc_threadIdentifier',):
                    continue
                if b and b[0] not in ('al', 'g') and not self.inobject(t):
                    continue
                return True
            else:
                n = self.m.tname(p)
                if n and self.m.is_gc_struct(n):
                    return True
        return False

    def inobject(self, t):
        f = self.f
        c, p = parts_of(t)
        for x, k in p.items():
            if k != 1:
                continue
            for tid in f.ptypes(x):
                n = self.m.tname(self.m.pointee(tid)) if self.m.pointee(tid) is not None else None
                if n and self.m.is_gc_struct(n):
                    return True
        return False

    # which variables each local root frame registers
    def frames(self):
        f = self.f
        self.reg = {}
        for i, a, v in stores(f):
            c, p = parts_of(a)
            if len(p) == 1 and list(p)[0][0] == 'al' and c >= 16 and v[0] != 'c':
                vb = parts_of(v)[1]
                if len(vb) == 1 and list(vb)[0][0] in ('al', 'arg', 'g', 'ld', 'phi'):
                    self.reg.setdefault(list(p)[0], set()).add(v)
        # frames which are ever put on the stack
        self.isframe = {v for i, a, v in stores(f) if a == self.PS and v[0] == 'al'}

    def pushed(self, st):
        out = set()
        for fr in st[0]:
            out |= self.reg.get(fr, set())
        return out

    def run(self):
        f = self.f
        live = self.live()
        ent = ((), frozenset(), frozenset())
        instate = {f.entry: [ent]}
        work = [f.entry]
        rounds = 0
        while work:
            b = work.pop(0)
            rounds += 1
            if rounds > 4000:
                self.ctx.notes.append('%s: stale analysis cut off' % f.name)
                break
            outs = []
            for st in instate[b]:
                outs.append(self.block(b, st))
            for s in f.succ[b]:
                if s not in f.lsucc(b):
                    continue
                ch = False
                cur = instate.setdefault(s, [])
                for frames, stale, cells in outs:
                    ns = set(x for x in stale if x in live[s] or x in self.phiuse.get((b, s), ()))
                    # phis
                    add_ = set()
                    for i in f.blocks[s]:
                        if i.op != 'phi':
                            break
                        ns.discard(i.id)
                        for o, p in i.d['inc']:
                            if p == b and o[0] == 'v' and o[1] in stale:
                                add_.add(i.id)
                    ns = frozenset({x for x in ns if x in live[s]} | add_)
                    for n, c in enumerate(cur):
                        if c[0] == frames:
                            m = (frames, c[1] | ns, c[2] | cells)
                            if m != c:
                                cur[n] = m; ch = True
                            break
                    else:
                        if len(cur) < 12:
                            cur.append((frames, ns, cells)); ch = True
                if ch and s not in work:
                    work.append(s)

    def live(self):
        f = self.f
        use = {}; deff = {}; self.phiuse = {}
        from .interp import Interp
        for b in f.order:
            u = set(); d = set()
            for i in f.blocks[b]:
                if i.op == 'phi':
                    for o, p in i.d['inc']:
                        if o[0] == 'v':
                            self.phiuse.setdefault((p, b), set()).add(o[1])
                else:
                    u |= ids(i) - d
                if i.id is not None:
                    d.add(i.id)
            use[b] = u; deff[b] = d
        live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                o = set()
                for s in f.succ[b]:
                    o |= live[s] | self.phiuse.get((b, s), set())
                n = use[b] | (o - deff[b])
                n |= {i.id for i in f.blocks[b] if i.op == 'phi' and False}
                if n - live[b]:
                    live[b] |= n; ch = True
        self._live = live
        return live

    def err(self, v, i, how):
        n = self.name(v)
        self.bad.setdefault((n, how.split()[0]), (i, 'a reference (%s) obtained before a point which may collect is %s after it' % (n, how)))

    def name(self, v):
        f = self.f
        if v in f.argids:
            return f.argname.get(v, 'argument %d' % f.argids[v])
        i = f.ins.get(v)
        if i is None:
            return '?'
        if i.is_call():
            return 'the result of %s' % i.callee()
        t = f.vterm(v)
        return show(t, f)[:80]

    def block(self, b, st):
        f = self.f
        frames, stale, cells = st
        stale = set(stale); cells = set(cells); defined = None
        # values available: those defined on the way here are the live ones
        for n, i in enumerate(f.blocks[b]):
            if i.op == 'phi':
                continue
            if i.op == 'load':
                self.use(i, i.ops[0], stale, 'dereferenced')
                a = f.term(i.ops[0])
                if i.id in self.gc and a in cells:
                    stale.add(i.id)
                else:
                    stale.discard(i.id)
                continue
            if i.op == 'store':
                self.use(i, i.ops[1], stale, 'written through')
                a = f.term(i.ops[1])
                v = i.ops[0]
                isst = v[0] == 'v' and v[1] in stale
                bs = base_of(a)
                if a == self.PS:
                    val = f.term(v)
                    if val[0] == 'al':
                        frames = (val,) + tuple(x for x in frames if x != val)
                    else:
                        # popping: to the frame below the one named
                        t = val
                        if t[0] == 'ld' and t[1] in frames:
                            frames = frames[frames.index(t[1]) + 1:]
                        elif t == ld(self.PS) or t[0] == 'ld' and t[1] == self.PS:
                            frames = ()
                        elif t[0] == 'ld' and t[1][0] == 'ld' and t[1][1] == self.PS and frames:
                            frames = frames[1:]
                        else:
                            frames = ()
                    continue
                if isst:
                    if bs and bs[0] == 'al' and a not in self.pushed((frames,)):
                        cells.add(a)
                    else:
                        self.err(v[1], i, 'stored')
                else:
                    cells.discard(a)
                continue
            if i.op in PTROPS or i.op in ('add', 'sub', 'or', 'and'):
                if any(o[0] == 'v' and o[1] in stale for o in self.srcs(i)):
                    stale.add(i.id)
                else:
                    stale.discard(i.id)
                continue
            if i.op == 'icmp':
                if is_pms(f.cfg):
                    continue           # nothing moves
                os = list(i.ops)
                if not any(o[0] == 'n' or o == ['c', 0, 64] for o in os):
                    for o in os:
                        self.use(i, o, stale, 'compared')
                continue
            if i.op == 'ret':
                for o in i.ops:
                    self.use(i, o, stale, 'returned')
                continue
            if i.is_call():
                c = i.callee() or ''
                if c.startswith('llvm.') and not c.startswith(('llvm.mem',)):
                    continue
                if c not in ('free',):
                    for o in i.ops:
                        self.use(i, o, stale, 'passed to %s' % (c or 'a function'))
                if collects(self.ctx, f, i) and not (c == 'pthread_barrier_wait'):
                    self.points += 1
                    after = self.after(b, n)
                    for x in after:
                        if x in self.gc and x != i.id:
                            stale.add(x)
                    pr = self.pushed((frames,))
                    for a in self.gccells():
                        if a not in pr and self.wasset(a, b, n):
                            cells.add(a)
                # a call may write a variable whose address it is given
                for o in i.ops:
                    t = f.term(o)
                    if t[0] == 'al':
                        cells.discard(t)
                if i.id is not None:
                    stale.discard(i.id)
                continue
        return (frames, frozenset(stale), frozenset(cells))

    def gccells(self):
        if not hasattr(self, '_cells'):
            out = set()
            f = self.f
            for i, a, v in stores(f):
                bs = base_of(a)
                if bs and bs[0] == 'al' and i.ops[0][0] == 'v' and i.ops[0][1] in self.gc:
                    out.add(a)
            self._cells = out
        return self._cells

    def wasset(self, a, b, n):
        return True

    def after(self, b, n):
        """the values used after instruction n of block b"""
        f = self.f
        out = set()
        for s in f.succ[b]:
            out |= self._live[s] | self.phiuse.get((b, s), set())
        for i in reversed(f.blocks[b][n + 1:]):
            out.discard(i.id)
            out |= ids(i)
        return out

    def use(self, i, o, stale, how):
        if o and o[0] == 'v' and o[1] in stale:
            self.err(o[1], i, how)
        elif o and o[0] == 'gep' or o and o[0] == 'ce':
            for x in opids(o):
                if x in stale:
                    self.err(x, i, how)


def base_of(a):
    c, p = parts_of(a)
    l = [t for t, k in p.items() if k == 1 and t[0] in ('al', 'g')]
    return l[0] if l else None


def opids(o, out=None):
    out = set() if out is None else out
    if isinstance(o, dict):
        for v in o.values():
            opids(v, out)
    elif isinstance(o, (list, tuple)) and o:
        if o[0] == 'v' and len(o) > 1 and isinstance(o[1], int):
            out.add(o[1])
        else:
            for x in o:
                if isinstance(x, (list, tuple, dict)):
                    opids(x, out)
    return out


def ids(i):
    s = i.__dict__.get('_ids') if hasattr(i, '__dict__') else None
    s = set()
    opids(i.d.get('ops', []), s)
    if 'gep' in i.d:
        opids([i.d['gep']['base']], s); opids([o for sc, o in i.d['gep']['var']], s)
    if i.d.get('callee') and i.d['callee'][0] == 'v':
        opids([i.d['callee']], s)
    return s


# the collector itself: it runs while the world is stopped
INSIDE = {'ggggc_collect0', 'ggggc_collectFull', 'ggggc_countUsed', 'ggggc_compact', 'ggggc_postCompact',
          'ggggc_mallocGen1', 'ggggc_freeGeneration'}


def stale(ctx, confs):
    ctx.rule('stale', 'a reference obtained before a call which may collect is not used after it, unless it is read again from a variable that was in a pushed root frame throughout')
    for cfg in confs:
        for f in ctx.funcs(cfg):
            if f.name in INSIDE or not any(collects(ctx, f, i) for i, c in calls(f)):
                continue
            s = Stale(ctx, f)
            s.run()
            if not s.bad:
                ctx.check('stale', f, '%d points which may collect' % s.points, True)
            for (n, how), (i, d) in s.bad.items():
                ctx.check('stale', f, '%s %s' % (n, how), False, d, where=i)


def C01(ctx):
    stale(ctx, CONFS)
    from .rules_alloc import protected
    ctx.rule('protected-argument', 'the allocator registers the variable that holds the caller\'s descriptor before it collects')
    for cfg in CONFS:
        protected(ctx, cfg)
