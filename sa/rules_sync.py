"""Threads and the stop-the-world handshake: C14, C15, C16, C17 and the thread
clauses of C18; publication of roots (shared with C07)."""
from .core import *
from .trav import *
from .auto import *

GEM = ['g2', 'g2all', 'g2ext', 'g1all', 'g3all', 'g2dbg']
PMSC = ['pms', 'pmsall', 'pmsext', 'pmsdbg']
ALL = GEM + PMSC

WORLD = ('g', 'ggggc_worldBarrierLock')
ROOTS = ('g', 'ggggc_rootsLock')
BARRIER = ('g', 'ggggc_worldBarrier')
COUNT = ('g', 'ggggc_threadCount')
STOP = ('g', 'ggggc_stopTheWorld')
LOCKFN = ('pthread_mutex_lock',)
TRYFN = ('pthread_mutex_trylock',)
UNLOCKFN = ('pthread_mutex_unlock',)


def is_pms(cfg):
    return cfg.startswith('pms')


# ------------------------------------------------------------- provenance
def origins(f, t):
    """the roots an address comes from: globals, locals, arguments, calls"""
    cache = f.__dict__.setdefault('_orig', {})
    if t in cache:
        return cache[t]
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        k = x[0]
        if k in ('g', 'al', 'arg', 'call'):
            out.add(x)
        elif k == 'cur':
            inf = f.cursor(x)
            if inf:
                if inf.get('inita') is not None:
                    st.append(inf['inita'])
                elif inf.get('init') is not None:
                    st.append(inf['init'])
                else:
                    for o, p in inf['phi'].d['inc']:
                        st.append(f.term(o))
                st.extend(inf.get('nexts', ()))
        elif k == 'phi':
            for o, p in f.ins[x[1]].d['inc']:
                st.append(f.term(o))
        elif k == 'sel':
            st.extend([x[2], x[3]])
        elif k == 'lin':
            st.extend(u for u, c in x[2])
        elif k in ('ld', 'and', 'lshr'):
            st.append(x[1])
        elif k == 'op':
            st.extend(u for u in x[2:] if isinstance(u, tuple))
    cache[t] = out
    return out


def tls(f, g):
    d = f.mod.globals.get(g[1])
    return bool(d and d.get('tls'))


def direct(f, a):
    """the global or local the address lies in directly, or None"""
    c, p = parts_of(a)
    bs = [t for t in p if t[0] in ('g', 'al')]
    if len(bs) == 1 and p[bs[0]] == 1 and all(t[0] not in ('ld', 'cur', 'phi', 'call') or t is bs[0] or True for t in p):
        return bs[0]
    # moving along a local or global array
    if a[0] in ('cur', 'phi'):
        o = origins(f, a)
        if len(o) == 1 and next(iter(o))[0] in ('g', 'al') and not any(u[0] == 'ld' for u in chain_terms(f, a)):
            return next(iter(o))
    return None


def chain_terms(f, t):
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == 'cur':
            inf = f.cursor(x)
            if inf:
                st.extend(y for y in inf.get('nexts', ()) if y)
                if inf.get('init') is not None:
                    st.append(inf['init'])
        elif x[0] == 'phi':
            for o, p in f.ins[x[1]].d['inc']:
                st.append(f.term(o))
        elif x[0] == 'lin':
            st.extend(u for u, c in x[2])
    return seen


def accesses(i, f):
    """[(address, is store, value)] of an instruction"""
    if i.op == 'store':
        return [(f.term(i.ops[1]), True, f.term(i.ops[0]))]
    if i.op == 'load':
        return [(f.term(i.ops[0]), False, None)]
    if i.is_call():
        c = i.callee() or ''
        if c.startswith(('llvm.memset.', 'memset')):
            return [(f.term(i.ops[0]), True, None)]
        if c.startswith(('llvm.memcpy.', 'llvm.memmove.', 'memcpy', 'memmove')):
            return [(f.term(i.ops[0]), True, None), (f.term(i.ops[1]), False, None)]
    return []


# ---------------------------------------------------------- may collect
COLLECTING = {'ggggc_yield', 'ggggc_collect0', 'ggggc_collect', 'ggggc_mallocRaw', 'ggggc_malloc', 'ggggc_mallocSlot',
              'ggggc_mallocPointerArray', 'ggggc_mallocDataArray', 'ggc_pre_blocking'}


def may_collect(ctx, cfg):
    """names of the functions which may run or wait for a collection"""
    key = '_mc_' + cfg
    c = ctx.__dict__.setdefault('_mc', {})
    if cfg in c:
        return c[cfg]
    out = set(COLLECTING)
    fs = ctx.funcs(cfg)
    byname = {}
    for f in fs:
        byname.setdefault(f.name, f)
    args = {}
    for f in fs:
        for i, cc in calls(f):
            if cc:
                for o in i.ops:
                    t = f.term(o)
                    if t[0] == 'f':
                        args.setdefault(cc, set()).add(t[1])
    ch = True
    while ch:
        ch = False
        for f in fs:
            if f.name in out:
                continue
            for i, cc in calls(f):
                hit = False
                if cc is None:
                    hit = callback_collects(f, i, args, out)
                elif cc in out:
                    hit = True
                elif (cc.startswith('pthread_barrier_wait')):
                    hit = True
                if hit:
                    out.add(f.name); ch = True
                    break
    c[cfg] = out
    return out


def callback_collects(f, i, args, out):
    """an indirect call: through one of the library's own function arguments,
    what is passed is known; anything else is the user's"""
    cal = i.d.get('callee')
    if cal and cal[0] in ('asm',):
        return False
    t = f.term(cal) if cal and cal[0] == 'v' else ('u',)
    if t[0] == 'arg' and f.name in args:
        return any(x in out for x in args[f.name])
    return True


def collects(ctx, f, i):
    """may this call instruction collect?"""
    mc = may_collect(ctx, f.cfg)
    c = i.callee()
    if c is None:
        cal = i.d.get('callee')
        if cal and cal[0] == 'asm':
            return False
        args = {}
        for g in ctx.funcs(f.cfg):
            for j, cc in calls(g, f.name):
                for o in j.ops:
                    t = g.term(o)
                    if t[0] == 'f':
                        args.setdefault(f.name, set()).add(t[1])
        return callback_collects(f, i, args, mc)
    return c in mc


# ------------------------------------------------------------------ locks
def lock_event(f, i):
    """('lock'|'try'|'unlock', lock term)"""
    c = i.callee()
    if c in LOCKFN:
        return 'lock', f.term(i.ops[0])
    if c in TRYFN:
        return 'try', f.term(i.ops[0])
    if c in UNLOCKFN:
        return 'unlock', f.term(i.ops[0])
    if c == 'ggc_mutex_lock' and f.name != 'ggc_mutex_lock':
        return 'api', f.term(i.ops[0])
    return None, None


def try_edge(st, a, b, c):
    """a trylock whose result has been tested"""
    for k in st.keys():
        if isinstance(k, tuple) and k[0] == 'try':
            at = ('eq0', ('call', k[1], st_callee(k)))
            v = st.get(('lit', at))
            if v is None:
                continue
            l = st.get(k)
            st = st.set(k, None)
            if v:
                st = st.set('held', tuple(sorted(st.get('held', ()) + ((l, 'try'),), key=repr)))
    return st


def st_callee(k):
    return k[2]


def held(st, l):
    return any(x[0] == l for x in st.get('held', ()))


def lock_step(f, i, st, report):
    """updates the held locks; report(kind, instruction, lock)"""
    ev, l = lock_event(f, i)
    if ev is None:
        return st
    h = st.get('held', ())
    if ev == 'try':
        if held(st, l):
            report('again', i, l)
        return st.set(('try', i.id, i.callee()), l)
    if ev in ('lock', 'api'):
        if held(st, l):
            report('again', i, l)
            return st
        return st.set('held', tuple(sorted(h + ((l, ev),), key=repr)))
    if ev == 'unlock':
        if not held(st, l):
            report('not held', i, l)
            return st
        return st.set('held', tuple(x for x in h if x[0] != l) or None)
    return st


# -------------------------------------------------------------------- C14
def waits(f, i):
    return i.callee() == 'pthread_barrier_wait' and f.term(i.ops[0]) == BARRIER


def participants(ctx, cfg):
    out = []
    for f in ctx.funcs(cfg):
        for b in f.order:
            for i in f.blocks[b]:
                if i.is_call() and waits(f, i):
                    out.append(f); break
                if i.op == 'store' and f.term(i.ops[1]) == STOP:
                    out.append(f); break
            else:
                continue
            break
    return out


SHARED = {'ggggc_rootPool0List', 'ggggc_rootPointerStackList', 'ggggc_rootJITPointerStackList', 'ggggc_gens', 'ggggc_pools',
          'ggggc_blockedThreadPool0s', 'ggggc_blockedThreadPointerStacks', 'ggggc_blockedThreadJITPointerStacks'}
ROOTHEADS = {'ggggc_rootPool0List', 'ggggc_rootPointerStackList', 'ggggc_rootJITPointerStackList'}
HEAPCALLS = {'ggggc_collectFull', 'ggggc_countUsed', 'ggggc_compact', 'ggggc_postCompact', 'ggggc_expandPoolList', 'ggggc_mallocGen1'}


def kind_of_access(f, a):
    """'local', ('global', name), 'shared' (through the lists of all threads'
    heaps and roots, or the worklist filled from them), 'own' (through the
    thread's own variables), or 'other'"""
    d = direct(f, a)
    if d is not None:
        if d[0] == 'al':
            return 'local'
        return ('global', d[1])
    o = origins(f, a)
    names = {x[1] for x in o if x[0] == 'g'}
    if names & SHARED:
        return 'shared'
    if any(x[0] == 'g' and not tls(f, x) for x in o):
        return 'sharedglobal'
    if o and all((x[0] == 'g' and tls(f, x)) or x[0] == 'al' or (x[0] == 'call') for x in o):
        return 'own'
    return 'other'


class Handshake:
    def __init__(self, ctx, f, role):
        self.ctx = ctx; self.f = f; self.role = role
        self.pms = is_pms(f.cfg)
        self.bad = {}
        self.ends = set()
        self.swept = set()
        self.started = set()
        self.nacc = 0

    def err(self, what, i, detail):
        self.bad.setdefault(what, (i, detail))

    def step(self, i, st):
        f = self.f
        st = lock_step(f, i, st, lambda k, i, l: None)
        w = st.get('w', 0)
        N = 4 if self.pms else 3
        col = self.role != 'yield'
        if i.is_call():
            c = i.callee()
            if waits(f, i):
                if col:
                    if not held(st, WORLD):
                        self.err('lock', i, 'the thread waits at the world barrier for a collection without holding the world lock')
                    if w == 0 and st.get('stop', 0) != 1:
                        self.err('request', i, 'the collecting thread waits for the others without having asked them to stop')
                else:
                    if not st.get('asked'):
                        self.err('asked', i, 'a thread waits at the world barrier although no stop was requested')
                if any(x[0] == ROOTS for x in st.get('held', ())):
                    self.err('rootslock', i, 'a thread waits at the world barrier while holding the roots lock')
                if w >= N:
                    self.err('count', i, 'a thread takes part in more than %d rendezvous' % N)
                    return None
                if not col and w == 1 and st.get('pub', 0) != self.needpub():
                    self.err('publish', i, 'a stopped thread goes on to the second rendezvous without having published its pools and stacks')
                if col and w == 0 and st.get('pub', 0) != self.needpub():
                    self.err('publish', i, 'the collecting thread does not list its own pools and stacks before the others can')
                return st.set('w', w + 1)
            if col and c in UNLOCKFN and f.term(i.ops[0]) == WORLD:
                if w != N:
                    self.err('release', i, 'the world lock is released after %d of the %d rendezvous' % (w, N))
                if st.get('stop', 0) == 1:
                    self.err('stop', i, 'the stop request is still up when the world lock is released')
                return st.set('done', 1)
            if col and self.pms and c == 'ggggc_collect0' and held(st, WORLD):
                # the rest of a collection
                a = f.term(i.ops[0])
                if a[0] != 'c' or a[1] == 0 or w != 2:
                    self.err('nested', i, 'a collection is started while the world lock is held')
                st = st.set('held', tuple(x for x in st.get('held', ()) if x[0] != WORLD) or None)
                return st.upd(w=N, done=1)
            if c in HEAPCALLS:
                if not (col and 2 <= w < N and held(st, WORLD)):
                    self.err('stopped', i, '%s runs although the world is not (or no longer) stopped' % c)
            if c == 'ggggc_runFinalizers' and (held(st, WORLD) or (0 < w < N)):
                self.err('finalizers', i, 'finalizers run before the world has been restarted')
        for a, isst, v in accesses(i, f):
            self.nacc += 1
            st = self.access(i, a, isst, v, st, w, N, col)
        if i.op == 'ret':
            self.ends.add((st.get('w', 0), held(st, WORLD), st.get('asked'), st.get('swept')))
            if held(st, WORLD) and col:
                self.err('unlock', i, 'the function returns with the world lock held')
        return st

    def needpub(self):
        n = 2
        if self.f.mod.off('GGGGC_JITPointerStackList', 'cur') is not None:
            n += 1
        return n

    def access(self, i, a, isst, v, st, w, N, col):
        f = self.f
        k = kind_of_access(f, a)
        if k == 'local':
            return st
        if isinstance(k, tuple):
            g = k[1]
            if isst and ('g', g) == STOP:
                if not col:
                    self.err('stopstore', i, 'a thread which is not collecting changes the stop request')
                elif v == NULL:
                    if held(st, WORLD) and w == 0 and st.get('stop', 0) == 1:
                        self.err('stopearly', i, 'the stop request is taken back before the other threads have reached the first rendezvous')
                    st = st.set('stop', 0)
                else:
                    if not held(st, WORLD):
                        self.err('stoplock', i, 'the stop request is raised without the world lock')
                    if w:
                        self.err('stoplate', i, 'the stop request is raised after a rendezvous')
                    st = st.set('stop', 1)
                return st
            if isst and g in ROOTHEADS:
                if col:
                    if not held(st, WORLD) or w > 0:
                        self.err('roots', i, 'the list of roots is started outside of the time between locking the world and the first rendezvous')
                else:
                    if w != 1 or not held(st, ROOTS):
                        self.err('roots', i, 'a thread lists its roots %s' % ('outside of the time between the first two rendezvous' if w != 1 else 'without the roots lock'))
                p = st.get('heads', ())
                if g not in p:
                    p = tuple(sorted(p + (g,)))
                st = st.upd(heads=p, pub=len(p))
            if not col and not isst and g in ROOTHEADS and not held(st, ROOTS):
                self.err('rootsread', i, 'the list of roots is read without the roots lock')
            if isst and g in ('ggggc_gens', 'ggggc_pools') and not (col and 2 <= w < N):
                self.err('stopped', i, 'the generations\' pools are changed although the world is not stopped')
            if not isst and g in ('ggggc_gens', 'ggggc_pools') and not (col and 2 <= w < N) and col:
                self.err('stopped', i, 'the generations\' pools are read although the world is not stopped')
            return st
        stopped = col and 2 <= w < N and held(st, WORLD)
        if k == 'shared':
            if not stopped:
                self.err('stopped', i, 'the heap or the roots of other threads are %s although the world is not (or no longer) stopped' % ('changed' if isst else 'read'))
            elif self.pms and isst and w != 2:
                self.err('phase', i, 'other threads\' heaps are changed after they have been let go to sweep')
            return st
        if k == 'sharedglobal':
            if not (col and held(st, WORLD)):
                self.err('worklist', i, 'collector state shared by all threads is used without the world lock')
            elif self.pms and isst and w > 2 and worklist_elem(f, a) is not None:
                self.err('phase', i, 'marking goes on after the threads have been let go to sweep')
            return st
        if self.pms:
            sz = f.asfield(a, 'FreeListNode', 'size') is not None or (f.mod.off('FreeListNode', 'size') is not None and self.fln_size(a))
            if isst and sz:
                if w not in (0, 4) or (w == 0 and col and held(st, WORLD)):
                    self.err('sizes', i, 'the sizes of free areas are put over the sizes of dead descriptors while other threads may still be sweeping')
                return st
            sweepst = isst and (f.asfield(a, 'GGGGC_Header', 'descriptor__ptr') is not None or f.asfield(a, 'GGGGC_Pool', 'survivors') is not None)
            if sweepst and k == 'own':
                if w != 3:
                    self.err('sweep', i, 'a thread sweeps its heap %s' % ('before all of the marking is done' if w < 3 else 'after the world has been released'))
                st = st.set('swept', 1)
        elif not col and 0 < w < N and (k in ('own', 'other')):
            self.err('mutate', i, 'a stopped thread %s its heap during a collection' % ('changes' if isst else 'reads'))
        return st

    def fln_size(self, a):
        return False

    def edge(self, st, a, b, c):
        st = try_edge(st, a, b, c)
        if self.role == 'yield' and c > 1:
            B = self.f.bdd
            at = [x for x in B.support(c) if x == ('eq0', ('ld', STOP, 4)) or (x[0] == 'eq0' and x[1][0] == 'ld' and x[1][1] == STOP)]
            for x in at:
                if B.implies(c, B.not_(B.var(x))):
                    st = st.set('asked', 1)
                elif B.implies(c, B.var(x)):
                    st = st.set('asked', 0)
        return st


def C14(ctx):
    texts14(ctx)
    publication(ctx)
    for cfg in ALL:
        N = 4 if is_pms(cfg) else 3
        parts = participants(ctx, cfg)
        names = sorted(f.name for f in parts)
        for nm in ('ggggc_collect0', 'ggggc_yield'):
            if nm not in names:
                ctx.check('handshake', ctx.func(cfg, nm), 'takes part', False, '%s takes part in no rendezvous' % nm)
        for f in parts:
            f.cfg = cfg
            handshake(ctx, f, N)


def texts14(ctx):
    ctx.rule('handshake', 'automaton over every path: lock the world, list own roots, raise the stop request, first rendezvous, request down, second rendezvous, work, (third before sweeping in the mark-and-sweep collector,) last rendezvous, unlock; a yielding thread: rendezvous, publish under the roots lock, rendezvous, nothing but its own sweep in its phase, last rendezvous')


def handshake(ctx, f, N):
    cfg = f.cfg
    role = 'yield' if f.name == 'ggggc_yield' else 'collect'
    runs = []
    if role == 'collect' and is_pms(cfg) and f.name == 'ggggc_collect0':
        a = ('eq0', mk_and(('arg', 0), 255))
        forms = [('eq0', ('arg', 0)), a]
        runs.append((St((('w', 0),)), {x: True for x in forms}, 'from the start'))
        runs.append((St((('held', ((WORLD, 'try'),)), ('pub', 9), ('w', 2))), {x: False for x in forms}, 'with the world stopped'))
    else:
        runs.append((St((('w', 0),)), {}, ''))
    for init, assume, what in runs:
        h = Handshake(ctx, f, role)
        A = Auto(f, h.step, edge=h.edge, assume=assume)
        A.run(init)
        label = 'handshake' + (' ' + what if what else '')
        if h.bad:
            for k, (i, d) in sorted(h.bad.items()):
                ctx.check('handshake', f, '%s: %s' % (label, k), False, d, i)
        else:
            ctx.check('handshake', f, label, True)
        ws = {w for w, hl, asked, sw in h.ends if role == 'collect' or asked}
        ok = ws <= ({N} if f.name in ('ggggc_collect0', 'ggggc_yield') else {0, N})
        ctx.check('handshake', f, label + ': number of rendezvous', ok, 'the function can end having taken part in %s rendezvous instead of %d' % (sorted(ws), N))
        if role == 'yield':
            ctx.check('handshake', f, 'stops when asked', N in ws and not any(w for w, hl, asked, sw in h.ends if not asked), 'a thread asked to stop does not, or one not asked does')
        ctx.notes.append('%s %s%s: %d states, %d accesses' % (cfg, f.name, ' ' + what if what else '', A.n, h.nacc))
        if is_pms(cfg):
            sw = [e for e in h.ends if e[0] == N and not e[3]]
            if f.name != 'ggggc_poolOf':
                pass


# --------------------------------------------------------- publication
NODES = [('GGGGC_PoolList', 'ggggc_rootPool0List', 'ggggc_blockedThreadPool0s', {'pool': 'ggggc_gen0'}),
         ('GGGGC_PointerStackList', 'ggggc_rootPointerStackList', 'ggggc_blockedThreadPointerStacks', {'pointerStack': 'ggggc_pointerStack'}),
         ('GGGGC_JITPointerStackList', 'ggggc_rootJITPointerStackList', 'ggggc_blockedThreadJITPointerStacks',
          {'cur': 'ggc_jitPointerStack', 'top': 'ggc_jitPointerStackEnd'})]


class Publish:
    """tracks the nodes a function links into a list, field by field"""
    def __init__(self, f, heads, prev):
        # heads: head global -> (struct, {field: source global}); prev: head ->
        # global the node's next must have been read from
        self.f = f; self.heads = heads; self.prev = prev; self.bad = {}

    def at(self, st, where, i):
        """all lists must be complete here"""
        f = self.f
        for h, (S, fields) in self.heads.items():
            node = st.get(('head', h))
            if node is None:
                self.bad.setdefault('%s not listed' % S, (i, 'at %s the thread has put nothing on %s' % (where, h)))
                continue
            for fl, g in list(fields.items()) + [('next', None)]:
                o = f.mod.off(S, fl)
                v = st.get(('fld', node, o))
                want = ('ld', ('g', g), 8) if g else ('fresh', self.prev[h])
                if v != want:
                    self.bad.setdefault('%s.%s' % (S, fl), (i, 'at %s the entry on %s has %s = %s instead of the value of %s' % (
                        where, h, fl, show(v, f) if v and v[0] != 'fresh' else ('its own list\'s head' if v else 'nothing set'), g or self.prev[h])))

    def step(self, i, st):
        f = self.f
        if i.op == 'store':
            a = f.term(i.ops[1]); v = f.term(i.ops[0])
            d = direct(f, a)
            if a[0] == 'g' and a[1] in self.heads:
                st = st.set(('head', a[1]), v)
                # what was read from the head before is not its value any more
                for k in st.keys():
                    if isinstance(k, tuple) and k[0] == 'rd' and st.get(k) == a[1]:
                        st = st.set(k, None)
            elif d is not None:
                c = sub(a, d)
                if c[0] == 'c' and f.ptypes(d) & {x[0] for x in self.heads.values()}:
                    if v[0] == 'ld' and v[1][0] == 'g' and v[1][1] in set(self.prev.values()):
                        # valid if read since the list last changed
                        ok = any(isinstance(k, tuple) and k[0] == 'rd' and st.get(k) == v[1][1] for k in st.keys())
                        st = st.set(('fld', d, c[1]), ('fresh', v[1][1]) if ok else ('stale', v[1][1]))
                    else:
                        st = st.set(('fld', d, c[1]), v)
        elif i.op == 'load':
            a = f.term(i.ops[0])
            if a[0] == 'g' and a[1] in set(self.prev.values()):
                st = st.set(('rd', i.id), a[1])
        return st


def publication(ctx):
    ctx.rule('publish', 'the node put on each root list holds the thread\'s own pools, root stack and JIT stack, and continues with the rest of the list, at the point from which a collection may read it')
    for cfg in ALL:
        jit = None
        for f in participants(ctx, cfg):
            f.cfg = cfg
            m = f.mod
            ns = [n for n in NODES if m.off(n[0], list(n[3])[0]) is not None]
            role = 'yield' if f.name == 'ggggc_yield' else 'collect'
            heads = {n[1]: (n[0], n[3]) for n in ns}
            prev = {n[1]: (n[1] if role == 'yield' else n[2]) for n in ns}
            P = Publish(f, heads, prev)

            def step(i, st, f=f, P=P, role=role):
                st = P.step(i, st)
                if i.is_call() and waits(f, i):
                    w = st.get('w', 0)
                    if (role == 'yield' and w == 1) or (role == 'collect' and w == 0):
                        P.at(st, 'the %s rendezvous' % ('second' if role == 'yield' else 'first'), i)
                    if w >= 2:
                        return None
                    return st.set('w', w + 1)
                return st
            assume = {}
            init = St((('w', 0),))
            if role == 'collect' and is_pms(cfg) and f.name == 'ggggc_collect0':
                assume = {('eq0', ('arg', 0)): True, ('eq0', mk_and(('arg', 0), 255)): True}
            Auto(f, step, assume=assume).run(init)
            for h, (S, fl) in heads.items():
                bad = [(k, x) for k, x in P.bad.items() if k.startswith(S)]
                ctx.check('publish', f, '%s on %s' % (S, h), not bad, '; '.join(x[1] for k, x in bad), bad[0][1][0] if bad else None)
        # blocked threads
        f = ctx.func(cfg, 'ggc_pre_blocking')
        ns = [n for n in NODES if f.mod.off(n[0], list(n[3])[0]) is not None]
        heads = {n[2]: (n[0], n[3]) for n in ns}
        prev = {n[2]: n[2] for n in ns}
        P = Publish(f, heads, prev)

        def step2(i, st):
            if i.is_call() and i.callee() in UNLOCKFN and f.term(i.ops[0]) == WORLD:
                P.at(st, 'the release of the world lock', i)
            if i.op == 'ret':
                P.at(st, 'the end', i)
            return P.step(i, st)
        Auto(f, step2).run(St())
        for h, (S, fl) in heads.items():
            bad = [(k, x) for k, x in P.bad.items() if k.startswith(S)]
            ctx.check('publish', f, '%s on %s' % (S, h), not bad, '; '.join(x[1] for k, x in bad), bad[0][1][0] if bad else None)
            for k in list(P.bad):
                pass


# -------------------------------------------------------------------- C15
class Count:
    """the number of threads and the barrier, in values relative to what the
    number was when the lock was taken"""
    def __init__(self, ctx, f, entry_inited):
        self.ctx = ctx; self.f = f; self.bad = {}; self.entry = entry_inited
        self.nets = set(); self.stores = 0

    def err(self, what, i, d):
        self.bad.setdefault(what, (i, d))

    def val(self, op, st):
        """abstract value of an operand: ('n', k) the number at the start plus
        k, ('c', k), or None"""
        f = self.f
        if op[0] == 'c':
            return ('c', op[1])
        if op[0] != 'v' or op[1] in f.argids:
            return None
        v = st.get(('val', op[1]))
        if v is not None:
            return v
        ins = f.ins[op[1]]
        if ins.op in ('add', 'sub'):
            a = self.val(ins.ops[0], st); b = self.val(ins.ops[1], st)
            if ins.op == 'sub' and b and b[0] == 'c' and a:
                return (a[0], a[1] - b[1])
            if ins.op == 'add' and a and b:
                if b[0] == 'c':
                    return (a[0], a[1] + b[1])
                if a[0] == 'c':
                    return (b[0], a[1] + b[1])
        if ins.op in ('trunc', 'zext', 'sext', 'freeze'):
            return self.val(ins.ops[0], st)
        return None

    def step(self, i, st):
        f = self.f
        st0 = st
        st = lock_step(f, i, st, lambda k, i, l: None)
        if i.op == 'load' and f.term(i.ops[0]) == COUNT:
            if not held(st, WORLD):
                self.err('read', i, 'the number of threads is read without the world lock')
            return st.set(('val', i.id), st.get('cnt', ('n', 0)))
        if i.op == 'store' and f.term(i.ops[1]) == COUNT:
            self.stores += 1
            v = self.val(i.ops[0], st)
            if not held(st, WORLD):
                self.err('locked', i, 'the number of threads is changed without the world lock')
            if v is None:
                self.err('value', i, 'the number of threads becomes something other than its old value, or 1, plus or minus a constant')
                v = ('?', 0)
            return st.upd(cnt=v, sync=None)
        if i.is_call():
            c = i.callee()
            if c == 'pthread_barrier_destroy' and f.term(i.ops[0]) == BARRIER:
                if not held(st, WORLD):
                    self.err('destroy lock', i, 'the world barrier is destroyed without the world lock')
                if st.get('bar') == 'gone':
                    self.err('destroy twice', i, 'the world barrier is destroyed twice')
                if st.get('none'):
                    self.err('destroy none', i, 'the world barrier is destroyed although there was none yet')
                elif self.entry == 'maybe0':
                    if not self.nonzero(('n', 0), st):
                        self.err('destroy empty', i, 'the world barrier is destroyed although there is none when every thread is blocked')
                elif not st.get('some') and not self.entry:
                    self.err('destroy unknown', i, 'the world barrier is destroyed without knowing that there is one')
                return st.set('bar', 'gone')
            if c == 'pthread_barrier_init' and f.term(i.ops[0]) == BARRIER:
                if not held(st, WORLD):
                    self.err('init lock', i, 'the world barrier is initialised without the world lock')
                if st.get('bar') != 'gone' and not st.get('none') and not (self.entry == 'maybe0' and self.iszero(('n', 0), st)):
                    self.err('init live', i, 'the world barrier is initialised again without having been destroyed')
                v = self.val(i.ops[2], st)
                cur = st.get('cnt', ('n', 0))
                if v is None or v != cur:
                    self.err('init count', i, 'the world barrier is initialised to %s, not to the number of threads' % show(f.term(i.ops[2]), f))
                elif not self.nonzero(v, st):
                    self.err('init empty', i, 'the world barrier is initialised for a number of threads which may be 0, which fails')
                return st.upd(bar='made', sync=1, none=None, some=1)
            if c in UNLOCKFN and f.term(i.ops[0]) == WORLD:
                cur = st.get('cnt', ('n', 0))
                if self.iszero(cur, st) and (st.get('bar') == 'gone' or st.get('none')):
                    return st
                if cur != ('n', 0) and not st.get('sync'):
                    self.err('unlock', i, 'the world lock is released with the barrier not set to the new number of threads')
                if st.get('bar') == 'gone':
                    self.err('no barrier', i, 'the world lock is released with no barrier')
                return st
            if c == 'pthread_create':
                st = st.set('created', 1)
                self.at_create(i, st)
        if i.op == 'ret':
            self.end(i, st)
        return st

    def nonzero(self, v, st):
        """is the value known not to be 0? The thread itself is counted, but
        when it resumes or has resumed"""
        if v[0] == 'c':
            return v[1] != 0
        if v[0] != 'n':
            return False
        k = v[1]
        if k > 0 or (k == 0 and self.entry != 'maybe0'):
            return True
        e = st.get('neq')
        return (e is not None and e + k != 0) or -k in st.get('nne', ())

    def iszero(self, v, st):
        if v[0] == 'c':
            return v[1] == 0
        return v[0] == 'n' and st.get('neq') is not None and st.get('neq') + v[1] == 0

    def net(self, st):
        """how many more threads are counted than before"""
        cur = st.get('cnt', ('n', 0))
        if cur[0] == 'n':
            return cur[1]
        if cur[0] == 'c':
            return cur[1] - 1      # a program which never counted has one
        return None

    def at_create(self, i, st):
        if self.net(st) != 1 or held(st, WORLD):
            self.err('create', i, 'a thread is started before it has been counted and the lock released')

    def end(self, i, st):
        r = None
        # was creation said to have failed?
        fail = st.get('failed')
        self.nets.add((self.net(st), fail, bool(st.get('created'))))

    def edge(self, st, a, b, c):
        f = self.f; B = f.bdd
        st = try_edge(st, a, b, c)
        br = f.blocks[a][-1]
        if br.op == 'br' and br.ops and br.ops[0][0] == 'v' and br.ops[0][1] in f.ins and len(set(br.d.get('succ', ()))) == 2:
            ic = f.ins[br.ops[0][1]]
            if ic.op == 'icmp' and ic.d.get('pred') in ('eq', 'ne', 'ugt', 'ult', 'sgt'):
                l = self.val(ic.ops[0], st); r = self.val(ic.ops[1], st); pr = ic.d['pred']
                k = None
                if l and r and r[0] == 'c':
                    if pr in ('eq', 'ne'):
                        k = r[1]
                    elif (pr in ('ugt', 'sgt') and r[1] == 0) or (pr == 'ult' and r[1] == 1):
                        k = 0; pr = 'eq' if pr == 'ult' else 'ne'
                if k is not None and k < M64 - 1 and l[0] in 'nc':
                    taken = br.d['succ'][0] == b
                    iseq = taken == (pr == 'eq')
                    if l[0] == 'c':
                        if (l[1] == k) != iseq:
                            return None
                    elif iseq:
                        if st.get('neq') not in (None, k - l[1]) or k - l[1] in st.get('nne', ()):
                            return None
                        st = st.set('neq', k - l[1])
                    else:
                        if st.get('neq') == k - l[1]:
                            return None
                        st = st.set('nne', tuple(sorted(set(st.get('nne', ())) | {k - l[1]})))
        if c > 1:
            for at in B.support(c):
                if at[0] == 'eq' and ('ld', COUNT, 8) in at and (C(-1) in at or C(M64) in at):
                    if B.implies(c, B.var(at)):
                        st = st.set('none', 1)
                    elif B.implies(c, B.not_(B.var(at))):
                        st = st.set('some', 1)
                if at[0] == 'eq0' and at[1][0] == 'call' and at[1][2] == 'pthread_create':
                    if B.implies(c, B.var(at)):
                        st = st.set('failed', 0)
                    elif B.implies(c, B.not_(B.var(at))):
                        st = st.set('failed', 1)
        # values of merges
        vals = []
        for i in f.blocks[b]:
            if i.op != 'phi':
                break
            for o, p in i.d['inc']:
                if p == a:
                    vals.append((i.id, self.val(o, st)))
        for v, x in vals:
            if x is not None and x[0] == 'n' or st.get(('val', v)) is not None:
                st = st.set(('val', v), x)
        return st


def C15(ctx):
    ctx.rule('count', 'typestate: the number of threads changes only under the world lock, by a constant, and before the lock is released the barrier has been destroyed (if there was one) and initialised to that very number')
    ctx.rule('net', 'net change per operation: starting a thread +1 before it runs, and back if it could not be started; the end of a thread -1; blocking -1, resuming +1; anything else 0')
    ctx.rule('start', 'a thread is counted before it is made, with no collection point of the creator in between')
    ctx.rule('run', 'a thread takes part in no collection after it has left the count')
    for cfg in ALL:
        seen = set()
        for f in ctx.funcs(cfg):
            touches = any((i.op == 'store' and f.term(i.ops[1]) == COUNT) or
                          (i.is_call() and (i.callee() or '').startswith('pthread_barrier_') and not (i.callee() or '').endswith('wait') and i.ops and f.term(i.ops[0]) == BARRIER)
                          for b in f.order for i in f.blocks[b])
            if not touches:
                continue
            wrapper = is_wrapper(f)
            role = 'wrapper' if wrapper else f.name
            seen.add(role)
            K = Count(ctx, f, 'maybe0' if f.name == 'ggc_post_blocking' else wrapper)
            assume = {}
            if is_pms(cfg) and f.name == 'ggggc_collect0':
                assume = {('eq0', ('arg', 0)): True, ('eq0', mk_and(('arg', 0), 255)): True}
            Auto(f, K.step, edge=K.edge, assume=assume).run(St())
            if K.bad:
                for k, (i, d) in sorted(K.bad.items()):
                    ctx.check('count', f, k, False, d, i)
            else:
                ctx.check('count', f, 'barrier and count', True)
            want = {'wrapper': -1, 'ggc_pre_blocking': -1, 'ggc_post_blocking': 1}.get(role, 0)
            if role == 'ggc_thread_create':
                for n, fail, created in K.nets:
                    ok = created and n == (0 if fail else 1) and fail is not None
                    ctx.check('net', f, 'a started thread' if fail == 0 else 'a thread which could not be started', ok,
                              'a thread %s and the count changes by %s' % ('could not be started' if fail else 'is (or may have been) started', n))
            else:
                for n, fail, created in K.nets:
                    ctx.check('net', f, 'net change', n == want, 'the number of threads changes by %s instead of %d' % (n, want))
        for r in ('wrapper', 'ggc_pre_blocking', 'ggc_post_blocking', 'ggc_thread_create'):
            if r not in seen:
                g = ctx.func(cfg, r) if r != 'wrapper' else 'thread wrapper'
                ctx.check('net', g, 'changes the count', False, 'the number of threads is not changed')
        # whoever collects first makes the barrier
        for f in participants(ctx, cfg):
            if f.name != 'ggggc_yield':
                made(ctx, f, cfg)
        # nobody waits, or lets others wait, for a thread which does not run
        from . import rules_thread
        rules_thread.creator(ctx, cfg, {'count'})
        rules_thread.wrapper(ctx, cfg, False, {'collects after leaving', 'stays', 'late'})


def made(ctx, f, cfg):
    ctx.rule('made', 'a collection makes the barrier, for one thread, if there was none')
    bad = []

    def step(i, st):
        st = lock_step(f, i, st, lambda k, i, l: None)
        if i.is_call():
            if i.callee() == 'pthread_barrier_init' and f.term(i.ops[0]) == BARRIER:
                st = st.set('ok', 1)
            if waits(f, i):
                if not st.get('ok'):
                    bad.append(i)
                return None
        return st

    def edge(st, a, b, c):
        st = try_edge(st, a, b, c)
        B = f.bdd
        if c > 1:
            for at in B.support(c):
                if at[0] == 'eq' and ('ld', COUNT, 8) in at and (C(-1) in at or C(M64) in at):
                    if B.implies(c, B.not_(B.var(at))):
                        st = st.set('ok', 1)
        return st
    assume = {}
    if is_pms(cfg) and f.name == 'ggggc_collect0':
        assume = {('eq0', ('arg', 0)): True, ('eq0', mk_and(('arg', 0), 255)): True}
    Auto(f, step, edge=edge, assume=assume).run(St())
    ctx.check('made', f, 'barrier exists', not bad, 'the world barrier may be waited for before it has been made', bad[0] if bad else None)


def is_wrapper(f):
    """the function every new thread starts in"""
    m = f.mod
    w = f.__dict__.get('_wr')
    if w is None:
        w = False
        for g in m.funcs.values():
            for i, c in calls(g, 'pthread_create'):
                if f.term and g.term(i.ops[2]) == ('f', f.name):
                    w = True
        f.__dict__['_wr'] = w
    return w


# -------------------------------------------------------------------- C16
WRAPPERS = {'ggc_mutex_lock': 'pthread_mutex_lock', 'ggc_barrier_wait': 'pthread_barrier_wait',
            'ggc_sem_wait': 'sem_wait', 'ggc_thread_join': 'pthread_join'}
BLOCKCALLS = set(WRAPPERS.values()) | {'pthread_cond_wait', 'sem_timedwait'}


def C16(ctx):
    ctx.rule('blocking', 'typestate on every path: leave the counted world, the operation exactly once on the caller\'s object, re-enter the counted world, each exactly once')
    ctx.rule('outcome', 'the result is 0 exactly if the operation succeeded and -1 otherwise, and on failure errno is what the operation reported')
    publication(ctx)
    for cfg in ALL:
        for name, op in WRAPPERS.items():
            f = ctx.func(cfg, name)
            wrapper(ctx, f, op)
        from . import rules_lists
        rules_lists.unlink_own(ctx, cfg)
        ctx.rule('restores', 'blocking and resuming leave nothing else changed, and each takes and releases the world lock once')
        for name in ('ggc_pre_blocking', 'ggc_post_blocking'):
            f = ctx.func(cfg, name)
            lock_once(ctx, f)
    C15sub(ctx)


def C15sub(ctx):
    for cfg in ALL:
        for name, want in (('ggc_pre_blocking', -1), ('ggc_post_blocking', 1)):
            f = ctx.func(cfg, name)
            K = Count(ctx, f, 'maybe0' if name == 'ggc_post_blocking' else False)
            Auto(f, K.step, edge=K.edge).run(St())
            ctx.rule('leaves', 'blocking takes the thread out of the counted world, resuming puts it back')
            ctx.check('leaves', f, 'net change', {n for n, a, b in K.nets} == {want}, 'the number of threads changes by %s instead of %d' % (sorted(map(str, {n for n, a, b in K.nets})), want))


def lock_once(ctx, f):
    ends = []

    def step(i, st):
        h0 = held(st, WORLD)
        st = lock_step(f, i, st, lambda k, i, l: None)
        if h0 and not held(st, WORLD):
            st = st.set('n', st.get('n', 0) + 1)
        a = accesses(i, f)
        for x, s, v in a:
            d = direct(f, x)
            if s and d and d[0] == 'g' and not tls(f, d) and not held(st, WORLD):
                ends.append((i, 'shared state (%s) is changed without the world lock' % d[1]))
        if i.op == 'ret' and (st.get('n') != 1 or held(st, WORLD)):
            ends.append((i, 'the world lock is taken and released %d times' % st.get('n', 0)))
        if st.get('n', 0) > 2:
            return None
        return st
    Auto(f, step, edge=try_edge).run(St())
    ctx.check('restores', f, 'world lock', not ends, ends[0][1] if ends else '', ends[0][0] if ends else None)


def wrapper(ctx, f, op):
    B = f.bdd
    bad = {}
    ends = []

    def step(i, st):
        p = st.get('p', 0)
        if i.is_call():
            c = i.callee()
            if c == 'ggc_pre_blocking':
                if p != 0:
                    bad.setdefault('leaves', (i, 'the counted world is left twice' if p == 1 else 'the counted world is left after the operation'))
                return st.set('p', 1)
            if c == 'ggc_post_blocking':
                if p != 2:
                    bad.setdefault('enters', (i, 'the counted world is re-entered %s' % ('before the operation' if p < 2 else 'twice')))
                return st.set('p', 3)
            if c == op:
                if p != 1:
                    bad.setdefault('blocks', (i, 'the thread blocks %s' % ('without having left the counted world' if p == 0 else 'again' if p == 2 else 'after having re-entered the counted world')))
                if f.term(i.ops[0]) != ('arg', 0):
                    bad.setdefault('object', (i, 'the operation is not done on what the caller gave'))
                return st.upd(p=2, op=i.id, errno=None)
            if c in BLOCKCALLS:
                bad.setdefault('other', (i, 'another operation (%s) is done' % c))
        if i.op == 'store':
            a = f.term(i.ops[1])
            if a[0] == 'call' and a[2] == '__errno_location':
                st = st.set('errno', i.id)
        if i.op == 'load':
            a = f.term(i.ops[0])
            if a[0] == 'call' and a[2] == '__errno_location':
                st = st.set(('er', i.id), 'op' if p == 2 else 'late')
        if i.op == 'ret':
            if p != 3:
                bad.setdefault('end', (i, 'the function can return %s' % ('without having blocked at all' if p == 0 else 'with the thread still out of the counted world')))
            ends.append((i, st))
        return st
    Auto(f, step).run(St())
    for k, (i, d) in sorted(bad.items()):
        ctx.check('blocking', f, k, False, d, i)
    if not bad:
        ctx.check('blocking', f, 'leave, operate, re-enter', True)
    # outcome
    ops = [i for i, c in calls(f, op)]
    if len(ops) != 1:
        return
    k = f.term(['v', ops[0].id])
    succ = B.var(('eq0', k))
    if op == 'pthread_barrier_wait':
        succ = B.or_(succ, f.cmp('eq', k, C(-1)))
    ps = paths(f)
    if ps is None:
        ctx.check('outcome', f, 'result', False, 'the operation may be repeated', ops[0])
        return
    isfail = B.not_(succ)
    seen_posts = [j for j, c2 in calls(f, 'ggc_post_blocking')]

    def fold(c):
        # sem_wait reports through errno, which is then not 0
        if op == 'sem_wait':
            for at in list(B.support(c)):
                if at[0] == 'eq0' and errno_load(at[1]):
                    c = B.restrict(c, at, False)
        return c
    badr = None; bade = None; cov = B.false
    for c, env, tr in ps:
        c = fold(c)
        cov = B.or_(cov, c)
        r = f.term_instr(tr[-1])
        if r.op != 'ret':
            continue
        t = resub(f, f.term(r.ops[0]), env)
        for rc, rv in cases_of(f, t):
            rc = B.and_(fold(rc), c)
            if rc == B.false:
                continue
            if rv == NULL:
                if not B.implies(rc, succ):
                    badr = 'the result is 0 when %s' % showg(f, rc)
            elif rv[0] == 'c' and (rv[1] & 0xffffffff) == 0xffffffff:
                if not B.implies(rc, isfail):
                    badr = 'the result is -1 when %s' % showg(f, rc)
            else:
                badr = 'the result is %s' % show(rv, f)
        # errno on this path
        fc = B.and_(c, isfail)
        if fc == B.false:
            continue
        last = None
        for b in tr:
            for i in f.blocks[b]:
                if i.op == 'store' and errno_loc(f.term(i.ops[1])):
                    last = i
        if last is None:
            if op == 'sem_wait' and False:
                continue
            bade = 'errno is not set when %s' % showg(f, fc)
            continue
        v = resub(f, f.term(last.ops[0]), env)
        for vc, vv in cases_of(f, v):
            vc = B.and_(fold(vc), fc)
            if vc == B.false:
                continue
            if op == 'sem_wait':
                good = errno_load(vv)
                lds = [j for b in tr for j in f.blocks[b] if j.op == 'load' and errno_loc(f.term(j.ops[0]))]
                good = good and any(f.idominates(ops[0], j) and not any(f.idominates(q, j) for q in seen_posts) for j in lds)
            else:
                good = vv == k
            if not good:
                bade = 'errno becomes %s when %s' % (show(vv, f), showg(f, vc))
    ctx.check('outcome', f, 'result', badr is None, badr or '', ops[0])
    ctx.check('outcome', f, 'errno', bade is None, bade or '', ops[0])


def errno_loc(t):
    return t[0] == 'call' and t[2] == '__errno_location'


def errno_load(t):
    return t[0] == 'ld' and errno_loc(t[1])


def cases_of(f, t):
    B = f.bdd
    if t[0] == 'sel':
        out = []
        for c, v in ((t[1], t[2]), (B.not_(t[1]), t[3])):
            for c2, v2 in cases_of(f, v):
                out.append((B.and_(c, c2), v2))
        return out
    if t[0] == 'bool':
        return [(t[1], C(1)), (B.not_(t[1]), NULL)]
    if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][0][0] in ('bool', 'sel'):
        return [(c, lin(t[1], [(v, t[2][0][1])])) for c, v in cases_of(f, t[2][0][0])]
    return [(B.true, t)]
