"""Locks: C17."""
import re
from .core import *
from .trav import *
from .auto import *
from .rules_sync import *

CONFS = ALL + ['malloc', 'sbrk', 'portal', 'mmap', 'genbar', 'nognuc', 'cxx']

# written only while the world is stopped (or by the stopping and publishing
# threads themselves, which C14 checks), or under no lock by design
STOPPED = {'ggggc_rootPool0List', 'ggggc_rootPointerStackList', 'ggggc_rootJITPointerStackList', 'ggggc_gens', 'ggggc_pools',
           'toSearchList', 'ggggc_stopTheWorld'}
DOUBLE = ('GGGGC_DescriptorSlot', 'descriptor')


def lname(f, l):
    if l[0] == 'g':
        return l[1]
    return show(l, f)


def cond_loads(f, b):
    """the loads the condition at the end of a block is made of"""
    t = f.term_instr(b)
    out = []; seen = set()
    st = [o for o in (t.ops[:1] if t.op in ('br', 'switch', 'condbr') else t.ops[:1])] if t else []
    while st:
        o = st.pop()
        if not o or o[0] != 'v' or o[1] in seen:
            continue
        seen.add(o[1])
        i = f.ins.get(o[1])
        if i is None:
            continue
        if i.op == 'load':
            out.append(i)
            continue
        if i.op == 'phi':
            st.extend(x for x, p in i.d['inc'])
        elif not i.is_call():
            st.extend(i.ops)
    return out


def same_lockgroup(f, a, l, st):
    return True


class Locks:
    def __init__(self, ctx, f):
        self.ctx = ctx; self.f = f; self.bad = {}
        self.n = 0
        self.stores = []      # (instr, variable, locks)
        self.derefs = []
        self.calls = []       # (callee, locks)
        self.acquired = set()
        self.order = set()

    def err(self, k, i, d):
        self.bad.setdefault(k, (i, d))

    def step(self, i, st):
        f = self.f; ctx = self.ctx
        ev, l = lock_event(f, i)
        if ev and l[0] == 'arg' and f.name in WRAPPERS:
            return st          # the caller's lock
        if ev == 'api':
            return st
        if ev in ('lock', 'try'):
            self.n += 1
            self.acquired.add(l)
            for h, k in st.get('held', ()):
                if h != l:
                    self.order.add((h, l, i))
        if ev in ('lock', 'try') and l == WORLD:
            if st.get('spin') and ev == 'try' and f.name != 'ggc_post_blocking':
                self.err('spins', i, 'the world lock is tried again without having yielded to the collection that may hold it')
            st = st.set('spin', None)
        if ev == 'lock' and l == WORLD and f.name != 'ggc_post_blocking':
            self.err('blocks', i, 'a thread which the collector waits for blocks on the lock that a collection holds throughout')

        def rep(kind, j, l):
            if kind == 'again':
                self.err('again ' + lname(f, l), j, 'the lock %s is acquired by its holder' % lname(f, l))
            else:
                self.err('not held ' + lname(f, l), j, 'the lock %s is released without being held' % lname(f, l))
        st = lock_step(f, i, st, rep)
        if ev == 'unlock':
            for k in st.keys():
                if isinstance(k, tuple) and k[0] == 'ldl' and st.get(k) == l:
                    st = st.set(k, None)
            st = st.set(('tested', l), None)
        hs = st.get('held', ())
        if ev is None and i.is_call():
            c = i.callee()
            if c == 'ggggc_yield':
                st = st.set('spin', None)
                if f.name == 'ggc_post_blocking':
                    self.err('yields', i, 'a thread which is not counted yet takes part in a collection')
            if waits(f, i):
                for h, k in hs:
                    if h != WORLD:
                        self.err('rendezvous ' + lname(f, h), i, 'the world barrier is waited for with %s held' % lname(f, h))
            if c == 'ggggc_collect0' and is_pms(f.cfg) and f.term(i.ops[0])[0] == 'c' and f.term(i.ops[0])[1] != 0:
                if not any(h == WORLD for h, k in hs):
                    self.err('stopped', i, 'the world is taken to be stopped, but the world lock is not held')
                hs = tuple(x for x in hs if x[0] != WORLD)
                st = st.set('held', hs or None)
            if c and hs:
                self.calls.append((c, tuple(h for h, k in hs), i))
            if hs and collects(ctx, f, i):
                for h, k in hs:
                    self.err('collects ' + lname(f, h), i, '%s may run or wait for a collection with %s held' % (c or 'the callback', lname(f, h)))
            if c in BLOCKCALLS or c == 'sem_wait':
                for h, k in hs:
                    if not (f.name == 'ggc_barrier_wait_raw' and h[0] != 'g') and c != 'pthread_mutex_lock' and not waits(f, i):
                        self.err('blocked ' + lname(f, h), i, '%s blocks with %s held' % (c, lname(f, h)))
        for a, isst, v in accesses(i, f):
            for u in subterms(a):
                if u[0] == 'ld' and u != a:
                    k = self.variable(u[1])
                    if k is not None and k[0] == 'g':
                        self.derefs.append((i, k, tuple(h for h, kk in hs)))
            key = self.variable(a)
            if key is None:
                continue
            if isst:
                self.stores.append((i, key, tuple(h for h, k in hs), any(isinstance(k, tuple) and k[0] == 'tested' for k in st.keys())))
            elif i.op == 'load':
                for h, k in hs:
                    st = st.set(('ldl', i.id), h)
        if i.op == 'ret':
            for h, k in hs:
                self.err('kept ' + lname(f, h), i, 'the function can return with %s held' % lname(f, h))
        return st

    def variable(self, a):
        """the shared variable an address belongs to"""
        f = self.f
        d = direct(f, a)
        if d is not None and d[0] == 'g' and not tls(f, d):
            g = f.mod.globals.get(d[1])
            if g and g.get('const'):
                return None
            return ('g', d[1])
        if f.asfield(a, *DOUBLE) is not None:
            return ('field',) + DOUBLE
        return None

    def edge(self, st, a, b, c):
        st = try_edge(st, a, b, c)
        f = self.f
        # a failed try for the world lock
        t = f.term_instr(a)
        for i in f.blocks[a]:
            pass
        w = st.get('wtry')
        for k in st.keys():
            if isinstance(k, tuple) and k[0] == 'lit' and k[1][0] == 'eq0' and k[1][1][0] == 'call' and k[1][1][2] in TRYFN and st.get(k) is False:
                j = f.ins[k[1][1][1]]
                if f.term(j.ops[0]) == WORLD and not st.get(('failed', j.id)):
                    st = st.set('spin', 1).set(('failed', j.id), 1)
        if st.get('spin'):
            B = f.bdd
            at = ('eq0', ('ld', STOP, 4))
            if B.implies(c, B.var(at)):
                st = st.set('spin', None)
        for i in f.blocks[b]:
            if i.is_call() and i.callee() in TRYFN:
                st = st.set(('failed', i.id), None)
        if c != f.bdd.true:
            for ldi in cond_loads(f, a):
                l = st.get(('ldl', ldi.id))
                if l is not None:
                    st = st.set(('tested', l), 1)
        return st


def C17(ctx):
    ctx.rule('pairing', 'every lock taken is released on every way out, and never taken again by its holder or released by anyone else')
    ctx.rule('no collection', 'no lock is held while a collection may run or be waited for; the world lock only by the collecting thread, between stopping and restarting the world')
    ctx.rule('spin', 'a thread that finds the world lock taken yields before trying again (or finds that there is nothing to yield to)')
    ctx.rule('guarded', 'every write of a shared variable happens under one common lock')
    ctx.rule('recheck', 'what was found out without the lock is found out again under it before it is acted upon')
    ctx.rule('order', 'locks are never acquired in opposite orders, nor by a function whose caller holds them')
    for cfg in CONFS:
        locks = {}; byname = {}
        vars = {}; derefs = {}
        try:
            fs = ctx.funcs(cfg)
        except (Broken, build.BuildError):
            if cfg in ALL:
                raise
            continue
        for f in fs:
            if f.name in byname:
                continue
            byname[f.name] = f
            L = Locks(ctx, f)
            runs = [(St(), ())]
            if is_pms(cfg) or cfg == 'portal':
                if f.name == 'ggggc_collect0':
                    at = ('eq0', ('arg', 0))
                    runs = [(St(), {at: True}), (St((('held', ((WORLD, 'try'),)),)), {at: False})]
            f.cfg = cfg
            for init, asm in runs:
                Auto(f, L.step, edge=L.edge, assume=asm).run(init)
            locks[f.name] = L
            for k, (i, d) in sorted(L.bad.items()):
                rule = 'no collection' if k.startswith(('collects', 'rendezvous', 'blocked', 'stopped')) else 'spin' if k in ('spins', 'blocks', 'yields') else 'pairing'
                ctx.check(rule, f, k, False, d, i)
            if not L.bad and (L.n or L.acquired):
                ctx.check('pairing', f, 'locks', True)
                ctx.check('no collection', f, 'calls', True)
            for i, key, hs, tested in L.stores:
                vars.setdefault(key, []).append((f, i, hs, tested))
            for i, key, hs in L.derefs:
                derefs.setdefault(key, []).append((f, i, hs))
        # who acquires what
        acq = {n: {l for l in L.acquired if l[0] == 'g'} for n, L in locks.items()}
        ch = True
        callees = {n: {c for i, c in calls(byname[n]) if c in locks} for n in locks}
        while ch:
            ch = False
            for n in acq:
                for c in callees[n]:
                    if not acq[c] <= acq[n]:
                        acq[n] |= acq[c]; ch = True
        order = {}
        for n, L in locks.items():
            for h, l, i in L.order:
                if h[0] == 'g' or l[0] == 'g':
                    order.setdefault(norm(L.f, h), {}).setdefault(norm(L.f, l), (L.f, i))
            for c, hs, i in L.calls:
                if c in acq:
                    for h in hs:
                        if h in acq[c] and not (c == 'ggggc_collect0' and h == WORLD):
                            ctx.check('order', L.f, '%s in %s' % (lname(L.f, h), c), False, 'calls %s, which acquires %s, with that lock held' % (c, lname(L.f, h)), i)
                        for l in acq[c]:
                            if l != h:
                                order.setdefault(norm(L.f, h), {}).setdefault(l, (L.f, i))
        for a in order:
            for b in order[a]:
                f, i = order[a][b]
                seen = set(); st = [b]
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x); st.extend(order.get(x, ()))
                ctx.check('order', f, '%s then %s' % (a[1], b[1]), a not in seen, 'the locks %s and %s are taken in both orders' % (a[1], b[1]), i)
        # which lock guards what
        for key, ws in sorted(vars.items(), key=repr):
            if key[0] == 'g' and (key[1] in STOPPED or re.sub(r'^_ZL\d+', '', key[1]) in STOPPED):
                continue
            name = key[1] if key[0] == 'g' else '%s.%s' % key[1:]
            if key[0] == 'field':
                for f, i, hs, tested in ws:
                    a = accesses(i, f)[0][0]
                    o = f.asfield(a, *DOUBLE)
                    lk = add(o, C(f.mod.off('GGGGC_DescriptorSlot', 'lock'))) if o is not None else None
                    ctx.check('guarded', f, name, lk in hs, 'a descriptor slot is filled without its lock', i)
                    if lk in hs:
                        ctx.check('recheck', f, name, tested, 'the slot is filled without having been found empty under the lock', i)
                continue
            common = None
            for f, i, hs, tested in ws:
                g = {norm(f, h) for h in hs}
                if not g and init_only(ctx, f):
                    continue
                common = g if common is None else common & g
            if common is None:
                continue
            bad = next(((f, i) for f, i, hs, t in ws if not hs), (ws[0][0], ws[0][1]))
            ctx.check('guarded', bad[0], name, bool(common), 'the shared variable %s is written without the lock that guards it' % name, bad[1])
            if common:
                for f, i, hs in derefs.get(key, ()):
                    ok = bool(common & {norm(f, h) for h in hs})
                    if not ok:
                        ctx.check('guarded', f, name + ' followed', False, 'what %s points to is used without the lock that guards it' % name, i)
            # read without the lock anywhere: test again before writing
            dc = any(unlocked_test(byname[n], locks[n], key) for n in locks)
            if dc and common:
                for f, i, hs, tested in ws:
                    ctx.check('recheck', f, name, tested, '%s was tested without the lock and is changed without having been tested again under it' % name, i)


def norm(f, l):
    """a lock in terms which mean the same in every function"""
    if l[0] == 'g':
        return l
    return ('s', show(l, f))


def init_only(ctx, f):
    return False


def unlocked_test(f, L, key):
    """is the variable read without any lock to decide whether to take it?"""
    hit = []

    def step(i, st):
        st = lock_step(f, i, st, lambda k, i, l: None)
        if i.op == 'load' and not st.get('held') and L.variable(f.term(i.ops[0])) == key:
            hit.append(i)
        return st
    if not any(L.variable(a) == key for i, a in loads(f)):
        return False
    asm = ()
    Auto(f, step, edge=try_edge, assume=asm).run(St())
    return bool(hit)
