"""Finalizers (C19): registration, running, and what collections do with the
entries, on small symbolic heaps."""
from .core import *
from .heap import *
from .trav import *
from .rules_alloc import canary_of, record
from .rules_promo import BARRIER, memset_recorder
from .rules_full import newheap, outcome, aborts, is_btcall
from .rules_scan import exttag

GEM = ['g2all', 'g3all', 'g1all', 'g2ext', 'g2dbg']
FIN = ['g2fin', 'g3fin', 'g2xfin']
PMSF = ['pmsall', 'pmsext', 'pmsdbg']
ENTRY = 'GGGGC_FinalizerEntry__ggggc_struct'


class FHeap:
    """objects of given generations, each with two references, and finalizer
    entries"""

    def __init__(self, ctx, f, objs, entries, moved=()):
        m = self.m = f.mod; self.f = f
        self.I, self.st = newheap(ctx, f)
        I = self.I
        I.maxlen = 400000; I.budget = 20
        aborts(I)
        memset_recorder(I, m)
        self.c = c = self.st.mem
        self.cn = canary_of(m)
        self.h = 2 if self.cn else 1
        self.ext = exttag(f)
        self.NG = m.consts['GGGGC_GENERATIONS']
        o = self.o = lambda x: m.off('GGGGC_Pool', x)
        self.fo = {x: m.off(ENTRY, x + s) for x, s in (('next', '__ptr'), ('obj', '__ptr'), ('finalizer', '__data'))}
        self.pools = {}
        for g in range(self.NG):
            self.pools[g] = self.pool('pool of generation %d' % g, g)
        self.pools['other'] = self.pool('pool of another thread', 0)
        self.words = {}
        top = self.pool('pool of descriptors', self.NG - 1)
        DD = self.DD = ('o', 'DD')
        self.DO = self.descr('descriptor of objects', self.h + 3, (0, self.h, self.h + 1), top)
        self.DE = self.descr('descriptor of entries', self.h + 3, (0, self.fo['next'] // 8, self.fo['obj'] // 8), top)
        self.raw('DD', DD, DD, top)
        self.dset(DD, 8, (0,))
        self.objs = objs; self.entries = entries
        self.size = self.h + 3
        for n, (g, r1, r2) in objs.items():
            x = ('o', n)
            self.raw(n, x, self.DO, self.pools[g])
            c[add(x, C(8 * self.h))] = ('o', r1) if r1 else NULL
            c[add(x, C(8 * self.h + 8))] = ('o', r2) if r2 else NULL
            c[add(x, C(8 * self.h + 16))] = ('s', 'data of ' + n)
        for n, (g, ob, fn) in entries.items():
            x = ('o', n)
            self.raw(n, x, self.DE, self.pools[g])
            c[add(x, C(self.fo['obj']))] = ('o', ob)
            c[add(x, C(self.fo['finalizer']))] = ('s', 'function of ' + n)
            p = self.pools[g]
            c[add(x, C(self.fo['next']))] = c[add(p, C(o('finalizers')))]
            c[add(p, C(o('finalizers')))] = x
        # what an interrupted promotion has moved already
        self.at = {n: ('o', n) for n in list(objs) + list(entries)}
        for n, g in moved:
            x = ('o', n); y = ('o', n + ' moved')
            I.poolof[y] = self.pools[g]
            for w in range(self.size):
                c[add(y, C(8 * w))] = c[add(x, C(8 * w))]
            c[x] = add(y, C(1))
            self.at[n] = y

    def pool(self, name, gen):
        p = ('o', name)
        c = self.c; o = lambda x: self.m.off('GGGGC_Pool', x)
        self.I.align[p] = self.I.PB
        for x, v in (('gen', C(gen)), ('next', NULL), ('finalizers', NULL), ('survivors', NULL), ('breakTable', ('o', 'table of ' + name)), ('breakTableSize', C(3)),
                     ('free', add(p, C(o('start') + 8 * 4096))), ('end', add(p, C(self.I.PB)))):
            if o(x) is not None:
                c[add(p, C(o(x)))] = v
        return p

    def raw(self, n, x, d, p):
        self.c[x] = d
        if self.cn:
            self.c[add(x, C(self.cn[0]))] = C(self.cn[1])
        self.I.poolof[x] = p

    def dset(self, d, n, ptrs):
        c = self.c; m = self.m
        c[add(d, C(m.off('GGGGC_Descriptor', 'size')))] = C(n)
        if self.ext:
            for w in range(n):
                c[add(d, C(m.off('GGGGC_Descriptor', 'tags') + w))] = C(0 if w in ptrs else 1)
        else:
            c[add(d, C(m.off('GGGGC_Descriptor', 'pointers')))] = C(sum(1 << w for w in ptrs))

    def descr(self, name, n, ptrs, p):
        d = ('o', name)
        self.raw(name, d, self.DD, p)
        self.dset(d, n, ptrs)
        return d

    def roots(self, names):
        c = self.c; m = self.m
        fr = self.frame = ('o', 'frame')
        c[add(fr, C(m.off('GGGGC_PointerStack', 'next')))] = NULL
        c[add(fr, C(m.off('GGGGC_PointerStack', 'size')))] = C(len(names))
        self.vars = {}
        for n, a in enumerate(names):
            v = ('o', 'variable %d' % n)
            c[add(fr, C(m.off('GGGGC_PointerStack', 'pointers') + 8 * n))] = v
            c[v] = ('o', a)
            self.vars[v] = a
        ws = [x for x in m.globals if 'toSearchList' in x]
        for x in ws:
            for k in ('used', 'next', 'prev'):
                c[add(('g', x), C(m.off('ToSearch', k)))] = NULL

    def world(self, gens, stopped=False):
        """the lists of pools, and a world of one thread and a blocked one"""
        c = self.c; m = self.m; I = self.I
        g = lambda n, v: c.__setitem__(('g', n), v)
        g('ggggc_gen0', self.pools[0]); g('ggggc_pool0', self.pools[0])
        N = ('o', 'list of blocked threads\' pools')
        c[add(N, C(m.off('GGGGC_PoolList', 'pool')))] = self.pools['other']
        c[add(N, C(m.off('GGGGC_PoolList', 'next')))] = NULL
        for n in ('ggggc_rootPointerStackList', 'ggggc_blockedThreadPointerStacks', 'ggggc_rootPool0List', 'ggggc_blockedThreadJITPointerStacks',
                  'ggggc_rootJITPointerStackList', 'ggc_jitPointerStack', 'ggc_jitPointerStackEnd', 'ggggc_stopTheWorld'):
            g(n, NULL)
        g('ggggc_blockedThreadPool0s', N)
        g('ggggc_pointerStack', self.frame)
        g('ggggc_threadCount', C(1))
        c[('g', 'ggggc_gens')] = NULL; c[('g', 'ggggc_pools')] = NULL
        for k in range(1, self.NG):
            p = self.pools[k]
            c[add(('g', 'ggggc_gens'), C(8 * k))] = p
            c[add(('g', 'ggggc_pools'), C(8 * k))] = p
            for j in range(m.consts['GGGGC_CARDS_PER_POOL']) if self.o('remember') is not None and gens and k > min(gens) else ():
                c[add(p, C(self.o('remember') + j))] = NULL
        if stopped:
            # the caller has published its own
            M = ('o', 'own list of pools')
            c[add(M, C(m.off('GGGGC_PoolList', 'pool')))] = self.pools[0]
            c[add(M, C(m.off('GGGGC_PoolList', 'next')))] = N
            g('ggggc_rootPool0List', M)
            S = ('o', 'own list of stacks')
            c[add(S, C(m.off('GGGGC_PointerStackList', 'pointerStack')))] = self.frame
            c[add(S, C(m.off('GGGGC_PointerStackList', 'next')))] = NULL
            g('ggggc_rootPointerStackList', S)

        def none(v):
            return lambda I, st, i, args: [(st, v)]

        def unlock(I, st, i, args):
            if args and args[0] == ('g', 'ggggc_worldBarrierLock'):
                st.u['unlocked'] = True
            return [(st, NULL)]
        for n in BARRIER + ('ggc_mutex_lock_raw', 'ggc_mutex_trylock', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'ggggc_expandPoolList'):
            I.calls[n] = none(NULL)
        for n in ('ggc_mutex_unlock', 'pthread_mutex_unlock'):
            I.calls[n] = unlock
        I.calls['ggggc_newPool'] = none(NULL)
        I.calls['ggggc_newPoolGen'] = none(NULL)

        def run(I, st, i, args):
            if not st.u.get('unlocked'):
                I.report('early', i, 'finalizers are run while the world is stopped')
                return []
            l, e = self.chain(st, args[0])
            if e:
                I.report('ready', i, 'the finalizers to run: ' + e)
                return []
            st.u['ran'] = st.u.get('ran', ()) + tuple(l)
            return [(st, None)]
        I.calls['ggggc_runFinalizers'] = run

    # -------------------------------------------------------- looking at it
    def chain(self, s, h, unshift=lambda x: x):
        out = []
        for _ in range(20):
            if h == NULL:
                return out, None
            if h is None or h[0] != 'o':
                return None, 'the list of entries leads out of the heap'
            out.append(h)
            h = s.mem.get(add(h, C(self.fo['next'])))
        return None, 'the list of entries does not end'

    def final(self, s, x):
        """where an object is now"""
        for _ in range(6):
            d = s.mem.get(x)
            if d is None:
                return x
            c, p = parts_of(d)
            if c & 1 and len(p) == 1:
                x = next(iter(p))
                continue
            return x
        return x

    def reach(self, names):
        seen = set(); todo = [n for n in names if n]
        while todo:
            n = todo.pop()
            if n in seen or n is None:
                continue
            seen.add(n)
            if n in self.objs:
                todo += [x for x in self.objs[n][1:] if x]
            else:
                todo.append(self.entries[n][1])
        return seen


def check_entries(H, s, roots, G, ready, pools, mapped=lambda x: x, later=False):
    """every entry is exactly where it belongs after generations up to G were
    collected"""
    m = H.m
    alive = H.reach(roots)
    lists = {}
    for p in pools:
        l, e = H.chain(s, mapped(s.mem.get(add(p, C(H.o('finalizers'))))))
        if e:
            return e
        lists[p] = l
    pend = [x for l in lists.values() for x in l]
    gen = lambda p: s.mem.get(add(p, C(H.o('gen')))) if H.o('gen') is not None else NULL
    for p, l in lists.items():
        for x in l:
            if x in H.I.poolof and gen(H.I.poolof[x]) != gen(p):
                return 'an entry is on the list of another generation, whose collections will not keep references to it up to date'
    for n, (g, ob, fn) in H.entries.items():
        x = H.final(s, ('o', n))
        og = H.objs[ob][0]
        og = 0 if og == 'other' else og
        eg = 0 if g == 'other' else g
        dead = ob not in alive and og <= G and eg <= G
        np, nr = pend.count(x), list(ready).count(x)
        if dead:
            if nr == 0 and not (np == 1 and later):
                return 'the finalizer of a dead object is not run (%s)' % ('it stays pending' if np else 'it is dropped')
            if nr and np or nr > 1:
                return 'the finalizer of a dead object is %s' % ('run and kept' if np else 'run twice')
        else:
            if nr:
                return 'the finalizer of a live object is run'
            if np == 0:
                return 'the finalizer of a live object is dropped'
            if np > 1:
                return 'an entry is on more than one list'
    for x in pend + list(ready):
        if x not in {H.final(s, ('o', n)) for n in H.entries}:
            return 'something other than the entries of this heap is on a list (or an entry where it was before it was moved)'
    return None


# `later`: what the abandoned part of the collection had copied for its
# finalizer passes for alive until the next one


def check_intact(H, s, roots, G, alive_of):
    """entries, their objects, and all they refer to are where references say,
    outside the emptied pools, with their contents"""
    I = H.I
    keep = H.reach(list(roots) + [n for n in H.entries])
    for n in keep:
        x = H.final(s, ('o', n))
        p = I.poolof.get(x)
        e = None
        if p is not None and H.o('gen') is not None and s.mem.get(add(p, C(H.o('gen'))), NULL)[1] <= G:
            e = 'is left in a pool which is emptied'
        else:
            if n in H.objs:
                want = [(8 * H.h + 8 * k, H.final(s, ('o', r)) if r else NULL) for k, r in enumerate(H.objs[n][1:])]
                want.append((8 * H.h + 16, ('s', 'data of ' + n)))
                d = H.DO
            else:
                g, ob, fn = H.entries[n]
                want = [(H.fo['obj'], H.final(s, ('o', ob))), (H.fo['finalizer'], ('s', 'function of ' + n))]
                d = H.DE
            want.append((0, d))
            if any(s.mem.get(add(x, C(k))) != v for k, v in want):
                e = 'is not intact'
        if e:
            what = 'an entry' if n in H.entries else 'a live object' if n in H.reach(roots) else 'an object waiting for its finalizer (or what it refers to)'
            return '%s %s' % (what, e)
    return None


# name: (objects, entries (newest last), roots)
def heaps(NG):
    hs = [
        ('one dead, one alive', {'a': (0, None, None), 'b': (0, 'd', None), 'd': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1)}, ['a']),
        ('one alive, one dead', {'a': (0, None, None), 'b': (0, 'd', None), 'd': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1)}, ['b']),
        ('all dead', {'a': (0, 'b', None), 'b': (0, None, 'a'), 'c': (0, 'c', 'd'), 'd': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1), 'ec': (0, 'c', 1)}, []),
        ('all alive', {'a': (0, 'b', None), 'b': (0, 'c', None), 'c': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1), 'ec': (0, 'c', 1)}, ['a']),
        ('two finalizers each', {'a': (0, 'b', None), 'b': (0, None, None), 'c': (0, None, None)}, {'e1': (0, 'a', 1), 'e2': (0, 'c', 1), 'e3': (0, 'a', 1), 'e4': (0, 'c', 1)}, ['a']),
        ('a dead one referring to a live one', {'a': (0, 'b', None), 'b': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1)}, ['b']),
        ('none', {'a': (0, None, None)}, {}, ['a']),
        ('another thread\'s', {'a': ('other', 'b', None), 'b': (0, None, None), 'c': ('other', None, None)}, {'e1': ('other', 'a', 1), 'e2': (0, 'b', 1), 'e3': ('other', 'c', 1)}, ['b']),
        ('three alive around a dead one', {'a': (0, None, None), 'b': (0, None, None), 'c': (0, None, None)}, {'e1': (0, 'a', 1), 'e2': (0, 'b', 1), 'e3': (0, 'c', 1), 'e4': ('other', 'a', 1)}, ['a', 'c']),
    ]
    if NG > 1:
        hs += [
            ('young entry of an old object', {'a': (1, None, None), 'b': (0, None, None)}, {'ea': (0, 'a', 1), 'eb': (0, 'b', 1)}, []),
            ('old entry', {'a': (1, None, None), 'b': (0, None, None), 'c': (0, None, None)}, {'ea': (1, 'a', 1), 'eb': (0, 'b', 1), 'ec': (0, 'c', 1)}, ['b']),
        ]
    if NG > 2:
        hs += [
            ('entries of all generations', {'a': (2, None, None), 'b': (1, None, None), 'c': (0, 'b', None), 'd': (1, None, None)},
             {'ea': (2, 'a', 1), 'eb': (1, 'b', 1), 'ec': (0, 'c', 1), 'ed': (0, 'd', 1)}, ['c']),
            ('old entries, young ones dead', {'a': (1, None, None), 'b': (1, None, None), 'c': (0, None, None)}, {'ea': (1, 'a', 1), 'eb': (1, 'b', 1), 'ec': (0, 'c', 1)}, ['a']),
        ]
    return hs


def minor(ctx, cfg, f, name, objs, entries, roots, G0, fail):
    """a minor collection, of generations up to G0; the fail-th copy cannot be
    made (once)"""
    H = FHeap(ctx, f, objs, entries)
    H.roots(roots)
    H.world({G0})
    I = H.I; st = H.st; m = H.m
    for a in f.argids:
        st.env[a] = C(G0)

    def alloc(I, st, i, args):
        n = st.u['al'] = st.u.get('al', 0) + 1
        g = I.arith('and', args[1], C(255), 64)
        if g[0] != 'c' or args[0][0] != 'c' or g[1] not in H.pools:
            I.report('copy', i, 'where an object is copied to cannot be told')
            return []
        if n == fail:
            st.u['fails'] = 1
            return [(st, NULL)]
        x = ('o', 'copy %d' % n)
        I.poolof[x] = H.pools[g[1]]
        if H.cn:
            st.mem[add(x, C(H.cn[0]))] = C(H.cn[1])
        return [(st, x)]
    I.calls['ggggc_mallocGen1'] = alloc
    res = []

    def full(I, st, i, args):
        # all entries must still be there
        e = all_there(H, st)
        if e:
            I.report('restart', i, e)
            return []
        st.u['full'] = True
        out = [a for a in args if a[0] in ('al', 'o')]
        for a in out:
            st.mem[a] = NULL
        return [(st, None)]
    I.calls['ggggc_collectFull'] = full
    err, wh = outcome(I, st)
    if err:
        return err, wh, 0
    n = 0
    for s, v, ri in I.ends:
        n = max(n, s.u.get('al', 0))
        if s.u.get('full'):
            e = all_there(H, s)
            if e or s.u.get('ran'):
                return e or 'finalizers the full collection did not return are run', None, n
            continue
        G = G0 + s.u.get('fails', 0)
        pools = [H.pools[k] for k in H.pools]
        e = check_entries(H, s, roots, G, s.u.get('ran', ()), pools, later=bool(s.u.get('fails')))
        e = e or check_intact(H, s, roots, G, None)
        if not e:
            for k, p in H.pools.items():
                if (0 if k == 'other' else k) <= G and s.mem.get(add(p, C(H.o('finalizers')))) != NULL:
                    e = 'the list of an emptied pool is kept'
        if e:
            return e, None, n
    return None, None, n


def all_there(H, s):
    pend = []
    for p in H.pools.values():
        h = s.mem.get(add(p, C(H.o('finalizers'))))
        for _ in range(20):
            if h == NULL:
                break
            if h is None or h[0] != 'o':
                return 'the list of entries leads out of the heap'
            x = H.final(s, h)
            pend.append(x)
            h = s.mem.get(add(x, C(H.fo['next'])))
        else:
            return 'the list of entries does not end'
    for n in H.entries:
        k = pend.count(H.final(s, ('o', n)))
        if k != 1:
            return 'when the collection is extended to another generation, an entry is %s' % ('dropped' if k == 0 else 'on more than one list')
    if len(pend) != len(H.entries):
        return 'when the collection is extended to another generation, something else is on a list'
    return None


def minors(ctx, cfg, part=None):
    ctx.rule('minor', 'after a minor collection of a small heap with finalizers (live, dead, shared, cyclic, of several generations and threads), wherever in it memory for a copy runs out: each entry is either '
             'pending, exactly once, in a pool which was not emptied, or was given to run exactly once, the latter exactly if its object and it were collected and the object was not reachable; entries, objects '
             'and what they refer to are intact; nothing is run before the world is restarted')
    f = ctx.func(cfg, 'ggggc_collect0')
    NG = f.mod.consts['GGGGC_GENERATIONS']
    cnt = 0
    for k, (name, objs, entries, roots) in enumerate(heaps(NG)):
        if part is not None and k % 4 != part:
            continue
        for G in range(NG - 1):
            err, wh, n = minor(ctx, cfg, f, name, objs, entries, roots, G, 0)
            ctx.check('minor', f, '%s, generations up to %d' % (name, G), err is None, err or '', where=wh)
            cnt += 1
            if err:
                continue
            err = None
            for k in range(1, n + 1):
                err, wh, _ = minor(ctx, cfg, f, name, objs, entries, roots, G, k)
                cnt += 1
                if err:
                    err += ' (copy %d of %d cannot be made)' % (k, n)
                    break
            ctx.check('minor', f, '%s, generations up to %d, no room for a copy' % (name, G), err is None, err or '', where=wh)
    ctx.counts['minor collections'] = ctx.counts.get('minor collections', 0) + cnt


MK = 2
SHIFT = 80


def full(ctx, cfg, f, objs, entries, roots, moved, shift):
    H = FHeap(ctx, f, objs, entries, moved)
    H.roots(roots)
    H.world(set(), stopped=True)
    I = H.I; st = H.st; m = H.m
    OUT = ('o', 'list to run')
    st.mem[OUT] = NULL
    for a in f.argids:
        st.env[a] = OUT
    for n in ('ggggc_countUsed', 'ggggc_compact', 'ggggc_postCompact'):
        def h(I, st, i, args, n=n):
            if n == 'ggggc_countUsed' and not st.u.get('phase'):
                st.u['marked'] = frozenset(a for a, v in st.mem.items() if a[0] == 'o' and parts_of(v)[0] & MK and parts_of(v)[1])
            st.u['phase'] = n
            return [(st, None)]
        I.calls[n] = h

    def lookup(I, st, i, args):
        ob = [a for a in args if a in I.poolof]
        if len(ob) != 1:
            I.report('bt', i, 'what is looked up is not an object\'s address (or one already updated)')
            return []
        if not shift:
            return [(st, NULL)]
        e = ('o', 'entry for ' + ob[0][1]); ch = ('o', 'chunk of ' + ob[0][1])
        st.mem[add(e, C(m.off('BreakTableEl', 'orig')))] = ch
        st.mem[add(e, C(m.off('BreakTableEl', 'newL')))] = add(ch, C(-SHIFT))
        return [(st, e)]
    for b in f.order:
        for i in f.blocks[b]:
            if i.is_call() and is_btcall(f, f.vterm(i.id)):
                I.calls[i.callee()] = lookup
    err, wh = outcome(I, st)
    if err:
        return err, wh
    G = H.NG - 1
    up = lambda x: add(x, C(SHIFT)) if shift and x is not None and x != NULL else x
    for s, v, ri in I.ends:
        g = s.mem.get
        # the heads of the lists must be new addresses; the entries themselves are updated with the objects
        for p in H.pools.values():
            h = g(add(p, C(H.o('finalizers'))))
            if h is not None and h != NULL and up(h) not in I.poolof:
                return 'the list of a pool is not given its first entry\'s new address', None
        r = g(OUT)
        if r != NULL and up(r) not in I.poolof:
            return 'the list of entries to run is not given its first entry\'s new address', None
        l, e = H.chain(s, up(r))
        if e:
            return 'the entries to run: ' + e, None
        e = check_entries(H, s, roots, G, l, list(H.pools.values()), up)
        if e:
            return e, None
        mk = s.u.get('marked', frozenset())
        keep = H.reach(list(roots) + list(H.entries))
        for n in keep:
            x = H.final(s, ('o', n))
            what = 'an entry' if n in H.entries else 'an object which is alive or waiting for its finalizer (or what it refers to)'
            if x not in mk:
                return '%s is not marked before compaction' % what, None
            want = [(8 * H.h + 8 * k, H.final(s, ('o', r)) if r else NULL) for k, r in enumerate(H.objs[n][1:])] if n in H.objs else \
                   [(H.fo['obj'], H.final(s, ('o', H.entries[n][1]))), (H.fo['finalizer'], ('s', 'function of ' + n))]
            for k, v in want:
                if g(add(x, C(k))) != v:
                    return '%s is not intact' % what, None
        if H.entries and (H.DE not in mk):
            return 'the descriptor of the entries is not marked before compaction', None
    return None, None


def fulls(ctx, cfg):
    ctx.rule('full', 'after a full collection of a small heap with finalizers, also when an interrupted promotion has moved some of it: each entry is pending in a pool exactly once, or returned to be run exactly once, '
             'the latter exactly if its object was not reachable; entries, objects and what they refer to are marked, so that compaction keeps them; and the heads of all lists are updated for compaction')
    f = ctx.func(cfg, 'ggggc_collectFull')
    NG = f.mod.consts['GGGGC_GENERATIONS']
    cnt = 0
    for name, objs, entries, roots in heaps(NG):
        top = NG - 1
        mv = [()]
        if NG > 1:
            young = [n for n in list(objs) + list(entries) if (objs.get(n) or entries.get(n))[0] in (0, 'other')]
            mv += [[(n, top) for n in young], [(n, top) for n in young if n in objs], [(n, top) for n in young if n in entries],
                   [(n, top) for n in young[:1]], [(n, top) for n in young[-1:]]]
        err = wh = None
        for moved in mv:
            for shift in (False, True):
                cnt += 1
                if not err:
                    err, wh = full(ctx, cfg, f, objs, entries, roots, moved, shift)
                    if err and moved:
                        err += ' (moved before: %s)' % ', '.join(n for n, g in moved)
        ctx.check('full', f, name, err is None, err or '', where=wh)
    ctx.counts['full collections'] = ctx.counts.get('full collections', 0) + cnt


# ------------------------------------------------------------ portablems
def pms_one(ctx, cfg, f, objs, entries, roots, gen):
    H = FHeap(ctx, f, objs, entries)
    m = H.m; I = H.I; st = H.st; c = H.c
    H.roots(roots)
    H.world(set(), stopped=bool(gen))
    # the pools as they are when there is nothing to sweep: sweeping is C13's
    for p in H.pools.values():
        c[add(p, C(H.o('end')))] = add(p, C(H.o('start')))
    for a in f.argids:
        st.env[a] = C(gen)

    def barrier(I, st, i, args):
        k = st.u['bar'] = st.u.get('bar', 0) + 1
        if k == (1 if gen else 3):
            st.u['marked'] = frozenset(a for a, v in st.mem.items() if a[0] == 'o' and parts_of(v)[0] & 1 and parts_of(v)[1])
        return [(st, NULL)]
    for n in BARRIER:
        I.calls[n] = barrier
    for x in m.globals:
        if 'freeList' in x:
            st.mem[('g', x)] = NULL
    err, wh = outcome(I, st)
    if err:
        return err, wh
    for s, v, ri in I.ends:
        mk = s.u.get('marked', frozenset())
        # marks of this small world are never swept: see past them
        t = s.copy()
        for a in mk:
            if t.mem.get(a) is not None and parts_of(t.mem[a])[0] & 1:
                t.mem[a] = add(t.mem[a], C(-1))
        e = check_entries(H, t, roots, 0, s.u.get('ran', ()), list(H.pools.values()))
        if e:
            return e, None
        for n in H.reach(list(roots) + list(H.entries)):
            if ('o', n) not in mk:
                return '%s is not marked before the sweep' % ('an entry' if n in H.entries else 'an object which is alive or waiting for its finalizer (or what it refers to)'), None
        e = check_intact(H, t, roots, -1, None)
        if e:
            return e, None
    return None, None


def pmss(ctx, cfg):
    ctx.rule('ms', 'after marking a small heap with finalizers, each entry is pending exactly once or given to run exactly once, the latter exactly if its object was not reachable; entries, objects and what they '
             'refer to are marked before the sweep; nothing is run before the world is restarted')
    f = ctx.func(cfg, 'ggggc_collect0')
    for name, objs, entries, roots in heaps(1):
        for gen in (0, 1):
            err, wh = pms_one(ctx, cfg, f, objs, entries, roots, gen)
            ctx.check('ms', f, name + (', world stopped by the caller' if gen else ''), err is None, err or '', where=wh)


# ------------------------------------------------- registering and running
def register(ctx, cfg):
    ctx.rule('register', 'registering a finalizer puts one new entry for the object, with the function, in front of the list of the pool the entry is in')
    f = ctx.func(cfg, 'ggggc_finalize')
    m = f.mod
    for n in (0, 1):
        I, st = newheap(ctx, f)
        aborts(I)
        o = lambda x: m.off('GGGGC_Pool', x)
        fo = {x: m.off(ENTRY, x + s) for x, s in (('next', '__ptr'), ('obj', '__ptr'), ('finalizer', '__data'))}
        X, E = ('o', 'object'), ('o', 'entry'); PX, PE = ('o', 'pool of the object'), ('o', 'pool of the entry')
        F = ('s', 'function')
        I.align[PX] = I.align[PE] = I.PB
        I.poolof.update({X: PX, E: PE})
        old = ('o', 'first entry') if n else NULL
        if n:
            I.poolof[old] = PE
        c = st.mem
        for p, l in ((PX, ('o', 'entry of another pool')), (PE, old)):
            c[add(p, C(o('finalizers')))] = l
            if o('gen') is not None:
                c[add(p, C(o('gen')))] = C(0)
            for j in (0, 1):
                pass
        st.env = {a: (X if k == 0 else F) for a, k in f.argids.items()}

        def alloc(I, st, i, args):
            a = [x for x in m.globals if 'FinalizerEntry__descriptorSlot' in x]
            if not a or not args or args[0] not in (('g', a[0]), ('ld', add(('g', a[0]), C(m.off('GGGGC_DescriptorSlot', 'descriptor'))), 8)):
                I.report('entry', i, 'what is allocated is not an entry')
                return []
            if st.u.get('made'):
                I.report('entry', i, 'two entries are made')
                return []
            st.u['made'] = True
            for k in ('next', 'obj', 'finalizer'):
                st.mem[add(E, C(fo[k]))] = NULL
            return [(st, E)]
        for x in ('ggggc_mallocSlot', 'ggggc_malloc'):
            I.calls[x] = alloc
        I.calls['ggggc_yield'] = lambda I, st, i, args: [(st, NULL)]
        I.calls['ggggc_poolOf'] = lambda I, st, i, args: [(st, I.poolof.get(args[0], ('s', 'no pool')))]
        c[('g', 'ggggc_stopTheWorld')] = NULL
        c[('g', 'ggggc_pointerStack')] = NULL
        err, wh = outcome(I, st)
        for s, v, ri in I.ends if not err else ():
            g = s.mem.get
            if g(add(PE, C(o('finalizers')))) != E:
                err = 'the entry is not put on the list of its pool'
            elif g(add(E, C(fo['next']))) != old:
                err = 'the entries registered before are dropped'
            elif g(add(E, C(fo['obj']))) != X or g(add(E, C(fo['finalizer']))) != F:
                err = 'the entry does not record the object and the function'
            elif g(add(PX, C(o('finalizers')))) != ('o', 'entry of another pool'):
                err = 'the list of another pool is changed'
        ctx.check('register', f, 'pool with %s' % ('entries' if n else 'no entries'), err is None, err or '', where=wh)


def running(ctx, cfg):
    ctx.rule('running', 'running a list of entries calls each entry\'s function exactly once, with its object')
    f = ctx.func(cfg, 'ggggc_runFinalizers')
    m = f.mod
    fo = {x: m.off(ENTRY, x + s) for x, s in (('next', '__ptr'), ('obj', '__ptr'), ('finalizer', '__data'))}
    for n, same in ((0, 0), (1, 0), (2, 0), (3, 0), (2, 1), (3, 2)):
        I, st = newheap(ctx, f)
        aborts(I)
        ob = lambda k: ('o', 'object %d' % (0 if same == 1 else k))
        fn = lambda k: ('s', 'function %d' % (0 if same == 2 else k))
        es = [('o', 'entry %d' % k) for k in range(n)]
        for k, e in enumerate(es):
            st.mem[add(e, C(fo['next']))] = es[k + 1] if k + 1 < n else NULL
            st.mem[add(e, C(fo['obj']))] = ob(k)
            st.mem[add(e, C(fo['finalizer']))] = fn(k)
        st.env = {a: es[0] if es else NULL for a in f.argids}
        st.mem[('g', 'ggggc_stopTheWorld')] = NULL
        st.mem[('g', 'ggggc_pointerStack')] = NULL

        def call(I, st, i, args):
            st.u['ran'] = st.u.get('ran', ()) + ((I.val(st, i.d['callee']), tuple(args)),)
            return [(st, None)]
        I.calls['*'] = call
        I.calls['ggggc_yield'] = lambda I, st, i, args: [(st, NULL)]
        err, wh = outcome(I, st)
        for s, v, ri in I.ends if not err else ():
            ran = s.u.get('ran', ())
            want = {(fn(k), (ob(k),)) for k in range(n)}
            if set(ran) - want:
                err = 'a function is called with another object than the one it was registered for'
            elif want - set(ran):
                err = 'the function of entry %d of %d is not called' % (1 + min(k for k in range(n) if (fn(k), (ob(k),)) not in ran), n)
            elif len(ran) != n:
                err = 'a finalizer is run twice' if len(ran) > n else 'only %d of %d functions are called' % (len(ran), n)
        ctx.check('running', f, '%d entries%s' % (n, {0: '', 1: ' for one object', 2: ' with one function'}[same]), err is None, err or '', where=wh)


def C19(ctx):
    jobs = []
    for cfg in GEM + PMSF:
        ctx.mods(cfg)
        jobs += [(register, cfg), (running, cfg)]
    for cfg in GEM:
        jobs.append((fulls, cfg))
    for cfg in FIN:
        ctx.mods(cfg)
        jobs += [(minors, cfg, k) for k in range(4)]
    for cfg in PMSF:
        jobs.append((pmss, cfg))
    ctx.par(jobs)
