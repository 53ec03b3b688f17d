"""The mark-and-sweep collector (C13): one round of its search, and whole
collections on small heaps."""
from itertools import product
from .core import *
from .heap import *
from .trav import *
from .rules_alloc import canary_of, record, pms_raw_rules
from .rules_promo import Round, stop_call, USED, BARRIER, memset_recorder
from .rules_full import newheap, outcome, aborts
from .rules_scan import exttag

PMS = ['pms', 'pmsall', 'pmsext', 'pmsdbg']


def tagging(f, cfg):
    return cfg == 'pmsall'


def search_loops(f):
    out = []
    for i in worklist_pops(f):
        l = f.loop_of(i.blk)
        if l is not None and l not in out:
            out.append(l)
    return out


def mark_round(ctx, cfg):
    ctx.rule('mark-round', 'one round of the search, for every kind of object (unmarked, marked; with and without references; its descriptor marked or not): an unmarked object is marked, '
             'nothing else in it changed, and its descriptor and exactly its own references which are neither null nor tagged are enqueued; a marked one is left alone')
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    ext = exttag(f)
    for n, loop in enumerate(search_loops(f)):
        for marked, noptr, dm, long in ((False, False, 0, 0), (False, True, 0, 0), (False, False, 1, 0), (True, False, 0, 0), (False, False, 0, 1), (False, False, 0, 2), (False, True, 0, 3)):
            if long == 2 and ext:
                continue
            R = Round(ctx, f, loop)
            c = R.cells; I = R.I
            cn = canary_of(m)
            size = {0: 7, 1: 66, 2: 130, 3: 3}[long]
            T = ('o', 'T')
            w0 = 2 if cn else 1
            # reference, data, null, reference, and a reference slot holding a tagged value
            hi = size - 1
            kinds = {w0: 'ref', w0 + 1: 'data', w0 + 2: 'null', hi: 'ref'}
            if not ext and tagging(f, cfg):
                kinds[w0 + 3] = 'tagged'
            ptrs = {k for k, x in kinds.items() if x != 'data'} | {0}
            D = R.descriptor(('o', 'D'), size, ())
            I.poolof[D] = ('o', 'pool of D')
            if ext:
                t = m.off('GGGGC_Descriptor', 'tags')
                for w in range(size):
                    # the other bits of a tag are the user's
                    p = w in ptrs and not noptr
                    c[add(D, C(t + w))] = C((2 if w == hi else 0) if p else (3 if w == w0 + 1 and not noptr else 1))
            else:
                t = m.off('GGGGC_Descriptor', 'pointers')
                for j in range((size + 63) // 64):
                    c[add(D, C(t + 8 * j))] = C(0 if noptr else sum(1 << (w - 64 * j) for w in ptrs if w // 64 == j))
            c[D] = add(('o', 'DD'), C(dm))
            I.align[('o', 'DD')] = 8
            val = {}
            for w in range(1, size):
                if cn and cn[0] == 8 * w:
                    continue
                k = kinds.get(w, 'data')
                val[w] = ('o', 'W%d' % w) if k == 'ref' else NULL if k == 'null' else C(7) if k == 'tagged' else ('o', 'looks like a reference %d' % w)
                I.poolof[val[w]] = ('o', 'pool of W')
            R.object(T, R.pool(('o', 'pool of T'), 0), add(D, C(1)) if marked else D, size, val.items())
            c[add(R.buf, C(8 * (USED - 1)))] = T
            for x in ('abort', 'exit'):
                I.calls[x] = stop_call(R, 'abort')
            before = dict(c)
            err, wh = R.run({})
            if not err and not R.outs:
                err = 'the round never ends'
            for s, k, w in R.outs if not err else ():
                g = s.mem.get
                if k != 'round':
                    err = 'the search does not go on after the round'; break
                ps = R.pushes(s)
                if ps is None or any(g(add(R.buf, C(8 * j))) != ('o', 'other%d' % j) for j in range(USED - 1)):
                    err = 'other entries of the worklist are lost'; break
                if g(T) != add(D, C(1)):
                    err = 'the object is not marked' if not marked else 'the mark of a marked object is changed'; break
                if g(D) != before[D]:
                    err = 'its descriptor is changed'; break
                for j in range(1, size):
                    a = add(T, C(8 * j))
                    if g(a) != before.get(a):
                        err = 'word %d of the object is changed' % j
                if err:
                    break
                if marked:
                    if ps:
                        err = 'references of an object marked before are enqueued again'
                    continue
                req = {D} | ({val[w] for w, x in kinds.items() if x == 'ref'} if not noptr else set())
                mis = req - set(ps); more = set(ps) - req
                if mis:
                    err = 'its descriptor is not enqueued' if D in mis else 'the reference in its word %s is not enqueued' % sorted(x[1] for x in mis)[0][1:]
                elif more:
                    err = 'what is enqueued is not a reference of the object (%s)' % ('a null reference' if NULL in more else 'a tagged value' if C(7) in more else 'something else')
                if err:
                    break
            ctx.check('mark-round', f, 'search %d, %s object%s%s%s' % (n + 1, 'marked' if marked else 'unmarked', ' without references' if noptr else '', ', its descriptor marked' if dm else '',
                      ' of %d words' % size if long else ''), err is None, err or '', where=wh)
    ctx.check('mark-round', f, 'search', bool(search_loops(f)), 'nothing is ever marked')


# ------------------------------------------------------- whole collections
POOLW = 8192


class SHeap:
    """pools filled with live and dead objects and free areas"""

    def __init__(self, ctx, f, pools, odd=None, roots=False):
        m = self.m = f.mod
        self.I, self.st = newheap(ctx, f)
        I = self.I
        aborts(I)
        I.maxlen = 20000; I.budget = 5
        self.c = c = {}
        self.areas = []      # (pool, first word, words)
        self.live = {}       # place -> descriptor
        self.dead = []
        cn = canary_of(m)
        so = m.off('GGGGC_Pool', 'start')
        self.P = [('o', 'pool %d' % (k + 1)) for k in range(len(pools))]
        self.A = lambda k, w: add(self.P[k], C(so + 8 * w))
        ext = exttag(f)
        self.do = m.off('GGGGC_Descriptor', 'size')
        self.sizes = {}
        fo = {x: m.off('FreeListNode', x) for x in ('zero', 'size', 'next')}
        self.fo = fo

        def refs(d, ptrs=(0,)):
            if not roots:
                return
            if ext:
                for x in range(8):
                    c[add(d, C(m.off('GGGGC_Descriptor', 'tags') + x))] = C(0 if x in ptrs else 1)
            else:
                c[add(d, C(m.off('GGGGC_Descriptor', 'pointers')))] = C(sum(1 << x for x in ptrs))

        def descr(d, n, head=('o', 'DD')):
            c[d] = head
            c[add(d, C(self.do))] = C(n)
            if cn:
                c[add(d, C(cn[0]))] = C(cn[1])
            refs(d)
            self.sizes[d] = n
            return d
        nodes = []
        at = []
        place = {}
        for k, segs in enumerate(pools):
            w = 0
            p = self.P[k]
            I.align[p] = I.PB
            for j, (kind, n) in enumerate(segs):
                a = self.A(k, w)
                place[(k, j)] = a
                at.append((k, j, kind, n, w, a))
                w += n
            c[add(p, C(m.off('GGGGC_Pool', 'end')))] = self.A(k, w)
            c[add(p, C(m.off('GGGGC_Pool', 'free')))] = self.A(k, w)
            c[add(p, C(m.off('GGGGC_Pool', 'survivors')))] = C(3)
            c[add(p, C(m.off('GGGGC_Pool', 'next')))] = self.P[k + 1] if k + 1 < len(pools) else NULL
            if m.off('GGGGC_Pool', 'finalizers') is not None:
                c[add(p, C(m.off('GGGGC_Pool', 'finalizers')))] = NULL
        self.words = {}
        for k, j, kind, n, w, a in at:
            if kind == 'F':
                c[add(a, C(fo['zero']))] = NULL
                c[add(a, C(fo['size']))] = C(n)
                nodes.append(a)
                self.areas.append((k, w, n))
                continue
            if kind.startswith('E') or kind.startswith('e'):
                # a descriptor (alive or dead), described by an ordinary one
                d = descr(('o', 'DD%d' % n), n) if not roots else ('o', 'DD')
                refs(a)
                what = int(kind[1:])
                self.sizes[a] = what
                c[add(a, C(self.do))] = C(what)
            else:
                d = place[odd[(k, j)]] if odd and (k, j) in odd else descr(('o', 'D%d' % n), n)
            alive = kind[0] in 'LE'
            c[a] = add(d, C(1)) if alive and not roots else d
            if cn:
                c[add(a, C(cn[0]))] = C(cn[1])
            for x in range(1, n):
                if add(a, C(8 * x)) not in c:
                    c[add(a, C(8 * x))] = ('s', 'word', k, w + x)
            if alive:
                self.live[a] = d
                self.words.update({add(a, C(8 * x)): c[add(a, C(8 * x))] for x in range(1, n)})
            else:
                self.dead.append((a, n))
                self.areas.append((k, w, n))
        if roots:
            # what is alive is referred to by the stack
            DD = ('o', 'DD')
            descr(DD, 4, DD)
            fr = self.frame = ('o', 'frame')
            c[add(fr, C(m.off('GGGGC_PointerStack', 'next')))] = NULL
            c[add(fr, C(m.off('GGGGC_PointerStack', 'size')))] = C(len(self.live))
            for n, a in enumerate(self.live):
                v = ('o', 'variable %d' % n)
                c[add(fr, C(m.off('GGGGC_PointerStack', 'pointers') + 8 * n))] = v
                c[v] = a
            ws = [x for x in m.globals if 'toSearchList' in x]
            for x in ws:
                for k in ('used', 'next', 'prev'):
                    c[add(('g', x), C(m.off('ToSearch', k)))] = NULL
        # the free list, in no particular order
        nodes.reverse()
        for x, y in zip(nodes, nodes[1:] + [NULL]):
            c[add(x, C(fo['next']))] = y
        c[('g', self.gname('freeList'))] = nodes[0] if nodes else NULL
        self.st.mem.update(c)

    def gname(self, n):
        g = [x for x in self.m.globals if x == n or x.startswith(n + '.') or n in x and 'L%d%s' % (len(n), n) in x]
        return g[0] if g else n


def freelist(H, s):
    """the free list of the thread: [(address, zero, size)], or what is wrong with it"""
    h = s.mem.get(('g', H.gname('freeList')))
    out = []
    for _ in range(40):
        if h == NULL:
            return out, None
        if h is None:
            return None, 'the free list does not end'
        z, n, x = (s.mem.get(add(h, C(H.fo[q]))) for q in ('zero', 'size', 'next'))
        out.append((h, z, n))
        h = x
    return None, 'the free list does not end'


def world(H, yielding, entry_gen, blocked=()):
    st = H.st; m = H.m; I = H.I
    g = lambda n, v: st.mem.__setitem__(('g', n), v)
    g('ggggc_gen0', H.P[0]); g('ggggc_pool0', H.P[0])
    for n in ('ggggc_pointerStack', 'ggggc_rootPointerStackList', 'ggggc_blockedThreadPointerStacks', 'ggggc_blockedThreadPool0s', 'ggggc_rootPool0List',
              'ggggc_blockedThreadJITPointerStacks', 'ggggc_rootJITPointerStackList', 'ggc_jitPointerStack', 'ggc_jitPointerStackEnd'):
        g(n, NULL)
    g('ggggc_threadCount', C(1))
    if m.globals.get('ggggc_stopTheWorld') is not None or True:
        for sz in (0,):
            g('ggggc_stopTheWorld', C(1 if yielding else 0))

    def none(v):
        return lambda I, st, i, args: [(st, v)]

    def barrier(I, st, i, args):
        st.u['bar'] = st.u.get('bar', 0) + 1
        H.at_barrier(st, i)
        return [(st, NULL)]
    for n in BARRIER:
        I.calls[n] = barrier
    for n in ('ggc_mutex_lock_raw', 'ggc_mutex_trylock', 'ggc_mutex_unlock', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock'):
        I.calls[n] = none(NULL)

    def newpool(I, st, i, args):
        k = st.u.get('made', 0)
        out = []
        if k < 1:
            e = st.copy()
            p = ('o', 'new pool %d' % k)
            I.align[p] = I.PB
            e.u['made'] = k + 1
            e.mem[add(p, C(m.off('GGGGC_Pool', 'end')))] = add(p, C(I.PB))
            e.mem[add(p, C(m.off('GGGGC_Pool', 'next')))] = NULL
            out.append((e, p))
        st.u['nopool'] = 1
        return [(st, NULL)] + out
    I.calls['ggggc_newPool'] = newpool
    memset_recorder(I, m)


def collection(ctx, cfg, fn, pools, odd=None, blocked=False, gen=0, roots=False):
    """(what went wrong, where)"""
    f = ctx.func(cfg, fn)
    m = f.mod
    H = SHeap(ctx, f, pools, odd, roots)
    I = H.I; st = H.st
    I.maxlen = 20000; I.budget = 5
    bars = []
    bad = []
    own = 4 if gen == 0 else 2      # the rendezvous of a collection: stop, roots in, ready to sweep, swept

    def at_barrier(s, i):
        k = s.u['bar']
        last = own if gen == 0 else own
        if k < last:
            # nothing is freed or unmarked before every thread knows what is marked
            for a, v in H.c.items():
                if s.mem.get(a) != v and a in heapcells and not (roots and a in H.live and s.mem.get(a) == add(v, C(1))):
                    bad.append(('the heap is swept before everything is marked', i)); break
        elif k == last:
            for a, d in H.sizes.items():
                if s.mem.get(add(a, C(H.do))) != C(d):
                    bad.append(('the size recorded in a descriptor is overwritten while other threads may still be sweeping', i)); break
            if any(s.mem.get(a) != d for a, d in H.live.items()):
                bad.append(('a mark is still there when the world is restarted', i))
    H.at_barrier = at_barrier
    heapcells = set()
    for k, segs in enumerate(pools):
        w = sum(n for _, n in segs)
        heapcells |= {H.A(k, x) for x in range(w)} & set(H.c)
    world(H, fn == 'ggggc_yield', gen)
    B = None
    if blocked:
        B = ('o', 'pool of a blocked thread'); I.align[B] = I.PB
        so = m.off('GGGGC_Pool', 'start')
        b = add(B, C(so))
        D = ('o', 'D3')
        st.mem[D] = ('o', 'DD'); st.mem[add(D, C(H.do))] = C(3)
        st.mem[b] = add(D, C(1))
        cn = canary_of(m)
        if cn:
            st.mem[add(b, C(cn[0]))] = C(cn[1]); st.mem[add(D, C(cn[0]))] = C(cn[1])
        for x, v in (('end', add(b, C(24))), ('free', add(b, C(24))), ('next', NULL), ('survivors', NULL), ('finalizers', NULL)):
            if m.off('GGGGC_Pool', x) is not None:
                st.mem[add(B, C(m.off('GGGGC_Pool', x)))] = v
        N = ('o', 'list of blocked threads\' pools')
        st.mem[add(N, C(m.off('GGGGC_PoolList', 'pool')))] = B
        st.mem[add(N, C(m.off('GGGGC_PoolList', 'next')))] = NULL
        st.mem[('g', 'ggggc_blockedThreadPool0s')] = N
    if roots:
        st.mem[('g', 'ggggc_pointerStack')] = H.frame
    for a in f.argids:
        st.env[a] = C(gen)
    if gen:
        # the caller has stopped the world: its lists are in place
        N = ('o', 'own list of pools')
        st.mem[add(N, C(m.off('GGGGC_PoolList', 'pool')))] = H.P[0]
        st.mem[add(N, C(m.off('GGGGC_PoolList', 'next')))] = NULL
        st.mem[('g', 'ggggc_rootPool0List')] = N
    err, wh = outcome(I, st)
    if not err and bad:
        err, wh = bad[0]
    res = {}
    if err:
        return {'run': (err, wh)}
    for s, v, ri in I.ends:
        g = s.mem.get
        if s.u.get('bar', 0) != own:
            res['run'] = ('the threads do not meet %d times in a collection' % own, None); break
        for a, d in H.live.items():
            if g(a) != d:
                res['live'] = ('a live object %s' % ('keeps its mark' if g(a) == add(d, C(1)) else 'does not keep its header'), None)
        for a, v2 in H.words.items():
            if g(a) != v2 and 'live' not in res:
                res['live'] = ('the contents of a live object are changed', None)
        lst, e = freelist(H, s)
        if e:
            res['free'] = (e, None); continue
        cover = {}
        for h, z, n in lst:
            b = base_of(h)
            if n is None or n[0] != 'c':
                res['free'] = ('the size of a free area is not known', None); break
            if z != NULL:
                res['free'] = ('a free area cannot be told from an object', None); break
            if b and b[0][0] == 'o' and b[0][1].startswith('new pool'):
                if b[1] + 8 * n[1] != I.PB or b[1] != m.off('GGGGC_Pool', 'start'):
                    res['free'] = ('the free area of a new pool is wrong', None)
                continue
            k = [j for j, p in enumerate(H.P) if b and b[0] == p]
            w = (b[1] - m.off('GGGGC_Pool', 'start')) // 8 if b else None
            if not k:
                res['free'] = ('something outside the heap is on the free list', None); break
            for x in range(w, w + n[1]):
                if (k[0], x) in cover:
                    res['free'] = ('two free areas overlap', None)
                cover[(k[0], x)] = 1
        if 'free' in res:
            continue
        want = {(k, x) for k, w, n in H.areas for x in range(w, w + n)}
        if set(cover) - want:
            res['free'] = ('a live object is on the free list', None)
        elif want - set(cover):
            x = min(want - set(cover))
            res['free'] = ('a dead object or free area is not on the free list afterwards', None)
        if s.u.get('made'):
            q = g(('g', 'ggggc_gen0')); seen = []
            for _ in range(6):
                if q in (None, NULL):
                    break
                seen.append(q); q = g(add(q, C(m.off('GGGGC_Pool', 'next'))))
            if set(seen) != set(H.P) | {('o', 'new pool 0')}:
                res['pools'] = ('a pool is not on the thread\'s list after its heap is enlarged', None)
        elif g(('g', 'ggggc_gen0')) != H.P[0]:
            res['pools'] = ('the thread\'s list of pools is changed', None)
        if blocked and g(add(B, C(m.off('GGGGC_Pool', 'start')))) != ('o', 'D3'):
            res['blocked'] = ('an object of a blocked thread keeps its mark', None)
    return res


def arrangements(n):
    """pools of up to n segments"""
    for k in range(1, n + 1):
        for t in product('LDF', repeat=k):
            # free areas next to each other are possible: new areas are not merged with others when allocation splits
            segs = []
            for j, x in enumerate(t):
                segs.append((x, {'L': (3, 4), 'D': (3, 5), 'F': (4, 6)}[x][j % 2]))
            yield segs


# a dead descriptor, before and after an object it describes; one in another pool
SPECIAL = [
    ([[('e3', 4), ('D', 3), ('L', 3)]], {(0, 1): (0, 0)}),
    ([[('D', 3), ('e3', 4), ('L', 3), ('D', 3)]], {(0, 0): (0, 1), (0, 3): (0, 1)}),
    ([[('L', 3), ('F', 4), ('e5', 4), ('D', 5), ('D', 5)]], {(0, 3): (0, 2), (0, 4): (0, 2)}),
    ([[('E3', 4), ('L', 3), ('D', 3)]], {(0, 1): (0, 0), (0, 2): (0, 0)}),
    ([[('L', 3), ('E3', 4), ('D', 3)]], {(0, 0): (0, 1), (0, 2): (0, 1)}),
    ([[('D', 3), ('e3', 4)], [('D', 3), ('L', 4), ('D', 3)]], {(1, 0): (0, 1), (1, 2): (0, 1), (0, 0): (0, 1)}),
    ([[('D', 3)], [('D', 3), ('L', 4), ('D', 3)]], None),
    ([[('L', 3)], [('F', 4)]], None), ([[('F', 4)], [('F', 4)]], None), ([[('D', 4)], [('L', 3)]], None), ([[('D', 4), ('L', 3)], [('L', 3), ('D', 3)], [('L', 3)]], None),
]
NAMES = (('run', 'phases'), ('live', 'live objects'), ('free', 'free areas'), ('pools', 'pools'))


def whole(ctx, cfg, n):
    ctx.rule('whole', 'as `sweep`, the live objects being those the stack refers to, so that the collection marks them itself')
    f = ctx.func(cfg, 'ggggc_collect0')
    tot = {}
    cases = [([s], None) for s in arrangements(n)] + SPECIAL
    for pools, odd in cases:
        for k, (d, wh) in collection(ctx, cfg, 'ggggc_collect0', pools, odd, roots=True).items():
            tot.setdefault(k, (d, wh, pools))
        if 'run' in tot:
            break
    for k, name in NAMES:
        d = tot.get(k)
        ctx.check('whole', f, name, d is None, '%s (heap: %s)' % (d[0], ' | '.join(' '.join('%s%d' % s for s in p) for p in d[2])) if d else '', where=d[1] if d else None)
    ctx.counts['heaps collected'] = ctx.counts.get('heaps collected', 0) + len(cases)


def sweeps(ctx, cfg, n):
    ctx.rule('sweep', 'a collection of a small heap, for every arrangement of live objects, dead objects and free areas (%d segments): live objects keep header and contents and lose their mark; the free '
             'list afterwards consists of distinct areas, told from objects and of the right size, which together cover exactly what was dead or free; nothing is swept before everything is marked, '
             'and no recorded size is overwritten before every thread has swept' % n)
    f = {x: ctx.func(cfg, x) for x in ('ggggc_collect0', 'ggggc_yield')}
    cases = [([s], None) for s in arrangements(n)] + SPECIAL
    runs = [('ggggc_collect0', 0), ('ggggc_yield', 0)]
    for fn, gen in runs + [('ggggc_collect0', 1)]:
        tot = {}
        for pools, odd in cases if gen == 0 else SPECIAL:
            for k, (d, wh) in collection(ctx, cfg, fn, pools, odd, gen=gen).items():
                tot.setdefault(k, (d, wh, pools))
            if 'run' in tot:
                break
        for k, name in NAMES:
            d = tot.get(k)
            ctx.check('sweep', f[fn], '%s%s' % (name, ', world stopped by the caller' if gen else ''), d is None,
                      '%s (heap: %s)' % (d[0], ' | '.join(' '.join('%s%d' % s for s in p) for p in d[2])) if d else '', where=d[1] if d else None)
        ctx.counts['heaps swept'] = ctx.counts.get('heaps swept', 0) + len(cases)


def blocked(ctx, cfg):
    ctx.rule('blocked-heap', 'every heap whose objects a collection marks is swept (or at least unmarked) by somebody')
    f = ctx.func(cfg, 'ggggc_collect0')
    r = collection(ctx, cfg, 'ggggc_collect0', [[('L', 3)]], blocked=True)
    for k in ('run', 'live', 'free'):
        if k in r:
            return     # reported above
    d = r.get('blocked')
    ctx.check('blocked-heap', f, 'pools of blocked threads', d is None, d[0] if d else '')


def layouts(ctx, cfg):
    ctx.rule('same-place', 'the size of a free area is kept where a descriptor keeps its size, so that a dead descriptor still tells the size of the objects it described')
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    ctx.check('same-place', f, 'size of a free area', m.off('FreeListNode', 'size') == m.off('GGGGC_Descriptor', 'size'), 'it is kept in another word than a descriptor\'s size')
    ctx.check('same-place', f, 'mark of a free area', m.off('FreeListNode', 'zero') == 0, 'free areas are not told apart by the word where objects have their descriptor')


def C13(ctx):
    for cfg in PMS:
        layouts(ctx, cfg)
        mark_round(ctx, cfg)
        whole(ctx, cfg, 2)
        if cfg != 'pmsdbg':    # its checks before the collection do not expect marks
            sweeps(ctx, cfg, (5 if ctx.tier == 'thorough' else 3))
            blocked(ctx, cfg)
        ctx.rule('free-list', 'an object is placed in a free area of exactly its size or one which leaves room for another node; the list afterwards describes exactly what is left')
        pms_raw_rules(ctx, cfg)
