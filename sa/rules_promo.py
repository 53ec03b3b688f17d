"""One round of a search loop (take a reference off the worklist, deal with
what it refers to), on every kind of referent: C10 (promotion), the marking of
C11 and C13."""
from .core import *
from .heap import *
from .trav import *
from .rules_gembc import dest_gen, gen_terms, calls, byte, stores, pfield, CONFS2, CONFS1
from .rules_scan import exttag
from .rules_alloc import canary_of, record

USED = 5
BARRIER = ('ggc_barrier_wait_raw', 'pthread_barrier_wait', 'ggc_barrier_wait')


def worklist_of(f, loop):
    """the worklist a search loop takes from: (pop instruction, worklist term)"""
    for i in worklist_pops(f):
        if i.blk in loop.blocks:
            w = worklist_elem(f, f.term(i.ops[0]))
            if w is not None:
                return i, w
    return None, None


def search_loop(f):
    """the loop which takes references off the worklist"""
    for i in worklist_pops(f):
        l = f.loop_of(i.blk)
        # the loop whose every round takes one off
        if l is not None:
            return l
    return None


class Round:
    """a heap with a worklist holding one reference"""

    def __init__(self, ctx, f, loop):
        self.ctx = ctx; self.f = f; self.loop = loop
        m = self.m = f.mod
        I = self.I = Heap(ctx, f)
        record(I)
        self.pop, wl = worklist_of(f, loop)
        self.ws = ('o', 'ws'); self.buf = ('o', 'wsbuf'); self.slot = ('o', 'slot')
        self.pre = {}
        if wl is not None and wl[0] in ('g', 'al'):
            self.ws = wl
        elif wl is not None:
            self.pre[wl] = self.ws
        self.outs = []        # (state, kind, where)
        self.cells = {}
        o = m.off
        c = self.cells
        c[add(self.ws, C(o('ToSearch', 'used')))] = C(USED)
        c[add(self.ws, C(o('ToSearch', 'buf')))] = self.buf
        for x in ('next', 'prev'):
            if o('ToSearch', x) is not None:
                c[add(self.ws, C(o('ToSearch', x)))] = NULL
        for k in range(USED - 1):
            c[add(self.buf, C(8 * k))] = ('o', 'other%d' % k)
        c[add(self.buf, C(8 * (USED - 1)))] = self.slot

    def pool(self, p, gen):
        go = self.m.off('GGGGC_Pool', 'gen')
        self.I.align[p] = self.m.consts['GGGGC_POOL_BYTES']
        if go is not None:
            self.cells[add(p, C(go))] = C(gen)
        self.cells[add(p, C(self.m.off('GGGGC_Pool', 'survivors')))] = ('s', 'survivors', p)
        return p

    def descriptor(self, d, size, ptrs):
        m = self.m; c = self.cells
        c[add(d, C(m.off('GGGGC_Descriptor', 'size')))] = C(size)
        c[d] = ('o', 'DD')
        if exttag(self.f):
            t = m.off('GGGGC_Descriptor', 'tags')
            for w in range(size):
                c[add(d, C(t + w))] = C(0 if w in ptrs else 1)
        else:
            t = m.off('GGGGC_Descriptor', 'pointers')
            c[add(d, C(t))] = C(sum(1 << w for w in ptrs))
        self.I.poolof[d] = ('o', 'pool of D')
        return d

    def object(self, x, p, head, size=None, words=()):
        c = self.cells
        self.I.poolof[x] = p
        c[x] = head
        for k, v in words:
            c[add(x, C(8 * k))] = v
        cn = canary_of(self.m)
        if cn:
            c[add(x, C(cn[0]))] = C(cn[1])
        return x

    def run(self, preset):
        I = self.I; f = self.f
        pre = dict(self.pre); pre.update(preset)
        st = header_state(I, self.loop.header, pre)
        st.mem.update(self.cells)
        # nothing else to report about
        for g in () if getattr(self, 'keep', False) else ('ggggc_rootPool0List', 'ggggc_gen0', 'ggggc_rootPointerStackList', 'ggggc_rootJITPointerStackList'):
            st.mem[('g', g)] = NULL
        for k in range(0 if getattr(self, 'keep', False) else self.m.consts['GGGGC_GENERATIONS']):
            st.mem[add(('g', 'ggggc_gens'), C(8 * k))] = NULL
        # reference lists held in local variables: empty
        for k in I._live[self.loop.header]:
            t = f.vterm(k)
            if t[0] == 'al':
                st.mem.setdefault(t, NULL)
        I.entry = self.loop.header
        I.stops[self.loop.header] = lambda s: self.outs.append((s, 'round', None))
        for l in f.loop_chain(self.loop.header):
            if l is not self.loop and l.header != self.loop.header:
                I.stops[l.header] = lambda s, h=l.header: self.outs.append((s, 'over', h))
        I.visits = {}
        try:
            I.run(st)
        except Give as e:
            return 'it cannot be followed: %s' % e, None
        for k, (i, d) in I.bad.items():
            return d, i
        return None, None

    def pushes(self, s):
        u = s.mem.get(add(self.ws, C(self.m.off('ToSearch', 'used'))))
        if not u or u[0] != 'c':
            return None
        return [s.mem.get(add(self.buf, C(8 * k))) for k in range(USED - 1, u[1])]


def W(k):
    return ('o', 'W%d' % k)


def stop_call(R, kind):
    def h(I, st, i, args):
        R.outs.append((st.copy(), kind, i))
        return []
    return h


KINDS = ['null', 'plain', 'moved', 'moved twice']
SIZE = 4
PTRS = (0, 1, 3)


def setup(R, kind, gent, noptr, gold=0, dstate=0):
    """what the reference refers to: (first object, final object)"""
    I = R.I; c = R.cells
    size = SIZE
    cn = canary_of(R.m)
    R.ptrs = tuple(k for k in PTRS if not (cn and cn[0] == 8 * k))
    D = R.descriptor(('o', 'D'), size, () if noptr else R.ptrs)
    PT = R.pool(('o', 'pool of T'), gent)
    if dstate == 'moved':
        # the descriptor itself has moved; what it says is still there
        D2 = R.descriptor(('o', 'D moved'), size, () if noptr else R.ptrs)
        c[D] = add(D2, C(1))
    elif dstate:
        c[D] = add(('o', 'DD'), C(dstate))
    R.pool(('o', 'pool of D'), 0)
    words = [(k, W(k) if k in R.ptrs else ('s', 'plain word %d' % k)) for k in range(1, size) if not (cn and cn[0] == 8 * k)]
    if kind == 'null':
        c[R.slot] = NULL
        return None, None, D
    T = ('o', 'T')
    R.object(T, PT, D, size, words)
    first = T
    if kind != 'plain':
        PB = R.pool(('o', 'pool of old copy'), gold)
        prev = T
        for n in range(1 if kind == 'moved' else 2):
            first = R.object(('o', 'old copy %d' % n), PB, add(prev, C(1)))
            prev = first
    c[R.slot] = first
    return first, T, D


def want_ptrs(R, base, noptr):
    req = {base}
    if not noptr:
        req |= {add(base, C(8 * k)) for k in R.ptrs if k}
    return req


def promote(ctx, cfg):
    """one round of the minor collection's search"""
    ctx.rule('promote-round', 'one round of the search, for every kind of referent (none; not moved, moved, moved twice; every generation; with and without references of its own): a null reference is left alone; an already moved object is followed and the reference redirected; an object above the collected generations is left in place; any other is copied whole to one fresh object of its size one generation up, forwarded after the copy, the reference redirected, and the copy\'s own references enqueued; when the target generation is full nothing is moved and the collection starts over, one generation more, with an empty worklist')
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    mi, D = dest_gen(ctx, f)
    loop = f.loop_of(mi.blk) if mi is not None else None
    if loop is None:
        ctx.check('promote-round', f, 'promotion', False, 'no object is ever promoted')
        return
    # the loop whose rounds take a reference each
    pl = search_loop(f)
    if pl is not None and loop.header not in pl.blocks:
        ctx.check('promote-round', f, 'promotion', False, 'the search does not promote what it finds', where=mi)
        return
    if pl is not None:
        loop = pl
    NG = m.consts['GGGGC_GENERATIONS']
    gt = gen_terms(f)
    for G in range(NG - 1):
        for kind in KINDS:
            for gent in ([0] if kind == 'null' else range(NG)):
                for noptr, ds in ((False, 0), (True, 0), (False, 'moved')):
                    if (noptr or ds) and (kind != 'plain' or gent > G):
                        continue
                    case = '%s reference' % kind if kind == 'null' else 'object of generation %d (%s%s%s), collecting up to %d' % (gent, {'plain': 'not moved'}.get(kind, kind), ', without references' if noptr else '', ', its descriptor moved before' if ds else '', G)
                    R = Round(ctx, f, loop)
                    I = R.I
                    first, T, D = setup(R, kind, gent, noptr, dstate=ds)
                    N = ('o', 'N')
                    I.poolof[N] = R.pool(('o', 'pool of N'), G + 1)
                    badcall = []

                    def alloc(I, st, i, args):
                        if args[0] != C(SIZE):
                            badcall.append(('it is given a copy of another size', i)); return []
                        if I.arith('and', args[1], C(255), 64) != C(G + 1):
                            badcall.append(('it is promoted to another generation than the next', i)); return []
                        if st.u.get('al'):
                            badcall.append(('it is copied twice', i)); return []
                        e = st.copy()
                        st.u['al'] = 1; e.u['al'] = -1
                        cn = canary_of(m)
                        if cn:
                            st.mem[add(N, C(cn[0]))] = ('s', 'fresh canary')
                        for x in ('mem', ):
                            pass
                        return [(st, N), (e, NULL)]
                    I.calls['ggggc_mallocGen1'] = alloc
                    I.calls['ggggc_collectFull'] = stop_call(R, 'full')
                    for n in BARRIER:
                        I.calls[n] = stop_call(R, 'end')
                    for n in ('abort', 'exit'):
                        I.calls[n] = stop_call(R, 'abort')
                    pre = {}
                    for t in gt:
                        pre[t] = C(G)
                    # finalizer lists held in local variables: none
                    err, wh = R.run(pre)
                    if not err and badcall:
                        err, wh = badcall[0]
                    if not err:
                        err, wh = judge_promo(R, kind, first, T, D, N, G, gent, noptr, gt)
                    ctx.check('promote-round', f, case, err is None, err or '', where=wh)


def judge_promo(R, kind, first, T, D, N, G, gent, noptr, gt):
    m = R.m; f = R.f; I = R.I
    if not R.outs:
        return 'the round never ends', None
    kinds = {k for s, k, w in R.outs}
    for s, k, w in R.outs:
        g = s.mem.get
        al = s.u.get('al', 0)
        if k == 'abort':
            return 'the collection is aborted', w
        if k == 'end':
            return 'the collection ends in the middle of the search', w
        here = g(R.slot)
        if k == 'round':
            ps = R.pushes(s)
            if ps is None:
                return 'what it enqueues cannot be told', None
            if any(g(add(R.buf, C(8 * j))) != ('o', 'other%d' % j) for j in range(USED - 1)) or g(add(R.ws, C(m.off('ToSearch', 'used')))) [1] < USED - 1:
                return 'other entries of the worklist are lost', None
            if kind == 'null':
                if here != NULL or ps or al:
                    return 'something is done about a null reference', None
                continue
            if gent > G:
                if al:
                    return 'it is moved although its generation is not collected', None
                if here != T:
                    return 'the reference is not redirected to where the object is now', None
                if g(T) != D:
                    return 'its header is changed although it is not moved', None
                if ps:
                    return 'references are enqueued although nothing was moved', None
                continue
            if al == 0:
                return 'it is not moved although its generation is collected', None
            if al == -1:
                return 'the search goes on although the object could not be copied', None
            if here != N:
                return 'the reference is not redirected to the copy', None
            if g(N) != D:
                return 'the copy\'s descriptor is not the object\'s', None
            for j in range(1, SIZE):
                a = add(T, C(8 * j))
                want = g(a, R.cells.get(a))
                if g(add(N, C(8 * j))) != R.cells.get(a):
                    return 'word %d of the object is not copied' % j, None
            if g(T) != add(N, C(1)):
                return 'no forwarding reference to the copy is left', None
            req = want_ptrs(R, N, noptr)
            if set(ps) != req:
                mis = req - set(ps)
                return ('the copy\'s word %s is not enqueued' % ', '.join(str(parts_of(sub(x, N))[0] // 8) for x in mis) if mis else 'what is enqueued is not a reference of the copy'), None
            continue
        # started over, or gone on to a full collection
        if al != -1:
            return 'the search is abandoned although the object could be handled', w if k != 'over' else None
        if here not in (first, T):
            return 'the reference is changed although the object could not be copied', None
        if g(T) != D:
            return 'the object\'s header is changed although it could not be copied', None
        us = [a for a in s.mem if parts_of(a)[0] == m.off('ToSearch', 'used') and base_of(a) and (base_of(a)[0][0] == 'g' or base_of(a)[0] == R.ws) and s.mem[a] == NULL]
        if not us and m.off('ToSearch', 'used') is not None and k == 'over':
            return 'the collection starts over with references of the abandoned search on the worklist', None
        if k == 'over':
            # the generation it goes on with
            h = [t for t in gt if t[0] == 'cur' and any(i.op == 'phi' and f.vterm(i.id) == t for i in f.blocks[w])]
            for t in h:
                v = [s.env.get(i.id) for i in f.blocks[w] if i.op == 'phi' and f.vterm(i.id) == t][0]
                if v is not None and I.arith('and', v, C(255), 64) != C(G + 1):
                    return 'the collection does not go on with one generation more', None
            if not h:
                return 'the search starts over without collecting one generation more', None
    if kind != 'null' and gent <= G and not any(s.u.get('al') == -1 for s, k, w in R.outs):
        return 'whether the object could be copied is not looked at', None
    return None, None


class Lists:
    """two threads' youngest-generation pools, two pools in each older
    generation"""

    def __init__(self, R, gens):
        self.R = R; m = R.m; c = R.cells
        o = lambda x: m.off('GGGGC_Pool', x)
        self.gen0 = []
        pl = [('o', 'list %d' % k) for k in (1, 2)]
        c[('g', 'ggggc_rootPool0List')] = pl[0]
        heads = []
        for k, p in enumerate(pl):
            c[add(p, C(m.off('GGGGC_PoolList', 'next')))] = pl[k + 1] if k + 1 < len(pl) else NULL
            ps = [('o', 'pool %d of thread %d' % (j, k + 1)) for j in (1, 2)]
            heads.append(ps[0])
            c[add(p, C(m.off('GGGGC_PoolList', 'pool')))] = ps[0]
            self.chain(ps, 0)
            self.gen0 += ps
        c[('g', 'ggggc_gen0')] = heads[0]
        c[('g', 'ggggc_pool0')] = ('s', 'current pool')
        self.older = {}
        for g in range(1, gens):
            ps = [('o', 'pool %d of generation %d' % (j, g)) for j in (1, 2)]
            self.chain(ps, g)
            self.older[g] = ps
            c[add(('g', 'ggggc_gens'), C(8 * g))] = ps[0]
            c[add(('g', 'ggggc_pools'), C(8 * g))] = ('s', 'current pool of %d' % g)
        c[add(('g', 'ggggc_gens'), NULL)] = NULL
        c[add(('g', 'ggggc_pools'), NULL)] = NULL

    def all(self):
        return self.gen0 + [p for g in sorted(self.older) for p in self.older[g]]

    def chain(self, ps, gen):
        R = self.R; m = R.m; c = R.cells
        o = lambda x: m.off('GGGGC_Pool', x)
        for j, p in enumerate(ps):
            R.pool(p, gen)
            c[add(p, C(o('next')))] = ps[j + 1] if j + 1 < len(ps) else NULL
            c[add(p, C(o('free')))] = ('s', 'free', p)
            c[add(p, C(o('end')))] = ('s', 'end', p)
            for x in ('finalizers', 'breakTable', 'breakTableSize'):
                if o(x) is not None:
                    c[add(p, C(o(x)))] = NULL if x == 'finalizers' else ('s', x, p)


def memset_recorder(I, m):
    base = I.memset

    def h(st, i, args):
        if args[2][0] == 'c':
            st.u['clears'] = st.u.get('clears', ()) + ((args[0], args[1], args[2][1]),)
        else:
            st.u['clears'] = st.u.get('clears', ()) + ((args[0], args[1], args[2]),)
        return [st]
    I.memset = h


def finish_runs(ctx, cfg):
    """the end of a minor collection, from the point where the worklist is
    empty: (G, lists, round, error, where)"""
    f = ctx.func(cfg, 'ggggc_collect0')
    key = '_finish'
    if key in f.__dict__:
        return f.__dict__[key]
    m = f.mod
    out = []
    NG = m.consts['GGGGC_GENERATIONS']
    loop = search_loop(f)
    gt = gen_terms(f)
    if loop is not None:
        for G in range(NG - 1):
            R = Round(ctx, f, loop)
            R.cells[add(R.ws, C(m.off('ToSearch', 'used')))] = NULL
            L = Lists(R, NG)
            memset_recorder(R.I, m)
            for n in BARRIER:
                R.I.calls[n] = stop_call(R, 'end')
            R.I.calls['ggggc_collectFull'] = stop_call(R, 'full')
            R.I.calls['ggggc_mallocGen1'] = stop_call(R, 'alloc')

            def expand(I, st, i, args):
                st.u['expanded'] = st.u.get('expanded', ()) + (args[0],)
                return [(st, None)]
            R.I.calls['ggggc_expandPoolList'] = expand
            for n in ('abort', 'exit'):
                R.I.calls[n] = stop_call(R, 'abort')
            R.keep = True
            err, wh = R.run({t: C(G) for t in gt})
            out.append((G, L, R, err, wh))
    f.__dict__[key] = out
    return out


def emptied(ctx, cfg):
    ctx.rule('emptied', 'once the search of a minor collection is over, and only then, all pools of the youngest generation of every thread and of every collected generation are empty and allocation resumes at the first of them; no other pool\'s contents are touched')
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    so = m.off('GGGGC_Pool', 'start'); fo = m.off('GGGGC_Pool', 'free')
    runs = finish_runs(ctx, cfg)
    if not runs:
        ctx.check('emptied', f, 'end of a minor collection', False, 'there is no search of what is reachable')
    for G, L, R, err, wh in runs:
        ends = [(s, w) for s, k, w in R.outs if k == 'end']
        if not err and not ends:
            err = 'the collection does not end when nothing is left to search'
        for s, w in ends:
            g = s.mem.get
            if err:
                break
            for p in L.all():
                gen = 0 if p in L.gen0 else [k for k in L.older if p in L.older[k]][0]
                v = g(add(p, C(fo)))
                if gen <= G and v != add(p, C(so)):
                    err = '%s is not emptied' % p[1]
                elif gen > G and v != ('s', 'free', p):
                    err = '%s, which was not collected, is changed' % p[1]
                if g(add(p, C(m.off('GGGGC_Pool', 'next')))) != R.cells[add(p, C(m.off('GGGGC_Pool', 'next')))]:
                    err = 'the list of pools is changed at %s' % p[1]
            if g(('g', 'ggggc_pool0')) != g(('g', 'ggggc_gen0')) or g(('g', 'ggggc_gen0')) != R.cells[('g', 'ggggc_gen0')]:
                err = err or 'allocation does not resume at the thread\'s first pool'
            for k in L.older:
                c1, c2 = add(('g', 'ggggc_pools'), C(8 * k)), add(('g', 'ggggc_gens'), C(8 * k))
                if k <= G and g(c1) != R.cells[c2]:
                    err = err or 'allocation in generation %d does not resume at its first pool' % k
                if k > G and g(c1) not in (R.cells[c1],):
                    err = err or 'allocation in generation %d, which still holds objects, is set back' % k
                if g(c2) != R.cells[c2]:
                    err = err or 'the pools of generation %d are lost' % k
        ctx.check('emptied', f, 'collecting up to generation %d' % G, err is None, err or '', where=wh)


def cards_forgotten(ctx, cfg):
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    ro = m.off('GGGGC_Pool', 'remember'); n = m.consts['GGGGC_CARDS_PER_POOL']
    for G, L, R, err, wh in finish_runs(ctx, cfg):
        ends = [(s, w) for s, k, w in R.outs if k == 'end']
        if err or not ends:
            continue       # reported with C10
        for s, w in ends:
            done = {a for a, v, k in s.u.get('clears', ()) if v == NULL and k == n}
            for k in L.older:
                for p in L.older[k]:
                    if k <= G and add(p, C(ro)) not in done and not all(s.mem.get(add(p, C(ro + j))) == NULL for j in range(n)):
                        err = 'the cards of %s, which is emptied, stay marked' % p[1]
                    if k > G + 1 and add(p, C(ro)) in done:
                        err = 'the cards of %s are forgotten, though its objects may still refer to collected generations' % p[1]
        ctx.check('cards-cleared', f, 'after collecting up to generation %d' % G, err is None, err or '', where=wh)


def not_early(ctx, f):
    """pools are emptied only when there is nothing left to search"""
    pops = [p.blk for p in worklist_pops(f)]
    for i, a, v in stores(f):
        p = pfield(f, a, 'free')
        if p is None:
            continue
        r = f.reach(f.lsucc(i.blk))
        ctx.check('emptied', f, 'not during the search', not any(b in r for b in pops), 'the free space of a pool is changed before the search is over', i)


def C10(ctx):
    from . import rules_alloc
    ctx.rule('old-allocation', 'the promoting allocator hands out only space that is free in a pool of the asked-for generation, moves the free space past it, takes a further pool only when the current ones are full, and reports failure otherwise')
    for cfg in CONFS2:
        promote(ctx, cfg)
        if cfg != 'g2dbg':
            emptied(ctx, cfg)
        not_early(ctx, ctx.func(cfg, 'ggggc_collect0'))
        rules_alloc.gen1_rules(ctx, cfg, ('room',))
