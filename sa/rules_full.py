"""The full collection (C11): marking, its passes over all pools, and the
passes themselves on small symbolic heaps."""
from itertools import product
from .core import *
from .heap import *
from .trav import *
from .rules_gembc import gen_terms, calls, stores, pfield, CONFS2, CONFS1
from .rules_alloc import canary_of, record
from .rules_promo import (Round, Lists, search_loop, setup, want_ptrs, stop_call, USED, BARRIER, SIZE, PTRS, memset_recorder)

MK = 2


def mark_round(ctx, cfg):
    ctx.rule('mark-round', 'one round of a full collection\'s search, for every kind of referent: a null reference is left alone; an object already forwarded by an interrupted promotion is followed and the reference redirected (keeping the reference\'s own mark); an unmarked object is marked and all its references, its descriptor included, are enqueued; a marked one is left alone')
    f = ctx.func(cfg, 'ggggc_collectFull')
    m = f.mod
    loop = search_loop(f)
    if loop is None:
        ctx.check('mark-round', f, 'marking', False, 'nothing is taken off the worklist')
        return
    moved = ['moved', 'moved twice'] if m.consts['GGGGC_GENERATIONS'] > 1 else []
    for kind in ['null', 'plain'] + moved:
        for marked in (False, True):
            for tag in (0, MK):
                for noptr, ds in ((False, 0), (True, 0), (False, MK), (False, 'moved')):
                    if kind == 'null' and (marked or noptr or tag or ds) or (noptr or ds) and kind != 'plain' or ds == 'moved' and not moved:
                        continue
                    case = 'null reference' if kind == 'null' else '%s object (%s)%s%s' % (
                        'marked' if marked else 'unmarked', {'plain': 'not moved'}.get(kind, kind), ', found through the header of a marked object' if tag else '',
                        (', without references' if noptr else '') + (', its descriptor %s before' % ('marked' if ds == MK else 'moved') if ds else ''))
                    R = Round(ctx, f, loop)
                    first, T, D = setup(R, kind, 0, noptr, dstate=ds)
                    c = R.cells
                    if T is not None:
                        # what another round left behind
                        if marked:
                            c[T] = add(D, C(MK))
                        c[R.slot] = add(first, C(tag))
                    for n in ('abort', 'exit'):
                        R.I.calls[n] = stop_call(R, 'abort')
                    err, wh = R.run({})
                    if not err:
                        err = judge_mark(R, kind, first, T, D, marked, tag, noptr)
                    ctx.check('mark-round', f, case, err is None, err or '', where=wh)


def judge_mark(R, kind, first, T, D, marked, tag, noptr):
    m = R.m
    if not R.outs:
        return 'the round never ends'
    for s, k, w in R.outs:
        g = s.mem.get
        if k != 'round':
            return 'the search does not go on after the round'
        ps = R.pushes(s)
        if ps is None or any(g(add(R.buf, C(8 * j))) != ('o', 'other%d' % j) for j in range(USED - 1)):
            return 'other entries of the worklist are lost'
        here = g(R.slot)
        if kind == 'null':
            if here != NULL or ps:
                return 'something is done about a null reference'
            continue
        if here != add(T, C(tag)):
            return 'the reference does not end up referring to the object%s' % (' with its mark kept' if tag else '')
        if g(T) != add(D, C(MK)):
            return 'the object is not marked' if not marked else 'the mark of a marked object is changed'
        for j in range(1, SIZE):
            a = add(T, C(8 * j))
            if g(a) != R.cells.get(a):
                return 'word %d of the object is changed' % j
        if marked:
            if ps:
                return 'references of an object marked before are enqueued again'
            continue
        req = want_ptrs(R, T, noptr)
        if set(ps) != req:
            mis = req - set(ps)
            return 'the object\'s word %s is not enqueued' % ', '.join(str(parts_of(sub(x, T))[0] // 8) for x in mis) if mis else 'what is enqueued is not a reference of the object'
    return None


SHIFT = 80


def phases(ctx, cfg):
    ctx.rule('passes', 'once everything reachable is marked, each pass of a full collection (sizing, compaction, update of the roots, update of the objects) runs exactly once over every pool of every thread and generation, and a pass is complete before the next begins; then allocation is set back to the first pool of each list and the end of the objects in each older pool is marked')
    f = ctx.func(cfg, 'ggggc_collectFull')
    m = f.mod
    loop = search_loop(f)
    if loop is None:
        return
    NG = m.consts['GGGGC_GENERATIONS']
    R = Round(ctx, f, loop)
    R.keep = True
    R.cells[add(R.ws, C(m.off('ToSearch', 'used')))] = NULL
    L = Lists(R, NG)
    I = R.I; c = R.cells
    o = lambda x: m.off('GGGGC_Pool', x)
    # every second pool is full
    full = set()
    for n, p in enumerate(L.all()):
        c[add(p, C(o('free')))] = add(p, C(8192 * 4))
        c[add(p, C(o('end')))] = add(p, C(8192 * 4 if n % 2 else 8192 * 8))
        if n % 2:
            full.add(p)
    # the roots: two stacks, one of two frames and one of one
    slots = []
    sl = [('o', 'stack %d' % k) for k in (1, 2)]
    c[('g', 'ggggc_rootPointerStackList')] = sl[0]
    for k, s in enumerate(sl):
        c[add(s, C(m.off('GGGGC_PointerStackList', 'next')))] = sl[k + 1] if k + 1 < len(sl) else NULL
        fr = [('o', 'frame %d of stack %d' % (j, k + 1)) for j in ((1, 2) if k == 0 else (1,))]
        c[add(s, C(m.off('GGGGC_PointerStackList', 'pointerStack')))] = fr[0]
        for j, x in enumerate(fr):
            c[add(x, C(m.off('GGGGC_PointerStack', 'next')))] = fr[j + 1] if j + 1 < len(fr) else NULL
            c[add(x, C(m.off('GGGGC_PointerStack', 'size')))] = C(2)
            for w in (0, 1):
                sv = ('o', 'root %d of %s' % (w + 1, x[1]))
                c[add(x, C(m.off('GGGGC_PointerStack', 'pointers') + 8 * w))] = sv
                ob = ('o', 'object of ' + sv[1])
                I.poolof[ob] = L.all()[len(slots) % len(L.all())]
                c[sv] = ob
                slots.append((sv, ob))
    c[('g', 'ggggc_rootJITPointerStackList')] = NULL
    evs = []

    def event(kind):
        def h(I, st, i, args):
            st.u['ev'] = st.u.get('ev', ()) + ((kind, args[0]),)
            return [(st, None)]
        return h
    for n in ('count', 'compact', 'post'):
        I.calls[{'count': 'ggggc_countUsed', 'compact': 'ggggc_compact', 'post': 'ggggc_postCompact'}[n]] = event(n)

    def lookup(I, st, i, args):
        ob = [a for a in args if a in I.poolof]
        if len(ob) == 1:
            p = I.poolof[ob[0]]
            good = [st.mem.get(add(p, C(o('breakTable')))), st.mem.get(add(p, C(o('breakTableSize')))), p]
            if any(a not in good for a in args if a != ob[0]):
                I.report('bt', i, 'a new address is looked up in another pool\'s relocation table')
                return []
            e = ('o', 'entry for ' + ob[0][1]); ch = ('o', 'chunk of ' + ob[0][1])
            st.mem[add(e, C(m.off('BreakTableEl', 'orig')))] = ch
            st.mem[add(e, C(m.off('BreakTableEl', 'newL')))] = add(ch, C(-SHIFT))
            st.u['ev'] = st.u.get('ev', ()) + (('find', ob[0]),)
            return [(st, e)]
        I.report('bt', i, 'what is looked up is not an object\'s address (or one already updated)')
        return []
    bt = [i for b in f.order for i in f.blocks[b] if i.is_call() and is_btcall(f, f.vterm(i.id))]
    for i in bt:
        I.calls[i.callee()] = lookup

    def qs(I, st, i, args):
        return [(st, None)]
    for n in ('abort', 'exit'):
        I.calls[n] = stop_call(R, 'abort')
    memset_recorder(I, m)
    err, wh = R.run({})
    ends = [s for s, v, ri in I.ends]
    if not err and not ends:
        err = 'the collection does not end when nothing is left to search'
    for s in ends:
        if err:
            break
        ev = s.u.get('ev', ())
        g = s.mem.get
        order = {}
        for n, (k, x) in enumerate(ev):
            order.setdefault(k, []).append((n, x))
        for k, name in (('count', 'sized'), ('compact', 'compacted'), ('post', 'updated')):
            ps = [x for n, x in order.get(k, ())]
            mis = [p for p in L.all() if p not in ps]
            if mis:
                err = '%s is not %s' % (mis[0][1], name)
            elif len(ps) != len(L.all()):
                err = 'a pool is %s more than once' % name
            if err:
                break
        if err:
            break
        mx = lambda k: max(n for n, x in order[k]); mn = lambda k: min(n for n, x in order[k])
        if mx('count') > mn('compact'):
            err = 'a pool is compacted before all pools have been sized'
        elif mx('compact') > mn('post'):
            err = 'a pool\'s references are updated before all pools have been compacted'
        elif 'find' in order and mn('find') < mx('compact'):
            err = 'a root is updated before all pools have been compacted'
        for sv, ob in slots:
            if not err and g(sv) != add(ob, C(-SHIFT)):
                err = '%s is not given its object\'s new address' % sv[1]
        if err:
            break
        if g(('g', 'ggggc_pool0')) != c[('g', 'ggggc_gen0')] or g(('g', 'ggggc_gen0')) != c[('g', 'ggggc_gen0')]:
            err = 'allocation does not resume at the thread\'s first pool'
        for k in L.older:
            c1, c2 = add(('g', 'ggggc_pools'), C(8 * k)), add(('g', 'ggggc_gens'), C(8 * k))
            if g(c1) != c[c2] or g(c2) != c[c2]:
                err = err or 'allocation in generation %d does not resume at its first pool' % k
            for p in L.older[k]:
                if p not in full and g(c[add(p, C(o('free')))]) != NULL:
                    err = err or 'the end of the objects in %s is not marked' % p[1]
                if p in full and c[add(p, C(o('free')))] in s.mem:
                    err = err or 'memory past the end of %s is written' % p[1]
        for p in L.all():
            if g(add(p, C(o('free')))) != c[add(p, C(o('free')))]:
                err = err or 'the free space of %s is changed after compaction' % p[1]
            if g(add(p, C(o('next')))) != c[add(p, C(o('next')))]:
                err = err or 'the list of pools is changed at %s' % p[1]
    ctx.check('passes', f, 'passes', err is None, err or '', where=wh)


# ---------------------------------------------------------------- the passes
KINDS3 = 'Ldf'       # live, dead, dead and forwarded
SIZES = (3, 4, 5, 3, 4, 5, 3)


def layouts(n):
    for k in range(0, n + 1):
        for seq in product(KINDS3, repeat=k):
            for gap in ((0, 7) if k else (7,)):
                yield seq, gap
    # and long ones
    for seq in ('dL' * 40, 'L' * 40 + 'd' * 40 + 'L' * 3, 'LLdd' * 20, 'dLL' * 25):
        for gap in (0, 7):
            yield tuple(seq), gap


def place(m, seq, gap):
    """word offsets (from the start of objects) of each object"""
    pos = 0; out = []
    for n, k in enumerate(seq):
        z = SIZES[n % len(SIZES)]
        out.append((k, pos, z)); pos += z
    return out, pos, pos + gap


def chunks(objs, used, end):
    """(live?, first word, length) maximal runs, over the whole pool"""
    out = []
    for k, p, n in objs + [('d', used, end - used)] * (end > used):
        live = k == 'L'
        if out and out[-1][0] == live:
            out[-1][2] += n
        else:
            out.append([live, p, n])
    return out


def newheap(ctx, f):
    I = Heap(ctx, f)
    I.budget = 10; I.dedupe = False; I.maxlen = 100000
    st = start(f)
    return I, st


def outcome(I, st):
    try:
        I.run(st)
    except Give as e:
        return 'it cannot be followed: %s' % e, None
    for k, (i, d) in I.bad.items():
        return d, i
    if not I.ends:
        return 'it never returns', None
    return None, None


def aborts(I):
    def h(I, st, i, args):
        I.report('abort', i, 'it gives up on a proper heap')
        return []
    for n in ('abort', 'exit'):
        I.calls[n] = h
    for x in ('fprintf', 'fwrite', 'perror', 'fputs'):
        I.calls[x] = lambda I, st, i, args: [(st, ('any', 'io%d' % i.id))]


P = ('o', 'pool')


def base(m):
    so = m.off('GGGGC_Pool', 'start')
    return lambda w: add(P, C(so + 8 * w))


def sized(ctx, cfg, n):
    ctx.rule('sizing', 'the sizing pass leaves, for every arrangement of live, dead and already moved objects, the length of the first live run in the pool\'s header, the length of each free area in its first word and the length of each later live run in the word before it, takes the mark off every live object and changes nothing else')
    f = ctx.func(cfg, 'ggggc_countUsed')
    m = f.mod
    o = lambda x: m.off('GGGGC_Pool', x)
    A = base(m)
    err = None; wh = None; cnt = 0
    for seq, gap in layouts(n):
        objs, used, end = place(m, seq, gap)
        I, st = newheap(ctx, f)
        aborts(I)
        arg = st.env[[a for a, k in f.argids.items() if k == 0][0]]
        c = {}
        I.align[P] = I.PB
        c[add(P, C(o('free')))] = A(used); c[add(P, C(o('end')))] = A(end)
        c[add(P, C(o('breakTableSize')))] = ('s', 'old size'); c[add(P, C(o('breakTable')))] = ('s', 'old table')
        for j, (k, p, sz) in enumerate(objs):
            D = ('o', 'D%d' % sz)
            c[add(D, C(m.off('GGGGC_Descriptor', 'size')))] = C(sz)
            c[D] = add(('o', 'DD'), C(MK if j % 2 else 0))
            for w in range(1, sz):
                c[A(p + w)] = ('s', 'word %d of object %d' % (w, j))
            if k == 'L':
                c[A(p)] = add(D, C(MK))
            elif k == 'd':
                c[A(p)] = D
            else:
                X = ('o', 'new copy %d' % j)
                c[A(p)] = add(X, C(1))
                if j % 2:
                    X2 = ('o', 'newer copy %d' % j)
                    c[X] = add(X2, C(1)); X = X2
                c[X] = add(D, C(MK if j % 3 else 0))
        for w in range(used, end):
            c[A(w)] = ('s', 'free word %d' % w)
        st.mem.update(c)
        st.env = {a: (P if k == 0 else v) for (a, k), v in zip(f.argids.items(), st.env.values())}
        err, wh = outcome(I, st)
        cnt += 1
        for s, v, ri in I.ends if not err else ():
            ch = chunks(objs, used, end)
            want = dict(c)
            for k, p, sz in objs:
                if k == 'L':
                    want[A(p)] = ('o', 'D%d' % sz)
            first = ch[0][2] if ch and ch[0][0] else 0
            want[add(P, C(o('breakTableSize')))] = C(first)
            for q, (live, p, ln) in enumerate(ch):
                if not live:
                    want[A(p)] = C(ln)
                elif p:
                    want[A(p - 1)] = C(ln)
            for a, v2 in want.items():
                if s.mem.get(a) != v2:
                    d = sub(a, A(0))
                    if a == add(P, C(o('breakTableSize'))):
                        err = 'the length of the first live run is not what is recorded'
                    elif d[0] == 'c' and d[1] >= 0 and d[1] < 8 * end:
                        w = d[1] // 8
                        if any(k == 'L' and p == w for k, p, z in objs):
                            err = 'a live object keeps its mark'
                        elif any(not live and p == w for live, p, ln in ch):
                            err = 'the length of a free area is not recorded in its first word'
                        elif any(live and p == w + 1 for live, p, ln in ch):
                            err = 'the length of a live run is not recorded before it'
                        else:
                            err = 'a word of a live object is changed' if any(k == 'L' and p <= w < p + z for k, p, z in objs) else None
                    else:
                        err = 'something else than the pool\'s objects is changed'
                    if err:
                        break
            if not err:
                for a in s.mem:
                    if a not in want and base_of(a) and base_of(a)[0] == P and base_of(a)[1] >= o('start') + 8 * end:
                        err = 'memory past the end of the pool is written'
        if err:
            err = 'pool of objects %s%s: %s' % (' '.join({'L': 'live', 'd': 'dead', 'f': 'moved'}[k] + '(%d)' % z for k, p, z in objs) or '(none)', '' if gap else ' up to its end', err)
            break
    ctx.check('sizing', f, 'all arrangements', err is None, err or '', where=wh)
    ctx.counts['symbolic heaps'] = ctx.counts.get('symbolic heaps', 0) + cnt


def compacted(ctx, cfg, n):
    ctx.rule('compaction', 'the compaction pass slides every live run, in order and word for word, to the front of its pool, sets the free space to begin after them, and leaves in the space that became free a table with exactly one relocation (old and new address) for every run that is not at its old place, sorted by address; no word outside the pool is read or written')
    f = ctx.func(cfg, 'ggggc_compact')
    m = f.mod
    o = lambda x: m.off('GGGGC_Pool', x)
    A = base(m)
    err = None; wh = None; cnt = 0; cmpf = set()
    oo = m.off('BreakTableEl', 'orig'); no = m.off('BreakTableEl', 'newL'); es = 16
    for seq, gap in layouts(n):
        if 'f' in seq:
            continue        # (looks no different from dead here)
        objs, used, end = place(m, seq, gap)
        ch = chunks(objs, used, end)
        I, st = newheap(ctx, f)
        aborts(I)
        c = {}
        I.align[P] = I.PB
        c[add(P, C(o('free')))] = A(used); c[add(P, C(o('end')))] = A(end)
        first = ch[0][2] if ch and ch[0][0] else 0
        c[add(P, C(o('breakTableSize')))] = C(first); c[add(P, C(o('breakTable')))] = ('s', 'old table')
        for w in range(0, end):
            c[A(w)] = ('s', 'word', w)
        for live, p, ln in ch:
            if not live:
                c[A(p)] = C(ln)
            elif p:
                c[A(p - 1)] = C(ln)
        st.mem.update(c)
        st.env = {a: (P if k == 0 else v) for (a, k), v in zip(f.argids.items(), st.env.values())}

        def onload(I, st, i, a, sz):
            b = base_of(a)
            if b and b[0] == P and b[1] >= o('start') + 8 * end:
                I.report('past', i, 'memory past the end of the pool is read')
                return []
            return None

        def onstore(I, st, i, a, v):
            b = base_of(a)
            if b and b[0] == P and b[1] >= o('start') + 8 * end:
                I.report('past', i, 'memory past the end of the pool is written')
                return []
            return None
        I.onload = onload; I.onstore = onstore

        def qsort(I, st, i, args):
            st.u['sort'] = st.u.get('sort', ()) + (tuple(args),)
            return [(st, None)]
        I.calls['qsort'] = qsort
        err, wh = outcome(I, st)
        cnt += 1
        for s, v, ri in I.ends if not err else ():
            g = s.mem.get
            pos = 0; want = []
            for live, p, ln in ch:
                if not live:
                    continue
                for w in range(ln):
                    if g(A(pos + w)) != ('s', 'word', p + w) and not err:
                        err = 'word %d of a live run is not moved to its new place' % w
                if p != pos:
                    want.append((A(p), A(pos)))
                pos += ln
            if err:
                break
            if g(add(P, C(o('free')))) != A(pos):
                err = 'the free space does not begin after the live objects'
                break
            bs = g(add(P, C(o('breakTableSize')))); bt = g(add(P, C(o('breakTable'))))
            if bs is not None and bs[0] in ('lshr',) or bs is None or bs[0] != 'c':
                err = 'the number of relocations cannot be told'
            elif bs[1] != len(want):
                err = 'there are %d relocations for %d runs which have moved' % (bs[1], len(want))
            elif want:
                b = sub(bt, A(0))
                if b[0] != 'c' or not 8 * pos <= b[1] <= 8 * end - es * len(want):
                    err = 'the relocation table is not in free space'
                else:
                    have = [(g(add(bt, C(es * j + oo))), g(add(bt, C(es * j + no)))) for j in range(len(want))]
                    if set(have) != set(want):
                        err = 'the relocation table is not that of the runs which have moved'
                    ss = [x for x in s.u.get('sort', ()) if x[:3] == (bt, C(len(want)), C(es))]
                    if not err and not ss and have != sorted(have, key=lambda x: parts_of(x[0])[0]):
                        err = 'the relocation table is not sorted by old address'
                    for x in ss:
                        cmpf.add(x[3])
            if err:
                break
        if err:
            err = 'pool of %s%s: %s' % (' '.join(('%d live words' if l else '%d free words') % z for l, p, z in ch), '' if gap else ' up to its end', err)
            break
    ctx.check('compaction', f, 'all arrangements', err is None, err or '', where=wh)
    ctx.counts['symbolic heaps'] = ctx.counts.get('symbolic heaps', 0) + cnt
    for x in cmpf:
        if x[0] == 'f':
            comparator(ctx, cfg, m, x[1])


def comparator(ctx, cfg, m, name):
    f = m.funcs.get(name)
    if f is None:
        return
    oo = m.off('BreakTableEl', 'orig')
    err = None; wh = None
    for x, y in ((1, 2), (2, 1), (2, 2), (1 << 40, 1), (1, 1 << 40), (0, 1 << 35), (1 << 35, 0)):
        I, st = newheap(ctx, f)
        l, r = ('o', 'left'), ('o', 'right')
        env = {}
        for a, k in f.argids.items():
            env[a] = (l, r)[k]
        st.env = env
        # the places' distance may be anything a pool allows
        st.mem[add(l, C(oo))] = add(P, C(8 * x)); st.mem[add(r, C(oo))] = add(P, C(8 * y))
        err, wh = outcome(I, st)
        for s, v, ri in I.ends if not err else ():
            if v is None or v[0] != 'c':
                err = 'its result cannot be told'
                break
            q = v[1] & 0xffffffff
            q = (q > 0 and q < 1 << 31) - (q >= 1 << 31)
            if q != (x > y) - (x < y):
                err = 'relocations are not ordered by old address'
        if err:
            break
    ctx.check('compaction', f, 'order of relocations', err is None, err or '', where=wh)


def lookups(ctx, cfg, big):
    ctx.rule('relocation-lookup', 'looking up an address in a relocation table yields the last relocation at or before it, and none if there is none')
    fc = ctx.func(cfg, 'ggggc_collectFull')
    m = fc.mod
    names = set()
    for fn in m.funcs.values():
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.is_call() and i.callee() and is_btcall(fn, fn.vterm(i.id)):
                    names.add(i.callee())
    oo = m.off('BreakTableEl', 'orig'); no = m.off('BreakTableEl', 'newL')
    for name in sorted(names):
        f = m.funcs.get(name)
        if f is None:
            continue
        err = None; wh = None; cnt = 0
        for n in list(range(0, 10)) + ([13, 16, 17, 31, 32, 33] if big else [16, 17]):
            for x in range(-1, n):
                for d in (0, 3):
                    if x < 0 and d == 0:
                        continue
                    I, st = newheap(ctx, f)
                    I.budget = 2; I.patience = 500
                    T = ('o', 'table')
                    for j in range(n):
                        st.mem[add(T, C(16 * j + oo))] = add(P, C(80 * j + 160)); st.mem[add(T, C(16 * j + no))] = add(P, C(40 * j))
                    loc = add(P, C(160 + 80 * x + 8 * d))
                    env = {}
                    used = 0
                    for a, k in f.argids.items():
                        ty = f.ptypes(('arg', k))
                        env[a] = T if 'BreakTableEl' in ty else (C(n) if f.mod.pointee(f.sig[k + 1]) is None else loc)
                    st.env = env
                    err, wh = outcome(I, st)
                    cnt += 1
                    want = add(T, C(16 * x)) if x >= 0 else NULL
                    for s, v, ri in I.ends if not err else ():
                        if v != want:
                            err = 'for an address %s of %d relocations it yields %s' % ('before the first' if x < 0 else 'at the start of number %d' % x if d == 0 else 'within number %d' % x, n, 'none' if v == NULL else 'another one' if want != NULL else 'one')
                    if err:
                        break
                if err:
                    break
            if err:
                break
        ctx.check('relocation-lookup', f, 'all positions', err is None, err or '', where=wh)


def repointed(ctx, cfg):
    ctx.rule('update-objects', 'the update pass gives every reference of every surviving object, its descriptor reference included, its object\'s new address exactly once, looked up in that object\'s own pool; null references and plain data stay as they are, and the layout is read from the descriptor at its new place')
    f = ctx.func(cfg, 'ggggc_postCompact')
    m = f.mod
    o = lambda x: m.off('GGGGC_Pool', x)
    A = base(m)
    cn = canary_of(m)
    tagging = m.consts.get('GGGGC_FEATURE_TAGGING') or cfg in ('g2all', 'g3all', 'g1all', 'g2tag')
    from .rules_scan import exttag
    ext = exttag(f)
    NG = m.consts['GGGGC_GENERATIONS']
    res = {}
    for gen in range(min(NG, 2)):
        for moved in (False, True):
            for noptr in (False, True):
                I, st = newheap(ctx, f)
                aborts(I)
                c = {}
                I.align[P] = I.PB
                h = 2 if cn else 1     # words of the header
                # an object with a reference, data, null and another reference; one without
                D1, D2 = ('o', 'D1'), ('o', 'D2')
                n1 = h + 4; n2 = 3
                X, Y = ('o', 'X'), ('o', 'Y')
                for x, g in ((D1, 0), (D2, 1 if NG > 1 else 0), (X, 0), (Y, 1 if NG > 1 else 0)):
                    p = ('o', 'pool of ' + x[1]); I.poolof[x] = p; I.align[p] = I.PB
                    c[add(p, C(o('breakTable')))] = ('o', 'table of ' + x[1]); c[add(p, C(o('breakTableSize')))] = C(7)
                    if o('gen') is not None:
                        c[add(p, C(o('gen')))] = C(g)
                sh = lambda x: add(x, C(-SHIFT)) if moved else x
                for x in (D1, D2, X, Y):
                    I.poolof[sh(x)] = I.poolof[x]
                c[A(0)] = D1
                words = {h: X, h + 1: ('s', 'plain'), h + 2: NULL, h + 3: Y}
                if cn:
                    words[1] = C(cn[1])
                isptr = {0, h, h + 2, h + 3}
                for w, v in words.items():
                    c[A(w)] = v
                c[A(n1)] = D2
                c[A(n1 + 1)] = C(cn[1]) if cn else ('s', 'plain2')
                c[A(n1 + 2)] = ('s', 'plain3')
                for d, n, ptrs in ((D1, n1, isptr), (D2, n2, {0} if not noptr else ())):
                    d = sh(d)
                    c[d] = ('o', 'DD')
                    if cn:
                        c[add(d, C(cn[0]))] = C(cn[1])
                    c[add(d, C(m.off('GGGGC_Descriptor', 'size')))] = C(n)
                    if ext:
                        t = m.off('GGGGC_Descriptor', 'tags')
                        for w in range(n):
                            c[add(d, C(t + w))] = C(0 if w in ptrs else 1)
                    else:
                        c[add(d, C(m.off('GGGGC_Descriptor', 'pointers')))] = C(sum(1 << w for w in ptrs))
                c[add(P, C(o('free')))] = A(n1 + n2); c[add(P, C(o('end')))] = A(500)
                if o('gen') is not None:
                    c[add(P, C(o('gen')))] = C(gen)
                st.mem.update(c)
                st.env = {a: (P if k == 0 else v) for (a, k), v in zip(f.argids.items(), st.env.values())}
                I.calls.update({})
                memset_recorder(I, m)

                def lookup(I, st, i, args):
                    ob = [a for a in args if a in (D1, D2, X, Y)]
                    if len(ob) != 1:
                        I.report('bt', i, 'what is looked up is not a reference (or one already updated)')
                        return []
                    p = I.poolof[ob[0]]
                    good = [st.mem.get(add(p, C(o('breakTable')))), C(7), p]
                    if any(a not in good for a in args if a != ob[0]):
                        I.report('bt', i, 'a new address is looked up in another pool\'s relocation table')
                        return []
                    if not moved:
                        return [(st, NULL)]
                    e = ('o', 'entry for ' + ob[0][1]); chk = ('o', 'chunk of ' + ob[0][1])
                    st.mem[add(e, C(m.off('BreakTableEl', 'orig')))] = chk
                    st.mem[add(e, C(m.off('BreakTableEl', 'newL')))] = add(chk, C(-SHIFT))
                    return [(st, e)]
                for b in f.order:
                    for i in f.blocks[b]:
                        if i.is_call() and is_btcall(f, f.vterm(i.id)):
                            I.calls[i.callee()] = lookup
                err, wh = outcome(I, st)
                for s, v, ri in I.ends if not err else ():
                    want = {A(0): sh(D1), A(n1): sh(D2)}
                    for w, v2 in words.items():
                        want[A(w)] = sh(v2) if w in isptr and v2 != NULL else v2
                    want[A(n1 + 1)] = c[A(n1 + 1)]; want[A(n1 + 2)] = c[A(n1 + 2)]
                    for a, v2 in want.items():
                        if s.mem.get(a) != v2 and not err:
                            w = sub(a, A(0))[1] // 8
                            w2 = w if w < n1 else w - n1
                            err = 'word %d of %s is %s' % (w2, 'an object' if w < n1 or not noptr else 'an object without references',
                                                          'not given its object\'s new address' if v2 != c[a] else 'changed')
                ctx.check('update-objects', f, 'generation %d, %s%s' % (gen, 'objects moved' if moved else 'nothing moved', ', layout without references' if noptr else ''), err is None, err or '', where=wh)


def full_called(ctx, cfg):
    ctx.rule('full-last', 'a collection of the last generation is a full collection, run once, while the world is stopped; nothing is emptied after it')
    f = ctx.func(cfg, 'ggggc_collect0')
    m = f.mod
    NG = m.consts['GGGGC_GENERATIONS']

    class Fake:
        pass
    R = Fake(); R.ctx = ctx; R.f = f; R.m = m; R.cells = {}
    R.I = I = Heap(ctx, f)
    R.pool = lambda p, gen: Round.pool(R, p, gen)
    L = Lists(R, NG)
    c = R.cells
    o = lambda x: m.off('GGGGC_Pool', x)
    for p in L.all():
        c[add(p, C(o('free')))] = add(p, C(8192 * 4))
    aborts(I)
    memset_recorder(I, m)
    st = start(f)
    st.mem.update(c)
    st.env = {a: C(NG - 1) for a in st.env}
    root = c[('g', 'ggggc_rootPool0List')]

    def ev(name, val=NULL):
        def h(I, st, i, args):
            st.u['ev'] = st.u.get('ev', ()) + (name,)
            return [(st, val)]
        return h
    for n in BARRIER:
        I.calls[n] = ev('b')

    def full(I, st, i, args):
        st.u['ev'] = st.u.get('ev', ()) + ('full',)
        for p in L.all():
            st.mem[add(p, C(o('free')))] = ('s', 'after', p)
        if args:
            st.mem[args[0]] = NULL
        for k in L.older:
            st.mem[add(('g', 'ggggc_pools'), C(8 * k))] = ('s', 'reset', k)
        return [(st, None)]
    I.calls['ggggc_collectFull'] = full
    for n in ('ggc_mutex_trylock', 'pthread_mutex_trylock', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_barrier_init', 'ggc_mutex_lock_raw', 'ggc_mutex_unlock', 'ggc_barrier_init'):
        I.calls[n] = lambda I, st, i, args: [(st, NULL)]
    for n in ('ggggc_mallocGen1',):
        I.calls[n] = lambda I, st, i, args: (I.report('minor', i, 'objects are promoted by a collection of the last generation'), [])[1]
    I.calls['ggggc_expandPoolList'] = lambda I, st, i, args: [(st, None)]

    # the lists are those set up before
    def onstore(I, st, i, a, v):
        if a == ('g', 'ggggc_rootPool0List'):
            return [st]
        return None
    I.onstore = onstore
    err, wh = outcome(I, st)
    for s, v, ri in I.ends if not err else ():
        e = s.u.get('ev', ())
        if e.count('full') == 0:
            err = 'there is no full collection'
        elif e.count('full') > 1:
            err = 'the full collection runs more than once'
        elif e[:e.index('full')].count('b') < 2 or 'b' not in e[e.index('full'):]:
            err = 'the full collection runs while other threads do'
        for p in L.all():
            if not err and s.mem.get(add(p, C(o('free')))) != ('s', 'after', p):
                err = '%s is emptied after the full collection' % p[1]
        for a, v2, k in s.u.get('clears', ()):
            if base_of(a) and base_of(a)[0] in L.all() and not err and not m.off('GGGGC_Header', 'ggggc_memoryCorruptionCheck'):
                err = 'what the full collection found out about %s is forgotten' % base_of(a)[0][1]
    ctx.check('full-last', f, 'last generation', err is None, err or '', where=wh)


def C11(ctx):
    from . import rules_roots, rules_scan
    rules_roots.rule_texts(ctx)
    deep = ctx.tier == 'thorough'
    for cfg in CONFS2 + CONFS1:
        f = ctx.func(cfg, 'ggggc_collectFull')
        mark_round(ctx, cfg)
        phases(ctx, cfg)
        rules_roots.check_scan(ctx, f, 'scan', 0)
        rules_roots.updates(ctx, f)
        n = 7 if deep else 5 if cfg in ('g2', 'g1all') else 4
        sized(ctx, cfg, n - (1 if deep else 0))
        compacted(ctx, cfg, n)
        lookups(ctx, cfg, deep)
        repointed(ctx, cfg)
        if cfg != 'g2dbg':
            full_called(ctx, cfg)
