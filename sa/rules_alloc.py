"""The allocators (C04, and the parts of C09, C10 and C13 that rest on them):
each is interpreted on pools with symbolic bounds; the conditions of each path
are kept, and every path's outcome is compared with what the arithmetic of a
representative of every class of situation (room left, position relative to
cards, object size) asks for."""
from .core import *
from .interp import *
import os
from . import build
from .rules_pools import cev, strip8, run
from .rules_sync import is_pms


def record(I):
    """keep the conditions of each path in st.u['pc']"""
    orig = I.cmp

    def cmp(st, pred, a, b, i=None):
        r = orig(st, pred, a, b, i)
        if len(r) > 1 and (a, b) != (NULL, NULL):
            for s, v in r:
                s.u['pc'] = s.u.get('pc', ()) + ((pred, a, b, v),)
        return r
    I.cmp = cmp


def sgn(x):
    return x - (1 << 64) if x >> 63 else x


def holds(pc, env):
    """do the recorded conditions allow this valuation? None: cannot tell"""
    for pred, a, b, v in pc:
        x, y = cev(a, env), cev(b, env)
        if x is None or y is None:
            continue
        if pred[0] == 's':
            x, y = sgn(x), sgn(y)
        p = pred if pred in ('eq', 'ne') else pred[1:]
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if r != v:
            return False
    return True


class World:
    """pools p0, p1 of an allocation list, with symbolic bounds"""

    def __init__(self, ctx, f, n):
        self.ctx = ctx; self.f = f; m = self.m = f.mod
        self.off = {x: m.off('GGGGC_Pool', x) for x in ('next', 'free', 'end', 'start', 'firstObject', 'remember', 'gen')}
        I = self.I = Interp(ctx, f); I.barriers = False; I.patience = 60
        record(I)
        st = self.st = start(f)
        self.ps = [('o', 'p%d' % j) for j in range(n)]
        for j, p in enumerate(self.ps):
            self.fields(st, p)
            st.mem[add(p, C(self.off['next']))] = self.ps[j + 1] if j + 1 < n else NULL
        self.newp = ('o', 'newp')
        self.fields(st, self.newp)
        self.q = ('o', 'afterwards')
        self.fields(st, self.q)
        st.mem[add(self.q, C(self.off['next']))] = NULL
        st.mem[add(self.newp, C(self.off['free']))] = add(self.newp, C(self.off['start']))
        st.mem[add(self.newp, C(self.off['next']))] = NULL
        st.u['newok'] = 0
        I.ondead = lambda st, i: self.outs.append((st.copy(), 'abort', None, i))
        I.calls['abort'] = self.abort
        I.calls['exit'] = self.abort
        self.outs = []          # (state, kind, value, where)
        for x in ('fprintf', 'fwrite', 'perror', 'fputs'):
            I.calls[x] = lambda I, st, i, args: [(st, ('any', 'io%d' % i.id))]

    def fields(self, st, p):
        st.mem[add(p, C(self.off['free']))] = ('s', 'free', p)
        st.mem[add(p, C(self.off['end']))] = ('s', 'end', p)

    def onstore(self, I, st, i, a, v):
        # elements of tables and words of objects: told apart numerically later
        if any(x[0] in ('s', 'op', 'and', 'lshr', 'o') for x in subterms(a)):
            st.mem[a] = v
            return [st]
        return None

    def abort(self, I, st, i, args):
        self.outs.append((st.copy(), 'abort', None, i))
        return []

    def go(self):
        """run; (error or None)"""
        I = self.I
        self.init = dict(self.st.mem)
        try:
            I.run(self.st)
        except Give as e:
            return 'it cannot be followed: %s' % e, None
        for k, (i, d) in I.bad.items():
            return d, i
        for s, v, ri in I.ends:
            self.outs.append((s, 'ret', v, ri))
        return None, None

    def valuations(self, sizes, gens=(1,)):
        """representatives: every combination of positions and sizes that
        matters"""
        m = self.m
        PB = m.consts['GGGGC_POOL_BYTES']
        card = m.consts.get('GGGGC_CARD_BYTES', 4096)
        B0 = PB * 8
        base = {p: B0 + 4 * PB * j for j, p in enumerate(self.ps + [self.newp])}
        so = self.off['start']
        env0 = {}
        base[self.q] = B0 + 4 * PB * 9
        for p, b in base.items():
            env0[p] = b
            env0[('s', 'end', p)] = b + PB
        cap = (PB - so) // 8
        c0 = ((so + card - 1) // card) * card
        frees0 = [so, so + 8, c0 + card - 16, c0 + card - 8, c0 + card, c0 + card + 8, c0 + 3 * card + 800,
                  PB - card - 8, PB - card, PB - 4096, PB - 160, PB - 24, PB - 16, PB - 8, PB]
        for f0 in frees0:
            room = (PB - f0) // 8
            ss = {2, 3, 4, 5, room - 1, room, room + 1, card // 8 - 1, card // 8, card // 8 + 1, 3 * card // 8 + 5, cap - 1, cap, cap + 1, cap + 2,
                  PB // 8 - 1, PB // 8, PB // 8 + 1, 20000}
            # to and past the end of the card
            ss |= {((f0 // card + 1) * card - f0) // 8 + d for d in (-1, 0, 1)}
            for s in sorted(x for x in ss if 2 <= x <= PB // 4):
                for f1 in ([so, PB - 160, PB - 8, PB] if len(self.ps) > 1 else [None]):
                    for g in gens:
                        env = dict(env0)
                        if self.ps:
                            env[('s', 'free', self.ps[0])] = base[self.ps[0]] + f0
                        if f1 is not None:
                            env[('s', 'free', self.ps[1])] = base[self.ps[1]] + f1
                        env.update(sizes(s))
                        for q in ((so, PB - 32) if s in (3, 5, cap, cap + 1) else (so,)):
                            env[('s', 'free', self.q)] = base[self.q] + q
                            env[('s', 'arg', 'gen')] = g
                            yield dict(env), s, g
                        if not self.ps:
                            break
                        continue
                        yield env, s, g
                        if not self.ps:
                            break
            if not self.ps and f0 == frees0[0]:
                pass


def writes(w, s, env):
    """what a final state has changed: {address number: (value term, address term)}"""
    out = {}
    for a, v in s.mem.items():
        if w.init.get(a) == v:
            continue
        n = cev(a, env)
        if n is None:
            continue
        out[n] = (v, a)
    return out


def gen1(ctx, cfg, n):
    """allocation in an older generation"""
    f = ctx.func(cfg, 'ggggc_mallocGen1')
    m = f.mod
    w = World(ctx, f, n)
    I = w.I; st = w.st
    size = ('s', 'arg', 0); gen = ('s', 'arg', 1)
    cell = ('cell', 'pools'); gcell = ('cell', 'gens')
    st.mem[cell] = w.ps[0] if w.ps else NULL
    st.mem[gcell] = w.ps[0] if w.ps else NULL

    def which(a):
        c, p = parts_of(a)
        for g, ce in (('ggggc_pools', cell), ('ggggc_gens', gcell)):
            if ('g', g) in p:
                rest = sub(a, ('g', g))
                c2, p2 = parts_of(rest)
                okx = c2 == 0 and len(p2) == 1 and list(p2.values()) == [8] and strip8(list(p2)[0]) == gen
                return ce, okx
        return None

    def onload(I, st, i, a, sz):
        x = which(a)
        if x:
            if not x[1]:
                I.report('gen', i, 'it uses the pools of another generation')
                return []
            return [(st, st.mem[x[0]])]
        return None

    def onstore(I, st, i, a, v):
        x = which(a)
        if x:
            if not x[1]:
                I.report('gen', i, 'it changes the pools of another generation')
                return []
            st.mem[x[0]] = v
            return [st]
        return w.onstore(I, st, i, a, v)
    I.onload = onload; I.onstore = onstore

    def mk(I, st, i, args):
        if strip8(args[0]) != gen:
            I.report('newgen', i, 'it takes a new pool for another generation')
            return []
        if st.u['newok']:
            I.report('new', i, 'it takes more than one new pool')
            return []
        st.u['newok'] = 1
        if args[1] == NULL or args[1][0] != 'c':
            t = st.copy()
            return [(st, w.newp), (t, NULL)]
        return [(st, w.newp)]
    I.calls['ggggc_newPoolGen'] = mk
    err, wh = w.go()
    res = {'room': None, 'first': None, 'end': None}
    whs = {}
    if err:
        return f, {'room': err}, {'room': wh}

    def bad(k, s, i):
        if res[k] is None:
            res[k] = s; whs[k] = i
    CB = m.consts['GGGGC_CARD_BYTES']; NC = m.consts['GGGGC_CARDS_PER_POOL']
    PB = m.consts['GGGGC_POOL_BYTES']
    for env, sz, g in w.valuations(lambda s: {size: s, gen: 1}):
        hit = 0
        for s, kind, v, i in w.outs:
            if not holds(s.u.get('pc', ()), env):
                continue
            hit += 1
            # the first pool with room
            chain = w.ps or [w.newp]
            fr = {p: env.get(('s', 'free', p)) for p in w.ps}
            fr[w.newp] = env[w.newp] + w.off['start']
            tgt = None
            for p in chain:
                if env[('s', 'end', p)] - fr[p] >= 8 * sz:
                    tgt = p
                    break
            if kind == 'abort':
                bad('room', 'it ends the program', i)
                continue
            if tgt is None:
                if v != NULL:
                    bad('room', 'an object is placed where there is not enough room', i)
                continue
            if v == NULL or v is None:
                bad('room', 'it fails although there is room', i)
                continue
            a = cev(v, env)
            if a != fr[tgt]:
                bad('room', 'the object is not placed at the start of the free space of the first pool with room', i)
                continue
            ws = writes(w, s, env)
            new = a + 8 * sz
            fa = cev(add(tgt, C(w.off['free'])), env)
            val = s.mem.get(add(tgt, C(w.off['free'])))
            if cev(val, env) != new:
                bad('room', 'the free space does not move on by exactly the object\'s size', i)
                continue
            base = env[tgt]
            end = env[('s', 'end', tgt)]
            if s.mem[cell] != tgt:
                bad('room', 'the pool allocated from is not kept as allocation pool', i)
            if n == 0 and s.mem[gcell] != tgt:
                bad('room', 'the new pool does not become the generation\'s list', i)
            if n and s.mem[gcell] != w.ps[0]:
                bad('room', 'the generation\'s list of pools is changed', i)
            co, cn = (a & (PB - 1)) // CB, (new & (PB - 1)) // CB
            want = {}
            fo = base + w.off['firstObject']
            esz = m.fsize('GGGGC_Pool', 'firstObject') // NC
            if new < end and co != cn:
                want[fo + esz * cn] = (new & (CB - 1)) // 8
            for n2, (v2, a2) in ws.items():
                if n2 == fa:
                    continue
                if fo <= n2 < fo + esz * NC or (n2 >= fo + esz * NC and n2 < base + w.off['start'] and n2 not in (fa,)):
                    if n2 not in want:
                        bad('first', 'a first object is recorded for a card on which the free space does not start' if n2 < fo + esz * NC else 'other bookkeeping of the pool is changed', i)
                    elif cev(v2, env) != want[n2]:
                        bad('first', 'the wrong first object is recorded', i)
                    want.pop(n2, None)
                elif n2 == new:
                    if new >= end:
                        bad('end', 'a word beyond the pool is written', i)
                elif a <= n2 < new:
                    pass
                elif n2 >= base and n2 < base + PB:
                    bad('end', 'memory outside the new object is written', i)
            if want:
                bad('first', 'the first object of the card on which the free space now starts is not recorded', i)
            if new < end and cev(s.mem.get(('nul',), NULL), env) == 0:
                x = ws.get(new)
                if x is None or cev(x[0], env) != 0:
                    bad('end', 'the end of the objects is not marked', i)
        if not hit:
            bad('room', 'it never returns', None)
    return f, res, whs


def gen1_rules(ctx, cfg, which):
    for n in (0, 1, 2):
        f, res, whs = gen1(ctx, cfg, n)
        names = {'room': 'placed in free space', 'first': 'first object', 'end': 'end of objects'}
        for k in which:
            ctx.check('old-allocation', f, '%s, %s' % (names[k], ('no pools', 'last pool', 'more pools')[n]), res.get(k) is None, res.get(k) or '', whs.get(k))


def track_sets(w):
    """memset of symbolic length: kept, with what it overwrites forgotten"""
    def memset(st, i, args):
        a, v, n = args[0], args[1], args[2]
        st.u['sets'] = st.u.get('sets', ()) + ((a, v, n, len(st.mem)),)
        for k in list(st.mem):
            d = sub(k, a)
            if d[0] == 'c' and (n[0] != 'c' or 0 <= d[1] < n[1]) and d[1] >= 0 and a[0] != 'g':
                del st.mem[k]
        return [st]
    w.I.memset = memset


def zeroed(w, s, env, a, new, PBend, canary):
    """problems with the contents of the new object [a, new)"""
    cov = False
    for x, v, n, _ in s.u.get('sets', ()):
        x, v, n = cev(x, env), cev(v, env), cev(n, env)
        if x is None or n is None:
            return 'memory that cannot be told is cleared'
        if v == 0 and x <= a and x + n >= new:
            cov = True
        if x < a and n:
            return 'memory before the new object is overwritten'
        if x + n > PBend and n:
            return 'memory beyond the pool is overwritten'
    if not cov:
        return 'the new object is not cleared to its full length'
    for n2, (v2, a2) in writes(w, s, env).items():
        if a <= n2 < new:
            val = cev(v2, env)
            if canary and n2 == a + canary[0]:
                if val != canary[1]:
                    return 'the new object has the wrong canary'
            elif val != 0:
                return 'the new object is not all zero'
    if canary and not any(n2 == a + canary[0] for n2 in writes(w, s, env)):
        return 'the new object has no canary'
    return None


def canary_of(m):
    o = m.off('GGGGC_Header', 'ggggc_memoryCorruptionCheck')
    v = m.consts.get('GGGGC_MEMORY_CORRUPTION_VAL')
    return None if o is None else (o, v)


NOPROT = 'it collects without the caller\'s descriptor being registered as a root'


def protects(m, st, v):
    """is v an entry of the topmost frame?"""
    top = st.mem.get(('g', 'ggggc_pointerStack'))
    n = cev(st.mem.get(add(top, C(m.off('GGGGC_PointerStack', 'size'))), NULL), {}) if top else None
    po = m.off('GGGGC_PointerStack', 'pointers')
    return bool(top) and any(st.mem.get(add(top, C(po + 8 * k))) == v for k in range(n or 0))


def raw(ctx, cfg, n):
    """allocation in the youngest generation"""
    f = ctx.func(cfg, 'ggggc_mallocRaw')
    m = f.mod
    w = World(ctx, f, n)
    I = w.I; st = w.st
    size = ('s', 'arg', 1)
    P0 = ('g', 'ggggc_pool0'); G0 = ('g', 'ggggc_gen0')
    st.mem[P0] = w.ps[0] if w.ps else NULL
    st.mem[G0] = w.ps[0] if w.ps else NULL
    w.init = None

    def onload(I, st, i, a, sz):
        if a[0] == 's' and a[1] == 'arg':
            return [(st, ('o', 'desc'))]
        return None
    I.onload = onload
    I.onstore = w.onstore
    track_sets(w)

    def mk(I, st, i, args):
        if strip8(args[0]) != NULL and len(args) > 1:
            I.report('newgen', i, 'it takes a new pool for another generation')
            return []
        if st.u['newok']:
            I.report('new', i, 'it takes more than one new pool')
            return []
        st.u['newok'] = 1
        if args[-1] == NULL or args[-1][0] != 'c':
            t = st.copy()
            return [(st, w.newp), (t, NULL)]
        return [(st, w.newp)]
    I.calls['ggggc_newPoolGen'] = mk
    I.calls['ggggc_newPool'] = mk

    def coll(I, st, i, args):
        if not protects(m, st, ('s', 'arg', 0)):
            I.report('descriptor', i, NOPROT)
            return []
        w.outs.append((st.copy(), 'collect', args[0] if args else None, i))
        if st.u.get('collected'):
            return []
        # whatever pools there are afterwards
        st.u['collected'] = 1
        st.mem[P0] = st.mem[G0] = w.q
        return [(st, NULL)]
    I.calls['ggggc_collect0'] = coll
    I.calls['ggggc_collect'] = coll
    I.calls['ggggc_yield'] = lambda I, st, i, args: [(st, NULL)]
    err, wh = w.go()
    res = {'room': None, 'zero': None, 'full': None}; whs = {}
    if err:
        return f, {'room': err}, {'room': wh}

    def bad(k, s, i):
        if res[k] is None:
            res[k] = s; whs[k] = i
    PB = m.consts['GGGGC_POOL_BYTES']
    can = canary_of(m)
    cap = (PB - w.off['start']) // 8
    for env, sz, g in w.valuations(lambda s: {size: s}):
        hit = 0
        for s, kind, v, i in w.outs:
            if not holds(s.u.get('pc', ()), env):
                continue
            hit += 1
            chain = w.ps or [w.newp]
            after = s.u.get('collected') and kind != 'collect'
            if after:
                chain = [w.q]
            fr = {p: env.get(('s', 'free', p)) for p in w.ps + [w.q]}
            fr[w.newp] = env[w.newp] + w.off['start']
            tgt = None
            for p in chain:
                if env[('s', 'end', p)] - fr[p] >= 8 * sz:
                    tgt = p
                    break
            if kind == 'abort':
                if sz <= cap:
                    bad('full', 'the program is ended although there is room or a collection can make some', i)
                continue
            if tgt is None:
                if kind == 'ret':
                    bad('room', 'an object is placed where there is not enough room' if v != NULL else 'it fails although a collection can make room', i)
                elif sz > cap:
                    bad('full', 'it collects over and over for an object no pool can hold', i)
                continue
            if kind == 'collect':
                continue    # sooner than needed: allowed
            if v == NULL or v is None:
                bad('room', 'it returns nothing although there is room', i)
                continue
            a = cev(v, env)
            if a != fr[tgt]:
                bad('room', 'the object is not placed at the start of the free space of the first pool with room', i)
                continue
            new = a + 8 * sz
            val = s.mem.get(add(tgt, C(w.off['free'])))
            if val is None or cev(val, env) != new:
                bad('room', 'the free space does not move on by exactly the object\'s size', i)
                continue
            if s.mem.get(P0) != tgt:
                bad('room', 'the pool allocated from is not kept as allocation pool', i)
            if s.mem.get(G0) != (w.q if after else w.ps[0] if n else w.newp):
                bad('room', 'the thread\'s list of pools is not kept', i)
            e = zeroed(w, s, env, a, new, env[('s', 'end', tgt)], can)
            if e:
                bad('zero', e, i)
            base = env[tgt]
            fa = base + w.off['free']
            for p in chain:
                b2 = env[p]
                for n2, (v2, a2) in writes(w, s, env).items():
                    if b2 <= n2 < b2 + PB and not (a <= n2 < new) and n2 != fa:
                        bad('room', 'bookkeeping or memory outside the new object is changed', i)
        if not hit:
            bad('full' if sz > cap else 'room', 'it never returns', None)
    return f, res, whs


def raw_rules(ctx, cfg):
    names = {'room': 'placed in free space', 'zero': 'contents', 'full': 'no room'}
    for n in (0, 1, 2):
        f, res, whs = raw(ctx, cfg, n)
        for k in ('room', 'zero', 'full'):
            ctx.check('allocation', f, '%s, %s' % (names[k], ('no pools', 'last pool', 'more pools')[n]), res.get(k) is None, res.get(k) or '', whs.get(k))


# ------------------------------------------------- the mark-sweep allocator
class FreeWorld:
    """a free list of a few nodes with symbolic sizes"""

    def __init__(self, ctx, f, n, gen0):
        self.ctx = ctx; self.f = f; m = self.m = f.mod
        self.o = {x: m.off('FreeListNode', x) for x in ('zero', 'size', 'next')}
        if None in self.o.values():
            raise Broken('struct FreeListNode not as expected')
        I = self.I = Interp(ctx, f); I.barriers = False; I.patience = 60
        I.maxlen = 4000
        record(I)
        st = self.st = start(f)
        self.head = None
        for g in m.globals:
            if g == 'freeList' or g.endswith('freeList'):
                self.head = ('g', g)
        if self.head is None:
            raise Broken('no free list')
        self.ns = [('o', 'f%d' % j) for j in range(n)]
        for j, p in enumerate(self.ns):
            st.mem[add(p, C(self.o['zero']))] = NULL
            st.mem[add(p, C(self.o['size']))] = ('s', 'size', p)
            st.mem[add(p, C(self.o['next']))] = self.ns[j + 1] if j + 1 < n else NULL
        st.mem[self.head] = self.ns[0] if n else NULL
        self.newp = ('o', 'newp')
        self.outs = []
        I.ondead = lambda st, i: self.outs.append((st.copy(), 'abort', None, i))
        I.calls['abort'] = self.abort
        I.calls['exit'] = self.abort
        for x in ('fprintf', 'fwrite', 'perror', 'fputs'):
            I.calls[x] = lambda I, st, i, args: [(st, ('any', 'io%d' % i.id))]
        I.onstore = self.onstore

    onstore = World.onstore
    abort = World.abort
    go = World.go


def pms_raw(ctx, cfg, n, gen0=True):
    f = ctx.func(cfg, 'ggggc_mallocRaw')
    m = f.mod
    w = FreeWorld(ctx, f, n, gen0)
    I = w.I; st = w.st
    size = ('s', 'arg', 1)
    G0 = ('g', 'ggggc_gen0')
    st.mem[G0] = ('o', 'gen0') if gen0 else NULL
    st.mem[('g', 'ggggc_pool0')] = ('o', 'gen0') if gen0 else NULL
    poff = {x: m.off('GGGGC_Pool', x) for x in ('next', 'start', 'end')}

    def onload(I, st, i, a, sz):
        if a[0] == 's' and a[1] == 'arg':
            return [(st, ('o', 'desc'))]
        return None
    I.onload = onload
    track_sets(w)

    def mk(I, st, i, args):
        k = st.u.get('made', 0)
        if k >= 2:
            I.report('new', i, 'it takes pool after pool')
            return []
        st.u['made'] = k + 1
        np = ('o', 'newp%d' % k)
        st.mem[add(np, C(poff['end']))] = ('s', 'end', np)
        st.mem[add(np, C(poff['next']))] = NULL
        if args[0] == NULL or args[0][0] != 'c':
            t = st.copy()
            t.u['nopool'] = 1
            return [(st, np), (t, NULL)]
        return [(st, np)]
    I.calls['ggggc_newPool'] = mk

    def coll(I, st, i, args):
        if not protects(m, st, ('s', 'arg', 0)):
            I.report('descriptor', i, NOPROT)
            return []
        if st.u.get('collected'):
            I.report('collect', i, 'it can go on collecting over and over')
            return []
        # (collections leave some other free list; the rest is followed with
        # the present one)
        st.u['collected'] = 1
        return [(st, NULL)]
    I.calls['ggggc_collect0'] = coll
    I.calls['ggggc_collect'] = coll
    I.calls['ggggc_yield'] = lambda I, st, i, args: [(st, NULL)]
    err, wh = w.go()
    res = {'room': None, 'zero': None, 'list': None, 'full': None}; whs = {}
    if err:
        return f, {'room': err}, {'room': wh}

    def bad(k, s, i):
        if res[k] is None:
            res[k] = s; whs[k] = i
    PB = m.consts['GGGGC_POOL_BYTES']
    can = canary_of(m)
    minrest = m.ssize('FreeListNode') // 8
    so = poff['start']
    B0 = PB * 8
    szs = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 100]
    import itertools
    for sz in (3, 5, 7, 9, 70):
        cand = sorted({x for d in (-2, -1, 0, 1, 2, 3, 4, 5, 6, 30) for x in [sz + d] if x >= 2})
        for sizes in itertools.product(cand, repeat=n):
            env = {size: sz}
            for j, p in enumerate(w.ns):
                env[p] = B0 + j * 65536
                env[('s', 'size', p)] = sizes[j]
            for k in range(2):
                env[('o', 'newp%d' % k)] = B0 + (k + 2) * PB
                env[('s', 'end', ('o', 'newp%d' % k))] = B0 + (k + 3) * PB
            env[('o', 'gen0')] = B0 - PB
            hit = 0
            for s, kind, v, i in w.outs:
                if not holds(s.u.get('pc', ()), env):
                    continue
                hit += 1
                fits = [p for j, p in enumerate(w.ns) if sizes[j] >= sz]
                exact = [p for j, p in enumerate(w.ns) if sizes[j] == sz]
                if kind == 'abort':
                    if not s.u.get('nopool'):
                        bad('full', 'the program is ended although a new pool was to be had', i)
                    elif not s.u.get('collected'):
                        bad('full', 'the program is ended without a collection', i)
                    continue
                if v is None or v == NULL:
                    bad('room', 'it returns nothing', i)
                    continue
                a = cev(v, env)
                new = a + 8 * sz
                # free areas as they were: nodes, and new pools
                areas = [(env[p], sizes[j]) for j, p in enumerate(w.ns)]
                for k in range(s.u.get('made', 0)):
                    np = ('o', 'newp%d' % k)
                    if k == s.u.get('made', 0) - 1 and s.u.get('nopool'):
                        continue
                    areas.append((env[np] + so, (PB - so) // 8))
                home = [(x, l) for x, l in areas if x <= a and new <= x + 8 * l]
                if not home:
                    bad('room', 'an object is placed where there is not enough room', i)
                    continue
                x, l = home[0]
                rest = []
                if a > x:
                    rest.append((x, (a - x) // 8))
                if new < x + 8 * l:
                    rest.append((new, l - (new - x) // 8))
                # the list afterwards
                lst = []
                h = s.mem.get(w.head)
                ok = True
                for _ in range(8):
                    if h is None:
                        ok = False; break
                    if h == NULL:
                        break
                    z, sz2, nx = (s.mem.get(add(h, C(w.o[q]))) for q in ('zero', 'size', 'next'))
                    if z is None or sz2 is None or nx is None:
                        ok = False; break
                    lst.append((cev(h, env), cev(sz2, env), cev(z, env)))
                    h = nx
                if not ok:
                    bad('list', 'a node of the free list is not filled in', i)
                    continue
                want = sorted([ar for ar in areas if ar != (x, l)] + rest)
                if any(z != 0 for _, _, z in lst):
                    bad('list', 'a node of the free list is not marked as free', i)
                elif sorted((p, q) for p, q, z in lst) != want:
                    got = sorted((p, q) for p, q, z in lst)
                    bad('list', 'the free list does not describe what is left free (%s)' % ('the space after the object is lost' if len(got) < len(want) else 'wrong areas'), i)
                elif any(q < minrest for p, q in rest):
                    bad('list', 'what is left of the free area is too small for a node', i)
                e = zeroed(w, s, env, a, new, x + 8 * l, can)
                if e:
                    bad('zero', e, i)
                # the thread's pools: new ones are put on the list
                g = s.mem.get(G0)
                made = s.u.get('made', 0) - (1 if s.u.get('nopool') else 0)
                seen = []
                for _ in range(5):
                    if g is None or g == NULL:
                        break
                    seen.append(g)
                    g = s.mem.get(add(g, C(poff['next']))) if g != ('o', 'gen0') else NULL
                want = {('o', 'newp%d' % k) for k in range(made)} | ({('o', 'gen0')} if gen0 else set())
                if set(seen) != want:
                    bad('list', 'a new pool is not on the thread\'s list of pools', i)
            if not hit:
                bad('room', 'it never returns', None)
    return f, res, whs


def pms_raw_rules(ctx, cfg):
    names = {'room': 'placed in free space', 'zero': 'contents', 'list': 'free list', 'full': 'no room'}
    for n in (0, 1, 2, 3):
        for g in ((True, False) if n == 0 else (True,)):
            f, res, whs = pms_raw(ctx, cfg, n, g)
            for k in ('room', 'zero', 'list', 'full'):
                ctx.check('allocation', f, '%s, %d free areas%s' % (names[k], n, '' if g else ' and no pools'), res.get(k) is None, res.get(k) or '', whs.get(k))


def protected(ctx, cfg):
    """for C01: the caller's descriptor reference during a collection"""
    if cfg.startswith('pms'):
        f, res, whs = pms_raw(ctx, cfg, 1)
    else:
        f, res, whs = raw(ctx, cfg, 1)
    bad = res['room'] == NOPROT
    ctx.check('protected-argument', f, 'caller\'s descriptor', not bad, NOPROT, whs.get('room'))


# --------------------------------------------------------- the entry points
NEWS = os.path.join(build.DRIVERS, 'news.c')


def argv(I, st, k):
    for i, j in I.f.argids.items():
        if j == k:
            return I.val(st, ['v', i])


def rets(f):
    return [f.term(f.blocks[b][-1].ops[0]) for b in f.order if f.blocks[b][-1].op == 'ret' and f.blocks[b][-1].ops]


def driver(ctx, cfg):
    """what the allocation macros expand to; the array offsets"""
    m = ctx.mod(cfg, NEWS)
    offs = {}
    for k in ('pa_off', 'da_off', 'pa_len', 'da_len'):
        r = rets(m.funcs['gd_' + k])
        offs[k] = r[0][1] if len(r) == 1 and r[0][0] == 'c' else None
    sizes = {'long': 8, 'odd': 17}

    def want(name, allowed):
        f = m.funcs.get(name)
        if f is None:
            ctx.check('new-forms', name, 'allocation', False, 'it is not defined')
            return
        f.cfg = cfg
        cs = [i for b in f.order for i in f.blocks[b] if i.is_call() and i.callee() and not i.callee().startswith('llvm.')]
        ok = False
        if len(cs) == 1 and len(f.order) == 1:
            i = cs[0]
            a = [f.term(o) for o in i.ops[:len(i.ops)]]
            ok = any(i.callee() == n and list(a[:len(x)]) == x for n, x in allowed) and all(r == f.term(['v', i.id]) for r in rets(f))
        ctx.check('new-forms', f, 'allocation', ok, 'it does not return what %s gives it' % ' or '.join(n for n, x in allowed), where=cs[0] if cs else None)
    A = lambda f, k: m.funcs[f].term(['v', m.funcs[f].args[k]['id']]) if False else None
    for n, t in (('node', 'DNode'), ('far', 'DFar'), ('slot', 'DNode')):
        g = [x for x in m.globals if x.endswith(t + '__descriptorSlot')]
        if not g:
            ctx.check('new-forms', 'gd_new_' + n, 'allocation', False, 'the type has no descriptor slot')
            continue
        al = [('ggggc_mallocSlot', [('g', g[0])])]
        if n != 'slot':
            o = m.off('GGGGC_DescriptorSlot', 'descriptor')
            al.append(('ggggc_malloc', [('ld', add(('g', g[0]), C(o)), 8)]))
        want('gd_new_' + n, al)
    p = lambda k: ('arg', k)
    want('gd_new_pa', [('ggggc_mallocPointerArray', [p(0)])])
    want('gd_new_da_long', [('ggggc_mallocDataArray', [p(0), C(8)])])
    want('gd_new_da_odd', [('ggggc_mallocDataArray', [p(0), C(17)])])
    want('gd_new_desc', [('ggggc_malloc', [p(0)])])
    want('gd_new_descriptor', [('ggggc_allocateDescriptorL', [p(0), p(1)])])
    if 'gd_new_descriptor_tags' in m.funcs:
        want('gd_new_descriptor_tags', [('ggggc_allocateDescriptorT', [p(0), p(1)])])
    return offs


def entries(ctx, cfg):
    ctx.rule('new-forms', 'each public allocation form asks the allocator for exactly what it says, and returns what it gets')
    ctx.rule('typed', 'the typed entry points allocate the descriptor\'s size, with the descriptor protected, store the descriptor (as it is after the allocation) in the new object, and return it')
    ctx.rule('arrays', 'an array of n elements has room for n after its header and length, and carries its length')
    offs = driver(ctx, cfg)
    # ggggc_malloc
    f = ctx.func(cfg, 'ggggc_malloc'); m = f.mod
    I = Interp(ctx, f); I.barriers = False
    st = start(f)
    so = m.off('GGGGC_Descriptor', 'size')
    desc = argv(I, st, 0)
    fresh = ('o', 'fresh'); moved = ('o', 'moved')

    def alloc(I, st, i, args):
        cell, size = args[0], args[1]
        if st.mem.get(cell) != desc:
            I.report('protect', i, 'the descriptor is not what is protected during the allocation')
            return []
        if size != ('s', 'size'):
            I.report('size', i, 'it does not allocate the descriptor\'s size')
            return []
        st.mem[cell] = moved
        st.u['done'] = 1
        return [(st, fresh)]
    I.calls['ggggc_mallocRaw'] = alloc

    def onload(I, st, i, a, sz):
        if a == add(desc, C(so)):
            if st.u.get('done'):
                I.report('stale', i, 'the descriptor is used after it may have moved')
                return []
            return [(st, ('s', 'size'))]
        if a == add(moved, C(so)):
            return [(st, ('s', 'size'))]
        return None
    I.onload = onload
    ho = m.off('GGGGC_Header', 'descriptor__ptr')

    def judge(s, v):
        if v != fresh:
            return 'it does not return the object'
        if s.mem.get(add(fresh, C(ho))) != moved:
            return 'the object does not get its descriptor'
        for a, x in s.mem.items():
            c, p = parts_of(a)
            if fresh in p and a != add(fresh, C(ho)):
                return 'more than the descriptor is stored in the object'
    run(ctx, 'typed', f, 'object', I, st, judge)
    # from a slot
    f = ctx.func(cfg, 'ggggc_mallocSlot'); m = f.mod
    I = Interp(ctx, f); I.barriers = False
    st = start(f)
    slot = argv(I, st, 0); d = ('o', 'desc')

    def get(I, st, i, args):
        if args[0] != slot:
            I.report('slot', i, 'it takes the descriptor of another slot')
            return []
        return [(st, d)]

    def mal(I, st, i, args):
        if args[0] != d:
            I.report('desc', i, 'it does not allocate by the slot\'s descriptor')
            return []
        return [(st, fresh)]

    def onload(I, st, i, a, sz):
        if a == add(slot, C(m.off('GGGGC_DescriptorSlot', 'descriptor'))):
            return [(st.copy(), d), (st, NULL)]
        return None
    I.onload = onload
    I.calls['ggggc_allocateDescriptorSlot'] = get
    I.calls['ggggc_malloc'] = mal
    run(ctx, 'typed', f, 'object of a slot', I, st, lambda s, v: None if v == fresh else 'it does not return the object')
    # arrays
    for name, lo, eo, al in (('ggggc_mallocPointerArray', 'pa_len', 'pa_off', ('ggggc_allocateDescriptorPA',)),
                             ('ggggc_mallocDataArray', 'da_len', 'da_off', ('ggggc_allocateDescriptorDA',))):
        f = ctx.func(cfg, name); m = f.mod
        I = Interp(ctx, f); I.barriers = False
        record(I)
        st = start(f)

        def mkd(I, st, i, args):
            st.u['size'] = args[0]
            return [(st, d)]

        def mkl(I, st, i, args, al=al):
            # (a data array's descriptor has no reference map)
            if al[0].endswith('DA') and args[1] != NULL:
                I.report('map', i, 'it gives a data array a reference map')
                return []
            st.u['size'] = args[0]
            return [(st, d)]
        I.calls[al[0]] = mkd
        if al[0].endswith('DA'):
            I.calls['ggggc_allocateDescriptorL'] = mkl
        I.calls['ggggc_malloc'] = mal
        I.onstore = World.onstore.__get__(object())

        def judge(s, v, lo=lo, eo=eo, data=al[0].endswith('DA')):
            if v != fresh:
                return 'it does not return the array'
            if offs[lo] is None or offs[eo] is None:
                return 'the array types are not as expected'
            for a, x in s.mem.items():
                c, p = parts_of(a)
                if fresh in p and a != add(fresh, C(offs[lo])):
                    return 'it stores into the array'
            ln = s.mem.get(add(fresh, C(offs[lo])))
            if ln is None:
                return 'the length is not stored'
            for n in (0, 1, 2, 3, 5, 7, 8, 9, 100, 4000):
                for z in ((1, 2, 3, 4, 7, 8, 9, 16, 17, 24) if data else (8,)):
                    env = {('s', 'arg', 0): n, ('s', 'arg', 1): z}
                    if not holds(s.u.get('pc', ()), env):
                        continue
                    if cev(ln, env) != n:
                        return 'an array of %d elements does not carry its length' % n
                    w = cev(s.u.get('size', NULL), env)
                    if w is None:
                        return 'the size of the array cannot be told'
                    if 8 * w < offs[eo] + n * z:
                        return 'an array of %d elements of %d bytes has room for %d bytes' % (n, z, 8 * w - offs[eo])
                    if 8 * w > offs[eo] + n * z + 64:
                        return 'an array of %d elements of %d bytes takes %d bytes' % (n, z, 8 * w)
        run(ctx, 'arrays', f, 'array', I, st, judge)


ALLCONFS = ['g2', 'g2all', 'g2ext', 'g1all', 'g3all', 'g2dbg', 'pms', 'pmsall', 'pmsext', 'pmsdbg', 'nognuc', 'cxx', 'cxxnognuc']


def C04(ctx):
    ctx.rule('allocation', 'allocation in the youngest generation: for every class of situation (pools on the list, room left, size), the object is placed in free space big enough, exactly its size is taken, it is zero to its full length (with its canary in the debugging build), nothing else changes, and otherwise it collects with the descriptor registered and tries again, or ends the program if no pool could ever hold the object')
    ctx.rule('old-allocation', 'allocation in an older generation, the same way')
    for cfg in ALLCONFS:
        entries(ctx, cfg)
        if cfg.startswith('pms'):
            pms_raw_rules(ctx, cfg)
        else:
            raw_rules(ctx, cfg)
            if cfg != 'g1all':
                gen1_rules(ctx, cfg, ('room',))
