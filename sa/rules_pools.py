"""C12: pools are fully initialised and never shared; C22 and others use its
helpers."""
from .core import *
from .interp import *
from .rules_sync import is_pms

CONFS = ['g2', 'g2all', 'g1all', 'g3all', 'g2dbg', 'pms', 'pmsall', 'mmap', 'malloc', 'sbrk', 'portal', 'cxx', 'nognuc']


def cev(t, env, w=M64):
    """the number a term is, given numbers for its atoms; None if unknown"""
    if t in env:
        return env[t]
    k = t[0]
    if k == 'c':
        return t[1] & M64
    if k == 'lin':
        s = t[1]
        for x, c in t[2]:
            v = cev(x, env)
            if v is None:
                return None
            s += c * v
        return s & M64
    if k == 'and':
        v = cev(t[1], env)
        return None if v is None else v & t[2]
    if k == 'lshr':
        v = cev(t[1], env)
        return None if v is None else v >> t[2]
    if k == 'op' and len(t) == 4:
        a, b = cev(t[2], env), cev(t[3], env)
        if a is None or b is None:
            return None
        o = t[1]
        if o == 'and': return a & b
        if o == 'or': return a | b
        if o == 'xor': return a ^ b
        if o == 'shl': return (a << b) & M64 if b < 64 else 0
        if o == 'lshr': return a >> b if b < 64 else 0
        if o == 'mul': return (a * b) & M64
        if o == 'udiv': return a // b if b else None
        if o == 'urem': return a % b if b else None
        if o == 'umax': return max(a, b)
        if o == 'umin': return min(a, b)
    if k == 'shl':
        v = cev(t[1], env)
        return None if v is None else (v << t[2]) & M64
    return None


def pev(m, t, base, more=None):
    """the value of a term relative to a pool whose address is a multiple of
    the pool size: ('abs', n) or ('rel', n), or None"""
    P = m.consts['GGGGC_POOL_BYTES']
    b1, b2 = P * 3, P * 11
    e1 = {base: b1}; e2 = {base: b2}
    if more:
        e1.update(more); e2.update(more)
    x, y = cev(t, e1), cev(t, e2)
    if x is None or y is None:
        return None
    if x == y:
        return ('abs', x)
    if x - b1 == y - b2:
        return ('rel', x - b1)
    return None


class Pools:
    """the list of free pools, changed by other threads whenever its lock is
    not held"""

    def __init__(self, I):
        self.I = I
        m = I.m
        self.off = {n: m.off('GGGGC_Pool', n) for n in ('next', 'free', 'end', 'start', 'survivors', 'finalizers', 'gen', 'remember', 'firstObject', 'freeSpace')}
        if None in (self.off['next'], self.off['free'], self.off['end'], self.off['start']):
            raise Broken('struct GGGGC_Pool not as expected')
        I.segnext['pool'] = (self.off['next'], False)
        self.head = self.tail = None; self.stale = getattr(I.ctx, 'stale', False)
        for mm in I.ctx.mods(I.f.cfg):
            for g in mm.globals:
                if g.endswith('freePoolsHead'): self.head = ('g', g)
                if g.endswith('freePoolsTail'): self.tail = ('g', g)
        I.calls['pthread_mutex_lock'] = self.lock
        I.calls['pthread_mutex_unlock'] = self.unlock
        I.calls['pthread_mutex_trylock'] = self.trylock
        self.user = None
        I.onload = self.onload
        I.onstore = self.onstore

    def shared(self, a):
        return a in (self.head, self.tail)

    def onload(self, I, st, i, a, sz):
        if self.shared(a) and not st.u.get('locked'):
            return [(st, ('any', 'other%d' % i.id))]
        return None

    def onstore(self, I, st, i, a, v):
        if self.shared(a) and not st.u.get('locked'):
            I.report('unlocked', i, 'the list of free pools is changed without its lock')
            return []
        return None

    def lock(self, I, st, i, args):
        if args and args[0][0] == 'g' and 'freePools' in args[0][1]:
            out = []
            # no free pools
            e = st.copy()
            e.mem[self.head] = NULL; e.mem[self.tail] = ('o', 'leftover') if self.stale else NULL
            e.u['locked'] = 1; e.u['fl'] = ()
            e.orig['pool.free'] = []
            out.append((e, NULL))
            # some
            n = st
            n.nk += 1
            last = ('o', 'lastfree')
            seg = I.newseg(n, 'pool', last)
            n.mem[add(last, C(self.off['next']))] = NULL
            n.mem[self.head] = seg; n.mem[self.tail] = last
            n.orig['pool.free'] = [seg, last]
            n.u['locked'] = 1
            out.append((n, NULL))
            return out
        return None

    def trylock(self, I, st, i, args):
        if args and args[0][0] == 'g' and 'freePools' in args[0][1]:
            f = st.copy()
            return self.lock(I, st, i, args) + [(f, C(16))]
        return None

    def walk(self, st, x, stop=()):
        out = []
        while x is not None and x != NULL and len(out) < 40:
            if x in out:
                return out, 'the pools form a cycle'
            out.append(x)
            x = st.segs[x][1] if x in st.segs else st.mem.get(add(x, C(self.off['next'])))
        if x is None:
            return out, 'a pool\'s link is not set'
        return out, None

    def unlock(self, I, st, i, args):
        if args and args[0][0] == 'g' and 'freePools' in args[0][1]:
            got, err = self.walk(st, st.mem.get(self.head))
            st.u['locked'] = 0
            if not err:
                t = st.mem.get(self.tail)
                if got and t != got[-1]:
                    err = 'the recorded last free pool is not the last one'
                if not got and t != NULL:
                    # fine so long as nobody looks at it: everything is
                    # interpreted again with such a leftover
                    self.I.ctx.leftover = True
            if err:
                I.report('free list', i, 'when the lock is given back, ' + err)
                return []
            st.u['after'] = tuple(got); st.u['before'] = tuple(st.orig.get('pool.free', ()))
            st.u['nlocks'] = st.u.get('nlocks', 0) + 1
            st.mem.pop(self.head, None); st.mem.pop(self.tail, None)
            return [(st, NULL)]
        return None


def run(ctx, rule, f, construct, I, st, judge):
    """interpret, then judge every end"""
    err = None; wh = None
    try:
        I.run(st)
    except Give as e:
        err = 'it cannot be followed: %s' % e
    for k, (i, d) in I.bad.items():
        if err is None:
            err = d; wh = i
    if not err and not I.ends:
        err = 'it never returns'
    if not err:
        for s, v, ri in I.ends:
            e = judge(s, v)
            if e:
                err = e; wh = ri
                break
    ctx.check(rule, f, construct, err is None, err or '', where=wh)


def new_pool(ctx, cfg):
    f = ctx.func(cfg, 'ggggc_newPool')
    I = Interp(ctx, f); I.barriers = False; I.patience = 40
    P = Pools(I)
    st = start(f)
    PB = f.mod.consts['GGGGC_POOL_BYTES']

    def judge(s, v):
        if s.u.get('locked'):
            return 'it returns with the lock held'
        if s.u.get('nlocks', 0) > 1:
            return 'it goes to the free list twice'
        aft = s.u.get('after'); bef = s.u.get('before')
        if v is None:
            return 'nothing is returned'
        if v == NULL:
            if aft is not None and aft != bef:
                return 'it returns nothing though the free list changed'
            return None
        if aft is not None:
            if v in (bef or ()):
                want = tuple(x for x in bef if x != v)
                if bef[0] != v and False:
                    return None
                if aft != want:
                    return 'the pool returned stays on the list of free pools, or others are lost from it'
            elif aft != bef:
                return 'the list of free pools changes though no pool of it is returned'
        elif v[0] == 'o' and 'free' in v[1]:
            return 'a free pool is returned without being taken from the list'
        o = P.off
        for n, want, txt in (('next', NULL, 'its link'), ('free', add(v, C(o['start'])), 'its free pointer'), ('end', add(v, C(PB)), 'its end'),
                             ('survivors', NULL, 'its count of survivors'), ('finalizers', NULL, 'its list of finalizers')):
            if o[n] is None:
                continue
            x = s.mem.get(add(v, C(o[n])))
            if n not in ('next',) and x is None and is_pms(cfg) and n in ():
                continue
            if x != want:
                return '%s is %s when a pool is handed out' % (txt, 'whatever it was' if x is None or x == ('s', 'ld', add(v, C(o[n])), 8) else 'not set to its value for a new pool')
        return None
    run(ctx, 'pool', f, 'handed out', I, st, judge)


def new_gen(ctx, cfg):
    f = ctx.func(cfg, 'ggggc_newPoolGen', optional=True)
    if f is None:
        return
    m = f.mod
    I = Interp(ctx, f); I.barriers = False
    st = start(f)
    pool = ('o', 'newpool')

    def mk(I, st, i, args):
        a = st.copy()
        a.u['failed'] = 1
        st.u['made'] = st.u.get('made', 0) + 1
        return [(st, pool), (a, NULL)]
    I.calls['ggggc_newPool'] = mk
    sets = []

    def memset(st, i, args):
        st.u['sets'] = st.u.get('sets', ()) + (tuple(args[:3]),)
        return [st]
    I.memset = memset
    off = {n: m.off('GGGGC_Pool', n) for n in ('gen', 'remember', 'firstObject', 'start')}
    gens = m.consts['GGGGC_GENERATIONS'] > 1 and off['gen'] is not None
    CB = m.consts.get('GGGGC_CARD_BYTES'); NC = m.consts.get('GGGGC_CARDS_PER_POOL')
    garg = ('s', 'arg', 0)

    def judge(s, v):
        if s.u.get('failed') and not s.u.get('made'):
            return None if v == NULL else 'it does not return nothing when no pool is to be had'
        if v != pool or s.u.get('made') != 1:
            return 'it does not return the pool it got'
        if not gens:
            return None
        g = s.mem.get(add(pool, C(off['gen'])))
        if g is None or strip8(g) != strip8(st.env.get({n: a for a, n in f.argids.items()}[0], garg)) and not (g == NULL or g[0] == 'c'):
            return 'its generation is not recorded'
        zero = g == NULL
        fact = [v2 for k2, v2 in s.facts.items() if any(strip8(x) == strip8(garg) for x in k2 if isinstance(x, tuple))]
        done = False
        for a, b, n in s.u.get('sets', ()):
            if a == add(pool, C(off['remember'])) and b == NULL and n[0] == 'c' and n[1] >= NC:
                done = True
            elif a == add(pool, C(off['remember'])):
                return 'only part of its remembered set is cleared'
        if not done:
            # only where the generation is the youngest
            if not (zero or s.u.get('gen0')):
                return 'its remembered set is not cleared'
        card = off['start'] // CB; word = off['start'] % CB // 8
        got = None
        for k, x in s.mem.items():
            p = pev(m, k, pool)
            if p == ('rel', off['firstObject'] + 2 * card):
                got = pev(m, x, pool)
        if got != ('abs', word):
            return 'the first object of its first card is not recorded'
        return None
    def onstore(I, st, i, a, v):
        p = pev(m, a, pool)
        if p and p[0] == 'rel' and pool in set(subterms(a)):
            st.mem[add(pool, C(p[1]))] = v
            return [st]
    I.onstore = onstore

    # decide the generation test
    orig = I.cmp

    def cmp(s, pred, a, b, i=None):
        if pred in ('eq', 'ne') and NULL in (a, b):
            o = b if a == NULL else a
            if strip8(o) == strip8(garg):
                y = s.copy(); y.u['gen0'] = 1
                s.u['genN'] = 1
                r = []
                if not s.u.get('gen0'): r.append((s, pred == 'ne'))
                if not y.u.get('genN'): r.append((y, pred == 'eq'))
                return r
        return orig(s, pred, a, b, i)
    I.cmp = cmp
    run(ctx, 'pool', f, 'in a generation', I, st, judge)


def strip8(t):
    while t[0] == 'and' and t[2] in (0xff, 0xffff, 0xffffffff):
        t = t[1]
    return t


def expand(ctx, cfg):
    f = ctx.func(cfg, 'ggggc_expandPoolList')
    m = f.mod
    for case in ('no pools', 'one pool', 'any number of pools'):
        I = Interp(ctx, f); I.barriers = False; I.patience = 4; I.blurnums = True
        st = start(f)
        no = m.off('GGGGC_Pool', 'next'); so = m.off('GGGGC_Pool', 'survivors')
        I.segnext['pool'] = (no, False)
        arg = list(f.argids)
        byn = {n: a for a, n in f.argids.items()}
        first = ('o', 'first'); last = ('o', 'last')
        if case == 'no pools':
            st.env[byn[0]] = NULL
        else:
            if case == 'one pool':
                last = first
            else:
                seg = I.newseg(st, 'pool', last)
                st.mem[add(first, C(no))] = seg
                st.orig['pool.list'] = [first, seg, last]
            st.mem[add(last, C(no))] = NULL
            st.env[byn[0]] = first
        I.pinned = {first, last}
        I.onload = lambda I, st, i, a, sz: [(st, ('any', 'f%d' % i.id))] if base_of(a) and base_of(a)[0][0] == 'o' and base_of(a)[1] != no else None
        I.onstore = lambda I, st, i, a, v: [st] if base_of(a) and base_of(a)[0][0] == 'o' and base_of(a)[1] != no else None
        st.u['new'] = ()
        st.u['reset'] = ()

        def mk(I, st, i, args, first=first):
            if args[:1] != [first]:
                I.report('prototype', i, 'the new pool is not made to the pattern of the list')
            n = len(st.u['new'])
            if n >= 3:
                return []
            a = st.copy()
            p = ('o', 'new%d' % n)
            st.mem[add(p, C(no))] = NULL
            st.u['new'] = st.u['new'] + (p,)
            return [(st, p), (a, NULL)]
        I.calls['*'] = mk

        def judge(s, v, case=case, first=first, last=last):
            if case == 'no pools':
                return None if not s.u['new'] else 'pools are made for an empty list'
            x = first; got = []
            while x not in (NULL, None) and len(got) < 30:
                if x in got:
                    return 'the pools form a cycle'
                got.append(x)
                x = s.segs[x][1] if x in s.segs else s.mem.get(add(x, C(no)))
            if x is None:
                return 'the list does not end'
            if last not in got:
                return 'pools are lost from the list'
            k = got.index(last)
            if tuple(got[k + 1:]) != s.u['new']:
                return 'the new pools do not follow the last one'
            return None
        run(ctx, 'grow', f, case, I, st, judge)


def give_back(ctx, cfg):
    f = ctx.func(cfg, 'ggggc_freeGeneration')
    m = f.mod
    for case in ('no pools', 'one pool', 'any number of pools'):
        I = Interp(ctx, f); I.barriers = False; I.patience = 60
        P = Pools(I)
        st = start(f)
        no = P.off['next']
        byn = {n: a for a, n in f.argids.items()}
        first = ('o', 'first'); last = ('o', 'last')
        if case == 'no pools':
            st.env[byn[0]] = NULL; st.orig['pool.mine'] = []
        else:
            if case == 'one pool':
                last = first; st.orig['pool.mine'] = [first]
            else:
                seg = I.newseg(st, 'pool', last)
                st.mem[add(first, C(no))] = seg
                st.orig['pool.mine'] = [first, seg, last]
            st.mem[add(last, C(no))] = NULL
            st.env[byn[0]] = first
        I.pinned = {first, last, ('o', 'lastfree')}

        def judge(s, v, case=case):
            if s.u.get('locked'):
                return 'it returns with the lock held'
            aft = s.u.get('after')
            if case == 'no pools':
                return None if aft is None or aft == s.u['before'] else 'the free list changes though there is nothing to give back'
            if aft is None:
                return 'the pools are not put on the list of free pools'
            b = tuple(s.orig.get('pool.free', ())); mine = tuple(s.orig['pool.mine'])
            if aft != b + mine and aft != mine + b:
                return 'afterwards the list of free pools is not made of those that were free and those given back'
            return None
        run(ctx, 'give back', f, case, I, st, judge)


def links(ctx, cfg):
    """pools enter a list of pools only fresh, and nothing is cut off"""
    for f in ctx.funcs(cfg):
        m = f.mod
        no = m.off('GGGGC_Pool', 'next')
        if no is None:
            continue
        # made to the pattern of another pool
        go = m.off('GGGGC_Pool', 'gen')
        if go is not None and m.consts['GGGGC_GENERATIONS'] > 1 and len(f.argids) == 1:
            for b in f.order:
                t = f.term_instr(b)
                if t.op != 'ret' or not t.ops:
                    continue
                v = f.term(t.ops[0])
                if v[0] == 'call' and v[2] == 'ggggc_newPoolGen':
                    ga = strip8(f.term(f.ins[v[1]].ops[0]))
                    ctx.check('right list', f, 'pool made to a pattern', ga == ('ld', add(('arg', 0), C(go)), 1), 'the pool made is not of the generation of the one given', where=t)
        for i, a, v in stores(f):
            # a generation's pool list or allocation pool
            c, p = parts_of(a)
            g = [t for t in p if t[0] == 'g' and t[1] in ('ggggc_gens', 'ggggc_gen0')]
            if g:
                base = g[0]
                if v[0] == 'call' and v[2] == 'ggggc_newPoolGen':
                    ci = f.ins.get(v[1])
                    ga = f.term(ci.ops[0]) if ci is not None else None
                    idx = sub(a, base)
                    want = lin(0, [(ga, 8)]) if base[1] == 'ggggc_gens' and ga is not None else NULL
                    ok = ga is not None and (idx == want if base[1] == 'ggggc_gens' else ga == NULL and idx == NULL)
                    ctx.check('right list', f, 'store of a new pool', ok, 'a pool made for one generation becomes the list of another', where=i)


def C12(ctx):
    ctx.rule('pool', 'interpreted for a new and for a recycled pool, whatever it held: every field has its initial value when it is handed out, and it is on the free list no more')
    ctx.rule('grow', 'interpreted on lists of any length: growing appends new pools after the last one and loses none')
    ctx.rule('give back', 'interpreted on lists of any length: the pools given back join the free list, which loses none and ends in its recorded last pool')
    ctx.rule('right list', 'a pool joins the list of the generation it was made for')
    for cfg in CONFS:
        ctx.stale = ctx.leftover = False
        new_pool(ctx, cfg)
        give_back(ctx, cfg)
        if ctx.leftover:
            ctx.stale = True
            new_pool(ctx, cfg)
            give_back(ctx, cfg)
        new_gen(ctx, cfg)
        expand(ctx, cfg)
        links(ctx, cfg)
