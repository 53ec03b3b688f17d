"""The memory back-ends (C22): a sequence of requests for pools is interpreted
over blocks of memory whose position relative to a pool's boundary is given,
with the system's functions failing and succeeding in every order that fits
into one request, and other threads served wherever the locks let them."""
from .core import *
from .heap import *
from .rules_full import newheap

# configuration, whether its pools must be aligned, how many requests to follow
CONFS = [('g2', True, 3), ('g2all', True, 3), ('cxx', True, 3), ('mmap', True, 4), ('malloc', True, 20), ('sbrk', True, 4),
         ('portal', False, 3), ('pms', False, 3), ('tiny', True, 7)]
UNIT = 'ggggc_newPool'
ENDS = ('abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail')
SAYS = ('perror', 'fprintf', 'fputs', 'fwrite', 'puts', 'printf', 'fputc', 'putc', 'write', 'vfprintf', 'dprintf', 'psignal')
LOCK = ('pthread_mutex_lock', 'ggc_mutex_lock_raw')
UNLOCK = ('pthread_mutex_unlock', 'ggc_mutex_unlock')
MALLOCS = ('malloc', 'calloc', 'aligned_alloc', 'memalign', 'posix_memalign', 'mmap', 'sbrk')
MINUS1 = ((1 << 64) - 1, -1)
BRK = ('o', 'break')


class OS:
    """what the system has granted; copied along with the state"""

    def __init__(self):
        self.grants = []          # (symbol, from, to), as offsets from the symbol
        self.gone = []            # the same, given back
        self.pools = []           # (symbol, offset)
        self.brk = None           # offset of the break from BRK
        self.n = 0
        self.asked = 0
        self.failed = False       # whether a request of the system has failed in this run
        self.ok = False           # whether one succeeded
        self.held = ()
        self.epoch = 0
        self.said = False
        self.touched = False
        self.raced = 0
        self.freed = frozenset()
        self.owner = {}           # chunks which may be freed
        self.brkseen = None       # epoch in which the break was looked at

    def copy(self):
        o = OS()
        o.__dict__.update(self.__dict__)
        for k in ('grants', 'gone', 'pools'):
            setattr(o, k, list(getattr(self, k)))
        o.owner = dict(self.owner)
        return o


class Blocks(Heap):
    def cmp(self, st, pred, a, b, i=None):
        # no memory granted is at an address which is a constant
        if pred == 'eq':
            for x, y in ((a, b), (b, a)):
                if y[0] == 'c' and base_of(x) and base_of(x)[0][0] == 'o':
                    return [(st, False)]
        return super().cmp(st, pred, a, b, i)


def overlap(a, lo, hi, b, lo2, hi2):
    return a == b and lo < hi2 and lo2 < hi


class Requests:
    """requests in one configuration under one policy: the residue (of which
    block) of the addresses the system gives, how many of its answers are
    failures, from which request on, how malloc moves the break"""

    def __init__(self, ctx, cfg, aligned, residue, fails=0, at=0, must=False, bump='none', race=0):
        self.ctx = ctx; self.cfg = cfg; self.aligned = aligned
        self.f = ctx.func(cfg, UNIT); self.m = self.f.mod
        self.residue = residue; self.fails = fails; self.at = at; self.must = must; self.bump = bump; self.race = race
        self.PB = self.m.consts['GGGGC_POOL_BYTES']
        self.bad = []
        self.mem = {}
        self.align = {BRK: self.PB}
        m = self.m
        for g, d in m.globals.items():
            if d.get('decl'):
                continue
            v = d.get('init')
            if v == ['n']:
                self.mem[('g', g)] = NULL
            elif isinstance(v, list) and v and v[0] == 'c':
                self.mem[('g', g)] = C(v[1])
        self.shared = {('g', g) for g, d in m.globals.items() if not d.get('tls') and not d.get('const') and not d.get('decl')}
        self.os = OS()
        self.os.brk = residue
        self.outs = []
        self.where = None

    def fault(self, d, i=None):
        if not self.bad:
            self.bad.append(d); self.where = i

    def due(self, st):
        o = st.u['os'][0].copy()
        st.u['os'] = (o,)
        o.raced += 1
        return o.raced == self.race

    # one request, with the state of the world in self; returns what it gave
    def request(self, n, must, nested=False):
        f = self.f
        I = Blocks(self.ctx, f)
        I.budget = 10; I.dedupe = False; I.maxlen = 200000; I.walkdead = True
        st = start(f)
        st.mem.update(self.mem)
        for a, k in f.argids.items():
            st.env[a] = C(int(must))
        st.facts = dict(st.facts)
        os = self.os.copy()
        os.failed = os.ok = os.said = os.touched = False
        os.raced = 0
        os.left = self.fails if n == self.at and not nested else 0
        os.held = self.os.held if nested else ()
        os.base = len(os.held)
        os.brkseen = None
        st.u['os'] = (os,)
        I.align = self.align
        died = []

        def O(st):
            o = st.u['os'][0].copy()
            st.u['os'] = (o,)
            return o

        def grant(st, I, size, al, res):
            o = O(st)
            o.n += 1
            s = ('o', 'block %d' % o.n)
            I.align[s] = max(al, self.PB) if al >= self.PB or res is not None else al
            b = add(s, C(res or 0))
            o.grants.append((s, res or 0, (res or 0) + size))
            o.ok = True
            for k in list(st.mem):
                if s in set(atoms(k)):
                    del st.mem[k]
            return b

        def asks(st):
            o = O(st)
            o.asked += 1
            if o.left > 0:
                o.left -= 1; o.failed = True
                return False
            return True

        def res():
            # every other block lies differently
            return [self.residue, (self.residue + 16) % self.PB if self.residue else 0][0]

        def size(st, i, v):
            if v[0] != 'c':
                self.fault('a size which does not follow from the pools\' is asked for', i)
                return None
            return v[1] & M64

        def malloc(I, st, i, args, n=0, al=None):
            sz = size(st, i, args[n])
            if sz is None:
                return []
            if al is not None and al[0] != 'c':
                self.fault('an alignment is asked for which cannot be followed', i)
                return []
            if self.bump != 'none' and self.os.brk is not None and I.usesbrk:
                # a small request: it may move the break
                o = O(st)
                o.asked += 1
                if self.bump == 'fail':
                    return [(st, NULL)]
                o.brk += {'still': 0, 'exact': sz + 32 & ~15, 'over': sz * 8 + 4096, 'page': sz + 4096 & ~4095}[self.bump]
                o.n += 1
                s = ('o', 'chunk %d' % o.n)
                o.owner[s] = sz
                return [(st, s)]
            if not asks(st):
                return [(st, NULL)]
            if al is not None:
                return [(st, grant(st, I, sz, al[1], None))]
            r = res()
            return [(st, grant(st, I, sz, 16, r & ~15))]

        def calloc(I, st, i, args):
            if args[0][0] == 'c' and args[1][0] == 'c':
                return malloc(I, st, i, [C(args[0][1] * args[1][1])])
            self.fault('a size which does not follow from the pools\' is asked for', i)
            return []

        def memalign(I, st, i, args):
            return malloc(I, st, i, args, 1, args[0])

        def posix_memalign(I, st, i, args):
            sz = size(st, i, args[2])
            if sz is None or args[1][0] != 'c':
                self.fault('an alignment is asked for which cannot be followed', i)
                return []
            if not asks(st):
                return [(st, C(12))]
            b = grant(st, I, sz, args[1][1], None)
            st.mem[args[0]] = b
            return [(st, NULL)]

        def mmap(I, st, i, args):
            sz = size(st, i, args[1])
            if sz is None:
                return []
            if args[2][0] != 'c' or args[2][1] & 3 != 3:
                self.fault('memory is mapped which cannot be read and written', i)
            if args[3][0] != 'c' or not args[3][1] & 0x20:
                self.fault('memory is mapped which is not anonymous', i)
            if args[3][0] == 'c' and args[3][1] & 0x10:
                self.fault('memory is mapped over what may be there already', i)
            if not asks(st):
                return [(st, C(-1))]
            return [(st, grant(st, I, sz, 4096, res() & ~4095))]

        def munmap(I, st, i, args):
            b = base_of(args[0])
            if b and args[1][0] == 'c':
                n = args[1][1]
                if n < 0 or n >= 1 << 63:
                    self.fault('a negative amount of memory is given back', i)
                    return []
                # an empty range is refused by the system, to no effect
                if n > 0:
                    if sgn64(b[1]) & 4095:
                        return [(st, C(-1))]
                    n = n + 4095 & ~4095
                    lo = sgn64(b[1])
                    o = O(st)
                    if not any(g == b[0] and glo <= lo and lo + n <= ghi for g, glo, ghi in o.grants):
                        self.fault('memory is given back which was not granted', i)
                    o.gone.append((b[0], lo, lo + n))
                    for g, lo2 in o.pools:
                        if overlap(b[0], lo, lo + n, g, lo2, lo2 + self.PB):
                            self.fault('memory of a pool in use is given back', i)
            elif args[0] == C(-1) or args[0] == NULL:
                self.fault('memory is given back which was not granted', i)
            else:
                self.fault('memory is given back which cannot be told', i)
            return [(st, NULL)]

        def free(I, st, i, args):
            o = O(st)
            b = base_of(args[0])
            if args[0] == NULL:
                return [(st, NULL)]
            if b and b[1] == 0 and b[0] in o.owner:
                del o.owner[b[0]]
                o.freed = o.freed | {b[0]}
            elif b and any(g == b[0] and lo == sgn64(b[1]) for g, lo, hi in o.grants) and self.cfg != 'mmap':
                lo, hi = [(lo, hi) for g, lo, hi in o.grants if g == b[0]][0]
                o.gone.append((b[0], lo, hi))
                for g, lo2 in o.pools:
                    if overlap(b[0], lo, hi, g, lo2, lo2 + self.PB):
                        self.fault('memory of a pool in use is given back', i)
            else:
                self.fault('something is freed which was not allocated, or is freed twice', i)
            return [(st, NULL)]

        def sbrk(I, st, i, args):
            o = O(st)
            if args[0][0] != 'c':
                self.fault('the break is moved by an amount which cannot be followed', i)
                return []
            n = sgn64(args[0][1])
            if len(o.held) == o.base and n:
                self.fault('the break is moved with no lock held', i)
            if n == 0:
                o.brkseen = o.epoch
                return [(st, add(BRK, C(o.brk)))]
            if o.brkseen is not None and o.brkseen != o.epoch:
                self.fault('the lock is let go between looking at the break and moving it', i)
            if not asks(st):
                return [(st, C(-1))]
            o = O(st)
            if n < 0:
                self.fault('the break is moved back', i)
            lo = o.brk
            o.brk += n
            o.grants.append((BRK, lo, lo + n))
            o.ok = True
            return [(st, add(BRK, C(lo)))]

        def ends(I, st, i, args):
            o = O(st)
            died.append((o, i))
            return []

        def says(I, st, i, args):
            o = O(st)
            o.said = True
            return [(st, ('any', 'io%d' % i.id))]

        def interfere(st, i):
            """another thread's request is served here"""
            o = O(st)
            save = (self.mem, self.os)
            self.mem = {k: v for k, v in st.mem.items() if base_of(k) and base_of(k)[0] in self.shared}
            self.os = o
            r = self.request(n, False, nested=True)
            st.mem = {k: v for k, v in st.mem.items() if not (base_of(k) and base_of(k)[0] in self.shared)}
            st.mem.update(self.mem)
            o = self.os.copy()
            self.mem, self.os = save
            old = st.u['os'][0]
            for k in ('failed', 'ok', 'said', 'touched', 'left', 'base', 'brkseen', 'held', 'epoch', 'raced'):
                setattr(o, k, getattr(old, k))
            st.u['os'] = (o,)

        def lock(I, st, i, args):
            o = O(st)
            if args[0] in o.held:
                self.fault('a lock is taken which this thread holds already', i)
                return []
            if self.race and not nested and o.touched and not o.held and self.due(st):
                interfere(st, i)
            o = O(st)
            o.held = o.held + (args[0],)
            o.epoch += 1
            return [(st, NULL)]

        def unlock(I, st, i, args):
            o = O(st)
            if args[0] not in o.held:
                self.fault('a lock is let go which is not held', i)
                return []
            o.held = tuple(x for x in o.held if x != args[0])
            o.epoch += 1
            if self.race and not nested and not o.held and self.due(st):
                interfere(st, i)
            return [(st, NULL)]

        def errno(I, st, i, args):
            return [(st, ('g', 'errno'))]

        def onload(I, st, i, a, sz):
            b = base_of(a)
            if b and b[0] in self.shared:
                O(st).touched = True
            if b and b[0] in st.u['os'][0].freed:
                self.fault('memory is read after it was freed', i)
                return []
            return None

        def onstore(I, st, i, a, v):
            b = base_of(a)
            if b and b[0] in self.shared:
                o = O(st)
                if not o.held:
                    self.fault('shared state (%s) is changed with no lock held' % b[0][1], i)
            if b:
                o = st.u['os'][0]
                if b[0] in o.freed:
                    self.fault('memory is written after it was freed', i)
                    return []
                for g, lo in o.pools:
                    if b[0] == g and lo <= sgn64(b[1]) < lo + self.PB:
                        self.fault('a pool given out before is written to', i)
            return None

        I.usesbrk = any(j.callee() == 'sbrk' for j in f.ins.values())
        for ns, h in ((('malloc',), malloc), (('calloc',), calloc), (('aligned_alloc', 'memalign'), memalign), (('posix_memalign',), posix_memalign),
                      (('mmap',), mmap), (('munmap',), munmap), (('free',), free), (('sbrk',), sbrk), (ENDS, ends), (SAYS, says),
                      (LOCK, lock), (UNLOCK, unlock), (('__errno_location',), errno), (('brk',), None)):
            for x in ns:
                if h:
                    I.calls[x] = h
        I.onload = onload; I.onstore = onstore
        try:
            I.run(st)
        except Give as e:
            self.fault('it cannot be followed: %s' % e)
            return None
        for k, (i, d) in I.bad.items():
            self.fault(d, i)
        if self.bad:
            return None
        if len(I.ends) + len(died) != 1:
            self.fault('what it does depends on more than the system\'s answers')
            return None
        if died:
            o, i = died[0]
            if not must:
                self.fault('the program is ended although the pool is not indispensable', i)
            elif not o.failed and self.cfg != 'tiny':
                self.fault('the program is ended although memory was granted', i)
            elif not o.said:
                self.fault('the program is ended without a message', i)
            self.os = o
            return 'dead'
        s, v, t = I.ends[0]
        o = s.u['os'][0]
        if len(o.held) != o.base:
            self.fault('it returns with a lock held')
            return None
        self.mem = {k: x for k, x in s.mem.items() if base_of(k) and base_of(k)[0] in self.shared or k[0] == 'g'}
        self.os = o
        if v == NULL:
            if must:
                self.fault('it returns nothing although the pool is indispensable')
            elif not o.failed and self.cfg != 'tiny':
                self.fault('it reports failure although memory was granted')
            return None
        b = base_of(v) if isinstance(v, tuple) else None
        if not b or b[0][0] != 'o':
            self.fault('it returns %s, which is no memory granted' % (showv(v) if isinstance(v, tuple) else v))
            return None
        lo = sgn64(b[1])
        if self.aligned and (I.alignof(b[0]) < self.PB or lo % self.PB):
            self.fault('the pool is not aligned to the pools\' size')
        elif not self.aligned and lo % 16:
            self.fault('the pool is not aligned as malloc\'s memory is')
        # contiguous grants of the break count as one
        gs = [(x, y) for g, x, y in o.grants if g == b[0]]
        pos = lo
        for x, y in sorted(gs):
            if x <= pos < y:
                pos = y
        if pos < lo + self.PB:
            self.fault('the pool is not all within memory granted')
        if any(overlap(b[0], lo, lo + self.PB, g, x, y) for g, x, y in o.gone):
            self.fault('part of the pool has been given back')
        if any(overlap(b[0], lo, lo + self.PB, g, x, x + self.PB) for g, x in o.pools):
            self.fault('the pool overlaps one given out before')
        off = lambda x: self.m.off('GGGGC_Pool', x)
        for n2, w in (('end', add(v, C(self.PB))), ('free', add(v, C(off('start')))), ('next', NULL)):
            x = s.mem.get(add(v, C(off(n2))))
            if x != w:
                self.fault('the pool\'s %s is %s' % (n2, 'not set' if x is None else showv(x)))
        o = o.copy()
        o.pools.append((b[0], lo))
        self.os = o
        return v


def residues(cfg, PB, thorough):
    if cfg in ('mmap',):
        r = [0, 4096, PB - 4096] + ([PB // 2, 8192] if thorough else [])
    elif cfg == 'sbrk':
        r = [0, 16, PB // 2, PB - 16, PB - 40, 1] + ([8, PB - 4096, PB - 1, 4096, PB - 32, 33] if thorough else [])
    elif cfg in ('malloc',):
        r = [0, 16, PB - 16] + ([PB // 2, 4096 + 16] if thorough else [])
    else:
        r = [16]
    return r


def describe(q):
    d = 'memory %d bytes past a boundary' % q.residue
    if q.bump != 'none':
        d += ', malloc moving the break: ' + q.bump
    if q.fails:
        d += ', the first %d of the system\'s answers in request %d failing' % (q.fails, q.at + 1)
    if q.race:
        d += ', another thread served in between'
    return d


def backend(ctx, cfg, aligned, count, thorough):
    f = ctx.func(cfg, UNIT)
    PB = f.mod.consts['GGGGC_POOL_BYTES']
    maxf = {'malloc': 4, 'sbrk': 2}.get(cfg, 1)
    bumps = ['still', 'exact', 'fail'] + (['over', 'page'] if thorough else ['over']) if cfg == 'sbrk' else ['none']
    tot = 0; faults = 0

    def go(rule, name, q, plan):
        nonlocal tot, faults
        got = []
        if faults > 3:
            return None, q
        for n, must in enumerate(plan):
            tot += 1
            got.append(q.request(n, must))
            if q.bad or got[-1] == 'dead':
                break
        i = q.where
        faults += bool(q.bad)
        ctx.check(rule, f, cfg, not q.bad, '%s (request %d, %s; %s)' % (q.bad[0] if q.bad else '', len(got), 'indispensable' if plan[len(got) - 1] else 'dispensable', describe(q)),
                  where=(i.file, i.line) if i is not None and getattr(i, 'line', None) else None)
        return got, q

    for r in residues(cfg, PB, thorough):
        for b in bumps:
            for must in (False, True):
                plan = [must] * (min(count, f.mod.consts['GGGGC_GENERATIONS']) if cfg == 'tiny' and must else count)
                got, q = go('pools', cfg, Requests(ctx, cfg, aligned, r, bump=b), plan)
                if cfg == 'tiny' and got and not q.bad:
                    ctx.check('pools', f, cfg, got[0] is not None, 'even the first pool is refused')
            for k in range(1, maxf + 1):
                for at in ((0, count - 1) if not thorough else sorted({0, 1, min(count - 1, 15), min(count - 1, 16), count - 1})):
                    for must in (False, True):
                        plan = [False] * at + [must] + [False] * (2 if cfg != 'malloc' else 2)
                        go('failure', cfg, Requests(ctx, cfg, aligned, r, fails=k, at=at, bump=b), plan)
        for k in (1, 2, 3):
            go('race', cfg, Requests(ctx, cfg, aligned, r, bump=bumps[0], race=k), [False] * count)
    ctx.counts['requests followed'] = tot


def callers(ctx, cfg):
    """what the functions in between make of a failure"""
    n = 0
    for m in ctx.mods(cfg):
        for name, f in sorted(m.funcs.items()):
            if name in ('ggggc_newPool',) or not any(i.callee() == 'ggggc_newPool' for i in f.ins.values()):
                continue
            if not (f.name.startswith('ggggc_newPool') or 'newPool' in f.name):
                continue
            n += 1
            I, st = newheap(ctx, f)
            for g in m.globals:
                pass
            stored = []
            I.calls['ggggc_newPool'] = lambda I, st, i, args: [(st, NULL)]
            I.onstore = lambda I, st, i, a, v: stored.append((i, a)) if not (base_of(a) and base_of(a)[0][0] == 'al') else None
            bad = None
            try:
                I.run(st)
            except Give as e:
                bad = 'it cannot be followed: %s' % e
            for k, (i, d) in I.bad.items():
                bad = bad or d
            if stored:
                bad = bad or 'something is written although there is no pool'
            for s, v, t in I.ends:
                if v != NULL:
                    bad = bad or 'a failure to get a pool is not passed on'
            ctx.check('wrapper', f, cfg, bad is None, bad or '')
            # a success: the very pool
            I, st = newheap(ctx, f)
            P = ('o', 'pool'); I.align[P] = I.PB
            I.calls['ggggc_newPool'] = lambda I, st, i, args: [(st, P)]
            if m.off('GGGGC_Pool', 'start') is not None:
                st.mem[add(P, C(m.off('GGGGC_Pool', 'end')))] = add(P, C(I.PB))
                st.mem[add(P, C(m.off('GGGGC_Pool', 'free')))] = add(P, C(m.off('GGGGC_Pool', 'start')))
            I.calls['llvm.memset'] = lambda I, st, i, args: [(st, NULL)]
            I.memset = lambda st, i, args: [st]
            bad = None
            try:
                I.run(st)
            except Give as e:
                bad = None
            for s, v, t in I.ends:
                if v != P:
                    bad = 'the pool it got is not what it returns'
            ctx.check('wrapper', f, cfg, bad is None, bad or '')
    return n


def C22(ctx):
    ctx.rule('pools', 'every request in a sequence is answered with a pool which lies within memory the system granted and has not been given back, '
             'overlaps no pool given out before, is aligned to the pools\' size where the collector masks addresses, and ends where a pool ends')
    ctx.rule('failure', 'when the system fails, in its own way, an indispensable request ends the program with a message, any other returns nothing; '
             'no lock stays held, and the next requests are answered properly')
    ctx.rule('race', 'another thread\'s request served wherever no lock forbids it gets another pool')
    ctx.rule('wrapper', 'the functions which set pools up pass a failure on, untouched, and otherwise return the pool they were given')
    thorough = ctx.tier == 'thorough'
    for cfg, _, _ in CONFS:
        ctx.mods(cfg)
    ctx.par([(backend, cfg, al, n, thorough) for cfg, al, n in CONFS])
    k = 0
    for cfg, _, _ in CONFS:
        k += callers(ctx, cfg)
    ctx.counts['wrappers'] = k
