"""Descriptors built at run time (C06): every builder is interpreted, the
builders it calls included, for sizes on each side of every boundary, and the
descriptor it gives compared, with the descriptors describing it, to what was
asked for."""
from .core import *
from .heap import *
from .rules_full import newheap
from .rules_alloc import canary_of
from .rules_scan import exttag

CONFS = ['g2', 'g2all', 'g2ext', 'g1all', 'g3all', 'g2dbg', 'pms', 'pmsall', 'pmsext', 'pmsdbg', 'cxx', 'nognuc']
SAYS = ('perror', 'fprintf', 'fputs', 'fwrite', 'puts')
ENDS = ('abort', 'exit', '_exit')
LOCK = ('pthread_mutex_lock', 'ggc_mutex_lock_raw', 'ggc_mutex_lock')
UNLOCK = ('pthread_mutex_unlock', 'ggc_mutex_unlock')
BUILDERS = ['ggggc_allocateDescriptor', 'ggggc_allocateDescriptorL', 'ggggc_allocateDescriptorT', 'ggggc_allocateDescriptorPA',
            'ggggc_allocateDescriptorDA', 'ggggc_allocateDescriptorDescriptor', 'ggggc_allocateDescriptorSlot']
TABLE = ('g', 'ggggc_descriptorDescriptors')
PS = ('g', 'ggggc_pointerStack')
OTHER = ('o', 'another thread\'s descriptor')


def sbase(a):
    b = base_of(a) if isinstance(a, tuple) else None
    return (b[0], sgn64(b[1])) if b else None


class World:
    def __init__(self, ctx, cfg, race=None, stop=True, nomem=False):
        self.ctx = ctx; self.cfg = cfg
        self.m = ctx.func(cfg, 'ggggc_allocateDescriptorL').mod
        m = self.m
        self.mem = {PS: ('o', 'frame of the caller'), ('g', 'ggggc_stopTheWorld'): C(int(stop))}
        self.zero = {TABLE}
        self.alloc = {}          # object -> words, or None for what was there before
        self.bytes = {}          # chunks: object -> bytes
        self.moved = {}          # object -> where it is now
        self.bad = None; self.where = None
        self.held = []
        self.rooted = set()      # places globalized
        self.filled = {}         # place -> number of times
        self.n = 0
        self.race = race         # which lock acquisition is preceded by another thread filling the place
        self.locks = 0
        self.made = 0
        self.nomem = nomem
        self.freed = set()
        self.died = False
        self.stop = stop
        self.ext = exttag(ctx.func(cfg, 'ggggc_allocateDescriptorL'))
        self.cn = canary_of(m)
        d = lambda x: m.off('GGGGC_Descriptor', x)
        self.off = {'size': d('size'), 'map': d('tags') if self.ext else d('pointers'), 'user': [d(x) for x in ('user__ptr', 'user') if d(x) is not None][0]}
        self.entries = m.globals[TABLE[1]]['size'] // 8
        self.owned = {TABLE: ('g', 'ggggc_descriptorDescriptorsLock')}
        self.MIN = m.consts['GGGGC_MINIMUM_OBJECT_SIZE']
        self.asked = None        # what ggggc_malloc was called with

    def fault(self, d, i=None):
        if self.bad is None:
            self.bad = d; self.where = i

    def now(self, x):
        while x in self.moved:
            x = self.moved[x]
        return x

    def move(self, st, x, keep=()):
        """a collection moves object x: everything the collector knows of
        follows, local copies do not"""
        self.n += 1
        y = ('o', '%s, moved (%d)' % (x[1].split(',')[0], self.n))
        self.moved[x] = y
        self.alloc[y] = self.alloc.get(x)
        self.zero.add(y); st.zero.add(y)
        nm = {}
        for k, v in st.mem.items():
            b = base_of(k)
            if b and b[0] == x:
                k = add(y, C(b[1]))
            if v == x and not (b and b[0][0] == 'al' and k not in keep):
                v = y
            nm[k] = v
        st.mem = nm
        return y

    def call(self, name, argv):
        f = self.ctx.func(self.cfg, name)
        st = State()
        st.mem = dict(self.mem); st.zero = set(self.zero)
        r = self.interp(f, st, argv)
        if self.bad or r is None:
            return None
        st, v = r
        self.mem = {k: x for k, x in st.mem.items() if not (base_of(k) and base_of(k)[0][0] == 'al')}
        if self.held:
            self.fault('it returns with a lock held')
        if self.mem.get(PS) != ('o', 'frame of the caller'):
            self.fault('it leaves the root stack other than it found it')
        return v

    def interp(self, f, st, argv):
        I = Heap(self.ctx, f)
        I.budget = 20; I.dedupe = False; I.maxlen = 300000; I.walkdead = True
        for a, n in f.argids.items():
            st.env[a] = argv[n]
        self.hooks(I, f)
        try:
            I.run(st)
        except Give as e:
            self.fault('it cannot be followed: %s' % e)
            return None
        for k, (i, d) in I.bad.items():
            self.fault(d, i)
        if self.bad or self.died:
            return None
        if len(I.ends) != 1:
            self.fault('what it does depends on more than what it was given')
            return None
        return I.ends[0][0], I.ends[0][1]

    def nested(self, I, st, i, args, f):
        """a call of another builder"""
        als = set()
        for k, v in list(st.mem.items()):
            for t in list(atoms(k)) + (list(atoms(v)) if isinstance(v, tuple) else []):
                if t[0] == 'al':
                    als.add(t)
        for a in args:
            als |= {t for t in atoms(a) if t[0] == 'al'}
        up = {a: ('al', ('up',) + a[1:]) for a in als}
        down = {v: k for k, v in up.items()}
        s = State()
        s.mem = {subst2(k, up): subst2(v, up) for k, v in st.mem.items()}
        s.zero = set(self.zero)
        r = self.interp(f, s, [subst2(a, up) for a in args])
        if r is None:
            return []
        s, v = r
        st.mem = {subst2(k, down): subst2(x, down) for k, x in s.mem.items() if not (base_of(k) and base_of(k)[0][0] == 'al' and base_of(k)[0] not in down)}
        st.zero = set(self.zero)
        return [(st, subst2(v, down))]

    def inbounds(self, a, n, i, what):
        b = sbase(a)
        if b is None:
            self.fault('something is %s at a place which cannot be told (%s)' % (what, showv(a)), i)
            return False
        o, k = b
        if o in self.moved:
            self.fault('an object is %s where it was before a collection' % what, i)
            return False
        if o in self.freed:
            self.fault('memory is %s after it was freed' % what, i)
            return False
        lim = self.alloc.get(o)
        lim = lim * 8 if lim is not None else self.bytes.get(o)
        if o == TABLE:
            lim = self.entries * 8
        if lim is not None and not (0 <= k and k + n <= lim):
            self.fault('%d bytes are %s at byte %d of %s, which has %d' % (n, what, k, o[1], lim), i)
            return False
        return True

    def hooks(self, I, f):
        W = self

        def mallocRaw(I, st, i, args):
            if args[1][0] != 'c':
                W.fault('an object of unknown size is allocated', i)
                return []
            if W.held:
                W.fault('it allocates, and so may collect, with a lock held', i)
            W.n += 1; W.made += 1
            x = ('o', 'descriptor %d' % W.n)
            d = st.mem.get(args[0])
            if d is not None and d[0] == 'o':
                if d in W.moved:
                    W.fault('it hands the allocator a descriptor from before a collection', i)
                else:
                    W.move(st, d, keep=(args[0],))
            W.alloc[x] = args[1][1]
            W.zero.add(x); st.zero.add(x)
            return [(st, x)]

        def malloc_(I, st, i, args):
            d = args[0]
            if d in W.moved:
                W.fault('it hands the allocator a descriptor from before a collection', i)
            W.asked = d
            W.n += 1
            x = ('o', 'object %d' % W.n)
            W.alloc[x] = W.size(st.mem, d)
            W.zero.add(x); st.zero.add(x)
            return [(st, x)]

        def cmalloc(I, st, i, args):
            if args[0][0] != 'c':
                W.fault('an amount of memory which cannot be told is asked for', i)
                return []
            if W.nomem:
                return [(st, NULL)]
            W.n += 1
            x = ('o', 'chunk %d' % W.n)
            W.bytes[x] = args[0][1]
            return [(st, x)]

        def calloc(I, st, i, args):
            r = cmalloc(I, st, i, [C(args[0][1] * args[1][1])] if args[0][0] == args[1][0] == 'c' else [('any', 'x')])
            for s, x in r:
                if x[0] == 'o':
                    W.zero.add(x); s.zero.add(x)
            return r

        def free(I, st, i, args):
            if args[0] == NULL:
                return [(st, NULL)]
            if args[0] not in W.bytes or args[0] in W.freed:
                W.fault('something is freed which was not allocated, or is freed twice', i)
                return []
            W.freed.add(args[0])
            return [(st, NULL)]

        def ends(I, st, i, args):
            W.died = True
            return []

        def lock(I, st, i, args):
            if args[0] in W.held:
                W.fault('a lock is taken which this thread holds', i)
            W.held.append(args[0])
            W.locks += 1
            if W.race == W.locks:
                # another thread was there first
                for p, l in W.owned.items():
                    if l == args[0] and W.target is not None and base_of(W.target)[0] == base_of(p)[0] and not W.value(st.mem, W.target)[1:2] == (OTHER,):
                        if st.mem.get(W.target, NULL) == NULL:
                            st.mem[W.target] = OTHER
                            W.alloc[OTHER] = None
            return [(st, NULL)]

        def unlock(I, st, i, args):
            if args[0] not in W.held:
                W.fault('a lock is let go which is not held', i)
                return []
            W.held.remove(args[0])
            return [(st, NULL)]

        def roots(st):
            out = []
            fr = st.mem.get(PS)
            if fr and fr[0] == 'al':
                n = st.mem.get(add(fr, C(W.m.off('GGGGC_PointerStack', 'size'))))
                if n and n[0] == 'c':
                    for j in range(n[1]):
                        p = st.mem.get(add(fr, C(W.m.off('GGGGC_PointerStack', 'pointers') + 8 * j)))
                        if p:
                            out.append(p)
            return out

        def yields(I, st, i, args):
            if W.held:
                W.fault('it may collect with a lock held', i)
            for p in roots(st):
                v = st.mem.get(p)
                if v and v[0] == 'o' and v in W.alloc and v not in W.moved:
                    W.move(st, v, keep=(p,))
            return [(st, ('any', 'yield'))]

        def globalize(I, st, i, args):
            if W.held:
                W.fault('it makes a root with a lock held', i)
            for p in roots(st):
                W.rooted.add(p)
            return [(st, ('any', 'g'))]

        def onload(I, st, i, a, sz):
            b = sbase(a)
            if b and (b[0] in W.alloc or b[0] in W.bytes or b[0] == TABLE):
                if not W.inbounds(a, sz if isinstance(sz, int) else 8, i, 'read'):
                    return []
            if b and b[0] in W.bytes and a not in st.mem and b[0] not in W.zero:
                W.fault('memory is read which was never set', i)
                return []
            return None

        def onstore(I, st, i, a, v):
            b = sbase(a)
            if b is None or b[0][0] in ('o', 'g'):
                if a != PS and not W.inbounds(a, i.d.get('sz', 8), i, 'written'):
                    return []
            for p, l in W.owned.items():
                if b and b[0] == base_of(p)[0] and (p == TABLE or a == p):
                    if l not in W.held:
                        W.fault('a descriptor is published without its lock', i)
                    W.filled[a] = W.filled.get(a, 0) + 1
                    if st.mem.get(a, NULL) != NULL and st.mem[a] != v:
                        W.fault('a descriptor already published is replaced', i)
                    if isinstance(v, tuple) and v in W.moved:
                        W.fault('a descriptor is published where it was before a collection', i)
            if b and b[0][0] == 'o' and isinstance(v, tuple) and v in W.moved:
                W.fault('an object is given a reference from before a collection', i)
            return None

        def memset(st, i, args):
            a, v, n = args[0], args[1], args[2]
            if n[0] != 'c' or v[0] != 'c':
                W.fault('memory is filled by an amount which cannot be told', i)
                return []
            b = sbase(a)
            if b is None:
                W.fault('memory is filled at a place which cannot be told', i)
                return []
            if n[1] and not W.inbounds(a, n[1], i, 'written'):
                return []
            for k in list(st.mem):
                kb = sbase(k)
                if kb and kb[0] == b[0] and b[1] <= kb[1] < b[1] + n[1]:
                    del st.mem[k]
            ismap = W.ext and b[0] in W.alloc and b[1] >= W.off['map']
            if v[1] & 255 == 0 and b[0] not in W.zero:
                for j in range(0, n[1], 8):
                    st.mem[add(a, C(j))] = NULL
            elif ismap:
                for j in range(n[1]):
                    st.mem[add(a, C(j))] = C(v[1] & 255)
            elif v[1] & 255:
                x = int.from_bytes(bytes([v[1] & 255]) * 8, 'little')
                for j in range(0, n[1], 8):
                    st.mem[add(a, C(j))] = C(x)
            return [st]

        def memcpy(st, i, args):
            d, s, n = args[:3]
            if n[0] != 'c':
                W.fault('memory is copied by an amount which cannot be told', i)
                return []
            if n[1] == 0:
                return [st]
            bd, bs = sbase(d), sbase(s)
            if bd is None or bs is None:
                W.fault('memory is copied from or to a place which cannot be told', i)
                return []
            if not W.inbounds(d, n[1], i, 'written') or not W.inbounds(s, n[1], i, 'read'):
                return []
            src = {}
            for k, v in st.mem.items():
                kb = sbase(k)
                if kb and kb[0] == bs[0] and bs[1] <= kb[1] < bs[1] + n[1]:
                    src[kb[1] - bs[1]] = v
            for k in list(st.mem):
                kb = sbase(k)
                if kb and kb[0] == bd[0] and bd[1] <= kb[1] < bd[1] + n[1]:
                    del st.mem[k]
            if bs[0] not in W.zero:
                for k in range(0, n[1], 1 if any(x % 8 for x in src) else 8):
                    src.setdefault(k, ('any', 'unset'))
            for k, v in src.items():
                st.mem[add(d, C(k))] = v
            return [st]

        I.calls['ggggc_mallocRaw'] = mallocRaw
        I.calls['ggggc_malloc'] = malloc_
        I.calls['malloc'] = cmalloc; I.calls['calloc'] = calloc; I.calls['free'] = free
        for x in ENDS: I.calls[x] = ends
        for x in SAYS: I.calls[x] = lambda I, st, i, args: [(st, ('any', 'io%d' % i.id))]
        for x in LOCK: I.calls[x] = lock
        for x in UNLOCK: I.calls[x] = unlock
        I.calls['ggggc_yield'] = yields
        I.calls['ggggc_globalize'] = globalize
        I.onload = onload; I.onstore = onstore
        I.memset = memset; I.memcpy = memcpy
        for b in BUILDERS:
            g = self.ctx.func(self.cfg, b, optional=True)
            if g is not None:
                I.calls[b] = (lambda g: lambda I, st, i, args: W.nested(I, st, i, args, g))(g)

    # what the descriptors say
    def value(self, mem, a):
        return mem.get(a, NULL if base_of(a) and base_of(a)[0] in self.zero else ('any', '?'))

    def size(self, mem, d):
        v = self.value(mem, add(d, C(self.off['size'])))
        return v[1] if v[0] == 'c' else None

    def marks(self, d, n):
        """the words of an object of n words the descriptor marks"""
        out = set()
        o = self.off['map']
        none = False
        for w in range(n):
            if self.ext:
                v = self.value(self.mem, add(d, C(o + w)))
                t = self.tagof(v)
                if t is None:
                    return None
                if not t & 1:
                    out.add(w)
            else:
                v = self.value(self.mem, add(d, C(o + w // 64 * 8)))
                if v[0] != 'c':
                    return None
                if (v[1] & M64) >> (w % 64) & 1:
                    out.add(w)
            if w == 0 and not out:
                return out         # nothing is marked, and nothing else is looked at
        return out

    def tagof(self, v):
        if v[0] == 'c':
            return v[1] & 255
        if v[0] == 's' and v[1] == 'tag':
            return v[3]
        return None

    def judge(self, d, size, want, raised=True):
        """is d a descriptor of objects of that size with the words wanted
        marked, properly described itself?"""
        if not (isinstance(d, tuple) and d[0] == 'o' and d in self.alloc):
            return 'it gives %s, which is no descriptor' % (showv(d) if isinstance(d, tuple) else d)
        if d in self.moved:
            return 'it gives the descriptor where it was before a collection'
        n = max(size, self.MIN)
        got = self.size(self.mem, d)
        if got != n:
            return 'asked for %d words it describes %s' % (size, got)
        ms = self.marks(d, n)
        if ms is None:
            return 'its reference map has parts which were never set'
        ms = {w for w in ms if w < size or w == 0}
        if ms and 0 not in ms:
            return 'it marks references without marking the descriptor word'
        if want is not None:
            w2 = set(want)
            if not w2 - {0}:
                ms -= {0}; w2 -= {0}
            if ms != w2:
                x = sorted(w2 - ms)[:3]; y = sorted(ms - w2)[:3]
                return 'of %d words ' % size + (('words %s are not marked' % x) if x else ('words %s are marked though nothing asked for it' % y))
            if self.ext:
                for w, v in getattr(self, 'tags', {}).items():
                    x = self.value(self.mem, add(d, C(self.off['map'] + w)))
                    if w and w < size and x != v:
                        return 'the tag of word %d is not the one given' % w
        # room for the map, and the descriptors above
        has = self.alloc[d]
        if ms:
            need = self.off['map'] + ((n + 7) // 8 * 8 if self.ext else (n + 63) // 64 * 8)
            if has * 8 < need:
                return 'a map of %d words has %d bytes' % (n, has * 8 - self.off['map'])
        return self.above(d)

    def above(self, d):
        seen = set()
        while d not in seen:
            seen.add(d)
            if d in self.moved:
                return 'a descriptor is described by one where it was before a collection'
            if self.value(self.mem, add(d, C(self.off['user']))) != NULL:
                return 'the user pointer does not start out null'
            e = self.value(self.mem, d)
            if not (e[0] == 'o' and e in self.alloc):
                return 'a descriptor is described by %s' % showv(e)
            if e == OTHER:
                return None
            n = self.size(self.mem, e)
            if n != self.alloc[d]:
                return 'a descriptor of %d words is described as one of %s' % (self.alloc[d], n)
            ms = self.marks(e, n)
            if ms is None:
                return 'the map of a descriptor\'s descriptor has parts which were never set'
            if ms != {0, self.off['user'] // 8}:
                return 'of a descriptor the words %s are marked' % sorted(ms)
            need = self.off['map'] + ((n + 7) // 8 * 8 if self.ext else (n + 63) // 64 * 8)
            if self.alloc[e] * 8 < need:
                return 'the map of a descriptor\'s descriptor has no room'
            d = e
        return None

    def published(self):
        """every place filled here is kept alive, and was filled once"""
        for p, n in self.filled.items():
            if n != 1:
                return 'a place for a descriptor is filled %d times' % n
            if p not in self.rooted:
                return 'a descriptor is published which is not made a root'
        return None


def patterns(size):
    n = max(1, (size + 63) // 64)
    out = [('none', [0] * n), ('all', [M64] * n)]
    out.append(('first', [2] + [0] * (n - 1)))
    out.append(('last', [0] * ((size - 1) // 64) + [1 << ((size - 1) % 64)] if size else [0]))
    out.append(('alternate', [0xAAAAAAAAAAAAAAAA] * n))
    if n > 1:
        out.append(('second', [0] + [1] + [0] * (n - 2)))
    out = [(a, (b + [0] * n)[:n]) for a, b in out]
    return out


def wanted(words, size):
    w = {i for i in range(size) if words[i // 64] >> (i % 64) & 1}
    return w | {0}


SIZES = [1, 2, 3, 4, 5, 9, 63, 64, 65, 127, 128, 129, 200]
MORE = [8, 10, 16, 17, 31, 32, 33, 40, 62, 66, 191, 192, 193, 255, 256, 257, 511, 512, 513, 1000]


def builders(ctx, cfg, thorough):
    L = ctx.func(cfg, 'ggggc_allocateDescriptorL')
    sizes = SIZES + (MORE if thorough else [])
    n = 0

    def say(rule, f, W, bad, what):
        nonlocal n
        n += 1
        bad = W.bad or bad
        ctx.check(rule, f, cfg, bad is None, '%s (%s)' % (bad, what),
                  where=W.where if W.where is not None and hasattr(W.where, 'where') else None)
        return bad is None

    def go(name, mk, want, what, size, **kw):
        f = ctx.func(cfg, name)
        W = World(ctx, cfg, **kw)
        W.target = None
        r = W.call(name, mk(W))
        bad = None
        if W.bad is None:
            bad = W.judge(r, size, want) or W.published()
        return say('builder', f, W, bad, '%d words, %s' % (size, what))

    def mapof(W, words, real=None):
        p = ('o', 'map given')
        for k, v in enumerate(words):
            W.mem[add(p, C(8 * k))] = C(v if v < 1 << 63 else v - (1 << 64))
        W.bytes[p] = 8 * len(words)
        return p
    for s in sizes:
        for nm, ws in patterns(s):
            if not go('ggggc_allocateDescriptorL', lambda W: [C(s), mapof(W, ws)], wanted(ws, s), 'references: ' + nm, s, stop=nm != 'none'):
                break
        go('ggggc_allocateDescriptorL', lambda W: [C(s), NULL], set(), 'no map', s)
        go('ggggc_allocateDescriptorDA', lambda W: [C(s)], set(), 'data', s)
        for nm, ws in patterns(min(s, 64)):
            if not go('ggggc_allocateDescriptor', lambda W: [C(s), C(ws[0])], wanted(ws + [0] * 64, s), 'references: ' + nm, s):
                break
        hd = 2 if canary_of(L.mod) else 1
        if s > hd:
            go('ggggc_allocateDescriptorPA', lambda W: [C(s)], {0} | set(range(hd + 1, s)), 'array', s)
        if ctx.func(cfg, 'ggggc_allocateDescriptorT', optional=True) is not None:
            for nm, ws in patterns(s):
                def mk(W):
                    p = ('o', 'tags given')
                    W.tags = {}
                    for w in range(s):
                        t = (w * 6 + 2 & 254) | (not ws[w // 64] >> (w % 64) & 1)
                        W.tags[w] = W.mem[add(p, C(w))] = C(int(t))
                    W.bytes[p] = s
                    return [C(s), p]
                if not go('ggggc_allocateDescriptorT', mk, wanted(ws, s), 'references: ' + nm, s):
                    break
            go('ggggc_allocateDescriptorT', lambda W: [C(s), NULL], set(), 'no tags', s)
    # out of memory
    f = ctx.func(cfg, 'ggggc_allocateDescriptor')
    for name, av in (('ggggc_allocateDescriptor', [C(200), C(2)]), ('ggggc_allocateDescriptorPA', [C(200)])):
        W = World(ctx, cfg, nomem=True); W.target = None
        r = W.call(name, av)
        bad = None
        if not W.died and W.bad is None:
            bad = W.judge(r, 200, {0, 1} if name.endswith('r') else None)
        say('builder', ctx.func(cfg, name), W, bad, 'no memory left')
    return n


def dds(ctx, cfg, thorough):
    """descriptors of descriptors: the table"""
    name = 'ggggc_allocateDescriptorDescriptor'
    f = ctx.func(cfg, name)
    n = 0
    W0 = World(ctx, cfg)
    words = f.mod.consts['GGGGC_WORDS_PER_POOL']
    usable = words - f.mod.off('GGGGC_Pool', 'start') // 8
    hdw = W0.off['map'] // 8
    top = hdw + ((usable + 7) // 8 if W0.ext else (usable + 63) // 64)
    for s in [1, 2, 3, 4, 5, 6, 63, 64, 65, 66, 128, 129] + ([top] if not W0.ext else []) + ([7, 8, 67, 68, 192, 200, 1000] if thorough else []):
        for race in (None, 1, 2, 3):
            for stop in (True, False):
                W = World(ctx, cfg, race=race, stop=stop)
                k = max(s, W.MIN)
                W.target = add(TABLE, C(8 * k))
                r = W.call(name, [C(s)])
                bad = None
                if W.bad is None:
                    e = W.value(W.mem, W.target)
                    if W.now(e) != e or r != e:
                        bad = 'what it gives is not the descriptor in the table'
                    elif e == NULL:
                        bad = 'it gives nothing'
                    elif W.now(OTHER) == e:
                        if W.target in W.filled:
                            bad = 'another thread\'s descriptor is replaced'
                    else:
                        if W.target not in W.filled:
                            bad = 'the descriptor is not put in the table'
                        else:
                            bad = W.judge(r, k, {0, W.off['user'] // 8} & set(range(k)))
                    bad = bad or W.published()
                if bad is None and W.bad is None:
                    # and again
                    made = W.made; rs = len(W.filled)
                    r2 = W.call(name, [C(s)])
                    if W.bad is None and (r2 != W.value(W.mem, W.target) or W.made != made or len(W.filled) != rs):
                        bad = 'a second request makes another one'
                n += 1
                bad = W.bad or bad
                ctx.check('table', f, cfg, bad is None, '%s (size %d%s)' % (bad, s, ', another thread first' if race else ''),
                          where=W.where if W.where is not None and hasattr(W.where, 'where') else None)
                if bad:
                    return n
    # the largest descriptors there can be have their place
    ctx.check('table', f, cfg + '/extent', W0.entries > top, 'the largest descriptor has %d words, the table %d places' % (top, W0.entries))
    return n


def slots(ctx, cfg, thorough):
    name = 'ggggc_allocateDescriptorSlot'
    f = ctx.func(cfg, name)
    m = f.mod
    so = lambda x: m.off('GGGGC_DescriptorSlot', x)
    n = 0
    for s in SIZES[1:]:
        for nm, ws in patterns(min(s, 64)):
            for race in (None, 'own'):
                W = World(ctx, cfg)
                S = ('o', 'slot')
                p = add(S, C(so('descriptor')))
                W.mem[add(S, C(so('size')))] = C(s)
                v = ws[0]
                W.mem[add(S, C(so('pointers')))] = C(v if v < 1 << 63 else v - (1 << 64))
                W.mem[p] = NULL
                W.owned[p] = add(S, C(so('lock')))
                W.target = None
                if race:
                    W.target = p
                run_slot(W, name, S, p, race)
                bad = None
                r = W.result
                if W.bad is None:
                    e = W.mem.get(p)
                    if r != e or W.now(e) != e:
                        bad = 'what it gives is not what is in the slot'
                    elif W.now(OTHER) == e:
                        if p in W.filled:
                            bad = 'another thread\'s descriptor is replaced'
                    elif e == NULL:
                        bad = 'it gives nothing'
                    else:
                        if race:
                            bad = 'another thread\'s descriptor is not heeded'
                        bad = bad or W.judge(r, s, wanted(ws + [0] * 64, s))
                    bad = bad or W.published()
                if bad is None and W.bad is None:
                    made = W.made
                    r2 = W.call(name, [S])
                    if W.bad is None and (r2 != W.mem.get(p) or W.made != made):
                        bad = 'a second request makes another one'
                n += 1
                bad = W.bad or bad
                ctx.check('slot', f, cfg, bad is None, '%s (size %d, references: %s%s)' % (bad, s, nm, ', another thread first' if race else ''),
                          where=W.where if W.where is not None and hasattr(W.where, 'where') else None)
                if bad:
                    return n
    return n


def run_slot(W, name, S, p, race):
    if race:
        # whenever the slot's own lock is taken, another thread has filled it
        h0 = W.hooks

        def hooks(I, f):
            h0(I, f)
            for x in LOCK:
                l0 = I.calls[x]

                def lock(I, st, i, args, l0=l0):
                    if args[0] == W.owned[p] and st.mem.get(p) == NULL:
                        st.mem[p] = OTHER
                        W.alloc[OTHER] = None
                    return l0(I, st, i, args)
                I.calls[x] = lock
        W.hooks = hooks
        W.race = None
    W.result = W.call(name, [S])


def arrays(ctx, cfg):
    n = 0
    for name, cases in (('ggggc_mallocPointerArray', [[0], [1], [2], [61], [62], [63], [64], [130]]),
                        ('ggggc_mallocDataArray', [[0, 1], [1, 1], [8, 1], [9, 1], [3, 8], [5, 4], [1, 12], [7, 24]])):
        f = ctx.func(cfg, name)
        hd = 2 if canary_of(f.mod) else 1
        for av in cases:
            W = World(ctx, cfg); W.target = None
            r = W.call(name, [C(a) for a in av])
            bad = None
            if W.bad is None:
                if len(av) == 1:
                    s = hd + 1 + av[0]; want = {0} | set(range(hd + 1, s))
                else:
                    s = hd + 1 + (av[0] * av[1] + 7) // 8; want = set()
                d = W.asked
                if d is None:
                    bad = 'it allocates nothing'
                else:
                    bad = W.judge(W.now(d), s, want) or W.published()
            n += 1
            bad = W.bad or bad
            ctx.check('array', f, cfg, bad is None, '%s (%s)' % (bad, ' elements of '.join(map(str, av))),
                      where=W.where if W.where is not None and hasattr(W.where, 'where') else None)
            if bad:
                break
    return n


def one(ctx, cfg, thorough):
    k = builders(ctx, cfg, thorough)
    k += dds(ctx, cfg, thorough)
    k += slots(ctx, cfg, thorough)
    k += arrays(ctx, cfg)
    ctx.counts['descriptors built'] = k


def C06(ctx):
    ctx.rule('builder', 'a builder gives a descriptor of the size asked for, raised to the minimum, which marks exactly the words asked for and, if any, the descriptor word; '
             'it has room for its map, and is described, at every level, by a descriptor of its very size marking its descriptor and user pointer alone')
    ctx.rule('table', 'a size has one descriptor of descriptors: created when there is none, published under the lock unless another thread was first, made a root, and given from then on; the table has a place for every size')
    ctx.rule('slot', 'a slot has one descriptor, of its size and references: published under its lock unless another thread was first, made a root, and given from then on')
    ctx.rule('array', 'an array\'s descriptor has room for the header, the length and the elements, and marks the elements of a pointer array and nothing of a data array')
    thorough = ctx.tier == 'thorough'
    confs = CONFS if thorough else CONFS
    for cfg in confs:
        ctx.mods(cfg)
    ctx.par([(one, cfg, thorough) for cfg in confs])
