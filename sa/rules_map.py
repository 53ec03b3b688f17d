"""Maps (C21): every operation, interpreted from every state of small tables
which keep the invariant - each entry is in the bucket its hash selects, no two
have equal keys, and the count is right - must have its effect and keep it."""
import itertools
from .core import *
from .interp import *
from .heap import Heap
from . import rules_types

CONFS = ['g2', 'g1all', 'g2ext', 'pms', 'pmsall', 'nognuc', 'cxx']
BIG = (1 << 63) + 5      # 5 in every table


class Table:
    """a map in memory. keys: list of (class, hash, value); chains in order of
    the list"""
    def __init__(self, m, st, size, ents, tag='', cloneof=None):
        self.m = m
        off = {}
        for t in ('GGC_Map', 'GGC_MapEntry'):
            for f in m.fields(t + '__ggggc_struct'):
                off[t, f[0].split('.')[-1].split('__')[0]] = f[1]
        self.off = off
        self.hd = m.consts['HEADER']
        self.map = ('o', 'map' + tag, 'gc')
        self.arr = ('o', 'table' + tag, 'gc')
        self.size = size
        self.ents = ents
        self.objs = []
        w = st.mem
        w[add(self.map, C(off['GGC_Map', 'size']))] = C(size)
        w[add(self.map, C(off['GGC_Map', 'used']))] = C(len(ents))
        w[add(self.map, C(off['GGC_Map', 'entries']))] = self.arr if size else NULL
        if size:
            w[add(self.arr, C(self.hd))] = C(size)
        ch = {b: [] for b in range(size)}
        for j, (c, h, v) in enumerate(ents):
            o = ('o', 'entry%s%d' % (tag, j), 'gc')
            self.objs.append(o)
            ch[h % size].append(o)
            w[add(o, C(off['GGC_MapEntry', 'key']))] = key(c)
            w[add(o, C(off['GGC_MapEntry', 'value']))] = v
        for b, l in ch.items():
            a = add(self.arr, C(self.hd + 8 + 8 * b))
            for o in l:
                w[a] = o
                a = add(o, C(off['GGC_MapEntry', 'next']))
            w[a] = NULL


def key(c, other=False):
    if c is None:
        return NULL
    return ('o', 'key%s%s' % (c, 'again' if other else ''), 'gc')


def classof(v):
    if v == NULL:
        return None
    if v[0] == 'o' and v[1].startswith('key'):
        return v[1][3:].replace('again', '')
    return '?'


def val(j):
    return ('o', 'value%s' % j, 'gc')


def read(T, st, m, hashes):
    """-> (problem or None, size, used, {class: (value, entry)}, array, chains)"""
    off, hd = T.off, T.hd
    g = lambda a: st.mem.get(a, NULL if base_of(a) and base_of(a)[0] in st.zero else None)
    size, used, arr = [g(add(m, C(off['GGC_Map', x]))) for x in ('size', 'used', 'entries')]
    if size is None or size[0] != 'c' or used is None or used[0] != 'c':
        return ('its size or count is unknown',)
    size, used = size[1], used[1]
    out = {}
    chains = []
    if size == 0:
        return (None, 0, used, out, arr, chains)
    if arr is None or arr[0] != 'o':
        return ('it has a size, and no table',)
    ln = g(add(arr, C(hd)))
    if ln is None or ln[0] != 'c' or ln[1] < size:
        return ('its table has fewer buckets than its size',)
    seen = set()
    for b in range(ln[1]):
        e = g(add(arr, C(hd + 8 + 8 * b)))
        ch = []
        while e is not None and e != NULL:
            if e in seen:
                return ('an entry is in the table twice',)
            seen.add(e)
            k = g(add(e, C(off['GGC_MapEntry', 'key'])))
            v = g(add(e, C(off['GGC_MapEntry', 'value'])))
            if k is None or v is None or classof(k) == '?':
                return ('an entry has no key or value',)
            c = classof(k)
            if c in out:
                return ('two entries have equal keys',)
            if b >= size or hashes[c] % size != b:
                return ('an entry is not in the bucket its hash selects',)
            out[c] = (v, e)
            ch.append((c, v, e))
            e = g(add(e, C(off['GGC_MapEntry', 'next'])))
        if e is None:
            return ('a chain of entries has no end',)
        chains.append(ch)
    return (None, size, used, out, arr, chains)


def setup(ctx, f, T0, hashes):
    I = Heap(ctx, f)
    I.gcsafe = False
    I.budget = 30
    I.dedupe = False
    st = start(f)
    st.mem[('g', 'ggggc_stopTheWorld')] = C(0)
    st.mem[I.PS] = ('s', 'outer')
    T = Table(f.mod, st, *T0)
    bad = []

    def fn(I, st, i, args):
        if len(args) == 1:
            c = classof(args[0])
            if c == '?' or c not in hashes:
                bad.append((i, 'the hash function is called with something which is no key'))
                return []
            return [(st, C(hashes[c]))]
        if len(args) == 2:
            a, b = classof(args[0]), classof(args[1])
            if '?' in (a, b):
                bad.append((i, 'the comparison function is called with something which is no key'))
                return []
            return [(st, C(0) if a == b else C(1) if (a or '') < (b or '') else C(-1))]
        return None
    I.calls['*'] = fn

    def fresh(n):
        def h(I, st, i, args):
            k = st.u['made'] = st.u.get('made', 0) + 1
            if k > 40:
                raise Give('it makes objects without end')
            o = ('o', 'made%d' % k, 'gc')
            I.poolof[o] = ('o', 'poolof%d' % k)
            st.zero = set(st.zero) | {o}
            st.u['new'] = st.u.get('new', ()) + (o,)
            if n == 'array':
                st.mem[add(o, C(T.hd))] = args[0]
            return [(st, o)]
        return h
    for n in ('ggggc_malloc', 'ggggc_mallocSlot', 'ggggc_mallocRaw'):
        I.calls[n] = fresh('object')
    I.calls['ggggc_mallocPointerArray'] = fresh('array')
    I.calls['ggggc_yield'] = lambda I, st, i, a: [(st, C(0))]
    for j, o in enumerate([T.map, T.arr] + T.objs):
        I.poolof[o] = ('o', 'poolof' + o[1])
    I.barriers = False
    return I, st, T, bad


def tables(thorough):
    """states which keep the invariant"""
    out = [(0, [])]
    keys = ['A', 'B', 'C', 'D', 'E']
    hs = {4: [(1,), (1, 5), (1, 2), (5, 1, 9), (0, 3, BIG), (1, 5, 2), (BIG, 5, 13)],
          8: [(1, 9), (1, 5), (3, 11, 19, 7), (BIG, 5, 13, 21, 2), (0, 8, 16, 24, 32)]}
    if thorough:
        hs[4] = [x for n in (1, 2, 3) for x in itertools.product((0, 1, 4, 5, BIG), repeat=n)]
        hs[8] += [x for n in (1, 2, 3) for x in itertools.product((0, 1, 8, 9, 4, BIG), repeat=n)] + list(itertools.product((1, 9, 5), repeat=5))
        hs[16] = [(1, 17, 9), (1,) * 5, (7, 15, 23, 31, 39)]
    for s, l in sorted(hs.items()):
        out.append((s, []))
        for h in l:
            out.append((s, [(keys[j], x, val(j)) for j, x in enumerate(h)]))
    # a null key is a key
    out.append((4, [(None, 2, val('n')), ('A', 6, val(0))]))
    out.append((4, [('A', 6, val(0)), (None, 2, val('n'))]))
    out.append((4, [('A', 6, NULL), ('B', 6, val(0))]))
    return out


def desc(T0):
    s, e = T0
    return 'size %d, hashes %s' % (s, ' '.join('%s=%d' % (c or 'null', h if h < 1 << 60 else -1) for c, h, v in e) or 'none')


def operation(ctx, cfg, name, thorough):
    f = ctx.func(cfg, name)
    byn = {n: a for a, n in f.argids.items()}
    probs = {}
    runs = 0
    for T0 in tables(thorough):
        base = {c: h for c, h, v in T0[1]}
        cases = []
        if name == 'GGC_MapClone':
            cases = [(None, None, None)]
        else:
            for c in base:
                cases.append((c, base[c], False))
                if c is not None:
                    cases.append((c, base[c], True))
            for h in sorted({0, 1, 2, 5, 9, BIG} | {h for h in list(base.values())[:2]}):
                cases.append(('Z', h, False))
            if None not in base:
                cases.append((None, 2, False))
        cases = [x + (y,) for x in cases for y in ((val('new'), NULL) if name == 'GGC_MapPut' and len(base) < 4 else (val('new'),))]
        for c, h, other, V in cases:
            hashes = dict(base)
            if name != 'GGC_MapClone':
                hashes[c] = h
            I, st, T, bad = setup(ctx, f, T0, hashes)
            st.env[byn[0]] = T.map
            OUT = ('o', 'result')
            if name != 'GGC_MapClone':
                st.env[byn[1]] = key(c, other)
                if name == 'GGC_MapGet':
                    st.env[byn[2]] = OUT
                    st.mem[OUT] = ('s', 'before')
                else:
                    st.env[byn[2]] = V
                st.env[byn[3]] = ('s', 'hash'); st.env[byn[4]] = ('s', 'cmp')
            before = dict(st.mem)
            sit = desc(T0) + ('' if name == 'GGC_MapClone' else '; key %s with hash %s' % ('null' if c is None else ('a key equal to %s' % c if other else c), h if h < 1 << 60 else 'of many bits')) + (', a null value' if V == NULL else '')
            runs += 1
            try:
                I.run(st)
            except Give as e:
                probs.setdefault('followed', (None, 'the function cannot be followed (%s): %s' % (sit, e)))
                continue
            for i, d in bad:
                probs.setdefault(d, (i, '%s (%s)' % (d, sit)))
            for k, (i, d) in I.bad.items():
                probs.setdefault(k, (i, '%s (%s)' % (d, sit)))
            if not I.ends and not bad and not I.bad:
                probs.setdefault('end', (None, 'the function never returns (%s)' % sit))
            for s, v, t in I.ends:
                d = judge(name, T, T0, s, v, c, h, hashes, before, OUT, V)
                if d:
                    probs.setdefault(d[0], (t, '%s (%s)' % (d[1], sit)))
    for k, (i, d) in sorted(probs.items()):
        ctx.check({'GGC_MapGet': 'get', 'GGC_MapPut': 'put', 'GGC_MapClone': 'clone'}[name], f, k, False, d, i)
    if not probs:
        ctx.check({'GGC_MapGet': 'get', 'GGC_MapPut': 'put', 'GGC_MapClone': 'clone'}[name], f, 'effect and invariant', True)
    ctx.counts['states interpreted'] = runs


def judge(name, T, T0, s, v, c, h, hashes, before, OUT, V):
    have = {k: x for k, _, x in T0[1]}
    if name == 'GGC_MapGet':
        if c in have:
            if v is None or v[0] != 'c' or v[1] & 0xffffffff == 0:
                return ('not found', 'a key which was put is not found')
            if s.mem.get(OUT) != have[c]:
                return ('value', 'the value found is not the one put under the key')
        else:
            if v != NULL:
                return ('found', 'a key which was never put is found')
            if s.mem.get(OUT) != ('s', 'before'):
                return ('written', 'a value is written although nothing was found')
        for k, x in before.items():
            b = base_of(k)
            if b and b[0][0] == 'o' and b[0] != OUT and s.mem.get(k) != x and b[0][1][:4] in ('map', 'tabl', 'entr'):
                return ('changes', 'looking something up changes the map')
        return None
    if name == 'GGC_MapPut':
        r = read(T, s, T.map, hashes)
        if r[0]:
            return (r[0], 'afterwards ' + r[0])
        _, size, used, out, arr, chains = r
        want = dict(have); want[c] = V
        if set(out) - set(want):
            return ('extra', 'afterwards the map has an entry nobody put')
        if set(want) - set(out):
            return ('lost', 'afterwards %s not in the map' % ('the key put is' if c not in out else 'another key is'))
        for k in want:
            if out[k][0] != want[k]:
                return ('value of ' + ('the key' if k == c else 'another key'), 'afterwards %s has another value' % ('the key put' if k == c else 'another key'))
        if used != len(want):
            return ('count', 'afterwards the count is %d, and there are %d entries' % (used, len(want)))
        olds = {k: o for (k, _, _), o in zip(T0[1], T.objs)}
        if c in olds and out[c][1] != olds[c]:
            return ('in place', 'putting a key which is there does not replace its value in place')
        return None
    # clone
    if v is None or v[0] != 'o' or v == T.map:
        return ('fresh', 'the clone is not a new map')
    r = read(T, s, v, hashes)
    if r[0]:
        return (r[0], 'of the clone: ' + r[0])
    _, size, used, out, arr, chains = r
    if T0[0] and size < 1:
        return ('size', 'the clone has no table')
    if {k: x[0] for k, x in out.items()} != have:
        return ('entries', 'the clone does not have the same entries')
    if used != len(have):
        return ('count', 'the clone counts %d entries and has %d' % (used, len(have)))
    if arr == T.arr and T0[0]:
        return ('shared', 'the clone shares its table with the original')
    if {x[1] for x in out.values()} & set(T.objs):
        return ('shared', 'the clone shares an entry with the original')
    for k, x in before.items():
        b = base_of(k)
        if b and b[0] in [T.map, T.arr] + T.objs and s.mem.get(k) != x:
            return ('original', 'cloning changes the original')
    return None


def C21(ctx):
    ctx.rule('get', 'from every state: a key is found exactly if an entry with an equal key is there, with its value, and nothing changes')
    ctx.rule('put', 'from every state: afterwards the key has the value, every other key what it had, each in the bucket its hash selects for the size then, once; the count is right; a key which was there keeps its entry')
    ctx.rule('clone', 'from every state: the result has the same keys and values, its own table and entries, and the original is unchanged')
    ctx.rule('typed', 'typed maps have the members of the generic one at the same places')
    ctx.rule('typed functions', 'each function of a typed map calls the generic one of its name, once, with its arguments in their places and the map\'s hash and comparison, and returns what that returns')
    th = ctx.tier == 'thorough'
    for cfg in CONFS:
        ctx.mods(cfg)
    ctx.par([(operation, cfg, n, th and cfg in ('g1all', 'pms')) for cfg in CONFS for n in ('GGC_MapPut', 'GGC_MapGet', 'GGC_MapClone')])
    confs = [c for c in CONFS if c in rules_types.CONFS]
    ctx.need([(c, rules_types.drv(rules_types.DRV), rules_types.ALLTYPES) for c in confs])
    for cfg in confs:
        rules_types.typedfns(ctx, cfg, 'LMap')
        rules_types.coincide(ctx, cfg)
