"""Interpretation of one round of a collector's loop (or of one of its
functions) on a small symbolic heap: objects and pools are symbols of known
alignment, which pool an object lies in is given, the contents of the words
that matter are cells; everything else is unknown."""
from .core import *
from .interp import *
from . import interp


class Heap(Interp):
    def __init__(self, ctx, f):
        super().__init__(ctx, f)
        self.barriers = False; self.patience = 1000
        self.poolof = {}         # object -> pool
        self.align = {}          # symbol -> alignment (default 8 for objects)
        c = f.mod.consts
        self.PB = c['GGGGC_POOL_BYTES']
        self.calls['llvm.assume'] = lambda I, st, i, args: [(st, NULL)]

    def arith(self, op, a, b, w):
        if a[0] == 'c' and b[0] != 'c' and op in ('and', 'or', 'xor'):
            a, b = b, a
        if b[0] == 'c' and op in ('and', 'or', 'xor') and a[0] in ('lin', 'o', 's', 'al', 'g'):
            c, p = parts_of(a)
            m = b[1] & M64
            al = None
            for t, k in p.items():
                x = self.alignof(t) * (k & -k)
                al = x if al is None else min(al, x)
            if op == 'and':
                if al and m < al:
                    return C(c & m)
                inv = ~m & M64
                if al and inv < al:
                    return add(a, C(-(c & inv)))
                if inv == self.PB - 1 and len(p) == 1:
                    (t, k), = p.items()
                    if k == 1 and t in self.poolof and 0 <= c < 4096:
                        return self.poolof[t]
                    if k == 1 and t in self.poolof.values() and 0 <= c < self.PB:
                        return t
            elif al and 0 <= m < al:
                d = c & (al - 1)
                return add(a, C(((d | m) if op == 'or' else (d ^ m)) - d))
        if op == 'and' and b[0] == 'c' and a[0] == 'lshr' or op == 'and' and a[0] == 'c' and b[0] == 'lshr':
            if a[0] == 'c':
                a, b = b, a
            c, p = parts_of(a[1])
            al = min([self.alignof(t) * (k & -k) for t, k in p.items()] or [1])
            m = b[1] & M64
            if m << a[2] < al:
                return C((c >> a[2]) & m)
        return super().arith(op, a, b, w)

    def cmp(self, st, pred, a, b, i=None):
        # places in the same object are in the order of their offsets
        if pred in ('ult', 'slt') and a[0] != 'c' and b[0] != 'c':
            x, y = base_of(a), base_of(b)
            if x and y and x[0] == y[0] and x[0][0] in ('o', 'al', 'g'):
                return [(st, sgn64(x[1]) < sgn64(y[1]))]
        return super().cmp(st, pred, a, b, i)

    def alignof(self, t):
        if t in self.align:
            return self.align[t]
        if t in self.poolof.values():
            return self.PB
        return 8 if t[0] in ('o', 'al', 'g') else 1


def header_state(I, blk, preset):
    """a state at the start of a block: the values live into it, as given
    (by term), or unknown"""
    f = I.f
    st = State()
    for a, n in f.argids.items():
        st.env[a] = ('s', 'arg', n)
    for k in I._live[blk]:
        t = f.vterm(k)
        if k in preset:
            v = preset[k]
        elif t in preset:
            v = preset[t]
        elif t[0] in ('al', 'g', 'c'):
            v = t
        else:
            v = computed(I, st, k, preset) or ('any', 'in%d' % k)
        st.env[k] = v
    return st


PURE = ('icmp', 'add', 'sub', 'and', 'or', 'xor', 'zext', 'sext', 'trunc', 'shl', 'lshr', 'getelementptr', 'mul')


def computed(I, st, k, preset, depth=6):
    """the value of a variable set before the block, from those given"""
    f = I.f
    if k in preset:
        return preset[k]
    t = f.vterm(k)
    if t in preset:
        return preset[t]
    i = f.ins.get(k)
    if i is None or depth == 0 or i.op not in PURE:
        return None
    s = st.copy()
    for o in list(i.ops) + ([i.d['gep']['base']] + [x[1] for x in i.d['gep']['var']] if 'gep' in i.d else []):
        if o[0] == 'v' and o[1] not in s.env:
            v = computed(I, st, o[1], preset, depth - 1)
            if v is None:
                return None
            s.env[o[1]] = v
    r = I.step(s, i)
    return r[0].env.get(k) if len(r) == 1 else None
