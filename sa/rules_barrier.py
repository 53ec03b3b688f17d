"""The write barrier: C03. A forward analysis of which objects' cards have
been marked (or need not be: youngest generation, or freshly allocated) since
the last point which may collect; every reference stored into a collected
object must be covered before the next such point or return."""
import os
from .core import *
from .trav import *
from .rules_sync import *
from .rules_stale import Stale, INSIDE
from .interp import FRESH, gctype
from . import build

CONFS = ['g2', 'g2all', 'g2ext', 'g3all', 'g2dbg', 'cxx', 'nognuc', 'cxxnognuc', 'malloc', 'sbrk', 'mmap']
WRITES = os.path.join(build.DRIVERS, 'writes.c')


def unmask(t):
    return t[1] if t[0] == 'and' and t[2] > (1 << 63) and ((~t[2]) & M64) >= 0xfff else None


class Barrier:
    def __init__(self, ctx, f):
        self.ctx = ctx; self.f = f; self.m = f.mod
        self.gen = self.m.off('GGGGC_Pool', 'gen'); self.gensz = self.m.fsize('GGGGC_Pool', 'gen')
        self.rem = self.m.off('GGGGC_Pool', 'remember')
        cb = self.m.consts.get('GGGGC_CARD_BYTES', 4096)
        self.shift = cb.bit_length() - 1
        self.ncards = self.m.consts.get('GGGGC_CARDS_PER_POOL')
        self.bad = {}; self.nst = 0; self.marks = 0
        self.S = Stale(ctx, f)

    def mark_of(self, i, a, v):
        """the object whose card a store marks, None, or 'wrong'"""
        if i.d.get('sz') != 1:
            return None
        c, p = parts_of(a)
        pool = [t for t, k in p.items() if k == 1 and unmask(t)]
        if not pool or c != self.rem:
            return None
        if not (v[0] == 'c' and v[1] & 0xff):
            return ('value', None)
        for t in pool:
            o = unmask(t)
            rest = dict(p); del rest[t]
            card = lin(0, rest)
            if card == mk_and(mk_lshr(o, self.shift), self.ncards - 1):
                return ('ok', o)
        return ('wrong', pool[0])

    def ref_store(self, i, a, v):
        """the object a reference is stored into, or None"""
        f = self.f
        if v == NULL or i.d.get('sz', 8) != 8 or v[0] == 'c':
            return None
        c, p = parts_of(a)
        if any(unmask(t) for t in p):
            return None
        bases = [t for t, k in p.items() if k == 1 and t[0] not in ('al', 'g', 'c')]
        if not bases:
            return None
        objs = [b for b in bases if self.isobj(b)]
        if not objs:
            return None
        # is what is stored a reference?
        isref = False
        for tid in f.objtypes(a):
            if gctype(self.m, tid):
                isref = True
            n = self.m.tname(tid)
            if n == 'GGGGC_Header':
                isref = True
        if i.ops[0][0] == 'v' and i.ops[0][1] in self.S.gc:
            isref = True
        return objs[0] if isref else None

    def isobj(self, b):
        if b[0] == 'call' and b[2] in FRESH:
            return True
        if any(self.m.is_gc_struct(n) for n in self.f.ptypes(b)):
            return True
        return False

    def kills(self, t, pred):
        return any(pred(x) for x in subterms(t))

    def run(self):
        f = self.f
        ins = {f.entry: (frozenset(), frozenset(), frozenset())}
        work = [f.entry]
        n = 0
        while work:
            b = work.pop(0); n += 1
            if n > 5000:
                break
            cov, pend, eq = self.block(b, *ins[b])
            for s in f.lsucc(b):
                self.eq = set(eq)
                c2 = set(cov); p2 = set(pend); e2 = set(eq)
                for t in self.edge(b, s):
                    c2.add(t); c2.add(self.canon(t)); self.close(c2)
                phis = {i.id for i in f.blocks[s] if i.op == 'phi'}
                if phis:
                    k = lambda x: x[0] in ('phi', 'cur') and x[1] in phis
                    c2 = {t for t in c2 if not self.kills(t, k)}
                    e2 = {(x, y) for x, y in e2 if not self.kills(y, k)}
                    for o, w in list(p2):
                        if self.kills(o, k):
                            p2.discard((o, w)); self.fail(o, w)
                p2 = {(o, w) for o, w in p2 if not self.covered(o, c2)}
                new = (frozenset(c2), frozenset(p2), frozenset(e2))
                if s in ins:
                    old = ins[s]
                    m = (old[0] & new[0], old[1] | new[1], old[2] & new[2])
                    if m == old:
                        continue
                    ins[s] = m
                else:
                    ins[s] = new
                if s not in work:
                    work.append(s)

    def close(self, cov):
        n = -1
        while n != len(cov):
            n = len(cov)
            for x, y in self.eq:
                if x in cov: cov.add(y)
                elif y in cov: cov.add(x)

    def covered(self, o, cov):
        return o in cov or self.canon(o) in cov or any(x == o and y in cov for x, y in self.eq)

    def canon(self, t):
        d = {}
        for x, y in sorted(self.eq, key=repr):
            d.setdefault(x, y)
        for _ in range(4):
            n = subst(t, d)
            if n == t:
                break
            t = n
        return t

    def edge(self, a, b):
        f = self.f
        ec = f.edge_cond(a, b)
        out = []
        for at in f.bdd.support(ec):
            for x in subterms(at) if isinstance(at, tuple) else ():
                if x[0] == 'ld' and parts_of(x[1])[0] == self.gen:
                    p = list(parts_of(x[1])[1])
                    if len(p) == 1 and unmask(p[0]):
                        lit = f.cmp('eq', x, NULL)
                        if f.bdd.implies(ec, lit):
                            out.append(unmask(p[0]))
        return out

    def fail(self, o, w):
        i = self.f.ins[w]
        self.bad.setdefault(('unmarked', show(o, self.f)), (i, 'a reference is stored into %s, and on some path its card is not marked although it may be old' % show(o, self.f)))

    def block(self, b, cov, pend, eq):
        f = self.f
        cov = set(cov); pend = set(pend); self.eq = set(eq)
        for i in f.blocks[b]:
            if i.op == 'store':
                a = f.term(i.ops[1]); v = f.term(i.ops[0])
                mk = self.mark_of(i, a, v)
                if mk:
                    self.marks += 1
                    if mk[0] == 'ok':
                        cov.add(mk[1]); cov.add(self.canon(mk[1])); self.close(cov)
                        pend = {(x, w) for x, w in pend if not self.covered(x, cov)}
                    elif mk[0] == 'wrong':
                        self.bad.setdefault(('card', show(mk[1], f)), (i, 'the card marked, %s, is not that of the object' % show(a, f)))
                    continue
                o = self.ref_store(i, a, v)
                if o is not None:
                    self.nst += 1
                    if not self.covered(o, cov):
                        pend.add((o, i.id))
                raw = v
                v = self.canon(v)
                # what was read from here is no longer what is here
                def dep(t):
                    return self.kills(t, lambda x: x[0] == 'ld' and x[1] == a)
                if dep(raw):
                    raw = None
                if dep(v):
                    v = None
                cov = {t for t in cov if not dep(t)}
                self.eq = {(x, y) for x, y in self.eq if not dep(x) and not dep(y)}
                for o, w in list(pend):
                    if dep(o):
                        pend.discard((o, w))
                        self.fail(o, w)
                if a[0] == 'al' and i.d.get('sz') == 8:
                    for x in (v, raw):
                        if x is not None:
                            self.eq.add((ld(a), x))
                    self.close(cov)
            elif i.is_call():
                c = i.callee() or ''
                if c.startswith('llvm.'):
                    continue
                if collects(self.ctx, f, i):
                    for o, w in pend:
                        self.fail(o, w)
                    pend = set(); cov = set(); self.eq = set()
                if c in FRESH:
                    cov.add(('call', i.id, c))
            elif i.op == 'ret':
                for o, w in pend:
                    self.fail(o, w)
                pend = set()
        return frozenset(cov), frozenset(pend), frozenset(self.eq)


def barriers(ctx, funcs):
    ctx.rule('barrier', 'between two points which may collect, every reference stored into a collected object comes with a mark of that object\'s card in its pool\'s remembered set, unless the object\'s generation was seen to be the youngest or it has only just been allocated')
    for f in funcs:
        if f.name in INSIDE or f.name in ('ggggc_yield',):
            continue
        s = Barrier(ctx, f)
        if s.gen is None or s.rem is None:
            # a unit which never looks at pools cannot have a barrier
            if any(s.ref_store(i, a, v) is not None for i, a, v in stores(f)) :
                pass
            else:
                continue
        s.run()
        if s.nst and not s.bad:
            ctx.check('barrier', f, '%d stores' % s.nst, True)
        for (k, n), (i, d) in s.bad.items():
            ctx.check('barrier', f, '%s %s' % (k, n), False, d, where=i)


# driver: (struct, field) of the store expected; index scaled
FORMS = {
    'gd_wp_first': ('DNode__ggggc_struct', 'first__ptr'),
    'gd_wp_any': ('DNode__ggggc_struct', 'any__ptr'),
    'gd_wp_far1': ('DFar__ggggc_struct', 'far1__ptr'),
    'gd_wp_far3': ('DFar__ggggc_struct', 'far3__ptr'),
    'gd_wap': ('DNode__ggggc_parray', 'a__ptrs'),
    'gd_wup': ('GGGGC_Descriptor', 'user__ptr'),
    'gd_cxx_member': ('DNode__ggggc_struct', 'first__ptr'),
    'gd_cxx_far3': ('DFar__ggggc_struct', 'far3__ptr'),
    'gd_cxx_put': ('DNode__ggggc_parray', 'a__ptrs'),
}


def formname(n):
    for k in FORMS:
        if n == k or (n.startswith('_Z') and k in n):
            return k
    return None


def forms(ctx, cfg):
    ctx.rule('form', 'each public form of storing a reference stores the value given, in the member or element named, on every path')
    m = ctx.mod(cfg, WRITES)
    fs = []
    for n, f in m.funcs.items():
        k = formname(n)
        if k is None:
            continue
        f.cfg = cfg
        fs.append(f)
        st, fl = FORMS[k]
        off = m.off(st, fl)
        if off is None and k == 'gd_cxx_member' or off is None:
            off = drv_off(m, st, fl)
        if off is None:
            ctx.check('form', f, 'member offset', False, '%s has no member %s' % (st, fl))
            continue
        o = ('arg', 0)
        if k == 'gd_wup': o = ld(o)
        if k == 'gd_cxx_put': o = ld(o)
        want = lin(off, [(o, 1)] + ([(('arg', 2), 8)] if fl == 'a__ptrs' else []))
        hits = [i for i, a, v in stores(f) if a == want and v == ('arg', 1)]
        rets = [b for b in f.order if f.term_instr(b).op == 'ret']
        bad = must_pass(f, [f.entry], rets, {i.blk for i in hits})
        if hits and hits[0].blk == f.entry or any(i.blk in rets for i in hits) and len(rets) == 1:
            bad = None
        ctx.check('form', f, 'the store', bool(hits) and bad is None, 'the value is not stored at %s on every path' % show(want, f))
    return fs


def drv_off(m, st, fl):
    for n in m.structs:
        if n.endswith(st.split('__')[0] + '__ggggc_struct'):
            o = m.off(n, fl)
            if o is not None:
                return o
    return None


def C03(ctx):
    for cfg in CONFS:
        fs = forms(ctx, cfg)
        for f in fs:
            s = Barrier(ctx, f)
            s.run()
            if s.nst == 0:
                ctx.check('barrier', f, 'no store', False, 'no reference is stored')
        barriers(ctx, fs + ctx.funcs(cfg))
    for cfg in ('g1all', 'pms', 'pmsall'):
        forms(ctx, cfg)
