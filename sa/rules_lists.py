"""Lists: C20, by abstract interpretation over list shapes: every operation is
interpreted on the empty list and on the list of any positive length."""
from .core import *
from .interp import *

CONFS = ['g2', 'g2all', 'g1all', 'g2dbg', 'pms', 'cxx', 'nognuc', 'cxxnognuc', 'g2ext']


class Shape:
    """lists of unknown contents in an initial state"""

    def __init__(self, I, st):
        m = I.m
        self.I = I; self.st = st
        self.off = {k: m.off('GGC_List__ggggc_struct', k + '__ptr') for k in ('head', 'tail')}
        self.off['length'] = m.off('GGC_List__ggggc_struct', 'length__data')
        self.next = m.off('GGC_ListNode__ggggc_struct', 'next__ptr')
        self.el = m.off('GGC_ListNode__ggggc_struct', 'el__ptr')
        if None in self.off.values() or self.next is None or self.el is None:
            raise Broken('list types not found')
        I.segnext['list'] = (self.next, True)

    def empty(self, L):
        st = self.st
        st.mem[add(L, C(self.off['head']))] = NULL
        st.mem[add(L, C(self.off['tail']))] = NULL
        st.mem[add(L, C(self.off['length']))] = C(0)
        return []

    def full(self, L, tag, mid=False):
        self.I.lencells.add(add(L, C(self.off['length'])))
        return self.full1(L, tag, mid)

    def full1(self, L, tag, mid):
        """any positive number of nodes; with mid: a distinguished node which
        is not the last"""
        st = self.st
        st.nk += 1
        last = ('n', 'last.' + tag, 'gc')
        pre = self.I.newseg(st, 'list', last)
        pieces = [pre, last]
        if mid:
            md = ('n', 'mid.' + tag, 'gc')
            pre2 = self.I.newseg(st, 'list', last)
            st.segs[pre] = ('list', md)
            st.mem[add(md, C(self.next))] = pre2
            pieces = [pre, md, pre2, last]
        st.mem[add(last, C(self.next))] = NULL
        st.mem[add(L, C(self.off['head']))] = pre
        st.mem[add(L, C(self.off['tail']))] = last
        st.mem[add(L, C(self.off['length']))] = lin(sum(1 for p in pieces if p not in st.segs), [(('len', p), 1) for p in pieces if p in st.segs])
        st.orig['list.' + tag] = list(pieces)
        return pieces

    def walk(self, st, L):
        """the pieces from head, or an error"""
        x = st.mem.get(add(L, C(self.off['head'])))
        out = []
        while x is not None and x != NULL:
            if len(out) > 40:
                return out, 'its nodes form a cycle'
            if x in st.segs:
                out.append(x); x = st.segs[x][1]
            elif x[0] in ('n', 'o') and is_gc(x):
                if x in out:
                    return out, 'its nodes form a cycle'
                out.append(x)
                x = st.mem.get(add(x, C(self.next)))
                if x is None and out[-1] in st.zero:
                    x = NULL
            else:
                return out, 'a link leads to %s' % showv(x)
        if x is None:
            return out, 'a link was never set'
        return out, None

    def verify(self, st, L, want, news):
        """None, or what is wrong with the list. want: pieces; news: {index in
        want: value of a new node}"""
        got, err = self.walk(st, L)
        if err:
            return err
        w = []
        for p in want:
            if p[0] == 'new':
                w.append(p); continue
            w.append(p)
        # pieces of the input as they are now
        if len(got) != len(w):
            return 'it has the nodes [%s], not [%s]' % (self.names(got), self.names(w))
        for g, x in zip(got, w):
            if x[0] == 'new':
                if g[0] != 'o' or g in st.segs:
                    return 'it has the nodes [%s], not [%s]' % (self.names(got), self.names(w))
                v = st.mem.get(add(g, C(self.el)), NULL)
                if v != x[1]:
                    return 'the new node holds %s, not the value given' % nameof(self.I, v)
            else:
                if g != x:
                    return 'it has the nodes [%s], not [%s]' % (self.names(got), self.names(w))
                v = st.mem.get(add(g, C(self.el)))
                if v is not None and v != ('s', 'ld', add(g, C(self.el)), 'gc') and g not in st.segs:
                    return 'the value of a node was changed'
        n = lin(sum(1 for p in got if p not in st.segs), [(('len', p), 1) for p in got if p in st.segs])
        ln = st.mem.get(add(L, C(self.off['length'])))
        if ln is None:
            ln = NULL if L in st.zero else None
        if ln != n:
            return 'its length is %s but it has %s nodes' % (showv(ln), showv(n))
        t = st.mem.get(add(L, C(self.off['tail'])))
        if t is None and L in st.zero:
            t = NULL
        if got:
            if got[-1] in st.segs:
                return 'its last node is not known'
            if t != got[-1]:
                return 'its tail is %s, not its last node' % ('null' if t == NULL else nameof(self.I, t) if t else 'unset')
        elif t != NULL:
            return 'it is empty but its tail is not null'
        return None

    def names(self, l):
        o = []
        for x in l:
            if x[0] == 'new': o.append('new')
            elif x[0] == 'seg': o.append('...')
            elif x[0] == 'n': o.append(str(x[1]))
            else: o.append('new')
        return ' '.join(o)


def pieces(st, tag):
    return list(st.orig.get('list.' + tag, []))


def cases(name):
    """(case, setup) for the operation"""
    A = 'to'; B = 'from'
    if name in ('GGC_ListPush', 'GGC_ListUnshift', 'GGC_ListShift', 'GGC_ListToArray'):
        return [('the empty list', 'e', None, None), ('a list of any positive length', 'f', None, None)]
    if name in ('GGC_ListPushList', 'GGC_ListUnshiftList'):
        return [('%s to %s' % (b, a), x, y, None) for a, x in (('empty', 'e'), ('non-empty', 'f')) for b, y in (('empty', 'e'), ('non-empty', 'f'))]
    if name == 'GGC_ListInsertAfter':
        return [('after the last node', 'f', None, 'last'), ('after an earlier node', 'm', None, 'mid')]
    if name == 'GGC_ListInsertAfterList':
        return [('%s after the %s node' % (b, w), x, y, w2) for w, x, w2 in (('last', 'f', 'last'), ('earlier', 'm', 'mid')) for b, y in (('empty', 'e'), ('non-empty', 'f'))]


LISTFNS = ['GGC_ListPush', 'GGC_ListPushList', 'GGC_ListUnshift', 'GGC_ListUnshiftList', 'GGC_ListShift',
           'GGC_ListInsertAfter', 'GGC_ListInsertAfterList', 'GGC_ListToArray']


def interp_list(ctx, f, name, case):
    label, to, frm, aft = case
    I = Interp(ctx, f)
    st = start(f)
    args = {}
    # by position
    byn = {n: a for a, n in f.argids.items()}
    L = ('o', 'to', 'gc'); I.patience = 400; I.maxlen = 4000
    st.env[byn[0]] = L
    sh = Shape(I, st)
    I.barriers = False
    v = None
    F = None
    after = None
    if to == 'e':
        sh.empty(L); st.orig['list.to'] = []
    else:
        p = sh.full(L, 'to', mid=(to == 'm'))
        if aft:
            after = [x for x in p if str(x[1]).startswith(aft)][0]
    I.pinned = {x for x in st.orig['list.to'] if x[0] == 'n'}
    if name in ('GGC_ListPush', 'GGC_ListUnshift'):
        v = ('s', 'value', 'gc'); st.env[byn[1]] = v
    if name in ('GGC_ListPushList', 'GGC_ListUnshiftList'):
        F = ('o', 'from', 'gc'); st.env[byn[1]] = F
    if name == 'GGC_ListInsertAfter':
        st.env[byn[1]] = after; v = ('s', 'value', 'gc'); st.env[byn[2]] = v
    if name == 'GGC_ListInsertAfterList':
        st.env[byn[1]] = after; F = ('o', 'from', 'gc'); st.env[byn[2]] = F
    if F is not None:
        if frm == 'e':
            sh.empty(F); st.orig['list.from'] = []
        else:
            sh.full(F, 'from')
        I.pinned |= {x for x in st.orig['list.from'] if x[0] == 'n'}
    if name == 'GGC_ListToArray':
        array_hooks(I, sh, st, L)
    I.run(st)
    return I, sh, L, F, v, after


def array_hooks(I, sh, st, L):
    """an array is being filled: position by position, from the list"""
    hd = st.mem[add(L, C(sh.off['head']))]
    st.u['next'] = hd
    abase = 16 if I.m.off('GGGGC_Header', 'ggggc_memoryCorruptionCheck') is None else 24
    I.arr = None
    ln = st.mem[add(L, C(sh.off['length']))]
    st.u['total'] = ln
    st.u['len'] = NULL

    def new(I, st, i, args):
        n = args[0]
        I.collect(st, i)
        if n != st.u['total']:
            I.report('array size', i, 'an array of %s elements is made for a list of %s' % (showv(n), showv(st.u['total'])))
        o = ('o', 'array', 'gc')
        st.u['fresh'] = frozenset({o})
        st.zero = set(st.zero) | {o}
        return [(st, o)]
    I.calls['ggggc_mallocPointerArray'] = new

    def onstore(I, st, i, a, v):
        c, p = parts_of(a)
        o = ('o', 'array', 'gc')
        if o not in p:
            return None
        base = abase
        idx = sub(a, add(o, C(base)))
        want = lin(0, [(st.u['len'], 8)])
        nx = st.u['next']
        if idx != want:
            I.report('array place', i, 'element %s of the list is stored at offset %s of the array\'s elements' % (showv(st.u['len']), showv(idx)))
            return []
        if nx in st.segs or nx == NULL or nx[0] != 'n':
            I.report('array element', i, 'what is stored in the array is not the next element of the list')
            return []
        e = add(nx, C(sh.el))
        if v != st.mem.get(e, ('s', 'ld', e, 'gc')):
            I.report('array element', i, 'the element stored in the array is not that of the next node')
            return []
        st.u['next'] = st.mem[add(nx, C(sh.next))]
        st.u['len'] = add(st.u['len'], C(1))
        return [st]
    I.onstore = onstore


def ops(ctx, cfg):
    ctx.rule('list', 'interpreted on the empty list and on a list of any length, the operation leaves head, tail, links and length describing exactly the sequence it is to produce')
    for name in LISTFNS:
        f = ctx.func(cfg, name)
        for case in cases(name):
            try:
                I, sh, L, F, v, after = interp_list(ctx, f, name, case)
            except Give as e:
                ctx.check('list', f, case[0], False, 'the shape of the list cannot be followed: %s' % e)
                continue
            bad = None
            for k, (i, d) in I.bad.items():
                bad = bad or (i, d)
            if not bad and not I.ends:
                bad = (None, 'the operation never returns')
            if not bad:
                for st, rv, ri in I.ends:
                    T = pieces(st, 'to'); FR = pieces(st, 'from')
                    want = T; wf = [] if F is not None else None
                    err = None
                    if name == 'GGC_ListPush': want = T + [('new', v)]
                    elif name == 'GGC_ListUnshift': want = [('new', v)] + T
                    elif name == 'GGC_ListPushList': want = T + FR
                    elif name == 'GGC_ListUnshiftList': want = FR + T
                    elif name == 'GGC_ListInsertAfter':
                        k = T.index(after); want = T[:k + 1] + [('new', v)] + T[k + 1:]
                    elif name == 'GGC_ListInsertAfterList':
                        k = T.index(after); want = T[:k + 1] + FR + T[k + 1:]
                    elif name == 'GGC_ListShift':
                        if T:
                            if T[0] in st.segs:
                                err = 'an end is reached without looking at the first node'
                            else:
                                e = add(T[0], C(sh.el))
                                want = T[1:]
                                if rv != ('s', 'ld', e, 'gc'):
                                    err = 'what is returned is %s, not the first element' % ('null' if rv == NULL else showv(rv))
                        elif rv != NULL:
                            err = 'something is returned from an empty list'
                    elif name == 'GGC_ListToArray':
                        if st.u['next'] != NULL:
                            err = 'not every element is stored in the array'
                        elif rv != ('o', 'array', 'gc'):
                            err = 'the array is not what is returned'
                    err = err or sh.verify(st, L, want, None)
                    if F is not None and not err:
                        e = sh.verify(st, F, [], None)
                        if e:
                            err = 'the source list: ' + e
                    if err:
                        bad = (ri, err)
                        break
            ctx.check('list', f, case[0], bad is None, '%s: %s' % (case[0], bad[1]) if bad else '', where=bad[0] if bad and bad[0] is not None else None)


def unlink_own(ctx, cfg):
    """resuming takes exactly the thread's own entries off the lists of
    blocked threads, wherever they stand"""
    ctx.rule('unlink', 'interpreted with the thread\'s own entry alone, first, in the middle and last on each list of blocked threads: exactly that entry is removed')
    pre = ctx.func(cfg, 'ggc_pre_blocking'); f = ctx.func(cfg, 'ggc_post_blocking')
    m = f.mod
    heads = {}
    for i, a, v in stores(pre):
        if a[0] == 'g' and 'blockedThread' in a[1] and v[0] == 'g':
            S = None
            for st_, fl in (('GGGGC_PoolList', 'pool'), ('GGGGC_PointerStackList', 'pointerStack'), ('GGGGC_JITPointerStackList', 'cur')):
                if {'Pool0s': 'pool', 'dPointerStacks': 'pointerStack', 'JITPointerStacks': 'cur'}.get(a[1].replace('ggggc_blockedThread', '').replace('PointerStacks', 'dPointerStacks').replace('JITdPointerStacks', 'JITPointerStacks')) == fl:
                    S = st_
            heads[a] = (v, m.off(S, 'next') if S else 0)
    want = {('g', 'ggggc_blockedThreadPool0s'), ('g', 'ggggc_blockedThreadPointerStacks')}
    if m.off('GGGGC_JITPointerStackList', 'next') is not None:
        want.add(('g', 'ggggc_blockedThreadJITPointerStacks'))
    if not want <= set(heads):
        ctx.check('unlink', pre, 'own entries', False, 'blocking does not put an entry of the thread\'s own on %s' % ', '.join(sorted(x[1] for x in want - set(heads))))
        return
    POS = ('alone', 'first', 'middle', 'last')
    for h in sorted(want):
        for pos in POS:
            I = Interp(ctx, f); I.barriers = False; I.patience = 60
            st = start(f)
            full = {}; pins = set(); I.pinned = pins
            for h2 in want:
                own, no = heads[h2]
                lab = 'l%d' % no + h2[1]
                I.segnext[lab] = (no, False)
                p2 = pos if h2 == h else 'alone'
                pieces = []
                if p2 == 'alone':
                    st.mem[h2] = own; st.mem[add(own, C(no))] = NULL
                    pieces = [own]
                else:
                    a = ('o', 'a' + h2[1]); z = ('o', 'z' + h2[1])
                    if p2 == 'first':
                        seg = I.newseg(st, lab, z)
                        st.mem[h2] = own; st.mem[add(own, C(no))] = seg; st.mem[add(z, C(no))] = NULL
                        pieces = [own, seg, z]
                    elif p2 == 'last':
                        seg = I.newseg(st, lab, z)
                        st.mem[h2] = seg; st.mem[add(z, C(no))] = own; st.mem[add(own, C(no))] = NULL
                        pieces = [seg, z, own]
                    else:
                        seg = I.newseg(st, lab, a)
                        seg2 = I.newseg(st, lab, z)
                        st.mem[h2] = seg; st.mem[add(a, C(no))] = own; st.mem[add(own, C(no))] = seg2; st.mem[add(z, C(no))] = NULL
                        pieces = [seg, a, own, seg2, z]
                    pins |= {a, z}
                pins.add(own)
                st.orig[lab + '.x'] = pieces
                full[h2] = lab
            I.havoc = lambda st, i, args: None

            def trylock(I, st, i, args):
                b = st.copy()
                return [(st, NULL), (b, C(16))]
            I.calls['pthread_mutex_trylock'] = trylock
            err = None; wh = None
            try:
                I.run(st)
            except Give as e:
                err = 'the list cannot be followed: %s' % e
            for k, (i, d) in I.bad.items():
                if err is None: err, wh = d, i
            if not err and not I.ends:
                err = 'it never returns'
            for s, v, ri in I.ends:
                if err: break
                for h2 in want:
                    own, no = heads[h2]
                    w = [x for x in s.orig[full[h2] + '.x'] if x != own]
                    got = []; x = s.mem.get(h2)
                    while x not in (None, NULL) and len(got) < 30 and x not in got:
                        got.append(x)
                        x = s.segs[x][1] if x in s.segs else s.mem.get(add(x, C(no)))
                    if own in got:
                        err = 'its entry stays on %s' % h2[1]
                    elif x is None:
                        err = '%s is left with an unset link' % h2[1]
                    elif got != w:
                        err = 'entries of other threads are lost from %s' % h2[1]
                    wh = ri
            ctx.check('unlink', f, '%s, own entry %s' % (h[1], pos), err is None, err or '', where=wh)


def C20(ctx):
    for cfg in CONFS:
        ops(ctx, cfg)
    from . import rules_types
    ctx.rule('typed', 'typed lists have the members of the generic ones at the same places')
    ctx.rule('typed functions', 'each function of a typed list calls the generic one of its name, once, with its arguments in their places, and returns what that returns')
    confs = [c for c in CONFS if c in rules_types.CONFS] or ['g2']
    ctx.need([(c, rules_types.drv(rules_types.DRV), rules_types.ALLTYPES) for c in confs])
    for cfg in confs:
        rules_types.typedfns(ctx, cfg, 'DNodeList')
        rules_types.coincide(ctx, cfg)
