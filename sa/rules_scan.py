"""C08: the words of an object which are visited are exactly those its
descriptor names. The loop over an object's words is interpreted in a finite
abstract domain: the position of the word in its map word (0..63), and every
other loop variable relative to it (map-word index minus word index / 64, bits
shifted out so far). The interpretation ends when an abstract state recurs,
which covers objects of every size."""
from .core import *
from .trav import *
from .rules_roots import GEMBC, PMS, slot_lits
from . import rules_roots

W = 64


class Scan:
    """a loop over the words of an object: loop, the walk, the object, its
    descriptor and the effects"""
    def __init__(self, f, loop, walk, desc, obj):
        self.f = f; self.loop = loop; self.walk = walk; self.desc = desc; self.obj = obj


def desc_size(f, t):
    """t is d->size of a descriptor d (or of a plausible one): d"""
    if t[0] == 'ld':
        return f.asfield(t[1], 'GGGGC_Descriptor', 'size')
    return None


def map_elem(f, t):
    """t loads from a descriptor's reference map: (descriptor, byte offset into
    the map, load size)"""
    if t[0] != 'ld':
        return None
    m = f.mod
    fn = 'pointers' if m.off('GGGGC_Descriptor', 'pointers') is not None and m.off('GGGGC_Descriptor', 'tags') is None else None
    po = m.off('GGGGC_Descriptor', 'pointers')
    to = m.off('GGGGC_Descriptor', 'tags')
    o = po if po is not None else to
    if o is None:
        return None
    c, p = parts_of(t[1])
    for b, k in p.items():
        if k == 1 and 'GGGGC_Descriptor' in f.ptypes(b):
            rest = dict(p); del rest[b]
            if c < o:
                continue
            return b, lin(c - o, rest), t[2]
    return None


def exttag(f):
    return f.mod.off('GGGGC_Descriptor', 'tags') is not None and f.mod.off('GGGGC_Descriptor', 'pointers') is None


def scan_loops(f):
    """innermost loops which go through the words of an object up to its
    descriptor's size"""
    out = []
    for l in f.loops().values():
        if l.header not in f.live_blocks():
            continue
        for w in f.ind_walks(l):
            for a, K in w['tests']:
                # the bound is a descriptor's size, for an index...
                d = desc_size(f, K)
                if d is not None and w['step'] == 1:
                    out.append((l, w, d, 'index'))
                    break
                # ...or an object's end, for a pointer
                c, p = parts_of(K)
                hit = None
                for t, k in p.items():
                    if k == 8 and desc_size(f, t) is not None:
                        hit = desc_size(f, t)
                if hit is not None and w['step'] == 8:
                    out.append((l, w, hit, 'pointer'))
                    break
    return out


def evalt(t, env):
    return subst(t, env)


def interpret(f, loop, walk, kind, desc, on_state):
    """run the abstract interpretation. on_state(w, env, blockconds) is called
    for each abstract state, with the reach conditions of the body's blocks in
    that state. Returns the number of states or an error text"""
    B = f.bdd
    k = walk['cur']
    hdr = [x for x in f.header_cursors(loop)]
    infs = {x: f.cursor(x) for x in hdr}
    env = {}
    for x in hdr:
        init = infs[x].get('init')
        if init is None:
            init = ('k', 'init%d' % x[1])
        env[x] = init
    # word number of the walk: its value for an index; for a pointer, the
    # distance from the walk's bound minus the size
    w0 = env[k]
    if kind == 'index':
        if w0[0] != 'c' or w0[1] not in (0, 1):
            return 'the words are gone through from %s' % show(w0, f)
        w = w0[1]
    else:
        end = [K for a, K in walk['tests'] if True][0]
        # end = obj + 8*size
        c, p = parts_of(end)
        obj = None
        rest = {t: kk for t, kk in p.items() if not (kk == 8 and desc_size(f, t) == desc)}
        obj = lin(c, rest)
        d = sub(w0, obj)
        if d[0] != 'c' or d[1] not in (0, 8):
            return 'the words are gone through from %s' % show(w0, f)
        w = d[1] // 8
    start = w
    order = topo(f, loop)
    if order is None:
        return 'inner loops in the scan'
    # only loop variables the map test or the addresses depend on matter
    need = relevant(f, loop, hdr)
    env = {x: v for x, v in env.items() if x in need}
    seen = set()
    env0 = dict(env)
    n = 0
    while True:
        q, r = divmod(w, W)
        st = (r, tuple(sorted((x[1], relat(f, v, q, desc)) for x, v in env.items())))
        if st in seen:
            # variables too narrow for the objects a pool can hold?
            maxw = f.mod.consts.get('GGGGC_POOL_BYTES', 1 << 24) // 8
            for x, v in env.items():
                wd = infs[x]['phi'].d.get('w') or 64
                if isinstance(v, tuple) and v[0] == 'c' and wd < 64 and w > 64 and env0.get(x) != v and v[1] >= 1:
                    if v[1] * maxw // w >= 1 << wd:
                        return 'a loop variable has %d bits, too few for the words of a large object' % wd
            return n
        seen.add(st)
        n += 1
        if n > 400:
            return 'no fixed point'
        conds, phis, nexts = body(f, loop, order, env, walk)
        err = on_state(w, env, conds, phis)
        if err:
            return err
        # next state
        nenv = {}
        for x in env:
            vals = set()
            ph = infs[x]['phi']
            if infs[x].get('load') is not None:
                return 'unsupported cursor'
            for o, p in ph.d['inc']:
                if p not in loop.blocks:
                    continue
                for c, t in valat(f, loop, f.term(o), phis, env, p, conds):
                    if c != B.false:
                        vals.add(t)
            if len(vals) != 1:
                return 'a loop variable (%s) takes different values depending on what was found' % show(x, f)
            nenv[x] = vals.pop()
        env = nenv
        w += 1


def relevant(f, loop, hdr):
    """header variables on which in-body conditions on the map, or the walk
    itself, depend"""
    need = set()
    seen = set()

    def visit(t):
        if t in seen:
            return
        seen.add(t)
        if t in hdr:
            if t not in need:
                need.add(t)
                ph = f.curinfo[t]['phi']
                for o, p in ph.d['inc']:
                    if p in loop.blocks:
                        visit(f.term(o))
            return
        if t[0] == 'phi':
            ins = f.ins[t[1]]
            if ins.blk in loop.blocks:
                for o, p in ins.d['inc']:
                    visit(f.term(o))
            return
        for x in subterms(t):
            if x is not t and x not in seen and (x[0] in ('cur', 'phi') or x in hdr):
                visit(x)
    for b in loop.blocks:
        t = f.term_instr(b)
        if t.op == 'br' and len(t.ops) == 3:
            for at in f.bdd.support(f.cond(t.ops[0])):
                # only conditions on the object's or the map's words
                for x in at[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str) and mapdep(f, loop, x, hdr):
                        visit(x)
    return need


def mapdep(f, loop, t, hdr, depth=0):
    """does the term depend on the descriptor's map or the position?"""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if map_elem(f, x) is not None:
            return True
        if x in hdr:
            inf = f.cursor(x)
            if inf['kind'] == 'ind' and inf['step'] in (1, 8, -1, -8):
                return True
            for y in inf.get('nexts', ()):
                st.append(y)
            if inf.get('init') is not None:
                st.append(inf['init'])
        elif x[0] == 'phi' and f.ins[x[1]].blk in loop.blocks:
            for o, p in f.ins[x[1]].d['inc']:
                st.append(f.term(o))
        else:
            for y in subterms(x):
                if y is not x:
                    st.append(y)
    return False


def relat(f, v, q, desc):
    """a value relative to the map word q the walk is in"""
    out = []
    if v[0] == 'c':
        return ('n', v[1] - q, v[1] % W) if False else ('c', v[1] - q * W, v[1] - q) [0:1] + (min((abs(v[1] - q * W), v[1] - q * W), (abs(v[1] - q), v[1] - q))[1],)
    def rel(t):
        me = map_elem(f, t)
        if me is not None and me[1][0] == 'c':
            return ('map', repr(me[0]), me[1][1] - (q * 8 if me[2] == 8 else q * W), me[2])
        if t[0] == 'lshr':
            return ('lshr', rel(t[1]), t[2])
        if t[0] == 'and':
            return ('and', rel(t[1]), t[2])
        if t[0] == 'lin':
            c = t[1]
            ms = [x for x in (c - 8 * q, c - 512 * q, c - 64 * q, c)]
            return ('lin', min(ms, key=abs), tuple((repr(rel(u)), k) for u, k in t[2]))
        if t[0] == 'op':
            return tuple(rel(x) if isinstance(x, tuple) else x for x in t)
        return repr(t)
    return repr(rel(v))


def topo(f, loop):
    """the body's blocks in order, header first; None if there are inner loops"""
    if loop.children:
        return None
    out = []; seen = set()

    def go(b):
        seen.add(b)
        for s in f.lsucc(b):
            if s in loop.blocks and s != loop.header and s not in seen:
                go(s)
        out.append(b)
    go(loop.header)
    return out[::-1]


def evalcond(f, c, env, phis):
    """a condition with the state's values put in"""
    B = f.bdd
    if c <= 1:
        return c
    memo = {}

    def go(x):
        if x <= 1:
            return x
        if x in memo:
            return memo[x]
        v, h, l = B.node(x)
        at = B.atom(v)
        r = B.ite(atomval(f, at, env, phis), go(h), go(l))
        memo[x] = r
        return r
    return go(c)


def atomval(f, at, env, phis):
    B = f.bdd

    def ev(t):
        t = subst(t, env)
        mp = {x: phis[x][0][1] for x in subterms(t) if x in phis and len(phis[x]) == 1}
        return subst(t, mp) if mp else t
    if at[0] == 'eq0':
        vs = expand(f, at[1], env, phis)
        r = B.false
        for c, t in vs:
            r = B.or_(r, B.and_(c, f.cmp('eq', norm(t), NULL)))
        return r
    if at[0] in ('eq', 'ult', 'slt'):
        r = B.false
        for c1, a in expand(f, at[1], env, phis):
            for c2, b in expand(f, at[2], env, phis):
                a2, b2 = norm(a), norm(b)
                if at[0] != 'eq' and a2[0] == 'c' and b2[0] == 'c':
                    v = B.true if a2[1] < b2[1] else B.false
                else:
                    v = f.cmp(at[0], a2, b2)
                r = B.or_(r, B.and_(B.and_(c1, c2), v))
        return r
    return B.var(at)


def norm(t):
    """fold operations on known amounts"""
    if t[0] == 'op':
        a, b = norm(t[2]), norm(t[3]) if len(t) > 3 else None
        if t[1] == 'lshr' and b and b[0] == 'c':
            return mk_lshr(a, b[1])
        if t[1] == 'shl' and b and b[0] == 'c':
            return lin(0, [(a, 1 << (b[1] & 63))])
        if t[1] == 'and':
            if b[0] == 'c': return mk_and(a, b[1])
            if a[0] == 'c': return mk_and(b, a[1])
        if t[1] == 'mul' and b and b[0] == 'c':
            return lin(0, [(a, b[1])])
        return ('op', t[1], a, b) if len(t) == 4 else t
    if t[0] == 'and':
        return mk_and(norm(t[1]), t[2])
    if t[0] == 'lshr':
        return mk_lshr(norm(t[1]), t[2])
    if t[0] == 'lin':
        return lin(t[1], [(norm(u), k) for u, k in t[2]])
    if t[0] == 'ld':
        return ('ld', norm(t[1]), t[2])
    return t


def expand(f, t, env, phis):
    """the values of a term in the state: [(condition, term)]"""
    B = f.bdd
    t = subst(t, env)
    ps = [x for x in subterms(t) if x[0] == 'phi' and x in phis]
    if not ps:
        return [(B.true, norm(t))]
    p = ps[0]
    out = []
    for c, v in phis[p]:
        for c2, v2 in expand(f, subst(t, {p: v}), env, phis):
            out.append((B.and_(c, c2), v2))
    return out


def valat(f, loop, t, phis, env, p, conds):
    B = f.bdd
    out = []
    for c, v in expand(f, t, env, phis):
        out.append((B.and_(c, conds.get(p, B.false)), v))
    return out


def body(f, loop, order, env, walk):
    """conditions of the body's blocks, and the values of its merges, in a
    state; the walk's own test says that it goes on"""
    B = f.bdd
    conds = {b: B.false for b in order}
    conds[loop.header] = B.true
    phis = {}
    exits = {(a, b) for a, b in loop.exits}
    pre = {}
    for b in order:
        # merges here
        for i in f.blocks[b]:
            if i.op != 'phi':
                break
            t = f.vterm(i.id)
            if t[0] == 'phi' and b != loop.header:
                vs = {}
                for o, p in i.d['inc']:
                    if p not in conds:
                        continue
                    e = pre.get((p, b), B.false)
                    if e == B.false:
                        continue
                    for c, v in expand(f, f.term(o), env, phis):
                        c = B.and_(c, e)
                        if c != B.false:
                            vs[v] = B.or_(vs.get(v, B.false), c)
                phis[t] = [(c, v) for v, c in vs.items()]
                if len(phis[t]) == 1:
                    phis[t] = [(B.true, phis[t][0][1])]
        t = f.term_instr(b)
        succ = f.lsucc(b)
        ex = [s for s in succ if (b, s) in exits]
        for s in succ:
            if len(succ) == 1:
                e = B.true
            elif ex and any(a == b for a, K in walk['tests']):
                e = B.false if s in ex else B.true      # the walk goes on
            else:
                e = evalcond(f, f.edge_cond(b, s), env, phis)
            if s in loop.blocks and s != loop.header:
                c = B.and_(conds[b], e)
                conds[s] = B.or_(conds[s], c)
                pre[(b, s)] = B.or_(pre.get((b, s), B.false), c)
    return conds, phis, None


# ------------------------------------------------------------------- rules
def has_pointers_lit(f, desc):
    """conditions for a descriptor to have references at all"""
    o = f.mod.off('GGGGC_Descriptor', 'tags') if exttag(f) else f.mod.off('GGGGC_Descriptor', 'pointers')

    def lit(at):
        if not exttag(f):
            if at[0] == 'eq0' and at[1] == mk_and(('ld', add(desc, C(o)), 8), 1):
                return False
        else:
            if at[0] == 'eq' and at[1] == ('ld', add(desc, C(o)), 1) and at[2] == C(1):
                return False
        return None
    return lit


def effects_in(f, blocks, mode):
    """what counts as visiting a word: (instruction, word address, condition
    extra, literal function)"""
    out = []
    B = f.bdd
    for b in blocks:
        for i in f.blocks[b]:
            if i.op != 'store':
                continue
            a = f.term(i.ops[1])
            v = f.term(i.ops[0])
            if worklist_elem(f, a) is not None:
                if mode == 'addr':
                    out.append((i, v, None))
                elif mode == 'value' and v[0] == 'ld':
                    out.append((i, v[1], None))
            elif mode == 'update':
                for c, aa, t in effect_cases(f, i):
                    if any(is_btcall(f, u) for u in subterms(t)):
                        out.append((i, a, t))
    return out


def check_scans(ctx, f, mode, want):
    """every scanning loop visits exactly the described words"""
    ctx.rule('scan-words', 'for every word number modulo the map word and every map word: the word is visited exactly if its own map bit (or tag) says that it is a reference, and it is not null or tagged')
    ctx.rule('scan-range', 'the words up to the descriptor\'s size are gone through, starting at word 0 or 1')
    ctx.rule('scan-descriptor', 'the descriptor reference (word 0) is visited for every object, with references or without')
    B = f.bdd
    found = []
    for l, w, desc, kind in scan_loops(f):
        effs = effects_in(f, l.blocks, mode)
        if not effs:
            continue
        found.append((l, w, desc, kind, effs))
    for l, w, desc, kind, effs in found:
        label = 'scan of ' + show(desc, f)
        if not w['complete']:
            # other ways out of the loop
            ctx.check('scan-range', f, label, False, 'the scan of an object can stop before its last word', effs[0][0])
            continue
        rg = f.walked(w, effs[0][0].blk)
        okend = False
        if rg is not None:
            first, end = rg
            if kind == 'index':
                okend = desc_size(f, end) == desc
            else:
                okend = True
        ctx.check('scan-range', f, label, okend, 'the scan goes up to %s, not the size in the descriptor' % (show(rg[1], f) if rg else '?'), effs[0][0])
        # which object: from the address of the first effect
        obj = [None]
        bad = []

        def on_state(wn, env, conds, phis):
            visited = {}
            ps = []
            for i, a, t in effs:
                for c, av in expand(f, a, env, phis):
                    d = parts_of(av)
                    cc = B.and_(c, conds.get(i.blk, B.false))
                    if t is not None:
                        # the update's own cases
                        for uc, ua, ut in effect_cases(f, i):
                            pass
                    if cc == B.false:
                        continue
                    o = sub(av, C(8 * wn))
                    if obj[0] is None:
                        obj[0] = o
                    if o != obj[0]:
                        return 'word %s is visited when it is the turn of word %d' % (show(av, f), wn)
                    visited[i] = (cc, av)
            if not visited:
                return 'word %d is never visited' % wn
            cc = B.false
            for i, (c, av) in visited.items():
                cc = B.or_(cc, c)
            av = next(iter(visited.values()))[1]
            val = ('ld', av, 8)
            ks = set()
            for at in B.support(cc):
                for x in at[1:]:
                    if isinstance(x, tuple) and x and x[0] == 'call' and is_btcall(f, x):
                        ks.add(x)
            lit = slot_lits(av, val, ks)
            # bit of the word
            o = f.mod.off('GGGGC_Descriptor', 'tags') if exttag(f) else f.mod.off('GGGGC_Descriptor', 'pointers')
            if exttag(f):
                bit = B.var(('eq0', mk_and(('ld', add(desc, C(o + wn)), 1), 1)))
            else:
                ldw = ('ld', add(desc, C(o + 8 * (wn // W))), 8)
                bit = B.not_(bitvar(f, ldw, wn % W))
            g = canonbits(f, cc)
            def plit(at):
                if mode == 'addr' or mode == 'value' or mode == 'update':
                    v = lit(at)
                    if v is not None:
                        return v
                if at[0] == 'eq0' and at[1][0] == 'ld':
                    b2 = f.asfield(at[1][1], 'ToSearch', 'next')
                    if b2 is not None:
                        return False
                return None
            g = residual(f, g, {}, plit)
            g = ignore_worklist(f, g)
            if g != canonbits(f, bit):
                return 'word %d is visited when %s rather than when %s' % (wn, showg(f, g), showg(f, canonbits(f, bit)))
            return None
        r = interpret(f, l, w, kind, desc, on_state)
        ctx.check('scan-words', f, label, not isinstance(r, str), r if isinstance(r, str) else '', effs[0][0])
        if isinstance(r, int):
            ctx.notes.append('%s %s: %d abstract states' % (f.name, label, r))
        # entering the scan, and the descriptor word
        first = w['init']
        from0 = (first == NULL) or (kind == 'pointer' and obj[0] is not None and first == obj[0])
        hp = has_pointers_lit(f, desc)
        pl = l.parent
        rc = f.region_conds(pl)
        entry = rc.get(l.header, B.false)
        lits = assume_lits(f, l)
        e2 = residual(f, entry, lits, hp)
        # the descriptor word: an effect for word 0 outside of the scan, on
        # every pass which gets to the scan's place with no references
        blocks = (pl.blocks if pl else set(f.order)) - l.blocks
        zero = B.false
        z = None
        for i, a, t in effects_in(f, [b for b in blocks if f.loop_of(b) is pl], mode):
            if obj[0] is not None and a == obj[0]:
                c = rc[i.blk]
                ks = {x for at in B.support(c) for x in at[1:] if isinstance(x, tuple) and x and x[0] == 'call'}
                sl = slot_lits(a, ('ld', a, 8), ks)
                c = residual(f, c, {}, lambda at: sl(at) if sl(at) is not None and not hp(at) else None)
                zero = B.or_(zero, c); z = i
            elif mode == 'value' and a is not None and False:
                pass
        if mode == 'value':
            # the descriptor itself is added
            for i, v in worklist_adds(f):
                if f.loop_of(i.blk) is pl and (v == desc or (obj[0] is not None and v == ('ld', obj[0], 8))):
                    zero = B.or_(zero, rc[i.blk]); z = i
        if from0:
            zero = B.or_(zero, entry)
        need = B.exists(entry, lambda at: hp(at) is not None)
        # conditions of the walk itself being nonempty do not matter
        need = residual(f, need, lits)
        zero2 = residual(f, zero, lits)
        ok = B.implies(need, zero2)
        ctx.check('scan-descriptor', f, label, ok, 'the descriptor reference of the object is visited only when %s' % showg(f, zero2), z or effs[0][0])
        # and nothing but "has references" decides whether the scan is entered
        e3 = residual(f, entry, lits, hp)
        ctx.check('scan-entered', f, label, B.implies(need, e3), 'an object with references is scanned only when %s' % showg(f, e3), effs[0][0])
    ctx.rule('scan-entered', 'an object whose descriptor has references is scanned whenever one without has its descriptor visited')
    ctx.check('scan-sites', f, 'number of scans', len(found) >= want, '%d of the expected %d places where an object\'s references are gone through were found' % (len(found), want))
    ctx.rule('scan-sites', 'the places which must go through an object\'s references do')
    return found


def bitvar(f, ldw, k):
    return f.bdd.var(('eq0', mk_and(ldw, 1 << k)))


def canonbits(f, g):
    """single-bit tests in one form: and(ld, 1<<k)"""
    B = f.bdd
    for at in list(B.support(g)):
        if at[0] == 'eq0':
            t = at[1]; bit = None
            if t[0] == 'and' and t[2] & (t[2] - 1) == 0:
                bit = t[2].bit_length() - 1
                t = t[1]
                if t[0] == 'lshr':
                    bit += t[2]; t = t[1]
            elif t[0] == 'lshr' and t[2] == 63:
                bit = 63; t = t[1]
            new = ('eq0', ('and', t, 1 << bit)) if bit is not None and bit < 64 else None
            if new is not None and new != at:
                v = B.var(new)
                g = B.or_(B.and_(v, B.restrict(g, at, True)), B.and_(B.not_(v), B.restrict(g, at, False)))
    return g


def ignore_worklist(f, g):
    """conditions on the worklist's own room do not decide anything"""
    B = f.bdd

    def wl(at):
        for x in at[1:]:
            if isinstance(x, tuple) and x and x[0] == 'ld' and (f.asfield(x[1], 'ToSearch', 'used') is not None or f.asfield(x[1], 'ToSearch', 'next') is not None):
                return True
        return False
    return B.exists(g, wl)


def C08(ctx):
    rules = []
    for cfg in GEMBC:
        if cfg != 'g1all':
            check_scans(ctx, ctx.func(cfg, 'ggggc_collect0'), 'addr', 2)
        check_scans(ctx, ctx.func(cfg, 'ggggc_collectFull'), 'addr', 1)
        check_scans(ctx, ctx.func(cfg, 'ggggc_postCompact'), 'update', 1)
    for cfg in PMS:
        check_scans(ctx, ctx.func(cfg, 'ggggc_collect0'), 'value', 1)
