"""Traversal contexts: which loops run over what, which conditions guard an
effect inside them, and what a block's enclosing loops enumerate."""
from .ir import *


def assume_lits(f, loop):
    """what may be assumed about an iteration of a loop taking place: a map of
    condition atoms to values (the walk is not empty, and not at its end)"""
    cache = f.__dict__.setdefault('_al', {})
    if loop.header in cache:
        return cache[loop.header]
    B = f.bdd
    out = {}

    def addb(b, val):
        # only plain literals
        if b <= 1:
            return
        var, hi, lo = B.node(b)
        if (hi, lo) == (B.true, B.false):
            out[B.atom(var)] = val
        elif (hi, lo) == (B.false, B.true):
            out[B.atom(var)] = not val
    for w in f.list_walks(loop):
        addb(f.cmp('eq', w['cur'], NULL), False)
        if w['init'] is not None:
            addb(f.cmp('eq', w['init'], NULL), False)
        # advancing by hand, before the test
        inf = f.cursor(w['cur'])
        if inf.get('inita') is not None:
            addb(f.cmp('eq', ('ld', inf['inita'], 8), NULL), False)
    for w in f.ind_walks(loop):
        for a, b, c in f.exit_info(loop):
            if f.exit_bound(c, w['cur'], w['step']) is None:
                continue
            addb(c, False)
            # the same test on the initial value
            var, hi, lo = B.node(c)
            at = B.atom(var)
            mp = {w['cur']: w['init']}
            at2 = tuple(subst(x, mp) if isinstance(x, tuple) else x for x in at)
            if at2[0] == 'eq0':
                addb(f.cmp('eq', at2[1], NULL), False if hi == B.true else True)
            elif at2[0] in ('eq', 'ult', 'slt'):
                addb(f.cmp(at2[0], at2[1], at2[2]), False if hi == B.true else True)
    cache[loop.header] = out
    return out


def residual(f, guard, lits, litfn=None):
    """restrict a guard by assumed literals; true if nothing else guards"""
    B = f.bdd
    for at in list(B.support(guard)):
        v = lits.get(at)
        if v is None and litfn is not None:
            v = litfn(at)
        if v is not None:
            guard = B.restrict(guard, at, v)
    return guard


def showg(f, g):
    def sa(a):
        if a[0] == 'eq0':
            return '%s==0' % show(a[1], f)
        if a[0] == 'eq':
            return '%s==%s' % (show(a[1], f), show(a[2], f))
        if a[0] in ('ult', 'slt'):
            return '%s<%s' % (show(a[1], f), show(a[2], f))
        return str(a)
    return f.bdd.show(g, sa)


def gates(f, loop):
    """blocks, one of which is passed whenever the loop is reached, even if it
    is skipped for being empty"""
    out = {loop.header}
    lits = assume_lits(f, loop)
    B = f.bdd
    cur = loop.header
    for _ in range(4):
        ps = [p for p in f.pred[cur] if p not in loop.blocks]
        if len(ps) != 1:
            break
        p = ps[0]
        out.add(p) if len(f.lsucc(p)) == 1 else None
        t = f.term_instr(p)
        if t.op == 'br' and len(t.ops) == 3 and len(f.lsucc(p)) > 1:
            c = f.edge_cond(p, cur)
            if residual(f, c, lits) == B.true:
                out.add(p)
                cur = p
                continue
            break
        cur = p
    return out


def outer_walk(f, blk, loops):
    """the outermost of the given loops"""
    ch = f.loop_chain(blk)
    best = None
    for l in ch:
        if l in loops:
            best = l
    return best


def find_list(f, blk, cur):
    """the list walk of a loop around blk whose cursor is the given term"""
    for l in f.loop_chain(blk):
        for w in f.list_walks(l):
            if w['cur'] == cur:
                return w
    return None


def find_ind(f, blk, addr, within=None):
    """ranges in which an address affine in an induction variable of any loop
    around blk moves: (start, end, stride, walk)"""
    for l in f.loop_chain(blk):
        if within is not None and l not in within:
            continue
        b = blk
        for w in f.ind_walks(l):
            k = w['cur']
            c, p = parts_of(addr)
            if k not in p:
                continue
            beta = p[k]
            rest = dict(p); del rest[k]
            if any(k in list(subterms(t)) for t in rest):
                continue
            r = f.walked(w, b)
            if r is None:
                return None
            first, end = r
            alpha = lin(c, rest)
            A = lin(0, [(alpha, 1), (first, beta)])
            E = lin(0, [(alpha, 1), (end, beta)])
            stride = beta * w['step']
            if stride < 0:
                A, E = add(E, C(-stride)), add(A, C(-stride))
                stride = -stride
            return A, E, stride, w
    return None


class Enum:
    """what the loops around an effect enumerate"""
    def __init__(self, what, loops, outer, problems):
        self.what = what; self.loops = loops; self.outer = outer; self.problems = problems


def enum_frames(f, blk, addr):
    """addr is the address of an entry of a root frame. Which entries does the
    effect at blk run over? Returns an Enum ('frames') or None if the address is
    no root stack entry."""
    r = f.aselem(addr, 'GGGGC_PointerStack', 'pointers')
    ps = None
    if r is None:
        # a pointer moving along the entries
        k = f.cursor(addr) if addr[0] == 'cur' else None
        if k and k['kind'] == 'ind' and k['init'] is not None:
            r = f.aselem(k['init'], 'GGGGC_PointerStack', 'pointers')
            if r is None:
                po = f.mod.off('GGGGC_PointerStack', 'pointers')
                b = f.asfield(k['init'], 'GGGGC_PointerStack', 'pointers')
                if b is not None:
                    r = (b, NULL)
    if r is None:
        return None
    ps, idx = r
    probs = []
    m = f.mod
    loops = []
    rg = find_ind(f, blk, addr)
    if rg is None:
        probs.append('the entries of a frame are not gone through one by one to the end')
    else:
        A, E, stride, w = rg
        po = m.off('GGGGC_PointerStack', 'pointers')
        wantA = add(ps, C(po))
        size = ('ld', add(ps, C(m.off('GGGGC_PointerStack', 'size'))), 8)
        wantE = lin(po, [(ps, 1), (size, 8)])
        if (A, E, stride) != (wantA, wantE, 8):
            probs.append('entries %s up to %s by %d bytes are gone through, not all of 0 up to size' % (show(A, f), show(E, f), stride))
        loops.append(w['loop'])
    wps = find_list(f, blk, ps)
    outer = loops[-1] if loops else None
    if wps is None:
        probs.append('the frames of a stack are not followed by their next links')
    else:
        loops.append(wps['loop']); outer = wps['loop']
        if wps['next'] != m.off('GGGGC_PointerStack', 'next'):
            probs.append('the frames of a stack are not followed by their next links')
        if not wps['complete']:
            probs.append('the walk over the frames of a stack can stop early')
        init = wps['init']
        b = None
        if init is not None and init[0] == 'ld':
            b = f.asfield(init[1], 'GGGGC_PointerStackList', 'pointerStack')
        if b is None:
            probs.append('the walk does not start at the top of a listed stack but at %s' % (show(init, f) if init else '?'))
        else:
            wl = find_list(f, blk, b)
            if wl is None:
                probs.append('the list of root stacks is not walked')
            else:
                loops.append(wl['loop']); outer = wl['loop']
                if wl['init'] != ('ld', ('g', 'ggggc_rootPointerStackList'), 8):
                    probs.append('the list of root stacks is walked from %s' % show(wl['init'], f))
                if wl['next'] != m.off('GGGGC_PointerStackList', 'next') or not wl['complete']:
                    probs.append('the walk over the list of root stacks can stop early')
    return Enum('frames', loops, outer, probs)


def enum_jit(f, blk, addr):
    """likewise for an address moving along a JIT stack"""
    m = f.mod
    S = 'GGGGC_JITPointerStackList'
    if m.off(S, 'cur') is None:
        return None
    # find base: a list cursor of JITPointerStackList among the enclosing loops
    wl = None
    for l in f.loop_chain(blk):
        for w in f.list_walks(l):
            if S in f.ptypes(w['cur']) and w['next'] == m.off(S, 'next'):
                wl = w
    if wl is None:
        return None
    node = wl['cur']
    curf = ('ld', add(node, C(m.off(S, 'cur'))), 8)
    topf = ('ld', add(node, C(m.off(S, 'top'))), 8)
    # does the address originate in node->cur?
    seen = set(); st = [addr]; orig = False; inner = []
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t == curf or t == topf:
            orig = True
            continue
        if t[0] == 'cur':
            k = f.cursor(t)
            inner.append(t)
            if k and k.get('init') is not None:
                st.append(k['init'])
            if k:
                st.extend(k.get('nexts', ()))
        elif t[0] == 'phi':
            for o, b in f.ins[t[1]].d['inc']:
                st.append(f.term(o))
        elif t[0] == 'lin':
            st.extend(u for u, kk in t[2])
    if not orig:
        return None
    probs = []
    loops = [wl['loop']]
    if wl['init'] != ('ld', ('g', 'ggggc_rootJITPointerStackList'), 8):
        probs.append('the list of JIT stacks is walked from %s' % show(wl['init'], f))
    if not wl['complete']:
        probs.append('the walk over the list of JIT stacks can stop early')
    rg = find_ind(f, blk, addr)
    simple = None
    if rg is not None:
        A, E, stride, w = rg
        if (A, E, stride) != (curf, topf, 8):
            probs.append('words %s up to %s by %d bytes of a JIT stack are gone through, not all from cur to top' % (show(A, f), show(E, f), stride))
        loops.append(w['loop'])
        simple = True
    else:
        simple = False
    e = Enum('jit', loops, wl['loop'], probs)
    e.simple = simple
    e.node = node; e.curf = curf; e.topf = topf
    return e


def ngens(m):
    g = m.globals.get('ggggc_gens')
    if not g:
        return None
    t = m.types[m.strip(g['t'])]
    n = m.types[m.strip(t['to'])]['bits']
    return t['bits'] // n if t.get('bits') else None


def enum_pools(f, blk, pool):
    """the pool term: which pools does the effect at blk run over? An Enum with
    what = ('gen0',) or ('gens', first, end)"""
    m = f.mod
    w = find_list(f, blk, pool)
    if w is None:
        return None
    if w['next'] != m.off('GGGGC_Pool', 'next'):
        return None
    probs = []
    loops = [w['loop']]
    if not w['complete']:
        probs.append('the walk over the pools can stop early')
    init = w['init']
    if init is None or init[0] != 'ld':
        return None
    b = f.asfield(init[1], 'GGGGC_PoolList', 'pool')
    if b is not None:
        wl = find_list(f, blk, b)
        if wl is None:
            # possibly one fixed list node
            probs.append('the list of youngest-generation pool lists is not walked')
            return Enum(('gen0',), loops, w['loop'], probs)
        loops.append(wl['loop'])
        if wl['init'] != ('ld', ('g', 'ggggc_rootPool0List'), 8):
            probs.append('the list of pool lists is walked from %s' % show(wl['init'], f))
        if wl['next'] != m.off('GGGGC_PoolList', 'next') or not wl['complete']:
            probs.append('the walk over the list of pool lists can stop early')
        return Enum(('gen0',), loops, wl['loop'], probs)
    c, p = parts_of(init[1])
    if ('g', 'ggggc_gens') in p:
        if len(p) == 1:
            return Enum(('gens', C(c // 8), C(c // 8 + 1)), loops, w['loop'], probs)
        # the range of the index, in loops around the pool loop; the block
        # tested for is where the pool walk starts
        rest = dict(p); del rest[('g', 'ggggc_gens')]
        outerl = w['loop'].parent
        hb = w['loop'].header
        rg = find_ind(f, hb, init[1], within=_parents(w['loop']))
        if rg is None:
            if len(p) == 2:
                (t, k), = rest.items()
                cl = f.cursor(t) if t[0] == 'cur' else None
                if k == 8 and (t[0] != 'cur' or cl and cl['loop'] not in f.loop_chain(hb)):
                    # one generation, given by a term
                    i = add(t, C(c // 8))
                    return Enum(('gens', i, add(i, C(1))), loops, w['loop'], probs)
            probs.append('the generations are not gone through one by one to the end')
            return Enum(('gens', None, None), loops, w['loop'], probs)
        A, E, stride, wi = rg
        loops.append(wi['loop'])
        g = ('g', 'ggggc_gens')
        a = sub(A, g); e = sub(E, g)
        a = _div8(a); e = _div8(e)
        if stride != 8:
            probs.append('generations are skipped')
        return Enum(('gens', a, e), loops, wi['loop'], probs)
    # a thread's own list
    if init[1] == ('g', 'ggggc_gen0'):
        return Enum(('own',), loops, w['loop'], probs)
    return None


def _parents(l):
    out = []
    l = l.parent
    while l:
        out.append(l); l = l.parent
    return out


def _div8(t):
    c, p = parts_of(t)
    if c % 8 or any(k % 8 for k in p.values()):
        return t
    return lin(c // 8, {u: k // 8 for u, k in p.items()})


def guard_within(f, blk, outer, litfn=None):
    """what guards the effect at blk, within the loop `outer` and those inside
    it, besides the walks going on. Returns a list of (loop, residual guard)
    which are not true"""
    out = []
    ch = f.loop_chain(blk)
    inside = []
    for l in ch:
        inside.append(l)
        if l is outer:
            break
    lits = {}
    for l in inside:
        lits.update(assume_lits(f, l))
    for l in inside:
        g = residual(f, f.region_conds(l)[blk], lits, litfn)
        if g != f.bdd.true:
            out.append((l, g))
    return out


def worklist_elem(f, addr):
    """the ToSearch an address is an element of the buffer of"""
    c, p = parts_of(addr)
    for t, k in p.items():
        if k == 1 and t[0] == 'ld':
            b = f.asfield(t[1], 'ToSearch', 'buf')
            if b is not None:
                return b
    return None


def worklist_adds(f):
    """stores into a worklist buffer: (instruction, value term)"""
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'store':
                a = f.term(i.ops[1])
                if worklist_elem(f, a) is not None:
                    yield i, f.term(i.ops[0])


def worklist_pops(f):
    """loads from a worklist buffer"""
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'load' and worklist_elem(f, f.term(i.ops[0])) is not None:
                yield i


def passes(f, start, targets, via):
    """every path from start to the target blocks goes through via"""
    via = set(via)
    r = f.reach([start], avoid=via)
    return not any(t in r for t in targets if t not in via)


def value_cases(f, v, blk, depth=3):
    """the values a merged term can have at blk and when: [(condition within
    blk's loop level, term)]"""
    B = f.bdd
    if v[0] == 'sel':
        out = []
        for c, t in ((v[1], v[2]), (B.not_(v[1]), v[3])):
            for c2, t2 in value_cases(f, t, blk, depth - 1) if depth else [(B.true, t)]:
                out.append((B.and_(c, c2), t2))
        return out
    if v[0] == 'phi' and depth:
        ins = f.ins[v[1]]
        l = f.loop_of(ins.blk)
        if l is not f.loop_of(blk) and l is not None and l not in f.loop_chain(blk):
            return [(B.true, v)]
        rc = f.region_conds(l)
        out = []
        live = f.live_blocks()
        for o, p in ins.d['inc']:
            if p not in live:
                continue
            if p in rc:
                c = B.and_(rc[p], f.edge_cond(p, ins.blk))
            else:
                c = B.true
            for c2, t2 in value_cases(f, f.term(o), blk, depth - 1):
                out.append((B.and_(c, c2), t2))
        return out
    return [(B.true, v)]


def effect_cases(f, ins):
    """a store, as [(condition in its loop level, address, value)] leaving out
    cases in which it stores what is there already"""
    B = f.bdd
    a = f.term(ins.ops[1]); v = f.term(ins.ops[0])
    l = f.loop_of(ins.blk)
    g = f.region_conds(l).get(ins.blk, B.true)
    out = {}
    for c, t in value_cases(f, v, ins.blk):
        cc = B.and_(g, c)
        if cc == B.false or t == ('ld', a, 8):
            continue
        out[t] = B.or_(out.get(t, B.false), cc)
    return [(c, a, t) for t, c in out.items()]


def is_btcall(f, t):
    """a call which yields a relocation table entry"""
    if t[0] != 'call':
        return False
    return 'BreakTableEl' in f.ptypes(t)


POOLMASK = None


def pool_of(f, x):
    return [mk_and(x, M64 ^ ((1 << k) - 1)) for k in range(16, 33)]


def is_pool_of(f, t, x):
    """t is the pool of the object x"""
    if t[0] == 'and' and t[1] == x:
        inv = (~t[2]) & M64
        return inv & (inv + 1) == 0 and inv == pool_bytes(f.mod) - 1
    if x[0] == 'and' and t[0] == 'and' and t[1] == x[1]:
        inv = (~t[2]) & M64
        return inv == pool_bytes(f.mod) - 1
    return False


def pool_bytes(m):
    """the size of a pool: from the size of the card table and of the cards;
    found in the sources as the driver's constant"""
    return m.consts['GGGGC_POOL_BYTES']


def follow_of(f, t, x):
    """t is the new address of x by its relocation table entry. Returns the
    entry's call term, or None"""
    m = f.mod
    oo = m.off('BreakTableEl', 'orig'); no = m.off('BreakTableEl', 'newL')
    calls = [u for u in subterms(t) if is_btcall(f, u)]
    for k in calls:
        orig = ('ld', add(k, C(oo)), 8); new = ('ld', add(k, C(no)), 8)
        d1 = lin(0, [(orig, 1), (new, -1)]); d2 = lin(0, [(new, 1), (orig, -1)])
        forms = [lin(0, [(x, 1), (new, 1), (orig, -1)]),
                 lin(0, [(x, 1), (('lshr', d1, 3), -8)]),
                 lin(0, [(x, 1), (('lshr', d2, 3), 8)]),
                 lin(0, [(new, 1), (('lshr', lin(0, [(x, 1), (orig, -1)]), 3), 8)]),
                 lin(0, [(x, 1), (mk_and(d1, M64 ^ 7), -1)]),
                 lin(0, [(x, 1), (mk_and(d2, M64 ^ 7), 1)])]
        if t in forms:
            return k
    return None


def btcall_args_ok(f, k, x):
    """the relocation entry is looked up for x, in the table of x's pool"""
    ins = f.ins[k[1]]
    args = [f.term(o) for o in ins.ops]
    if x not in args:
        return False
    for a in args:
        if a == x:
            continue
        if a[0] == 'ld':
            c, p = parts_of(a[1])
            if not any(is_pool_of(f, u, x) and kk == 1 for u, kk in p.items()):
                return False
        elif not is_pool_of(f, a, x):
            return False
    return True
