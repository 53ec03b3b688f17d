"""C09 (remembered set), C10 (promotion), C11 (full collection), for the
generational collector."""
from .core import *
from .trav import *
from .rules_scan import desc_size, has_pointers_lit, exttag
from .rules_roots import resets

CONFS2 = ['g2', 'g2all', 'g3all', 'g2ext', 'g2dbg', 'cxx']
CONFS1 = ['g1all']


def stores(f):
    for b in f.order:
        if b not in f.live_blocks():
            continue
        for i in f.blocks[b]:
            if i.op == 'store':
                yield i, f.term(i.ops[1]), f.term(i.ops[0])


def calls(f, *names):
    for b in f.order:
        if b not in f.live_blocks():
            continue
        for i in f.blocks[b]:
            if i.is_call() and i.callee() in names:
                yield i


def byte(t):
    """strip the truncation of a generation number to a byte"""
    while t[0] == 'and' and t[2] == 255:
        t = t[1]
    if t[0] == 'lin':
        c, p = parts_of(t)
        p = {byte(u): k for u, k in p.items()}
        t = lin(c, p)
    return t


def dest_gen(ctx, f):
    """the generation survivors are promoted to, as the argument of the
    promoting allocation"""
    for i in calls(f, 'ggggc_mallocGen1'):
        return i, byte(f.term(i.ops[1]))
    return None, None


class K:
    """the constants of a configuration"""
    def __init__(self, m):
        c = m.consts
        self.pool = c['GGGGC_POOL_BYTES']; self.card = c['GGGGC_CARD_BYTES']
        self.cards = c['GGGGC_CARDS_PER_POOL']; self.gens = c['GGGGC_GENERATIONS']
        self.cardbits = self.card.bit_length() - 1

    def card_of(self, a):
        return mk_and(mk_lshr(a, self.cardbits), self.cards - 1)

    def inner(self, a):
        return mk_and(mk_lshr(a, 3), self.card // 8 - 1)


def size_of_obj(f, t, obj, markok=False):
    """t is 8 * obj's size, by its descriptor"""
    c, p = parts_of(t)
    if c or len(p) != 1:
        return False
    (u, k), = p.items()
    if k != 8:
        return False
    d = desc_size(f, u)
    return d == ('ld', obj, 8)


def pfield(f, addr, name):
    return f.asfield(addr, 'GGGGC_Pool', name)


def is_pfield(f, t, pool, name):
    return t == ('ld', add(pool, C(f.mod.off('GGGGC_Pool', name))), f.mod.fsize('GGGGC_Pool', name))


# ------------------------------------------------------------------- C09
def cards_scanned(ctx, f):
    ctx.rule('cards-scanned', 'before the worklist is searched, every object of every remembered card of every pool of every older generation has its words enqueued, starting at the recorded first object and going on object by object to the end of the card, the pool or its objects')
    k = K(f.mod); B = f.bdd
    mi, D = dest_gen(ctx, f)
    if D is None:
        ctx.check('cards-scanned', f, 'remembered cards', False, 'no object is ever promoted')
        return
    cands = []
    for i, v in worklist_adds(f):
        if v[0] != 'cur':
            continue
        inf = f.cursor(v)
        if not inf or inf.get('init') is None:
            continue
        lw = inf['loop']
        if lw not in f.loop_chain(i.blk):
            continue
        # its start: an element of a pool's table of first objects
        fo = None
        for u in subterms(inf['init']):
            if u[0] == 'ld':
                e = f.aselem(u[1], 'GGGGC_Pool', 'firstObject')
                if e:
                    fo = (u, e)
        if fo is None:
            continue
        cands.append((i, v, inf, fo))
    if not cands:
        ctx.check('cards-scanned', f, 'remembered cards', False, 'no object is enqueued for being the first one of a remembered card')
        return
    rs = resets(f)
    best = None
    for i, obj, inf, (u, (pool, idx)) in cands:
        probs = []
        lw = inf['loop']
        want = lin(0, [(pool, 1), (idx, k.card), (u, 8)])
        if inf['init'] != want:
            probs.append('a card\'s objects are gone through from %s' % show(inf['init'], f))
        if idx[0] != 'cur':
            probs.append('the cards are not gone through one by one')
            ci = None
        else:
            ci = None
            for l in f.loop_chain(lw.header):
                if l is lw:
                    continue
                for w in f.ind_walks(l):
                    if w['cur'] == idx:
                        r = f.walked(w, lw.header)
                        if r is None:
                            probs.append('the walk over the cards can end early')
                        elif w['step'] == 1 and (r[0] != C(0) or r[1] != C(k.cards)) or w['step'] == -1 and (r[0], r[1]) != (C(k.cards - 1), C(-1)) or w['step'] not in (1, -1):
                            probs.append('cards %s to %s by %d are looked at, not all %d' % (show(r[0], f), show(r[1], f), w['step'], k.cards))
                        ci = l
            if ci is None:
                probs.append('the cards are not gone through one by one')
        e = enum_pools(f, i.blk, pool)
        if e is None or e.what[0] != 'gens':
            probs.append('the pools are not those of the older generations')
            outer = None
        else:
            probs += e.problems
            a, z = e.what[1], e.what[2]
            if a is not None and (byte(a) != D):
                probs.append('generations from %s on are looked at; objects are promoted to %s' % (show(a, f), show(D, f)))
            if z is not None and byte(z) != C(k.gens):
                probs.append('generations before %s are looked at, not all %d' % (show(z, f), k.gens))
            outer = e.outer
        rem = ('ld', add(pool, add(C(f.mod.off('GGGGC_Pool', 'remember')), idx)), 1)
        card0 = f.cmp('eq', k.card_of(obj), idx)
        cardi = f.cmp('eq', k.card_of(inf['init']), idx)

        def lit(at, rem=rem):
            if at == ('eq0', rem):
                return False
            if at[0] == 'eq' and B.var(at) in (card0, cardi):
                return True
            return None
        if outer is not None:
            gs = guard_within(f, lw.header, outer, lit)
            gs = [(l, g) for l, g in gs if l is not lw]
            if gs:
                probs.append('a card is skipped unless ' + ' and '.join(showg(f, g) for l, g in gs))
        # the next object
        nx = set(inf['nexts'])
        for t in nx:
            if not size_of_obj(f, sub(t, obj), obj):
                probs.append('after an object the walk goes on at %s' % show(t, f))
        # the way out
        if len(nx) == 1:
            n, = nx
            endt = ('ld', add(pool, C(f.mod.off('GGGGC_Pool', 'end'))), 8)
            fret = ('ld', add(pool, C(f.mod.off('GGGGC_Pool', 'free'))), 8)
            ok = []
            for t in (obj, n):
                ok += [B.not_(f.cmp('eq', k.card_of(t), idx)), B.not_(f.cmp('ult', t, endt)), B.not_(f.cmp('ult', t, fret)), f.cmp('eq', ('ld', t, 8), NULL),
                       f.cmp('ult', idx, k.card_of(t))]
            oks = B.false
            for o in ok:
                oks = B.or_(oks, o)
            out = B.false
            for x, y, c in f.exit_info(lw):
                rc = f.region_conds(lw).get(x, B.true)
                if not B.implies(B.and_(rc, c), oks):
                    probs.append('the walk over a card\'s objects ends when ' + showg(f, c))
            # going on is decided by all of them
            def decides(conds):
                for x, y, c in f.exit_info(lw):
                    for t in conds:
                        if t > 1 and B.implies(c, t):
                            return True
                return False
            c1 = [B.not_(f.cmp('eq', k.card_of(t), idx)) for t in (obj, n)]
            c2 = [B.not_(f.cmp('ult', t, endt)) for t in (obj, n)] + [B.not_(f.cmp('ult', t, fret)) for t in (obj, n)]
            c4 = [B.not_(f.cmp('ult', t, fret)) for t in (obj, n)]
            c3 = [f.cmp('eq', ('ld', t, 8), NULL) for t in (obj, n)]
            if not decides(c1) and not decides([f.cmp('ult', idx, k.card_of(t)) for t in (obj, n)]):
                probs.append('the walk does not stop at the end of the card')
            if not decides(c2):
                probs.append('the walk does not stop at the end of the pool')
            if not decides(c3) and not decides(c4):
                probs.append('the walk does not stop after the last object')
        # every object: its descriptor reference and its words
        g = [(l, x) for l, x in guard_within(f, i.blk, lw, lit)]
        if g:
            probs.append('an object is enqueued only when ' + ' and '.join(showg(f, x) for l, x in g))
        words = []
        for i2, v2 in worklist_adds(f):
            if i2.blk in lw.blocks and f.loop_of(i2.blk) is not lw:
                c, p = parts_of(v2)
                if p.get(obj) == 1:
                    words.append(i2)
        if not words:
            probs.append('the words of the objects are not enqueued')
        for i2 in words:
            ch = f.loop_chain(i2.blk)
            l2 = ch[ch.index(lw) - 1]
            lf = has_pointers_lit(f, ('ld', obj, 8))
            g = residual(f, f.region_conds(lw)[l2.header], assume_lits(f, lw), lambda at: (lit(at) if lit(at) is not None else lf(at)))
            if g != B.true:
                probs.append('an object\'s words are enqueued only when ' + showg(f, g))
        # before the search
        if outer is not None:
            gt = gates(f, outer)
            starts = [f.entry]
            for r in rs:
                starts += f.lsucc(r)
            for p in worklist_pops(f):
                if p.blk in outer.blocks:
                    continue
                if not all(passes(f, s, [p.blk], gt) for s in starts):
                    probs.append('the worklist can be searched (%s) without the remembered cards having been gone through since it was emptied' % p.where())
                    break
        if best is None or len(probs) < len(best[1]):
            best = (i, probs)
    i, probs = best
    ctx.check('cards-scanned', f, 'remembered cards', not probs, '; '.join(probs), i)


def same(f, c1, c2):
    return c1 == c2


def gen_terms(f):
    """the variables which hold the generation being collected"""
    out = [('arg', 0)]
    ch = True
    while ch:
        ch = False
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'phi' and f.vterm(i.id) not in out:
                    if any(byte(f.term(o)) in out for o, p in i.d['inc']):
                        out.append(f.vterm(i.id)); ch = True
    return out


def minor_cond(f):
    """conditions under which the collection is a minor one"""
    G = f.mod.consts['GGGGC_GENERATIONS']
    return [f.cmp('ult', t, C(G - 1)) for t in gen_terms(f)] + [f.cmp('ule', t, C(G - 2)) for t in gen_terms(f)]


def pin(f, t, cond):
    """t with the collected generation replaced by its value where the
    condition fixes it"""
    B = f.bdd
    for g in gen_terms(f):
        if g in subterms(t):
            for v in range(f.mod.consts['GGGGC_GENERATIONS']):
                if B.implies(cond, f.cmp('eq', g, C(v))):
                    c, p = parts_of(t)
                    if g in p:
                        t = lin(c + v * p[g], [(k, q) for k, q in p.items() if k != g])
    return t


def clears(f):
    """whole-table clears of a remembered set: (instruction, pool, ok)"""
    k = K(f.mod)
    for i in calls(f, 'llvm.memset.p0.i64', 'memset', 'bzero'):
        ops = [f.term(o) for o in i.ops]
        a = ops[0]
        p = pfield(f, a, 'remember')
        if p is None:
            # remember is the first field of a pool
            c, pp = parts_of(a)
            continue
        yield i, p, ops[1] == NULL and ops[2] == C(k.cards)
    for i, a, v in stores(f):
        e = f.aselem(a, 'GGGGC_Pool', 'remember')
        if e and v == NULL:
            yield i, e[0], e


def cleared(ctx, f):
    """the end of a minor collection"""
    ctx.rule('cards-cleared', 'a minor collection forgets the cards of exactly the generations it has emptied or promoted everything young into, pool by pool, after the search and before the world goes on')
    k = K(f.mod); B = f.bdd
    mi, D = dest_gen(ctx, f)
    if D is None:
        return
    seen = []
    for i, pool, ok in clears(f):
        probs = []
        if ok is not True and ok is not False:
            # card by card
            e = ok
            r = find_ind(f, i.blk, e[1])
            if r is None or (r[0], r[1], r[2]) != (C(0), C(k.cards), 1):
                probs.append('not all cards of the pool are cleared')
        elif not ok:
            probs.append('not all cards of the pool are cleared')
        e = enum_pools(f, i.blk, pool)
        if e is None or e.what[0] == 'own':
            ctx.check('cards-cleared', f, 'clear', False, 'cards of %s are cleared' % show(pool, f), i)
            continue
        probs += e.problems
        seen.append((i, e, probs))
    one = C(1)
    end = add(D, one)
    minor = minor_cond(f)
    covered = []
    for i, e, probs in seen:
        lv = e.outer
        up = lv.parent
        rc = f.region_conds(up)[lv.header]
        if e.what[0] != 'gens' or e.what[1] is None or e.what[2] is None:
            if e.what[0] == 'gens':
                ctx.check('cards-cleared', f, 'clear', False, '; '.join(probs) or 'of which generations cannot be told', i)
            continue
        a, z = byte(e.what[1]), byte(e.what[2])
        top = f.chain_conds(lv.header)
        rcs = [x[1] if isinstance(x, tuple) else x for x in top]
        for r in [rc] + rcs:
            a, z = pin(f, a, r), pin(f, z, r)
        if (a, z) not in ((one, D), (D, end), (one, end), (C(0), end), (C(0), D)):
            probs.append('the cards of generations %s to before %s are cleared; objects are promoted to %s' % (show(a, f), show(z, f), show(D, f)))
        if not any(B.implies(r, c) for r in [rc] + rcs for c in minor):
            probs.append('cards are cleared although everything may have been collected at once, leaving objects of all generations where they are')
        # after the search
        pops = [p.blk for p in worklist_pops(f)]
        r = f.reach(f.lsucc(i.blk))
        late = [b for b in pops if b in r and b not in e.outer.blocks]
        if late:
            probs.append('cards are cleared before the search of what they refer to is over')
        ctx.check('cards-cleared', f, 'clear', not probs, '; '.join(probs), i)
        if not probs:
            covered.append((a, z, i, e))
    # what has been emptied has no cards left to look at
    for i, a, v in stores(f):
        pool = pfield(f, a, 'free')
        if pool is None or v != add(pool, C(f.mod.off('GGGGC_Pool', 'start'))):
            continue
        e = enum_pools(f, i.blk, pool)
        if e is None or e.what[0] != 'gens' or e.what[1] is None or e.what[2] is None:
            continue
        rcs = [x[1] if isinstance(x, tuple) else x for x in f.chain_conds(e.outer.header)]
        lo, hi = byte(e.what[1]), byte(e.what[2])
        for r in rcs:
            lo, hi = pin(f, lo, r), pin(f, hi, r)
        if lo == hi:
            ctx.check('cards-cleared', f, 'emptied generations', True)
            continue
        ok = any((lo, hi) == (ca, cz) or (lo == one and hi == D and ca in (one, C(0)) and cz in (D, end)) for ca, cz, ci, ce in covered)
        ctx.check('cards-cleared', f, 'emptied generations', ok, 'generations %s to before %s are emptied, but their cards are not cleared' % (show(lo, f), show(hi, f)), i)


def after_compaction(ctx, f):
    """the update pass of a full collection rebuilds the remembered set"""
    ctx.rule('cards-rebuilt', 'after a compaction each older pool has its cards cleared, then its first object recorded for every card on which an object or the free space starts, and every card marked that holds an object with a reference to a younger pool')
    m = f.mod; B = f.bdd
    k = K(m)
    pool = ('arg', 0)
    P = lambda x: add(pool, C(m.off('GGGGC_Pool', x)))
    gen = ('ld', P('gen'), m.fsize('GGGGC_Pool', 'gen'))
    free = ('ld', P('free'), 8); end = ('ld', P('end'), 8); startt = P('start')
    young = f.cmp('eq', gen, NULL)
    old = B.not_(young)
    # the walk over the objects
    L = None
    for l in f.loops().values():
        for i in f.blocks[l.header]:
            if i.op == 'phi':
                inc = {p: f.term(o) for o, p in i.d['inc']}
                t = f.vterm(i.id)
                if any(v == startt for p, v in inc.items() if p not in l.blocks) and any(v != t for p, v in inc.items() if p in l.blocks):
                    has = any(i2.op == 'store' and i2.blk in l.blocks for i2, a2, v2 in stores(f))
                    if has or any(c.callee() and 'BreakTable' in c.callee() or True for b in l.blocks for c in f.blocks[b] if c.is_call() and not (c.callee() or '').startswith('llvm.')):
                        if L is None or has and not L[2]:
                            L = (l, t, has)
    if L is None:
        ctx.check('cards-rebuilt', f, 'objects', False, 'the objects of the pool are not gone through')
        return
    l, obj, has = L
    # 1. forgotten first
    probs = []
    cl = [(i, p, ok) for i, p, ok in clears(f)]
    good = []
    for i, p, ok in cl:
        if p == pool and ok is True and f.loop_of(i.blk) is None and l.header in f.reach([i.blk]):
            good.append(i)
        elif p == pool and f.loop_of(i.blk) is not None and ok is not True and ok is not False and i.blk not in l.blocks and l.header in f.reach([i.blk]):
            r = find_ind(f, i.blk, ok[1])
            if r and (r[0], r[1], r[2]) == (C(0), C(k.cards), 1):
                good.append(i)
        else:
            ctx.check('cards-rebuilt', f, 'clear', False, 'cards are cleared other than all of the pool\'s before its objects are gone through', i)
    rc0 = f.region_conds(None)
    got = B.false
    for i in good:
        lb = f.loop_of(i.blk)
        got = B.or_(got, rc0[i.blk] if lb is None else rc0[f.loop_chain(i.blk)[-1].header])
    ctx.check('cards-rebuilt', f, 'old marks', B.implies(old, got), 'the marks from before the compaction are not cleared', l.header and f.blocks[l.header][0])
    # 2. first objects
    rc = f.region_conds(l)
    card = k.card_of(obj)
    fos = []; after = []
    for i, a, v in stores(f):
        e = f.aselem(a, 'GGGGC_Pool', 'firstObject')
        if e is None:
            continue
        if f.loop_of(i.blk) is l:
            fos.append((i, e, v))
        elif f.loop_of(i.blk) is None and i.blk not in l.blocks:
            after.append((i, e, v))
        else:
            ctx.check('cards-rebuilt', f, 'first object', False, 'a first object is recorded elsewhere', i)
    probs = []; wh = fos[0][0] if fos else None
    got = B.false
    for i, (p, ix), v in fos:
        if p != pool or ix != card or v != k.inner(obj):
            probs.append('%s is recorded as first object of card %s' % (show(v, f), show(ix, f)))
        else:
            got = B.or_(got, rc[i.blk])
    # the variable which remembers the card of the object before
    last = None
    for i in f.blocks[l.header]:
        if i.op != 'phi':
            continue
        t = f.vterm(i.id)
        if t == obj:
            continue
        same = f.cmp('eq', card, t)
        if B.implies(got, B.not_(same)) and got != B.false:
            last = (i, t, same)
    if not fos:
        probs.append('first objects are not recorded')
    elif last is None:
        probs.append('a later object on the card can take the place of the first one')
    else:
        i, t, same = last
        want = B.and_(rc[fos[0][0].blk], B.true)
        body = B.false
        for i2, a2, v2 in stores(f):
            pass
        if not B.implies(B.and_(rc_body(f, l), B.and_(old, B.not_(same))), got):
            probs.append('the first object of a card is recorded only when ' + showg(f, got))
        for o, p in i.d['inc']:
            v = f.term(o)
            if p not in l.blocks:
                if v[0] != 'c' or 0 <= v[1] < k.cards:
                    probs.append('the first card would be taken for one already recorded')
            else:
                for c, x in value_cases(f, v, p):
                    if p in rc:
                        c = B.and_(c, rc[p])
                    if B.implies(c, young) or x == card or x == t and B.implies(B.and_(c, old), same):
                        continue
                    probs.append('the card of the object before is not kept track of')
    ctx.check('cards-rebuilt', f, 'first objects', not probs, '; '.join(dict.fromkeys(probs)), wh)
    # 3. the free space
    probs = []
    got = B.false
    fcard = k.card_of(free)
    for i, (p, ix), v in after:
        if p != pool or ix != fcard or v != k.inner(free):
            probs.append('%s is recorded as first object of card %s' % (show(v, f), show(ix, f)))
        else:
            got = B.or_(got, rc0[i.blk])
    if last is not None:
        same = f.cmp('eq', fcard, last[1])
        room = f.cmp('ult', free, end)
        if not B.implies(B.and_(old, B.and_(B.not_(same), room)), got):
            probs.append('the start of the free space is recorded as first object of its card only when ' + showg(f, got) if got != B.false else 'the start of the free space is not recorded as first object of its card')
        if not B.implies(got, B.not_(same)):
            probs.append('the free space can take the place of the first object of a card')
        if not B.implies(got, room):
            probs.append('a first object beyond the pool is recorded')
    ctx.check('cards-rebuilt', f, 'free space', not probs, '; '.join(probs), after[0][0] if after else None)
    # 4. marks
    marks = []
    for i, a, v in stores(f):
        e = f.aselem(a, 'GGGGC_Pool', 'remember')
        if e is None or f.aselem(a, 'GGGGC_Pool', 'firstObject') is not None:
            continue
        if i in good:
            continue
        ok = e[0] == pool and v[0] == 'c' and v[1] & 255 != 0
        if ok and e[1] != card:
            for c, x in value_cases(f, e[1], i.blk):
                if not (x == card or B.implies(c, young)):
                    ok = False
        if not ok:
            ctx.check('cards-rebuilt', f, 'mark', False, '%s is stored for card %s' % (show(v, f), show(e[1], f)), i)
        else:
            marks.append(i)
    # the references which are updated
    slots = {}
    for i, a, v in stores(f):
        if i.blk not in l.blocks:
            continue
        c, p = parts_of(a)
        if p.get(obj) == 1 and any(is_btcall(f, u) for u in subterms(v)):
            for u in subterms(v):
                if is_btcall(f, u):
                    slots.setdefault(a, []).append((i, u))
    if not slots:
        ctx.check('cards-rebuilt', f, 'references', False, 'no reference is brought up to date')
    for a, us in slots.items():
        i, u = us[0]
        # where the reference is looked up
        blks = [j.blk for b in l.blocks for j in f.blocks[b] if j.is_call() and f.vterm(j.id) == u]
        ld = ('ld', a, 8)
        # the tests which compare its pool's generation
        lts = []
        for b2 in l.blocks:
            for j in f.blocks[b2]:
                if j.op != 'load':
                    continue
                q = pfield(f, f.term(j.ops[0]), 'gen')
                if q is None or q[0] != 'and' or q[2] != M64 ^ (k.pool - 1):
                    continue
                if all(x == ld or follow_of(f, x, ld) for c, x in value_cases(f, q[1], b2)):
                    lts.append(f.cmp('ult', f.vterm(j.id), gen))
        lts = list(dict.fromkeys(lts))
        for b in blks:
            # (the look-up of the descriptor before is not an update)
            l2 = f.loop_of(b)
            if not any(f.loop_of(x.blk) is l2 and x.blk in f.reach([b]) for x, _ in us):
                continue
            rc2 = f.region_conds(l2)
            if not any(B.implies(rc2[x.blk], rc2[b]) for x, _ in us if f.loop_of(x.blk) is l2):
                continue
            # is it this look-up whose result is stored?
            got = B.false
            for mk in marks:
                if f.loop_of(mk.blk) is l2:
                    got = B.or_(got, rc2[mk.blk])
            cond = rc2[b]
            upd = B.false
            for x, _ in us:
                if f.loop_of(x.blk) is l2:
                    upd = B.or_(upd, rc2[x.blk])
            if b_is_descriptor_lookup(f, l, b, l2, upd, rc2, us):
                continue
            ok = any(B.implies(B.and_(cond, B.and_(lt, old)), got) for lt in lts or [B.true])
            ctx.check('cards-rebuilt', f, 'reference at %s' % show(sub(a, obj), f), ok, 'a reference to a younger object is remembered only when ' + showg(f, got) if got != B.false else 'references to younger objects are not remembered', i)


def b_is_descriptor_lookup(f, l, b, l2, upd, rc2, us):
    """the look-up of the object's descriptor, whose result is only used and
    not stored: some path from it does not even ask whether to store"""
    B = f.bdd
    if l2 is not l:
        return False
    # a store of this call's own result
    call = [j for j in f.blocks[b] if j.is_call() and is_btcall(f, f.vterm(j.id))]
    ids = {j.id for j in call}
    for x, _ in us:
        if uses(f, x.ops[0], ids):
            return False
    return True


def uses(f, o, ids, depth=8):
    if o[0] != 'v' or depth == 0:
        return False
    if o[1] in ids:
        return True
    i = f.ins.get(o[1])
    if i is None:
        return False
    ops = list(i.ops)
    if i.op == 'phi':
        ops = [x for x, p in i.d['inc']]
    if 'gep' in i.d:
        ops += [i.d['gep']['base']] + [x for sc, x in i.d['gep']['var']]
    return any(uses(f, x, ids, depth - 1) for x in ops)


def rc_body(f, l):
    """the condition for another round"""
    B = f.bdd
    out = B.true
    for x, y, c in f.exit_info(l):
        if x == l.header:
            out = B.and_(out, B.not_(c))
    return out


def C09(ctx):
    from . import rules_alloc, rules_pools, rules_promo
    ctx.rule('old-allocation', 'placing an object in an older generation records the start of the free space after it as first object of its card, exactly if that is a card later than the one the object starts on and within the pool, and marks the end of the objects there')
    ctx.rule('pool', 'a pool taken for an older generation has no card marked and its first object recorded for the card its objects start on')
    for cfg in CONFS2:
        f = ctx.func(cfg, 'ggggc_collect0')
        cards_scanned(ctx, f)
        cleared(ctx, f)
        if cfg != 'g2dbg':
            rules_promo.cards_forgotten(ctx, cfg)
        rules_alloc.gen1_rules(ctx, cfg, ('first', 'end'))
        rules_pools.new_gen(ctx, cfg)
        after_compaction(ctx, ctx.func(cfg, 'ggggc_postCompact'))
