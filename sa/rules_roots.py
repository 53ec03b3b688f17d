"""C07: root enumeration. C08: which words of an object are traced."""
from .core import *
from .trav import *
from . import jittags

GEMBC = ['g2', 'g2all', 'g3all', 'g2ext', 'g1all', 'g2dbg']
PMS = ['pms', 'pmsall', 'pmsext', 'pmsdbg']


def slot_lits(slot, val, extra=()):
    """conditions under which a reference need not be handled: not there, null,
    tagged"""
    def lit(at):
        if at[0] == 'eq0':
            t = at[1]
            if t == slot or t == val:
                return False
            if t[0] == 'and' and t[1] == val and t[2] & ~7 == 0:
                return True
            if t[0] == 'call' and t in extra:
                return False
        return None
    return lit


def resets(f):
    """blocks in which the worklist is emptied"""
    out = []
    for i, a, v in stores(f):
        if v == NULL:
            b = f.asfield(a, 'ToSearch', 'used')
            if b is not None and b[0] in ('g', 'al'):
                out.append(i.blk)
    return out


def report_guard(f, gs):
    return '; '.join('it is skipped unless ' + showg(f, g) for l, g in gs)


def has_jit(f):
    return f.mod.off('GGGGC_JITPointerStackList', 'cur') is not None


def root_adds(f, ptr_of):
    """worklist additions: (instruction, slot address, kind)"""
    out = []
    for i, v in worklist_adds(f):
        yield i, v


def check_scan(ctx, f, kind, deref):
    """f enqueues every root: deref 0: the slot's address is enqueued; 1: the
    slot's value is"""
    B = f.bdd
    frames = []; jits = []
    for i, v in worklist_adds(f):
        if deref:
            if v[0] != 'ld':
                continue
            slot = v[1]
        else:
            slot = v
        # frames: the slot is what a frame's entry holds
        if slot[0] == 'ld':
            e = enum_frames(f, i.blk, slot[1])
            if e is not None:
                frames.append((i, slot, e))
        e = enum_jit(f, i.blk, slot)
        if e is not None:
            jits.append((i, slot, e))
    pops = [i for i in worklist_pops(f)] if not deref else None
    drained(ctx, f, deref)
    judge(ctx, f, kind, 'root stacks', frames, lambda i, slot, e: slot_lits(slot, ('ld', slot, 8)), pops)
    if has_jit(f):
        judge(ctx, f, kind, 'JIT stacks', jits,
              lambda i, slot, e: slot_lits(slot, ('ld', slot, 8)), pops)


def drained(ctx, f, inplace):
    """whatever is added to the worklist is searched: a search loop follows,
    which ends only when the list is empty"""
    ctx.rule('search-complete', 'whatever is added to the worklist is taken off again by a loop which is left only when the list is empty (or the whole search is started over)')
    B = f.bdd
    rets = [b for b in f.order if f.term_instr(b).op == 'ret']
    rs = resets(f)
    heads = []
    live = f.live_blocks()
    for p in worklist_pops(f):
        ch = f.loop_chain(p.blk)
        ok = False
        for l in ch:
            bad = None
            good = 0
            for a, b, c in f.exit_info(l):
                sup = B.support(c)
                if c > 1 and any(at[0] == 'eq0' and at[1][0] == 'ld' and f.asfield(at[1][1], 'ToSearch', 'used') is not None and B.implies(c, B.var(at)) for at in sup):
                    good += 1
                    continue
                if passes(f, b, rets, rs) and rs:
                    continue
                bad = (a, b, c)
            if good:
                heads.append(l)
                ctx.check('search-complete', f, 'search ends empty', bad is None, 'the search loop can be left with entries on the worklist%s' % (
                    (', when ' + showg(f, bad[2])) if bad else ''), p)
                ok = True
                break
        if not ok:
            ctx.check('search-complete', f, 'search ends empty', False, 'the search does not go on until the worklist is empty', p)
    hs = {l.header for l in heads}
    tg = rets + (rs if inplace else [])
    for i, v in worklist_adds(f):
        r = f.reach(f.lsucc(i.blk), avoid=hs)
        hit = [t for t in tg if t in r]
        ctx.check('search-complete', f, 'searched after adding ' + ('a root' if i.blk not in {b for l in heads for b in l.blocks} else 'a field'), not hit,
                  'what is added here is not searched on some path', i)


def judge(ctx, f, kind, what, cands, litfn, pops):
    if not cands:
        ctx.check('roots-' + kind, f, what, False, 'no entry of the %s is taken as a root' % what)
        return
    best = None
    for i, slot, e in cands:
        probs = list(e.problems)
        if e.what == 'jit' and not e.simple:
            gs = tagged(f, e, [x for x, _, e2 in cands if e2.outer is e.outer and not e2.simple], 'scan', probs)
        else:
            gs = guard_within(f, i.blk, e.outer, litfn(i, slot, e))
        if gs:
            probs.append(report_guard(f, gs))
        if pops is not None:
            rs = resets(f)
            gt = gates(f, e.outer)
            inside = set(e.outer.blocks)
            for p in pops:
                if p.blk in inside:
                    continue        # marking right away
                starts = [f.entry]
                for r in rs:
                    starts += f.lsucc(r)
                if not all(passes(f, s, [p.blk], gt) for s in starts):
                    probs.append('the worklist can be searched (%s) without all of the %s having been added since it was emptied' % (p.where(), what))
                    break
        if best is None or len(probs) < len(best[1]):
            best = (i, probs)
    i, probs = best
    ctx.check('roots-' + kind, f, what, not probs, '; '.join(probs), i)


def tagged(f, e, effects, kind, probs):
    loop, ps = jittags.check(f, e, effects, kind)
    probs += ps
    return guard_within(f, loop.header, e.outer, lambda at: None) if loop else []


def rule_texts(ctx):
    ctx.rule('roots-scan', 'for every list of root stacks, stack, frame and entry, the entry is added to the worklist before the worklist is searched, unless it is null or tagged')
    ctx.rule('roots-update', 'a compacting collection re-points every entry of every frame of every stack, unless it is null, tagged or has no relocation entry')
    ctx.rule('roots-marked', 'the mark-and-sweep collector marks from every entry of every frame of every stack before it sweeps')


def updates(ctx, f):
    """collectFull: slots are re-pointed"""
    B = f.bdd
    frames = []; jits = []; jit2 = []
    for b in f.order:
        for i in f.blocks[b]:
            if i.op != 'store':
                continue
            S = f.term(i.ops[1])
            cases = effect_cases(f, i)
            if not any(any(is_btcall(f, u) for u in subterms(t)) for c, a, t in cases):
                continue
            x = ('ld', S, 8)
            e = None; l = frames
            if S[0] == 'ld':
                e = enum_frames(f, i.blk, S[1])
            if e is None:
                e = enum_jit(f, i.blk, S); l = jits
            if e is None:
                continue
            probs = list(e.problems)
            full = B.false
            ks = []
            for c, a, t in cases:
                k = follow_of(f, t, x)
                if k is None:
                    probs.append('the entry becomes %s, which is not its object\'s new address' % show(t, f))
                    continue
                if not btcall_args_ok(f, k, x):
                    probs.append('the relocation entry is not looked up for the object in its own pool')
                ks.append(k)
                full = B.or_(full, c)
            lit = slot_lits(S, x, ks)
            loop = f.loop_of(i.blk)
            al = assume_lits(f, loop) if loop else {}
            if l is jits and not e.simple:
                calls = [f.ins[k[1]] for k in ks]
                # once looked up, updated unless there is no relocation entry
                for k in calls:
                    if f.loop_of(k.blk) is not loop:
                        probs.append('the entry is looked up and updated in different loops')
                        continue
                    g = residual(f, B.or_(full, B.not_(f.region_conds(loop)[k.blk])), al, lit)
                    if g != B.true:
                        probs.append(report_guard(f, [(loop, g)]))
                jit2.append((i, e, probs, calls))
            else:
                g = residual(f, full, al, lit)
                gs = [(l2, g2) for l2, g2 in guard_within(f, i.blk, e.outer, lit) if l2 is not loop]
                if g != B.true:
                    gs.append((loop, g))
                if gs:
                    probs.append(report_guard(f, gs))
            gt = gates(f, e.outer)
            ends = [b2 for b2 in f.order if f.term_instr(b2).op == 'ret']
            if not passes(f, f.entry, ends, gt):
                probs.append('a full collection can end without the update')
            l.append((i, probs))
    for i, e, probs, calls in jit2:
        gs = tagged(f, e, [k for x, e2, _, ks in jit2 if e2.outer is e.outer for k in ks], 'update', probs)
        if gs:
            probs.append(report_guard(f, gs))
    for what, l in (('root stacks', frames), ('JIT stacks', jits)):
        if what == 'JIT stacks' and not has_jit(f):
            continue
        if not l:
            ctx.check('roots-update', f, what, False, 'no entry of the %s is given its object\'s new address' % what)
            continue
        i, probs = min(l, key=lambda x: len(x[1]))
        ctx.check('roots-update', f, what, not probs, '; '.join(probs), i)


def scan_all(ctx):
    rule_texts(ctx)
    for cfg in GEMBC:
        if cfg != 'g1all':
            f = ctx.func(cfg, 'ggggc_collect0')
            check_scan(ctx, f, 'scan', 0)
        f = ctx.func(cfg, 'ggggc_collectFull')
        check_scan(ctx, f, 'scan', 0)
        updates(ctx, f)
    for cfg in PMS:
        f = ctx.func(cfg, 'ggggc_collect0')
        check_scan(ctx, f, 'marked', 1)
        pms_before_sweep(ctx, f)


def sweep_blocks(f):
    """blocks which sweep: they change free-list links or clear marks"""
    out = []
    for i, a, v in stores(f):
        if f.asfield(a, 'GGGGC_Pool', 'survivors') is not None:
            out.append(i.blk)
    return out


def pms_before_sweep(ctx, f):
    ctx.rule('mark-before-sweep', 'marking from the roots happens on every path, before the first pool is swept')
    sw = sweep_blocks(f)
    ends = [b for b in f.order if f.term_instr(b).op == 'ret']
    for what in ('root stacks', 'JIT stacks'):
        if what == 'JIT stacks' and not has_jit(f):
            continue
        outer = None
        for i, v in worklist_adds(f):
            if v[0] != 'ld':
                continue
            e = None
            if what == 'root stacks' and v[1][0] == 'ld':
                e = enum_frames(f, i.blk, v[1][1])
            elif what == 'JIT stacks':
                e = enum_jit(f, i.blk, v[1])
            if e is not None:
                outer = e.outer
        if outer is None:
            continue
        gt = gates(f, outer)
        ok = passes(f, f.entry, ends, gt)
        ctx.check('mark-before-sweep', f, what + ' always', ok, 'a collection can end without marking from the %s' % what)
        r = f.reach(sw)
        ctx.check('mark-before-sweep', f, what + ' first', bool(sw) and outer.header not in r, 'pools are swept before all of the %s have been marked from' % what if sw else 'no sweep found')


def C07(ctx):
    scan_all(ctx)
    from . import rules_sync
    rules_sync.publication(ctx)
