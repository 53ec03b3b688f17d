"""C02: root registration. A flow-sensitive interpretation of the root stack:
where its top points, and what the frames in the function's own storage hold."""
from .core import *
from .interp import Interp, Give, start, showv

PS = 'ggggc_pointerStack'
PSG = 'ggggc_pointerStackGlobals'
DRV = os.path.join(build.DRIVERS, 'push.c')
CONFS = ['g2', 'g2all', 'g1all', 'g2dbg', 'pms', 'pmsall', 'nognuc', 'cxx', 'cxxnognuc']
LIMIT = 60000


class PushFlow:
    def __init__(self, f, driver):
        self.f = f; self.driver = driver
        self.frames = []      # (instr, set of pointers, size, state)
        self.bad = {}
        self.sizes = {}
        self.esc = set()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'alloca':
                    n = i.ops[0][1] if i.ops and i.ops[0][0] == 'c' else None
                    self.sizes[i.id] = i.d['sz'] * n if n is not None else None
        self.ho = f.mod.off('GGGGC_PointerStack', 'size')
        self.po = f.mod.off('GGGGC_PointerStack', 'pointers')
        self.no = f.mod.off('GGGGC_PointerStack', 'next')
        self.states = 0
        self.rets = 0

    def report(self, what, i, d):
        self.bad.setdefault(what, (i, d))

    # value of an operand
    def val(self, st, o):
        k = o[0]
        if k == 'v':
            if o[1] in st['env']:
                return st['env'][o[1]]
            if o[1] in self.f.argids:
                return ('arg', self.f.argids[o[1]])
            return ('x', o[1])
        if k == 'c': return C(o[1])
        if k == 'n': return NULL
        if k in ('g', 'f'): return (k, o[1])
        if k == 'gep':
            g = o[1]
            return lin(g['off'], [(self.val(st, g['base']), 1)] + [(self.val(st, x), sc) for sc, x in g['var']])
        if k == 'ce' and o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return self.val(st, o[2][0])
        return ('x', repr(o)[:40])

    def keep(self, v):
        """values worth following"""
        c, p = parts_of(v)
        return all(t[0] in ('al', 'g', 'e', 'f', 'arg', 'ldg') for t in p)

    def loc(self, a):
        """(alloca, offset) / 'PS' / None"""
        c, p = parts_of(a)
        if a == ('g', PS):
            return 'PS'
        if len(p) == 1:
            t, k = list(p.items())[0]
            if k == 1 and t[0] == 'al':
                return (t[1], c)
        als = [t for t in p if t[0] == 'al']
        if als:
            return (als[0][1], None)
        return None

    def load(self, st, i):
        a = self.val(st, i.ops[0])
        l = self.loc(a)
        if l == 'PS':
            return st['ps']
        if l and l[1] is not None:
            return st['mem'].get(l, ('x', i.id))
        c, p = parts_of(a)
        if len(p) == 1:
            t, k = list(p.items())[0]
            if t[0] == 'e' and c == self.no and k == 1:
                return ('e', t[1] + 1)
        return ('x', i.id)

    def publish(self, st, i, v):
        """the stack top is set to v"""
        old = st['ps']
        if v[0] == 'e':
            st['ps'] = v
            return
        l = self.loc(v)
        if not l or l[1] is None:
            self.report('unknown top', i, 'the root stack is set to something that is neither one of this function\'s frames nor an earlier top')
            st['ps'] = ('x', i.id)
            return
        al, off = l
        nxt = st['mem'].get((al, off + self.no))
        sz = st['mem'].get((al, off + self.ho))
        # going back to a frame published before?
        if l in st['live']:
            st['ps'] = v
            while st['live'] and st['live'][-1] != l:
                st['live'] = st['live'][:-1]
            return
        if nxt != old:
            self.report('link', i, 'a frame becomes visible whose next link is not the frame below it')
        if sz is None or sz[0] != 'c':
            self.report('size', i, 'a frame becomes visible before its size is set')
        else:
            n = sz[1]
            got = []
            for j in range(n):
                x = st['mem'].get((al, off + self.po + 8 * j))
                if x is None:
                    self.report('entry', i, 'a frame of %d entries becomes visible before entry %d is set' % (n, j))
                    break
                got.append(x)
            size = self.sizes.get(al)
            if size is not None and off + self.po + 8 * n > size:
                self.report('frame room', i, 'a frame of %d entries lies in storage for fewer' % n)
            self.frames.append((i, tuple(got), n, {k: x for k, x in st['mem'].items()}, al))
        st['ps'] = v
        st['live'] = st['live'] + (l,)
        st['yield'] = i.id
        st['pub'] = True

    def store(self, st, i):
        a = self.val(st, i.ops[1]); v = self.val(st, i.ops[0])
        l = self.loc(a)
        if l == 'PS':
            if l == 'PS':
                c, p = parts_of(v)
                # popped: the live frames above go
                if v[0] == 'e' or (self.loc(v) in st['live'] if self.loc(v) else False):
                    tgt = self.loc(v)
                    lv = st['live']
                    if v[0] == 'e':
                        lv = ()
                    else:
                        lv = lv[:lv.index(tgt) + 1]
                    if len(st['live']) - len(lv) > 1:
                        self.report('pop order', i, 'more than one frame is removed at once')
                    st['live'] = lv
                    st['ps'] = v
                    st['yield'] = None
                    return
                self.publish(st, i, v)
            return
        if l is None:
            return
        al, off = l
        if off is None:
            for k in [k for k in st['mem'] if k[0] == al]:
                del st['mem'][k]
            return
        sz = i.d['sz']
        # the frames now on the stack do not change
        for (fa, fo) in st['live']:
            if fa == al:
                n = st['mem'].get((fa, fo + self.ho))
                n = n[1] if n and n[0] == 'c' else 0
                if fo <= off < fo + self.po + 8 * n:
                    self.report('frame changed', i, 'a frame is changed while it is on the stack')
        for k in [k for k in st['mem'] if k[0] == al and off - 8 < k[1] < off + sz]:
            del st['mem'][k]
        if sz == 8 and (self.keep(v) or True):
            st['mem'][l] = v

    def memcpy(self, st, i):
        d = self.val(st, i.ops[0]); s = self.val(st, i.ops[1]); n = self.val(st, i.ops[2])
        ld_, ls = self.loc(d), self.loc(s)
        if not ld_ or ld_ == 'PS':
            return
        al, off = ld_
        if n[0] != 'c' or off is None:
            for k in [k for k in st['mem'] if k[0] == al]:
                del st['mem'][k]
            return
        src = {}
        for j in range(0, n[1] - 7, 8):
            if ls and ls != 'PS' and ls[1] is not None:
                x = st['mem'].get((ls[0], ls[1] + j))
                if x is not None:
                    src[off + j] = x
            else:
                x = self.const(s, j)
                if x is not None:
                    src[off + j] = x
        for k in [k for k in st['mem'] if k[0] == al and off - 8 < k[1] < off + n[1]]:
            del st['mem'][k]
        for o, x in src.items():
            st['mem'][(al, o)] = x

    def const(self, s, j):
        """word j of a constant global"""
        c, p = parts_of(s)
        if len(p) == 1:
            t = list(p)[0]
            if t[0] == 'g':
                g = self.f.mod.globals.get(t[1])
                if g and g.get('init'):
                    return word_of(g['init'], c + j)
        return None

    def run(self):
        f = self.f
        st = {'env': {}, 'mem': {}, 'ps': ('e', 0), 'live': (), 'yield': None, 'pub': False, 'must': False}
        work = [(f.entry, None, st)]
        seen = set()
        live = Interp.liveness(self)
        while work:
            b, frm, st = work.pop()
            st = dict(st, env=dict(st['env']), mem=dict(st['mem']))
            vals = []
            for i in f.blocks[b]:
                if i.op != 'phi': break
                for o, p in i.d['inc']:
                    if p == frm:
                        vals.append((i.id, self.val(st, o)))
            for k, v in vals:
                # only whereabouts are followed round a loop, not numbers
                st['env'][k] = v if self.keep(v) or v[0] == 'c' and b not in self.heads() else ('x', k)
            st['env'] = {k: v for k, v in st['env'].items() if k in live[b]}
            key = (b, tuple(sorted(st['env'].items(), key=repr)), tuple(sorted(st['mem'].items(), key=repr)), st['ps'], st['live'], st['yield'], st['must'])
            if key in seen:
                continue
            seen.add(key)
            self.states += 1
            if self.states > LIMIT:
                raise Give('too many states')
            dead = False
            for i in f.blocks[b]:
                op = i.op
                if op == 'phi': continue
                if op == 'alloca':
                    st['env'][i.id] = ('al', i.id)
                elif op == 'load':
                    if self.val(st, i.ops[0]) == ('g', 'ggggc_stopTheWorld'):
                        st['env'][i.id] = ('ldg', 'stop')
                    else:
                        st['env'][i.id] = self.load(st, i)
                elif op == 'store':
                    self.store(st, i)
                elif op == 'getelementptr':
                    st['env'][i.id] = self.val(st, ['gep', i.d['gep']])
                elif op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
                    st['env'][i.id] = self.val(st, i.ops[0])
                elif op == 'icmp':
                    st['env'][i.id] = self.cmp(i, self.val(st, i.ops[0]), self.val(st, i.ops[1]))
                elif op in ('call', 'invoke'):
                    c = i.callee()
                    if c and c.startswith('llvm.threadlocal.address'):
                        st['env'][i.id] = self.val(st, i.ops[0])
                    elif c and c.startswith('llvm.expect'):
                        st['env'][i.id] = self.val(st, i.ops[0])
                    elif c and (c.startswith('llvm.memcpy') or c in ('memcpy', 'memmove') or c.startswith('llvm.memmove')):
                        self.memcpy(st, i)
                    elif c and (c.startswith('llvm.memset') or c == 'memset'):
                        l = self.loc(self.val(st, i.ops[0]))
                        if l and l != 'PS':
                            v = self.val(st, i.ops[1]); n = self.val(st, i.ops[2])
                            for k in [k for k in st['mem'] if k[0] == l[0]]:
                                if n[0] != 'c' or l[1] is None or l[1] <= k[1] < l[1] + n[1]:
                                    del st['mem'][k]
                            if v == NULL and n[0] == 'c' and l[1] is not None:
                                for j in range(0, n[1] - 7, 8):
                                    st['mem'][(l[0], l[1] + j)] = NULL
                    elif c and (c.startswith('llvm.') or c.startswith('_ZTH')):
                        pass
                    else:
                        if c == 'ggggc_yield':
                            st['yield'] = None; st['must'] = False
                        elif st['yield'] is not None and self.driver and c in ('gd_use', 'gd_ask'):
                            self.report('no yield', i, 'a frame is pushed but no yield is offered after it')
                            st['yield'] = None
                        st['env'].pop(i.id, None)
                elif op == 'select':
                    c = self.val(st, i.ops[0])
                    x = self.val(st, i.ops[1]); y = self.val(st, i.ops[2])
                    st['env'][i.id] = x if c == C(1) or x == y else y if c == NULL else ('x', i.id)
                elif op == 'ret':
                    self.rets += 1
                    if st['ps'] != ('e', 0):
                        d = 'it returns with its own frame still on the root stack'
                        if st['ps'][0] == 'e':
                            d = 'it returns having removed %d frame%s of its caller' % (st['ps'][1], 's' if st['ps'][1] > 1 else '')
                        self.report('root stack at return', i, d)
                elif op == 'unreachable':
                    dead = True
                elif op in ('br', 'switch'):
                    pass
                else:
                    st['env'].pop(i.id, None)
            t = f.blocks[b][-1]
            if t.op == 'ret' or dead:
                continue
            succ = list(f.lsucc(b))
            if t.op == 'br' and len(t.ops) == 3:
                c = self.val(st, t.ops[0])
                s1, s0 = t.d['succ'][0], t.d['succ'][1]
                if c == C(1) or c == C(-1): succ = [s1]
                elif c == NULL: succ = [s0]
                elif c[0] == 'stopped':
                    out = [(s1 if c[1] else s0, dict(st, must=True)), (s0 if c[1] else s1, dict(st, **{'yield': None}))]
                    for nb, s in out:
                        if nb in f.lsucc(b):
                            work.append((nb, b, s))
                    continue
            for nb in succ:
                if nb in f.lsucc(b):
                    work.append((nb, b, st))

    def heads(self):
        if not hasattr(self, '_heads'):
            self._heads = {l.header for l in self.f.loops().values()}
        return self._heads

    def cmp(self, i, a, b):
        p = i.d['pred']
        if p in ('eq', 'ne'):
            if ('ldg', 'stop') in (a, b) and NULL in (a, b):
                return ('stopped', p == 'ne')
            r = None
            if a == b and a[0] != 'x':
                r = True
            else:
                la, lb = self.loc(a), self.loc(b)
                ka = a[0] in ('c', 'g', 'e', 'f') or (la and la != 'PS')
                kb = b[0] in ('c', 'g', 'e', 'f') or (lb and lb != 'PS')
                # two different places known to differ; tops of the caller's
                # stack may be null
                if ka and kb and not (a[0] == 'e' or b[0] == 'e'):
                    r = False
                if (a[0] == 'e' and lb) or (b[0] == 'e' and la):
                    r = False
            if r is not None:
                return C(int(r == (p == 'eq')))
        return ('x', i.id)


def word_of(init, off):
    """the word at an offset of a constant initialiser"""
    if isinstance(init, dict):
        if 'struct' in init:
            for o, sz, v in init['struct']:
                if o <= off < o + sz:
                    return word_of(v, off - o)
            return None
        if 'array' in init:
            k = off // init['esz']
            if 0 <= k < len(init['array']):
                return word_of(init['array'][k], off - k * init['esz'])
            return None
        return None
    if not init or off < 0:
        return None
    if init[0] == 'c' and off == 0:
        return C(init[1])
    if init[0] in ('n', 'z'):
        return NULL
    if init[0] == 'g' and off == 0:
        return lin(init[2] if len(init) > 2 else 0, [(('g', init[1]), 1)])
    if init[0] == 'gep' and off == 0:
        g = init[1]
        return lin(g['off'], [((g['base'][0], g['base'][1]), 1)])
    return None


def expected(name, fl, frame):
    """the set of addresses the frame is to hold, or None"""
    i, got, n = frame[:3]
    g = lambda j: lin(8 * j, [(('g', 'gd_g'), 1)])
    import re
    m = re.match(r'gd_(?:push|manual|n)_(\d+)$', name)
    if m:
        return {g(j) for j in range(int(m.group(1)))}
    if name == 'gd_early':
        return {g(0), g(1)}
    if name in ('gd_nested', 'gd_inner_return'):
        return [{g(0)}, {g(1), g(2)}]
    if name == 'gd_mixed':
        return [{g(0)}, {g(1)}]
    if name.startswith('gd_cxx'):
        return None
    return {g(0)}


def drivers(ctx, cfg):
    m = ctx.mod(cfg, DRV)
    ctx.rule('frame', 'every push form publishes one complete frame of exactly the variables it is given, linked to the frame below')
    ctx.rule('yield', 'every push macro offers a yield once its frame is visible')
    ctx.rule('popped', 'on every way out of the scope the root stack is what it was before')
    for n, f in sorted(m.funcs.items()):
        if not n.startswith('gd_') or n in ('gd_use', 'gd_ask'):
            continue
        f.cfg = cfg
        fl = PushFlow(f, driver=not n.startswith('gd_cxx') or n == 'gd_cxx_mix')
        if n.startswith('gd_cxx'):
            fl.driver = False
        try:
            fl.run()
        except Give as e:
            ctx.check('frame', f, 'followed', False, str(e)); continue
        for what in ('link', 'size', 'entry', 'frame room', 'frame changed', 'unknown top'):
            if what in fl.bad:
                i, d = fl.bad[what]
                ctx.check('frame', f, what, False, d, where=i)
        ctx.check('yield', f, 'after the push', 'no yield' not in fl.bad, fl.bad.get('no yield', (0, ''))[1])
        ok = not (set(fl.bad) & {'root stack at return', 'pop order'})
        b = fl.bad.get('root stack at return') or fl.bad.get('pop order') or (None, '')
        ctx.check('popped', f, 'every way out', ok and fl.rets > 0, b[1] or 'it never returns', where=b[0])
        seen = {}
        for fr in fl.frames:
            seen.setdefault(fr[0].id, fr)
        frs = [seen[k] for k in sorted(seen)]
        ctx.check('frame', f, 'pushed', bool(frs), 'nothing is pushed')
        for k, fr in enumerate(fl.frames):
            e = expected(n, fl, fr)
            if e is None:
                # a C++ wrapper registers the very place that holds its value
                own = None
                for x in fr[1]:
                    l = fl.loc(x)
                    own = bool(l) and l != 'PS' and l[1] is not None and l in fr[3] and l[0] == fr[4]
                if n == 'gd_cxx_mix' and fr[1] == (('g', 'gd_g'),):
                    own = True
                if own:
                    v = fr[3].get(fl.loc(fr[1][0])) if fr[1][0][0] != 'g' else None
                    w = {'gd_cxx_default': NULL, 'gd_cxx_pad': NULL, 'gd_cxx_dad': NULL}.get(n)
                    if w is not None and v != w:
                        own = False
                    if w is None and v is not None and v[0] != 'arg':
                        own = False
                ctx.check('frame', f, 'registers its own reference', bool(own) and fr[2] == 1, 'the frame of the wrapper does not register exactly the reference the wrapper holds', where=fr[0])
                continue
            want = e if isinstance(e, list) else [e]
            got = set(fr[1])
            ctx.check('frame', f, 'entries', len(fr[1]) == fr[2] and got in [set(x) for x in want] and len(got) == len(fr[1]),
                      'the frame registers %s' % ', '.join(showv(x) for x in fr[1]), where=fr[0])


def library(ctx, cfg):
    ctx.rule('restored', 'a library function returns with the root stack as it found it, and leaves no frame of its own storage on it')
    for f in ctx.funcs(cfg):
        touches = any(a == ('g', PS) for i, a, v in stores(f))
        if not touches:
            continue
        fl = PushFlow(f, driver=False)
        try:
            fl.run()
        except Give as e:
            ctx.check('restored', f, 'every return', False, 'its root stack cannot be followed: %s' % e)
            continue
        b = None
        for k, x in fl.bad.items():
            b = b or (x[0], x[1])
        ctx.check('restored', f, 'every return', b is None, b[1] if b else '', where=b[0] if b else None)
    # the stacks are each thread's own
    ctx.rule('own', 'each thread has a root stack of its own')
    for m in ctx.mods(cfg):
        for n in (PS, PSG, 'ggc_jitPointerStack', 'ggc_jitPointerStackEnd'):
            g = m.globals.get(n)
            if g:
                ctx.check('own', n, 'in %s' % m.name.split('/')[-1], bool(g.get('tls')) , 'it is shared by all threads')
    ctx.rule('jit', 'no library function moves a bound of the JIT stack')
    for f in ctx.funcs(cfg):
        for i, a, v in stores(f):
            if a in (('g', 'ggc_jitPointerStack'), ('g', 'ggc_jitPointerStackEnd')):
                ctx.check('jit', f, 'store', False, 'it moves a bound of the JIT stack', where=i)


def globalize(ctx, cfg):
    """the copy made of the top frame"""
    ctx.rule('globalize', 'globalizing leaves a copy of every entry of the top frame, in storage that lasts, at the end of the same stack')
    f = ctx.func(cfg, 'ggggc_globalize')
    no, so, po = (f.mod.off('GGGGC_PointerStack', x) for x in ('next', 'size', 'pointers'))
    # entries copied one by one
    top_ = ld(('g', PS)); loopcopy = False
    for i, a, v in stores(f):
        r = f.addr_range(a, i.blk)
        if not r or v[0] != 'ld':
            continue
        src = v[1]
        d = sub(a, src)
        c, p = parts_of(d)
        mal = [t for t in p if t[0] == 'call' and t[2] == 'malloc' and p[t] == 1]
        if c or len(mal) != 1 or p != {mal[0]: 1, top_: -1}:
            continue
        if r[0] == add(mal[0], C(po)) and r[2] == 8 and sub(r[1], r[0]) == lin(0, [(ld(add(top_, C(so))), 8)]):
            loopcopy = True
    for case in ('first', 'first, alone', 'again', 'again, alone'):
        I = Interp(ctx, f)
        I.barriers = False
        st = start(f)
        I.segnext['stack'] = (no, False)
        top = ('o', 'top'); bot = ('o', 'bottom')
        if 'alone' in case:
            bot = top
        else:
            seg = I.newseg(st, 'stack', bot)
            st.mem[add(top, C(no))] = seg
        st.mem[add(bot, C(no))] = NULL
        n = ('any', 'n') if loopcopy else ('s', 'n', 8)
        st.mem[add(top, C(so))] = n
        st.mem[('g', PS)] = top
        st.mem[('g', PSG)] = bot if 'again' in case else NULL
        st.u['copied'] = None; st.u['n'] = n

        def malloc(I, st, i, args):
            st.u['size'] = args[0]
            a = st.copy()
            st.u['new'] = ('o', 'copy')
            st.mem[('mark', 'malloc')] = C(1)
            return [(st, ('o', 'copy')), (a, NULL)]
        I.calls['malloc'] = malloc
        I.calls['perror'] = lambda I, st, i, args: [(st, NULL)]
        I.calls['abort'] = lambda I, st, i, args: []

        def memcpy(st, i, args, I=I):
            st.u['copied'] = tuple(args[:3])
            return [st]
        I.memcpy = memcpy
        def onstore(I, st, i, a, v):
            # the entries copied one by one
            c, p = parts_of(a)
            if loopcopy and ('o', 'copy') in p and (len(p) > 1 or c >= po):
                return [st]
        I.onstore = onstore

        def onload(I, st, i, a, sz):
            c, p = parts_of(a)
            if loopcopy and top in p and (len(p) > 1 or c >= po):
                return [(st, ('s', 'entry', 8))]
        I.onload = onload
        err = None; wh = None
        try:
            I.run(st)
        except Give as e:
            err = 'it cannot be followed: %s' % e
        for k, (i, d) in I.bad.items():
            err = err or d; wh = wh or i
        if not err and not I.ends:
            err = 'it never returns'
        for s, v, ri in I.ends:
            if err: break
            new = ('o', 'copy')
            if s.u.get('new') is None:
                err = 'no storage is allocated for the copy'; break
            if s.mem.get(('g', PS), top) != top:
                err = 'the top of the stack has changed'; break
            n = s.u['n']
            c0, p0 = parts_of(sub(s.u['size'], lin(0, [(n, 8)])))
            if p0 or c0 < po:
                err = 'the storage of the copy has not room for every entry'; break
            if s.mem.get(add(new, C(so))) != n:
                err = 'the copy does not have the size of the frame'; break
            if not loopcopy and s.u['copied'] != (add(new, C(po)), add(top, C(po)), lin(0, [(n, 8)])):
                err = 'not all entries of the frame are copied'; break
            if s.mem.get(add(new, C(no))) != NULL:
                err = 'the stack does not end with the copy'; break
            if s.mem.get(('g', PSG)) != new:
                err = 'the bottom of the stack is not recorded'; break
            # from the top to the copy
            x = top; hops = 0
            while x not in (NULL, new, None) and hops < 40:
                hops += 1
                x = s.segs[x][1] if x in s.segs else s.mem.get(add(x, C(no)))
            if x != new:
                err = 'the copy is not reachable from the top of the stack'; break
            t = s.mem.get(add(top, C(so)))
            if t not in (n, NULL):
                err = 'the size of the top frame becomes %s' % showv(t); break
        ctx.check('globalize', f, case, err is None, err or '', where=wh)


def C02(ctx):
    for cfg in CONFS:
        drivers(ctx, cfg)
        library(ctx, cfg)
        if cfg in ('g2', 'pms', 'cxx'):
            globalize(ctx, cfg)
