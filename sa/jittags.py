"""The extended-tag JIT stack: a word of eight tags, one byte each, 0xFF ending
the run, followed by one stack word per tag.  One pass over such a group is
evaluated over the finite domain (offset from the tag word, byte of the tag
word, known facts about the current tag), with every other condition taken
both ways; the pass must look at every tag, take exactly the words whose tag
has the lowest bit clear, and go on after the last word of the group."""


def strip(o):
    return o


class Tags:
    def __init__(self, f, loop, cur, topf, effects, kind):
        """loop: the loop whose every pass handles one group; cur: id of its
        cursor phi; effects: {instruction id: 'store'|'add'}"""
        self.f = f; self.L = loop; self.cur = cur; self.topf = topf
        self.effects = effects; self.kind = kind
        self.probs = []
        self.tagloops()

    def tagloops(self):
        """headers of the loops within the walk that go through the tags of a
        group: those that compare a part of the tag word with the end mark"""
        f = self.f
        ok = {self.L.header}
        for b in self.L.blocks:
            for i in f.blocks[b]:
                if i.op != 'icmp' or not any(o[0] == 'c' and o[1] & 255 == 255 for o in i.ops):
                    continue
                seen = set(); st = [o[1] for o in i.ops if o[0] == 'v']; hit = False
                while st and not hit:
                    v = st.pop()
                    if v in seen or v not in f.ins:
                        continue
                    seen.add(v)
                    if v == self.cur:
                        hit = True
                        break
                    d = f.ins[v]
                    if d.op == 'phi':
                        st += [o[1] for o, p in d.d['inc'] if o[0] == 'v']
                    elif d.op == 'getelementptr':
                        g = d.d['gep']
                        st += [o[1] for o in [g['base']] + [o for _, o in g['var']] if o[0] == 'v']
                    elif d.op in ('zext', 'trunc', 'and', 'lshr', 'load', 'add', 'sub', 'sext', 'select', 'freeze'):
                        st += [o[1] for o in d.ops if o[0] == 'v']
                if hit:
                    for l in f.loop_chain(b):
                        ok.add(l.header)
                        if l is self.L:
                            break
        self.ok = ok
        self.heads = {l.header for l in f.loops().values()}

    def bad(self, s):
        if s not in self.probs:
            self.probs.append(s)

    def val(self, o, env):
        if o[0] == 'c':
            return o[1] & ((1 << (o[2] or 64)) - 1) if len(o) > 2 else o[1]
        if o[0] == 'n':
            return 0
        if o[0] == 'v':
            return env.get(o[1])
        if o[0] == 'gep':
            return self.gep(o[1], env)
        return None

    def gep(self, g, env):
        b = self.val(g['base'], env)
        if not (isinstance(b, tuple) and b[0] == 'P'):
            return None
        off = b[1] + g['off']
        for s, o in g['var']:
            v = self.val(o, env)
            if not isinstance(v, int):
                return None
            if v >= 1 << 63:
                v -= 1 << 64
            elif v >= 1 << 31 and v < 1 << 32:
                v -= 1 << 32
            off += s * v
        return ('P', off)

    def step(self, i, env, facts):
        """value of a non-branching instruction; 'U' unknown is None"""
        op = i.op
        w = i.d.get('w') or 64
        M = (1 << w) - 1
        if op == 'getelementptr':
            return self.gep(i.d['gep'], env)
        if op == 'load':
            a = self.val(i.ops[0], env)
            if isinstance(a, tuple) and a[0] == 'P':
                sz = i.d.get('sz')
                if sz == 8 and a[1] == 0:
                    return ('W', 0)
                if sz == 8 and a[1] % 8 == 0 and a[1] > 0:
                    return ('L', a[1] // 8 - 1)
                if sz == 1 and 0 <= a[1] < 8:
                    return ('M', 8 * a[1], 255)
            return None
        if op in ('zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return self.val(i.ops[0], env)
        vs = [self.val(o, env) for o in i.ops]
        if op == 'trunc':
            v = vs[0]
            if isinstance(v, int):
                return v & M
            if isinstance(v, tuple) and v[0] == 'W' and w <= 8:
                return ('M', v[1], M & 255)
            if isinstance(v, tuple) and v[0] == 'M':
                return ('M', v[1], v[2] & M)
            return None
        if len(vs) == 2 and op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = vs
            if isinstance(a, int) and isinstance(b, int):
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'shl': a << min(b, 64), 'lshr': a >> min(b, 64),
                     'ashr': a >> min(b, 64), 'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
                return r & M
            if op == 'lshr' and isinstance(a, tuple) and isinstance(b, int):
                if a[0] == 'W':
                    return ('W', a[1] + b) if a[1] + b < 64 else 0
                if a[0] == 'M':
                    return ('M', a[1] + b, a[2] >> b) if a[2] >> b else 0
            if op == 'and':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(a, tuple) and isinstance(b, int):
                    if a[0] == 'W' and b <= 255:
                        return ('M', a[1], b)
                    if a[0] == 'M':
                        return ('M', a[1], a[2] & b) if a[2] & b else 0
            if op in ('add', 'sub') and isinstance(a, tuple) and a[0] == 'P' and isinstance(b, int):
                b = b - (1 << 64) if b >= 1 << 63 else b
                return ('P', a[1] + (b if op == 'add' else -b))
            return None
        return None

    def decide(self, i, env):
        """of an icmp: int 0/1, ('fact', kind, k, truth-when) or None"""
        a, b = (self.val(o, env) for o in i.ops)
        p = i.d['pred']
        w = 64
        if isinstance(a, int) and isinstance(b, int):
            ow = [o[2] for o in i.ops if o[0] == 'c' and len(o) > 2 and o[2]]
            w = ow[0] if ow else 64
            def sg(x):
                return x - (1 << w) if x >> (w - 1) & 1 else x
            if p[0] == 's':
                a, b = sg(a), sg(b)
            r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
            return int(r)
        if p in ('eq', 'ne'):
            if isinstance(a, int):
                a, b = b, a
            if isinstance(a, tuple) and isinstance(b, int):
                t = 1 if p == 'eq' else 0
                if a[0] == 'M' and a[1] % 8 == 0:
                    if b == 255 and a[2] == 255:
                        return ('fact', 'ff', a[1] // 8, t)
                    if a[2] == 1 and b in (0, 1):
                        return ('fact', 'ref', a[1] // 8, t if b == 0 else 1 - t)
                if a[0] == 'L' and b == 0:
                    return ('fact', 'null', a[1], t)
                if a[0] == 'P' and b == 0:
                    return 1 - t
            return None
        # cursor against top
        sw = {'ult': 0, 'uge': 0, 'ugt': 1, 'ule': 1, 'slt': 0, 'sge': 0, 'sgt': 1, 'sle': 1}
        if p in sw:
            x, y = (i.ops if not sw[p] else i.ops[::-1])
            vx = self.val(x, env)
            if isinstance(vx, tuple) and vx[0] == 'P' and self.f.term(y) == self.topf:
                t = 1 if p in ('ult', 'slt', 'ugt', 'sgt') else 0
                return ('fact', 'more', vx[1], t)
        return None

    def judge(self, fc, k):
        """everything about tag k has been seen"""
        d = fc.get(k, {})
        if d.get('ff') != 0:
            return
        if d.get('ref') == 0 or d.get('null') == 1:
            return
        if not d.get('done'):
            self.bad('the word of tag %d is not %s although it holds a reference' % (k + 1, 'taken' if self.kind == 'scan' else 'updated'))

    def act(self, i, env, fc):
        if i.id not in self.effects:
            return fc
        if self.kind == 'scan':
            v = self.val(i.ops[0], env)
        else:
            vs = [v for v in (self.val(o, env) for o in i.ops) if isinstance(v, tuple) and v[0] in ('L', 'W')]
            v = vs[0] if vs else None
        if isinstance(v, tuple) and v[0] == 'P' and v[1] > 0 and v[1] % 8 == 0:
            k = v[1] // 8 - 1
        elif isinstance(v, tuple) and v[0] == 'L':
            k = v[1]
        elif isinstance(v, tuple) and v[0] in ('P', 'W'):
            self.bad('the tag word itself is treated as a reference')
            return fc
        else:
            return fc
        d = fc.get(k, {})
        if d.get('ff') != 0:
            self.bad('the word after tag %d is treated as a reference without that tag being there' % k)
        elif d.get('ref') != 1:
            self.bad('the word of tag %d is treated as a reference although its tag says otherwise' % (k + 1))
        fc = dict(fc)
        fc[k] = dict(d, done=1)
        return fc

    def run(self):
        f = self.f
        h = self.L.header
        inside = set(self.L.blocks)
        live = f.live_blocks()
        start = (h, None, ((self.cur, ('P', 0)),), ())
        seen = set(); work = [start]; n = 0
        while work:
            s = work.pop()
            if s in seen:
                continue
            seen.add(s)
            n += 1
            if n > 20000:
                self.bad('the passes over the tags of a group do not come to an end')
                break
            b, pb, envt, fct = s
            env = dict(envt); fc = {k: dict(d) for k, d in fct}
            if b not in inside:
                # left the loop: only at the top, at the end of the stack
                top = fc.get('more', {})
                if not (top.get(0) == 0 and len(fc) == 1):
                    self.bad('the walk over a stack can be left before its end')
                continue
            if b == h and pb is not None:
                # next group
                nxt = None
                for i in f.blocks[b]:
                    if i.op == 'phi' and i.id == self.cur:
                        for o, p in i.d['inc']:
                            if p == pb:
                                nxt = self.val(o, env)
                ks = [k for k in fc if k != 'more']
                c = sum(1 for k in ks if fc[k].get('ff') == 0)
                m = max(ks) if ks else -1
                for k in ks:
                    self.judge(fc, k)
                c = (m + 1) if (m >= 0 and fc[m].get('ff') == 0) else m
                if m < 0:
                    self.bad('a group can be passed over without its tags being looked at')
                    continue
                if fc[m].get('ff') != 1 and m != 7:
                    self.bad('the tags after tag %d of a group are never looked at' % (m + 1))
                elif nxt != ('P', 8 * (c + 1)):
                    self.bad('after a group of %d words the walk goes on at %s, not at the word after the group' % (c, 'word %d' % (nxt[1] // 8) if nxt else 'an unknown place'))
                continue
            # phis first
            if pb is not None:
                new = {}
                for i in f.blocks[b]:
                    if i.op == 'phi':
                        v = None
                        for o, p in i.d['inc']:
                            if p == pb:
                                v = self.val(o, env)
                        if isinstance(v, int) and b in self.heads and b not in self.ok:
                            v = None
                        new[i.id] = v
                for k, v in new.items():
                    if v is None:
                        env.pop(k, None)
                    else:
                        env[k] = v
            nexts = None
            for i in f.blocks[b]:
                if i.op == 'phi':
                    continue
                fc = self.act(i, env, fc)
                if i.op == 'icmp':
                    v = self.decide(i, env)
                elif i.op == 'select':
                    c = self.val(i.ops[0], env)
                    v = self.val(i.ops[1 if c else 2], env) if isinstance(c, int) else None
                elif i.op == 'xor' and len(i.ops) == 2 and i.ops[1][0] == 'c' and i.d.get('w') == 1:
                    v = self.val(i.ops[0], env)
                    if isinstance(v, tuple) and v[0] == 'fact':
                        v = v[:3] + (1 - v[3],)
                    elif isinstance(v, int):
                        v = 1 - v
                    else:
                        v = None
                elif i.op in ('br', 'store', 'ret', 'switch', 'unreachable') or i.is_call():
                    v = None
                else:
                    v = self.step(i, env, fc)
                if v is None:
                    env.pop(i.id, None)
                else:
                    env[i.id] = v
            t = f.term_instr(b)
            outs = []
            if t.op == 'br' and len(t.ops) == 3:
                # successor taken when true: ops[2]; when false: ops[1]
                yes, no = t.ops[2][1], t.ops[1][1]
                c = self.val(t.ops[0], env)
                if isinstance(c, tuple) and c[0] == 'M' and c[2] == 1:
                    c = ('fact', 'ref', c[1] // 8, 0)
                if isinstance(c, int):
                    outs = [(yes if c else no, fc)]
                elif isinstance(c, tuple) and c[0] == 'fact':
                    for tgt, r in ((yes, 1), (no, 0)):
                        g = self.assume(fc, c[1], c[2], c[3] if r else 1 - c[3])
                        if g is not None:
                            outs.append((tgt, g))
                else:
                    outs = [(x, fc) for x in f.lsucc(b)]
            else:
                outs = [(x, fc) for x in f.lsucc(b)]
            e2 = tuple(sorted(((k, v) for k, v in env.items()), key=lambda x: x[0]))
            for x, g in outs:
                if x in live:
                    work.append((x, b, e2, tuple(sorted(((k, tuple(sorted(d.items()))) for k, d in g.items()), key=lambda y: str(y[0])))))
        return self.probs

    def assume(self, fc, kind, k, v):
        if kind == 'more':
            d = fc.get('more', {})
            if k in d:
                return fc if d[k] == v else None
            g = dict(fc); g['more'] = dict(d, **{})
            g['more'] = {**d, k: v}
            return g
        d = fc.get(k, {})
        if kind in d:
            return fc if d[kind] == v else None
        g = dict(fc); g[k] = {**d, kind: v}
        if kind == 'ff':
            ks = [x for x in fc if x != 'more']
            prev = max(ks) if ks else -1
            if k != prev + 1 and k not in fc:
                self.bad('tag %d is looked at before tag %d' % (k + 1, prev + 2))
            for x in ks:
                if x < k:
                    if fc[x].get('ff') != 0:
                        self.bad('tags after the end mark are looked at')
                    self.judge(fc, x)
            # earlier words are finished with
            for x in ks:
                if x < k:
                    del g[x]
        if v == 1 and kind == 'ff' and g[k].get('ref') == 1:
            return None
        return g


def check(f, e, effects, kind):
    """problems of the walk over the groups of one stack.  e: the enumeration
    found for it (walk over the list of stacks); effects: ids of the
    instructions that take or update a word"""
    best = None
    for l in {id(x): x for x in f.loops().values()}.values():
        if l is e.outer or not set(l.blocks) < set(e.outer.blocks):
            continue
        if not any(b in l.blocks for b in (x.blk for x in effects)):
            continue
        for i in f.blocks[l.header]:
            if i.op != 'phi':
                continue
            ini = [o for o, p in i.d['inc'] if p not in l.blocks]
            if not ini or any(f.term(o) != e.curf for o in ini):
                continue
            t = Tags(f, l, i.id, e.topf, {x.id for x in effects}, kind)
            t.run()
            if best is None or len(t.probs) < len(best[1]):
                best = (l, t.probs)
    if best is None:
        return None, ['the words of a stack are not gone through from cur to top']
    return best
