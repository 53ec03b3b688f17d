"""What every check shares: building modules, recording obligations, and the
verdict."""
import json, os, sys, time, traceback
from . import build, ir
from .ir import *

VERIF = build.VERIF
EVID = os.environ.get('GGSA_EVIDENCE') or os.path.join(VERIF, 'evidence')
CONSTS = os.path.join(build.DRIVERS, 'consts.c')


class Broken(Exception):
    """the analysis cannot say anything (an anchor vanished)"""


class Ctx:
    cache = {}

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.obl = []          # (rule, instance, ok, detail)
        self.viol = []
        self.skipped = {}
        self.notes = []
        self.counts = {}
        self.analysed = set()
        self.rules = {}
        self.t0 = time.time()

    # ---- modules
    def need(self, pairs):
        """pairs: (cfg, unit) or (cfg, unit, extra flags)"""
        jobs = []
        for p in pairs:
            cfg, u = p[0], p[1]
            x = tuple(p[2]) if len(p) > 2 else ()
            if (cfg, u, x) not in Ctx.cache and not any(j[0] == (cfg, u, x) for j in jobs):
                jobs.append(((cfg, u, x), cfg, u, x))
        if jobs:
            build.ensure_tool(); build.tmpdir()
            import concurrent.futures as cf
            with open(os.path.join(build.tmpdir(), 'keep'), 'w') as f:
                f.write('\n'.join(build.KEEP) + '\n')
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                futs = [(k, ex.submit(build.build_unit, c, s, x)) for k, c, s, x in jobs]
                for k, fu in futs:
                    try:
                        Ctx.cache[k] = ir.Module(fu.result(), '%s:%s' % (k[0], k[1]))
                    except build.BuildError as e:
                        Ctx.cache[k] = e

    def mod(self, cfg, unit, extra=(), optional=False):
        k = (cfg, unit, tuple(extra))
        if k not in Ctx.cache:
            self.need([k])
        m = Ctx.cache[k]
        if isinstance(m, build.BuildError):
            if optional:
                self.skipped['%s:%s' % (cfg, unit)] = str(m)[:300]
                return None
            raise Broken(str(m))
        m.cfg = cfg
        if not hasattr(m, 'consts'):
            m.consts = {}
            if not (isinstance(unit, str) and unit == CONSTS):
                cm = self.mod(cfg, CONSTS)
                m.consts = {g[5:]: v['init'][1] for g, v in cm.globals.items() if g.startswith('ggsa_') and v.get('init') and v['init'][0] == 'c'}
        return m

    def units(self):
        return build.units()

    def mods(self, cfg, optional=True):
        us = self.units()
        self.need([(cfg, u) for u in us] + [(cfg, CONSTS)])
        out = []
        for u in us:
            m = self.mod(cfg, u, optional=optional)
            if m is not None:
                out.append(m)
        return out

    def func(self, cfg, name, optional=False):
        """the definition of a function in a configuration, whichever unit it
        is in"""
        for m in self.mods(cfg):
            if name in m.funcs:
                f = m.funcs[name]
                self.analysed.add((cfg, name))
                f.cfg = cfg
                return f
        if optional:
            return None
        raise Broken('function %s not found in configuration %s%s' % (name, cfg,
                     (' (' + '; '.join(self.skipped.values())[:400] + ')') if self.skipped else ''))

    def funcs(self, cfg):
        out = []
        for m in self.mods(cfg):
            for n, f in m.funcs.items():
                f.cfg = cfg
                out.append(f)
        return out

    # ---- verdicts
    def check(self, rule, f, construct, ok, detail='', where=None):
        """one obligation. construct identifies the instance without line
        numbers; detail explains a failure"""
        fn = f.name if hasattr(f, 'name') else str(f)
        cfg = getattr(f, 'cfg', '')
        self.obl.append((rule, cfg, fn, construct, bool(ok)))
        if hasattr(f, 'name'):
            self.analysed.add((cfg, fn))
        if not ok:
            w = where
            if w is None:
                w = '%s:%s' % (getattr(f, 'file', '?'), getattr(f, 'line', 0)) if hasattr(f, 'file') else ''
            elif hasattr(w, 'where'):
                w = w.where()
            self.viol.append({'rule': rule, 'config': cfg, 'function': fn, 'construct': construct,
                              'where': w, 'detail': detail, 'key': '%s/%s/%s' % (rule, fn, construct)})
        return bool(ok)

    def par(self, jobs):
        """run the jobs, (function, arguments...), in processes of their own and
        add up what they find, in order"""
        import pickle
        if os.cpu_count() == 1 or os.environ.get('GGSA_SEQ'):
            for j in jobs:
                j[0](self, *j[1:])
            return
        todo = list(enumerate(jobs)); run = {}; res = {}

        def reap(one=False):
            import select
            r, _, _ = select.select([fd for fd in run], [], [])
            for fd in r:
                n, pid, buf = run[fd]
                d = os.read(fd, 1 << 20)
                if d:
                    buf.append(d)
                    continue
                os.close(fd); os.waitpid(pid, 0)
                del run[fd]
                res[n] = b''.join(buf)
        sys.stdout.flush(); sys.stderr.flush()
        while todo or run:
            while todo and len(run) < 8:
                n, j = todo.pop(0)
                a, b = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(a)
                    try:
                        c = Ctx(self.prop, self.tier)
                        try:
                            j[0](c, *j[1:]); e = None
                        except Broken as x:
                            e = ('broken', str(x))
                        except Exception:
                            import traceback
                            e = ('internal', traceback.format_exc())
                        out = pickle.dumps((e, c.obl, c.viol, c.skipped, c.notes, c.counts, c.analysed, c.rules))
                        with os.fdopen(b, 'wb') as f:
                            f.write(out)
                    finally:
                        os._exit(0)
                os.close(b)
                run[a] = (n, pid, [])
            reap()
        for n in range(len(jobs)):
            if not res.get(n):
                raise RuntimeError('a part of the analysis ended early')
            e, obl, viol, sk, notes, counts, an, rules = pickle.loads(res[n])
            self.obl += obl; self.viol += viol; self.skipped.update(sk); self.notes += [x for x in notes if x not in self.notes]
            for k, v in counts.items():
                if isinstance(v, (int, float)):
                    self.counts[k] = self.counts.get(k, 0) + v
                else:
                    self.counts[k] = v
            self.analysed |= an; self.rules.update(rules)
            if e:
                if e[0] == 'broken':
                    raise Broken(e[1])
                raise RuntimeError(e[1])

    def rule(self, name, text):
        self.rules[name] = text

    def broken(self, msg):
        raise Broken(msg)


def known_findings(prop):
    """keys of violations which are known and recorded"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, desc = rest[4:].partition(' :: ')
                    out.append((key.strip(), desc.strip()))
    return out


def finish(ctx, err=None):
    prop = ctx.prop
    os.makedirs(EVID, exist_ok=True)
    known = known_findings(prop)
    new = []; hit = {}
    for v in ctx.viol:
        k = [x for x in known if x[0] == v['key']]
        if k:
            hit.setdefault(k[0], []).append(v)
        else:
            new.append(v)
    byrule = {}
    for r, c, fn, cons, ok in ctx.obl:
        d = byrule.setdefault(r, {'obligations': 0, 'held': 0, 'functions': set(), 'configs': set()})
        d['obligations'] += 1; d['held'] += ok
        d['functions'].add(fn); d['configs'].add(c)
    cov = {
        'explanation': 'static rules over the normalised IR of /repo\'s current sources, per configuration; an obligation is one rule instance at one construct',
        'obligations': len(ctx.obl),
        'obligations_held': sum(1 for o in ctx.obl if o[4]),
        'functions_analysed': len({fn for c, fn in ctx.analysed}),
        'configurations': sorted({c for c, fn in ctx.analysed if c}),
        'functions': sorted({fn for c, fn in ctx.analysed}),
        'rules': {r: {'text': ctx.rules.get(r, ''), 'obligations': d['obligations'], 'held': d['held'],
                      'functions': sorted(d['functions']), 'configurations': sorted(x for x in d['configs'] if x)} for r, d in byrule.items()},
        'skipped': ctx.skipped,
        'notes': ctx.notes,
        'instances': sorted({'%s %s %s' % (r, fn, cons) for r, c, fn, cons, ok in ctx.obl})[:400],
        'violations': new[:50],
        'known_findings': [k[0] for k in hit],
    }
    ev = {'property': prop, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2)}
    if err:
        cov['error'] = err
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for (key, desc), vs in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, desc or key))
    if err:
        print('ERROR property=%s %s' % (prop, err))
        return 2
    if new:
        rp = os.path.join(EVID, prop + '.violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s is violated by the sources in %s\n' % (prop, build.REPO))
            f.write('replay: cd /verif && python3 -m sa.main %s\n\n' % prop)
            for v in new:
                f.write('%s [%s]\n  in %s (configuration %s): %s\n  rule: %s\n  %s\n\n' % (
                    v['where'], v['rule'], v['function'], v['config'], v['construct'],
                    ctx.rules.get(v['rule'], ''), v['detail']))
        seen = set()
        for v in new:
            k = (v['key'])
            if k in seen:
                continue
            seen.add(k)
            print('%s: %s: %s: %s [%s, configuration %s]' % (v['where'], v['function'], v['construct'], v['detail'], v['rule'], v['config']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('OK property=%s: %d obligations in %d functions, %d configurations' % (
        prop, len(ctx.obl), cov['functions_analysed'], len(cov['configurations'])))
    return 0


# ------------------------------------------------------------ small helpers
def stores(f):
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'store':
                yield i, f.term(i.ops[1]), f.term(i.ops[0])


def loads(f):
    for b in f.order:
        for i in f.blocks[b]:
            if i.op == 'load':
                yield i, f.term(i.ops[0])


def calls(f, name=None):
    for b in f.order:
        for i in f.blocks[b]:
            if i.is_call():
                c = i.callee()
                if name is None or c == name or (not isinstance(name, str) and c in name):
                    yield i, c


def memcalls(f, kind):
    """memset/memcpy/memmove calls, intrinsic or not"""
    for i, c in calls(f):
        if c and (c.startswith('llvm.' + kind + '.') or c == kind):
            yield i


def ld(a, sz=8):
    return ('ld', a, sz)


def fld(f, base, struct, field):
    """the term of base->field"""
    o = f.mod.off(struct, field)
    return ('ld', add(base, C(o)), f.mod.fsize(struct, field))


def must_pass(f, starts, targets, via):
    """no path from the start blocks to a target block avoids the via blocks.
    Returns None, or the block reached"""
    r = f.reach(list(starts), avoid=set(via))
    for t in targets:
        if t in r:
            return t
    return None
