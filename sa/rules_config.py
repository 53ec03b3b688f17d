"""Configurations (C23): every combination type-checks, everything declared is
defined with its type, and what different units call by one name is one thing."""
import itertools, os, random, re
from .core import *
from . import build, rules_types

API = os.path.join(build.DRIVERS, 'api.c')
STRICT = ['-w', '-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=int-conversion',
          '-Werror=incompatible-pointer-types', '-Werror=return-type', '-Werror=format-security']
FEATS = ['FINALIZERS', 'TAGGING', 'EXTTAG', 'JITPSTACK']
# dimension -> values (each a list of flags)
DIMS = {
    'collector': [['-DGGGGC_COLLECTOR=gembc'], ['-DGGGGC_COLLECTOR=portablems'], []],
    'FINALIZERS': [[], ['-DGGGGC_FEATURE_FINALIZERS']],
    'TAGGING': [[], ['-DGGGGC_FEATURE_TAGGING']],
    'EXTTAG': [[], ['-DGGGGC_FEATURE_EXTTAG']],
    'JITPSTACK': [[], ['-DGGGGC_FEATURE_JITPSTACK']],
    'generations': [[], ['-DGGGGC_GENERATIONS=1'], ['-DGGGGC_GENERATIONS=3'], ['-DGGGGC_GENERATIONS=5']],
    'debug': [[], ['-DGGGGC_DEBUG'], ['-DGGGGC_DEBUG_MEMORY_CORRUPTION'], ['-DGGGGC_DEBUG_REPORT_COLLECTIONS'], ['-DGGGGC_DEBUG_TINY_HEAP']],
    'gnuc': [[], ['-DGGGGC_NO_GNUC_FEATURES'], ['-DGGGGC_NO_GNUC_CLEANUP'], ['-DGGGGC_NO_GNUC_CONSTRUCTOR']],
    'threads': [[], ['-DGGGGC_NO_THREADS'], ['-include', os.path.join(build.DRIVERS, 'genbar.h')]],
    'allocator': [[], ['-DGGGGC_USE_MALLOC'], ['-DGGGGC_USE_SBRK'], ['-include', os.path.join(build.DRIVERS, 'mmap.h')]],
    'sizes': [[], ['-DGGGGC_POOL_SIZE=20', '-DGGGGC_CARD_SIZE=10']],
    'language': [['c'], ['c++'], ['gcc'], ['g++'], ['c89'], ['c11']],
}
NAMES = list(DIMS)


def possible(c):
    """is it offered? (portablems brings its own allocator and has one generation)"""
    if c['collector'] == 1 and (c['allocator'] or c['generations']):
        return False
    return True


def pairs_of(c, t):
    it = sorted(c.items())
    return set(itertools.combinations(it, t))


def covering(t, seed=1):
    """configurations in which every combination of values of every t switches
    occurs (greedily, deterministically)"""
    R = random.Random(seed)
    todo = set()
    for ds in itertools.combinations(sorted(NAMES), t):
        for vs in itertools.product(*[range(len(DIMS[d])) for d in ds]):
            c = {d: 0 for d in NAMES}
            p = dict(zip(ds, vs))
            q = dict(c); q.update(p)
            if p.get('collector') == 1 and (p.get('allocator') or p.get('generations')):
                continue
            todo.add(tuple(zip(ds, vs)))
    out = []
    order = sorted(todo)
    R.shuffle(order)
    for p in order:
        if p not in todo:
            continue
        best = None
        for k in range(12):
            c = {d: R.randrange(len(DIMS[d])) for d in NAMES}
            c.update(dict(p))
            if not possible(c):
                if dict(p).get('collector') == 1 or 'collector' not in dict(p) and not (dict(p).get('allocator') or dict(p).get('generations')):
                    for d in ('allocator', 'generations'):
                        if d not in dict(p):
                            c[d] = 0
                    if not possible(c):
                        c['collector'] = 0
                else:
                    c['collector'] = 0
            n = len(pairs_of(c, t) & todo)
            if best is None or n > best[0]:
                best = (n, c)
        c = best[1]
        todo -= pairs_of(c, t)
        out.append(c)
    return out


def flags(c):
    fl = []
    for d in NAMES:
        if d != 'language':
            fl += DIMS[d][c[d]]
    l = DIMS['language'][c['language']][0]
    cc = {'c': ['clang-18', '-x', 'c'], 'c++': ['clang++-18', '-x', 'c++'], 'gcc': ['gcc', '-x', 'c'], 'g++': ['g++', '-x', 'c++'],
          'c89': ['clang-18', '-x', 'c', '-std=gnu89'], 'c11': ['clang-18', '-x', 'c', '-std=c11']}[l]
    return cc, l, ['-D_XOPEN_SOURCE=600'] + fl


def label(c):
    x = []
    for d in NAMES:
        if d == 'language':
            x.append(DIMS[d][c[d]][0])
        else:
            for f in DIMS[d][c[d]]:
                if f.startswith('-D'):
                    x.append(f[2:].replace('GGGGC_', ''))
                elif f != '-include':
                    x.append(os.path.basename(f))
    return ' '.join(x)


DECL = re.compile(r"^([|` -]*)(FunctionDecl|VarDecl) (0x[0-9a-f]+)( .*?)? (G?GGGC_\w+|GGC_\w+|ggc_\w+|ggggc_\w+) '([^']*)'(.*)$")


def decls(text):
    """-> {name: (kind, type, defined, static, declared before)}"""
    out = {}
    cur = None
    for l in text.split('\n'):
        m = DECL.match(l)
        d = len(l) - len(l.lstrip('|` -'))
        if m and d <= 4:
            pre, kind, ad, where, name, ty, rest = m.groups()
            w = rest.split()
            st = 'static' in w or 'constexpr' in w
            dfn = kind == 'VarDecl' and 'extern' not in w
            cur = (name, d, kind)
            old = out.get(name)
            ent = [kind, ty, dfn, st, ' prev 0x' in (where or '')]
            if old and old[2] and not dfn:
                ent = None
            elif old and not dfn:
                ent[4] = ent[4] or old[4]
            if ent:
                out[name] = ent
        elif cur and d <= cur[1]:
            cur = None
        elif cur and d == cur[1] + 2 and cur[2] == 'FunctionDecl' and 'CompoundStmt' in l:
            out[cur[0]][2] = True
    return out


def one_config(ctx, c, units):
    cc, lang, fl = flags(c)
    lab = label(c)
    bad = 0

    class Where:
        file = ''; line = 0
        cfg = lab
    res = {}
    clang = lang not in ('gcc', 'g++')
    strict = [x for x in STRICT if lang != 'c89' and (clang or x not in ('-Werror=implicit-function-declaration', '-Werror=implicit-int', '-Werror=int-conversion', '-Werror=incompatible-pointer-types') or lang == 'gcc')] or ['-w']
    for u in units + [API]:
        W = Where(); W.name = os.path.basename(u) if u == API else u
        rc, o, e = build.run(cc + strict + fl + ['-I', build.REPO, '-fsyntax-only', u if u == API else os.path.join(build.REPO, u)] + (['-Xclang', '-ast-dump', '-fno-color-diagnostics'] if clang and u != API else []))
        m = next((x for x in e.split('\n') if 'error:' in x), e[:200])
        msg = re.sub(r'^.*?error: ', '', m)
        ctx.check('compiles', W, 'uses of the API' if u == API else 'unit', rc == 0, m.replace(build.REPO + '/', '')[:300])
        if rc:
            bad += 1
        elif clang and u != API:
            res[u] = decls(o)
    if bad or not clang:
        return
    hdr = os.path.join(build.tmpdir(), 'hdr%d.c' % os.getpid())
    with open(hdr, 'w') as f:
        f.write('#include "ggggc/gc.h"\n#include "ggggc/collections.h"\n')
    rc, o, e = build.run(cc + ['-w'] + fl + ['-I', build.REPO, '-fsyntax-only', '-Xclang', '-ast-dump', '-fno-color-diagnostics', hdr])
    os.unlink(hdr)
    res['headers'] = decls(o) if rc == 0 else {}
    W = Where(); W.name = 'headers'
    if rc:
        ctx.check('compiles', W, 'headers alone', False, e.split('\n')[0])
        return
    want = {}
    defs = {}
    for u, ds in res.items():
        for n, (kind, ty, dfn, st, prev) in ds.items():
            if st:
                continue
            if dfn:
                defs.setdefault(n, []).append((u, ty, prev))
            elif u == 'headers' or n not in want:
                want[n] = (u, ty)
    nd = 0
    for n, (u, ty) in sorted(want.items()):
        W = Where(); W.name = n
        ds = defs.get(n, [])
        nd += 1
        if not ds:
            ctx.check('defined', W, 'definition', False, 'it is declared (%s), and nothing defines it' % u)
            continue
        norm = lambda t: re.sub(r'\s+', '', re.sub(r'\b(struct|class)\b', '', t))
        d = ds[0]
        ok = d[2] or norm(d[1]) == norm(ty)
        ctx.check('defined', W, 'type', ok, 'it is declared as %s and defined as %s' % (ty, d[1]))
    for n, ds in sorted(defs.items()):
        if len(ds) > 1:
            W = Where(); W.name = n
            ctx.check('defined', W, 'once', False, 'it is defined in %s' % ', '.join(x[0] for x in ds))
    ctx.counts['declarations compared'] = ctx.counts.get('declarations compared', 0) + nd


def chunk(ctx, cs, units):
    for c in cs:
        one_config(ctx, c, units)
    ctx.counts['configurations type-checked'] = len(cs)


def layouts(ctx, cfg):
    """what two units call by the same name is laid out the same"""
    seen = {}
    n = 0
    for m in ctx.mods(cfg):
        for s in m.structs:
            fs = m.fields(s)
            if not fs or not re.search('(?i)gg', s):
                continue
            k = [(f[0], f[1], f[2]) for f in fs]
            if s in seen:
                n += 1
                class Where:
                    name = s; file = ''; line = 0
                Where.cfg = cfg
                ctx.check('one layout', Where, s, seen[s] == k, 'the units do not agree on its members')
            seen[s] = k
        gl = {}
    sizes = {}
    for m in ctx.mods(cfg):
        for g, d in m.globals.items():
            n0 = d.get('src') or g
            if d.get('internal') or d.get('static') or not n0.startswith('gg'):
                continue
            z = d.get('size')
            if z is None:
                continue
            tl = bool(d.get('tls'))
            if n0 in sizes:
                n += 1
                class Where:
                    name = n0; file = ''; line = 0
                Where.cfg = cfg
                ctx.check('one layout', Where, 'size', sizes[n0] == (z, tl), 'the units do not agree on its size, or on whether each thread has its own')
            sizes[n0] = (z, tl)
    ctx.counts['layouts compared'] = n


def C23(ctx):
    ctx.rule('compiles', 'every unit of the library, and a unit which uses every public macro and function as documented, type-checks')
    ctx.rule('defined', 'whatever the headers (or a unit) declare is defined by exactly one unit, with that type')
    ctx.rule('one layout', 'structures and shared variables have one layout in all units of a configuration')
    for r, x in (('header', 'the header comes first in every type'), ('array', 'arrays have their length and elements where the builders count them'),
                 ('typed', 'typed collections have the members of the generic ones at the same places')):
        ctx.rule(r, x)
    units = build.units()
    t = 4 if ctx.tier == 'thorough' else 3
    cs = [c for c in covering(2)] if t == 3 else []
    cs += covering(t)[: (260 if t == 3 else 3000)]
    ctx.counts['configurations'] = len(cs)
    build.tmpdir()
    k = 8
    ctx.par([(chunk, cs[j::k], units) for j in range(k)])
    confs = ['g2', 'g2all', 'g2ext', 'g1all', 'g3all', 'g2dbg', 'pms', 'pmsall', 'pmsext', 'nognuc']
    if ctx.viol:
        return
    for cfg in confs:
        ctx.mods(cfg)
    ctx.par([(layouts, cfg) for cfg in confs])
    ctx.need([(c, rules_types.drv(rules_types.DRV), rules_types.ALLTYPES) for c in confs])
    ctx.par([(rules_types.coincide, cfg) for cfg in confs])
