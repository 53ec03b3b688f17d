"""Declared types (C05): the static descriptor of every type, a constant the
compiler has folded, against the layout of its structure."""
from .core import *

CONFS = ['g2', 'g2all', 'g2ext', 'g1all', 'g3all', 'g2dbg', 'pms', 'pmsall', 'pmsext', 'pmsdbg', 'nognuc', 'cxx', 'cxxnognuc']
ALLTYPES = ('-fno-eliminate-unused-debug-types',)
DRV = '/verif/drivers/layout.c'
FAR = '/verif/drivers/far.c'
SLOT = 'GGGGC_DescriptorSlot'
SUF = '__descriptorSlot'
STR = '__ggggc_struct'
U64 = (1 << 64) - 1


def drv(x):
    import os
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', os.path.basename(x))


def slots(m):
    """{type name: global}"""
    out = {}
    for g, d in m.globals.items():
        n = d.get('src') or g
        if n.endswith(SUF) and not d.get('decl') and d.get('size', 0) > 8:
            out[n[:-len(SUF)]] = d
    return out


def const_at(d, off):
    ini = d.get('init')
    if isinstance(ini, dict) and 'zero' in ini:
        return 0
    if not isinstance(ini, dict) or 'struct' not in ini:
        return None
    for o, sz, v in ini['struct']:
        if o == off:
            if v == ['n'] or isinstance(v, dict) and 'zero' in v:
                return 0
            return v[1] & U64 if v[0] == 'c' else None
    return None


def refs(m, s):
    """the words of a structure declared as references, its members, and its size"""
    w = set(); bad = []
    fs = m.fields(s)
    end = 0
    for n, o, z, t in fs:
        end = max(end, o + z)
        leaf = n.split('.')[-1]
        if n.startswith('header'):
            continue
        if leaf.endswith('__ptr'):
            if o % 8:
                bad.append('%s lies at byte %d' % (leaf[:-5], o))
            w.add(o // 8)
    return w, fs, end, bad


def sizeof(m, s):
    t = m.types[m.structs[s]]
    b = t.get('bits') or t.get('size')
    return b


def gctype_of(m, t):
    p = m.pointee(t)
    n = m.tname(p) if p is not None else None
    return bool(n) and (n.endswith(STR) or n.endswith('__ggggc_parray') or n.endswith('__ggggc_darray'))


def constructed(m, g):
    """is a constructor registered which fills the slot?"""
    ini = m.globals.get('llvm.global_ctors', {}).get('init')
    fns = []
    for e in (ini or {}).get('array', []):
        for o, sz, v in e['struct']:
            if isinstance(v, list) and v and v[0] == 'f':
                fns.append(v[1])
    seen = set()
    while fns:
        n = fns.pop()
        f = m.funcs.get(n)
        if f is None or n in seen:
            continue
        seen.add(n)
        for i in f.ins.values():
            if i.op not in ('call', 'invoke'):
                continue
            c = i.callee()
            if c == 'ggggc_allocateDescriptorSlot' and i.ops and f.term(i.ops[0]) == ('g', g):
                return True
            if c in m.funcs:
                fns.append(c)
    return False


def direct(m, g, off):
    """functions which take the descriptor out of the slot without asking"""
    out = []
    for n, f in m.funcs.items():
        for i in f.ins.values():
            if i.op == 'load' and f.term(i.ops[0]) in (('add', ('g', g), off), ) or i.op == 'load' and str(f.term(i.ops[0])) == str(lin_of(g, off)):
                out.append(f)
                break
    return out


def lin_of(g, off):
    from .interp import add, C
    return add(('g', g), C(off))


def known(mods):
    know = {}
    for m in mods:
        for s in m.structs:
            if s.endswith(STR) and m.fields(s):
                know.setdefault(s, m)
    return know


def headers(ctx, cfg, d, know, hd):
    n = 0
    # the header lies first in every type
    for s, o in sorted(know.items()):
        f0 = [f for f in o.fields(s) if f[0] == 'header']
        ctx.check('header', s, cfg, bool(f0) and f0[0][1] == 0 and f0[0][2] == hd, 'the header does not come first')
    # arrays: header, length, elements
    for s in sorted(d.structs):
        if s.endswith('__ggggc_parray') or s.endswith('__ggggc_darray'):
            el = 'a__ptrs' if s.endswith('parray') else 'a__data'
            l, e = d.off(s, 'length'), d.off(s, el)
            lz = [f[2] for f in d.fields(s) if f[0] == 'length']
            if not d.fields(s):
                continue
            n += 1
            ctx.check('array', s, cfg, l == hd and e == hd + 8 and lz == [8], 'the length is at byte %s and the elements at %s, after a header of %d; the length has %s bytes' % (l, e, hd, lz))
    # typed collections are used through the generic ones
    for typed, gen in (('DNodeList', 'GGC_List'), ('DNodeListNode', 'GGC_ListNode'), ('LMixedList', 'GGC_List'), ('LMap', 'GGC_Map'), ('LMapEntry', 'GGC_MapEntry')):
        a = {f[0].split('.')[-1]: (f[1], f[2]) for f in know[typed + STR].fields(typed + STR)} if typed + STR in know else {}
        b = {f[0].split('.')[-1]: (f[1], f[2]) for f in know[gen + STR].fields(gen + STR)} if gen + STR in know else {}
        n += 1
        ctx.check('typed', typed, cfg, bool(b) and all(a.get(k) == v for k, v in b.items()) and sizeof(know[typed + STR], typed + STR) == sizeof(know[gen + STR], gen + STR),
                  'its members lie elsewhere than those of %s, as which it is used' % gen)
    return n


def coincide(ctx, cfg):
    mods = list(ctx.mods(cfg)) + [ctx.mod(cfg, drv(DRV), extra=ALLTYPES)]
    headers(ctx, cfg, mods[-1], known(mods), mods[-1].consts['HEADER'])


def one(ctx, cfg):
    mods = list(ctx.mods(cfg)) + [ctx.mod(cfg, drv(DRV), extra=ALLTYPES)]
    d = mods[-1]
    n = 0
    so = {x: d.off(SLOT, x) for x in ('size', 'pointers', 'descriptor')}
    if None in so.values():
        raise Broken('the descriptor slots have no size, references or descriptor')
    hd = d.consts['HEADER']
    know = known(mods)
    for m in mods:
        isdrv = m is d
        for t, g in sorted(slots(m).items()):
            o = know.get(t + STR)

            class Where:
                name = t; file = g.get('file', '?'); line = g.get('line', 0)
            Where.cfg = cfg
            if o is None:
                ctx.notes.append('no layout known for %s (%s)' % (t, cfg))
                continue
            n += 1
            w, fs, end, bad = refs(o, t + STR)
            size, ptrs = const_at(g, so['size']), const_at(g, so['pointers'])
            want = sizeof(o, t + STR)
            want = (want + 63) // 64
            det = None
            if size is None or ptrs is None:
                det = 'its descriptor is no constant'
            elif bad:
                det = 'reference ' + bad[0]
            elif size != want:
                det = 'it is described as %d words, and has %d' % (size, want)
            else:
                got = {k for k in range(64) if ptrs >> k & 1} - {0}
                if got != {k for k in w}:
                    nm = lambda k: next((f[0].split('.')[-1] for f in fs if f[1] // 8 == k and not f[0].startswith('header')), 'word %d' % k)
                    x = sorted(w - got)[:2]; y = sorted(got - w)[:2]
                    det = ('the reference %s is not described' % nm(x[0])) if x else ('%s is described as a reference' % nm(y[0]))
            ctx.check('descriptor', Where, t, det is None, det or '')
            # what is filled in before main must be, if it is taken unasked
            fs2 = direct(m, g['name'], so['descriptor'])
            if fs2:
                ctx.check('constructed', Where, t, constructed(m, g['name']), '%s takes the descriptor, which nothing makes before' % fs2[0].name)
            # a member of the library's own types which holds a reference is declared so
            if not isdrv:
                for f in fs:
                    leaf = f[0].split('.')[-1]
                    if leaf.endswith('__data') and gctype_of(o, f[3]):
                        ctx.check('library', Where, '%s.%s' % (t, leaf[:-6]), False, 'a reference to an object is declared as data')
    n += headers(ctx, cfg, d, know, hd)
    # GGC_NEW of a type uses that type's descriptor
    for name, f in sorted(d.funcs.items()):
        if not name.startswith('gl_new_'):
            continue
        t = name[len('gl_new_'):]
        g = slots(d).get(t)
        ok = False
        for i in f.ins.values():
            if i.op not in ('call', 'invoke'):
                continue
            if i.callee() == 'ggggc_malloc':
                x = f.term(i.ops[0])
                ok = g is not None and x[0] == 'ld' and x[1] == lin_of(g['name'], so['descriptor'])
            elif i.callee() in ('ggggc_mallocSlot', 'ggggc_allocateDescriptorSlot'):
                ok = g is not None and f.term(i.ops[0]) == ('g', g['name'])
        n += 1
        ctx.check('new', f, t, ok, 'an object of the type is not made with the type\'s descriptor')
    ctx.counts['types compared'] = n


def typedfns(ctx, cfg, pre):
    """the functions of typed collections do what the generic ones do"""
    m = ctx.mod(cfg, drv(DRV), extra=ALLTYPES)
    n = 0
    for name, f in sorted(m.funcs.items()):
        if not name.startswith('gt_' + pre):
            continue
        f.cfg = cfg
        gen = name[3:].replace('DNode', 'GGC_', 1).replace('LMap', 'GGC_Map', 1)
        cs = [i for i in f.ins.values() if i.op in ('call', 'invoke') and i.callee() and i.callee().startswith('GGC_')]
        n += 1
        det = None
        if [i.callee() for i in cs] != [gen]:
            det = 'it does not call %s, once' % gen
        else:
            i = cs[0]
            a = [f.term(o) for o in i.ops]
            k = len(f.argids)
            if a[:k] != [('arg', j) for j in range(k)]:
                det = 'what it is given does not get to %s in the same places' % gen
            elif gen in ('GGC_MapGet', 'GGC_MapPut') and [x[1] if x[0] == 'f' else '?' for x in a[k:]] != hashcmp(m):
                det = 'the hash and comparison functions do not get to %s' % gen
            for r in f.ins.values():
                if r.op == 'ret' and r.ops and f.term(r.ops[0])[:2] != f.term(['v', i.id])[:2]:
                    det = 'it does not return what %s returns' % gen
        ctx.check('typed functions', f, name[3:], det is None, det or '')
    if not n:
        raise Broken('no functions of typed collections')


def hashcmp(m):
    return [next((n for n in m.funcs if 'lhash' in n), None), next((n for n in m.funcs if 'lcmp' in n), None)]


def far(ctx, cfg):
    m = ctx.mod(cfg, drv(FAR), extra=ALLTYPES)
    g = slots(m)['FFar']
    w, fs, end, bad = refs(m, 'FFar' + STR)
    so = m.off(SLOT, 'pointers')
    p = const_at(g, so)
    ok = p is not None and {k for k in range(64) if p >> k & 1} == w

    class Where:
        name = 'GGC_PTR'; file = 'ggggc/gc.h'; line = 0
    Where.cfg = cfg
    ctx.check('far', Where, 'reference past the words of one map word', ok, 'a reference at word %d is not described (the shift exceeds the width of the map word)' % max(w))


def C05(ctx):
    ctx.rule('descriptor', 'the descriptor slot of every type, a constant, has the size of the structure in words and the bits of exactly the members declared as references')
    ctx.rule('constructed', 'where the descriptor is taken from the slot unasked, a constructor of the same unit has filled that very slot')
    ctx.rule('library', 'no member of the library\'s types declared as data has a collected type')
    ctx.rule('header', 'the header comes first in every type')
    ctx.rule('array', 'arrays have their length after the header and the elements after it, where the array builders count them')
    ctx.rule('typed', 'typed collections have the members of the generic ones at the same places')
    ctx.rule('new', 'GGC_NEW of a type uses that type\'s slot')
    ctx.rule('far', 'a reference past the words one map word describes is described all the same')
    for cfg in CONFS:
        ctx.mods(cfg)
    ctx.need([(c, drv(DRV), ALLTYPES) for c in CONFS] + [('g2', drv(FAR), ALLTYPES)])
    ctx.par([(one, cfg) for cfg in CONFS])
    far(ctx, 'g2')
