"""Start and end of threads (C18): what passes between the thread which makes
another and the one it makes, and what a finished thread gives back."""
from .core import *
from .interp import *
from .rules_sync import ALL, COUNT, is_wrapper
from . import rules_pools

G0 = ('g', 'ggggc_gen0')


class Thread(Interp):
    """keeps account of the points at which a collection may happen"""
    def collect(self, st, i):
        st.u['cols'] = st.u.get('cols', 0) + 1 if not st.u.get('left') else st.u.get('cols', 0)
        if st.u.get('left'):
            self.report('collects after leaving', i, 'the thread may take part in a collection although it has left the counted world')
        if st.u.get('counted'):
            st.u['counted'] = 'stale'
        super().collect(st, i)
        if G0 in st.mem:
            # a collection may rearrange them
            st.u['pools'] = st.u.get('pools', 0) + 1
            st.mem[G0] = (NULL if st.u.get('none') else ('o', 'pools', st.u['pools'])) if st.u.get('ran') else ('s', 'early')

    def store(self, st, i, a, v):
        if a == COUNT:
            old = st.mem.get(COUNT)
            if old is None and st.u.get('cnt') is None:
                old = ('s', 'ld', COUNT, 8)
            d = sub(v, old) if old is not None and v[0] not in ('any', 'stale') else None
            if d is not None and d[0] == 'c':
                n = sgn64(d[1])
                if n > 0:
                    st.u['counted'] = 'yes'
                elif n < 0:
                    st.u['left'] = True; st.u['counted'] = False
        return super().store(st, i, a, v)


def locks(I):
    """the world lock: taken at once or after other threads let go of it"""
    def tri(I, st, i, a):
        if st.u.get(('busy', i.id)):
            return [(st, C(0))]
        t = st.copy()
        t.u[('busy', i.id)] = True
        return [(st, C(0)), (t, C(16))]
    I.calls['pthread_mutex_trylock'] = tri
    I.calls['pthread_mutex_lock'] = lambda I, st, i, a: [(st, C(0))]
    I.calls['pthread_mutex_unlock'] = lambda I, st, i, a: [(st, NULL)]


def events(st, *e):
    st.u['ev'] = st.u.get('ev', ()) + (e,)


def judge(ctx, rule, f, what, bad, I):
    k = '; '.join(sorted(bad))[:3]
    ctx.check(rule, f, what, not bad, next(iter(bad.values()))[1] if bad else '', next(iter(bad.values()))[0] if bad else None)


def go(ctx, I, st, f, rule):
    try:
        I.run(st)
    except Give as e:
        ctx.check(rule, f, 'analysed', False, 'the function cannot be followed: %s' % e)
        return False
    return True


def tinfo(m):
    fs = {x[0].split('.')[-1]: x[1] for x in m.fields('ThreadInfo__ggggc_struct')}
    return fs.get('func__data'), fs.get('arg__ptr')


def deref(st, a):
    return st.mem.get(a)


def creator(ctx, cfg, only=None):
    f = ctx.func(cfg, 'ggc_thread_create')
    m = f.mod
    fo, ao = tinfo(m)
    I = Thread(ctx, f)
    I.barriers = False
    locks(I)
    st = start(f)
    F, A = ('s', 'arg', 1), ('s', 'arg', 2, 'gc')
    names = {n: a for a, n in f.argids.items()}
    st.env[names[1]] = F; st.env[names[2]] = A
    st.mem[I.PS] = ('s', 'outer')
    bad = {}
    made = []

    def create(I, st, i, args):
        made.append(i)
        st.u['made'] = st.u.get('made', 0) + 1
        if st.u['made'] > 1:
            bad.setdefault('twice', (i, 'more than one thread is made'))
        x = args[3]
        if args[0] != ('s', 'arg', 0):
            bad.setdefault('handle', (i, 'the handle of the thread does not get where the caller wants it'))
        if x[0] == 'stale':
            bad.setdefault('stale', (i, 'what the new thread gets may have been moved by a collection since it was loaded'))
        else:
            fv, av = st.mem.get(add(x, C(fo))), st.mem.get(add(x, C(ao)))
            if fv != F:
                bad.setdefault('func', (i, 'the function the new thread gets is not what the caller gave'))
            if av is not None and av[0] == 'stale':
                bad.setdefault('arg', (i, 'the argument the new thread gets may have been moved since it was loaded'))
            elif av != A:
                bad.setdefault('arg', (i, 'the argument the new thread gets is not what the caller gave'))
        t = f.term(i.ops[2])
        if t[0] != 'f' or t[1] not in m.funcs:
            bad.setdefault('start', (i, 'the new thread does not start in the wrapper'))
        c = st.u.get('counted')
        if c != 'yes':
            bad.setdefault('count', (i, 'the thread is made %s: a collection could run between its start and its first root' % ('before it is counted' if not c else 'after a possible collection since it was counted')))
        st2 = st.copy()
        st2.u['failed'] = True; st.u['failed'] = False
        # the new thread runs from here
        st.u['counted'] = False
        return [(st, C(0)), (st2, C(11))]
    I.calls['pthread_create'] = create
    if not go(ctx, I, st, f, 'start'):
        return
    for k, (i, d) in I.bad.items():
        bad.setdefault(k, (i, d))
    for s, v, t in I.ends:
        if s.u.get('failed') is None:
            # failing before is no failure to hand over
            if v == NULL:
                bad.setdefault('none', (t, 'the function reports success without having made a thread'))
        elif s.u['failed'] is False and v != NULL:
            bad.setdefault('result', (t, 'a thread was made, and the result is not 0'))
        elif s.u['failed'] and v == NULL:
            bad.setdefault('result', (t, 'no thread could be made, and the result is 0'))
    if not made:
        bad.setdefault('none', (None, 'no thread is made'))
    if only:
        bad = {k: x for k, x in bad.items() if k in only}
    for k, (i, d) in sorted(bad.items()):
        ctx.check('start', f, k, False, d, i)
    if not bad:
        ctx.check('start', f, 'counted' if only else 'argument handed over', True)
    ctx.counts['paths'] = ctx.counts.get('paths', 0) + len(I.ends)


def wrapper(ctx, cfg, given=True, only=None):
    w = None
    for m in ctx.mods(cfg):
        for g in m.funcs.values():
            g.cfg = cfg
            if is_wrapper(g):
                w = g
    if w is None:
        c = ctx.func(cfg, 'ggc_thread_create')
        ctx.check('run', c, 'wrapper', False, 'new threads do not start in a function of the library')
        return
    f = w; m = f.mod
    fo, ao = tinfo(m)
    I = Thread(ctx, f)
    I.barriers = False
    locks(I)
    st = start(f)
    TI = ('s', 'arg', 0, 'gc')
    st.env[next(a for a, n in f.argids.items() if n == 0)] = TI
    FN, AR = ('s', 'fn'), ('s', 'thearg', 'gc')
    st.mem[add(TI, C(fo))] = FN
    st.mem[add(TI, C(ao))] = AR
    st.mem[I.PS] = NULL
    st.u['keep'] = frozenset([G0])
    st.mem[('g', 'ggggc_pointerStackGlobals')] = NULL
    st.mem[G0] = NULL
    bad = {}

    def user(I, st, i, args):
        c = i.d.get('callee')
        v = I.val(st, c) if c else None
        st.u['ran'] = st.u.get('ran', 0) + 1
        if st.u['ran'] > 1:
            bad.setdefault('again', (i, 'the function can be called more than once'))
            return []
        if st.u.get('left'):
            bad.setdefault('late', (i, 'the function runs after the thread has left the counted world'))
        if v != FN:
            bad.setdefault('function', (i, 'what is called is not the function the thread was made for'))
        if not args or args[0] != AR:
            bad.setdefault('argument', (i, 'the function gets a reference which a collection may have moved meanwhile' if args and args[0][0] == 'stale' else 'the function does not get the argument given for it'))
        # it may allocate and collect as it likes
        st.u['cols'] = st.u.get('cols', 0)
        I.collect(st, i)
        for k in list(st.mem):
            b = base_of(k)
            if b and b[0][0] == 'g' and b[0] != I.PS:
                del st.mem[k]
        st.u['pools'] = st.u.get('pools', 0) + 1
        st.mem[G0] = ('o', 'pools', st.u['pools'])
        t = st.copy()
        # or it may never have allocated anything
        t.mem[G0] = NULL; t.u['none'] = True
        return [(st, ('any', 'user')), (t, ('any', 'user'))]
    I.calls['*'] = user

    def free(I, st, i, args):
        st.u['given'] = st.u.get('given', 0) + 1
        if st.u.get('ran') and args[0] == ('o', 'pools', st.u['pools']):
            if st.u['given'] > 1:
                bad.setdefault('given twice', (i, 'the pools are given back twice'))
        elif args[0] != NULL or not st.u.get('none'):
            bad.setdefault('given', (i, 'what is given back are not the pools the thread has now' if st.u.get('ran') else 'pools are given back before the function has run'))
        if not st.u.get('left'):
            bad.setdefault('early', (i, 'the pools are given back while the thread is still counted, so that a collection may use them'))
        return [(st, NULL)]
    I.calls['ggggc_freeGeneration'] = free
    if not go(ctx, I, st, f, 'run'):
        return
    for k, (i, d) in I.bad.items():
        bad.setdefault(k, (i, d))
    for s, v, t in I.ends:
        if not s.u.get('ran'):
            bad.setdefault('never', (t, 'the thread can end without the function having been called'))
        if not s.u.get('given') and not s.u.get('none'):
            bad.setdefault('kept', (t, 'the thread can end without giving its pools back'))
        if not s.u.get('left'):
            bad.setdefault('stays', (t, 'the thread can end without leaving the counted world'))
    if not I.ends:
        bad.setdefault('end', (None, 'the thread never ends'))
    if only:
        bad = {k: x for k, x in bad.items() if k in only}
    for k, (i, d) in sorted(bad.items()):
        ctx.check('run', f, k, False, d, i)
    if not bad:
        ctx.check('run', f, 'collects no more' if only else 'registered, called once, left, given back', True)
    if not given:
        return
    # what is in the pools given back
    given = any(s.u.get('given') for s, v, t in I.ends)
    ctx.check('reachable', f, 'pools of a finished thread', not given, 'the pools are given back with everything in them, whether or not other threads can still reach it')
    glob = any(s.u.get('given') and True for s, v, t in I.ends)
    ctx.check('globalized', f, 'globalized roots of a finished thread', not glob, 'the list of roots made global by the thread ends with it')
    ctx.counts['paths'] = ctx.counts.get('paths', 0) + len(I.ends)


def one(ctx, cfg):
    creator(ctx, cfg)
    wrapper(ctx, cfg)
    if not cfg.startswith('pms'):
        rules_pools.give_back(ctx, cfg)


def C18(ctx):
    ctx.rule('start', 'on every path of thread creation: the new thread is counted, and no collection is possible between that and its creation; it gets an information object, kept as a root since it was made, which holds the caller\'s function and argument, and the result tells whether it was made')
    ctx.rule('run', 'on every path of the function threads start in: the information object is a root before any collection; its function is called once, with its argument as it is then; only after it the thread leaves the counted world, and only then gives back the pools it then has, once; it takes part in no collection after it left')
    ctx.rule('reachable', 'what is given back holds nothing other threads can reach')
    ctx.rule('globalized', 'roots made global by a thread outlive it')
    ctx.rule('give back', 'giving pools back puts each on the free list exactly once, keeping what was there')
    for cfg in ALL:
        ctx.mods(cfg)
    ctx.par([(one, cfg) for cfg in ALL])
