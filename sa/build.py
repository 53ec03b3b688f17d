"""Compile /repo's current sources to normalised IR (as JSON) for a matrix of
configurations. Nothing is executed: only the compiler front end, the LLVM
normalisation passes and the dumper run."""
import json, os, re, subprocess, sys, tempfile, shutil, glob, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GGGGC_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'ggdump')
DRIVERS = os.path.join(VERIF, 'drivers')

FEAT = ['-DGGGGC_FEATURE_FINALIZERS', '-DGGGGC_FEATURE_TAGGING', '-DGGGGC_FEATURE_JITPSTACK']
PMS = ['-DGGGGC_COLLECTOR=portablems']
# name -> (language, flags)
CONFIGS = {
    'g2':      ('c', []),
    'g2all':   ('c', FEAT),
    'g2ext':   ('c', ['-DGGGGC_FEATURE_FINALIZERS', '-DGGGGC_FEATURE_EXTTAG', '-DGGGGC_FEATURE_JITPSTACK']),
    'g1all':   ('c', ['-DGGGGC_GENERATIONS=1'] + FEAT),
    'g3all':   ('c', ['-DGGGGC_GENERATIONS=3'] + FEAT),
    'g2dbg':   ('c', ['-DGGGGC_DEBUG', '-DGGGGC_FEATURE_FINALIZERS']),
    'pms':     ('c', PMS),
    'pmsall':  ('c', PMS + FEAT),
    'pmsext':  ('c', PMS + ['-DGGGGC_FEATURE_FINALIZERS', '-DGGGGC_FEATURE_EXTTAG', '-DGGGGC_FEATURE_JITPSTACK']),
    'pmsdbg':  ('c', PMS + ['-DGGGGC_DEBUG', '-DGGGGC_FEATURE_FINALIZERS']),
    'nognuc':  ('c', ['-DGGGGC_NO_GNUC_FEATURES'] + FEAT),
    'cxx':     ('c++', FEAT),
    'cxxnognuc': ('c++', ['-DGGGGC_NO_GNUC_FEATURES'] + FEAT),
    'malloc':  ('c', ['-DGGGGC_USE_MALLOC']),
    'sbrk':    ('c', ['-DGGGGC_USE_SBRK']),
    'portal':  ('c', PMS + ['-DGGGGC_USE_PORTABLE_ALLOCATOR']),
    'tiny':    ('c', ['-DGGGGC_DEBUG_TINY_HEAP']),
    'mmap':    ('c', ['-include', os.path.join(DRIVERS, 'mmap.h')]),
    # few cards, so that going through them all is cheap
    'g2fin':   ('c', ['-DGGGGC_CARD_SIZE=17'] + FEAT),
    'g3fin':   ('c', ['-DGGGGC_CARD_SIZE=17', '-DGGGGC_GENERATIONS=3'] + FEAT),
    'g2xfin':  ('c', ['-DGGGGC_CARD_SIZE=17', '-DGGGGC_FEATURE_FINALIZERS', '-DGGGGC_FEATURE_EXTTAG', '-DGGGGC_FEATURE_JITPSTACK']),
    'genbar':  ('c', ['-include', os.path.join(DRIVERS, 'genbar.h')]),
}

# functions which stay separate; everything else is inlined into its callers
KEEP = '''
ret:BreakTableEl
ggggc_newPool ggggc_newPoolGen ggggc_newPoolProto
ggggc_expandPoolList ggggc_freeGeneration
ggggc_collect0 ggggc_collectFull ggggc_countUsed ggggc_compact ggggc_postCompact ggggc_collect
ggggc_mallocRaw ggggc_mallocGen1 ggggc_malloc ggggc_mallocSlot
ggggc_mallocPointerArray ggggc_mallocDataArray
ggggc_allocateDescriptor ggggc_allocateDescriptorL ggggc_allocateDescriptorT
ggggc_allocateDescriptorPA ggggc_allocateDescriptorDA ggggc_allocateDescriptorSlot
ggggc_allocateDescriptorDescriptor
ggggc_yield ggggc_globalize ggggc_finalize ggggc_runFinalizers
ggc_pre_blocking ggc_post_blocking
ggc_mutex_lock ggc_barrier_wait ggc_sem_wait ggc_thread_create ggc_thread_join
ggc_sem_wait_raw ggc_barrier_wait_raw ggc_mutex_lock_raw ggc_mutex_trylock ggc_mutex_unlock
ggc_barrier_init ggc_barrier_destroy ggggc_poolOf
GGC_ListPush GGC_ListPushList GGC_ListUnshift GGC_ListUnshiftList GGC_ListShift
GGC_ListInsertAfter GGC_ListInsertAfterList GGC_ListToArray
'''.split()


class BuildError(Exception):
    pass


_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='ggsa.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')


def ensure_tool():
    if not os.path.exists(TOOL):
        rc, o, e = run(['bash', os.path.join(VERIF, 'tool', 'build.sh')])
        if rc != 0:
            raise BuildError('building the IR dumper failed:\n' + e[-2000:])


def units():
    """the translation units the library's build names"""
    mk = open(os.path.join(REPO, 'Makefile')).read().replace('\\\n', ' ')
    m = re.search(r'^OBJS\s*=\s*(.*)$', mk, re.M)
    us = [o[:-2] + '.c' for o in m.group(1).split() if o.endswith('.o')] if m else []
    us = [u for u in us if os.path.exists(os.path.join(REPO, u))]
    if not us:
        raise BuildError('no translation units found in the Makefile')
    return us


def clang(lang):
    cc = 'clang++' if lang == 'c++' else 'clang'
    for c in (cc + '-18', '/usr/lib/llvm-18/bin/' + cc, cc):
        if shutil.which(c):
            return c
    raise BuildError('no clang')


def flags_for(cfg):
    lang, fl = CONFIGS[cfg]
    base = ['-x', lang, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-strict-aliasing',
            '-fno-omit-frame-pointer', '-w', '-I', REPO]
    if lang == 'c++':
        base += ['-fno-exceptions'] if cfg.endswith('nx') else []
    return lang, base + ['-D_XOPEN_SOURCE=600'] + fl


def compile_tu(cfg, src, out, extra=()):
    lang, fl = flags_for(cfg)
    cmd = [clang(lang)] + fl + list(extra) + ['-emit-llvm', '-c', src, '-o', out]
    rc, o, e = run(cmd, cwd=REPO)
    if rc != 0:
        raise BuildError('%s (%s) does not compile:\n%s' % (src, cfg, e[:3000]))


def dump(bc, out, keep=True, passes=None):
    cmd = [TOOL, bc, out]
    if keep:
        kf = os.path.join(tmpdir(), 'keep')
        if not os.path.exists(kf):
            with open(kf + '.%d' % os.getpid(), 'w') as f:
                f.write('\n'.join(KEEP) + '\n')
            os.rename(kf + '.%d' % os.getpid(), kf)
        cmd += ['--keep', kf]
    if passes:
        cmd += ['--passes', passes]
    if os.environ.get('GGSA_LL'):
        cmd += ['--ll', os.path.join(os.environ['GGSA_LL'], os.path.basename(out)[:-5] + '.ll')]
    rc, o, e = run(cmd)
    if rc != 0:
        raise BuildError('normalising %s failed:\n%s' % (bc, e[:2000]))


def build_unit(cfg, src, extra=(), keep=True):
    """src is relative to REPO, or absolute. Returns the parsed JSON."""
    tag = '%s-%s' % (cfg, re.sub(r'[^A-Za-z0-9]+', '_', os.path.relpath(src, '/') if os.path.isabs(src) else src))
    if extra:
        tag += '-%x' % (hash(tuple(extra)) & 0xffffffff)
    bc = os.path.join(tmpdir(), tag + '.bc')
    js = os.path.join(tmpdir(), tag + '.json')
    compile_tu(cfg, src, bc, extra)
    dump(bc, js, keep)
    with open(js) as f:
        j = json.load(f)
    os.unlink(bc); os.unlink(js)
    return j


def build_many(jobs):
    """jobs: list of (key, cfg, src, extra). Returns {key: json}."""
    ensure_tool()
    tmpdir()
    kf = os.path.join(tmpdir(), 'keep')
    with open(kf, 'w') as f:
        f.write('\n'.join(KEEP) + '\n')
    with ThreadPoolExecutor(max_workers=8) as ex:
        futs = [(k, ex.submit(build_unit, c, s, x)) for k, c, s, x in jobs]
        return {k: f.result() for k, f in futs}
