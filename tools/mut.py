#!/usr/bin/env python3
"""Run the checks on mutants of /repo (development aid; no check uses it).
mut.py [-p C07,C08] [-k PATTERN] [-c]    -c: only check that they compile"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, 'tools'))
import mutants
REPO = '/repo'


def one(m, props):
    mid, want, edits = m
    d = tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.run('git -C %s archive HEAD | tar x -C %s' % (REPO, d), shell=True, check=True)
        for fn, old, new in edits:
            p = os.path.join(d, fn); s = open(p).read()
            if old not in s:
                return mid, want, None, 'TEXT NOT FOUND in %s: %r' % (fn, old[:60])
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        hits = {}
        out = ''
        ev = tempfile.mkdtemp(prefix='mutv.', dir=d)
        env = dict(os.environ, GGGGC_REPO=d, GGSA_EVIDENCE=ev)
        p = subprocess.run([sys.executable, '-m', 'sa.main'] + props, cwd=V, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = p.stdout.decode(errors='replace')
        for l in t.splitlines():
            if l.startswith('VIOLATION'):
                hits[l.split('property=')[1].split()[0]] = 'V'
            if l.startswith('ERROR'):
                hits[l.split('property=')[1].split()[0]] = 'E'
        return mid, want, hits, t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    props = None; pat = None; verbose = '-v' in a
    if '-p' in a:
        props = a[a.index('-p') + 1].split(',')
    if '-k' in a:
        pat = a[a.index('-k') + 1]
    ms = [m for m in mutants.M if pat is None or re.search(pat, m[0])]
    if props:
        ms = [m for m in ms if not m[1] or m[1] == '-' or set(m[1].split()) & set(props)]
    from sa import props as PP
    with ThreadPoolExecutor(max_workers=7) as ex:
        def go(m):
            if props:
                ps = props
            else:
                ps = list(PP.PROPS)
            return one(m, ps)
        for mid, want, hits, t in ex.map(go, ms):
            if hits is None:
                print('%-28s %s' % (mid, t)); continue
            w = set(want.split()) - {'-'}
            if props:
                w &= set(props)
            got = {k for k, v in hits.items() if v == 'V'}
            miss = sorted(w - got)
            extra = sorted(got - w) if not w else []
            errs = sorted(k for k, v in hits.items() if v == 'E')
            tag = 'ok ' if not miss and not extra and not errs else 'BAD'
            print('%s %-30s want %-10s got %-30s %s%s' % (tag, mid, ' '.join(sorted(w)) or '-', ' '.join(sorted(got)),
                  'MISSED ' + ' '.join(miss) if miss else '', (' ERR ' + ' '.join(errs)) if errs else ''))
            if verbose or (tag == 'BAD' and not w) or errs:
                print('   ' + '\n   '.join(x[:240] for x in t.splitlines()[:8 if not verbose else 20]))
            sys.stdout.flush()


if __name__ == '__main__':
    main()
