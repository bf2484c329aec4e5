#!/usr/bin/env python3
"""Self-test of the checkers: applies each mutant of mutants.py to a scratch copy of the headers and
runs the named checks on it (they must fire), or - for equivalent edits - all of them (they must stay
quiet).   usage: run.py [-k REGEX] [-p PROP,...] [-j N]"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here); sys.path.insert(0, os.path.dirname(here))
from mutants import M
from mutants2 import M2
from mutants3 import M3
from mutants4 import M4
from mutants5 import M5
from mutants6 import M6
from mutants7 import M7
M = M + M3 + M4 + M5 + M6 + M7
M = M + [m for m in M2 if m]
from lfa.registry import CHECKS

args = sys.argv[1:]
rx = re.compile(args[args.index('-k') + 1]) if '-k' in args else None
props = args[args.index('-p') + 1].split(',') if '-p' in args else None
J = int(args[args.index('-j') + 1]) if '-j' in args else 4
verbose = '-v' in args


def one(m):
    mid, file, subs, exp = m
    d = tempfile.mkdtemp(prefix='lfamut.')
    try:
        shutil.copytree('/repo/include', d + '/include')
        cache = os.path.join(d, 'cache'); os.makedirs(cache)
        for fl, a, b in ([(file, subs[0], subs[1])] if file else subs):
            p = os.path.join(d, 'include/libfork', fl)
            s = open(p).read()
            if s.count(a) < 1:
                return mid, [('?', 'PATTERN NOT FOUND in ' + fl)]
            open(p, 'w').write(s.replace(a, b, 1))
        res = []
        todo = exp if exp else (props or list(CHECKS))
        if props:
            todo = [x for x in todo if x in props]
        for c in todo:
            env = dict(os.environ, LFA_REPO=d, LFA_CACHE=cache, LFA_EVIDENCE=d)
            r = subprocess.run([sys.executable, os.path.join(os.path.dirname(here), 'check.py'), c], capture_output=True, text=True, env=env)
            want = r.returncode if exp is None else 1 if exp else 0   # None: a probe, reported only
            res.append((c, ('probe %d' % want if exp is None else 'ok') if r.returncode == want else 'WRONG exit %d' % r.returncode, r.stdout if (verbose or r.returncode != want) else ''))
        return mid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


todo = [m for m in M if not rx or rx.search(m[0])]
if props:
    todo = [m for m in todo if not m[3] or set(m[3]) & set(props)]
bad = 0
with ThreadPoolExecutor(J) as ex:
    for mid, res in ex.map(one, todo):
        line = ' '.join('%s:%s' % (r[0], r[1]) for r in res)
        flag = any(r[1] != 'ok' and not r[1].startswith('probe') for r in res)
        bad += flag
        print(('XX ' if flag else '   ') + mid + '  ' + line, flush=True)
        for r in res:
            if len(r) > 2 and r[2]:
                print('      | ' + '\n      | '.join(x[:260] for x in r[2].splitlines()[-(40 if verbose else 6):]))
print('%d mutants, %d unexpected' % (len(todo), bad))
