"""C28: every header alone, in every configuration, in many translation units."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..build import REPO, VERIF, CLANG, load
from ..ir import AnalysisBroken
from .witness import first_error

Q = [('g++', '-std=c++23'), ('g++', '-std=c++23 -DNDEBUG -DLF_USE_HWLOC'), ('g++', '-std=c++20 -fno-exceptions'),
     (CLANG, '-std=c++23 -DLF_USE_HWLOC'), (CLANG, '-std=c++23 -DNDEBUG -fno-exceptions'), (CLANG, '-std=c++20')]
T = Q + [('g++', '-std=c++23 -DNDEBUG'), ('g++', '-std=c++20 -DLF_USE_HWLOC'), ('g++', '-std=c++23 -DLF_DEFAULT_LOGGING'), ('g++', '-std=c++20 -DNDEBUG -O2'), ('g++', '-std=c++23 -fno-exceptions -DNDEBUG -DLF_USE_HWLOC'),
         (CLANG, '-std=c++23 -DNDEBUG'), (CLANG, '-std=c++20 -DNDEBUG -DLF_USE_HWLOC'), (CLANG, '-std=c++23 -DLF_DEFAULT_LOGGING'), (CLANG, '-std=c++20 -fno-exceptions'), (CLANG, '-std=c++23 -fno-exceptions -DLF_USE_HWLOC')]
# the whole vocabulary, instantiated, in more configurations
USE = [('g++', '-std=c++23'), ('g++', '-std=c++20 -DNDEBUG -DLF_USE_HWLOC -O2'), ('g++', '-std=c++23 -fno-exceptions'), ('g++', '-std=c++23 -DLF_DEFAULT_LOGGING'), ('g++', '-std=c++23 -DLF_FIBRE_INIT_SIZE=1048576'),
       ('g++', '-std=c++20 -fno-exceptions -DNDEBUG'), ('g++', '-std=c++23 -fno-rtti'), (CLANG, '-std=c++23'), (CLANG, '-std=c++20 -DNDEBUG -DLF_USE_HWLOC'), (CLANG, '-std=c++23 -fno-exceptions -DNDEBUG'),
       (CLANG, '-std=c++23 -DLF_DEFAULT_LOGGING'), (CLANG, '-std=c++20 -fno-exceptions'), (CLANG, '-std=c++23 -DNDEBUG -DLF_FIBRE_INIT_SIZE=1'), (CLANG, '-std=c++23 -D_GLIBCXX_DEBUG')]


def headers():
    inc = os.path.join(REPO, 'include')
    hs = []
    for d, _, fs in os.walk(inc):
        hs += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith('.hpp')]
    return sorted(hs)


def cc(conf, *more):
    c = [conf[0]] + conf[1].split() + ['-w', '-fsyntax-only', '-I', os.path.join(REPO, 'include')] + list(more)
    r = subprocess.run(c, capture_output=True, text=True, timeout=600)
    if r.returncode < 0 or 'internal compiler error' in r.stderr:
        raise AnalysisBroken('the compiler crashes: ' + ' '.join(c))
    return r


def c28(ck, mods):
    ck.rule('standalone', 'each header compiles as the first (and only) include, twice, in each configuration', 100)
    ck.rule('vocabulary', 'the instantiated public vocabulary compiles in each configuration', 10)
    ck.rule('include-order', 'all headers together compile in either order', 8)
    ck.rule('one-definition', 'no function or variable a header defines has a strong external symbol', 200)
    ck.rule('shared-state', 'no variable a header defines is both mutable and private to its translation unit', 1)
    hs = headers()
    if len(hs) < 20:
        raise AnalysisBroken('only %d headers found' % len(hs))
    confs = T if ck.tier == 'thorough' else Q
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        solo = [(h, c, ex.submit(cc, c, '-include', h, '-include', h, '-x', 'c++', '/dev/null')) for c in confs for h in hs]
        voc = [(c, ex.submit(cc, c, os.path.join(VERIF, 'witness', 'use.cpp'))) for c in USE]
        order = []
        for c in confs:
            for l in (hs, hs[::-1]):
                inc = [x for h in l for x in ('-include', h)]
                order.append((c, ex.submit(cc, c, *inc, os.path.join(VERIF, 'witness', 'use.cpp'))))
        for h, c, f in solo:
            r = f.result()
            ck.cfg = os.path.basename(c[0]) + ' ' + c[1]
            ck.need(r.returncode == 0, 'standalone', 'include/' + h, 'does not compile on its own: ' + first_error(r.stderr))
        for c, f in voc:
            r = f.result()
            ck.cfg = os.path.basename(c[0]) + ' ' + c[1]
            ck.need(r.returncode == 0, 'vocabulary', anchor(r.stderr), 'the public vocabulary does not compile: ' + first_error(r.stderr))
        for c, f in order:
            r = f.result()
            ck.cfg = os.path.basename(c[0]) + ' ' + c[1]
            ck.need(r.returncode == 0, 'include-order', anchor(r.stderr), 'all headers together do not compile: ' + first_error(r.stderr))
    for cfg, ms in mods.items():
        ck.cfg = cfg
        n = 0
        for m in ms.values():
            for s in m.symbols:
                f = s.get('file', '')
                if s['decl'] or '/include/libfork' not in f:
                    continue
                n += 1
                at = 'include' + f.split('/include', 1)[1] + ':%d' % s.get('line', 0)
                ck.funcs.add(at)
                if s['weak'] or s['local']:
                    ck.ok('one-definition', at)
                else:
                    ck.bad('one-definition', at, '%s is defined by every translation unit that includes this header' % s['n'][:150])
            for g in m.globals.values():
                f = g.get('file', '')
                if g['decl'] or '/include/libfork' not in f:
                    continue
                at = 'include' + f.split('/include', 1)[1] + ':%d' % g.get('line', 0)
                if not g['local']:
                    ck.need(g['weak'], 'one-definition', at, '%s is defined by every translation unit that includes this header' % g['n'][:150])
                if not g['const']:
                    ck.need(not g['local'], 'shared-state', at, '%s: every translation unit gets a copy of its own' % g['n'][:150])
        if n < 100:
            raise AnalysisBroken('%s: only %d functions defined by the headers' % (cfg, n))


def anchor(err):
    m = re.search(r'include/(libfork\S*?:\d+):\d+: (?:fatal )?error', err)
    return 'include/' + m.group(1) if m else 'include/libfork.hpp'
