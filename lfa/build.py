"""Compiles the drivers against /repo's current headers and exports the selected functions."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
from .ir import Module, AnalysisBroken
from .jobs import JOBS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LFA_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
IRX = os.path.join(VERIF, '.build', 'irx')

# name -> compiler flags.  The "gcc view" hides clang's own macro from the headers, so the code the
# project's gcc build sees is analysed too; the "clang view" is what clang users get.
CONFIGS = {
    'gcc-debug':       ['-DLFA_GCCVIEW', '-DLF_USE_HWLOC'],
    'clang-ndebug':    ['-DNDEBUG', '-DLF_USE_HWLOC'],
    'gcc-ndebug':      ['-DLFA_GCCVIEW', '-DNDEBUG', '-DLF_USE_HWLOC'],
    'clang-debug':     ['-DLF_USE_HWLOC'],
    'gcc-debug-nohw':  ['-DLFA_GCCVIEW'],
    'clang-ndebug-nohw': ['-DNDEBUG'],
    'clang16-ndebug': ['-DLFA_CLANG16VIEW', '-DNDEBUG', '-DLF_USE_HWLOC'],   # what the headers show clang <= 16
}
QUICK = ['gcc-debug', 'clang-ndebug']
THOROUGH = list(CONFIGS)[:-1]


def ensure_irx():
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    if not os.path.exists(IRX) or os.path.getmtime(IRX) < os.path.getmtime(src):
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
        if r.returncode or not os.path.exists(IRX):
            raise AnalysisBroken('cannot build irx: ' + r.stderr[-2000:])


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'include'),):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h


def spec_text(jobs):
    out = []
    for j in jobs:
        out.append('job ' + j)
        for k, vs in JOBS[j].items():
            if k in ('driver', 'opt', 'cfgs'):
                continue
            for v in ([vs] if isinstance(vs, (str, int)) else vs):
                out.append('%s %s' % (k, v))
    return '\n'.join(out) + '\n'


def compile_bc(driver, cfg, tmp, opt=None):
    bc = os.path.join(tmp, '%s.%s%s.bc' % (driver, cfg, opt or ''))
    cmd = [CLANG, '-std=c++23', '-w'] + CONFIGS[cfg] + ([opt] if opt else ['-O1', '-Xclang', '-disable-llvm-passes']) + ['-g', '-emit-llvm', '-c',
           os.path.join(VERIF, 'driver', driver + '.cpp'), '-I', os.path.join(REPO, 'include'), '-o', bc]
    cache = os.environ.get('LFA_CACHE')
    if cache:
        h = tree_hash()
        for f in (driver + '.cpp', 'std.inc'):
            h.update(open(os.path.join(VERIF, 'driver', f), 'rb').read())
        h.update(' '.join(CONFIGS[cfg]).encode())
        c = os.path.join(cache, '%s.%s%s.%s.bc' % (driver, cfg, opt or '', h.hexdigest()[:24]))
        if os.path.exists(c):
            return c
        cmd[-1] = bc = c
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('driver %s does not compile (%s):\n%s' % (driver, cfg, r.stderr[:3000]))
    return bc


def export(bc, jobs, cfg, tmp):
    sp = os.path.join(tmp, cfg + '.' + '_'.join(jobs)[:80] + '.spec')
    text = spec_text(jobs)
    out = sp + '.json'
    cache = os.environ.get('LFA_CACHE')
    if cache:
        h = hashlib.sha256(text.encode() + bc.encode() + open(IRX, 'rb').read()).hexdigest()[:24]
        out = os.path.join(cache, h + '.json')
        if os.path.exists(out):
            return json.load(open(out))
    open(sp, 'w').write(text)
    r = subprocess.run([IRX, bc, sp, out], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('irx failed: ' + r.stderr[-2000:])
    return json.load(open(out))


def load(jobs, cfgs):
    """{cfg: {driver: Module}} for the drivers the jobs need, in parallel."""
    ensure_irx()
    by = {}
    for j in jobs:
        by.setdefault((JOBS[j]['driver'], JOBS[j].get('opt'), tuple(JOBS[j].get('cfgs', cfgs))), []).append(j)
    tmp = tempfile.mkdtemp(prefix='lfa.')
    try:
        def one(dc):
            (d, opt, _), c = dc
            bc = compile_bc(d, c, tmp, opt)
            return (d + (opt or ''), c), export(bc, by[dc[0]], c, tmp)
        work = [(k, c) for k in by for c in k[2]]
        res = {}
        with ThreadPoolExecutor(max_workers=8) as ex:
            for (d, c), j in ex.map(one, work):
                res.setdefault(c, {})[d] = Module(j, c)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
