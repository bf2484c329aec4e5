"""Worker-local state is looked up afresh (C27): an address-taint analysis of the optimised modules
(what the coroutine transformation made of them) and reachability of inlinable accessors."""
import re
from ..ir import *
from ..kit import *
from .frames import tls_ctx_exprs
from .throws import short, ours, F


def lib(file):
    return ours(file) and '/schedule/' not in file


class Fn:
    def __init__(self, t):
        self.d = {'file': t.get('file') or '', 'line': t.get('line')}
        self.name = self.q = t['n']
        self.file = self.d['file']

    def where(self, *a):
        return '%s:%s' % (self.file.split('include/')[-1], self.d['line'])


def c27(ck, mods):
    ck.rule('cached', 'in optimised code no address of a worker\'s own stack or context is kept in memory that outlives the function looking it up (objects, coroutine frames, globals)', 4)
    ck.rule('accessor', 'for compilers that cache thread-local addresses across suspension, code inlinable into a coroutine does not take the address of worker-local state', 10)
    ck.rule('local', 'the stack and the context of a worker are thread-local objects', 2)
    ck.rule('fresh', 'the context a task asks for, and the one resume_on compares with, is looked up at that moment', 2)
    for cfg, mod in sorted(mods.items()):
        ck.cfg = cfg
        for drv, m in sorted(mod.items()):
            if drv.endswith('-O2'):
                cached(ck, m)
            elif m.graph is not None and m.tls is not None:
                accessor(ck, m)
            else:
                fresh(ck, m)
        for drv, m in sorted(mod.items()):
            if drv == 'core':
                glob(ck, m)


def cached(ck, m):
    n = 0
    for t in m.tls:
        n += 1
        f = Fn(t)
        for s in t['stores']:
            at = s['at']
            if at and not lib(at[0].get('file')):
                continue       # user code keeping a value it asked for, or a pool's own thread
            if not at and not lib(t.get('file')):
                continue
            a = at[0] if at else {'file': f.file, 'line': f.d['line']}
            ck.bad('cached', '%s:%s' % (a['file'].split('include/')[-1], a['line']),
                   'the address of worker-local state is stored where it survives the function (looked up on one worker, used on another): ' + ' <- '.join('%s' % x.get('fn', '?') for x in at[:4]), f)
        if not t['stores']:
            ck.ok('cached', f.where())
    ck.need(n > 3, 'cached', 'module', 'no use of worker-local state found', None) if n else None


def accessor(ck, m):
    g = {f['m']: f for f in m.graph}
    tl = {t['m']: t for t in m.tls}
    noin = {s['m'] for s in m.symbols if s['noinline']}
    flags = {v for v, gl in m.globals.items() if gl['tls'] and m.T.size(gl.get('t')) == 1}
    for root, f in g.items():
        if not f['coro']:
            continue
        todo, seen = [(root, (root,))], {root}
        bad = None
        while todo and bad is None:
            x, way = todo.pop()
            t = tl.get(x)
            if t and [v for v in t['direct'] if v not in flags]:
                bad = (x, way)
                break
            fx = g.get(x)
            if fx is None:
                continue
            for c in [c['f'] for c in fx['calls']] + list(fx.get('quiet', [])):
                if c in g and c not in seen and c not in noin and not g[c]['coro']:
                    seen.add(c)
                    todo.append((c, way + (c,)))
        if bad:
            ck.bad('accessor', Fn(tl[bad[0]]).where(), 'this takes the address of worker-local state and can be inlined into a coroutine, where the compiler may reuse the address after a migration (via %s)' % ' -> '.join(short(g[w]['n']) for w in bad[1][-4:]), Fn(tl[bad[0]]))
        else:
            ck.ok('accessor', root)


def glob(ck, m):
    for v, g in sorted(m.globals.items()):
        if g['const'] or not ours(g.get('file')):
            continue
        ck.need(g['tls'], 'local', g['file'].split('include/')[-1], 'the mutable library object %s is shared by all threads' % g['n'], None)


def fresh(ck, m):
    for f in ck.fns(m, r'^lf::(core::)?(impl::)?first_arg_t(<.*>)?::context\(|first_arg_t::context$', 'ctx', 1):
        for p in paths(f):
            if p.end.kind == 'ret':
                ck.need(p.ret in tls_ctx_exprs(f), 'fresh', p.end.where(), 'the context handed out is not the one of the current worker', f)
    for f in ck.fns(m, r'resume_on_quasi_awaitable::await_ready$', 'ctx', 1):
        for p in paths(f):
            if p.end.kind == 'ret':
                ck.need(any(mentions(x, e) for e in tls_ctx_exprs(f) for x in [p.ret]) or bool(tls_ctx_exprs(f)), 'fresh', f.where(), 'the worker running the task is not looked up', f)
