"""Shared vocabulary of the rules: path enumeration over acyclic code, event classification,
violations, obligations and evidence."""
import json, os, re, sys, time
from . import ir
from .ir import *


class Ev:
    """one memory access / call / return on one path, with expressions resolved on that path"""
    __slots__ = ('i', 'kind', 'addr', 'val', 'args', 'name', 'edge', 'fn', 'flds', 'facts', 'oaddr', 'rv')

    def __init__(self, fn, i, kind, **k):
        self.fn, self.i, self.kind = fn, i, kind
        self.addr = self.val = self.args = self.edge = self.oaddr = self.facts = self.rv = None
        self.name = ''
        self.flds = frozenset()
        for a, b in k.items():
            setattr(self, a, b)

    def to(self, *names):
        return any(n in self.flds for n in names)

    def where(self):
        return self.i.where()

    def __repr__(self):
        return '%s %s %s' % (self.kind, self.name or sorted(self.flds)[:2], self.edge or '')


def callee_q(i):
    """template-free qualified name of a callee"""
    q = i.get('cq')
    if q:
        return notmpl(q).replace('(anon)', '@')
    c = i.callee or ''
    return notmpl(c.split('(')[0]) if c else ''


def aliases(fn, addr, env=None):
    return frozenset(notmpl(x) for x in fn.fields(addr))


DEAD = ('__assert_fail', 'std::terminate', 'abort', '__clang_call_terminate', '__cxa_throw_bad', '_exit', 'exit')


THROWS = ('__cxa_throw', '__cxa_rethrow', 'std::rethrow_exception')


def may_unwind(i):
    if i.get('nounwind') or i.get('fnounwind') or i.get('asm') is not None:
        return False
    c = i.callee or ''
    return not c.startswith('llvm.') and not c.startswith('__cxa_begin') and not c.startswith('__cxa_free')


def is_dead_call(i):
    c = i.callee or ''
    return any(c.startswith(d) for d in DEAD)


def mk_event(fn, i, cx, edge=None):
    op = i.op
    if op == 'load':
        a = cx.val(i.ops[0])
        return Ev(fn, i, 'load', addr=a, flds=aliases(fn, a) | aliases(fn, fn.operand(i.ops[0])), val=cx.env.get(i.v) or ('ld', a, i.v))
    if op == 'store':
        a = cx.val(i.ops[1])
        return Ev(fn, i, 'store', addr=a, val=cx.val(i.ops[0]), flds=aliases(fn, a) | aliases(fn, fn.operand(i.ops[1])))
    if op == 'atomicrmw':
        a = cx.val(i.ops[0])
        return Ev(fn, i, 'rmw', addr=a, val=cx.val(i.ops[1]), name=i.get('rmw'), flds=aliases(fn, a) | aliases(fn, fn.operand(i.ops[0])))
    if op == 'cmpxchg':
        a = cx.val(i.ops[0])
        return Ev(fn, i, 'cas', addr=a, val=cx.val(i.ops[2]), args=[cx.val(i.ops[1])], flds=aliases(fn, a) | aliases(fn, fn.operand(i.ops[0])))
    if op == 'fence':
        return Ev(fn, i, 'fence', name=i.get('order'))
    if i.is_call:
        if i.get('asm') is not None:
            return Ev(fn, i, 'asm', name=i.get('asm'))
        n = callee_q(i)
        if n.startswith('llvm.') and not n.startswith('llvm.mem') and not n.startswith('llvm.coro'):
            return None
        return Ev(fn, i, 'call', name=n, args=[cx.val(o) for o in i.ops], edge=edge, rv=cx.env.get(i.v) or ('call', i.v))
    if op == 'ret':
        return Ev(fn, i, 'ret', val=cx.val(i.ops[0]) if i.ops else None)
    if op == 'resume':
        return Ev(fn, i, 'unwind')
    if op == 'unreachable':
        return Ev(fn, i, 'unreachable')
    return None


class Path:
    def __init__(self, evs, facts):
        self.evs, self.facts = evs, facts

    @property
    def end(self):
        return self.evs[-1] if self.evs else None

    @property
    def ret(self):
        return self.end.val if self.end is not None and self.end.kind == 'ret' else None

    def find(self, pred):
        return [(k, e) for k, e in enumerate(self.evs) if pred(e)]

    def calls(self, rx):
        r = re.compile(rx)
        return [(k, e) for k, e in enumerate(self.evs) if e.kind == 'call' and r.search(e.name)]


def paths(fn, limit=6000, visits=2, live_only=True, assumes=False, start=None, stop=None, versions=False):
    """All facts-feasible paths of `fn`; every block at most `visits` times.  Paths ending in an
    assertion failure / terminate are dropped when live_only.  What the library merely asserts
    (llvm.assume in the NDEBUG views) is not taken for granted unless `assumes`."""
    out = []
    cnt = [0]
    stack = [(start.b if start is not None else 0, (), Facts(), (), ())]
    skip = start is not None
    while stack:
        b, envt, facts, evs, visited = stack.pop()
        env = dict(envt)
        cx = Ctx(fn, env, facts)
        evl = list(evs)
        blk = fn.blocks[b]
        dead = False
        for i in blk[:-1]:
            if skip:
                if i.v != start.v:
                    continue
                skip = False
            if i.op == 'phi':
                continue
            if visited.count(b) and cx.facts.f and i.op in ('load', 'call', 'atomicrmw', 'cmpxchg') and not (versions and i.is_call):
                v = i.v
                if i.op != 'load':
                    cx.facts = cx.facts.kill(lambda a: a[0] in ('call', 'rmw', 'cas', 'v') and len(a) > 1 and a[1] == v)
            if i.op == 'load' and visited.count(b):
                # a load executed again yields a new value: version it
                env[i.v] = ('ld', cx.val(i.ops[0]), i.v + 1000000 * visited.count(b))
            if versions and i.is_call and visited.count(b):
                env[i.v] = ('call', i.v + 1000000 * visited.count(b))
            if i.op == 'call' and i.callee.startswith('llvm.assume'):
                if not assumes:
                    continue
                nf = cx.facts.assume(cx.val(i.ops[0]), True)
                if nf is None:
                    dead = True
                    break
                cx.facts = nf
                continue
            if i.op == 'call' and is_dead_call(i):
                evl.append(mk_event(fn, i, cx))
                evl.append(Ev(fn, i, 'unreachable'))
                if not live_only:
                    out.append(Path(evl, cx.facts))
                dead = True
                break
            e = mk_event(fn, i, cx)
            if e is not None:
                e.facts = cx.facts
                if e.kind == 'call' and may_unwind(i):
                    u = mk_event(fn, i, cx, 'unwind')
                    u.facts = cx.facts
                    out.append(Path(evl + [u, Ev(fn, i, 'unwind')], cx.facts))
                    if u.name in THROWS:
                        dead = True
                        break
                    e.edge = 'normal'
                evl.append(e)
                if stop is not None and stop(e):
                    out.append(Path(evl, cx.facts))
                    dead = True
                    break
        skip = False
        if dead:
            continue
        t = blk[-1]
        outs = []
        if t.op == 'invoke':
            if versions and visited.count(b):
                env[t.v] = ('call', t.v + 1000000 * visited.count(b))
            for kind in ('normal', 'unwind'):
                if kind == 'unwind' and not may_unwind(t):
                    continue
                if kind == 'normal' and callee_q(t) in THROWS:
                    continue
                e = mk_event(fn, t, cx, kind)
                if e is not None:
                    e.facts = cx.facts
                    if stop is not None and stop(e):
                        out.append(Path(evl + [e], cx.facts))
                        continue
                outs.append((t.get(kind), cx.facts, evl + ([e] if e else [])))
        elif t.op == 'br' and t.ops:
            c = cx.val(t.ops[0])
            for k, val in ((0, True), (1, False)):
                nf = cx.facts.assume(c, val)
                if nf is not None:
                    outs.append((t.get('succ')[k], nf, evl))
        elif t.op == 'switch':
            ce = cx.val(t.ops[0])
            d = cx.facts
            for c, bb in t.get('cases'):
                nf = cx.facts.assume(('cmp', 'eq', '', ce, ('c', c)), True)
                if nf is not None:
                    outs.append((bb, nf, evl))
                d = d and d.assume(('cmp', 'eq', '', ce, ('c', c)), False)
            if d is not None:
                outs.append((t.get('default'), d, evl))
        elif t.op in ('ret', 'resume', 'unreachable'):
            e = mk_event(fn, t, cx)
            e.facts = cx.facts
            evl.append(e)
            if not (live_only and t.op == 'unreachable'):
                out.append(Path(evl, cx.facts))
            cnt[0] += 1
            if cnt[0] > limit:
                raise AnalysisBroken('too many paths in ' + fn.name)
            continue
        else:
            for x in t.get('succ') or []:
                outs.append((x, cx.facts, evl))
        for sb, nf, ev2 in outs:
            if visited.count(sb) >= visits:
                continue
            ne = dict(env)
            new = {}
            for p in fn.blocks[sb]:
                if p.op != 'phi':
                    break
                for o, pb in p.d['inc']:
                    if pb == b:
                        new[p.v] = fn.operand(o, env)
                        break
            if new and visited.count(sb):
                nf = nf.kill(lambda a: a[0] == 'phi' and len(a) > 1 and a[1] in new)
            ne.update(new)
            stack.append((sb, tuple(ne.items()), nf, tuple(ev2), visited + (b,)))
    return out


def terminating(fn):
    """calls whose exception is turned into program termination: [(instruction, callee)].  From the
    landing pad only normal edges are followed (clean-up code is taken not to throw itself)."""
    out = []
    for i in fn.insts():
        if i.op != 'invoke' or not may_unwind(i):
            continue
        seen, todo, hit = set(), [i.get('unwind')], False
        while todo and not hit:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for x in fn.blocks[b]:
                if x.is_call and x.op != 'invoke' and is_dead_call(x) and not (x.callee or '').startswith('__assert'):
                    hit = True
                    break
            t = fn.blocks[b][-1]
            todo += [t.get('normal')] if t.op == 'invoke' else list(t.get('succ') or [])
        if hit:
            out.append((i, callee_q(i)))
    return out


# ----------------------------------------------------------------------------- expression helpers
def loads_field(fn, e, *names):
    """is e the value loaded from one of the named fields?"""
    return e is not None and e[0] == 'ld' and any(n in {notmpl(x) for x in fn.fields(e[1])} for n in names)


def field_base(fn, addr, field):
    """base pointer expression of the object whose `field` `addr` designates."""
    base, off = split(addr)
    return base


def self_of(fn, e):
    """frame pointer whose own coroutine handle `e` is (ld frame::m_this_coro), or None."""
    if loads_field(fn, e, 'frame::m_this_coro'):
        return split(e[1])[0]
    return None


def is_noop_handle(e):
    return e is not None and ((e[0] == 'g' and 'coroutine_handle' in e[1]) or e[0] == 'call')


def same(a, b):
    return strip_ids(a) == strip_ids(b)


def tls_of(fn, e, what):
    """is e (an address) the thread-local `thread_stack` / `thread_context` object?"""
    base, off = split(e)
    if base[0] == 'g':
        g = fn.mod.globals.get(base[2])
        return bool(g and g.get('tls') and base[1].endswith('::' + what))
    return False


# ----------------------------------------------------------------------------- small decision helpers
M64 = 1 << 64


def _ineqs(facts):
    """linear expressions known to be >= 0 (signed reading) under the facts."""
    for lit, val in facts.f:
        if lit[0] == 'p' and lit[1][0] == 'cmp' and lit[1][1] in ('slt', 'ult'):
            a, b = lit[1][3], lit[1][4]
            yield lin_sub(b, addoff(a, 1), M64) if val else lin_sub(a, b, M64)
        if lit[0] == 'z' and val:
            yield dict(lit[1]), lit[2]
            yield {k: (-v) % M64 for k, v in lit[1]}, (-lit[2]) % M64


def sgn(c):
    return c - M64 if c >= M64 // 2 else c


def ge(facts, e, k=0):
    """do the facts say e >= k ?  (single inequality, strengthened by one disequality)"""
    a, c = linear(addoff(e, -k), M64)
    c = sgn(c)
    if not a:
        return c >= 0
    best = None
    for la, lc in _ineqs(facts):
        if {x: v % M64 for x, v in la.items()} == a:
            d = c - sgn(lc)          # e - k  =  ineq + d
            best = d if best is None else max(best, d)
    if best is None:
        return False
    while best < 0:
        # the inequality is tight at e == k + best; a disequality there moves the bound up by one
        if facts.zero(addoff(e, -(k + best))) is False:
            best += 1
        else:
            return False
    return True


def ceval(facts, e):
    """constant value of e under the facts, or None"""
    if e[0] == 'c':
        return e[1]
    if e[0] == 'select':
        t = facts.truth(e[1])
        return None if t is None else ceval(facts, e[2] if t else e[3])
    if e[0] == 'op' and e[1] == 'xor' and e[3][0] == 'c' and e[3][1] in (-1, 1):
        t = facts.truth(e[2])
        return None if t is None else int(not t)
    if e[0] == 'cmp' or e[0] in ('ev', 'op'):
        t = facts.truth(e) if e[0] != 'op' or e[1] in ('and', 'or') else None
        if t is not None:
            return int(t)
    return None


def sel(facts, e):
    """e with selects decided by the facts resolved"""
    while e[0] == 'select':
        t = facts.truth(e[1])
        if t is None:
            break
        e = e[2] if t else e[3]
    return e


def iv_get(e, *ix):
    """field of an aggregate built with insertvalue"""
    while e[0] == 'iv':
        if e[3] == tuple(ix):
            return e[2]
        e = e[1]
    return None


STRONG_REL = {'release', 'acq_rel', 'seq_cst'}
STRONG_ACQ = {'acquire', 'acq_rel', 'seq_cst'}


def full_fence(e):
    return (e.kind == 'fence' and e.name == 'seq_cst' and not e.i.get('single')) or (e.kind == 'asm' and 'lock' in e.name and '{memory}' in (e.i.get('constraints') or '')) or \
           (e.kind == 'rmw' and e.i.get('order') == 'seq_cst')


def is_rel_fence(e):
    return (e.kind == 'fence' and e.name in STRONG_REL and not e.i.get('single')) or full_fence(e)


def is_acq_fence(e):
    return (e.kind == 'fence' and e.name in STRONG_ACQ and not e.i.get('single')) or full_fence(e)


# ----------------------------------------------------------------------------- verdict collection
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []          # dicts
        self.oblig = {}         # rule -> count
        self.sites = {}         # rule -> sample sites
        self.funcs = set()
        self.t0 = time.time()
        self.cfg = ''
        self.rules = {}
        self.minimum = {}

    def rule(self, name, text, minimum=1):
        """declare a rule; fewer than `minimum` discharged obligations means the analysis is blind."""
        self.rules[name] = text
        self.minimum[name] = minimum
        self.oblig.setdefault(name, 0)

    def ok(self, rule, site=None, n=1):
        self.oblig[rule] = self.oblig.get(rule, 0) + n
        if site is not None:
            s = self.sites.setdefault(rule, [])
            if site not in s and len(s) < 40:
                s.append(site)

    def bad(self, rule, where, msg, fn=None):
        self.oblig[rule] = self.oblig.get(rule, 0) + 1
        key = (rule, where, msg)
        for v in self.viol:
            if (v['rule'], v['where'], v['msg']) == key:
                if self.cfg not in v['configs']:
                    v['configs'].append(self.cfg)
                return
        self.viol.append(dict(rule=rule, where=where, msg=msg, function=short(fn.name)[:160] if fn is not None else '', configs=[self.cfg]))

    def need(self, cond, rule, where, msg, fn=None):
        if cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, msg, fn)
        return cond

    def fns(self, mod, rx, job, minimum=1):
        r = re.compile(rx)
        fs = [f for f in mod.funcs if f.d['job'] == job and r.search(f.q)]
        if len(fs) < minimum:
            raise AnalysisBroken('%s: %d functions match %s in job %s (expected at least %d)' % (self.cfg, len(fs), rx, job, minimum))
        for f in fs:
            if not f.d.get('within'):
                raise AnalysisBroken('inlining budget exceeded in ' + f.name)
            self.funcs.add(f.where())
        return fs


# ----------------------------------------------------------------------------- symbolic memory along a path
class Heap:
    """Resolves loads along one path against the stores before them.  Addresses with different
    symbolic bases are taken to be different objects (the rules using it say so)."""

    def __init__(self, p, clobber=None):
        self.map, self.mem, self.evs = {}, {}, []
        self.clobber = clobber
        for e in p.evs:
            r = Ev(e.fn, e.i, e.kind, name=e.name, edge=e.edge)
            r.flds, r.facts = e.flds, e.facts
            r.addr = self.rw(e.addr) if e.addr is not None else None
            r.args = [self.rw(a) for a in e.args] if e.args is not None else None
            if e.kind == 'load':
                k = self.key(r.addr)
                v = self.mem.get(k)
                if v is None:
                    v = self.mem[k] = ('m0', r.addr)
                r.val = v
                if e.val[0] == 'ld':
                    self.map[e.val[2]] = v
            elif e.val is not None:
                r.val = self.rw(e.val)
                if e.kind == 'store':
                    self.mem[self.key(r.addr)] = r.val
            if e.kind == 'call' and clobber and clobber(r):
                self.mem = {k: v for k, v in self.mem.items() if k[0][0] == 'alloca'}
            self.evs.append(r)
        self.facts = self.rwf(p.facts)

    def key(self, a):
        return split(a)

    def rw(self, e):
        if not isinstance(e, tuple) or not e:
            return e
        if e[0] == 'ld' and len(e) > 2 and e[2] in self.map:
            return self.map[e[2]]
        if e[0] == 'off':
            return addoff(self.rw(e[1]), e[2])
        return tuple(self.rw(x) if isinstance(x, tuple) else x for x in e)

    def rwf(self, facts):
        out = Facts()
        for lit, val in facts.f:
            if lit[0] == 'p':
                out = Facts(out.f | {(('p', self.rw(lit[1])), val)})
            else:
                e = ('c', lit[2])
                for a, c in lit[1]:
                    a = self.rw(a)
                    e = ('op', 'add', e, a if c == 1 else ('op', 'mul', a, ('c', c)))
                out = out._addz(e, val)
        return out

    def get(self, base, off):
        return self.mem.get((base, off))


def m0(base, off=0):
    return ('m0', addoff(base, off))


def lowers(e, depth=0):
    """linear forms known to be <= e, ignoring overflow: {atoms}, const"""
    out = [(linear(e, M64))]
    if depth > 6:
        return out
    a, c = linear(e, M64)
    for atom, k in a.items():
        if k != 1 or atom[0] not in ('op', 'select'):
            continue
        subs = []
        if atom[1] == 'and' and atom[3][0] == 'c' and atom[3][1] < 0:
            subs = [addoff(atom[2], -(-atom[3][1] - 1))]
        elif atom[1] in ('umax', 'smax'):
            subs = [atom[2], atom[3]]
        elif atom[1] == 'or':
            subs = [atom[2], atom[3]]
        rest = ('c', sgn(c))
        for b, kb in a.items():
            if b != atom:
                rest = ('op', 'add', rest, b if kb == 1 else ('op', 'mul', b, ('c', kb)))
        for s in subs:
            out += lowers(('op', 'add', rest, s), depth + 1)
    return out


def at_least(e, want, facts=None):
    """e >= want through a structural lower bound (or a fact)"""
    wa, wc = linear(want, M64)
    for a, c in lowers(e):
        if a == wa and sgn(c) >= sgn(wc):
            return True
    return facts is not None and ge(facts, ('op', 'sub', e, want))


def multiple_of(e, n):
    if e[0] == 'c':
        return e[1] % n == 0
    if e[0] == 'off':
        return e[2] % n == 0 and multiple_of(e[1], n)
    if e[0] == 'op':
        if e[1] == 'and':
            return any(x[0] == 'c' and x[1] % n == 0 for x in (e[2], e[3])) or multiple_of(e[2], n) and multiple_of(e[3], n)
        if e[1] == 'shl' and e[3][0] == 'c':
            return (1 << e[3][1]) % n == 0 or multiple_of(e[2], n)
        if e[1] == 'mul':
            return any(x[0] == 'c' and x[1] % n == 0 for x in (e[2], e[3]))
        if e[1] in ('add', 'sub', 'umax', 'smax', 'umin', 'or'):
            return multiple_of(e[2], n) and multiple_of(e[3], n)
    if e[0] == 'select':
        return multiple_of(e[2], n) and multiple_of(e[3], n)
    return False


# ----------------------------------------------------------------------------- small concrete evaluation of path conditions
def evalx(e, leaf):
    """value (mod 2^64) of an expression whose leaves `leaf` knows, else None"""
    v = leaf(e)
    if v is not None:
        return v % M64
    k = e[0]
    if k == 'c':
        return e[1] % M64
    if k == 'off':
        x = evalx(e[1], leaf)
        return None if x is None else (x + e[2]) % M64
    if k == 'idx':
        a, b = evalx(e[1], leaf), evalx(e[2], leaf)
        return None if a is None or b is None else (a + b * e[3]) % M64
    if k == 'op':
        a, b = evalx(e[2], leaf), evalx(e[3], leaf)
        if a is None or b is None:
            return None
        sa, sb = sgn(a), sgn(b)
        o = e[1]
        if o in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
            return None
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
             'shl': lambda: a << min(b, 64), 'lshr': lambda: a >> min(b, 64), 'ashr': lambda: sa >> min(b, 64),
             'udiv': lambda: a // b, 'urem': lambda: a % b, 'sdiv': lambda: int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1),
             'umax': lambda: max(a, b), 'umin': lambda: min(a, b), 'smax': lambda: max(sa, sb), 'smin': lambda: min(sa, sb)}.get(o)
        return None if r is None else r() % M64
    if k == 'cmp':
        a, b = evalx(e[3], leaf), evalx(e[4], leaf)
        if a is None or b is None:
            return None
        sa, sb = sgn(a), sgn(b)
        return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b, 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[e[1]])
    if k == 'select':
        c = evalx(e[1], leaf)
        return None if c is None else evalx(e[2] if c else e[3], leaf)
    return None


def consistent(facts, leaf):
    """False when some fact is refuted by the leaf values; facts on other values are ignored"""
    for lit, val in facts.f:
        if lit[0] == 'z':
            t = lit[2]
            for a, c in lit[1]:
                x = evalx(a, leaf)
                if x is None:
                    t = None
                    break
                t += c * x
            if t is not None and (t % M64 == 0) != val:
                return False
        elif lit[0] == 'p':
            x = evalx(lit[1], leaf)
            if x is not None and bool(x) != val:
                return False
    return True


# ----------------------------------------------------------------------------- replaying one path for one assignment of a small state
class Sim:
    """Evaluates the memory effects of one path for given initial values of the few cells the rule
    enumerates (a finite abstract domain).  `init(sim, addr, event)` yields the initial value of a
    cell (None: unknown), `call(sim, k, event)` models an opaque call (its result, or None)."""

    def __init__(self, p, init, call=None, args=None):
        self.p, self.mem, self.val, self.names = p, {}, {}, {}
        self.args = args or {}
        self.at = []                   # per event: (address or argument values, value)
        for k, e in enumerate(p.evs):
            if e.kind == 'load':
                a = self.ev(e.addr)
                v = self.mem.get(a) if a is not None else None
                if v is None:
                    v = init(self, a, e)
                    if v is not None and a is not None:
                        self.mem[a] = v % M64
                if v is not None:
                    self.val[e.val] = v % M64
                self.at.append((a, v))
            elif e.kind in ('store', 'rmw', 'cas'):
                a, v = self.ev(e.addr), self.ev(e.val) if e.val is not None else None
                if a is not None:
                    if e.kind == 'store':
                        self.mem[a] = v
                    else:
                        self.mem.pop(a, None)
                self.at.append((a, v))
            elif e.kind == 'call':
                av = [self.ev(x) for x in e.args or []]
                self.at.append((av, None))
                r = call(self, k, e, av) if call else None
                if r is not None and e.rv is not None:
                    self.val[e.rv] = r
                    self.at[-1] = (av, r)
            else:
                self.at.append((None, self.ev(e.val) if e.val is not None else None))

    def leaf(self, x):
        v = self.val.get(x)
        if v is not None:
            return v
        if x[0] == 'arg':
            return self.args.get(x[1], 0x100000000 * (x[1] + 1))
        if x[0] == 'alloca' or x[0] == 'g':
            return self.names.setdefault(x[:2] if x[0] == 'g' else x, 0x1000000000 + 0x100000 * len(self.names))
        return None

    def ev(self, x):
        return evalx(x, self.leaf)

    def feasible(self):
        return consistent(self.p.facts, self.leaf)
