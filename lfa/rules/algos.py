"""The parallel algorithms (C20-C23).  Every overload of for_each / map / fold / scan and every
internal coroutine they start is analysed on its own: the calls it makes to other coroutines are
judged by what those coroutines are declared to do (assume-guarantee), never followed.

`Run` turns one path of a coroutine into the sequence of what it does to the world: user functions
applied, children made and started, joins, elements read and written, the value returned."""
import re
from ..ir import *
from ..kit import callee_q, is_dead_call, may_unwind, evalx, consistent, M64, sgn
from ..jobs import USER

AWS = re.compile(r'(\w+)_awaitable::await_suspend$')
AWR = re.compile(r'(just|sync_fork|eager_call)_awaitable::await_resume$')
JOIN = re.compile(r'join_awaitable::await_(ready|suspend|resume)$')
FUN = re.compile(r'^probe::(\w+)::operator(\(\))?$')


class Act:
    __slots__ = ('k', 'i', 'a', 'facts', 'v')

    def __init__(self, k, i, facts, v=None, **a):
        self.k, self.i, self.a, self.facts, self.v = k, i, a, facts, v

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s%s' % (self.k, {x: y for x, y in self.a.items()})


class Run:
    def __init__(self, acts, facts, end):
        self.acts, self.facts, self.end = acts, facts, end

    def of(self, *ks):
        return [(n, a) for n, a in enumerate(self.acts) if a.k in ks]


class St:
    __slots__ = ('env', 'mem', 'facts', 'acts', 'seen', 'ver', 'res', 'made')

    def __init__(self):
        self.env, self.mem, self.facts, self.acts, self.seen, self.ver, self.res, self.made = {}, {}, Facts(), [], {}, 0, {}, 0

    def copy(self):
        s = St()
        s.env, s.mem, s.facts, s.acts, s.seen, s.ver, s.res, s.made = dict(self.env), dict(self.mem), self.facts, list(self.acts), dict(self.seen), self.ver, dict(self.res), self.made
        return s


def root_of(e):
    while e[0] in ('off', 'idx'):
        e = e[1]
    return e


def runs(fn, visits=4, limit=4000):
    """the feasible normal-completion paths of coroutine fn (loops entered at most visits-1 times)"""
    out = []
    first = St()
    todo = [(0, first)]
    while todo:
        b, s = todo.pop()
        s.seen[b] = s.seen.get(b, 0) + 1
        again = s.seen[b] - 1
        cx = Ctx(fn, s.env, s.facts)
        alive = True
        blk = fn.blocks[b]
        for i in blk:
            if i.op == 'phi':
                continue
            if i.op == 'load':
                a = cx.val(i.ops[0])
                s.env[i.v] = load(s, i, a)
            elif i.op == 'store':
                store(s, i, cx.val(i.ops[1]), cx.val(i.ops[0]))
            elif i.is_call:
                c = i.callee or ''
                if c.startswith('llvm.coro.') or i.get('asm') is not None:
                    if again:
                        s.env[i.v] = ('call', i.v + 1000000 * again)
                    continue
                if c.startswith('llvm.mem'):
                    move(s, i, cx)
                    continue
                if c.startswith('llvm.') and not c.startswith('llvm.assume'):
                    continue
                if c.startswith('llvm.assume'):
                    continue
                if is_dead_call(i):
                    alive = False
                    break
                r = ('call', i.v + 1000000 * again)
                s.env[i.v] = call(fn, s, i, cx, r)
                if s.acts and s.acts[-1].k in ('final', 'unhandled'):
                    out.append(Run(s.acts, s.facts, s.acts[-1].k))
                    alive = False
                    break
        if not alive:
            continue
        t = blk[-1]
        nxt = []
        if t.op == 'invoke':
            nxt = [(t.get('normal'), s.facts)]
        elif t.op == 'br' and t.ops:
            src = fn.inst.get(t.ops[0].get('v')) if 'v' in t.ops[0] else None
            if src is not None and src.is_call and (src.callee or '').startswith('llvm.coro.alloc'):
                nxt = [(t.get('succ')[0], s.facts)]
            else:
                c = cx.val(t.ops[0])
                for k, val in ((0, True), (1, False)):
                    nf = s.facts.assume(c, val)
                    if nf is not None:
                        nxt.append((t.get('succ')[k], nf))
        elif t.op == 'switch':
            src = fn.inst.get(t.ops[0].get('v')) if 'v' in t.ops[0] else None
            if src is not None and src.is_call and (src.callee or '').startswith('llvm.coro.suspend'):
                nxt = [(bb, s.facts) for c, bb in t.get('cases') if c == 0]
            else:
                ce, d = cx.val(t.ops[0]), s.facts
                for c, bb in t.get('cases'):
                    nf = s.facts.assume(('cmp', 'eq', '', ce, ('c', c)), True)
                    if nf is not None:
                        nxt.append((bb, nf))
                    d = d and d.assume(('cmp', 'eq', '', ce, ('c', c)), False)
                if d is not None:
                    nxt.append((t.get('default'), d))
        elif t.op in ('ret', 'resume', 'unreachable'):
            continue
        else:
            nxt = [(x, s.facts) for x in t.get('succ') or []]
        for sb, nf in nxt:
            if s.seen.get(sb, 0) >= visits:
                continue
            n = s.copy() if len(nxt) > 1 else s
            n.facts = nf
            new = {}
            for p in fn.blocks[sb]:
                if p.op != 'phi':
                    break
                for o, pb in p.d['inc']:
                    if pb == b:
                        new[p.v] = fn.operand(o, s.env)
                        break
            n.env.update(new)
            todo.append((sb, n))
            if len(todo) + len(out) > limit:
                raise AnalysisBroken('too many paths in ' + fn.name)
    return out


def outside(e):
    """does the address designate memory of the caller's (elements of the input or output)?"""
    r = root_of(e)
    return r[0] == 'arg' or r[0] in ('rv', 'call', 'app')


def load(s, i, a):
    k = split(a)
    v = s.mem.get(k)
    base, off = k
    if v is None:
        v = s.mem.get((base, 'all'))
    if v is None:
        if base in s.res:
            v = ('res', s.res[base], off)
        elif outside(a):
            v = ('mem', a, s.ver)
        else:
            v = ('init', a)
    if outside(a) or v[0] == 'res' or base in s.res:
        s.acts.append(Act('load', i, s.facts, v, addr=a, val=v))
    return v


def store(s, i, a, v):
    r = root_of(a)
    if r[0] == 'init':
        b, o = split(r[1])
        if b[0] == 'alloca' and o == 40:
            s.acts.append(Act('ret', i, s.facts, off=split(a)[1], val=v))
            return
    if outside(a):
        s.acts.append(Act('store', i, s.facts, addr=a, val=v))
        s.ver += 1
        s.mem = {k: x for k, x in s.mem.items() if not outside(k[0])}
    s.mem[split(a)] = v


def move(s, i, cx):
    """memcpy between known cells"""
    d, src = cx.val(i.ops[0]), cx.val(i.ops[1])
    if not (i.callee or '').startswith('llvm.memset'):
        (db, do), (sb, so) = split(d), split(src)
        for (b, o), v in list(s.mem.items()):
            if b == sb and isinstance(o, int):
                s.mem[(db, o - so + do)] = v
    if outside(d):
        s.acts.append(Act('store', i, s.facts, addr=d, val=('copy', src)))
        s.ver += 1


def child_at(s, base):
    for (b, o), v in s.mem.items():
        if b == base and v[0] == 'child':
            return v[1]
    return None


def call(fn, s, i, cx, r):
    q = callee_q(i)
    args = [cx.val(o) for o in i.ops]
    m = FUN.match(q)
    if i.get('ccoro'):
        n = s.made
        s.made += 1
        s.mem[split(args[0])] = ('child', n)
        if m:       # an asynchronous user functor: sret, this, its copy in the first argument, frame, operands
            und = [k for k, a in enumerate(args) if a[0] == 'undef']
            k = (und[-1] + 1) if und else 3
            st = s.mem.get(split(args[1]), ('init', args[1]))
            s.acts.append(Act('make', i, s.facts, n=n, fun=m.group(1), state=st, state2=args[2] if und and und[-1] == 3 else None, args=args[k:], q=q))
        else:
            k = 1 + sum(1 for a in args[1:] if a[0] == 'undef')
            s.acts.append(Act('make', i, s.facts, n=n, fun=None, args=args[k:], q=q, callee=i.callee))
        return r
    if m:
        st = s.mem.get(split(args[0]), ('init', args[0]))
        v = ('app', i.v, r[1])
        s.acts.append(Act('app', i, s.facts, v, fun=m.group(1), state=st, args=args[1:], val=v))
        return v
    if q.startswith('probe::'):
        v = ('app', i.v, r[1])
        s.acts.append(Act('other', i, s.facts, v, name=q, args=args, val=v))
        return v
    m = JOIN.search(q)
    if m:
        if m.group(1) == 'resume':
            s.acts.append(Act('join', i, s.facts))
        return r
    if 'final_awaitable::await_suspend' in q:
        s.acts.append(Act('final', i, s.facts))
        return r
    m = AWS.search(q)
    if m:
        base = split(args[0])[0]
        n = child_at(s, base)
        if n is None:
            n = -1
        slot = s.mem.get((('child', n), 40))
        s.acts.append(Act('await', i, s.facts, kind=m.group(1), n=n, slot=slot))
        if slot is not None:
            sb, so = split(slot)
            if outside(slot):
                s.acts.append(Act('store', i, s.facts, addr=slot, val=('res', n, 0)))
                s.ver += 1
            else:
                for k in [k for k in s.mem if k[0] == sb and (k[1] == 'all' or k[1] >= so) and s.mem[k][0] != 'child']:
                    del s.mem[k]
                s.res[sb] = n
        s.ver += 1
        return r
    m = AWR.search(q)
    if m:
        base = split(args[0])[0]
        n = child_at(s, base)
        if n is None:
            n = -1
        v = ('rv', n) if m.group(1) == 'just' else ('ready', n) if m.group(1) == 'sync_fork' else r
        s.acts.append(Act('resumed', i, s.facts, v, kind=m.group(1), n=n, val=v))
        return v
    if q.endswith('::unhandled_exception'):
        s.acts.append(Act('unhandled', i, s.facts))
        return r
    if '~' in q or '::tls::' in q or q.startswith('lf::impl::stack'):
        return r
    if q.startswith('__cxa_') or q.startswith('std::') or q.startswith('lf::'):
        s.acts.append(Act('lib', i, s.facts, name=q, args=args, val=r))
    return r


# ----------------------------------------------------------------------------- what a coroutine is
PROJ, UNARY, BIN = {'pj', 'apj', 'sp'}, {'fn', 'afn', 'mp', 'amp'}, {'bp', 'abp', 'sb'}
LHS, MID, RHS = 1, 2, 3
B0, O0 = 1 << 32, 1 << 40


class Algo:
    """one coroutine of the algorithms: which parameter is what, and the part it plays"""

    def __init__(self, f):
        self.f = f
        T = f.mod.T
        dis = f.d.get('ditypes') or []
        s = f.d.get('sretn', 0)
        self.alg = re.sub(r'.*/', '', f.d.get('file', '')).replace('.hpp', '')
        self.params, self.pos = [], {}
        ptrs = 0
        for k in range(2, len(dis)):
            a = k - 1 + s
            nm = T.name(dis[k])
            if T.is_ptr(dis[k]):
                if nm.startswith('rng'):
                    r = 'rng'
                else:
                    r = ('b', 'e', 'out', 'se')[ptrs] if 'rng' not in self.pos else 'out'
                    ptrs += 1
                    self.pos[r + '_sz'] = T.size(T.pointee(dis[k]))
            elif nm in PROJ:
                r = 'proj'
            elif nm in UNARY | BIN:
                r = 'fun'
            else:
                r = 'n'
            self.params.append(r)
            self.pos[r] = ('arg', a)
        q = f.d.get('qual') or ''
        cls = q.split('::operator()')[0]
        m = re.search(r'interval\)(\d)', cls)
        self.ival = int(m.group(1)) if m else None
        m = re.search(r'::op\)(\d)', cls)
        self.op = int(m.group(1)) if m else None
        self.key = (cls, tuple(T.name(x) for x in dis[2:]), T.name(dis[0]) if dis else '')
        if self.alg == 'scan':
            self.kind = 'wrap' if self.ival is None else 'rise' if self.op is not None else 'fall' if ptrs == 4 else 'down'
        else:
            self.kind = 'range' if 'rng' in self.pos else 'wrap' if self.alg == 'fold' and 'optional' in self.key[2] else 'split'
        self.left = self.ival in (MID, RHS)
        self.right = self.ival in (LHS, MID)
        self.inplace = self.alg == 'scan' and self.pos.get('out_sz') == self.pos.get('b_sz')
        self._runs = None

    @property
    def name(self):
        T = self.f.q.replace('lf::impl::', '').replace('::operator()', '').replace('detail::', '')
        x = [] if self.ival is None else [('all', 'lhs', 'mid', 'rhs')[self.ival]]
        x += [] if self.op is None else [('scan', 'fold')[self.op]]
        return T + ('<%s>' % ','.join(x) if x else '') + '(' + ', '.join(self.key[1]) + ')'

    def runs(self):
        if self._runs is None:
            self._runs = [Path(self, r) for r in runs(self.f)]
            self._runs = [p for p in self._runs if p.pts]
        return self._runs


class Path:
    def __init__(self, A, run):
        self.A, self.acts, self.facts = A, run.acts, run.facts
        self.byval = {a.v: a for a in self.acts if a.v is not None and a.k in ('app', 'other', 'resumed')}
        self.kids = {a.n: a for a in self.acts if a.k == 'make'}
        self.pts = [p for p in self.grid() if consistent(self.facts, self.leaf(p))]

    def idx(self, act):
        return next(k for k, a in enumerate(self.acts) if a is act)

    # ------------------------------------------------------------- small lengths
    def grid(self):
        P = self.A.pos
        for L in list(range(0, 10)) + [16, 17, 33]:
            for n in ((1, 2, 3, 5, 8, 40) if 'n' in P else (1,)):
                for s in (range(0, min(L, 10)) if 'se' in P else (0,)):
                    yield (L, n, s)

    def leaf(self, pt):
        L, n, s = pt
        P = self.A.pos
        vals = {P.get('b'): B0, P.get('e'): B0 + L * P.get('b_sz', 4), P.get('out'): O0, P.get('n'): n, P.get('se'): B0 + s * P.get('b_sz', 4)}
        sc = {P.get('fun'): 77, P.get('proj'): 78}

        def g(x):
            if x[0] == 'arg':
                return vals.get(x, sc.get(x))
            if x[0] == 'app':
                a = self.byval.get(x)
                if a is not None and a.k == 'other':
                    return B0 if a.name.endswith('::begin') else B0 + 4 * L if a.name.endswith('::end') else None
            return None
        return g

    def ev(self, e, pt):
        return evalx(e, self.leaf(pt))

    def eq(self, x, y):
        """x == y for all lengths: by linear algebra, else on every length of the grid"""
        a, c = lin_sub(x, y, M64)
        if not a:
            return c == 0
        if self.facts.truth(('cmp', 'eq', '', x, y)) is True:
            return True
        for p in self.pts:
            u, v = self.ev(x, p), self.ev(y, p)
            if u is None or v is None or u != v:
                return False
        return True

    # ------------------------------------------------------------- values
    def term(self, v):
        if v[0] == 'mem':
            return ('E', v[1])
        if v[0] == 'app' and v in self.byval:
            a = self.byval[v]
            if a.k == 'app':
                return ('A', a.fun, a.state, tuple(self.term(x) for x in a.args))
        if v[0] == 'rv' or v[0] == 'res' and v[2] == 0:
            m = self.kids.get(v[1])
            if m is not None:
                if m.fun:
                    return ('A', m.fun, m.state, tuple(self.term(x) for x in m.args))
                return ('C', m.n)
        return v

    def apps(self, kinds):
        return [a for a in self.acts if a.k in ('app', 'make') and a.a.get('fun') in kinds]

    def parts(self):
        """children that are coroutines of the library, with their arguments by role"""
        out = []
        for a in self.acts:
            if a.k == 'make' and not a.fun:
                c = ALGOS.get(a.i.get('cm'))
                if c is None:
                    raise Unknown(a)
                args = a.args if len(a.args) == len(c.params) else a.args[len(a.args) - len(c.params):]
                out.append(Part(a, c, dict(zip(c.params, args)), self))
        return out

    def show(self, e):
        return shx(e, self.A)


class Unknown(Exception):
    pass


class Part:
    def __init__(self, act, c, args, path):
        self.act, self.c, self.args, self.n = act, c, args, act.n
        k = path.idx(act)
        self.awaits = [j for j, a in enumerate(path.acts) if a.k == 'await' and a.n == act.n]
        self.kind = path.acts[self.awaits[0]].kind if self.awaits else None
        self.slot = path.acts[self.awaits[0]].slot if self.awaits else None
        self.at = k


ALGOS = {}


def shx(e, A):
    names = {v: k for k, v in A.pos.items() if isinstance(v, tuple)}
    names = {k: {'b': 'begin', 'e': 'end', 'se': 'scan_end'}.get(v, v) for k, v in names.items()}

    def f(e):
        if not isinstance(e, tuple):
            return str(e)
        if e in names:
            return names[e]
        k = e[0]
        if k == 'c':
            return str(e[1])
        if k == 'off':
            return '%s%+d' % (f(e[1]), e[2])
        if k == 'idx':
            return '%s+%d*(%s)' % (f(e[1]), e[3], f(e[2]))
        if k == 'op':
            return '(%s %s %s)' % (f(e[2]), {'add': '+', 'sub': '-', 'ashr': '>>', 'lshr': '>>', 'sdiv': '/', 'mul': '*'}.get(e[1], e[1]), f(e[3]))
        if k in ('mem', 'E'):
            return '*(%s)' % f(e[1])
        if k == 'A':
            return '%s(%s)' % (e[1], ', '.join(f(x) for x in e[3]))
        if k in ('C', 'rv', 'res'):
            return 'result of child %s' % e[1]
        return k
    return f(e)


def load_algos(mod, job):
    ALGOS.clear()
    for f in mod.funcs:
        if f.d['job'] == job:
            if not f.d.get('within'):
                raise AnalysisBroken('inlining budget exceeded in ' + f.name)
            a = Algo(f)
            if a.alg in ('for_each', 'map', 'fold', 'scan'):
                ALGOS[f.d['mangled']] = a
    seen, out = set(), []
    for a in ALGOS.values():
        if a.key not in seen:
            seen.add(a.key)
            out.append(a)
    return out


# ----------------------------------------------------------------------------- C22
def pts_of(p):
    """grid points of the path on which the coroutine may be called"""
    A = p.A
    lo = 1 if A.kind in ('rise', 'down') or A.alg == 'fold' and A.kind == 'split' else 0
    return [x for x in p.pts if x[0] >= lo and (A.kind != 'fall' or 1 <= x[2] < x[0])]


def begin_of(p):
    A = p.A
    if 'rng' in A.pos:
        return None
    return A.pos['b'], A.pos['e']


def is_rng_end(p, v, what):
    a = p.byval.get(v)
    return a is not None and a.k == 'other' and a.name == 'probe::rng::' + what and a.args and a.args[0] == p.A.pos.get('rng')


def same_begin(p, v):
    return is_rng_end(p, v, 'begin') if 'rng' in p.A.pos else p.eq(v, p.A.pos['b'])


def same_end(p, v):
    return is_rng_end(p, v, 'end') if 'rng' in p.A.pos else p.eq(v, p.A.pos['e'])


def check_common(ck, p, q, W):
    """chunk size, operator and projection are handed on; the child is started"""
    A, c = p.A, q.c
    f = A.f
    w = q.act.i.where()
    ck.need(len(q.awaits) == 1, 'child-started', w, '%s makes a child for a part of its input and starts it %d times' % (A.name, len(q.awaits)), f)
    for r, what in (('fun', 'function object'), ('proj', 'projection')):
        if r in q.args:
            ck.need(q.args[r] == A.pos.get(r), 'same-' + r, w, '%s hands %s to its child as the %s instead of its own' % (A.name, p.show(q.args[r]), what), f)
    if 'n' in c.params:
        v = q.args['n']
        ok = v == A.pos['n'] if 'n' in A.pos else v == ('c', 1)
        if not ok and 'n' in A.pos:
            ok = p.eq(v, A.pos['n'])
        ck.need(ok, 'same-n', w, '%s hands %s to its child as the chunk size instead of %s' % (A.name, p.show(v), 'its own' if 'n' in A.pos else '1'), f)
    elif 'n' in A.pos:
        bad = [x for x in W if x[1] != 1]
        ck.need(not bad, 'same-n', w, '%s hands its input to a coroutine that divides down to single elements although the chunk size can be %s' % (A.name, bad[0][1] if bad else ''), f)


def out_arg(q):
    return q.args.get('out')


def check_parts(ck, p):
    """a path that divides its input"""
    A = p.A
    f = A.f
    W = pts_of(p)
    if not W:
        return
    try:
        ps = p.parts()
    except Unknown as u:
        return
    if not ps:
        if A.kind in ('range', 'wrap'):
            bad = [x for x in W if x[0]]
            ck.need(not bad, 'not-dropped', p.acts[-1].i.where(), '%s does nothing with %d elements' % (A.name, bad[0][0] if bad else 0), f)
        return
    for q in ps:
        if q.c.kind == 'rise' or q.c.alg == 'fold' and q.c.kind == 'split':
            ck.need(all(x[0] for x in W), 'empty-guard', q.act.i.where(), '%s starts a reduction of an empty range' % A.name, f)
        check_common(ck, p, q, W)
    if A.kind in ('range', 'wrap'):
        for q in ps:
            w = q.act.i.where()
            ck.need(same_begin(p, q.args['b']) and same_end(p, q.args['e']), 'whole-range', w, '%s does not hand on its whole input: [%s, %s)' % (A.name, p.show(q.args['b']), p.show(q.args['e'])), f)
            if 'out' in q.args:
                o = q.args['out']
                ok = p.eq(o, A.pos['out']) if 'out' in A.pos else same_begin(p, o)
                ck.need(ok, 'out-start', w, '%s hands %s to its child as the output position instead of its start' % (A.name, p.show(o)), f)
        kinds = [q.c.kind for q in ps]
        if kinds == ['rise', 'fall']:
            return
        ck.need(len(ps) == 1, 'one-pass', ps[-1].act.i.where(), '%s runs over its input %d times' % (A.name, len(ps)), f)
        return
    if A.kind == 'fall':
        return check_fall(ck, p, ps, W)
    w = ps[0].act.i.where()
    if not ck.need(len(ps) == 2, 'two-parts', w, '%s divides its input but starts %d children' % (A.name, len(ps)), f):
        return
    a, b = ps
    if not p.eq(a.args['b'], A.pos['b']) and p.eq(b.args['b'], A.pos['b']):
        a, b = b, a
    x, y = a.args['e'], b.args['b']
    ck.need(p.eq(a.args['b'], A.pos['b']), 'first-begin', a.act.i.where(), '%s: the first part begins at %s, not at the beginning' % (A.name, p.show(a.args['b'])), f)
    ck.need(p.eq(b.args['e'], A.pos['e']), 'second-end', b.act.i.where(), '%s: the second part ends at %s, not at the end' % (A.name, p.show(b.args['e'])), f)
    ck.need(p.eq(x, y), 'common-split', w, '%s: the first part ends at %s, the second begins at %s' % (A.name, p.show(x), p.show(y)), f)
    isz = A.pos.get('b_sz', 4)
    for pt in W:
        v = p.ev(x, pt)
        if v is None:
            ck.bad('proper-split', w, '%s: the split point %s does not follow from the length' % (A.name, p.show(x)), f)
            break
        if not (B0 < v < B0 + isz * pt[0]) or (v - B0) % isz:
            ck.bad('proper-split', w, '%s: with %d elements (chunk size %d) the first part has %d elements' % (A.name, pt[0], pt[1], sgn((v - B0) % M64) // isz), f)
            break
        if pt[0] <= pt[1]:
            ck.bad('divides-only-above-n', w, '%s divides %d elements although the chunk size is %d' % (A.name, pt[0], pt[1]), f)
            break
    else:
        ck.ok('proper-split', w)
        ck.ok('divides-only-above-n', w)
    if 'out' in A.pos:
        osz = A.pos['out_sz']
        ck.need(p.eq(out_arg(a), A.pos['out']), 'out-first', a.act.i.where(), '%s: the first part writes from %s, not from the start of the output' % (A.name, p.show(out_arg(a))), f)
        d1, d2 = ('op', 'sub', out_arg(b), A.pos['out']), ('op', 'sub', y, A.pos['b'])
        ck.need(p.eq(('op', 'mul', d1, ('c', isz)), ('op', 'mul', d2, ('c', osz))), 'out-second', b.act.i.where(),
                '%s: the second part begins at %s but writes from %s' % (A.name, p.show(y), p.show(out_arg(b))), f)


def halves(L, splitf):
    """the left ends and split points met when always descending into the right part of [0, L)"""
    out, x = [], 0
    while L - x >= 2:
        m = splitf(L - x)
        if m is None or not 0 < m < L - x:
            break
        out.append((x, x + m))
        x += m
    return out


def split_function(f_algos):
    """how the up-sweep divides: length -> length of the first part (from its own code)"""
    tab = {}
    for A in f_algos:
        if A.kind != 'rise':
            continue
        for p in A.runs():
            try:
                ps = p.parts()
            except Unknown:
                continue
            if len(ps) != 2:
                continue
            for pt in pts_of(p):
                v = p.ev(ps[0].args['e'], pt)
                if v is not None:
                    tab[pt[0]] = (v - B0) // A.pos['b_sz']
    return tab


def check_fall(ck, p, ps, W):
    """the fall-sweep from the root: whatever it skips has been scanned already, whatever remains is
    handed on whole, cut where the up-sweep cut"""
    A = p.A
    f = A.f
    w = ps[0].act.i.where()
    isz, osz = A.pos['b_sz'], A.pos['out_sz']
    for pt in W:
        L, n, s = pt
        ends = []
        for q in ps:
            b, e, o = (p.ev(q.args[r], pt) for r in ('b', 'e', 'out'))
            if b is None or e is None or o is None:
                return ck.bad('fall-parts', q.act.i.where(), '%s: the part [%s, %s) does not follow from the input' % (A.name, p.show(q.args['b']), p.show(q.args['e'])), f)
            ends.append(((b - B0) // isz, (e - B0) // isz, (o - O0) // osz, q))
        for b, e, o, q in ends:
            if o != b:
                return ck.bad('out-second', q.act.i.where(), '%s: with %d elements the part from element %d writes from output element %d' % (A.name, L, b, o), f)
        ends.sort(key=lambda x: x[0])
        if ends[-1][1] != L:
            return ck.bad('second-end', w, '%s: with %d elements of which %d are scanned, the last part ends at element %d' % (A.name, L, s, ends[-1][1]), f)
        if any(x[1] != y[0] for x, y in zip(ends, ends[1:])):
            return ck.bad('common-split', w, '%s: with %d elements of which %d are scanned, the parts are %s' % (A.name, L, s, [x[:2] for x in ends]), f)
        if ends[0][0] > s:
            return ck.bad('fall-parts', w, '%s: with %d elements of which %d are scanned, elements %d..%d are never scanned' % (A.name, L, s, s, ends[0][0] - 1), f)
        known = [x for x in halves(L, TAB.get)]
        if known:
            cuts = {m for _, m in known}
            for b, e, o, q in ends:
                if b != 0 and b not in cuts or e != L and e not in cuts:
                    return ck.bad('fall-parts', q.act.i.where(), '%s: with %d elements of which %d are scanned, it treats [%d, %d), which is no part of the up-sweep' % (A.name, L, s, b, e), f)
        for b, e, o, q in ends:
            if q.c.kind == 'down' and b < s:
                return ck.bad('fall-parts', q.act.i.where(), '%s: with %d elements of which %d are scanned, [%d, %d) is treated as not scanned' % (A.name, L, s, b, e), f)
            if q.c.kind == 'fall':
                v = p.ev(q.args['se'], pt)
                if v != B0 + s * isz:
                    return ck.bad('fall-parts', q.act.i.where(), '%s hands %s on as the end of the scanned elements' % (A.name, p.show(q.args['se'])), f)
                if not b < s < e:
                    return ck.bad('fall-parts', q.act.i.where(), '%s: with %d elements of which %d are scanned, [%d, %d) is treated as partly scanned' % (A.name, L, s, b, e), f)
    ck.ok('fall-parts', w)


TAB = {}


def visits(ck, p):
    """a path that works through its input itself"""
    A = p.A
    f = A.f
    W = pts_of(p)
    if not W or A.kind in ('range', 'wrap', 'fall'):
        return
    try:
        if p.parts():
            return
    except Unknown:
        return
    pj = p.apps(PROJ)
    w = (pj[0].i if pj else p.acts[-1].i).where()
    elems = []
    for a in pj:
        if a.state != A.pos['proj']:
            return ck.bad('same-proj', a.i.where(), '%s applies %s instead of its projection' % (A.name, p.show(a.state)), f)
        t = p.term(a.args[-1])
        if t[0] != 'E':
            return ck.bad('visit', a.i.where(), '%s applies the projection to %s, not to an element' % (A.name, p.show(t)), f)
        elems.append((t[1], a))
    isz = A.pos['b_sz']
    for k, (e, a) in enumerate(elems):
        if not p.eq(e, addoff(A.pos['b'], k * isz)):
            return ck.bad('visit', a.i.where(), '%s: a serial chunk visits %s as its element %d' % (A.name, p.show(e), k), f)
    K = len(elems)
    if A.kind == 'rise' and A.op == 1 and not A.right and K == 0:
        return ck.ok('visit', w)
    short = 1 if A.kind == 'down' and A.right else 0
    for pt in W:
        if pt[0] - short != K:
            return ck.bad('visit', w, '%s: a serial chunk of %d elements (chunk size %d) visits %d' % (A.name, pt[0], pt[1], K), f)
    ck.ok('visit', w)
    if A.alg in ('for_each', 'map'):
        fn = p.apps(UNARY)
        if not ck.need(len(fn) == K, 'apply', w, '%s: a serial chunk of %d elements applies the function %d times' % (A.name, K, len(fn)), f):
            return
        for k, a in enumerate(fn):
            t = p.term(a.args[-1])
            ok = a.state == A.pos['fun'] and t[0] == 'A' and t[1] in PROJ and t[3] and t[3][0][0] == 'E' and p.eq(t[3][0][1], elems[k][0])
            if not ck.need(ok, 'apply', a.i.where(), '%s applies the function (%s) to %s, not to the projection of element %d' % (A.name, p.show(a.state), p.show(t), k), f):
                return
    if A.alg == 'map':
        st = [a for a in p.acts if a.k == 'store' and a.addr[0] != 'arg' or a.k == 'store' and root_of(a.addr) == A.pos['out']]
        st = [a for a in st if root_of(a.addr) == A.pos['out']]
        if not ck.need(len(st) == K, 'out-each', w, '%s: a serial chunk of %d elements writes %d results' % (A.name, K, len(st)), f):
            return
        for k, a in enumerate(st):
            t = p.term(a.val)
            ok = p.eq(a.addr, addoff(A.pos['out'], k * A.pos['out_sz'])) and t[0] == 'A' and t[1] in UNARY and t[3][0][0] == 'A' and p.eq(t[3][0][3][0][1], elems[k][0])
            if not ck.need(ok, 'out-each', a.i.where(), '%s stores %s to %s as the result of element %d' % (A.name, p.show(t), p.show(a.addr), k), f):
                return


def c22(ck, mods):
    ck.rule('child-started', 'every child made for a part of the input is started exactly once', 40)
    ck.rule('same-fun', 'the function object handed on is the one received', 40)
    ck.rule('same-proj', 'the projection handed on (applied) is the one received', 40)
    ck.rule('same-n', 'the chunk size handed on is the one received; without a chunk size parts shrink to single elements', 20)
    ck.rule('first-begin', 'the first part begins at the beginning', 10)
    ck.rule('second-end', 'the second part ends at the end', 10)
    ck.rule('common-split', 'the first part ends where the second begins', 10)
    ck.rule('two-parts', 'a division starts a child for each of its two parts', 10)
    ck.rule('proper-split', 'for every length of the grid that divides, both parts are non-empty', 10)
    ck.rule('divides-only-above-n', 'for every length of the grid that divides, the length exceeds the chunk size', 10)
    ck.rule('out-first', 'the first part writes from the start of the output', 5)
    ck.rule('out-second', 'the output position of the second part is advanced by the length of the first', 5)
    ck.rule('out-start', 'wrappers hand on the start of the output', 5)
    ck.rule('whole-range', 'wrappers hand on their whole input', 10)
    ck.rule('one-pass', 'wrappers hand their input on once', 5)
    ck.rule('not-dropped', 'a wrapper does nothing only with an empty input', 4)
    ck.rule('empty-guard', 'reductions, which need a first element, are not started on an empty input', 4)
    ck.rule('fall-parts', 'the fall-sweep hands on exactly what is not scanned yet, cut where the up-sweep cuts', 10)
    ck.rule('visit', 'a serial chunk applies the projection to each of its elements once, in order', 20)
    ck.rule('apply', 'a serial chunk applies the function to the projection of each element once', 5)
    ck.rule('out-each', 'a serial chunk of map stores the result of element k as output element k', 2)
    for cfg, ms in mods.items():
        ck.cfg = cfg
        algos = load_algos(ms['alg'], 'al')
        need_all(ck, algos)
        TAB.clear()
        TAB.update(split_function(algos))
        for A in algos:
            ck.funcs.add(A.f.where())
            for p in A.runs():
                check_parts(ck, p)
                visits(ck, p)


def need_all(ck, algos):
    got = {(a.alg, a.kind) for a in algos}
    want = {('for_each', 'split'), ('map', 'split'), ('fold', 'split'), ('scan', 'wrap')}
    if not want <= got:
        raise AnalysisBroken('%s: algorithms not found: %s' % (ck.cfg, sorted(want - got)))


# ----------------------------------------------------------------------------- C23
def PR(p, addr):
    return ('A', PROJ, p.A.pos['proj'], [('E', addr)])


def FO(p, x, y):
    return ('A', BIN, p.A.pos['fun'], [x, y])


def match(p, t, pat):
    if pat[0] == 'E':
        return t[0] == 'E' and p.eq(t[1], pat[1])
    if pat[0] == 'A':
        return t[0] == 'A' and t[1] in pat[1] and t[2] == pat[2] and len(t[3]) == len(pat[3]) and all(match(p, x, y) for x, y in zip(t[3], pat[3]))
    return t == pat


def loads_of(p, v, out=None, seen=None):
    """positions of the element loads a value is made of"""
    out = [] if out is None else out
    if v[0] == 'mem':
        k = [j for j, a in enumerate(p.acts) if a.k == 'load' and a.val == v]
        out += [(k[0] if k else 0, v[1])]
    elif v[0] == 'app' and v in p.byval and p.byval[v].k == 'app':
        for x in p.byval[v].args:
            loads_of(p, x, out)
    elif v[0] in ('rv', 'res') and v[1] in p.kids and p.kids[v[1]].fun:
        for x in p.kids[v[1]].args:
            loads_of(p, x, out)
    return out


def out_stores(p):
    A = p.A
    r = A.pos.get('out')
    res = []
    for k, a in enumerate(p.acts):
        if a.k == 'store' and (root_of(a.addr) == r or root_of(a.addr) == A.pos.get('b')):
            res.append((k, a))
    return res


def rets(p):
    return [a for a in p.acts if a.k == 'ret' and a.off == 0]


def elem_count(p, W):
    ls = {x[0] for x in W}
    return ls.pop() if len(ls) == 1 else None


def leaf_acc(p, K, init):
    """accumulations acc_0 .. acc_{K-1}, given the value on the left of the first element (or none)"""
    out, acc = [], init
    for k in range(K):
        e = PR(p, addoff(p.A.pos['b'], k * p.A.pos['b_sz']))
        acc = e if acc is None else FO(p, acc, e)
        out.append(acc)
    return out


def c23_leaf(ck, p, W):
    A = p.A
    f = A.f
    K = elem_count(p, W)
    if K is None:
        return          # more than one length possible: C22 reports it
    w = p.acts[-1].i.where()
    if A.alg == 'fold':
        want = leaf_acc(p, K, None)[-1]
        rs = rets(p)
        return ck.need(len(rs) == 1 and match(p, p.term(rs[0].val), want), 'fold-leaf', rs[0].i.where() if rs else w,
                       '%s: the fold of a serial chunk of %d elements is %s' % (A.name, K, p.show(p.term(rs[0].val)) if rs else 'never returned'), f)
    osz, out = A.pos['out_sz'], A.pos['out']
    n = K
    prev = ('E', addoff(out, -osz))
    if A.kind == 'down':
        init, n = prev, K - (1 if A.right else 0)
        want = {k: x for k, x in enumerate(leaf_acc(p, n, init))}
    elif A.op == 0:
        init = prev if A.left else None
        want = {k: x for k, x in enumerate(leaf_acc(p, n, init))}
    elif A.right:
        want = {n - 1: leaf_acc(p, n, None)[-1]}
    else:
        want = {}
    sts = out_stores(p)
    got = {}
    for k, a in sts:
        hit = [j for j in want if p.eq(a.addr, addoff(out, j * osz))]
        if not ck.need(len(hit) == 1, 'scan-leaf', a.i.where(), '%s: a serial chunk of %d elements writes to %s' % (A.name, K, p.show(a.addr)), f):
            return
        if hit[0] in got and got[hit[0]][0] == k:
            continue
        got[hit[0]] = (k, a)
    for j, pat in sorted(want.items()):
        if not ck.need(j in got, 'scan-leaf', w, '%s: a serial chunk of %d elements leaves output element %d unwritten' % (A.name, K, j), f):
            return
        k, a = got[j]
        t = p.term(a.val)
        if not ck.need(match(p, t, pat), 'scan-leaf', a.i.where(), '%s: output element %d of a serial chunk of %d is %s' % (A.name, j, K, p.show(t)), f):
            return
        # in-place scans: an element is read before its place is overwritten
        late = [x for x in loads_of(p, a.val) if x[0] > k]
        ck.need(not late, 'read-before-write', a.i.where(), '%s reads an element after overwriting it' % A.name, f)
    if A.inplace and got:
        for j, (k, a) in got.items():
            for k2, ld in enumerate(p.acts):
                if ld.k == 'load' and k2 > k and root_of(ld.addr) == A.pos['b'] and ld.val[0] == 'mem' and p.eq(('op', 'sub', ld.addr, A.pos['b']), ('op', 'sub', a.addr, out)):
                    return ck.bad('read-before-write', ld.i.where(), '%s reads element %d after the scan has overwritten it' % (A.name, j), f)
    if A.kind == 'rise' and A.op == 0:
        rs = rets(p)
        ck.need(len(rs) == 1 and p.eq(rs[0].val, A.pos['e']), 'scan-end', rs[0].i.where() if rs else w, '%s: a scanned chunk reports %s as the end of what is scanned' % (A.name, p.show(rs[0].val) if rs else 'nothing'), f)


def known_full(p, a, at, split):
    """when child a's sibling starts (position `at`), is a complete and all of its part scanned?"""
    if a.c.op != 0:
        return False
    eq = p.acts[at].facts.truth(('cmp', 'eq', '', ('res', a.n, 0), split)) is True or p.facts.truth(('cmp', 'eq', '', ('rv', a.n), split)) is True
    return eq and complete(p, a, at)


def complete(p, a, at):
    """is child a known to have finished at position `at`?"""
    if not a.awaits or a.awaits[0] >= at:
        return False
    if a.kind != 'fork' and a.kind != 'sync_fork':
        return True
    if any(x.k == 'join' for x in p.acts[a.awaits[0]:at]):
        return True
    return p.acts[at].facts.truth(('ready', a.n)) is True


def flags(ck, rule, p, q, **want):
    names = {'left': 'a left sibling', 'right': 'a right sibling'}
    for k, v in want.items():
        if k in names:
            ck.need(getattr(q.c, k) == v, rule, q.act.i.where(), '%s starts %s, which is for a part that has %s%s' % (p.A.name, q.c.name, '' if getattr(q.c, k) else 'not ', names[k]), p.A.f)
        elif getattr(q.c, k) != v:
            ck.bad(rule, q.act.i.where(), '%s starts %s here' % (p.A.name, q.c.name), p.A.f)


def last_await(q):
    return q.awaits[0] if q.awaits else -1


def c23_split(ck, p, ps, W):
    A = p.A
    f = A.f
    w = ps[0].act.i.where()
    if A.alg == 'fold' and A.kind == 'split':
        if len(ps) != 2:
            return
        a, b = ps if p.eq(ps[0].args['b'], A.pos['b']) else (ps[1], ps[0])
        ck.need(a.slot is not None and b.slot is not None and a.slot != b.slot, 'own-slot', w, '%s: both halves write their result to the same place' % A.name, f)
        rs = rets(p)
        t = p.term(rs[0].val) if rs else None
        return ck.need(t is not None and match(p, t, FO(p, ('C', a.n), ('C', b.n))), 'fold-combine', rs[0].i.where() if rs else w,
                       '%s: the halves %d (left) and %d (right) are combined as %s' % (A.name, a.n, b.n, p.show(t) if t else 'nothing'), f)
    if A.alg == 'fold':
        rs = rets(p)
        return ck.need(len(ps) == 1 and len(rs) == 1 and p.term(rs[0].val) == ('C', ps[0].n), 'fold-result', rs[0].i.where() if rs else w, '%s returns %s, not the result of the reduction' % (A.name, p.show(rs[0].val) if rs else 'nothing'), f)
    if A.alg != 'scan':
        return
    osz = A.pos.get('out_sz')
    if A.kind in ('wrap', 'range'):
        rise = [q for q in ps if q.c.kind == 'rise']
        fall = [q for q in ps if q.c.kind == 'fall']
        if not rise:
            return
        r = rise[0]
        flags(ck, 'scan-phases', p, r, left=False, right=False, op=0)
        done = ('cmp', 'eq', '', ('rv', r.n), A.pos.get('e', ('c', 0)))
        t = p.facts.truth(done)
        if fall:
            x = fall[0]
            flags(ck, 'scan-phases', p, x, left=False, right=False)
            ck.need(x.args['se'] == ('rv', r.n) and last_await(x) > last_await(r), 'scan-phases', x.act.i.where(), '%s starts the fall-sweep with %s as the end of what the up-sweep scanned' % (A.name, p.show(x.args['se'])), f)
            ck.need(t is False, 'scan-phases', x.act.i.where(), '%s starts the fall-sweep although everything may be scanned' % A.name, f)
        else:
            ck.need(t is True, 'scan-phases', w, '%s finishes without a fall-sweep although the up-sweep may not have scanned everything' % A.name, f)
        return
    if A.kind == 'fall':
        for q in ps:
            end = p.eq(q.args['e'], A.pos['e'])
            flags(ck, 'siblings', p, q, right=A.right if end else True)
            if q.c.kind == 'down':
                flags(ck, 'siblings', p, q, left=True)
        ck.need(not out_stores(p), 'fall-no-write', w, '%s writes to the output itself' % A.name, f)
        return
    if len(ps) != 2:
        return
    a, b = ps if p.eq(ps[0].args['b'], A.pos['b']) else (ps[1], ps[0])
    split = b.args['b']
    flags(ck, 'siblings', p, a, left=A.left, right=True)
    flags(ck, 'siblings', p, b, left=True, right=A.right)
    out = A.pos['out']
    dl = ('op', 'sub', split, A.pos['b'])               # bytes of input in the first part
    scale = osz // A.pos['b_sz'] if osz % A.pos['b_sz'] == 0 else 1
    lmid = addoff(('op', 'add', out, ('op', 'mul', dl, ('c', scale))), -osz)
    lend = addoff(('op', 'add', out, ('op', 'mul', ('op', 'sub', A.pos['e'], A.pos['b']), ('c', scale))), -osz)
    sts = out_stores(p)
    joins = [k for k, x in enumerate(p.acts) if x.k == 'join']
    if A.kind == 'rise':
        ck.need(a.c.op == A.op, 'rise-op', a.act.i.where(), '%s starts %s on its first part' % (A.name, a.c.name), f)
        full = known_full(p, a, b.at, split)
        if b.c.op == 0:
            ck.need(A.op == 0 and full, 'rise-op', b.act.i.where(), '%s scans its second part although the first is not known to be complete and scanned to its end' % A.name, f)
        else:
            ck.ok('rise-op', b.act.i.where())
        if A.op == 0:
            rs = rets(p)
            want = ('C', b.n if b.c.op == 0 else a.n)
            ck.need(len(rs) == 1 and p.term(rs[0].val) == want, 'scan-end', rs[0].i.where() if rs else w, '%s reports %s as the end of what is scanned' % (A.name, p.show(rs[0].val) if rs else 'nothing'), f)
        if A.right and b.c.op == 1:
            pat = FO(p, ('E', lmid), ('E', lend))
            ok = len(sts) == 1 and p.eq(sts[0][1].addr, lend) and match(p, p.term(sts[0][1].val), pat)
            ck.need(ok, 'rise-combine', (sts[0][1].i if sts else ps[0].act.i).where(),
                    '%s: the reduction of the whole part is stored as %s' % (A.name, ['%s := %s' % (p.show(x.addr), p.show(p.term(x.val))) for _, x in sts]), f)
            for _, x in sts:
                early = [k for k, e in loads_of(p, x.val) if k < max(last_await(a), last_await(b)) or not complete(p, a, k) and not any(j < k for j in joins)]
                ck.need(not early, 'rise-combine', x.i.where(), '%s reads a reduction before both parts have stored theirs' % A.name, f)
        else:
            ck.need(not sts, 'rise-combine', (sts[0][1].i if sts else ps[0].act.i).where(), '%s overwrites %s, which nothing is going to read as a reduction' % (A.name, p.show(sts[0][1].addr) if sts else ''), f)
        return
    if A.kind == 'down':
        pat = FO(p, ('E', addoff(out, -osz)), ('E', lmid))
        ok = len(sts) == 1 and p.eq(sts[0][1].addr, lmid) and match(p, p.term(sts[0][1].val), pat)
        ck.need(ok, 'fall-combine', (sts[0][1].i if sts else ps[0].act.i).where(),
                '%s: the scan up to the split point is stored as %s' % (A.name, ['%s := %s' % (p.show(x.addr), p.show(p.term(x.val))) for _, x in sts]), f)
        for k, x in sts:
            ck.need(k < min(last_await(a), last_await(b)), 'fall-combine', x.i.where(), '%s starts a part before the scan up to the split point is stored' % A.name, f)


def c23(ck, mods):
    ck.rule('fold-leaf', 'a serial chunk folds its elements left to right', 4)
    ck.rule('own-slot', 'the halves of a fold have result slots of their own', 2)
    ck.rule('fold-combine', 'the halves of a fold are combined first part on the left, second on the right', 2)
    ck.rule('fold-result', 'fold returns the result of its reduction, nothing for an empty input', 4)
    ck.rule('scan-leaf', 'a serial chunk of a scan stores, for each output element, the accumulation of everything to its left and itself', 20)
    ck.rule('read-before-write', 'in-place scans read an element before overwriting it', 20)
    ck.rule('scan-end', 'the up-sweep reports exactly how far it has scanned', 6)
    ck.rule('scan-phases', 'the fall-sweep runs exactly when the up-sweep left something unscanned, from where it stopped', 4)
    ck.rule('siblings', 'each part is treated according to the neighbours it has', 30)
    ck.rule('fall-no-write', 'the root of the fall-sweep leaves the output to its parts', 4)
    ck.rule('rise-op', 'a part is scanned (rather than reduced) only when everything left of it is known to be complete', 12)
    ck.rule('rise-combine', 'the reduction of a part is that of its halves in order, stored where its right neighbour looks for it, when both are complete', 12)
    ck.rule('fall-combine', 'before the fall-sweep divides, the scan up to the split point is that of the left neighbour with the first part', 6)
    for cfg, ms in mods.items():
        ck.cfg = cfg
        algos = load_algos(ms['alg'], 'al')
        need_all(ck, algos)
        for A in algos:
            if A.alg not in ('fold', 'scan'):
                continue
            ck.funcs.add(A.f.where())
            for p in A.runs():
                W = pts_of(p)
                if not W:
                    continue
                try:
                    ps = p.parts()
                except Unknown:
                    continue
                if ps:
                    c23_split(ck, p, ps, W)
                elif A.kind in ('split', 'rise', 'down'):
                    c23_leaf(ck, p, W)
                elif A.alg == 'fold':
                    flag = [a for a in p.acts if a.k == 'ret' and a.off == 8]
                    ck.need(len(flag) == 1 and flag[0].val == ('c', 0), 'fold-result', p.acts[-1].i.where(), '%s of an empty input does not return nothing' % A.name, A.f)


# ----------------------------------------------------------------------------- C21
def summaries(algos):
    """per coroutine: does it read the output element before its part?  write the last one of its part?"""
    rb, wl = set(), set()
    again = True
    while again:
        again = False
        for A in algos:
            if 'out' not in A.pos or A.kind not in ('rise', 'down', 'fall', 'split'):
                continue
            osz = A.pos['out_sz']
            for p in A.runs():
                if A.key not in rb:
                    hit = any(a.k == 'load' and p.eq(a.addr, addoff(A.pos['out'], -osz)) for a in p.acts)
                    try:
                        hit = hit or any(q.c.key in rb and 'out' in q.args and p.eq(q.args['out'], A.pos['out']) for q in p.parts())
                    except Unknown:
                        pass
                    if hit:
                        rb.add(A.key)
                        again = True
                if A.key not in wl:
                    hit = False
                    for k, a in out_stores(p):
                        for pt in pts_of(p):
                            if p.ev(a.addr, pt) == O0 + osz * (pt[0] - 1):
                                hit = True
                    try:
                        hit = hit or any(q.c.key in wl and p.eq(q.args['e'], A.pos['e']) for q in p.parts())
                    except Unknown:
                        pass
                    if hit:
                        wl.add(A.key)
                        again = True
    return rb, wl


def gated(fn, inst, resumes):
    """is the loaded value only looked at when the fork is known to have completed?"""
    env = {i.v: ('ready', 0) for i in resumes}
    uses = {}
    for i in fn.insts():
        for k, o in enumerate(i.ops or []):
            if 'v' in o:
                uses.setdefault(o['v'], []).append((i, k))
        if i.op == 'phi':
            for o, _ in i.d['inc']:
                if 'v' in o:
                    uses.setdefault(o['v'], []).append((i, -1))
    todo, seen = [inst.v], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for u, k in uses.get(v, []):
            if u.op in ('icmp', 'zext', 'trunc', 'freeze', 'ptrtoint', 'sub', 'xor'):
                todo.append(u.v)
            elif u.op == 'select' and k in (1, 2):
                nf = Facts().assume(fn.operand(u.ops[0], env), k == 1)
                if nf is not None and nf.truth(('ready', 0)) is not True:
                    return False
            elif u.op == 'and':
                nf = Facts().assume(fn.operand(u.ops[1 - k], env), True)
                if nf is not None and nf.truth(('ready', 0)) is not True:
                    return False
            else:
                return False
    return True


def c21_path(ck, p, parts, rb, wl):
    A = p.A
    f = A.f
    by = {q.n: q for q in parts}
    slots, open_ = {}, []

    def still(n, a):
        return a.facts.truth(('ready', n)) is not True

    def inside(q, addr, what, esz):
        lo = q.args.get(what)
        if lo is None:
            return False
        for pt in pts_of(p):
            x, l = p.ev(addr, pt), p.ev(lo, pt)
            b, e = p.ev(q.args['b'], pt), p.ev(q.args['e'], pt)
            if None not in (x, l, b, e):
                k = sgn((e - b) % M64) // A.pos['b_sz']
                if l <= x < l + k * esz:
                    return True
        return False

    for k, a in enumerate(p.acts):
        now = [n for n in open_ if still(n, a)]
        if a.k == 'join':
            open_ = []
            continue
        if a.k == 'load':
            for n in now:
                if slots.get(n) is not None and split(a.addr)[0] == split(slots[n])[0]:
                    rs = [x.i for x in p.acts if x.k == 'resumed' and x.kind == 'sync_fork' and x.n == n]
                    ck.need(rs and gated(f, a.i, rs), 'slot-read', a.i.where(), '%s reads the result of forked child %d while it may be running' % (A.name, n), f)
                elif n in by and a.val[0] == 'mem':
                    q = by[n]
                    hit = inside(q, a.addr, 'out', A.pos.get('out_sz', 1)) if 'out' in q.args else False
                    if A.alg != 'fold':
                        hit = hit or inside(q, a.addr, 'b', A.pos.get('b_sz', 4))
                    ck.need(not hit, 'range-read', a.i.where(), '%s reads %s, in the part of forked child %d, while it may be running' % (A.name, p.show(a.addr), n), f)
        elif a.k in ('app', 'make', 'lib', 'other'):
            for n in now:
                sb = split(slots[n])[0] if slots.get(n) is not None else None
                if sb is not None and sb[0] == 'alloca':
                    ck.need(not any(split(x)[0] == sb for x in a.args), 'slot-read', a.i.where(), '%s passes the result of forked child %d on while it may be running' % (A.name, n), f)
        elif a.k == 'await':
            q = by.get(a.n)
            for n in now:
                o = by.get(n)
                if q is None or o is None or 'out' not in q.args or 'out' not in o.args:
                    continue
                for rd, wr in ((q, o), (o, q)):
                    adj = p.eq(rd.args['b'], wr.args['e'])
                    if adj:
                        ck.need(not (rd.c.key in rb and wr.c.key in wl), 'neighbour-read', q.act.i.where(),
                                '%s: %s reads the last output element of %s, which may still be running' % (A.name, rd.c.name, wr.c.name), f)
            if a.kind == 'fork':
                open_.append(a.n)
                slots[a.n] = a.slot
                ck.ok('forks', a.i.where())


def c21(ck, mods):
    ck.rule('forks', 'forked children followed to the next join', 20)
    ck.rule('slot-read', 'the result of a forked child is looked at only after a join, or when the fork reported completion', 4)
    ck.rule('range-read', 'elements of the part given to a forked child are not read before the join', 0)
    ck.rule('neighbour-read', 'a part whose treatment begins with its left neighbour\'s last output is not started while that neighbour may still be writing it', 10)
    for cfg, ms in mods.items():
        ck.cfg = cfg
        algos = load_algos(ms['alg'], 'al')
        need_all(ck, algos)
        rb, wl = summaries(algos)
        for A in algos:
            ck.funcs.add(A.f.where())
            for p in A.runs():
                try:
                    ps = p.parts()
                except Unknown:
                    ps = []
                c21_path(ck, p, ps, rb, wl)


# ----------------------------------------------------------------------------- C20
# copying, comparing and moving an iterator are taken not to throw (dereferencing may); the destruction of an exception too
STEP = re.compile(r'^probe::(operator(\+|-|==|!=|<=>|<)|it::(it|~it|operator(=|\+\+|--|\+=|-=)))$')


class Scope(Machine):
    """(open, pending): open is 0, 1 or the value a sync-fork reported; pending: an exception caught
    since the fork has not been stashed yet"""

    def __init__(self, ck, fn):
        self.ck, self.fn = ck, fn

    def start(self, fn):
        return (0, 0)

    def is_open(self, st, cx):
        if isinstance(st[0], tuple):
            return cx.facts.truth(st[0]) is not True
        return bool(st[0])

    def step(self, i, st, cx):
        if not i.is_call:
            return st
        q = callee_q(i)
        ck, fn = self.ck, self.fn
        if 'final_awaitable::await_suspend' in q:
            if self.is_open(st, cx):
                ck.bad('closed-on-return', i.where(), 'the coroutine returns while a forked child may be running', fn)
            else:
                ck.ok('closed-on-return', i.where())
            return None
        if cx.edge == 'unwind' and (q == '__cxa_end_catch' or STEP.search(q)):
            return None
        m = AWS.search(q)
        if m:
            if m.group(1) == 'join' or JOIN.search(q):
                if st[1]:
                    ck.bad('stashed', i.where(), 'an exception caught after a fork is dropped', fn)
                return st
            if m.group(1) in ('fork', 'sync_fork') and cx.edge != 'unwind':
                ck.ok('scopes', i.where())
                return (1, 0)
            return st
        m = AWR.search(q)
        if m:
            if m.group(1) == 'sync_fork':
                if cx.edge == 'unwind':
                    return (0, 0)
                return (cx.ex(i.v), st[1]) if st[0] == 1 else st
            return st
        if JOIN.search(q):
            if st[1]:
                ck.bad('stashed', i.where(), 'an exception caught after a fork is dropped', fn)
            if q.endswith('await_resume'):
                return (0, 0)
            return st
        if q == '__cxa_begin_catch' and self.is_open(st, cx):
            return (st[0], 1)
        if q.endswith('first_arg_t::stash_exception'):
            if st[1]:
                ck.ok('stashed', i.where())
            return (st[0], 0)
        if q.endswith('::unhandled_exception'):
            if self.is_open(st, cx):
                ck.bad('closed-on-exception', i.where(), 'an exception leaves the coroutine while a forked child may be running', fn)
            else:
                ck.ok('closed-on-exception', i.where())
            return None
        return st


def c20(ck, mods):
    ck.rule('scopes', 'fork sites entered by the typestate automaton', 20)
    ck.rule('closed-on-return', 'the coroutine completes only outside fork-join scopes', 20)
    ck.rule('closed-on-exception', 'an exception leaves the coroutine only outside fork-join scopes', 10)
    ck.rule('stashed', 'an exception caught after a fork is stashed for the join', 0)
    for cfg, ms in mods.items():
        ck.cfg = cfg
        n = 0
        for drv, job in (('alg', 'al'), ('thr', 'al_thr')):
            if drv not in ms:
                continue
            for f in ms[drv].funcs:
                if f.d['job'] != job or not f.d.get('coro', True):
                    continue
                if not f.d.get('within'):
                    raise AnalysisBroken('inlining budget exceeded in ' + f.name)
                if '/algorithm/' not in f.d.get('file', '').replace('\\', '/'):
                    continue
                n += 1
                ck.funcs.add(f.where())
                walk(f, Scope(ck, f))
        if n < 40:
            raise AnalysisBroken('%s: %d algorithm coroutines found' % (cfg, n))
