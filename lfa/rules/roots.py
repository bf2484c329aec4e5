"""Root tasks: submission (C14), futures (C13)."""
from ..kit import *
from .frames import finals

ARG = [0x100000000 * (n + 1) for n in range(8)]
F, FH, S = 0x40000000, 0x50000000, 0x60000000
SUBMIT = r'(user_sched|_pool)::schedule$'
SP = r'^std::(__)?shared_ptr::'


class Root(Sim):
    """one path of schedule() for one state of the calling thread"""

    def __init__(self, f, p, hs, hc):
        self.f, self.hs, self.hc = f, hs, hc
        self.tok, self.trace, self.ramp, self.frame_at, self.sret = {}, [], None, None, {}
        super().__init__(p, self.init, self.call)

    def is_tls(self, e, what):
        return tls_of(self.f, e, what)

    def init(self, _, a, e):
        if self.is_tls(e.addr, 'has_stack'):
            return self.hs
        if self.is_tls(e.addr, 'has_context'):
            return self.hc
        if '_Head_base::_M_head_impl' in e.flds and a is not None and self.frame_at in (None, a):
            prev = [k for k, x in enumerate(self.p.evs[:len(self.at)]) if x.kind == 'call' and x.edge != 'unwind' and x.args and self.at[k][0][0] == a]
            if prev:
                self.frame_at = a
                if self.ramp is None:
                    self.ramp = prev[-1]
                return F
        if a is not None and F <= a < F + 4096 and 'frame::m_this_coro' in e.flds:
            return FH
        return None

    def call(self, _, k, e, av):
        if e.edge == 'unwind':
            return None
        sig = e.i.callee or ''
        if re.search(r'^std::make_shared$', e.name):
            self.tok[av[0]] = self.mem[av[0]] = S
        elif re.search(SP, e.name):
            if '~' in e.name or e.name.endswith('::reset'):
                self.tok.pop(av[0], None)
            elif e.name.endswith('::swap'):
                self.tok[av[0]], self.tok[av[1]] = self.tok.get(av[1]), self.tok.get(av[0])
                self.mem[av[0]], self.mem[av[1]] = self.mem.get(av[1]), self.mem.get(av[0])
            elif len(av) == 2 and av[1] in self.tok:
                self.tok[av[0]], self.mem[av[0]] = self.tok[av[1]], self.mem.get(av[1])
                if '&&' in sig.split('(', 1)[-1]:
                    self.tok.pop(av[1])
                    self.mem[av[1]] = 0
            else:
                self.tok.pop(av[0], None)
        elif e.name.endswith('stack::release'):
            return 0x70000000
        return None

    # ------------------------------------------------------------ what happened, in order
    def events(self):
        """(kind, index, event) for the life of stack, frame and submission"""
        out = []
        for k, e in enumerate(self.p.evs):
            at = self.at[k]
            if e.kind == 'store' and self.is_tls(e.addr, 'has_stack'):
                out.append(('flag', k, e, at[1]))
            elif e.kind == 'store' and self.is_tls(e.addr, 'has_context'):
                out.append(('ctx', k, e, at[1]))
            elif e.kind == 'call':
                un = e.edge == 'unwind'
                own = bool(e.args) and self.is_tls(e.args[0], 'thread_stack')
                if re.search(r'^lf::impl::stack::', e.name):
                    w = e.name.rsplit('::', 1)[1]
                    if own and w == 'stack' and not un:
                        out.append(('restore' if len(at[0]) > 1 and 0x70000000 in at[0] else 'construct', k, e, None))
                    elif not own and w == 'stack' and len(at[0]) > 1 and at[0][1] == 0x70000000 and not un:
                        out.append(('hold', k, e, at[0][0]))
                    elif own and w == 'operator=' and not un:
                        out.append(('assign', k, e, at[0][1]))
                    elif own and w == '~stack':
                        out.append(('destroy', k, e, None))
                    elif own and w == 'release' and not un:
                        out.append(('release', k, e, None))
                elif e.name.startswith('llvm.coro.destroy'):
                    out.append(('kill', k, e, at[0][0]))
                elif re.search(SUBMIT, e.name):
                    out.append(('submit', k, e, 'unwind' if un else 'normal'))
                elif e.name == 'std::make_shared' and not un:
                    out.append(('state', k, e, None))
                elif k == self.ramp:
                    out.append(('ramp', k, e, None))
        return out


def sims(f):
    for p in paths(f):
        for hs in (0, 1):
            for hc in (0, 1):
                s = Root(f, p, hs, hc)
                if s.feasible():
                    yield s


def thrown_type(p):
    for e in reversed(p.evs):
        if e.kind == 'call' and e.name == '__cxa_throw':
            return str(e.args[1])
    return ''


def c14(ck, mods):
    ck.rule('reject', 'called by a worker (or while a stack is set up), schedule throws schedule_in_worker and changes nothing', 3)
    ck.rule('stack', 'the thread\'s stack and its flag are set up before the task is created and are gone on every way out', 20)
    ck.rule('owner', 'the frame is destroyed exactly once when the submission fails - on the stack that holds it - and never when it succeeds', 20)
    ck.rule('report', 'an exception of the scheduler, of an allocation or of the task\'s construction reaches the caller', 10)
    ck.rule('submit', 'a task is submitted exactly once, after the stack that holds it was given up', 10)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in ck.fns(mod['core'], r'^lf::schedule$', 'root', 5):
            for i, c in terminating(f):
                if c.startswith('llvm.coro.') or c.startswith('__cxa_') or '~' in c:
                    continue
                ck.bad('report', i.where(), 'an exception of %s ends the program' % c, f)
            ck.ok('report', f.where())
            for s in sims(f):
                root_path(ck, f, s)


def root_path(ck, f, s):
    p, evs = s.p, s.events()
    kinds = [x[0] for x in evs]
    if s.hs or s.hc:
        good = p.end.kind == 'unwind' and 'schedule_in_worker' in thrown_type(p) and not kinds
        ck.need(good, 'reject', f.where(), 'in a worker (has_stack=%d has_context=%d) schedule %s' % (s.hs, s.hc, 'returns' if p.end.kind == 'ret' else 'has done ' + ', '.join(kinds) if kinds else 'does not report it'), f)
        return
    ends = p.end.kind
    if 'schedule_in_worker' in thrown_type(p):
        return ck.bad('reject', f.where(), 'a thread that is not a worker is refused', f)
    stack, flag, frame, held, subs = 0, 0, None, set(), 0
    for w, k, e, x in evs:
        if w == 'construct':
            ck.need(stack == 0, 'stack', e.where(), 'the stack is set up twice', f)
            stack = 1
        elif w == 'destroy':
            ck.need(stack == 1, 'stack', e.where(), 'the stack is destroyed without being set up', f)
            ck.need(frame in (None, 'away', 'dead', 'gone'), 'owner', e.where(), 'the stack is destroyed while the frame lives on it', f)
            stack = 0
        elif w == 'flag':
            flag = x
        elif w == 'ctx':
            ck.bad('stack', e.where(), 'the registration of the thread as a worker changes', f)
        elif w == 'ramp':
            ck.need(stack == 1 and flag == 1, 'stack', e.where(), 'the task is created before the thread\'s stack is set up', f)
            if e.edge != 'unwind':
                frame = 'here'
        elif w == 'release':
            ck.need(frame == 'here', 'submit', e.where(), 'the stack is given up without a task on it', f)
            frame = 'away' if frame == 'here' else frame
        elif w == 'hold':
            held.add(x)
        elif w == 'restore' or (w == 'assign' and x in held):
            ck.need(frame == 'away', 'owner', e.where(), 'a stack that was not given up is taken back', f)
            frame = 'here'
        elif w == 'assign':
            ck.bad('stack', e.where(), 'the thread\'s stack is replaced by another', f)
        elif w == 'kill':
            ck.need(x == FH and frame == 'here', 'owner', e.where(), 'the frame is destroyed %s' % ('on a stack that does not hold it' if frame == 'away' else 'although it is not owned (%s)' % frame if frame != 'dead' else 'twice'), f)
            frame = 'dead'
        elif w == 'submit':
            ck.need(frame == 'away', 'submit', e.where(), 'the task is submitted although its stack still belongs to this thread', f)
            ck.need(subs == 0, 'submit', e.where(), 'the task is submitted again', f)
            subs += 1
            if x == 'normal':
                frame = 'gone' if frame == 'away' else frame
            # the caller's stack no longer holds it
    if frame == 'gone':
        frame = 'away'
        done = True
    else:
        done = False
    ck.need(stack == 0, 'stack', f.where(), 'on %s the thread keeps its stack' % ends, f)
    ck.need(flag == 0, 'stack', f.where(), 'on %s the thread stays marked as having a stack' % ends, f)
    if ends == 'ret':
        ck.need(done and subs == 1, 'submit', f.where(), 'schedule returns without having submitted the task', f)
        ck.need(not [1 for e in p.evs if e.kind == 'call' and e.edge == 'unwind'], 'report', f.where(), 'an exception is swallowed', f)
        ck.need(frame == 'away', 'owner', f.where(), 'the frame is %s although the task was submitted' % frame, f)
    elif ends == 'unwind':
        ck.need(frame in (None, 'dead') or done, 'owner', f.where(), 'an exception leaves the frame of the task alive (%s)' % frame, f)
        ck.need(not done, 'report', f.where(), 'schedule fails although the task was submitted', f)
        ck.need('__cxa_throw' not in [e.name for e in p.evs], 'report', f.where(), 'another exception replaces the original', f)


# ----------------------------------------------------------------------------- C13
H, EXC, VAL = 0x60000000, 0x777000, 0x1234


class Fut(Sim):
    """one path of a member of future, for one state: valid?, status, holds an exception?"""

    def __init__(self, f, p, valid, status, exc, reps):
        self.f, self.v, self.s, self.x, self.reps, self.so = f, valid, status, exc, reps, None
        self.this = 0
        if f.d.get('sret') or any(e.kind == 'load' and e.to('future::m_heap') and split(e.addr) == (('arg', 1), 0) for e in p.evs):
            self.this = 1
        super().__init__(p, self.init, self.call)

    def call(self, _, k, e, av):
        return None

    def init(self, _, a, e):
        if a is None:
            return None
        for n in (0, 1):
            if a == ARG[n] and ('future::m_heap' in e.flds or '__shared_ptr::_M_ptr' in e.flds):
                return H if self.v else 0
        if H <= a < H + 4096:
            if 'future_shared_state::status' in e.flds:
                return self.s
            if self.x is not None and a - H in self.reps[self.x]:
                return self.reps[self.x][a - H]
        return None

    def result_uses(self):
        """events that read or consume the stored value or exception"""
        out = []
        for k, e in enumerate(self.p.evs):
            a = self.at[k][0]
            if e.kind in ('load', 'store', 'rmw', 'cas') and a is not None and H <= a < H + 4096:
                if not e.to('future_shared_state::status') and any('basic_eventually' in x or x.startswith('(anon)::m_') or 'exception_ptr' in x for x in e.flds):
                    out.append(k)
            elif e.kind == 'call' and a and not re.search('semaphore', e.name) and any(x is not None and H <= x < H + 4096 for x in a):
                out.append(k)
        return out

    def waits(self):
        return [k for k, e in enumerate(self.p.evs) if e.kind == 'call' and e.name.endswith('::acquire') and self.at[k][0][0] is not None and H <= self.at[k][0][0] < H + 4096]

    def status(self):
        st = [self.at[k][1] for k, e in enumerate(self.p.evs) if e.kind == 'store' and e.to('future_shared_state::status')]
        return st[-1] if st else self.s


def result_type(f):
    return re.search(r'future<(.*?)>::', f.d.get('qual') or f.name).group(1).replace(' ', '')


def fut_runs(f, valid, status, exc, reps):
    out = []
    for p in paths(f):
        s = Fut(f, p, valid, status, exc, reps)
        if s.feasible():
            out.append(s)
    return out


def c13(ck, mods):
    from .results import representations
    ck.rule('empty', 'an empty future answers valid() with false, raises broken_future when used, and waits for nothing', 6)
    ck.rule('wait', 'wait() blocks on the task\'s semaphore exactly when nobody has before, and remembers having done so', 6)
    ck.rule('get', 'get() reads the result only after the task signalled it, exactly once, and rethrows the exception instead of returning when there is one', 10)
    ck.rule('twice', 'a second get() raises empty_future and does not touch the result', 4)
    ck.rule('destroy', 'destroying an unwaited future waits; destroying any other does not', 8)
    ck.rule('move', 'moving a future empties the source and keeps the state; detaching empties it without waiting', 3)
    ck.rule('shared', 'the task holds its own share of the state until it is destroyed, and the semaphore and the submission node live in it', 10)
    ck.rule('signal', 'a finished root task signals its semaphore exactly once, and then destroys itself exactly once', 2)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        core = mod['core']
        inits = [f for f in ck.fns(core, r'future_shared_state::future_shared_state$', 'evt', 1)]
        s0 = {i for f in inits for p in paths(f) for e in p.evs if e.kind == 'store' and e.to('future_shared_state::status') for i in [e.val]}
        if not ck.need(len(s0) == 1 and list(s0)[0][0] == 'c', 'wait', inits[0].where(), 'a new future does not start in one known state', inits[0]):
            continue
        s0 = list(s0)[0][1]
        for f in inits:
            for p in paths(f):
                cnt = [e.val for e in p.evs if e.kind == 'store' and e.to('__atomic_semaphore::_M_counter')]
                ck.need(all(c == ('c', 0) for c in cnt), 'wait', f.where(), 'the semaphore of a new future is already signalled', f)
        reps = representations(core)
        F1 = lambda n, m=1: ck.fns(core, r'^lf::future::%s$' % n, 'fut', m)
        for f in F1('valid', 1):
            for v in (0, 1):
                for s in fut_runs(f, v, s0, None, {}):
                    ck.need(s.ev(s.p.ret) == v, 'empty', f.where(), 'valid() answers wrongly', f)
        waitf, getf = F1('wait'), F1('get', 2)
        for f in waitf + getf:
            r = reps.get(result_type(f), {})
            rs = fut_runs(f, 0, s0, 'value' if 'value' in r else 'empty', r)
            ck.need(bool(rs), 'empty', f.where(), 'no path for an empty future', f)
            for s in rs:
                bad = s.p.end.kind != 'unwind' or 'broken_future' not in thrown_type(s.p) or any(e.kind in ('load', 'store') and s.at[k][0] is not None and s.at[k][0] < 4096 for k, e in enumerate(s.p.evs)) or any(e.kind == 'call' and e.name.endswith('::acquire') for e in s.p.evs)
                ck.need(not bad, 'empty', f.where(), 'using an empty future does not raise broken_future', f)
        done = set()                  # states reached by waiting
        for f in waitf + getf:
            iswait = f in waitf
            r = reps.get(result_type(f), {})
            for x in [k for k in r if k in (('value', 'exception') if 'value' in r else ('empty', 'exception'))]:
                for s in fut_runs(f, 1, s0, x, r):
                    if not iswait:
                        continue
                    w = s.waits()
                    ck.need(len(w) == 1 and s.p.end.kind == 'ret', 'wait', f.where(), 'waiting for an unfinished task does not block exactly once', f)
                    ck.need(s.status() != s0, 'wait', f.where(), 'having waited is forgotten: the next wait blocks for ever', f)
                    done.add(s.status())
        ck.need(len(done) == 1, 'wait', waitf[0].where(), 'waiting leads to different states', waitf[0])
        got = set()
        for f in getf:
            t = result_type(f)
            r = reps.get(t)
            if not ck.need(r is not None, 'get', f.where(), 'no result object for %s' % t, f):
                continue
            for st in [s0] + sorted(done - {s0}):
                for x in [k for k in r if k in (('value', 'exception') if 'value' in r else ('empty', 'exception'))]:
                    rs = fut_runs(f, 1, st, x, r)
                    ck.need(bool(rs), 'get', f.where(), 'no path reads a result', f)
                    for s in rs:
                        check_get(ck, f, s, st == s0, x, t)
                        got.add(s.status())
        ck.need(not (got & ({s0} | done)), 'twice', getf[0].where(), 'having read the result is not remembered', getf[0])
        for f in getf + waitf:
            r = reps.get(result_type(f), {})
            for st in sorted(got - {s0} - done):
                for x in [k for k in r]:
                    for s in fut_runs(f, 1, st, x, r):
                        ck.need(not s.waits(), 'twice' if f in getf else 'wait', f.where(), 'blocks although the task is long finished', f)
                        if f in getf:
                            ck.need(s.p.end.kind == 'unwind' and 'empty_future' in thrown_type(s.p) and not s.result_uses(), 'twice', f.where(), 'reading the result a second time is not refused', f)
                            ck.need(s.status() in got, 'twice', f.where(), 'the refusal changes the state of the future', f)
                        else:
                            ck.need(s.p.end.kind == 'ret' and s.status() in got, 'twice', f.where(), 'waiting makes the result readable again', f)
        for f in waitf:
            for st in sorted(done):
                for s in fut_runs(f, 1, st, None, {}):
                    ck.need(not s.waits() and s.p.end.kind == 'ret' and s.status() in done, 'wait', f.where(), 'waiting again blocks for ever', f)
        for f in F1('~future', 2):
            for v, st in [(0, s0), (1, s0)] + [(1, x) for x in sorted((done | got) - {s0})]:
                rs = fut_runs(f, v, st, None, {})
                ck.need(bool(rs), 'destroy', f.where(), 'a future cannot be destroyed', f)
                for s in rs:
                    n, want = len(s.waits()), int(bool(v and st == s0))
                    ck.need(n == want and s.p.end.kind == 'ret' and not any(s.at[k][0] is not None and s.at[k][0] < 4096 for k, e in enumerate(s.p.evs) if e.kind == 'load'), 'destroy', f.where(), 'destroying %s future %s' % ('an empty' if not v else 'an unwaited' if st == s0 else 'a waited', 'waits' if n else 'does not wait'), f)
                    drop = [k for k, e in enumerate(s.p.evs) if e.kind == 'call' and re.search(r'__shared_count::~__shared_count$|_Sp_counted_base::_M_release$', e.name)]
                    ck.need(not want or not s.waits() or all(k > s.waits()[0] for k in drop), 'destroy', f.where(), 'the share of the state is given up before waiting', f)
        for f in F1('(future|operator=)', 2):
            if not any(e.kind == 'load' and e.to('future::m_heap') or e.to('__shared_ptr::_M_ptr') for p in paths(f) for e in p.evs):
                continue
            for p in paths(f):
                s = Fut(f, p, 1, s0, None, {})
                if not s.feasible():
                    continue
                ck.need(s.mem.get(ARG[0]) == H and s.mem.get(ARG[1]) == 0 and p.end.kind == 'ret', 'move', f.where(), 'a moved future does not carry the state over, or leaves it in the source', f)
        for f in F1('detach', 1):
            for v, st in ((0, s0), (1, s0)):
                for s in fut_runs(f, v, st, None, {}):
                    ck.need(not s.waits() and s.mem.get(ARG[0]) == 0 and s.p.end.kind == 'ret', 'move', f.where(), 'detaching %s' % ('waits' if s.waits() else 'leaves the state in the future'), f)
        # ---- the state outlives the task
        for f in ck.fns(core, r'^lf::schedule$', 'root', 5):
            for p in paths(f):
                s = Root(f, p, 0, 0)
                if not s.feasible() or p.end.kind != 'ret':
                    continue
                sub = [k for w, k, e, x in s.events() if w == 'submit']
                if not sub:
                    continue
                fr = [a for a, t in s.tok.items() if F <= a < F + 4096 and t == S]
                ck.need(len(fr) == 1, 'shared', f.where(), 'the task does not hold a share of the state of its future', f)
                ck.need(s.tok.get(ARG[0]) == S, 'shared', f.where(), 'the future does not hold the state', f)
                node = [x for x in s.at[sub[0]][0] if x is not None and S <= x < S + 4096]
                ck.need(len(node) == 1, 'shared', f.where(), 'the submission node does not live in the shared state', f)
                sems = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'store' and s.at[k][0] is not None and F <= s.at[k][0] < F + 64 and e.to('(anon)::m_sem')]
                good = sems and sems[-1][0] < sub[0] and s.at[sems[-1][0]][1] is not None and S <= s.at[sems[-1][0]][1] < S + 4096
                ck.need(bool(good), 'shared', f.where(), 'the task is not given the semaphore of its future before it is submitted', f)
        for f in finals(ck, mod, 'root'):
            for p in paths(f):
                if p.end.kind == 'unreachable':
                    continue
                rel = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name.endswith('::release') and 'semaphore' in e.name]
                kill = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name.startswith('llvm.coro.destroy')]
                ck.need(len(rel) == 1 and p.end.kind == 'ret', 'signal', f.where(), 'the semaphore of the future is not signalled exactly once', f)
                ck.need(len(kill) == 1 and len(rel) == 1 and rel[0][0] < kill[0][0], 'signal', f.where(), 'the finished root task is not destroyed exactly once after it signalled', f)
                if rel:
                    ck.need(len(rel[0][1].args) < 2 or rel[0][1].args[1] == ('c', 1), 'signal', rel[0][1].where(), 'the semaphore is signalled more than once', f)


def check_get(ck, f, s, fresh, x, t):
    p, w, use = s.p, s.waits(), s.result_uses()
    ck.need(len(w) == (1 if fresh else 0), 'get', f.where(), 'get() %s' % ('does not wait for the task' if fresh else 'waits again'), f)
    ck.need(all(k > w[0] for k in use) if w else True, 'get', f.where(), 'the result is read before the task signalled it', f)
    mark = [k for k, e in enumerate(p.evs) if e.kind == 'store' and e.to('future_shared_state::status')]
    thr = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name == 'std::rethrow_exception']
    if x == 'exception':
        ok = len(thr) == 1 and p.end.kind == 'unwind'
        if ok:
            a = s.at[thr[0][0]][0][0]
            ok = a is not None and s_mem_before(s, thr[0][0], a) == EXC
        ck.need(ok, 'get', f.where(), 'the exception of the task is not rethrown', f)
        last = thr[0][0] if thr else len(p.evs)
        ck.need(any(k < last for k in mark) and s.status() != s.s, 'twice', f.where(), 'a failed get() can be repeated', f)
    else:
        ck.need(not thr, 'get', f.where(), 'an exception is reported although the task returned', f)
        cons = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name.endswith('hairy::hairy')]
        if t.endswith('hairy'):
            good = len(cons) == 1 and s.at[cons[0][0]][0][0] == ARG[0] and s.at[cons[0][0]][0][1] == H + s.reps['value'].get('@', 0)
            ck.need(good, 'get', f.where(), 'the stored value is not returned', f)
            ck.need(cons and any(k < cons[0][0] for k in mark), 'twice', f.where(), 'a get() whose result cannot be moved out can be repeated', f)
        elif p.end.kind == 'ret' and t != 'void':
            ck.need(s.ev(p.ret) == VAL, 'get', f.where(), 'the stored value is not returned', f)
        ck.need(p.end.kind == 'ret' or (cons and cons[0][1].edge == 'unwind'), 'get', f.where(), 'get() fails although the task returned', f)
        ck.need(bool(mark), 'twice', f.where(), 'having read the result is not recorded', f)


def s_mem_before(s, k, a):
    """content of cell a just before event k"""
    v = None
    for j in range(k):
        e = s.p.evs[j]
        if e.kind == 'store' and s.at[j][0] == a:
            v = s.at[j][1]
    return v
