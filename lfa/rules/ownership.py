"""Ownership of task frames (C29) and what a task knows before it starts (C30)."""
from ..kit import *
from .frames import finals, aw, join_rmws, final_kind
from .roots import sims as root_sims, Root, F, FH, S, ARG, EXC, VAL, s_mem_before
from .results import representations

P = 0x48000000           # the awaiting frame
X, R = 0x51510000, 0x58000000
RAMP = r'^probe::v?fn::operator\(\)$'


class Own(Sim):
    """one path of code that handles an unstarted task `F` (its handle is FH)"""

    def __init__(self, f, p, cells, child=F):
        self.f, self.cells, self.child, self.kills = f, cells, child, []
        self.tok, self.ramps = {}, []
        super().__init__(p, self.init, self.call)

    def init(self, _, a, e):
        if a is None:
            return None
        for lo, n in self.cells:
            if lo <= a < lo + n and (e.to('_Head_base::_M_head_impl') or 'frame' in self.f.type_names(e.val)) and not any(x.endswith('::self') for x in e.flds):
                return self.child
        if F <= a < F + 4096 and e.to('frame::m_this_coro', 'coroutine_handle::_M_fr_ptr'):
            return FH
        return None

    def call(self, _, k, e, av):
        if e.name.startswith('llvm.coro.destroy'):
            self.kills.append((k, e, av[0]))
        m = re.match(r'^probe::(\w+)::(~?)(\w+)$', e.name)
        if m and m.group(3) == m.group(1) and e.edge != 'unwind':
            if m.group(2):
                self.tok.pop(av[0], None)
            elif len(av) == 2:
                self.tok[av[0]] = self.token(av[1])
                if '&&' in (e.i.callee or ''):
                    self.tok[av[1]] = 'moved-from'
            else:
                self.tok[av[0]] = 'fresh'
        if re.search(RAMP, e.name):
            self.ramps.append((k, e, av, dict(self.tok)))
            if e.edge != 'unwind' and av[0] is not None:
                self.mem[av[0]] = F
        return None

    def token(self, a):
        if a in self.tok:
            return self.tok[a]
        return 'given' if a in ARG else 'unknown'


def runs(f, cells, child=F):
    for p in paths(f):
        s = Own(f, p, cells, child)
        if s.feasible():
            yield s


def this_arg(f):
    return ARG[f.d.get('sretn', 0)]


def child_offset(f):
    """offset of the owned frame in the awaitable, read off its destructor"""
    out = set()
    for i in f.insts():
        if i.is_call and (i.callee or '').startswith('llvm.coro.destroy'):
            e = f.operand(i.ops[0])
            while e[0] == 'ld':
                b, off = split(e[1])
                if b == ('arg', 0):
                    out.add(off)
                    break
                e = b
    if len(out) != 1:
        raise AnalysisBroken('cannot read where %s keeps its task: %s' % (short(f.name), out))
    return out.pop()


def c29(ck, mods):
    ck.rule('drop', 'a task that is created and never awaited is destroyed exactly once; one whose creation failed is not', 10)
    ck.rule('holder', 'an awaitable destroys the task it still holds exactly once, and nothing when it holds none', 3)
    ck.rule('start', 'starting a task hands it over exactly once: the awaitable gives it up before the parent is published, returns its handle, and a failed start leaves exactly one owner', 2)
    ck.rule('transform', 'awaiting moves the task from the bound call to the awaitable: exactly one of them owns it afterwards', 10)
    ck.rule('final', 'a finished task destroys its own frame exactly once, before the parent can be resumed and never after', 3)
    ck.rule('root', 'a root task belongs to the scheduler if the submission succeeds and is destroyed exactly once otherwise', 5)
    ck.rule('create', 'the frame is owned by the task object from the moment it exists', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in ck.fns(mod['own'], r'^probe::own_\w+$', 'drop', 10):
            for s in runs(f, []):
                n = [r for r in s.ramps if r[1].edge != 'unwind']
                kills = [k for k in s.kills if k[2] == FH]
                if s.kills and len(kills) != len(s.kills):
                    ck.bad('drop', s.kills[0][1].where(), 'something else than the task is destroyed', f)
                want = len(n)
                ck.need(len(kills) == want, 'drop', (n[0][1] if n else s.p.end).where(), 'the task is %s' % ('destroyed %d times' % len(kills) if kills else 'never destroyed') if n else 'a task that was never created is destroyed', f)
        offs = {}
        for f in ck.fns(mod['core'], r'::~(just|call|fork)_awaitable$', 'own', 3):
            off = child_offset(f)
            offs.setdefault(re.search(r'~(\w+)$', f.q).group(1), off)
            for child in (0, F):
                for s in runs(f, [(ARG[0] + off, 1)], child):
                    good = [k for k in s.kills if k[2] == FH]
                    ck.need(s.p.end.kind == 'ret' and len(s.kills) == len(good) == (1 if child else 0), 'holder', f.where(), 'an awaitable that holds %s destroys %d task(s)' % ('a task' if child else 'nothing', len(s.kills)), f)
        for nm in ('fork', 'call'):
            off = offs[nm + '_awaitable']
            for f in aw(ck, mod, r'::%s_awaitable::await_suspend$' % nm):
                cell = ARG[0] + off
                for s in runs(f, [(cell, 1)]):
                    held = s.mem.get(cell, F)
                    kills = [k for k in s.kills if k[2] == FH]
                    if s.p.end.kind == 'ret':
                        ck.need(s.at[-1][1] == FH, 'start', f.where(), 'the task that is to be started is not the one returned for execution', f)
                        ck.need(held == 0 and not kills, 'start', f.where(), 'the started task is %s' % ('destroyed' if kills else 'still owned by the awaitable'), f)
                    else:
                        ck.need(len(kills) + (held == F) == 1, 'start', f.where(), 'a start that fails leaves the task with %d owners' % (len(kills) + (held == F)), f)
                if nm == 'fork':
                    for p in paths(f, stop=lambda e: e.kind == 'call' and e.name.endswith('deque::push') and e.edge != 'unwind'):
                        s = Own(f, p, [(cell, 1)])
                        if p.calls(r'deque::push$') and s.feasible():
                            ck.need(s.mem.get(cell, F) == 0, 'start', p.end.where(), 'the parent is published while its awaitable still owns the child', f)
        n = 0
        for f in ck.fns(mod['core'], r'^lf::impl::promise_base::await_transform$', 'xf', 8):
            kind = 'quasi' if 'quasi_awaitable' in f.name.split('await_transform', 1)[1] and 'resume_on' not in f.name else 'just' if 'just_awaitable<' in f.name.split('await_transform', 1)[1] else None
            if kind == 'quasi':
                fork = re.search(r'tag\)2', f.d.get('qual') or f.name)
                off = offs['fork_awaitable' if fork else 'call_awaitable']
                src, dst = ARG[2], ARG[0] + off
                for s in runs(f, [(src, 8)]):
                    a, b = s.mem.get(src, F), s.mem.get(dst)
                    ck.need(s.p.end.kind == 'ret' and not s.kills and a == 0 and b == F, 'transform', f.where(), 'after awaiting, the task is owned by %s' % (' and '.join(['the bound call'] * (a == F) + ['the awaitable'] * (b == F)) or 'nobody'), f)
            elif kind == 'just':
                off = offs['just_awaitable']
                for s in runs(f, [(ARG[1] + off, 1)]):
                    ck.need(s.p.end.kind == 'ret' and not s.kills and s.at[-1][1] == ARG[1] and s.mem.get(ARG[1] + off, F) == F, 'transform', f.where(), 'awaiting just() does not leave the task with its awaitable', f)
        for kind in ('fork', 'call', 'root'):
            for f in finals(ck, mod, kind):
                for p in paths(f):
                    mine = [('arg', 0)] + [('call', i.v) for i in f.insts() if i.is_call and i.callee.startswith('llvm.coro.promise')]
                    de = p.calls(r'^llvm\.coro\.destroy$')
                    own = [(k, e) for k, e in de if any(e.args[0] == m or mentions(e.args[0], m) for m in mine) and not (e.args[0][0] == 'ld' and not own_handle(f, e.args[0], mine))]
                    ck.need(len(de) == len(own) == 1, 'final', (de[-1][1] if de else p.end).where(), 'a finished task destroys %s' % ('another frame' if len(de) > len(own) else 'its frame %d times' % len(own)), f)
                    if len(own) == 1:
                        js = [k for k, e in join_rmws(p)]
                        ck.need(all(k > own[0][0] for k in js), 'final', own[0][1].where(), 'the parent can be resumed before the task\'s frame is destroyed', f)
        for f in ck.fns(mod['core'], r'^lf::schedule$', 'root', 5):
            for s in root_sims(f):
                if s.hs or s.hc:
                    continue
                evs = s.events()
                made = [e for w, k, e, x in evs if w == 'ramp' and e.edge != 'unwind']
                done = [e for w, k, e, x in evs if w == 'submit' and x == 'normal']
                kills = [e for w, k, e, x in evs if w == 'kill' and x == FH]
                ck.need(len(kills) + len(done) == len(made), 'root', (kills[0] if kills else made[0] if made else s.p.end).where(), 'a root task that was %s is destroyed %d times here' % ('submitted' if done else 'created but not submitted', len(kills)), f)
        for f in ck.fns(mod['core'], r'^lf::impl::promise::get_return_object$', 'own', 3):
            for p in paths(f):
                s = Own(f, p, [])
                ck.need(p.end.kind == 'ret' and this_arg(f) in s.mem.values() and [a for a, v in s.mem.items() if v == this_arg(f)] == [ARG[0]], 'create', f.where(), 'the task object does not own the frame', f)


def own_handle(f, e, mine):
    """is e (a load) the finishing task's own handle read from its own frame?"""
    b, off = split(e[1])
    return any(b == m for m in mine) and 'frame::m_this_coro' in {notmpl(x) for x in f.fields(e[1])}


def c30(ck, mods):
    ck.rule('parent', 'a forked, called or just-called task is told its parent - the awaiting task - before it can be started', 10)
    ck.rule('self', 'every awaitable of a task names the task that awaits it', 10)
    ck.rule('slot', 'the bound task knows where its result goes', 8)
    ck.rule('copy', 'the function object and the arguments a task receives hold the state the caller supplied (none is moved from first)', 8)
    ck.rule('record', 'a new frame records its own handle, the top of the stack it was allocated on, and is known to the first argument', 3)
    ck.rule('root', 'a root task knows its result and the signal of its future before it is submitted', 4)
    ck.rule('just', 'awaiting just(f) yields what the child left in the slot it was given: the exception is rethrown, else the value is returned', 6)
    ck.rule('deliver', 'returning from a task stores the returned value in its result slot', 5)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        rel = {}
        for f in ck.fns(mod['core'], r'^lf::impl::promise_base::await_transform$', 'xf', 8):
            sig = f.name.split('await_transform', 1)[1]
            sret = f.d.get('sretn', 0)
            me = ARG[sret]
            quasi, just = 'quasi_awaitable' in sig and 'resume_on' not in sig, 'just_awaitable<' in sig
            if quasi or just:
                for s in runs(f, [(ARG[2], 8)] if quasi else [(ARG[1], 64)]):
                    st = [(k, s.at[k]) for k, e in enumerate(s.p.evs) if e.kind == 'store' and any(x.endswith('::m_parent') for x in e.flds)]
                    good = st and st[-1][1][0] is not None and F <= st[-1][1][0] < F + 4096 and st[-1][1][1] == me
                    ck.need(bool(good), 'parent', f.where(), 'the task is not told that the awaiting task is its parent', f)
            for p in paths(f):
                s = Own(f, p, [(ARG[2], 8)] if quasi else [])
                w = [(k, s.at[k][1]) for k, e in enumerate(p.evs) if e.kind == 'store' and (any(x.endswith('awaitable::self') for x in e.flds) or e.to('node::m_data')) and not e.to('node::m_next')]
                for k, v in w:
                    ck.need(v == me, 'self', p.evs[k].where(), 'the awaitable does not name the awaiting task', f)
                if p.end.kind == 'ret' and 'join_type' in sig:
                    ck.need(s.at[-1][1] == me or any(v == me for k, v in w), 'self', f.where(), 'the join does not name the awaiting task', f)
        for f in ck.fns(mod['own'], r'^probe::own_\w+$', 'drop', 10):
            void = 'discard' in f.q or f.q.endswith('call_void')
            just = 'just' in f.q
            for s in runs(f, []):
                rs = [r for r in s.ramps]
                for k, e, av, tok in rs[:1]:
                    objs = {a: t for a, t in tok.items()}
                    fa = [t for a, t in objs.items() if len(av) > 2 and av[2] is not None and av[2] <= a < av[2] + 64]
                    ck.need(fa == ['given'], 'copy', e.where(), 'the function object handed to the task is %s' % (fa[0] if fa else 'not a copy of the caller\'s'), f)
                    th = tok.get(av[1], 'given' if av[1] in ARG else 'unknown')
                    ck.need(th == 'given', 'copy', e.where(), 'the task is created from a function object that is %s' % th, f)
                    for a in av[3:]:
                        if a in tok:
                            ck.need(tok[a] == 'given', 'copy', e.where(), 'an argument handed to the task is %s' % tok[a], f)
                    if e.edge == 'unwind':
                        continue
                    st = [(j, s.at[j]) for j, x in enumerate(s.p.evs) if x.kind == 'store' and j > k and s.at[j][0] is not None and F <= s.at[j][0] < F + 4096]
                    sl = [v for j, (a, v) in st if a > F + 8]
                    if not void and not just:
                        ck.need(ARG[0] in sl, 'slot', e.where(), 'the task is not told where its result goes', f)
                    elif just:
                        own = [a for a, v in s.mem.items() if v == F and a is not None]
                        kill = s.kills[0] if s.kills else None
                        held = [s.at[j][0] for j, x in enumerate(s.p.evs) if x.kind == 'store' and s.at[j][1] == F]
                        hit = {v - h for v in sl for h in held + own if v is not None and h and v >> 20 == h >> 20}
                        ck.need(len(hit) == 1, 'slot', e.where(), 'the result of just() does not go to its awaitable', f)
                        rel.setdefault('void' if 'void' in f.q else 'int', set()).update(hit)
                    else:
                        ck.ok('slot', e.where())
        for f in aw(ck, mod, r'^lf::impl::promise::promise$', 3):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                me = p.evs and ('arg', 0)
                st = {}
                for e in p.evs:
                    if e.kind == 'store' and split(e.addr)[0] in (('arg', 0), ('arg', 1), ('arg', 2)):
                        for n in e.flds:
                            st[n] = (e.addr, e.val)
                h = st.get('frame::m_this_coro')
                ck.need(h is not None and h[1][0] == 'call' and any(i.v == h[1][1] and i.callee.startswith('llvm.coro.promise') and split(f.operand(i.ops[0]))[0] == ('arg', 0) for i in f.insts() if i.is_call), 'record', f.where(), 'the frame does not record its own handle', f)
                t = st.get('frame::m_stacklet')
                ck.need(t is not None and t[1][0] == 'ld' and tls_of(f, t[1][1], 'thread_stack'), 'record', f.where(), 'the frame does not record the top of the stack of this worker', f)
                a = st.get('first_arg_t::m_frame')
                ck.need(a is not None and a[1] == ('arg', 0) and split(a[0])[0] in (('arg', 1), ('arg', 2)), 'record', f.where(), 'the task\'s first argument does not know its frame', f)
        for f in ck.fns(mod['core'], r'^lf::schedule$', 'root', 5):
            for s in root_sims(f):
                if s.hs or s.hc:
                    continue
                sub = [(k, e) for w, k, e, x in s.events() if w == 'submit']
                for k, e in sub[:1]:
                    fr = {}
                    for j in range(k):
                        x = s.p.evs[j]
                        a, v = s.at[j]
                        if x.kind == 'store' and a is not None and F <= a < F + 4096:
                            fr[a] = (v, x)
                        elif x.kind == 'call' and re.search(r'shared_ptr', x.name) and a and a[0] is not None and F <= a[0] < F + 4096 and x.edge != 'unwind':
                            fr[a[0]] = (s.mem.get(a[0]), x)
                    sem = [v for v, x in fr.values() if any(y.endswith('::m_sem') for y in x.flds)]
                    ck.need(bool(sem) and sem[0] is not None and S < sem[0] < S + 4096, 'root', e.where(), 'the root task is submitted without knowing the signal of its future', f)
                    own = [a for a, t in s.tok.items() if a is not None and F <= a < F + 4096]
                    ck.need(bool(own) or any(v == S for v, x in fr.values()), 'root', e.where(), 'the root task is submitted without knowing where its result goes', f)
        just_results(ck, mod, rel)
        for m, job in (('core', 'own'), ('own', 'drop')):
            for f in ck.fns(mod[m], r'::return_value$', job, 1):
                if 'discard_t' in f.name:
                    continue
                for p in paths(f):
                    if p.end.kind == 'ret':
                        deliver(ck, f, p)


def deliver(ck, f, p):
    s = Sim(p, lambda _, a, e: R if a is not None and ARG[0] <= a < ARG[0] + 64 else X if a is not None and a == ARG[1] else None)
    n = 0
    for k, e in enumerate(p.evs):
        a, v = s.at[k]
        if e.kind == 'store' and a is not None and R <= a < R + 4096 and v in (X, ARG[1]):
            n += 1
        elif e.kind == 'call' and a and any(x is not None and R <= x < R + 4096 for x in a) and any(x in (ARG[1], X) for x in a):
            n += 1
    ck.need(n >= 1, 'deliver', f.where(), 'the value returned does not reach the result slot', f)


def just_results(ck, mod, rel):
    """rel: where the slot given to the child lies, relative to the child pointer, per result type"""
    offs = {}
    for f in ck.fns(mod['core'], r'::~just_awaitable$', 'own', 1):
        offs[re.search(r'just_awaitable<(.*?)>::~', f.d.get('qual') or f.name).group(1).replace(' ', '')] = child_offset(f)
    reps = representations(mod['core'])
    for f in aw(ck, mod, r'^lf::impl::just_awaitable::await_resume$', 3):
        t = re.search(r'just_awaitable<(.*?)>::', f.d.get('qual') or f.name).group(1).replace(' ', '')
        me = this_arg(f)
        r = reps.get(t) or reps.get(t.replace('probe::', ''))
        if r is None:
            raise AnalysisBroken('no result object for just() of %s: %s' % (t, list(reps)))
        d = rel.get(t)
        base = me if d is None or t not in offs else me + offs[t] + min(d)
        for x in ('value', 'exception') if 'value' in r else ('empty', 'exception'):
            n = 0
            for p in paths(f):
                s = Sim(p, lambda _, a, e: None if a is None else r[x].get(a - base))
                if not s.feasible():
                    continue
                n += 1
                thr = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name == 'std::rethrow_exception']
                if x == 'exception':
                    a = s.at[thr[0][0]][0][0] if thr else None
                    ck.need(len(thr) == 1 and p.end.kind == 'unwind' and a is not None and s_mem_before(s, thr[0][0], a) == EXC, 'just', f.where(), 'the exception of the child is not rethrown', f)
                elif thr:
                    ck.bad('just', thr[0][1].where(), 'an exception is reported although the child returned', f)
                elif t.endswith('hairy'):
                    cons = [k for k, e in enumerate(p.evs) if e.kind == 'call' and e.name.endswith('hairy::hairy')]
                    ck.need(len(cons) == 1 and s.at[cons[0]][0] == [ARG[0], base + r['value'].get('@', 0)], 'just', f.where(), 'the value of the child is not returned', f)
                elif t == 'void':
                    ck.need(p.end.kind == 'ret', 'just', f.where(), 'a child that returned is reported as failed', f)
                else:
                    ck.need(p.end.kind == 'ret' and s.ev(p.ret) == VAL, 'just', f.where(), 'the value of the child is not returned', f)
            ck.need(n > 0, 'just', f.where(), 'no path for a child that left %s' % x, f)
