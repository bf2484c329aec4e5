"""Rules over the awaitables and the resume functions: join protocol (C01), happens-before (C02),
no touch after publication (C03), stack hand-over (C04), context switches (C24)."""
from ..kit import *
from .structs import queue_orders

JOIN, STEAL, STKLET = 'frame::m_join', 'frame::m_steal', 'frame::m_stacklet'
U16 = 1 << 16


def aw(ck, mod, rx, minimum=1):
    return ck.fns(mod['core'], rx, 'aw', minimum)


def rd(ck, mod, rx, minimum=1):
    return ck.fns(mod['core'], rx, 'res', minimum)


def final_kind(f):
    """tag of a promise's final awaitable: 'root' | 'call' | 'fork'"""
    m = re.search(r'tag\)(\d)>::', f.d.get('qual') or '') or re.search(r'tag\)(\d)>::final', f.name)
    if not m:
        raise AnalysisBroken('no tag in ' + f.name)
    return {'0': 'root', '1': 'call', '2': 'fork'}[m.group(1)]


def finals(ck, mod, kind, minimum=1):
    fs = [f for f in aw(ck, mod, r'::final_awaitable::await_suspend$') if final_kind(f) == kind]
    if len(fs) < minimum:
        raise AnalysisBroken('no final_awaitable for ' + kind)
    return fs


def initial_join(ck, mod):
    """(J0, S0): the constants a frame's counters start from, read off the promise constructors"""
    js, ss = set(), set()
    for f in aw(ck, mod, r'^lf::impl::promise::promise$', 3):
        for i in f.insts():
            if i.op == 'store':
                a = f.operand(i.ops[1])
                v = f.operand(i.ops[0])
                fl = aliases(f, a)
                if JOIN in fl:
                    js.add(v[1] % U16 if v[0] == 'c' else None)
                if STEAL in fl:
                    ss.add(v[1] % U16 if v[0] == 'c' else None)
    if len(js) != 1 or len(ss) != 1 or None in js or None in ss:
        raise AnalysisBroken('cannot read the initial join/steal counters: %s %s' % (js, ss))
    return js.pop(), ss.pop()


def lin16(e):
    a, c = linear(strip_ids(e), U16)
    return a, c


def lin_eq(e1, e2):
    """e1 - e2 as linear form mod 2^16"""
    return lin_sub(strip_ids(e1), strip_ids(e2), U16)


def is_zero16(facts, e):
    """truth of e == 0 (mod 2^16) under the facts (facts were recorded on full expressions)"""
    a, c = linear(strip_ids(e), U16)
    if not a:
        return c == 0
    items = tuple(sorted(a.items(), key=repr))
    neg = tuple(sorted(((k, (-v) % U16) for k, v in a.items()), key=repr))
    for lit, val in facts.f:
        if lit[0] != 'z':
            continue
        la, lc = {}, lit[2]
        for k, v in lit[1]:
            k = strip_ids(k)
            la[k] = (la.get(k, 0) + v) % U16
        la = {k: v for k, v in la.items() if v}
        lc %= U16
        li = tuple(sorted(la.items(), key=repr))
        for cand, cc in ((items, c), (neg, (-c) % U16)):
            if li == cand:
                if lc == cc:
                    return val
                if val:
                    return False
    return None


def join_rmws(p):
    return [(k, e) for k, e in enumerate(p.evs) if e.kind == 'rmw' and e.to(JOIN)]


def decrement(e):
    """amount subtracted from the join counter by this read-modify-write"""
    if e.name == 'sub':
        return e.val
    if e.name == 'add':
        return ('op', 'sub', ('c', 0), e.val)
    return None


def writes(p, fields, lo=0, hi=None):
    return [(k, e) for k, e in enumerate(p.evs[lo:hi], lo) if e.kind in ('store', 'rmw', 'cas') and e.to(*fields)]


def reset_ok(p, lo, base, j0, s0, f):
    """after event index lo both counters of `base` hold their initial values at the path's end"""
    last = {}
    for k, e in writes(p, (JOIN, STEAL), lo):
        if not same(split(e.addr)[0], base):
            continue
        last[JOIN if e.to(JOIN) else STEAL] = e
    r = []
    for fld, c in ((JOIN, j0), (STEAL, s0)):
        e = last.get(fld)
        if e is None or e.kind != 'store' or e.val[0] != 'c' or e.val[1] % U16 != c:
            r.append(fld)
    return r


def self_ptr(f, p=None):
    """expressions that denote the awaiting frame: ld of a frame-pointer member of the awaitable"""
    return None


def own_frame(f, e):
    """is e the frame pointer stored in this awaitable (arg0)?"""
    return e[0] == 'ld' and split(e[1])[0] == ('arg', 0) and 'frame' in f.type_names(e)


# ============================================================================ C01
def c01(ck, mods):
    ck.rule('join.ready', 'join.await_ready says "resume now" only if the frame was never stolen or every stolen child has reported (J0 - joins == steals, mod 2^16), then restores both counters; otherwise writes nothing', 2)
    ck.rule('join.suspend', 'join.await_suspend subtracts exactly J0 - steals once, resumes its own task iff the old count shows all children reported, restores both counters before that, and otherwise resumes only tasks popped from the own queue', 2)
    ck.rule('final.fork', 'a finishing forked child whose parent was stolen decrements the parent by exactly one, and resumes the parent iff it was the last (old == 1) after restoring both counters; if the parent was not stolen it resumes it without touching the counters', 3)
    ck.rule('final.other', 'a finishing called or root task does not touch join counters and resumes its parent exactly once / nobody', 2)
    ck.rule('steal.count', 'a continuation taken from a queue by another party is counted as stolen exactly once before it runs; a submitted task is not', 2)
    ck.rule('counters.closed', 'no other awaitable or promise function modifies the join counters', 10)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        j0, s0 = initial_join(ck, mod)
        for f in aw(ck, mod, r'join_awaitable::await_ready$'):
            n = 0
            for p in paths(f):
                if p.end.kind != 'ret':
                    ck.bad('join.ready', f.where(), 'await_ready may exit by exception', f)
                    continue
                n += 1
                r = p.ret
                st = [e for e in p.evs if e.kind == 'load' and e.to(STEAL)]
                jn = [e for e in p.evs if e.kind == 'load' and e.to(JOIN)]
                t = p.facts.truth(r)
                cases = [(t, p.facts)] if t is not None else [(v, p.facts.assume(r, v)) for v in (True, False)]
                for val, facts in cases:
                    if facts is None:
                        continue
                    unst = any(is_zero16(facts, ('op', 'sub', e.val, ('c', s0))) is True for e in st)
                    stolen = any(is_zero16(facts, ('op', 'sub', e.val, ('c', s0))) is False for e in st)
                    alldone = any(is_zero16(facts, ('op', 'sub', ('op', 'sub', ('c', j0), e.val), s.val)) is True for e in jn for s in st)
                    w = writes(p, (JOIN, STEAL))
                    if val:
                        if unst:
                            ck.need(not w or not reset_ok(p, 0, split(st[0].addr)[0], j0, s0, f), 'join.ready', f.where(), 'counters changed although no steal happened', f)
                        elif alldone:
                            bad = reset_ok(p, 0, split(st[0].addr)[0], j0, s0, f)
                            ck.need(not bad, 'join.ready', f.where(), 'the join completes without restoring ' + ', '.join(bad), f)
                        else:
                            ck.need(False, 'join.ready', p.end.where(), 'the join is passed on a path where neither "never stolen" nor "all stolen children reported" is established', f)
                    else:
                        ck.need(not w, 'join.ready', f.where(), 'counters modified on a path that goes on to suspend', f)
                        ck.need(stolen, 'join.ready', f.where(), 'the join suspends although the task may never have been stolen', f)
            ck.ok('join.ready', f.where(), 0)
        for f in aw(ck, mod, r'join_awaitable::await_suspend$'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    ck.bad('join.suspend', f.where(), 'exit by exception', f)
                    continue
                rm = join_rmws(p)
                if not ck.need(len(rm) == 1, 'join.suspend', f.where(), 'the join count is updated %d times on one path' % len(rm), f):
                    continue
                k, e = rm[0]
                st = [x for x in p.evs[:k] if x.kind == 'load' and x.to(STEAL)]
                d = decrement(e)
                amount = d is not None and any(lin_sub(strip_ids(d), strip_ids(('op', 'sub', ('c', j0), s.val)), U16) == ({}, 0) for s in st)
                if not ck.need(amount, 'join.suspend', e.where(), 'the amount subtracted is not J0 - steals', f):
                    continue
                win = is_zero16(p.facts, ('op', 'sub', st[0].val, ('op', 'sub', ('c', j0), ('rmw', e.i.v))))
                base = split(e.addr)[0]
                r = p.ret
                mine = r == ('arg', 1) or (self_of(f, r) is not None and same(self_of(f, r), base))
                ck.need(own_frame(f, base), 'join.suspend', e.where(), 'the updated counter is not the awaiting task\'s', f)
                if win is True:
                    ck.need(mine, 'join.suspend', p.end.where(), 'the last party to arrive does not resume the task', f)
                    bad = reset_ok(p, k, base, j0, s0, f)
                    ck.need(not bad, 'join.suspend', f.where(), 'the join completes without restoring ' + ', '.join(bad), f)
                elif win is False:
                    ck.need(not mine, 'join.suspend', p.end.where(), 'the task is resumed although a child is outstanding', f)
                    w = [x for kk, x in writes(p, (JOIN, STEAL), k + 1) if same(split(x.addr)[0], base)]
                    ck.need(not w, 'join.suspend', f.where(), 'counters of the suspended task modified after losing the join', f)
                else:
                    ck.need(False, 'join.suspend', p.end.where(), 'the outcome does not depend on "all stolen children reported"', f)
        for f in finals(ck, mod, 'fork'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                par = parent_of(f, p)
                pops = p.calls(r'deque::pop$')
                if not ck.need(par is not None and len(pops) == 1, 'final.fork', f.where(), 'a finishing forked child must read its parent once and try to pop it once', f):
                    continue
                pv = ('call', pops[0][1].i.v)
                got = p.facts.zero(pv)
                rm = join_rmws(p)
                r = p.ret
                rs = self_of(f, r)
                toparent = rs is not None and (same(rs, par) or rs == pv)
                if got is False:
                    ck.need(not rm and not writes(p, (JOIN, STEAL)), 'final.fork', f.where(), 'join counters modified although the parent was not stolen', f)
                    ck.need(toparent, 'final.fork', p.end.where(), 'the parent, taken back from the queue, is not resumed', f)
                elif got is True:
                    if not ck.need(len(rm) == 1 and same(split(rm[0][1].addr)[0], par), 'final.fork', f.where(), 'a child of a stolen parent must report exactly once to its parent', f):
                        continue
                    k, e = rm[0]
                    d = decrement(e)
                    ck.need(d is not None and linear(d, U16) == ({}, 1), 'final.fork', e.where(), 'the child does not count as exactly one', f)
                    last = is_zero16(p.facts, ('op', 'sub', ('rmw', e.i.v), ('c', 1)))
                    if last is True:
                        ck.need(toparent and rs != pv, 'final.fork', p.end.where(), 'the last child does not resume the parent', f)
                        bad = reset_ok(p, k, par, j0, s0, f)
                        ck.need(not bad, 'final.fork', f.where(), 'the parent is resumed without restoring ' + ', '.join(bad), f)
                    elif last is False:
                        ck.need(not toparent, 'final.fork', p.end.where(), 'the parent is resumed while children are outstanding', f)
                        ck.need(not writes(p, (JOIN, STEAL), k + 1), 'final.fork', f.where(), 'join counters modified after a lost race', f)
                    else:
                        ck.need(False, 'final.fork', p.end.where(), 'the outcome does not depend on being the last child', f)
                else:
                    ck.need(False, 'final.fork', f.where(), 'the outcome does not depend on whether the parent was still queued', f)
        for kind in ('call', 'root'):
            for f in finals(ck, mod, kind):
                for p in paths(f):
                    ck.need(not writes(p, (JOIN, STEAL)), 'final.other', f.where(), 'join counters modified by a finishing %s task' % kind, f)
                    if p.end.kind == 'ret' and kind == 'call':
                        rs = self_of(f, p.ret)
                        par = parent_of(f, p)
                        ck.need(rs is not None and par is not None and same(rs, par), 'final.other', f.where(), 'a finishing called task does not resume its parent', f)
                    if p.end.kind == 'ret' and kind == 'root':
                        ck.need(self_of(f, p.ret) is None, 'final.other', f.where(), 'a finishing root task resumes another task', f)
        for f in rd(ck, mod, r'^lf::resume$', 2):
            sub = is_submit_resume(f)
            nres = 0
            for p in paths(f):
                for k, e in p.calls(r'^llvm\.coro\.resume$'):
                    fr = self_of(f, e.args[0])
                    if not ck.need(fr is not None, 'steal.count', e.where(), 'resumes something that is not a task handle', f):
                        continue
                    nres += 1
                    adds = [x for kk, x in writes(p, (STEAL, JOIN), 0, k) if same_base(x.addr, fr)]
                    if sub:
                        ck.need(not adds, 'steal.count', e.where(), 'a submitted task has its join counters modified before it is resumed', f)
                    else:
                        ck.need(len(adds) == 1 and is_increment(f, adds[0], STEAL), 'steal.count', e.where(), 'a stolen task is not counted as stolen exactly once before it is resumed', f)
            if not nres:
                raise AnalysisBroken('no resumption found in ' + f.name)
        for f in aw(ck, mod, r'(context_switch|join)_awaitable::await_suspend$', 2):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                for k, e in p.calls(r'deque::pop$'):
                    pv = ('call', e.i.v)
                    if self_of(f, p.ret) == pv:
                        adds = [x for kk, x in writes(p, (STEAL, JOIN), k) if same_base(x.addr, pv)]
                        ck.need(len(adds) == 1 and is_increment(f, adds[0], STEAL), 'steal.count', e.where(), 'a task taken back from the own queue after a hand-over is not counted as stolen exactly once', f)
        for f in ck.fns(mod['core'], r'.', 'aw', 20):
            if re.search(r'join_awaitable::await_(ready|suspend)$|context_switch_awaitable::await_suspend$|promise::promise$', f.q):
                continue
            if f.q.endswith('final_awaitable::await_suspend') and final_kind(f) == 'fork':
                continue
            w = [i for i in f.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg') and aliases(f, f.operand(i.ops[1] if i.op == 'store' else i.ops[0])) & {JOIN, STEAL}]
            ck.need(not w, 'counters.closed', w[0].where() if w else f.where(), 'modifies the join counters', f)


def same_base(addr, base):
    return same(split(addr)[0], base)


def is_increment(f, e, field):
    if e.kind == 'rmw':
        return e.name == 'add' and linear(e.val, U16) == ({}, 1)
    if e.kind != 'store' or not e.to(field):
        return False
    a, c = linear(e.val, U16)
    return c == 1 and len(a) == 1 and list(a.values()) == [1] and list(a)[0][0] == 'ld' and same(list(a)[0][1], e.addr)


def is_submit_resume(f):
    d = f.d.get('ditypes') or []
    for t in d[1:]:
        n = f.T.name(f.T.pointee(t)) if f.T.is_ptr(t) else ''
        if 'node' in (f.T.t.get(f.T.pointee(t) or '', {}).get('n') or ''):
            return True
    return 'node' in f.name


def parent_of(f, p):
    """value of the child's parent pointer read on this path (a load of m_parent from the finishing frame)"""
    c = [e for e in p.evs if e.kind == 'load' and any(x.endswith('::m_parent') for x in e.flds)]
    return c[0].val if c else None


# ============================================================================ C02
def c02(ck, mods):
    ck.rule('join.release', 'every hand-over of the right to resume (decrement of a join counter) is at least a release', 4)
    ck.rule('join.acquire', 'whoever wins a join synchronises (acquire) with the decrements before it touches the task, its stack, or resumes it', 4)
    ck.rule('queue.order', 'offering a task for stealing or submission is a release, taking one is an acquire', 8)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        queue_orders(ck, mod)
        j0, s0 = initial_join(ck, mod)
        for f in aw(ck, mod, r'join_awaitable::await_suspend$') + finals(ck, mod, 'fork'):
            isjoin = 'join_awaitable' in f.q
            for p in paths(f):
                for k, e in join_rmws(p):
                    ck.need(e.i.get('order') in STRONG_REL, 'join.release', e.where(), 'decrement of the join counter is only ' + str(e.i.get('order')), f)
                    base = split(e.addr)[0]
                    if p.end.kind != 'ret':
                        continue
                    rs = self_of(f, p.ret)
                    wins = p.ret == ('arg', 1) or (rs is not None and same(rs, base)) if isjoin else (rs is not None and same(rs, base))
                    if not wins:
                        continue
                    if e.i.get('order') in ('acq_rel', 'seq_cst', 'acquire'):
                        ck.ok('join.acquire', e.where())
                        continue
                    acq = [kk for kk, x in enumerate(p.evs[k:], k) if (x.kind == 'fence' and x.name in STRONG_ACQ and not x.i.get('single')) or (x.kind == 'load' and x.to(JOIN) and x.i.get('order') in STRONG_ACQ)]
                    touch = [kk for kk, x in enumerate(p.evs[k + 1:], k + 1) if (x.kind in ('load', 'store') and not x.to(JOIN) and mentions(strip_ids(x.addr), strip_ids(base)) and not x.i.get('order') == 'monotonic' and split(x.addr)[0] != ('arg', 0)) or x.kind == 'call' or x.kind == 'ret']
                    ck.need(acq and acq[0] < touch[0], 'join.acquire', p.evs[touch[0]].where(), 'the winner of the join goes on without an acquire after the counter update', f)
        for f in aw(ck, mod, r'join_awaitable::await_ready$'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                st = [e for e in p.evs if e.kind == 'load' and e.to(STEAL)]
                jn = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'load' and e.to(JOIN)]
                facts = p.facts if p.facts.truth(p.ret) is not None else p.facts.assume(p.ret, True)
                if facts is None or facts.truth(p.ret) is False:
                    continue
                if any(is_zero16(facts, ('op', 'sub', e.val, ('c', s0))) is True for e in st):
                    continue
                good = False
                for k, e in jn:
                    if e.i.get('order') in STRONG_ACQ or any(x.kind == 'fence' and x.name in STRONG_ACQ for x in p.evs[k:]):
                        good = True
                ck.need(good, 'join.acquire', jn[0][1].where() if jn else f.where(), 'the join is passed early without an acquire load of the join counter', f)


# ============================================================================ C03
def accesses_after(p, k):
    for kk, x in enumerate(p.evs[k + 1:], k + 1):
        if x.kind in ('load', 'store', 'rmw', 'cas'):
            yield kk, x, [split(x.addr)[0]]
        elif x.kind == 'call' and not x.name.startswith('std::terminate'):
            yield kk, x, [split(a)[0] for a in (x.args or []) if a]


def forbid(ck, rule, f, p, k, bases, what, allow=lambda x: False):
    n = 0
    for kk, x, bs in accesses_after(p, k):
        n += 1
        if allow(x):
            continue
        for b in bs:
            for fb in bases:
                if same(b, fb):
                    ck.bad(rule, x.where(), 'touches %s after it was given away at %s' % (what, p.evs[k].where()), f)
                    return
    ck.ok(rule, p.evs[k].where())


def c03(ck, mods):
    ck.rule('fork.publish', 'after publishing the parent for stealing, fork does not access the parent frame or the awaitable inside it', 1)
    ck.rule('join.lost', 'after registering at a join that is not known to be won, the task is not accessed', 1)
    ck.rule('final.lost', 'after the decrement that is not known to be the last, the parent is not accessed; the finished child is not accessed after its destruction', 3)
    ck.rule('root.signal', 'after signalling completion the semaphore (future state) is not accessed', 1)
    ck.rule('switch.submitted', 'after handing a task to a context switch neither the task nor the awaitable inside it is accessed', 1)
    ck.rule('submit.published', 'after a node was pushed to a submission queue it is not accessed', 1)
    ck.rule('resume.gone', 'after resuming a task its frame is not accessed', 2)
    ck.rule('schedule.published', 'after a successful schedule() the root task and its submission record are not accessed', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in aw(ck, mod, r'fork_awaitable::await_suspend$'):
            n = 0
            for p in paths(f):
                for k, e in p.calls(r'deque::push$'):
                    if e.edge == 'unwind':
                        continue
                    n += 1
                    own = [x.val for x in p.evs[:k] if x.kind == 'load' and own_frame(f, x.val) and x.to('fork_awaitable::self')]
                    forbid(ck, 'fork.publish', f, p, k, [('arg', 0)] + own, 'the parent')
            if not n:
                ck.bad('fork.publish', f.where(), 'the parent is never published for stealing', f)
        for f in aw(ck, mod, r'join_awaitable::await_suspend$'):
            for p in paths(f):
                for k, e in join_rmws(p):
                    base = split(e.addr)[0]
                    stv = [x.val for x in p.evs[:k] if x.kind == 'load' and x.to(STEAL)]
                    j0, _ = initial_join(ck, mod)
                    won = lambda x: bool(stv) and x.facts is not None and is_zero16(x.facts, ('op', 'sub', stv[0], ('op', 'sub', ('c', j0), ('rmw', e.i.v)))) is True
                    forbid(ck, 'join.lost', f, p, k, [('arg', 0), base], 'the task waiting at the join', won)
        for kind in ('fork', 'call', 'root'):
            for f in finals(ck, mod, kind):
                for p in paths(f):
                    for k, e in p.calls(r'^llvm\.coro\.destroy$'):
                        mine = [('arg', 0)] + [('call', i.v) for i in f.insts() if i.is_call and i.callee.startswith('llvm.coro.promise')]
                        if e.args[0] in mine or any(mentions(e.args[0], m) for m in mine):
                            forbid(ck, 'final.lost', f, p, k, mine, 'the destroyed task', lambda x: x.kind == 'call' and x.name.startswith('llvm.coro.promise'))
                    if kind == 'fork':
                        for k, e in join_rmws(p):
                            base = split(e.addr)[0]
                            won = lambda x: x.facts is not None and is_zero16(x.facts, ('op', 'sub', ('rmw', e.i.v), ('c', 1))) is True
                            forbid(ck, 'final.lost', f, p, k, [base], 'the parent', won)
                    if kind == 'root':
                        for k, e in p.calls(r'::release$'):
                            forbid(ck, 'root.signal', f, p, k, [split(e.args[0])[0]] if e.args else [], 'the completion signal')
        for f in aw(ck, mod, r'context_switch_awaitable::await_suspend$', 2):
            for p in paths(f):
                hs = [(k, e) for k, e in handovers(f, p) if e.edge != 'unwind']
                for k, e in hs[:1]:
                    own = [x.val for x in p.evs[:k] if x.kind == 'load' and 'frame' in f.type_names(x.val)]
                    # the notification of the destination's own context is part of the hand-over
                    forbid(ck, 'switch.submitted', f, p, k, [('arg', 0), ('arg', 1)] + own, 'the task')
        for f in rd(ck, mod, r'^lf::worker_context::schedule$') + aw(ck, mod, r'resume_on_quasi_awaitable::await_suspend$'):
            for p in paths(f):
                for k, e in p.calls(r'intrusive_list::push$'):
                    forbid(ck, 'submit.published', f, p, k, [e.args[1]], 'the submission record')
        for f in rd(ck, mod, r'^lf::resume$', 2):
            for p in paths(f):
                rs = p.calls(r'^llvm\.coro\.resume$')
                for k, e in rs:
                    fr = self_of(f, e.args[0])
                    if fr is None:
                        continue
                    bases = [fr]
                    if is_submit_resume(f) and fr[0] == 'ld':
                        bases.append(split(fr[1])[0])   # the list node that held the task
                    forbid(ck, 'resume.gone', f, p, k, bases, 'the resumed task')
        for f in ck.fns(mod['core'], r'^lf::schedule$', 'sched', 3):
            for p in paths(f, limit=60000):
                for k, e in p.calls(r'user_sched::schedule$|_pool::schedule$'):
                    if e.edge == 'unwind':
                        continue
                    node = e.args[1]
                    frames = [split(x.addr)[0] for x in p.evs[:k] if x.kind in ('load', 'store') and any(t.startswith('frame::') for t in x.flds)]
                    forbid(ck, 'schedule.published', f, p, k, [node] + frames, 'the root task')


def handovers(f, p):
    """events by which a context switch gives the awaiting task's submission record away: a user
    switch's await_suspend, or a push to another worker's submission list"""
    r = []
    for k, e in enumerate(p.evs):
        if e.kind == 'call' and (re.search(r'::await_suspend$', e.name) or e.name.endswith('intrusive_list::push')):
            if any(split(a)[0] in (('arg', 0),) for a in e.args):
                r.append((k, e))
    return r


# ============================================================================ C04
def adoptions(f, p):
    """[(index, event, value)] of the worker's own stack pointer being replaced"""
    return [(k, e, e.val) for k, e in enumerate(p.evs) if e.kind == 'store' and tls_of(f, e.addr, 'thread_stack') and e.to('stack::m_fib')]


def releases(f, p):
    return [(k, e) for k, e in p.calls(r'stack::release$') if e.edge != 'unwind' and tls_of(f, e.args[0], 'thread_stack')]


def is_stacklet_of(f, v, base):
    return loads_field(f, v, STKLET) and same(split(v[1])[0], base)


def cur_stack(f, e):
    return e.kind == 'load' and tls_of(f, e.addr, 'thread_stack') and e.to('stack::m_fib')


def frees_old(f, p, k):
    """the stack the worker had before adopting at event k is freed"""
    return any(e.kind == 'call' and e.name == 'free' and e.args and e.args[0][0] == 'ld' and tls_of(f, e.args[0][1], 'thread_stack') for kk, e in p.calls(r'^free$'))


def c04(ck, mods):
    ck.rule('join.adopt', 'a worker that completes a join of a stolen task adopts the stack that task lives on, freeing its own empty one; a worker that does not complete it, or whose task was never stolen, keeps its own', 4)
    ck.rule('final.adopt', 'the last child of a stolen parent adopts the parent\'s stack iff it is not already on it; a child that is not the last gives its stack up iff the parent lives on it; a parent that was not stolen changes nothing', 6)
    ck.rule('resume.adopt', 'resuming a submitted task adopts its stack iff it was never stolen; resuming a stolen task does not', 2)
    ck.rule('switch.release', 'a task handed over gives its stack away with it iff it was never stolen', 2)
    ck.rule('stack.closed', 'no other awaitable changes which stack the worker owns', 10)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        j0, s0 = initial_join(ck, mod)

        def adopt_ok(rule, f, p, base, lo=0):
            ad = adoptions(f, p)
            good = len(ad) == 1 and ad[0][0] >= lo and is_stacklet_of(f, ad[0][2], base)
            ck.need(good, rule, ad[0][1].where() if ad else f.where(), 'the worker must adopt exactly the task\'s stack here (%d adoptions)' % len(ad), f)
            if good:
                ck.need(frees_old(f, p, ad[0][0]), rule, ad[0][1].where(), 'the stack the worker had before is leaked', f)
            ck.need(not releases(f, p), rule, f.where(), 'the worker releases a stack it should keep', f)

        def adopt_none(rule, f, p, why, lo=0, hi=None, rel=False):
            ad = [x for x in adoptions(f, p) if x[0] >= lo and (hi is None or x[0] < hi)]
            ck.need(not ad, rule, ad[0][1].where() if ad else f.where(), 'the worker takes a stack although ' + why, f)
            if not rel:
                rl = releases(f, p)
                ck.need(not rl, rule, rl[0][1].where() if rl else f.where(), 'the worker gives its stack up although ' + why, f)

        for f in aw(ck, mod, r'join_awaitable::await_ready$'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                st = [e for e in p.evs if e.kind == 'load' and e.to(STEAL)]
                t = p.facts.truth(p.ret)
                for val in ((t,) if t is not None else (True, False)):
                    facts = p.facts.assume(p.ret, val)
                    if facts is None:
                        continue
                    stolen = not any(is_zero16(facts, ('op', 'sub', e.val, ('c', s0))) is True for e in st)
                    if val and stolen and st:
                        adopt_ok('join.adopt', f, p, split(st[0].addr)[0])
                    else:
                        adopt_none('join.adopt', f, p, 'the task is not resumed here from another stack')
        for f in aw(ck, mod, r'join_awaitable::await_suspend$'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                for k, e in join_rmws(p)[:1]:
                    base = split(e.addr)[0]
                    st = [x for x in p.evs[:k] if x.kind == 'load' and x.to(STEAL)]
                    win = bool(st) and is_zero16(p.facts, ('op', 'sub', st[0].val, ('op', 'sub', ('c', j0), ('rmw', e.i.v))))
                    if win:
                        adopt_ok('join.adopt', f, p, base, k)
                    else:
                        adopt_none('join.adopt', f, p, 'it lost the join race')
        for f in finals(ck, mod, 'fork'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                par = parent_of(f, p)
                pops = p.calls(r'deque::pop$')
                if par is None or not pops:
                    ck.bad('final.adopt', f.where(), 'cannot see the parent or the queue', f)
                    continue
                if p.facts.zero(('call', pops[0][1].i.v)) is False:
                    adopt_none('final.adopt', f, p, 'the parent was not stolen')
                    continue
                rm = join_rmws(p)
                if not rm:
                    continue
                k, e = rm[0]
                last = is_zero16(p.facts, ('op', 'sub', ('rmw', e.i.v), ('c', 1)))
                pst = [x.val for x in p.evs if x.kind == 'load' and is_stacklet_of(f, x.val, par)]
                cst = [x.val for x in p.evs if cur_stack(f, x)]
                eq = None
                for a in pst:
                    for b in cst:
                        t = p.facts.zero(('op', 'sub', a, b))
                        eq = t if t is not None else eq
                if last is True and eq is False:
                    adopt_ok('final.adopt', f, p, par, k)
                elif last is True and eq is True:
                    adopt_none('final.adopt', f, p, 'it already lives on the parent\'s stack')
                elif last is False and eq is True:
                    rl = releases(f, p)
                    ck.need(len(rl) == 1, 'final.adopt', f.where(), 'the child stays on the stack of the parent it left behind (%d releases)' % len(rl), f)
                    adopt_none('final.adopt', f, p, 'it lost the race', rel=True)
                elif last is False and eq is False:
                    adopt_none('final.adopt', f, p, 'the parent lives on another stack')
                else:
                    ck.need(False, 'final.adopt', p.end.where(), 'the stack decision does not depend on "last child" and "parent lives on this stack"', f)
        for f in rd(ck, mod, r'^lf::resume$', 2):
            sub = is_submit_resume(f)
            for p in paths(f):
                prev = 0
                for k, e in p.calls(r'^llvm\.coro\.resume$'):
                    fr = self_of(f, e.args[0])
                    if fr is None:
                        continue
                    ad = [x for x in adoptions(f, p) if prev <= x[0] < k]
                    if sub:
                        z = [is_zero16(e.facts, ('op', 'sub', x.val, ('c', s0))) for x in p.evs[prev:k] if x.kind == 'load' and x.to(STEAL) and same_base(x.addr, fr)]
                        z = [x for x in z if x is not None]
                        if not ck.need(bool(z), 'resume.adopt', e.where(), 'a submitted task is resumed without asking whether it was stolen', f):
                            continue
                        if z[0]:
                            ck.need(len(ad) == 1 and is_stacklet_of(f, ad[0][2], fr), 'resume.adopt', e.where(), 'the stack of a never stolen task is not adopted (%d adoptions)' % len(ad), f)
                            if ad:
                                ck.need(frees_old(f, p, ad[0][0]), 'resume.adopt', e.where(), 'the stack the worker had before is leaked', f)
                        else:
                            ck.need(not ad, 'resume.adopt', e.where(), 'the stack of a stolen task is adopted', f)
                    else:
                        ck.need(not ad, 'resume.adopt', e.where(), 'a thief takes the stack of the task it stole', f)
                    rl = [x for x in releases(f, p) if prev <= x[0] < k]
                    ck.need(not rl, 'resume.adopt', e.where(), 'gives a stack up before resuming', f)
                    prev = k + 1
        for f in aw(ck, mod, r'context_switch_awaitable::await_suspend$', 2):
            for p in paths(f):
                hs = handovers(f, p)
                if p.end.kind != 'ret' and not any(e.edge == 'normal' for k, e in hs):
                    ck.need(not releases(f, p) and not adoptions(f, p), 'switch.release', f.where(), 'the stack changes hands although the hand-over failed', f)
                    continue
                if p.end.kind != 'ret':
                    continue
                k = hs[0][0] if hs else len(p.evs)
                z = [is_zero16(p.facts, ('op', 'sub', x.val, ('c', s0))) for x in p.evs[:k] if x.kind == 'load' and x.to(STEAL)]
                z = [x for x in z if x is not None]
                rl = releases(f, p)
                if not ck.need(bool(z), 'switch.release', f.where(), 'the hand-over does not ask whether the task was stolen', f):
                    continue
                if z[0]:
                    ck.need(len(rl) == 1, 'switch.release', f.where(), 'the stack of a never stolen task is not given away with it (%d releases)' % len(rl), f)
                else:
                    ck.need(not rl, 'switch.release', f.where(), 'the worker gives away a stack the task does not live on', f)
                adopt_none('switch.release', f, p, 'it handed its task over', rel=True)
        for f in ck.fns(mod['core'], r'.', 'aw', 20):
            if re.search(r'join_awaitable::await_(ready|suspend)$|context_switch_awaitable::await_suspend$', f.q) or (f.q.endswith('final_awaitable::await_suspend') and final_kind(f) == 'fork'):
                continue
            bad = []
            for i in f.insts():
                if i.op == 'store' and tls_of(f, f.operand(i.ops[1]), 'thread_stack') and 'stack::m_fib' in aliases(f, f.operand(i.ops[1])):
                    bad.append(i)
                if i.is_call and callee_q(i).endswith('stack::release'):
                    bad.append(i)
            ck.need(not bad, 'stack.closed', bad[0].where() if bad else f.where(), 'changes which stack the worker owns', f)


# ============================================================================ C24
def c24(ck, mods):
    ck.rule('switch.once', 'suspending for a context switch hands the task\'s own submission record over exactly once and never resumes the task itself', 2)
    ck.rule('switch.ready', 'the switch itself decides whether to suspend: its answer is returned unchanged', 1)
    ck.rule('switch.useful', 'the abandoned worker continues with a task from its own queue if there is one, otherwise goes idle', 2)
    ck.rule('switch.throw', 'an exception while handing over leaves through the awaiting task without touching queue or stack', 1)
    ck.rule('resume_on.noop', 'resume_on is ready iff the destination is the worker running the task, and otherwise submits to the destination', 2)
    ck.rule('switch.node', 'the submission record handed over holds the awaiting task', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in aw(ck, mod, r'context_switch_awaitable::await_suspend$', 2):
            for p in paths(f):
                hs = handovers(f, p)
                if not ck.need(len(hs) == 1, 'switch.once', f.where(), 'the task is handed over %d times on one path' % len(hs), f):
                    continue
                k, e = hs[0]
                if e.edge == 'unwind' or p.end.kind in ('unwind',):
                    bad = [x for x in p.evs[k:] if x.kind == 'call' and re.search(r'deque::|stack::', x.name)] + [x for x in p.evs if x.kind == 'call' and re.search(r'deque::(pop|push|steal)$|stack::release$', x.name)]
                    ck.need(not bad, 'switch.throw', bad[0].where() if bad else e.where(), 'queue or stack changed although the hand-over failed', f)
                    continue
                if p.end.kind != 'ret':
                    continue
                pops = [(kk, x) for kk, x in p.calls(r'deque::pop$')]
                if not ck.need(len(pops) == 1 and pops[0][0] > k, 'switch.useful', f.where(), 'after the hand-over the own queue must be asked for work exactly once', f):
                    continue
                pv = ('call', pops[0][1].i.v)
                got = p.facts.zero(pv)
                rs = self_of(f, p.ret)
                if got is False:
                    ck.need(rs == pv, 'switch.useful', p.end.where(), 'the task taken from the queue is not what the worker continues with', f)
                else:
                    ck.need(got is True and rs is None and p.ret != ('arg', 1), 'switch.useful', p.end.where(), 'with an empty queue the worker must go idle', f)
                ck.need(p.ret != ('arg', 1) and not (rs is not None and split(rs)[0] == ('arg', 0)), 'switch.once', p.end.where(), 'the task handed over is also resumed here', f)
        for f in aw(ck, mod, r'context_switch_awaitable::await_ready$', 2):
            for p in paths(f):
                us = p.calls(r'user_switch::await_ready$')
                if us and p.end.kind == 'ret':
                    ck.need(len(us) == 1 and p.ret == ('call', us[0][1].i.v), 'switch.ready', f.where(), 'the answer of the context switch is not passed on', f)
        for f in aw(ck, mod, r'(resume_on_quasi_awaitable|context_switch_awaitable)::await_ready$', 2):
            if 'user_switch' in f.name or 'user_switch' in (f.d.get('qual') or ''):
                continue
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                t = p.facts.truth(p.ret)
                for val in ((t,) if t is not None else (True, False)):
                    facts = p.facts.assume(p.ret, val)
                    if facts is None:
                        continue
                    ds = [x.val for x in p.evs if x.kind == 'load' and x.to('resume_on_quasi_awaitable::m_dest')]
                    cmpd = [facts.zero(('op', 'sub', d, g)) for d in ds for g in tls_ctx_exprs(f)]
                    cmpd = [c for c in cmpd if c is not None]
                    ck.need(bool(cmpd) and cmpd[0] == val, 'resume_on.noop', p.end.where(), 'resume_on must be a no-op exactly when the destination is the current worker', f)
        for f in aw(ck, mod, r'resume_on_quasi_awaitable::await_suspend$'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                ps = p.calls(r'intrusive_list::push$')
                ck.need(len(ps) == 1 and mentions(ps[0][1].args[1], ('arg', 1)) and loads_field(f, split(ps[0][1].args[0])[0], 'resume_on_quasi_awaitable::m_dest'), 'resume_on.noop', f.where(), 'resume_on must submit the given record to the destination exactly once', f)
        for f in ck.fns(mod['core'], r'await_transform$', 'xf', 2):
            for p in paths(f):
                st = [e for e in p.evs if e.kind == 'store' and e.to('context_switch_awaitable::self') or (e.kind == 'store' and 'node::m_data' in e.flds)]
                if 'context_switch_awaitable' not in ' '.join(f.T.name(t) for t in (f.d.get('ditypes') or [])[:1]):
                    continue
                good = [e for e in st if e.to('context_switch_awaitable::self') or e.to('node::elem')]
                vals = [e.val for e in st]
                ck.need(any(v == ('arg', own_arg(f)) or split(v)[0] == ('arg', own_arg(f)) for v in vals), 'switch.node', f.where(), 'the submission record does not hold the awaiting task', f)


def own_arg(f):
    """index of `this` (skips a hidden result pointer)"""
    return f.d.get('sretn', 0)


def tls_ctx_exprs(f):
    return [e for e in {split(f.operand(o))[0] for i in f.insts() for o in (i.ops or []) if 'v' in o or 'g' in o} if e[0] == 'g' and e[1].endswith('::thread_context')]
