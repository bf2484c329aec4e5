"""Rules over exception capture and delivery: children -> parent -> join (C15), eager and sync
dispatch (C16), eventual results (C17)."""
from ..kit import *
from .frames import own_frame, aw, is_zero16, STEAL, JOIN, same_base

FLAG, EPTR = 'frame::m_except', 'frame::m_eptr'


def flag_zero(facts, v):
    """truth of "the flag value v is clear" (v may have been masked to its low bit)"""
    for e in (v, ('op', 'and', v, ('c', 1)), ('op', 'and', ('c', 1), v)):
        t = facts.zero(e)
        if t is not None:
            return t
        t = facts.truth(e)
        if t is not None:
            return not t
    return None


def flag_events(f, p, base, kinds=('load', 'store', 'rmw', 'cas')):
    return [(k, e) for k, e in enumerate(p.evs) if e.kind in kinds and e.to(FLAG) and same_base(e.addr, base)]


def at_eptr(f, addr, base):
    """does addr designate the stored exception of frame `base`?"""
    b, o = split(addr)
    return same(b, base) and EPTR in aliases(f, addr) | aliases(f, strip_ids(addr))


def eptr_off(ck, mod):
    """offset of the stored exception inside a frame, read off the addresses used"""
    for f in aw(ck, mod, r'::await_resume$|promise::unhandled_exception$'):
        for i in f.insts():
            if i.op in ('load', 'store'):
                a = f.operand(i.ops[0] if i.op == 'load' else i.ops[1])
                if EPTR in aliases(f, a):
                    return split(a)[1]
    raise AnalysisBroken('cannot locate the stored exception of a frame')


def eptr_events(f, p, base, off):
    """stores / loads / calls on the stored exception of `base`"""
    out = []
    for k, e in enumerate(p.evs):
        if e.kind in ('load', 'store', 'rmw', 'cas'):
            b, o = split(e.addr)
            if o == off and same(b, base) and 'frame::m_except' not in e.flds:
                out.append((k, e))
        elif e.kind == 'call' and any(split(a)[1] == off and same(split(a)[0], base) for a in e.args) and 'exception_ptr' in e.name:
            out.append((k, e))
    return out


def check_capture(ck, rule, f, p, base, off):
    """on path p the current exception is stored in `base` iff no other one was before"""
    if p.end.kind != 'ret':
        return ck.bad(rule, f.where(), 'storing the exception may itself exit by exception', f)
    fl = flag_events(f, p, base)
    claims = [(k, e) for k, e in fl if e.kind in ('rmw', 'cas')]
    w = [(k, e) for k, e in eptr_events(f, p, base, off) if e.kind != 'load']
    if not ck.need(len(claims) == 1 and not [1 for k, e in fl if e.kind == 'store'], rule, f.where(), 'the right to store the exception is not claimed by one atomic exchange of the flag', f):
        return
    k, e = claims[0]
    if e.kind == 'rmw':
        good = (e.name == 'xchg' and e.val[0] == 'c' and e.val[1] & 1) or (e.name == 'or' and e.val[0] == 'c' and e.val[1] & 1)
        if not ck.need(good, rule, e.where(), 'the exchange does not set the flag', f):
            return
        first = flag_zero(p.facts, ('rmw', e.i.v))
    else:
        ck.need(e.val[0] == 'c' and e.val[1] & 1 and e.args[0] == ('c', 0), rule, e.where(), 'the exchange does not set the flag', f)
        first = p.facts.truth(('ev', ('cas', e.i.v), (1,)))
        if first is None and not e.i.get('weak'):
            first = flag_zero(p.facts, ('ev', ('cas', e.i.v), (0,)))
    if not ck.need(first is not None, rule, e.where(), 'whether the exception is stored does not depend on being the first', f):
        return
    if first:
        cur = {split(c.args[0])[0]: j for j, c in p.calls(r'^std::current_exception$') if c.args}
        st = [(j, x) for j, x in w if x.kind == 'store']
        direct = [(j, x) for j, x in p.calls(r'^std::current_exception$') if x.args and split(x.args[0])[1] == off and same(split(x.args[0])[0], base)]
        ok = len(direct) == 1 and not st and direct[0][0] > k
        if len(st) == 1 and not direct and st[0][0] > k:
            v = st[0][1].val
            ok = v[0] == 'ld' and split(v[1])[0] in cur and cur[split(v[1])[0]] < st[0][0]
        ck.need(ok, rule, st[0][1].where() if st else e.where(), 'the first exception is not stored exactly once, after the flag was claimed', f)
    else:
        ck.need(not w, rule, (w[0][1] if w else e).where(), 'a later exception touches the stored one, which another worker may be writing', f)


def check_rethrow(ck, rule, f, p, base, off, k):
    """event k rethrows the exception stored in `base`; afterwards the frame holds none"""
    e = p.evs[k]
    h = Heap(p)
    arg = h.evs[k].args[0]
    b, o = split(arg)
    v = h.get(b, o)
    got = v is not None and v[0] == 'm0' and split(v[1])[1] == off and same(split(v[1])[0], h.rw(base))
    # the map holds end-of-path values; recover the value at the call
    src = None
    for j in range(k - 1, -1, -1):
        x = h.evs[j]
        if x.kind == 'store' and split(x.addr) == (b, o):
            src = x.val
            break
    if src is None and b[0] != 'alloca':
        src = ('m0', arg)
    got = src is not None and src[0] == 'm0' and split(src[1])[1] == off and same(split(src[1])[0], h.rw(base))
    ck.need(got, rule, e.where(), 'what is thrown is not the stored exception', f)
    fl = [x for j, x in flag_events(f, p, base, ('store', 'rmw', 'cas'))]
    clear = bool(fl) and fl[-1].kind == 'store' and fl[-1].val == ('c', 0)
    if fl and fl[-1].kind == 'rmw':
        clear = fl[-1].name == 'xchg' and fl[-1].val == ('c', 0)
    ck.need(clear, rule, e.where(), 'the exception flag is still set after the exception was delivered', f)
    ev = eptr_events(f, p, base, off)
    nul = [j for j, x in ev if x.kind == 'store' and x.val == ('c', 0)]
    # once the pointer has been nulled a release of it does nothing
    rel = [j for j, x in ev if x.kind == 'call' and re.search(r'_M_release$|~exception_ptr$', x.name) and (not nul or j < nul[0])]
    ck.need(len(rel) == (0 if nul else 1), rule, e.where(), 'the stored exception is %s' % ('leaked' if not rel else 'released twice'), f)


def exits(p):
    """how a path of an await_resume ends: ('ret',), ('real', k), ('subst', k), ('other', k)"""
    if p.end.kind == 'ret':
        return ('ret', None)
    if p.end.kind == 'unwind':
        for k in range(len(p.evs) - 1, -1, -1):
            e = p.evs[k]
            if e.kind == 'call' and e.edge == 'unwind':
                if e.name == 'std::rethrow_exception':
                    return ('real', k)
                if e.name in ('__cxa_throw', '__cxa_rethrow'):
                    return ('subst', k)
                return ('other', k)
    return ('other', len(p.evs) - 1)


def self_base(f, p):
    """the awaiting frame: the frame pointer member this awaitable reads its flag / counters through"""
    for e in p.evs:
        if e.kind == 'load' and (e.to(FLAG) or e.to(STEAL) or e.to(JOIN)):
            b = split(e.addr)[0]
            if own_frame(f, b):
                return b
    return None


def c15(ck, mods):
    ck.rule('capture.parent', 'an exception leaving a task whose result slot cannot hold it is stored in the parent the task recorded: one atomic exchange claims the flag, the first claimer stores the current exception exactly once, a later one writes nothing', 6)
    ck.rule('capture.slot', 'an exception leaving a task whose result slot holds exceptions is stored in that slot, not in the parent', 4)
    ck.rule('capture.stash', 'stash_exception() stores the current exception in the task\'s own frame under the same protocol', 2)
    ck.rule('capture.frame', 'the first argument a task uses to stash exceptions names the task\'s own frame', 4)
    ck.rule('join.deliver', 'resuming from a join returns only if no exception is stored, otherwise throws exactly the stored one and leaves the frame clean (flag clear, exception released once)', 4)
    ck.rule('start.clean', 'a new frame starts without an exception', 4)
    ck.rule('closed', 'no other function of the awaitables, final suspension or promise touches the stored exception', 40)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        off = eptr_off(ck, mod)
        for f in aw(ck, mod, r'^lf::impl::promise::unhandled_exception$', 8):
            targs = f.d.get('qual') or f.name
            slot = re.search(r'basic_eventually<.*?, true>\s*\*|future_shared_state', targs) is not None
            for p in paths(f):
                par = [e for e in p.evs if e.kind == 'load' and any(x.endswith('::m_parent') for x in e.flds) and split(e.addr)[0] == ('arg', 0)]
                if slot:
                    bad = [e for e in p.evs if e.kind in ('rmw', 'cas', 'store') and e.to(FLAG)]
                    cur = p.calls(r'^std::current_exception$')
                    ck.need(not bad and len(cur) == 1, 'capture.slot', f.where(), 'the exception is not stored (only) in the result slot', f)
                    continue
                bases = {split(e.addr)[0] for e in p.evs if e.kind in ('rmw', 'cas') and e.to(FLAG)}
                if not ck.need(len(bases) == 1 and len(par) >= 1 and any(same(next(iter(bases)), e.val) for e in par), 'capture.parent', f.where(), 'the exception is not stored in the task\'s parent', f):
                    continue
                check_capture(ck, 'capture.parent', f, p, next(iter(bases)), off)
        for f in ck.fns(mod['core'], r'first_arg_t::stash_exception$', 'stash', 1):
            for p in paths(f):
                bases = {split(e.addr)[0] for e in p.evs if e.kind in ('rmw', 'cas') and e.to(FLAG)}
                if not ck.need(len(bases) == 1 and next(iter(bases))[0] == 'ld' and split(next(iter(bases))[1])[0] == ('arg', 0), 'capture.stash', f.where(), 'the exception is not stored in the frame of the task', f):
                    continue
                check_capture(ck, 'capture.stash', f, p, next(iter(bases)), off)
        for f in aw(ck, mod, r'^lf::impl::promise::promise$', 3):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                st = [e for e in p.evs if e.kind == 'store' and any(x.endswith('first_arg_t::m_frame') for x in e.flds)]
                ck.need(len(st) >= 1 and split(st[-1].val)[0] == ('arg', 0), 'capture.frame', f.where(), 'the first argument of a task does not name the task\'s frame', f)
                z = [e for e in p.evs if e.kind == 'store' and e.to(FLAG)]
                ck.need(len(z) >= 1 and z[-1].val == ('c', 0), 'start.clean', f.where(), 'a frame starts with an exception pending', f)
        for f in aw(ck, mod, r'join_awaitable::await_resume$'):
            deliver(ck, 'join.deliver', f, off, lambda p, b, how: how == 'real', 'an exception of a child is not rethrown as it is')
        for f in ck.fns(mod['core'], r'.', 'aw', 20):
            if re.search(r'promise::(promise|unhandled_exception)$|::await_resume$', f.q):
                continue
            w = [i for i in f.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg') and FLAG in aliases(f, f.operand(i.ops[1] if i.op == 'store' else i.ops[0])) or i.is_call and 'exception_ptr' in (i.callee or '')]
            ck.need(not w, 'closed', w[0].where() if w else f.where(), 'touches the stored exception of a frame', f)
        for f in aw(ck, mod, r'(fork|call|context_switch|alloc)_awaitable::await_resume$'):
            if re.search(r'sync_fork|eager_call', f.q):
                continue
            w = [i for i in f.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg') and FLAG in aliases(f, f.operand(i.ops[1] if i.op == 'store' else i.ops[0]))]
            ck.need(not w, 'closed', w[0].where() if w else f.where(), 'touches the stored exception of a frame', f)


def deliver(ck, rule, f, off, throw_ok, msg, when=None, rets=None):
    """every path of await_resume f delivers the frame's exception: `when(p, base)` says whether the
    point is one at which exceptions are delivered (None: always)"""
    n = 0
    for p in paths(f):
        base = self_base(f, p)
        how, k = exits(p)
        if p.end.kind == 'unreachable':
            continue
        if not ck.need(base is not None, rule, f.where(), 'the state of the awaiting task is not consulted', f):
            continue
        n += 1
        if how == 'other':
            ck.bad(rule, p.evs[k].where(), 'exits by an exception that is not the child\'s', f)
            continue
        fl = flag_events(f, p, base, ('load', 'rmw'))
        zs = [flag_zero(p.facts, e.val if e.kind == 'load' else ('rmw', e.i.v)) for j, e in fl]
        here = True if when is None else when(p, base)
        if how == 'ret':
            if rets is not None:
                rets(p, base, here)
            ck.need(here is False or True in zs, rule, p.end.where(), 'continues without having found that no exception is stored', f)
            wr = flag_events(f, p, base, ('store', 'rmw', 'cas'))
            ck.need(not wr, rule, (wr[0][1] if wr else p.end).where(), 'the exception flag is changed although nothing is thrown', f)
            ck.need(not [1 for j, e in eptr_events(f, p, base, off) if e.kind != 'load'], rule, f.where(), 'the stored exception is changed although nothing is thrown', f)
            continue
        ck.need(here is not False, rule, p.evs[k].where(), 'throws at a point where no exception is to be delivered', f)
        ck.need(False in zs, rule, p.evs[k].where(), 'throws although no exception is stored', f)
        ck.need(throw_ok(p, base, how), rule, p.evs[k].where(), msg, f)
        if how == 'real':
            check_rethrow(ck, rule, f, p, base, off, k)
        else:
            wr = flag_events(f, p, base, ('store', 'rmw', 'cas'))
            ck.need(not wr, rule, (wr[0][1] if wr else p.end).where(), 'a substitute is thrown and the pending exception is forgotten', f)
            ck.need(not [1 for j, e in eptr_events(f, p, base, off)], rule, p.evs[k].where(), 'the stored exception is touched while a sibling may be writing it', f)
    return n


# ============================================================================ C16
MODS = {'none': None, 'eager_throw': False, 'eager_throw_outside': True, 'sync': False, 'sync_outside': True}


def c16(ck, mods):
    ck.rule('eager.resume', 'the resumption of an eager call returns only if no exception is stored; it throws the stored one (and cleans up) when no sibling can run (declared outside a fork-join scope, or never stolen) and a substitute that leaves the stored one in place otherwise', 4)
    ck.rule('sync.resume', 'a sync fork reports completion iff the steal count equals the one before the fork, and then, if the child stores exceptions in the parent, under the same delivery rule', 6)
    ck.rule('sync.nothrow', 'when the result slot captures exceptions a sync fork or eager call throws nothing and leaves the frame\'s exception alone', 2)
    ck.rule('sync.before', 'a sync fork remembers the awaiting task\'s own steal count from before the child starts, and every such awaitable names the awaiting task', 2)
    ck.rule('plain', 'unmodified forks and calls deliver nothing before the join', 2)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        off = eptr_off(ck, mod)
        res = {}
        for f in aw(ck, mod, r'_awaitable::await_resume$', 4):
            t = f.d.get('ditypes') or []
            if len(t) > 1:
                res.setdefault(f.T.name(f.T.pointee(t[1])), f)
        # base classes: an awaitable without its own await_resume inherits one
        done = set()
        for f in ck.fns(mod['core'], r'promise_base::await_transform$', 'xf', 6):
            m = re.search(r'await_transform<(.*), (.*?), \(lf::core::tag\)(\d), lf::core::modifier::(\w+)>', f.d.get('qual') or '')
            if not m:
                continue
            slot, tag, md = m.group(1) + ', ' + m.group(2), m.group(3), m.group(4)
            if md not in MODS:
                raise AnalysisBroken('unknown modifier ' + md)
            throwing = re.search(r'basic_eventually<.*, true>', slot) is None
            rt = f.T.name(f.d['ditypes'][0])
            g = res.get(rt)
            if g is None:
                raise AnalysisBroken('no await_resume for ' + rt)
            excl = MODS[md]
            for p in paths(f):
                if p.end.kind != 'ret':
                    ck.bad('sync.before', f.where(), 'building the awaitable may throw', f)
            if md.startswith('sync'):
                before(ck, f)
            if (rt, md, throwing) in done:
                continue
            done.add((rt, md, throwing))
            if md == 'none' or (not throwing and md.startswith('eager')):
                rule = 'plain' if md == 'none' else 'sync.nothrow'
                for p in paths(g):
                    ck.need(p.end.kind == 'ret' and not [e for e in p.evs if e.kind in ('store', 'rmw', 'cas') and e.to(FLAG)], rule, g.where(), 'an exception is delivered where none may be', g)
                continue
            if md.startswith('eager'):
                def ok(p, base, how, excl=excl):
                    if excl:
                        return how == 'real'
                    z = stolen(p, base)
                    return how == ('real' if z is True else 'subst' if z is False else '')
                deliver(ck, 'eager.resume', g, off, ok, 'throws %s' % ('a substitute although the child\'s exception is accessible' if excl else 'the wrong one of stored exception and substitute for whether siblings may run'))
                continue
            # sync forks
            def when(p, base):
                return synced(p, base)

            def ok(p, base, how, excl=excl):
                if excl:
                    return how == 'real'
                z = stolen(p, base)
                return how == ('real' if z is True else 'subst' if z is False else '')

            def rets(p, base, here, g=g):
                for val, facts in outcomes(p):
                    s = synced(p, base, facts)
                    ck.need(s is not None and s == val, 'sync.resume', p.end.where(), 'reports %s completion although the continuation was %s' % ('synchronous' if val else 'asynchronous', 'stolen' if s is False else 'not stolen' if s else 'possibly stolen'), g)
            if throwing:
                deliver(ck, 'sync.resume', g, off, ok, 'throws the wrong one of stored exception and substitute for whether siblings may run', when, rets)
            else:
                for p in paths(g):
                    if p.end.kind == 'unreachable':
                        continue
                    base = self_base(g, p)
                    if ck.need(p.end.kind == 'ret' and base is not None and not [e for e in p.evs if e.kind in ('store', 'rmw', 'cas')and e.to(FLAG)], 'sync.nothrow', g.where(), 'an exception is delivered where none may be', g):
                        rets(p, base, None)
        if len(done) < 8:
            raise AnalysisBroken('only %d (awaitable, modifier, slot) combinations found' % len(done))


def outcomes(p):
    r = p.ret
    t = p.facts.truth(r)
    if t is None and r[0] == 'c':
        t = bool(r[1])
    if t is not None:
        return [(t, p.facts)]
    return [(v, nf) for v in (True, False) for nf in [p.facts.assume(r, v)] if nf is not None]


def stolen(p, base):
    """True: known never stolen; False: known stolen; None: unknown"""
    for e in p.evs:
        if e.kind == 'load' and e.to(STEAL) and same_base(e.addr, base):
            z = is_zero16(p.facts, e.val)
            if z is not None:
                return z
    return None


def synced(p, base, facts=None):
    facts = facts if facts is not None else p.facts
    now = [e for e in p.evs if e.kind == 'load' and e.to(STEAL) and same_base(e.addr, base)]
    pre = [e for e in p.evs if e.kind == 'load' and any(x.endswith('::steals_pre') for x in e.flds) and split(e.addr)[0] == ('arg', 0)]
    if not pre:      # the remembered count under another name: a 16-bit member of the awaitable itself
        pre = [e for e in p.evs if e.kind == 'load' and split(e.addr)[0] == ('arg', 0) and e.i.get('ty') == 'i16']
    for a in now:
        for b in pre:
            z = is_zero16(facts, ('op', 'sub', a.val, b.val))
            if z is not None:
                return z
    return None


def before(ck, f):
    """await_transform of a sync fork stores this->m_steal in the awaitable"""
    for p in paths(f):
        if p.end.kind != 'ret':
            continue
        ld = [e for e in p.evs if e.kind == 'load' and e.to(STEAL) and split(e.addr)[0] == ('arg', 1)] or [e for e in p.evs if e.kind == 'load' and e.to(STEAL) and split(e.addr)[0][0] == 'arg']
        st = [e for e in p.evs if e.kind == 'store' and e.val[0] == 'ld' and any(same(e.val, x.val) for x in ld)]
        me = [e for e in p.evs if e.kind == 'store' and split(e.val)[0][0] == 'arg' and any(x.endswith('::self') for x in e.flds)]
        ck.need(len(ld) >= 1 and len(st) == 1, 'sync.before', f.where(), 'the awaitable does not remember the steal count from before the fork', f)
        ck.need(len(me) >= 1 and ld and split(me[-1].val)[0] == split(ld[0].addr)[0], 'sync.before', f.where(), 'the awaitable does not name the awaiting task', f)
