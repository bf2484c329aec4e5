"""Worker registration, submission and stealing (C11, C12, C31)."""
from ..kit import *
from .pools import core, loops, order_of

RESUME = r'^lf::(core::|ext::)?resume$'
MLT = 'lf::impl::manual_lifetime::'


# ----------------------------------------------------------------------------- C11
def flag_of(fn, addr):
    """name of the thread-local registration flag `addr` designates, or None"""
    base, off = split(addr)
    if base[0] != 'g':
        return None
    g = fn.mod.globals.get(base[2])
    if not g or not g.get('tls') or base[1].endswith('::thread_context') or base[1].endswith('::thread_stack'):
        return None
    return base[1]


def registered(fn, p):
    """(was the worker registered on entry?, is the path consistent with the flags agreeing?)"""
    seen = set()
    written = set()
    for e in p.evs:
        if e.kind == 'store' and flag_of(fn, e.addr):
            written.add(flag_of(fn, e.addr))
        if e.kind == 'load' and flag_of(fn, e.addr) and flag_of(fn, e.addr) not in written:
            z = p.facts.zero(e.val)
            if z is None:
                z = p.facts.zero(('op', 'and', e.val, ('c', 1)))
            if z is not None:
                seen.add(not z)
    if len(seen) > 1:
        return None, False
    return (seen.pop() if seen else None), True


def objects(fn, p):
    """what a path does to the thread's context and stack: lists of 'construct' / 'destroy'"""
    out = {'thread_context': [], 'thread_stack': []}
    for k, e in enumerate(p.evs):
        if e.kind == 'call' and e.name in (MLT + 'construct', MLT + 'destroy'):
            for w in out:
                if tls_of(fn, e.args[0], w):
                    if e.edge == 'unwind' and e.name.endswith('construct'):
                        continue
                    out[w].append((e.name.rsplit('::', 1)[1], k, e))
    return out


def flags_final(fn, p):
    out = {}
    for e in p.evs:
        if e.kind == 'store' and flag_of(fn, e.addr):
            out[flag_of(fn, e.addr)] = e.val
    return out


def c11(ck, mods):
    ck.rule('init.twice', 'worker_init on a registered thread raises an error and touches neither the objects nor the flags', 1)
    ck.rule('init.all', 'a successful worker_init constructs context and stack once, sets every registration flag, and returns the context it constructed', 1)
    ck.rule('init.none', 'a failing worker_init destroys whatever it constructed, leaves every flag clear and does not return', 1)
    ck.rule('init.report', 'no failure while the context or the stack of a worker is constructed is turned into termination', 2)
    ck.rule('fin.check', 'finalize with a foreign context, or on an unregistered thread, raises an error and changes nothing', 2)
    ck.rule('fin.all', 'a successful finalize destroys context and stack once and clears every registration flag', 1)
    ck.rule('pair', 'every worker loop finalises exactly the context it initialised, on every way out', 3)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = core(mod)
        ini = ck.fns(mod, r'^lf::(ext::)?worker_init$', 'tls')
        fin = ck.fns(mod, r'^lf::(ext::)?finalize$', 'tls')
        allflags = set()
        for f in ini + fin:
            for i in f.insts():
                if i.op in ('load', 'store') and flag_of(f, f.operand(i.ops[-1] if i.op == 'store' else i.ops[0])):
                    allflags.add(flag_of(f, f.operand(i.ops[-1] if i.op == 'store' else i.ops[0])))
        if not allflags:
            raise AnalysisBroken('no registration flag found')
        for f in ini:
            worker_init(ck, f, allflags)
        for f in fin:
            finalize(ck, f, allflags)
        for f in ck.fns(mod, r'^lf::impl::manual_lifetime::construct$', 'ctor', 2):
            t = terminating(f)
            for i, c in t:
                ck.bad('init.report', i.where(), 'a failure of %s while a worker is initialised terminates the program instead of being reported' % (c or 'a call'), f)
            ck.ok('init.report', f.where(), 1 + sum(1 for i in f.insts() if i.is_call and may_unwind(i)))
        loops(ck, mod, {'pair'})


def worker_init(ck, f, allflags):
    ok_paths = 0
    for p in paths(f):
        reg, feasible = registered(f, p)
        if not feasible or p.end.kind not in ('ret', 'unwind'):
            continue
        ob = objects(f, p)
        fl = flags_final(f, p)
        ops = [x for v in ob.values() for x in v]
        w = f.where()
        if reg is None:
            ck.bad('init.twice', w, 'a worker is initialised without testing whether the thread already is one', f)
            continue
        if reg:
            ck.need(p.end.kind == 'unwind' and not ops and not fl, 'init.twice', w, 'initialising a registered worker again is not refused, or disturbs its context, stack or registration', f)
            continue
        if p.end.kind == 'ret':
            ok_paths += 1
            ctx, st = ob['thread_context'], ob['thread_stack']
            one = [len(x) == 1 and x[0][0] == 'construct' for x in (ctx, st)]
            ck.need(all(one), 'init.all', w, 'a worker is registered without both its context and its stack having been constructed exactly once', f)
            ck.need(set(fl) == allflags and all(p.facts.zero(v) is False or v == ('c', 1) for v in fl.values()), 'init.all', w, 'a successful initialisation does not set every registration flag', f)
            r = p.ret
            good = r is not None and (tls_of(f, r, 'thread_context') or r[0] == 'call' and any(e.kind == 'call' and e.i.v == r[1] and e.name in (MLT + 'construct', MLT + 'data') and tls_of(f, e.args[0], 'thread_context') for e in p.evs))
            ck.need(good, 'init.all', w, 'worker_init returns something other than the context of this thread', f)
        else:
            left = [k for k, v in ob.items() if sum(1 if x[0] == 'construct' else -1 for x in v) != 0 or (v and v[0][0] != 'construct')]
            ck.need(not left, 'init.none', w, 'a failed initialisation leaves an object constructed (or destroys one it did not construct): ' + ', '.join(left), f)
            ck.need(all(v == ('c', 0) for v in fl.values()), 'init.none', w, 'a failed initialisation leaves the thread marked as registered', f)
    if not ok_paths:
        raise AnalysisBroken('worker_init never succeeds')
    for p in paths(f, live_only=False):
        # a failure of the second construction must not be swallowed: covered by ret requiring both constructions
        pass


def finalize(ck, f, allflags):
    n = 0
    for p in paths(f):
        reg, feasible = registered(f, p)
        if not feasible or p.end.kind not in ('ret', 'unwind'):
            continue
        ob = objects(f, p)
        fl = flags_final(f, p)
        ops = [x for v in ob.values() for x in v]
        w = f.where()
        mine = None
        for e in p.evs:
            v = ('call', e.i.v) if e.kind == 'call' and e.name == MLT + 'data' and tls_of(f, e.args[0], 'thread_context') else None
            if v is not None:
                z = p.facts.zero(('op', 'sub', v, ('arg', 0)))
                mine = z if z is not None else mine
        for e in p.evs:
            if e.kind in ('load', 'call') and e.addr is not None and tls_of(f, e.addr, 'thread_context'):
                pass
        if p.end.kind == 'ret':
            n += 1
            ck.need(mine is True, 'fin.check', w, 'a context is finalised without checking that it belongs to the calling thread', f)
            ck.need(reg is True, 'fin.check', w, 'a context is finalised without checking that the thread is registered', f)
            for k, v in ob.items():
                ck.need(len(v) == 1 and v[0][0] == 'destroy', 'fin.all', w, 'finalising does not destroy the %s exactly once' % k, f)
            ck.need(set(fl) == allflags and all(v == ('c', 0) for v in fl.values()), 'fin.all', w, 'finalising leaves the thread registered', f)
        else:
            ck.need(not ops and not fl, 'fin.check', w, 'a refused finalize changes the registration', f)
            ck.need(mine is False or reg is False, 'fin.check', w, 'finalising the registered context of this thread is refused', f)
    if not n:
        raise AnalysisBroken('finalize never succeeds')


# ----------------------------------------------------------------------------- C12
def c12(ck, mods):
    ck.rule('publish', 'worker_context::schedule pushes the job once onto its own submission list and then, exactly once, calls its notification', 1)
    ck.rule('forward', 'every pool hands a job to exactly one of its workers\' contexts, exactly once', 3)
    ck.rule('popall', 'a worker takes submissions from its own context only', 2)
    ck.rule('resume.all', 'resume() runs every element of the submission chain exactly once, in order, reading the link before handing the element over', 1)
    ck.rule('resume.one', 'resume() of a stolen task resumes that task exactly once', 1)
    ck.rule('nodrop', 'a worker resumes everything it obtained from a queue exactly once, whatever else happens', 3)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = core(mod)
        for f in ck.fns(mod, r'^lf::(ext::)?worker_context::schedule$', 'res'):
            publish(ck, f)
        for f in ck.fns(mod, r'^lf::(lazy|busy|unit)_pool::schedule$', 'pool', 3):
            forward(ck, f)
        for f in ck.fns(mod, r'^lf::impl::numa_context::schedule$', 'numa', 0) + ck.fns(mod, r'^lf::impl::numa_context::try_pop_all$', 'numa', 2):
            own(ck, f)
        for f in ck.fns(mod, RESUME, 'res', 2):
            resume(ck, f)
        loops(ck, mod, {'nodrop'})


def publish(ck, f):
    n = 0
    for p in paths(f):
        if p.end.kind not in ('ret', 'unwind'):
            continue
        push = p.calls(r'^lf::(ext::)?intrusive_list::push$')
        # an indirect call whose target is kept in the notification object
        note = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and not (e.i.callee or '') and e.i.get('asm') is None and e.args and split(e.args[0])[0] == ('arg', 0)]
        w = f.where()
        n += 1
        if p.end.kind == 'unwind':
            ck.need(not [1 for k, e in push if e.edge != 'unwind'], 'publish', w, 'a job is reported as not submitted although it was published', f)
            continue
        if not ck.need(len(push) == 1 and same(push[0][1].args[1], ('arg', 1)), 'publish', w, 'a job is pushed to the submission list %s' % ('never' if not push else 'more than once, or another job than the one submitted'), f):
            continue
        ck.need('worker_context::m_submit' in aliases(f, push[0][1].args[0]), 'publish', w, 'a job is published to another list than the submission list of this context', f)
        if not ck.need(len(note) == 1 and any('worker_context::m_notify' in aliases(f, x) for x in [note[0][1].args[0]] + [e.addr for e in p.evs if e.kind == 'load' and e.to('worker_context::m_notify')]), 'publish', w, 'the worker is %s on some path' % ('not notified of a submission' if not note else 'notified more than once'), f):
            continue
        ck.need(push[0][0] < note[0][0], 'publish', w, 'the worker is notified before the job is published: it can look, find nothing and sleep', f)
    if not n:
        raise AnalysisBroken('schedule has no path')


def forward(ck, f):
    unit = 'unit_pool' in f.q
    n = 0
    for p in paths(f):
        if p.end.kind not in ('ret', 'unwind'):
            continue
        s = p.calls(r'worker_context::schedule$')
        w = f.where()
        if p.end.kind == 'unwind':
            ck.need(not [1 for k, e in s if e.edge != 'unwind'], 'forward', w, 'a submission fails after the job was published', f)
            continue
        n += 1
        if not ck.need(len(s) == 1 and same(s[0][1].args[1], ('arg', 1)), 'forward', w, 'a submitted job is not handed to exactly one worker', f):
            continue
        c = s[0][1].args[0]
        if unit:
            good = loads_field(f, c, 'unit_pool::m_context')
            ck.need(good, 'forward', w, 'a job is submitted to something other than the worker of the pool', f)
            continue
        good = False
        if loads_field(f, c, 'numa_context::m_context'):
            el = split(c[1])[0]                  # the numa context: *(element)
            if el[0] == 'ld':
                good = pool_elem(f, p, el[1])
        elif c[0] == 'ld':
            good = pool_elem(f, p, c[1], ('m_contexts',))
        ck.need(good, 'forward', w, 'a job is submitted to something other than a worker chosen among those of the pool', f)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)


def pool_elem(f, p, addr, vecs=('m_worker', 'm_contexts')):
    """addr = begin + index * stride of a worker vector, the index drawn from the pool's distribution"""
    base, off = split(addr)
    if base[0] != 'idx' or off != 0:
        return False
    st, ix = base[1], base[2]
    if not (st[0] == 'ld' and any(x.split('::')[-1] in vecs for x in aliases(f, st[1])) and any(x.endswith('_M_start') for x in aliases(f, st[1]))):
        return False
    draw = {('call', e.i.v) for e in p.evs if e.kind == 'call' and e.name.startswith('std::uniform_int_distribution::operator') and any('m_dist' in x for x in aliases(f, e.args[0]))}
    return strip_ids(ix) in {strip_ids(d) for d in draw}


def own(ck, f):
    rx = r'worker_context::schedule$' if f.q.endswith('schedule') else r'worker_context::try_pop_all$'
    R = 'forward' if f.q.endswith('schedule') else 'popall'
    n = 0
    for p in paths(f):
        if p.end.kind != 'ret':
            continue
        n += 1
        c = p.calls(rx)
        w = f.where()
        if not ck.need(len(c) == 1 and loads_field(f, c[0][1].args[0], 'numa_context::m_context') and split(c[0][1].args[0][1])[0] == ('arg', 0), R, w, 'a worker\'s submission queue is accessed through another context than its own, or not exactly once', f):
            continue
        if R == 'forward':
            ck.need(same(c[0][1].args[1], ('arg', 1)), R, w, 'another job than the submitted one is forwarded', f)
        else:
            ck.need(p.ret == ('call', c[0][1].i.v), R, w, 'the submissions that were taken are not returned', f)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)


def node_first(f, e):
    """a load of the link of a submission node"""
    return e.kind == 'load' and any(x.endswith('node::m_next') for x in e.flds)


def resume(ck, f):
    multi = 'node' in f.name.split('resume(', 1)[-1]
    n = 0
    for p in paths(f, visits=3, limit=9000):
        if p.end.kind == 'unwind':
            continue
        h = Heap(p, clobber=lambda e: False)
        res = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and ('coro.resume' in e.name or e.name.endswith('coroutine_handle::resume'))]
        w = f.where()
        if not multi:
            if p.end.kind != 'ret':
                continue
            n += 1
            ok = len(res) == 1 and handle_of(f, res[0][1].args[0]) == ('arg', 0)
            ck.need(ok, 'resume.one', w, 'a stolen task is %s' % ('not resumed' if not res else 'resumed more than once, or another one is'), f)
            continue
        if p.end.kind != 'ret':
            continue
        n += 1
        # the chain: node_0 = arg0, node_{k+1} = *(node_k.m_next)
        node = ('arg', 0)
        ok = True
        last = -1
        for k, e in res:
            frame = handle_of(f, e.args[0])
            want_data = frame is not None and frame[0] == 'ld' and same(split(frame[1])[0], node) and any(x.endswith('node::m_data') for x in aliases(f, frame[1]))
            if not ck.need(want_data, 'resume.all', e.where(), 'an element of the submission chain is skipped, repeated or replaced', f):
                ok = False
                break
            ck.need(p.facts.zero(node) is not True, 'resume.all', e.where(), 'the end of the submission chain is resumed', f)
            links = [x for j, x in enumerate(p.evs[:k]) if node_first(f, x) and same(split(x.addr)[0], node)]
            if not links:
                # was it read afterwards (after the element may be gone)?
                late = [x for x in p.evs[k + 1:] if node_first(f, x) and same(split(x.addr)[0], node)]
                ck.bad('resume.all', e.where(), 'the link of an element is read after the element was handed over' if late else 'the rest of the submission chain is dropped', f)
                ok = False
                break
            node = links[-1].val
            last = k
        if ok:
            ck.need(p.facts.zero(node) is True, 'resume.all', w, 'the rest of the submission chain is dropped', f)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)


def handle_of(f, e):
    """the frame whose coroutine handle e is"""
    return self_of(f, e)


# ----------------------------------------------------------------------------- C31
def c31(ck, mods):
    ck.rule('victims', 'try_steal steals only from contexts stored in the neighbour lists, through an index drawn for that list or an iterator inside it', 2)
    ck.rule('result', 'a steal that succeeded is returned, one that did not is never returned, and nothing is stolen after a success', 2)
    ck.rule('alone', 'a worker without neighbours steals nothing', 1)
    ck.rule('lists', 'the neighbour lists are filled only from the rows after the first (the first row is the worker itself), with one weight per neighbour', 2)
    ck.rule('context', 'the stored context is the one worker_init returned, and finalize_worker finalises it', 2)
    ck.rule('nodrop', 'a worker resumes everything it obtained from a queue exactly once', 3)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = core(mod)
        for f in ck.fns(mod, r'^lf::impl::numa_context::try_steal$', 'numa', 2):
            steal(ck, f)
        for f in ck.fns(mod, r'^lf::impl::numa_context::init_worker_and_bind$', 'numa', 2):
            bind(ck, f)
        for f in ck.fns(mod, r'^lf::impl::numa_context::(finalize_worker|get_underlying)$', 'numa', 4):
            fin(ck, f)
        loops(ck, mod, {'nodrop'})


def starts_of(f, p, member, which='_M_start'):
    return {strip_ids(e.val) for e in p.evs if e.kind == 'load' and e.to(member) and e.to('_Vector_impl_data::' + which)}


def steal(ck, f):
    n = 0
    for p in paths(f, visits=2, limit=9000, versions=True):
        if p.end.kind not in ('ret', 'unwind'):
            continue
        n += 1
        st = p.calls(r'worker_context::try_steal$')
        w = f.where()
        got = None
        for k, e in st:
            ck.need(got is None, 'result', e.where(), 'a task is stolen and then dropped', f)
            c = e.args[0]
            ok = loads_field(f, c, 'numa_context::m_context')
            el = split(c[1])[0] if ok else None
            if not ck.need(ok and el[0] == 'ld', 'victims', e.where(), 'a worker steals from something other than a neighbour (possibly itself)', f):
                continue
            base, off = split(el[1])
            inlist = False
            for member in ('numa_context::m_close', 'numa_context::m_neigh'):
                for s in starts_of(f, p, member):
                    d, c0 = lin_sub(strip_ids(el[1]), s, M64)
                    if not d and c0 % 8 == 0:
                        # the (c0/8)-th element: the path must exclude that the list is that short
                        fs = starts_of(f, p, member, '_M_finish')

                        def size(m, s=s, fs=fs):
                            def leaf(x):
                                if x[0] == 'ld':
                                    y = strip_ids(x)
                                    return 1 << 20 if y == s else (1 << 20) + 8 * m if y in fs else None
                                return None
                            return leaf
                        if fs and sgn(c0) >= 0 and not any(consistent(e.facts, size(m)) for m in range(sgn(c0) // 8 + 1)):
                            inlist = True
                if base[0] == 'idx' and off == 0 and strip_ids(base[1]) in starts_of(f, p, member):
                    draws = {strip_ids(x.rv): x for x in p.evs if x.kind == 'call' and x.name.startswith('std::discrete_distribution::operator')}
                    x = draws.get(strip_ids(base[2]))
                    if x is not None and 'numa_context::m_dist' in aliases(f, x.args[0]) and member.endswith('m_neigh'):
                        inlist = True
                        empty = any(e_nonzero(e.facts, s2, x2) for s2 in starts_of(f, p, member) for x2 in starts_of(f, p, member, '_M_finish'))
                        ck.need(empty, 'alone', e.where(), 'a worker without neighbours can pick one', f)
            ck.need(inlist, 'victims', e.where(), 'a worker steals from something other than an element of its neighbour lists', f)
            z = None
            for lit, v in p.facts.f:
                if lit[0] == 'z' and len(lit[1]) == 1 and not lit[2] % M64:
                    a = list(lit[1])[0][0]
                    if is_ev(a, e.rv, 0):
                        z = v if z is None else z or v
            nz = z is False or any(lit[0] == 'z' and v and lit[2] % M64 and any(is_ev(a, e.rv, 0) for a, _ in lit[1]) for lit, v in p.facts.f)
            if z is True:
                got = e.rv
            elif not nz:
                # unresolved outcome: must at least not continue as if nothing had been stolen
                ck.bad('result', e.where(), 'whether a steal succeeded is not decided before going on: a stolen task can be dropped', f)
        if p.end.kind != 'ret':
            ck.need(got is None, 'result', w, 'a stolen task is dropped', f)
            continue
        r = p.ret
        if r is not None and r[0] == 'select':
            r = sel(p.facts, r)
        if got is not None:
            ck.need(is_ev(r, got, 1), 'result', w, 'a task that was stolen is not returned', f)
        else:
            ck.need(r is not None and (r == ('c', 0) or p.facts.zero(r) is True), 'result', w, 'a failed steal is returned as a task', f)
            if not st:
                ck.ok('alone', w)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)


def is_ev(e, v, ix):
    return isinstance(e, tuple) and len(e) == 3 and e[0] == 'ev' and e[1] == v and e[2] in ((ix,), [ix], ix)


def e_nonzero(facts, a, b):
    """do the facts say a != b (up to load versions)?"""
    want = lin_sub(strip_ids(a), strip_ids(b), M64)
    for lit, v in facts.f:
        if lit[0] == 'z' and not v:
            t = ('c', lit[2])
            for x, c in lit[1]:
                t = ('op', 'add', t, strip_ids(x) if c == 1 else ('op', 'mul', strip_ids(x), ('c', c)))
            g = linear(t, M64)
            neg = ({k: (-c) % M64 for k, c in g[0].items()}, (-g[1]) % M64)
            if (want[0], want[1] % M64) in ((g[0], g[1] % M64), neg):
                return True
    return False


def bind(ck, f):
    n = 0
    row = 24
    for p in paths(f, visits=3, limit=20000):
        if p.end.kind != 'ret':
            continue
        n += 1
        w = f.where()
        evs = p.evs
        ini = [(k, e) for k, e in enumerate(evs) if e.kind == 'call' and re.search(r'^lf::(ext::)?worker_init$', e.name) and e.edge != 'unwind']
        st = [(k, e) for k, e in enumerate(evs) if e.kind == 'store' and e.to('numa_context::m_context') and split(e.addr)[0] == ('arg', 0)]
        ck.need(len(ini) == 1 and st and st[-1][1].val == ('call', ini[0][1].i.v), 'context', w, 'the context a worker is known by is not the one it initialised', f)
        rows = {strip_ids(e.val) for e in evs if e.kind == 'load' and e.to('numa_node::neighbors') and e.to('_Vector_impl_data::_M_start')}

        def row_of(a):
            """index of the neighbour row whose vector object is at address a"""
            for s in rows:
                d, c0 = lin_sub(strip_ids(a), s, M64)
                if not d:
                    return sgn(c0) // row
            return None
        h = Heap(p)
        weights = neigh = 0
        for k, e in enumerate(evs):
            if e.kind != 'call' or e.edge == 'unwind':
                continue
            tgt = aliases(f, e.args[0]) if e.args else frozenset()
            if e.name.startswith('std::vector::') and e.name.split('::')[-1] in ('push_back', 'emplace_back'):
                mine = 'numa_context::m_neigh' in tgt or 'numa_context::m_close' in tgt
                if mine:
                    neigh += 'numa_context::m_neigh' in tgt
                    v = e.args[1]
                    s = [x for x in evs[:k] if x.kind == 'store' and same(x.addr, v)]
                    val = s[-1].val if s else None
                    r = None
                    if val is not None and val[0] == 'ld':
                        # *(begin of row + 16 * j)
                        for b in [x for x in evs[:k] if x.kind == 'load' and x.to('_Vector_impl_data::_M_start') and row_of(x.addr) is not None]:
                            d, c0 = lin_sub(strip_ids(val[1]), strip_ids(b.val), M64)
                            if not d:
                                r = row_of(b.addr)
                    ck.need(r is not None and r >= 1, 'lists', e.where(), 'a worker can become its own neighbour: the list is filled from %s' % ('the row that holds the worker itself' if r == 0 else 'something other than the neighbour rows'), f)
                elif split(e.args[0])[0][0] == 'alloca' and 'double' in (e.i.callee or ''):
                    weights += 1
            if e.name.endswith('impl::map') and len(e.args) > 1:
                r = row_of(e.args[1])
                ck.need(r is not None and r >= 1, 'lists', e.where(), 'the close neighbours include the worker itself', f)
        ck.need(weights == neigh, 'lists', w, 'the number of weights differs from the number of neighbours: a worker can pick a neighbour that does not exist', f)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)


def fin(ck, f):
    n = 0
    for p in paths(f):
        if p.end.kind != 'ret':
            continue
        n += 1
        if f.q.endswith('get_underlying'):
            ck.need(loads_field(f, p.ret, 'numa_context::m_context') and split(p.ret[1])[0] == ('arg', 0), 'context', f.where(), 'a context other than the worker\'s own is given to the pool', f)
        else:
            c = p.calls(r'^lf::(ext::)?finalize$')
            ck.need(len(c) == 1 and loads_field(f, c[0][1].args[0], 'numa_context::m_context') and split(c[0][1].args[0][1])[0] == ('arg', 0), 'context', f.where(), 'finalize_worker does not finalise the worker\'s context', f)
    if not n:
        raise AnalysisBroken('no path through ' + f.name)
