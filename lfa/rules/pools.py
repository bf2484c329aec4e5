"""Worker loops, pools and worker registration (C09, C10, C11, C12, C31)."""
from ..kit import *

THIEF, ACTIVE, STOPS = 'fat_counters::thief', 'lazy_vars::active', ('busy_vars::stop', 'unit_pool::m_stop')
NOTIFIER = 'fat_counters::notifier'
POP, STEAL = 'worker_context::try_pop_all', 'numa_context::try_steal'


def core(mod):
    return mod['core'] if isinstance(mod, dict) else mod


def order_of(e):
    return e.i.get('order') or ''


def wid(a):
    """identity of the per-domain record an address points into"""
    return strip_ids(split(a)[0])


def delta(e):
    """change an atomic read-modify-write makes, or None"""
    if e.kind != 'rmw' or e.val[0] != 'c':
        return None
    c = e.val[1]
    return c if e.name == 'add' else -c if e.name == 'sub' else None


class Worker(Machine):
    """Typestate of one worker loop.  State: dictionary as a sorted tuple."""
    KEYS = ('T', 'A', 'W', 'key', 'pop', 'stopv', 'dec', 'act', 'hand', 'held', 'stopped', 'drained', 'init', 'start', 'sset', 'slatch', 'fin', 'actinc', 'ready')

    def __init__(self, ck, kind, R):
        self.ck, self.kind, self.R = ck, kind, R
        self.seen = {'wait': 0, 'resume': 0, 'exit': 0, 'steal': 0}

    def start(self, fn):
        self.fn = fn
        return self.pack(dict.fromkeys(self.KEYS))

    def pack(self, d):
        return tuple(d[k] for k in self.KEYS)

    def un(self, st):
        return dict(zip(self.KEYS, st))

    def bad(self, group, where, msg):
        if group in self.R:
            self.ck.bad(group, where, msg, self.fn)

    def ok(self, group, where):
        if group in self.R:
            self.ck.ok(group, where)

    def need(self, c, group, where, msg):
        (self.ok(group, where) if c else self.bad(group, where, msg))

    def refresh(self, d, cx):
        h = d['held']
        if h is not None and cx.is_zero(h) is True:
            if d['pop'] == h:
                d['pop'] = 'empty'
            if d['drained'] == h:
                d['drained'] = 'yes'
            d['held'] = None
        s = d['stopv']
        if isinstance(s, tuple):
            t = cx.is_zero(s)
            if t is None:
                t = cx.is_zero(('op', 'and', s, ('c', 1)))
            if t is True:
                d['stopv'] = 'no'
            elif t is False:
                d['stopv'] = 'yes'
                d['stopped'] = 'yes'
        c = d['dec']
        if isinstance(c, tuple):
            t = cx.is_zero(addoff(c, -1))
            if t is not None:
                if d['hand'] == 'due':
                    d['hand'] = 'due!' if t else None
                d['dec'] = 'last' if t else 'notlast'
        a = d['act']
        if isinstance(a, tuple):
            t = cx.is_zero(a)
            if t is not None:
                d['act'] = 'idle' if t else 'busy'
        return d

    def block(self, st, cx):
        return self.pack(self.refresh(self.un(st), cx))

    def step(self, i, st, cx):
        d = self.refresh(self.un(st), cx)
        if i.op == 'call' and is_dead_call(i):
            return None
        e = mk_event(self.fn, i, cx, cx.edge)
        if e is None:
            return self.pack(d)
        w = e.where()
        lazy = self.kind == 'lazy'
        if e.kind == 'rmw' and e.to(THIEF):
            k = delta(e)
            d['T'] = (d['T'] or 0) + (k if k is not None else 99)
            self.need(d['T'] in (0, 1), 'balance', w, 'a worker counts itself as searching more than once, or not at all while it stops searching')
            if k == -1:
                d['dec'] = ('rmw', i.v)
                d['hand'] = 'due'
                d['act'] = None
            return self.pack(d)
        if e.kind == 'rmw' and e.to(ACTIVE):
            k = delta(e)
            d['A'] = (d['A'] or 0) + (k if k is not None else 99)
            self.need(d['A'] in (0, 1), 'balance', w, 'a worker counts itself as active more than once, or is uncounted while active')
            if k == 1:
                d['actinc'] = 'yes'
            return self.pack(d)
        if e.kind == 'load' and e.to(ACTIVE):
            d['act'] = ('ld', e.addr, i.v) if e.val[0] != 'ld' else e.val
            if d['T'] == 0 and d['W']:
                self.need(order_of(e) == 'seq_cst', 'order', w, 'the count of active workers is read without sequential consistency after leaving the searchers: both sides of the wake-up decision may miss each other')
            return self.pack(d)
        if (e.kind in ('load', 'rmw')) and e.to(*STOPS):
            if e.kind == 'rmw':
                self.need(order_of(e) in STRONG_REL, 'exit', w, 'the stop flag is set without release')
                d['sset'] = 'yes'
            else:
                self.need(order_of(e) in STRONG_ACQ, 'exit', w, 'the stop flag is read without acquire')
                d['stopv'] = e.val
            return self.pack(d)
        if e.kind != 'call':
            if e.kind == 'store' and e.to('unit_pool::m_context'):
                d['ready'] = 'ctx' if d['init'] and e.val == d['init'] else 'wrong'
            if e.kind == 'rmw' and e.to('unit_pool::m_ready'):
                self.need(d['ready'] == 'ctx' and order_of(e) in STRONG_REL, 'enter', w, 'a worker is declared ready before its context is stored, or without release')
                d['ready'] = 'flag'
            return self.pack(d)
        n = e.name
        if n.endswith('event_count::prepare_wait'):
            self.need(not d['W'], 'balance', w, 'a worker registers as sleeper twice')
            d.update(W=1, key=i.v, pop=None, stopv=None, act=None)
            if not isinstance(d['dec'], tuple):
                d['dec'] = None
        elif n.endswith('event_count::cancel_wait'):
            self.need(d['W'] == 1, 'balance', w, 'a worker cancels a wait it did not prepare')
            d['W'] = 0
        elif n.endswith('event_count::wait'):
            self.seen['wait'] += 1
            self.need(d['W'] == 1, 'announce', w, 'a worker sleeps without having announced it')
            kv = e.args[1]
            self.need(any(a == ('call', d['key']) for a in atoms(kv)) or kv == ('call', d['key']), 'announce', w, 'a worker sleeps on a key that is not the one it prepared last')
            self.need(d['pop'] == 'empty', 'recheck', w, 'a worker sleeps without having found its submission queue empty after announcing it')
            self.need(d['stopv'] == 'no', 'recheck', w, 'a worker sleeps without having found the stop flag clear after announcing it')
            self.need(d['T'] == 0 and d['dec'] is not None and (d['dec'] == 'notlast' or d['act'] == 'idle'), 'invariant', w, 'the last searching worker can go to sleep while another worker is active')
            d['W'] = 0
        elif n.endswith('event_count::notify_one') or n.endswith('event_count::notify_all'):
            d['hand'] = None if d['hand'] in ('due', 'due!') else d['hand']
        elif n.endswith(POP) or n.endswith(STEAL):
            if n.endswith(STEAL):
                self.seen['steal'] += 1
            self.need(d['start'] or self.kind == 'unit', 'enter', w, 'a worker looks for work before every worker has set up its context')
            self.need(not d['slatch'] and not d['fin'], 'exit', w, 'a worker looks at other workers after declaring that it stopped')
            self.need(d['held'] is None, 'nodrop', w, 'work obtained from a queue is dropped')
            d['held'] = ('call', i.v)
            if n.endswith(POP):
                d['pop'] = ('call', i.v)
                if d['stopped']:
                    d['drained'] = ('call', i.v)
            if lazy:
                self.need(d['T'] == 1, 'balance', w, 'a worker searches without being counted as searching')
        elif re.search(r'^lf::(core::|ext::)?resume$', n):
            if e.edge == 'unwind' and self.kind != 'unit':
                return None
            if e.edge == 'unwind':
                d['held'] = None
                return self.pack(d)
            self.seen['resume'] += 1
            self.need(d['held'] is not None and same(e.args[0], d['held']), 'nodrop', w, 'a worker resumes something other than the work it obtained, or the same work twice')
            nz = cx.is_zero(d['held']) if d['held'] else None
            self.need(nz is False, 'nodrop', w, 'a worker resumes work it did not check it had obtained')
            d['held'] = None
            if lazy:
                self.need(not d['T'], 'balance', w, 'a worker runs a task while still counted as searching')
                self.need(d['A'] == 1, 'balance', w, 'a worker runs a task without being counted as active')
                self.need(d['hand'] not in ('due', 'due!'), 'handover', w, 'the last searching worker becomes active without waking another one')
                self.need(not d['W'], 'balance', w, 'a worker runs a task while registered as sleeper')
        elif n == 'std::latch::arrive_and_wait':
            a = e.args[0]
            fl = aliases(self.fn, a)
            if 'busy_vars::latch_stop' in fl:
                self.need(d['sset'] == 'yes', 'exit', w, 'a worker waits for the others to stop without requesting the stop')
                d['slatch'] = 'yes'
            else:
                self.need(d['init'] is not None, 'enter', w, 'a worker signals that it is set up before initialising its context')
                self.need(not d['start'], 'enter', w, 'a worker arrives twice at the start latch')
                d['start'] = 'yes'
        elif re.search(r'^lf::(ext::)?worker_init$|numa_context::init_worker_and_bind$', n):
            if e.edge == 'unwind':
                return self.pack(d)
            d['init'] = ('call', i.v)
        elif re.search(r'^lf::(ext::)?finalize$', n):
            if e.edge == 'unwind':
                return None
            self.need(d['init'] is not None and not d['fin'], 'pair', w, 'a worker finalises a context it did not initialise, or twice')
            if self.kind != 'unit':
                self.need(d['slatch'] == 'yes', 'exit', w, 'a worker destroys its context while others may still look at it')
                self.need(loads_field(self.fn, e.args[0], 'numa_context::m_context'), 'pair', w, 'a worker finalises something other than its own context')
            else:
                self.need(e.args[0] == d['init'], 'pair', w, 'a worker finalises something other than its own context')
            d['fin'] = 'yes'
        return self.pack(d)

    def exit(self, i, st, cx):
        d = self.refresh(self.un(st), cx)
        w = i.where()
        if i.op == 'unreachable':
            return
        self.seen['exit'] += 1
        if d['init'] is None:
            return
        self.need(d['fin'] == 'yes', 'pair', w, 'a worker leaves without finalising the context it initialised')
        if i.op != 'ret':
            return
        self.need(d['stopped'] == 'yes', 'exit', w, 'a worker leaves without a stop having been requested')
        self.need(d['held'] is None, 'nodrop', w, 'a worker leaves with work it obtained but did not run')
        if self.kind != 'lazy':
            self.need(d['drained'] == 'yes', 'drain', w, 'a worker leaves without having found its submission queue empty after seeing the stop request')
        else:
            self.need(d['pop'] == 'empty', 'drain', w, 'a worker leaves without having found its submission queue empty')
            self.need(not d['T'] and not d['W'] and not d['A'], 'balance', w, 'a worker leaves while still counted as searching, sleeping or active')


def loops(ck, mod, R, kinds=('lazy', 'busy', 'unit')):
    for kind in kinds:
        rx = {'lazy': r'^lf::impl::lazy_work$', 'busy': r'^lf::impl::busy_work$', 'unit': r'^lf::unit_pool::work$'}[kind]
        for f in ck.fns(mod, rx, 'pool'):
            m = Worker(ck, kind, R)
            walk(f, m)
            if not m.seen['resume'] or not m.seen['exit'] or (kind == 'lazy' and not m.seen['wait']):
                raise AnalysisBroken('%s: the worker loop was not understood: %s' % (f.name, m.seen))


def c09(ck, mods):
    ck.rule('announce', 'a worker sleeps only after prepare_wait and on the key of its last prepare_wait', 1)
    ck.rule('recheck', 'between prepare_wait and wait a worker finds its submission queue empty and the stop flag clear', 1)
    ck.rule('invariant', 'a worker sleeps only after leaving the searchers, and, if it was the last one, only after seeing no active worker', 1)
    ck.rule('order', 'leaving the searchers / reading the active count and becoming active / reading the searcher count are sequentially consistent, so that one side sees the other', 2)
    ck.rule('balance', 'the searching, sleeping and active counts each go up and down once per phase, and are all zero when a worker leaves', 4)
    ck.rule('handover', 'the last searcher wakes a sleeper of its domain before it runs a task', 1)
    ck.rule('wake.scan', 'the first worker to become active wakes every domain that has no searcher', 1)
    ck.rule('wake.submit', 'the notification given to a lazy worker\'s context wakes all sleepers of its domain, so the owner of the submission queue is among them', 1)
    ck.rule('wake.stop', 'a stop request wakes the sleepers of every domain', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = core(mod)
        loops(ck, mod, {'announce', 'recheck', 'invariant', 'order', 'balance', 'handover'}, ('lazy',))
        for f in ck.fns(mod, r'^lf::impl::lazy_work$', 'pool'):
            for i in f.insts():
                if i.op == 'atomicrmw' and THIEF in aliases(f, f.operand(i.ops[0])):
                    wake_order_dec(ck, f, i)
                if i.op == 'atomicrmw' and ACTIVE in aliases(f, f.operand(i.ops[0])) and delta(mk_event(f, i, Ctx(f, {}, Facts()))) == 1:
                    scan(ck, f, i)
        allinv = ck.fns(mod, r'move_only_function::_S_invoke$', 'notify', 2)
        inv = [f for f in allinv if any(i.is_call and 'event_count::notify' in callee_q(i) for i in f.insts())]
        if not inv:
            ck.bad('wake.submit', 'lazy_pool.hpp', 'no worker notification wakes a sleeping worker', allinv[0])
        for f in inv:
            ck.funcs.add(f.where())
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                ck.need(any(e.kind == 'call' and e.name.endswith('event_count::notify_all') for e in p.evs), 'wake.submit', f.where(), 'submitting to a sleeping worker may wake a different worker than the one it was submitted to', f)
        for f in ck.fns(mod, r'^lf::lazy_pool::(~lazy_pool|operator=)$', 'pool'):
            shutdown(ck, f, 'wake.stop', lazy=True, joins=False)


def wake_order_dec(ck, f, i):
    """the decrement whose result decides about sleeping (an active-count load follows without a task in between)"""
    e = mk_event(f, i, Ctx(f, {}, Facts()))
    if delta(e) != -1:
        return
    stop = lambda x: (x.kind == 'call' and (x.name.endswith('::resume') or x.name.endswith('event_count::wait') or x.name.endswith('prepare_wait'))) or (x.kind in ('load', 'rmw') and x.to(ACTIVE))
    for p in paths(f, start=i, stop=stop, visits=1, limit=3000):
        if p.end.kind == 'load' and p.end.to(ACTIVE):
            mid = any(full_fence(x) for x in p.evs[1:-1])
            ck.need(mid or (order_of(e) == 'seq_cst' and order_of(p.end) == 'seq_cst'), 'order', i.where(), 'leaving the searchers and reading the active count are not sequentially consistent: a worker becoming active and a worker going to sleep can miss each other', f)


def vec(f, e, field, which):
    return e.kind == 'load' and e.to('_Vector_impl_data::' + which) and (not field or e.to(*field))


def covered(p, addrs, starts, ends, stride):
    """do the element addresses `addrs` (in path order) cover, in order, the whole vector whose begin and
    end the loads `starts` / `ends` read?  Decided by asking which element counts the path condition admits."""
    if not starts or not ends:
        return False
    sv, ev = {strip_ids(e.val) for e in starts}, {strip_ids(e.val) for e in ends}
    n = len(addrs)
    for k, a in enumerate(addrs):
        if not any(lin_sub(strip_ids(a), s, M64) == ({}, k * stride) for s in sv):
            return False

    def size(m):
        def leaf(e):
            if e[0] == 'ld':
                x = strip_ids(e)
                return 1 << 20 if x in sv else (1 << 20) + m * stride if x in ev else None
            return None
        return leaf
    return all(m == n for m in range(24) if consistent(p.facts, size(m)))


def bounds(p, field):
    """loads of the begin and end pointers of a vector member"""
    return [e for e in p.evs if vec(e.fn, e, field, '_M_start')], [e for e in p.evs if vec(e.fn, e, field, '_M_finish')]


def elem_size(mod, name):
    for k, d in mod.T.t.items():
        if d.get('n') == name and d.get('m') and d.get('size'):
            return d['size']
    raise AnalysisBroken('size of %s not found' % name)


def scan(ck, f, i):
    """from the increment of the active count to the task's execution"""
    stride = elem_size(f.mod, 'fat_counters')
    stop = lambda x: x.kind == 'call' and bool(re.search(r'^lf::(core::|ext::)?resume$', x.name))
    inc = ('rmw', i.v)
    good = False
    for p in paths(f, start=i, stop=stop, visits=3, limit=4000):
        if p.end.kind != 'call' or not stop(p.end):
            continue
        first = p.facts.zero(inc)
        if first is False:
            continue
        if not ck.need(first is True, 'wake.scan', i.where(), 'whether this is the first active worker is not decided before running the task', f):
            continue
        loads = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'load' and e.to(THIEF)]
        c = covered(p, [e.addr for _, e in loads], *bounds(p, ('lazy_vars::numa',)), stride)
        if not ck.need(c is True, 'wake.scan', i.where(), 'the first worker to become active does not look at every domain', f):
            continue
        for j, (k, e) in enumerate(loads):
            nxt = loads[j + 1][0] if j + 1 < len(loads) else len(p.evs)
            z = p.facts.zero(e.val)
            notified = any(x.kind == 'call' and 'event_count::notify' in x.name and wid(x.args[0]) == wid(e.addr) for x in p.evs[k:nxt])
            ck.need(z is False or notified, 'wake.scan', e.where(), 'a domain without a searching worker is not woken when the pool becomes active', f)
            sc = order_of(e) == 'seq_cst' and order_of(p.evs[0]) == 'seq_cst'
            ck.need(sc or any(full_fence(x) for x in p.evs[1:k]), 'order', e.where(), 'becoming active and reading the searcher count are not sequentially consistent: a worker going to sleep can be missed', f)
            good = True


def shutdown(ck, f, R, lazy, joins=True):
    """destruction (or being overwritten) of a pool: stop, wake, join"""
    stride = elem_size(f.mod, 'fat_counters')
    share = ('lazy_pool::m_share', 'busy_pool::m_share')
    thr = ('lazy_pool::m_threads', 'busy_pool::m_threads', 'unit_pool::m_thread')
    unit = 'unit_pool' in f.q
    n = 0
    for p in paths(f, visits=3):
        if p.end.kind != 'ret':
            continue
        if p.facts.zero(('op', 'sub', ('arg', 0), ('arg', 1))) is True:
            ck.need(not any(e.kind == 'call' and 'thread' in e.name for e in p.evs), R, f.where(), 'self-assignment disturbs the pool', f)
            continue
        sl = [e for e in p.evs if e.kind == 'load' and e.to(*share) and e.addr[0] in ('off', 'arg') and split(e.addr)[0] == ('arg', 0)]
        null = any(p.facts.zero(e.val) is True for e in sl)
        if null:
            bad = [e for e in p.evs if e.kind == 'rmw' and e.to(*STOPS)]
            ck.need(not bad, R, f.where(), 'a moved-from pool dereferences its shared state', f)
            continue
        n += 1
        over = [k for k, e in enumerate(p.evs) if e.kind == 'call' and re.search(r'^std::(vector::(vector|operator=|~vector)|thread::(~thread|operator=))$', e.name) and any(t in aliases(f, e.args[0]) for t in thr)]
        end = over[0] if over else len(p.evs)
        sets = [k for k, e in enumerate(p.evs[:end]) if e.kind in ('rmw', 'store') and e.to(*STOPS)]
        if not ck.need(bool(sets), R, f.where(), 'a pool is destroyed without requesting a stop', f):
            continue
        ck.need(order_of(p.evs[sets[0]]) in STRONG_REL, R, f.where(), 'the stop is requested without release', f)
        guard = [p.facts.zero(e.val) for e in sl]
        if sl and not unit:
            ck.need(any(g is False for g in guard), R, f.where(), 'a moved-from pool dereferences its shared state', f)
        joins_ = [(k, e) for k, e in enumerate(p.evs[:end]) if e.kind == 'call' and e.name == 'std::thread::join' and e.edge != 'unwind']
        first_join = joins_[0][0] if joins_ else end
        ck.need(sets[0] < first_join, R, f.where(), 'threads are joined before the stop is requested', f)
        if lazy:
            nt = [(k, e) for k, e in enumerate(p.evs[:end]) if e.kind == 'call' and e.name.endswith('event_count::notify_all')]
            c = covered(p, [addoff(e.args[0], -notifier_off(f.mod)) for _, e in nt], *bounds(p, ('lazy_vars::numa',)), stride)
            ck.need(c is True and all(sets[0] < k < first_join for k, _ in nt), R, f.where(), 'the sleepers of some domain are not woken between the stop request and the joins', f)
        if joins:
            if unit:
                ck.need(len(joins_) == 1 and 'unit_pool::m_thread' in aliases(f, joins_[0][1].args[0]), R, f.where(), 'the worker thread is not joined', f)
            else:
                c = covered(p, [e.args[0] for _, e in joins_], *bounds(p, thr), 8)
                ck.need(c is True, R, f.where(), 'some worker thread is not joined', f)
    if not n:
        raise AnalysisBroken('no shutdown path found in ' + f.name)


def notifier_off(mod):
    for k, d in mod.T.t.items():
        if d.get('n') == 'fat_counters' and d.get('m'):
            for m in d['m']:
                if m['n'] == 'notifier':
                    return m['off']
    raise AnalysisBroken('notifier offset')


def c10(ck, mods):
    ck.rule('enter', 'a worker initialises its context, then waits for all the others, and only then looks for work', 2)
    ck.rule('exit', 'a worker leaves only after a stop was requested; it requests it for the others, waits until all of them stopped, and only then destroys its context', 2)
    ck.rule('drain', 'a worker leaves only after finding its own submission queue empty (after seeing the stop, for the busy and unit pools)', 2)
    ck.rule('pair', 'a worker finalises exactly the context it initialised, on every way out', 2)
    ck.rule('construct', 'a pool starts one thread per worker, waits for all of them to be set up, and only then reads their contexts', 2)
    ck.rule('latches', 'the start latch counts every worker and the constructor, the stop latch every worker', 1)
    ck.rule('destroy', 'destroying (or assigning over) a pool requests a stop, wakes every domain and joins every thread; a moved-from pool does nothing', 4)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = core(mod)
        loops(ck, mod, {'enter', 'exit', 'drain', 'pair'})
        for f in ck.fns(mod, r'^lf::(lazy|busy)_pool::(~(lazy|busy)_pool|operator=)$', 'pool', 4) + ck.fns(mod, r'^lf::unit_pool::~unit_pool$', 'pool'):
            shutdown(ck, f, 'destroy', lazy='lazy' in f.q)
        for f in ck.fns(mod, r'^lf::(lazy|busy)_pool::(lazy|busy)_pool$', 'pool', 2):
            if 'numa_strategy' in f.name:
                construct(ck, f)
            else:
                for p in paths(f):
                    if p.end.kind != 'ret':
                        continue
                    mv = [e for e in p.evs if e.kind == 'call' and e.name.endswith('shared_ptr') and any(x.endswith('_pool::m_share') for x in aliases(f, e.args[0]))]
                    ck.need(len(mv) == 1 and '&&' in (mv[0].i.callee or ''), 'destroy', f.where(), 'moving a pool leaves both pools owning the workers', f)
        for f in ck.fns(mod, r'^lf::unit_pool::unit_pool$', 'pool'):
            unit_construct(ck, f)
        for f in ck.fns(mod, r'^lf::impl::busy_vars::busy_vars$', 'pool'):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                want = {'busy_vars::latch_start': 1, 'busy_vars::latch_stop': 0}
                for nm, k in want.items():
                    c = [e for e in p.evs if e.kind == 'call' and e.name == 'std::latch::latch' and (aliases(f, e.args[0]) & set(want) or {'busy_vars::latch_start'}) & {nm}]
                    c = [e for e in p.evs if e.kind == 'call' and e.name == 'std::latch::latch' and nm in aliases(f, e.args[0])]
                    ck.need(len(c) == 1 and lin_sub(strip_ids(c[0].args[1]), ('arg', 1), M64) == ({}, k), 'latches', f.where(), 'a latch does not count every participant', f)


def construct(ck, f):
    R = 'construct'
    n = 0
    for p in paths(f, visits=3, limit=9000):
        if p.end.kind != 'ret':
            continue
        n += 1
        evs = p.evs
        def calls(rx):
            return [k for k, e in enumerate(evs) if e.kind == 'call' and e.edge != 'unwind' and re.search(rx, e.name)]
        thr = [k for k in calls(r'^std::(vector::(emplace_back|push_back)|thread::thread)$') if evs[k].name.endswith('thread::thread') or any('m_threads' in x for x in aliases(f, evs[k].args[0]))]
        lat = [k for k in calls(r'^std::latch::arrive_and_wait$')]
        ctx = [k for k, e in enumerate(evs) if e.kind == 'load' and e.to('numa_context::m_context')]
        dist = calls(r'numa_topology::distribute$')
        push = [k for k in calls(r'^std::vector::(emplace_back|push_back)$') if any('m_worker' in x for x in aliases(f, evs[k].args[0]))]
        if not ck.need(len(lat) == 1, R, f.where(), 'construction does not wait for the workers exactly once', f):
            continue
        ck.need(all(k < lat[0] for k in thr), R, f.where(), 'a worker is started after waiting for the workers', f)
        ck.need(all(k > lat[0] for k in ctx), R, f.where(), 'a worker\'s context is read before the worker has set it', f)
        ck.need(dist and all(k < dist[0] for k in push) and (not thr or dist[0] < thr[0]), R, f.where(), 'workers are distributed before all of them exist', f)
        numa = [k for k in calls(r'^std::vector::operator=$') if 'lazy_vars::numa' in aliases(f, evs[k].args[0])]
        if 'lazy_pool' in f.q:
            ck.need(len(numa) == 1 and (not thr or numa[0] < thr[0]), R, f.where(), 'workers are started before the per-domain counters exist', f)
        # one thread per node
        if dist:
            out = evs[dist[0]].args[0]
            own = lambda w: [e for k, e in enumerate(evs) if k > dist[0] and e.kind == 'load' and e.to('_Vector_impl_data::' + w) and split(e.addr)[0] == split(out)[0]]
            got = [evs[k].args[2] for k in thr if len(evs[k].args) > 2]
            ok = covered(p, got, own('_M_start'), own('_M_finish'), elem_size_like(f.mod, 'numa_node<'))
            ck.need(ok, R, f.where(), 'not every worker gets a thread', f)
    if not n:
        raise AnalysisBroken('no complete path through ' + f.name)
    # worker count and queue selection
    for p in paths(f, visits=1, limit=2000):
        pass
    for i in f.insts():
        if i.is_call and callee_q(i) == 'std::uniform_int_distribution::uniform_int_distribution':
            lo, hi = f.operand(i.ops[1]), f.operand(i.ops[2])
            hi = strip_ids(hi)
            good = lo == ('c', 0) and (lin_sub(hi, ('arg', 1), M64) == ({}, M64 - 1) or (loads_field(f, f.operand(i.ops[2]), 'm_num_threads')) or 'm_num_threads' in repr([sorted(aliases(f, a[1])) for a in atoms(hi) if a[0] == 'ld']) and linear(hi, M64)[1] == M64 - 1)
            ck.need(good, R, i.where(), 'submissions can be sent to a worker that does not exist', f)


def elem_size_like(mod, prefix):
    s = {d['size'] for k, d in mod.T.t.items() if str(d.get('n')).startswith(prefix) and d.get('m') and d.get('size')}
    if len(s) != 1:
        raise AnalysisBroken('size of %s: %s' % (prefix, s))
    return s.pop()


def unit_construct(ck, f):
    R = 'construct'
    for p in paths(f):
        if p.end.kind != 'ret':
            continue
        th = [k for k, e in enumerate(p.evs) if e.kind == 'call' and e.name == 'std::thread::thread']
        wt = [k for k, e in enumerate(p.evs) if (e.kind == 'call' and e.name == 'std::atomic_flag::wait' and 'unit_pool::m_ready' in aliases(f, e.args[0]) and e.args[1] == ('c', 0))]
        st = [k for k, e in enumerate(p.evs) if e.kind == 'store' and e.to('unit_pool::m_stop', 'unit_pool::m_ready', 'unit_pool::m_context')]
        ck.need(len(th) == 1 and all(k < th[0] for k in st), R, f.where(), 'the worker thread starts before the state it shares is initialised', f)
        ck.need(bool(wt) and bool(th) and wt[-1] > th[0], R, f.where(), 'construction does not wait for the worker to be ready', f)
        for k in wt:
            ck.need(p.evs[k].args[2] in (('c', 2), ('c', 4), ('c', 5)), R, f.where(), 'the worker\'s readiness is observed without acquire', f)
