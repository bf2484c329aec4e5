"""Rules over the life of task frames and what they own: stack objects (C25), frame ownership (C29),
start-up bookkeeping (C30), root tasks and futures (C13, C14)."""
from ..kit import *
from .frames import own_frame, aw, same_base, STKLET

ALLOC, DEALLOC = r'^lf::impl::stack::allocate$', r'^lf::impl::stack::deallocate$'


def tls_stack(f, e):
    return tls_of(f, e, 'thread_stack')


def top_loads(f, p, lo):
    """values of "top of this thread's stack" read after event lo"""
    return [e.val for e in p.evs[lo:] if e.kind == 'load' and tls_stack(f, e.addr) and e.to('stack::m_fib')]


def elem_size(f, name):
    t = re.search(r'<(?:probe::)?(\w+)>', name).group(1)
    for k, v in f.T.t.items():
        if (v.get('n') or '').replace('probe::', '') == t and v.get('s'):
            return v['s'] if v['s'] < 8 * 64 else v['s'] // 8
    return {'int': 4, 'hairy': 4}[t]


def c25(ck, mods):
    ck.rule('alloc.size', 'the memory requested holds exactly `count` objects, for every count (no wrap-around)', 4)
    ck.rule('alloc.construct', 'exactly the elements 0..count-1 of the memory obtained are constructed, once each', 2)
    ck.rule('alloc.fail', 'a throwing constructor: the constructed elements are destroyed, the memory is returned once, the record of the stack is as before, the exception propagates', 2)
    ck.rule('alloc.record', 'the task records the top of the stack read after the allocation; the returned object names the task, the memory and the count', 4)
    ck.rule('free', 'releasing destroys each element once, then returns exactly the memory, then records the top of the stack read afterwards', 4)
    ck.rule('span', 'the object exposes exactly the memory and count it owns', 2)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in ck.fns(mod['core'], r'alloc_awaitable::await_resume$', 'coalloc', 2):
            sz = elem_size(f, f.d.get('qual') or f.name)
            cls = 'hairy' in (f.d.get('qual') or f.name)
            for p in paths(f, visits=4 if cls else 2):
                al = p.calls(ALLOC)
                cnts = [e.val for e in p.evs if e.kind == 'load' and e.to('co_new_t::count')]
                own = [e.val for e in p.evs if e.kind == 'load' and any(x.endswith('::self') for x in e.flds) and 'frame' in f.type_names(e.val)]

                def leaf(c):
                    s = {strip_ids(x) for x in cnts}
                    return lambda e: c if strip_ids(e) in s else None
                if not al:
                    if p.end.kind == 'ret':
                        ck.bad('alloc.size', f.where(), 'no memory is allocated', f)
                    continue
                k, a = al[0]
                if not ck.need(len(al) == 1 and tls_stack(f, a.args[0]) and cnts, 'alloc.size', a.where(), 'memory is not requested exactly once from the stack of the current worker', f):
                    continue
                at = Facts(a.facts.f)
                for c in (0, 1, 2, 3, 5, 1000, (1 << 62) // sz, (M64 - 1) // sz, (M64 - 1) // sz + 1, M64 - 1, 1 << 63):
                    if not consistent(at, leaf(c)):
                        ck.ok('alloc.size', a.where())
                        continue
                    v = evalx(a.args[1], leaf(c))
                    ck.need(v is not None and v == c * sz and v < M64 - 8192, 'alloc.size', a.where(), 'for a count of %d, %s bytes are requested instead of %d' % (c, v, c * sz), f)
                ptr = a.rv
                if a.edge == 'unwind':
                    w = [e for e in p.evs[k:] if e.kind == 'store' and e.to(STKLET)]
                    ck.need(not w, 'alloc.record', f.where(), 'the record of the stack changes although no memory was obtained', f)
                    continue
                ctors = [(j, e) for j, e in p.calls(r'hairy::hairy$') if e.edge != 'unwind']
                thrown = [(j, e) for j, e in p.calls(r'hairy::hairy$') if e.edge == 'unwind']
                offs = [addr_off(e.args[0], ptr) for j, e in ctors]
                de = p.calls(DEALLOC)
                sts = [(j, e) for j, e in enumerate(p.evs) if e.kind == 'store' and e.to(STKLET)]
                if p.end.kind == 'ret':
                    if cls:
                        for c in range(0, 3):
                            if consistent(p.facts, leaf(c)):
                                ck.need(offs == [sz * n for n in range(c)], 'alloc.construct', a.where(), 'for a count of %d the elements constructed are %s' % (c, [o // sz if o is not None else '?' for o in offs]), f)
                    ck.need(not de, 'alloc.record', f.where(), 'the memory is returned although the allocation succeeded', f)
                    tops = top_loads(f, p, k)
                    good = sts and sts[-1][0] > k and any(same(strip_ids(split(sts[-1][1].addr)[0]), strip_ids(o)) for o in own) and any(sts[-1][1].val == t for t in tops)
                    ck.need(bool(good), 'alloc.record', sts[-1][1].where() if sts else f.where(), 'the task does not record the top of the stack as it is after the allocation', f)
                    ret = {}
                    for e in p.evs:
                        if e.kind == 'store' and split(e.addr)[0] == ('arg', 0):
                            for n in ('stack_allocated::m_frame', 'span::_M_ptr', '__extent_storage::_M_extent_value'):
                                if n in e.flds:
                                    ret[n] = e.val
                    pv = ret.get('span::_M_ptr')
                    ck.need('stack_allocated::m_frame' in ret and any(same(ret['stack_allocated::m_frame'], o) for o in own), 'alloc.record', f.where(), 'the returned object does not name the task', f)
                    ck.need(pv is not None and (pv == ptr or passthrough(p, pv, ptr)), 'alloc.record', f.where(), 'the returned object does not name the memory obtained', f)
                    ex = ret.get('__extent_storage::_M_extent_value')
                    ck.need(ex is not None and all(evalx(ex, leaf(c)) == c for c in (0, 1, 7)), 'alloc.record', f.where(), 'the returned object has the wrong element count', f)
                elif p.end.kind == 'unwind':
                    if not thrown:
                        continue_bad = [e for e in p.evs if e.kind == 'call' and e.edge == 'unwind']
                        ck.need(len(de) == 1, 'alloc.fail', f.where(), 'an exception after the allocation leaves without returning the memory', f)
                        continue
                    dn = destroyed(p, ptr, sz)
                    ck.need(sorted(dn) == sorted(offs) if None not in dn + offs else dn == offs, 'alloc.fail', thrown[0][1].where(), 'elements %s were constructed but %s are destroyed' % (offs, dn), f)
                    ck.need(len(de) == 1 and de[0][1].args[1] == ptr and tls_stack(f, de[0][1].args[0]) and de[0][0] > thrown[-1][0], 'alloc.fail', thrown[0][1].where(), 'the memory is not returned exactly once', f)
                    tops = top_loads(f, p, de[0][0]) if de else []
                    ck.need(not sts or any(sts[-1][1].val == t for t in tops), 'alloc.fail', f.where(), 'the record of the stack does not match the stack after the failure', f)
                    ck.need(not [e for e in p.evs if e.name == '__cxa_throw'], 'alloc.fail', f.where(), 'another exception replaces the constructor\'s', f)
                else:
                    ck.bad('alloc.fail', f.where(), 'a throwing constructor ends the program', f)
                if p.end.kind == 'ret' and thrown:
                    ck.bad('alloc.fail', thrown[0][1].where(), 'the exception of a constructor is swallowed', f)
        for f in ck.fns(mod['core'], r'stack_allocated::~stack_allocated$', 'coalloc', 2):
            sz = elem_size(f, f.d.get('qual') or f.name)
            cls = 'hairy' in (f.d.get('qual') or f.name)
            for p in paths(f, visits=4 if cls else 2):
                if p.end.kind == 'unreachable':
                    continue
                if p.end.kind != 'ret':
                    ck.bad('free', f.where(), 'releasing exits by exception', f)
                    continue
                ptrs = [e.val for e in p.evs if e.kind == 'load' and e.to('span::_M_ptr') and split(e.addr)[0] == ('arg', 0)]
                exts = [e.val for e in p.evs if e.kind == 'load' and e.to('__extent_storage::_M_extent_value') and split(e.addr)[0] == ('arg', 0)]
                sp, sx = {strip_ids(x) for x in ptrs}, {strip_ids(x) for x in exts}
                B = 1 << 20

                def leaf(c):
                    return lambda e: B if strip_ids(e) in sp else c if strip_ids(e) in sx else None
                de = p.calls(DEALLOC)
                if not ck.need(len(de) == 1 and tls_stack(f, de[0][1].args[0]) and strip_ids(de[0][1].args[1]) in sp, 'free', f.where(), 'the memory is not returned exactly once to the stack of the current worker', f):
                    continue
                k = de[0][0]
                ds = [(j, evalx(e.args[0], leaf(0))) for j, e in p.calls(r'hairy::~hairy$')]
                if cls:
                    for c in range(0, 3):
                        if consistent(p.facts, leaf(c)):
                            got = [None if x is None else (x - B) // sz for j, x in ds]
                            ck.need(sorted(map(str, got)) == sorted(str(n) for n in range(c)), 'free', f.where(), 'of %d elements those destroyed are %s' % (c, got), f)
                    ck.need(all(j < k for j, x in ds), 'free', de[0][1].where(), 'an element is destroyed after its memory was returned', f)
                sts = [(j, e) for j, e in enumerate(p.evs) if e.kind == 'store' and e.to(STKLET)]
                tops = top_loads(f, p, k)
                good = sts and sts[-1][0] > k and any(sts[-1][1].val == t for t in tops) and split(sts[-1][1].addr)[0][0] == 'ld' and 'stack_allocated::m_frame' in aliases(f, split(sts[-1][1].addr)[0][1])
                ck.need(bool(good), 'free', sts[-1][1].where() if sts else f.where(), 'the task does not record the top of the stack as it is after the release', f)
        for f in ck.fns(mod['core'], r'stack_allocated::get$', 'coalloc', 1):
            for p in paths(f):
                if p.end.kind != 'ret':
                    continue
                a, b = iv_get(p.ret, 0), iv_get(p.ret, 1)
                ck.need(loads_field(f, a, 'span::_M_ptr') and loads_field(f, b, '__extent_storage::_M_extent_value'), 'span', f.where(), 'the exposed range is not the one owned', f)
                ck.ok('span', f.where())


def addr_off(e, base):
    b, o = split(e)
    if b == base:
        return o
    a, c = linear(('op', 'sub', e, base), M64)
    return sgn(c) if not a else None


def passthrough(p, v, ptr):
    """v is the value of a one-argument std helper (to_address, launder) applied to ptr"""
    if v[0] != 'call':
        return False
    for e in p.evs:
        if e.kind == 'call' and e.rv == v and re.search(r'to_address$|launder', e.name) and e.args and e.args[-1] == ptr:
            return True
    return False


def destroyed(p, ptr, sz):
    out = []
    for j, e in p.calls(r'__destroy_fn::operator\(\)$|std::destroy$|std::_Destroy$|hairy::~hairy$'):
        if e.name.endswith('~hairy'):
            out.append(addr_off(e.args[0], ptr))
        else:
            lo, hi = addr_off(e.args[-2], ptr), addr_off(e.args[-1], ptr)
            out += [None] if lo is None or hi is None else list(range(lo, hi, sz))
    return out

