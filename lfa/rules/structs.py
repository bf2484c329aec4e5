"""Rules over the concurrent containers: deque (C06), intrusive list (C07), event count (C08), and
the ordering they give to what is passed through them (part of C02)."""
from ..kit import *

TOP, BOT, BUF, GARB = 'deque::m_top', 'deque::m_bottom', 'deque::m_buf', 'deque::m_garbage'
CAP, MASK, RBUF = 'atomic_ring_buf::m_cap', 'atomic_ring_buf::m_mask', 'atomic_ring_buf::m_buf'
HEAD, NEXT, DATA = 'intrusive_list::m_head', 'node::m_next', 'node::m_data'


def dq(ck, mod, rx, minimum=1):
    return ck.fns(mod['core'], rx, 'deque', minimum)


def li(ck, mod, rx, minimum=1):
    return ck.fns(mod['core'], rx, 'list', minimum)


def slot(f, addr):
    """(ring buffer object expr, index expr) of an element address, or None"""
    b, off = split(addr)
    if off or b[0] != 'idx' or b[1][0] != 'ld':
        return None
    base, o2 = split(b[1][1])
    if b[2][0] != 'op' or b[2][1] != 'and':
        return None
    for i, m in ((b[2][2], b[2][3]), (b[2][3], b[2][2])):
        if m[0] == 'ld' and RBUF in aliases(f, b[1][1]) and MASK in aliases(f, m[1]):
            mb = split(m[1])[0]
            if same(mb, base):
                return base, i
    return None


def eq_lin(a, b):
    return lin_sub(a, b, M64) == ({}, 0)


def first(p, kind, fld):
    for k, e in enumerate(p.evs):
        if e.kind == kind and e.to(fld):
            return k, e
    return None


def slot_events(f, p, kind):
    r = []
    for k, e in enumerate(p.evs):
        if e.kind == kind:
            s = slot(f, e.addr)
            if s:
                r.append((k, e, s[0], s[1]))
    return r


def delivers(p, lid):
    """does the value of load `lid` leave the function as (part of) its result?"""
    if p.ret is not None and any(a[0] == 'ld' and len(a) > 2 and a[2] == lid for a in atoms(p.ret)):
        return True
    return any(e.kind == 'store' and e.val is not None and not e.to(BOT, TOP, BUF) and any(a[0] == 'ld' and len(a) > 2 and a[2] == lid for a in atoms(e.val)) for e in p.evs)


def cas_ok(facts, e):
    return facts.truth(('ev', ('cas', e.i.v), (1,)))


# ============================================================================ C06
def c06(ck, mods):
    ck.rule('push.store', 'push writes the item into slot bottom of the current buffer, and only then makes bottom+1 visible with release semantics, exactly once', 2)
    ck.rule('push.room', 'push writes a slot only when the capacity exceeds the number of stored items, computed from an acquire load of top', 2)
    ck.rule('push.grow', 'growing copies every item between top and bottom to the same index of a larger power-of-two buffer, publishes that buffer with release, and keeps the old one alive in the garbage list', 2)
    ck.rule('push.strong', 'if growing fails the deque is unchanged', 1)
    ck.rule('pop.claim', 'pop lowers bottom before a full fence and reads top after it', 2)
    ck.rule('pop.last', 'the last item is delivered only after winning a seq_cst compare-exchange top -> top+1; more than one item needs none', 2)
    ck.rule('pop.empty', 'a lost race or an empty deque delivers no item, and bottom is put back whenever the claimed slot was not kept', 2)
    ck.rule('steal.order', 'steal reads top (acquire), then a full fence, then bottom (acquire), then the buffer (acquire/consume), then the item, then claims it with a seq_cst compare-exchange top -> top+1', 2)
    ck.rule('steal.result', 'steal delivers the item with code none iff the compare-exchange succeeded, lost iff it failed, empty iff top >= bottom', 2)
    ck.rule('deque.closed', 'no other operation changes top, bottom or the buffer; size never underflows', 4)
    ck.rule('deque.init', 'a new deque is empty and owns a buffer whose mask fits its capacity', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in dq(ck, mod, r'deque::push$', 2):
            push_rules(ck, f)
        for f in dq(ck, mod, r'deque::pop$', 2):
            pop_rules(ck, f)
        for f in dq(ck, mod, r'deque::steal$', 2):
            steal_rules(ck, f)
        for f in dq(ck, mod, r'deque::(empty|size|ssize)$', 2):
            w = [i for i in f.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg') and aliases(f, f.operand(i.ops[1] if i.op == 'store' else i.ops[0])) & {TOP, BOT, BUF}]
            ck.need(not w, 'deque.closed', w[0].where() if w else f.where(), 'a query modifies the deque', f)
            for p in paths(f):
                b, t = first(p, 'load', BOT), first(p, 'load', TOP)
                if p.end.kind != 'ret' or not b or not t:
                    ck.bad('deque.closed', f.where(), 'a size query does not read both ends', f)
                    continue
                d = ('op', 'sub', b[1].val, t[1].val)
                if f.q.endswith('empty'):
                    for val in (True, False):
                        nf = p.facts.assume(p.ret, val)
                        if nf is not None:
                            ck.need(ge(nf, ('op', 'sub', t[1].val, b[1].val)) if val else ge(nf, d, 1), 'deque.closed', f.where(), 'empty() does not mean top >= bottom', f)
                else:
                    r = sel(p.facts, p.ret)
                    ok = (r[0] == 'op' and r[1] == 'smax' and any(x == ('c', 0) and eq_lin(y, d) for x, y in ((r[2], r[3]), (r[3], r[2])))) \
                        or (eq_lin(r, d) and ge(p.facts, d)) or (r == ('c', 0) and ge(p.facts, ('op', 'sub', t[1].val, b[1].val))) \
                        or (r[0] == 'select' and all((nf is None) or (eq_lin(v, d) and ge(nf, d)) or (v == ('c', 0) and ge(nf, ('op', 'sub', t[1].val, b[1].val))) for nf, v in ((p.facts.assume(r[1], True), r[2]), (p.facts.assume(r[1], False), r[3]))))
                    ck.need(ok, 'deque.closed', f.where(), 'the size is not max(bottom - top, 0)', f)
        for f in dq(ck, mod, r'deque::deque$', 1):
            for p in paths(f, visits=3):
                if p.end.kind != 'ret':
                    continue
                st = {x: e.val for e in p.evs if e.kind == 'store' for x in (TOP, BOT, BUF, CAP, MASK) if e.to(x)}
                if any(e.kind == 'call' and e.name.endswith('deque::deque') for e in p.evs):
                    continue
                ok = TOP in st and BOT in st and st[TOP] == st[BOT] and BUF in st and CAP in st and MASK in st and eq_lin(st[MASK], addoff(st[CAP], -1))
                ck.need(ok, 'deque.init', f.where(), 'a new deque does not start empty with a consistent buffer', f)


def push_rules(ck, f):
    for p in paths(f, visits=3):
        b, t = first(p, 'load', BOT), first(p, 'load', TOP)
        w = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('store', 'rmw', 'cas') and e.to(BOT)]
        bw = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('store', 'rmw', 'cas') and e.to(BUF) and not e.to(RBUF)]
        tw = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('store', 'rmw', 'cas') and e.to(TOP)]
        ck.need(not tw, 'push.store', f.where(), 'push modifies top', f)
        if p.end.kind != 'ret':
            ck.need(not w and not bw, 'push.strong', f.where(), 'an exception leaves the deque modified', f)
            continue
        if not ck.need(b is not None, 'push.store', f.where(), 'push does not read bottom', f):
            continue
        bv = b[1].val
        ss = slot_events(f, p, 'store')
        if not ck.need(len(w) == 1 and w[0][1].kind == 'store' and eq_lin(w[0][1].val, addoff(bv, 1)), 'push.store', w[0][1].where() if w else f.where(), 'push must set bottom to bottom+1 exactly once', f):
            continue
        kw, ew = w[0]
        newb = None
        if bw:
            kb, eb = bw[-1]
            newb = eb.val
            ck.need(len(bw) == 1 and (eb.i.get('order') in STRONG_REL or any(is_rel_fence(x) for x in p.evs[last_init(p, newb):kb])), 'push.grow', eb.where(), 'the grown buffer is published without release: a thief may use it uninitialised', f)
        item = [(k, e, bb, i) for k, e, bb, i in ss if e.val[0] == 'ld' and split(e.val[1])[0] == ('arg', 1)]
        cur = newb
        if cur is None:
            l = first(p, 'load', BUF)
            cur = l[1].val if l else None
        good = len(item) == 1 and cur is not None and (item[0][2] == cur or same(item[0][2], cur)) and eq_lin(item[0][3], bv)
        if ck.need(good, 'push.store', item[0][1].where() if item else f.where(), 'the item is not written exactly once, at index bottom of the current buffer', f):
            rel = ew.i.get('order') in STRONG_REL or any(is_rel_fence(x) for x in p.evs[item[0][0] + 1:kw])
            ck.need(item[0][0] < kw and rel, 'push.store', ew.where(), 'bottom is advanced without release after the item was written', f)
        if not newb:
            caps = [e.val for e in p.evs if e.kind == 'load' and e.to(CAP)]
            masks = [addoff(e.val, 1) for e in p.evs if e.kind == 'load' and e.to(MASK)]
            room = t is not None and any(ge(p.facts, ('op', 'sub', ('op', 'sub', c, bv), ('op', 'sub', ('c', 0), t[1].val)), 1) for c in caps + masks)
            ck.need(room, 'push.room', f.where(), 'a slot is written although capacity > bottom - top was not established', f)
            ck.need(t is not None and t[1].i.get('order') in STRONG_ACQ, 'push.room', t[1].where() if t else f.where(), 'top is read without acquire: the slot may still be in use by a thief', f)
        else:
            grow_rules(ck, f, p, bv, t, newb, item)


def last_init(p, obj):
    r = 0
    for k, e in enumerate(p.evs):
        if e.kind == 'store' and mentions(e.addr, obj):
            r = k
    return r


def grow_rules(ck, f, p, bv, t, newb, item):
    R = 'push.grow'
    ob = first(p, 'load', BUF)
    old = ob[1].val if ob else None
    if not ck.need(old is not None and newb[0] == 'call', R, f.where(), 'the grown buffer is not a fresh object', f):
        return
    nc = [e.val for e in p.evs if e.kind == 'store' and e.to(CAP) and split(e.addr)[0] == newb]
    nm = [e.val for e in p.evs if e.kind == 'store' and e.to(MASK) and split(e.addr)[0] == newb]
    ok = bool(nc) and bool(nm) and eq_lin(nm[-1], addoff(nc[-1], -1))
    a, c = linear(nc[-1], M64) if nc else ({}, 0)
    ok = ok and len(a) == 1 and c == 0 and list(a)[0][0] == 'ld' and CAP in aliases(f, list(a)[0][1]) and split(list(a)[0][1])[0] == old and list(a.values())[0] in (2, 4, 8, 16)
    ck.need(ok, R, f.where(), 'the grown buffer is not a power-of-two multiple of the old capacity with a matching mask', f)
    # the copy loop: indices top, top+1, ... until bottom
    tv = t[1].val if t else None
    copies = [(e, bb, i) for k, e, bb, i in slot_events(f, p, 'store') if same(bb, newb) and not any(e is x[1] for x in item)]
    idx = tv
    for e, bb, i in copies:
        s = slot(f, e.val[1]) if e.val[0] == 'ld' else None
        ck.need(idx is not None and eq_lin(i, idx), R, e.where(), 'growing does not copy consecutive items from top on', f)
        ck.need(s is not None and same(s[0], old) and eq_lin(s[1], i), R, e.where(), 'growing copies an item from a different index or buffer', f)
        idx = addoff(i, 1)
    ck.need(idx is not None and p.facts.zero(('op', 'sub', idx, bv)) is True or ge(p.facts, ('op', 'sub', idx, bv)), R, f.where(), 'growing stops before bottom: items are lost', f)
    keep = [e for e in p.evs if e.kind == 'call' and e.edge != 'unwind' and re.search(r'std::vector::(emplace_back|push_back|emplace|insert)$', e.name)]
    ok = False
    for e in keep:
        for x in e.args[1:]:
            if x == old or any(y.kind == 'store' and y.addr == x and y.val == old for y in p.evs):
                ok = True
    ck.need(ok, R, f.where(), 'the old buffer is not kept alive for thieves that may still read it', f)
    bad = [e for e in p.evs if e.kind == 'call' and ((re.search(r'operator delete|^free$', e.name) and e.args and mentions(e.args[0], old)) or re.search(r'std::vector::(clear|pop_back|resize|erase|operator=)$', e.name))]
    ck.need(not bad, R, bad[0].where() if bad else f.where(), 'the old buffer is freed while thieves may still read it', f)


def pop_rules(ck, f):
    for p in paths(f):
        b, t = first(p, 'load', BOT), first(p, 'load', TOP)
        w = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('store', 'rmw', 'cas') and e.to(BOT)]
        if not ck.need(b and t and w, 'pop.claim', f.where(), 'pop does not claim a slot by lowering bottom', f):
            continue
        bv, tv = b[1].val, t[1].val
        nb = addoff(bv, -1)
        kc, ec = w[0]
        ck.need(ec.kind == 'store' and eq_lin(ec.val, nb), 'pop.claim', ec.where(), 'bottom is not lowered by one', f)
        fence = any(full_fence(x) for x in p.evs[kc + 1:t[0]]) or (ec.i.get('order') == 'seq_cst' and t[1].i.get('order') == 'seq_cst')
        ck.need(kc < t[0] and fence, 'pop.claim', t[1].where(), 'no full fence between lowering bottom and reading top', f)
        cs = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'cas' and e.to(TOP)]
        for k, e in cs:
            ck.need(eq_lin(e.args[0], tv) and eq_lin(e.val, addoff(tv, 1)) and e.i.get('order') == 'seq_cst' and not e.i.get('weak'), 'pop.last', e.where(), 'the race for the last item is not a strong seq_cst compare-exchange top -> top+1', f)
        ck.need(not [e for e in p.evs if e.kind in ('store', 'rmw') and e.to(TOP)], 'pop.last', f.where(), 'the owner changes top without competing for it', f)
        loads = [(k, e, i) for k, e, bb, i in slot_events(f, p, 'load')]
        item = [x for x in loads if delivers(p, x[1].val[2])]
        more = ge(p.facts, ('op', 'sub', nb, tv), 1)
        eqv = p.facts.zero(('op', 'sub', nb, tv)) is True
        won = any(cas_ok(p.facts, e) is True for k, e in cs)
        endb = w[-1][1].val
        if item:
            ck.need(len(item) == 1 and eq_lin(item[0][2], nb), 'pop.last', item[0][1].where(), 'pop returns the wrong slot', f)
            ck.need(item[0][0] > kc, 'pop.claim', item[0][1].where(), 'the item is read before the slot is claimed', f)
            ck.need(more or (eqv and won), 'pop.last', p.end.where(), 'an item is delivered that a thief may also take', f)
            want = nb if more else bv
            ck.need(eq_lin(endb, want), 'pop.empty', w[-1][1].where(), 'bottom is left at the wrong position after a pop', f)
        else:
            lost = eqv and any(cas_ok(p.facts, e) is False for k, e in cs)
            none = ge(p.facts, ('op', 'sub', tv, nb), 1)
            ck.need(lost or none, 'pop.empty', p.end.where(), 'an item is dropped: pop reports empty although it claimed one', f)
            ck.need(eq_lin(endb, bv), 'pop.empty', w[-1][1].where(), 'bottom is not restored when nothing was popped', f)


def steal_rules(ck, f):
    for p in paths(f):
        if not ck.need(p.end.kind == 'ret', 'steal.result', f.where(), 'steal may throw', f):
            continue
        t, b = first(p, 'load', TOP), first(p, 'load', BOT)
        if not ck.need(t and b and t[0] < b[0], 'steal.order', f.where(), 'steal must read top and then bottom', f):
            continue
        tv, bv = t[1].val, b[1].val
        ck.need(t[1].i.get('order') in STRONG_ACQ or any(is_acq_fence(x) for x in p.evs[t[0]:b[0]]), 'steal.order', t[1].where(), 'top is read without acquire', f)
        fence = any(full_fence(x) for x in p.evs[t[0] + 1:b[0]]) or (t[1].i.get('order') == 'seq_cst' and b[1].i.get('order') == 'seq_cst')
        ck.need(fence, 'steal.order', b[1].where(), 'no full fence between reading top and bottom', f)
        ck.need(not [e for e in p.evs if e.kind in ('store', 'rmw', 'cas') and e.to(BOT, BUF) and not e.to(RBUF)], 'steal.order', f.where(), 'a thief modifies bottom or the buffer', f)
        cs = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'cas' and e.to(TOP)]
        ck.need(not [e for e in p.evs if e.kind in ('store', 'rmw') and e.to(TOP)], 'steal.order', f.where(), 'a thief changes top without competing for it', f)
        codes = result_codes(f, p)
        if not cs:
            ck.need(ge(p.facts, ('op', 'sub', tv, bv)), 'steal.result', p.end.where(), 'steal gives up although there was an item', f)
            ck.need(codes == [2], 'steal.result', p.end.where(), 'an empty deque is not reported as empty (code %s)' % codes, f)
            continue
        if not ck.need(len(cs) == 1, 'steal.order', f.where(), 'more than one claim on a path', f):
            continue
        k, e = cs[0]
        ck.need(b[1].i.get('order') in STRONG_ACQ or any(is_acq_fence(x) for x in p.evs[b[0]:k]), 'steal.order', b[1].where(), 'bottom is read without acquire: the item may not be visible', f)
        ck.need(ge(p.facts, ('op', 'sub', bv, tv), 1), 'steal.result', e.where(), 'claims an item although top < bottom was not established', f)
        ck.need(eq_lin(e.args[0], tv) and eq_lin(e.val, addoff(tv, 1)) and e.i.get('order') == 'seq_cst' and not e.i.get('weak'), 'steal.order', e.where(), 'the claim is not a strong seq_cst compare-exchange top -> top+1', f)
        its = [(kk, x, bb, i) for kk, x, bb, i in slot_events(f, p, 'load') if delivers(p, x.val[2])]
        if not its:
            its = [(kk, x, bb, i) for kk, x, bb, i in slot_events(f, p, 'load')]
        if not ck.need(len(its) == 1 and eq_lin(its[0][3], tv), 'steal.order', e.where(), 'the item at top is not read', f):
            continue
        ck.need(its[0][0] < k, 'steal.order', its[0][1].where(), 'the item is read after it was claimed: the owner may have overwritten the slot', f)
        bl = [(kk, x) for kk, x in enumerate(p.evs) if x.kind == 'load' and x.val == its[0][2]]
        ck.need(bl and bl[0][1].to(BUF) and bl[0][0] > b[0], 'steal.order', its[0][1].where(), 'the buffer is read before bottom: it may be too old to hold the item', f)
        if bl:
            ck.need(bl[0][1].i.get('order') in STRONG_ACQ, 'steal.order', bl[0][1].where(), 'the buffer pointer is read without acquire', f)
        for val, want in ((True, 0), (False, 1)):
            nf = p.facts.assume(('ev', ('cas', e.i.v), (1,)), val)
            if nf is None:
                continue
            cv = [ceval(nf, x) for x in result_code_exprs(f, p)]
            ck.need(cv == [want], 'steal.result', p.end.where(), 'a %s claim is reported with code %s' % ('won' if val else 'lost', cv), f)
            if val:
                v = iv_get(p.ret, 1)
                if v is not None:
                    v = sel(nf, v)
                    ck.need(v == its[0][1].val, 'steal.result', p.end.where(), 'the stolen item is not what is delivered', f)
                else:
                    ck.need(delivers(p, its[0][1].val[2]), 'steal.result', p.end.where(), 'the stolen item is not delivered', f)


def result_code_exprs(f, p):
    if p.ret is not None and p.ret[0] == 'iv':
        v = iv_get(p.ret, 0)
        return [v] if v is not None else []
    st = [e.val for e in p.evs if e.kind == 'store' and e.to('steal_t::code')]
    return st[-1:]


def result_codes(f, p):
    return [ceval(p.facts, x) for x in result_code_exprs(f, p)]


# ============================================================================ C07
def c07(ck, mods):
    ck.rule('list.push', 'push links the node to the head it competes against and returns only after a successful release compare-exchange head -> node', 2)
    ck.rule('list.take', 'try_pop_all detaches the whole list with one acquire exchange', 2)
    ck.rule('list.fifo', 'try_pop_all returns every detached node exactly once, oldest first, null-terminated', 2)
    ck.rule('list.visit', 'for_each_elem calls the function once per node in order and does not touch a node after handing it over', 1)
    ck.rule('list.node', 'a new node holds its value and is linked to nothing', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        for f in li(ck, mod, r'intrusive_list::push$', 2):
            for p in paths(f, visits=3):
                if not ck.need(p.end.kind == 'ret', 'list.push', f.where(), 'push may throw', f):
                    continue
                ops = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('cas', 'rmw', 'store') and e.to(HEAD)]
                k, e = ops[-1] if ops else (0, None)
                if not ck.need(e is not None and e.kind == 'cas' and cas_ok(p.facts, e) is True and e.val == ('arg', 1), 'list.push', e.where() if e else f.where(), 'push returns without having installed the node', f):
                    continue
                ck.need(e.i.get('order') in STRONG_REL or any(is_rel_fence(x) for x in p.evs[:k]), 'list.push', e.where(), 'the node is published without release', f)
                ck.need(all(x.kind == 'cas' for _, x in ops) and all(cas_ok(p.facts, x) is not True or x is e for _, x in ops[:-1] if x.i is not e.i), 'list.push', e.where(), 'the head is changed more than once', f)
                ln = [(kk, x) for kk, x in enumerate(p.evs) if x.kind == 'store' and x.to(NEXT) and split(x.addr)[0] == ('arg', 1)]
                before = [x for kk, x in ln if kk < k]
                ck.need(before and before[-1].val == e.args[0] and not [1 for kk, x in ln if kk > k], 'list.push', e.where(), 'the node is not linked to the head it replaces', f)
        for f in li(ck, mod, r'intrusive_list::try_pop_all$', 2):
            for p in paths(f, visits=5):
                if not ck.need(p.end.kind == 'ret', 'list.take', f.where(), 'may throw', f):
                    continue
                ops = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('cas', 'rmw', 'store') and e.to(HEAD)]
                ld = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'load' and e.to(HEAD)]
                if not ops and ld:      # an early "is it empty" look is fine when it leads to nothing
                    ck.need(p.facts.zero(ld[-1][1].val) is True and p.ret == ('c', 0), 'list.take', f.where(), 'the list is returned without being detached', f)
                    continue
                if not ck.need(len(ops) == 1 and ops[0][1].kind == 'rmw' and ops[0][1].name == 'xchg' and ops[0][1].val == ('c', 0), 'list.take', ops[0][1].where() if ops else f.where(), 'the list must be detached by exchanging the head with null', f):
                    continue
                k, e = ops[0]
                ck.need(e.i.get('order') in STRONG_ACQ or any(is_acq_fence(x) for x in p.evs[k:k + 2]), 'list.take', e.where(), 'the nodes are taken without acquire', f)
                heap, order = {}, []
                cur = ('rmw', e.i.v)
                loaded = {}
                for x in p.evs[k + 1:]:
                    if x.kind == 'load' and x.to(NEXT):
                        n = strip2(split(x.addr)[0])
                        if n in heap:
                            ck.bad('list.fifo', x.where(), 'reads the link of a node after overwriting it', f)
                        loaded[n] = x.val
                    elif x.kind == 'store' and x.to(NEXT):
                        heap[strip2(split(x.addr)[0])] = strip2(x.val)
                # chain in push order (newest first)
                chain = []
                c = cur
                ended = False
                while len(chain) < 8:
                    if p.facts.zero(c) is True:
                        ended = True
                        break
                    chain.append(strip2(c))
                    if strip2(c) not in loaded:
                        break
                    c = loaded[strip2(c)]
                if not ck.need(ended, 'list.fifo', p.end.where(), 'the walk ends before the last node', f):
                    continue
                r, out = strip2(p.ret) if p.facts.zero(p.ret) is not True else ('c', 0), []
                while r != ('c', 0) and len(out) <= len(chain):
                    out.append(r)
                    r = heap.get(r, ('?',))
                ck.need(out == chain[::-1] and r == ('c', 0), 'list.fifo', p.end.where(), 'a list of %d nodes is not returned completely, oldest first' % len(chain), f)
        n = 0
        for f in li(ck, mod, r'for_each_elem$', 2):
            if not any(i.is_call and (i.get('cq') or '').startswith('probe::') for i in f.insts()):
                continue
            n += 1
            for p in paths(f, visits=4):
                cur = ('arg', 0)
                last = None
                calls = 0
                for k, e in enumerate(p.evs):
                    if e.kind == 'call' and e.name.startswith('probe::'):
                        calls += 1
                        got = [a for a in e.args if (a[0] == 'ld' and DATA in aliases(f, a[1])) or DATA in aliases(f, a)]
                        base = split(got[0][1])[0] if got and got[0][0] == 'ld' and DATA in aliases(f, got[0][1]) else (split(got[0])[0] if got else None)
                        ck.need(base is not None and cur is not None and same(base, cur), 'list.visit', e.where(), 'the function is not called with the next element in order', f)
                        ck.need(cur is not None and e.facts.zero(cur) is False, 'list.visit', e.where(), 'a null node is visited', f)
                        gone = base
                        for x in p.evs[k + 1:]:
                            if x.kind in ('load', 'store') and gone is not None and same(split(x.addr)[0], gone):
                                ck.bad('list.visit', x.where(), 'a node is read after it was handed to the function', f)
                        nx = [x.val for x in p.evs[:k] if x.kind == 'load' and x.to(NEXT) and base is not None and same(split(x.addr)[0], base)]
                        cur = nx[-1] if nx else None
                        last = e
                if p.end.kind == 'ret':
                    ck.need(cur is not None and p.facts.zero(cur) is True, 'list.visit', p.end.where(), 'the visit stops before the last element', f)
        if not n:
            raise AnalysisBroken('no user instantiation of for_each_elem')
        for f in li(ck, mod, r'node::node$', 1):
            if f.nargs < 2:
                continue
            for p in paths(f):
                st = {x: e.val for e in p.evs if e.kind == 'store' for x in (NEXT, DATA) if e.to(x)}
                nx = st.get(NEXT)
                d = st.get(DATA)
                ck.need(nx == ('c', 0) and d is not None and mentions(d, ('arg', 1)), 'list.node', f.where(), 'a node must start with its value and no successor', f)


def strip2(e):
    return strip_ids(e)


# ============================================================================ C08
VAL = 'event_count::m_val'
EPOCH = 1 << 32


def ec_delta(e):
    """signed change of m_val by a read-modify-write, or None"""
    if e.kind != 'rmw' or e.name not in ('add', 'sub'):
        return None
    a, c = linear(e.val, M64)
    if a:
        return None
    c = sgn(c)
    return c if e.name == 'add' else -c


def ec_events(f, p):
    """[(index, kind)] with kind prepare / leave / notify / wait / wake / bad"""
    r = []
    for k, e in enumerate(p.evs):
        if e.kind in ('store', 'rmw', 'cas') and e.to(VAL):
            d = ec_delta(e)
            r.append((k, {1: 'prepare', -1: 'leave', EPOCH: 'epoch'}.get(d, 'bad'), e))
        elif e.kind == 'call' and re.search(r'__atomic_wait', e.name):
            r.append((k, 'wait', e))
        elif e.kind == 'call' and re.search(r'__atomic_notify', e.name):
            r.append((k, 'wake', e))
    return r


def is_key(f, e, rm):
    """is e the epoch half of the value fetched by rm?"""
    old = ('rmw', rm.i.v)
    while e[0] == 'iv':
        e = e[2]
    return e == ('op', 'lshr', old, ('c', 32))


def c08(ck, mods):
    ck.rule('notify.epoch', 'every notification advances the epoch once with release semantics and wakes the epoch word whenever waiters were registered; notify_all wakes all of them', 2)
    ck.rule('prepare', 'preparing registers one waiter with acquire semantics and returns the epoch observed by that same operation', 1)
    ck.rule('wait.pair', 'waiting blocks on the epoch word against the given key and then unregisters exactly one waiter; cancelling unregisters exactly one', 2)
    ck.rule('await.pair', 'in await every prepared wait is cancelled or completed on every path, the predicate is evaluated between preparing and waiting, the wait uses that key, and it returns only when the predicate held', 1)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        E = lambda rx, n=1: ck.fns(mod['core'], rx, 'ec', n)
        for f in E(r'event_count::notify_(one|all)$', 2):
            allf = f.q.endswith('all')
            for p in paths(f):
                ev = ec_events(f, p)
                ep = [(k, e) for k, kd, e in ev if kd == 'epoch']
                if not ck.need(p.end.kind == 'ret' and len(ep) == 1 and not [1 for k, kd, e in ev if kd in ('bad', 'prepare', 'leave')], 'notify.epoch', f.where(), 'a notification does not advance the epoch exactly once', f):
                    continue
                k, e = ep[0]
                ck.need(e.i.get('order') in STRONG_REL, 'notify.epoch', e.where(), 'the epoch is advanced without release', f)
                wk = [(kk, x) for kk, kd, x in ev if kd == 'wake']
                old = ('rmw', e.i.v)
                waiters = None
                for z in (('op', 'and', old, ('c', EPOCH - 1)),):
                    t = p.facts.zero(z)
                    waiters = (not t) if t is not None else None
                if waiters is not False:
                    if ck.need(wk and wk[-1][0] > k, 'notify.epoch', e.where(), 'waiters may be registered but are not woken after the epoch changed', f):
                        a = wk[-1][1].args
                        ck.need(split(a[0]) == (('arg', 0), 4), 'notify.epoch', wk[-1][1].where(), 'the wrong word is notified', f)
                        if allf:
                            ck.need(a[1][0] == 'c' and a[1][1] & 1, 'notify.epoch', wk[-1][1].where(), 'notify_all wakes a single waiter', f)
                else:
                    ck.ok('notify.epoch', e.where())
        for f in E(r'event_count::prepare_wait$'):
            for p in paths(f):
                ev = ec_events(f, p)
                if ck.need(p.end.kind == 'ret' and [kd for k, kd, e in ev] == ['prepare'], 'prepare', f.where(), 'does not register exactly one waiter', f):
                    e = ev[0][2]
                    ck.need(e.i.get('order') in STRONG_ACQ, 'prepare', e.where(), 'registers without acquire: work published before a notification may be missed', f)
                    ck.need(is_key(f, p.ret, e), 'prepare', p.end.where(), 'the key is not the epoch this registration observed', f)
        for f in E(r'event_count::cancel_wait$'):
            for p in paths(f):
                ev = ec_events(f, p)
                ck.need(p.end.kind == 'ret' and [kd for k, kd, e in ev] == ['leave'], 'wait.pair', f.where(), 'cancel does not unregister exactly one waiter', f)
        for f in E(r'event_count::wait$'):
            for p in paths(f):
                ev = ec_events(f, p)
                if p.end.kind != 'ret':
                    continue
                if ck.need([kd for k, kd, e in ev] == ['wait', 'leave'], 'wait.pair', f.where(), 'a wait must block and then unregister exactly one waiter', f):
                    a = ev[0][2].args
                    key = a[1]
                    ck.need(split(a[0]) == (('arg', 0), 4) and mentions(key, ('arg', 1)), 'wait.pair', ev[0][2].where(), 'does not wait for the epoch to differ from the key', f)
        for f in E(r'event_count::await$'):
            for p in paths(f, visits=3):
                ev = ec_events(f, p)
                preds = [(k, e) for k, e in enumerate(p.evs) if e.kind == 'call' and e.name.startswith('probe::')]
                held, key = 0, None
                seq = sorted([(k, kd, e) for k, kd, e in ev] + [(k, 'pred', e) for k, e in preds], key=lambda x: x[0])
                since = False
                for k, kd, e in seq:
                    if kd == 'prepare':
                        held += 1
                        key, since = e, False
                        ck.need(held == 1, 'await.pair', e.where(), 'a second wait is prepared before the first was paired', f)
                    elif kd == 'leave':
                        held -= 1
                        ck.need(held == 0, 'await.pair', e.where(), 'a waiter that was not registered is removed', f)
                    elif kd == 'pred':
                        since = True
                    elif kd == 'wait':
                        ck.need(held == 1 and since and key is not None and is_key(f, e.args[1], key), 'await.pair', e.where(), 'waits without having checked the condition after preparing, or with another key', f)
                    elif kd == 'bad':
                        ck.bad('await.pair', e.where(), 'unknown change of the waiter count', f)
                ck.need(held == 0, 'await.pair', p.end.where(), 'await leaves a registered waiter behind' + ('' if p.end.kind == 'ret' else ' when the condition throws'), f)
                if p.end.kind == 'ret':
                    lp = preds[-1][1] if preds else None
                    ck.need(lp is not None and p.facts.truth(('call', lp.i.v)) is True, 'await.pair', p.end.where(), 'await returns although the condition did not hold', f)


# ============================================================================ part of C02
def queue_orders(ck, mod):
    R = 'queue.order'
    for f in dq(ck, mod, r'deque::push$', 2):
        for p in paths(f, visits=3):
            if p.end.kind != 'ret':
                continue
            w = [(k, e) for k, e in enumerate(p.evs) if e.kind in ('store', 'rmw') and e.to(BOT)]
            for k, e in w[-1:]:
                ck.need(e.i.get('order') in STRONG_REL or any(is_rel_fence(x) for x in p.evs[:k]), R, e.where(), 'a task is offered to thieves without release', f)
    for f in dq(ck, mod, r'deque::steal$', 2):
        for p in paths(f):
            b = first(p, 'load', BOT)
            if b and [e for e in p.evs if e.kind == 'cas']:
                ck.need(b[1].i.get('order') in STRONG_ACQ or any(is_acq_fence(x) for x in p.evs[b[0]:]), R, b[1].where(), 'a task is taken by a thief without acquire', f)
    for f in li(ck, mod, r'intrusive_list::push$', 2):
        for p in paths(f, visits=3):
            for k, e in enumerate(p.evs):
                if e.kind in ('cas', 'rmw', 'store') and e.to(HEAD):
                    ck.need(e.i.get('order') in STRONG_REL or any(is_rel_fence(x) for x in p.evs[:k]), R, e.where(), 'a submission is published without release', f)
    for f in li(ck, mod, r'intrusive_list::try_pop_all$', 2):
        for p in paths(f, visits=3):
            for k, e in enumerate(p.evs):
                if e.kind == 'rmw' and e.to(HEAD):
                    ck.need(e.i.get('order') in STRONG_ACQ or any(is_acq_fence(x) for x in p.evs[k:k + 2]), R, e.where(), 'submissions are taken without acquire', f)
