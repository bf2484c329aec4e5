"""The segmented fibre stack (C05)."""
from ..kit import *

ALLOC = re.compile(r'^(malloc|operator new|aligned_alloc|_Znwm.*)$')
FREE = re.compile(r'^(free|operator delete|_ZdlPv.*)$')


def layout(mod):
    """offsets of the stacklet's members and of the stack's pointer"""
    for k, d in mod.T.t.items():
        if d.get('n') == 'stacklet' and d.get('m'):
            off = {m['n']: m['off'] for m in d['m'] if m['n']}
            if {'m_lo', 'm_sp', 'm_hi', 'm_prev', 'm_next'} <= set(off):
                return off, max(off.values()) + 8
    raise AnalysisBroken('stacklet layout not found')


def frees(h):
    return [(k, e) for k, e in enumerate(h.evs) if e.kind == 'call' and FREE.search(e.name)]


class St:
    """symbolic view of the stack object `this` at the end of one path"""
    def __init__(self, h, off):
        self.h, self.off = h, off
        self.this = ('arg', 0)
        self.F = m0(self.this)                       # top stacklet on entry
        self.cur = h.get(self.this, 0) or self.F     # top stacklet on exit
        self.N = m0(self.F, off['m_next'])           # cached stacklet on entry
        self.P = m0(self.F, off['m_prev'])
        self.zero = h.facts.zero

    def fld(self, obj, f):
        b, o = split(obj)
        return self.h.mem.get((b, o + self.off[f]), m0(obj, self.off[f]))

    def written(self, obj, f):
        """was obj.f stored to on this path with a value other than the one it had?"""
        b, o = split(obj)
        v = self.h.mem.get((b, o + self.off[f]))
        return v is not None and v != m0(obj, self.off[f])

    def is_null(self, e):
        return e == ('c', 0) or self.zero(e) is True


def fresh_of(h):
    """heap blocks obtained on the path: {call expr: size}"""
    return {('call', e.i.v): e.args[0] for e in h.evs if e.kind == 'call' and ALLOC.search(e.name)}


def c05(ck, mods):
    ck.rule('alloc.bounds', 'allocate returns [sp, sp+E) of the stacklet that becomes the top: E is at least the requested size, sp advances by exactly E and a path condition or the size of the fresh block proves sp+E <= hi', 3)
    ck.rule('alloc.align', 'E and the first address of a fresh stacklet are multiples of the default new alignment', 2)
    ck.rule('alloc.advance', 'the cached stacklet is used only if it exists; a fresh stacklet is linked in both directions and replaces (and frees) a cached one that is too small', 2)
    ck.rule('alloc.strong', 'when the system allocator fails the stack is unchanged', 1)
    ck.rule('dealloc', 'deallocate restores sp; a stacklet that becomes empty and has a predecessor stays cached above it; nothing in use is freed, nothing is freed twice, and no link is lost without freeing what it owned', 3)
    ck.rule('stack.life', 'a stack is built on a fresh stacklet, release hands over the old top and installs a fresh stacklet (or changes nothing when that fails), moves exchange the tops, destruction frees the top and its cached stacklet once', 4)
    ck.rule('coro.frame', 'coroutine frames are allocated and released on the current worker\'s fibre stack, with the requested size and the same pointer', 2)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        mod = mod['core'] if isinstance(mod, dict) else mod
        off, used = layout(mod)
        for f in ck.fns(mod, r'^lf::impl::stack::allocate$', 'stack'):
            for p in paths(f):
                allocate_path(ck, f, p, off, used)
        for f in ck.fns(mod, r'^lf::impl::stack::deallocate$', 'stack'):
            for p in paths(f):
                dealloc_path(ck, f, p, off)
        life(ck, mod, off, used)
        for f in ck.fns(mod, r'^lf::impl::promise(_base)?::operator (new|delete)$', 'pnew', 2):
            new = f.q.endswith('new')
            for p in paths(f):
                if p.end.kind == 'unwind' and p.evs[-2].edge == 'unwind':
                    continue
                cs = p.calls(r'stack::(allocate|deallocate)$')
                good = len(cs) == 1 and cs[0][1].name.endswith('::allocate' if new else '::deallocate') and tls_of(f, cs[0][1].args[0], 'thread_stack') and cs[0][1].args[1] == ('arg', 0)
                if new:
                    good = good and p.ret == ('call', cs[0][1].i.v)
                ck.need(good, 'coro.frame', f.where(), 'a coroutine frame is not %s exactly once on the worker\'s stack' % ('allocated' if new else 'released'), f)


def fresh_block(ck, rule, f, s, X, size, off, used, prev):
    """checks the initialisation of a fresh stacklet at X with `size` bytes"""
    w = f.where()
    lo, sp0, hi = s.fld(X, 'm_lo'), None, s.fld(X, 'm_hi')
    d, c = lin_sub(lo, X, M64)
    ck.need(not d and sgn(c) >= used, rule, w, 'a fresh stacklet\'s memory overlaps its header', f)
    ck.need(not d and c % 16 == 0, 'alloc.align' if 'alloc.align' in ck.rules else rule, w, 'a fresh stacklet does not start aligned', f)
    ck.need(at_least(addoff(('op', 'sub', X, hi), 0) if False else ('op', 'add', X, size), hi), rule, w, 'a fresh stacklet claims more memory than was allocated', f)
    pv = s.fld(X, 'm_prev')
    ck.need((s.is_null(pv) and prev is None) or pv == prev, rule, w, 'a fresh stacklet has the wrong predecessor', f)
    nx = s.fld(X, 'm_next')
    ck.need(s.is_null(nx), rule, w, 'a fresh stacklet does not start without a successor', f)


def allocate_path(ck, f, p, off, used):
    h = Heap(p)
    s = St(h, off)
    fr = fresh_of(h)
    if p.end.kind != 'ret':
        # failed: the only legal way is an allocation failure or the throw of bad_alloc
        touched = [e for e in h.evs if e.kind == 'store' and e.addr[0] != 'alloca' and split(e.addr)[0] not in fr and not e.i.get('exn')]
        touched = [e for e in touched if e.to('stack::m_fib', 'stacklet::m_next', 'stacklet::m_sp', 'stacklet::m_prev', 'stacklet::m_lo', 'stacklet::m_hi')]
        ck.need(not touched and not frees(h), 'alloc.strong', p.end.where(), 'a failed allocation changes the stack', f)
        return
    w = p.end.where()
    X = s.cur
    r = p.ret
    r = h.rw(r)
    # which stacklet serves the request?
    kind = 'fresh' if X in fr else 'old' if X == s.F else 'cached' if X == s.N else None
    if not ck.need(kind is not None, 'alloc.advance', w, 'the new top stacklet is neither the old top, its cached successor nor a fresh one', f):
        return
    sp_stores = [e for e in h.evs if e.kind == 'store' and e.addr == addoff(X, off['m_sp'])]
    spn = s.fld(X, 'm_sp')
    start = s.fld(X, 'm_lo') if kind == 'fresh' else m0(X, off['m_sp'])
    if kind == 'fresh' and len(sp_stores) > 1:
        start = sp_stores[-2].val
        ck.need(start == s.fld(X, 'm_lo'), 'alloc.bounds', w, 'a fresh stacklet does not start empty', f)
    if kind == 'cached':
        # a cached stacklet is empty: sp == lo
        pass
    ck.need(eq2(r, start), 'alloc.bounds', w, 'allocate does not return the current stack pointer of the top stacklet', f)
    E = ('op', 'sub', spn, start)
    Es = strip_add(spn, start)
    if not ck.need(Es is not None and bool(sp_stores), 'alloc.bounds', w, 'allocate does not advance the stack pointer', f):
        return
    ck.need(at_least(Es, ('arg', 1), h.facts), 'alloc.bounds', w, 'the advance of the stack pointer is not shown to cover the requested size', f)
    ck.need(multiple_of(Es, 16), 'alloc.align', w, 'the advance of the stack pointer is not a multiple of the alignment', f)
    if kind == 'old':
        room = ('op', 'sub', m0(X, off['m_hi']), m0(X, off['m_sp']))
        ck.need(ge_any(h.facts, room, Es), 'alloc.bounds', w, 'the top stacklet is used without checking that the object fits', f)
        ck.need(not frees(h) and not s.written(X, 'm_next') and not s.written(X, 'm_prev'), 'alloc.advance', w, 'an allocation that fits changes the chain', f)
    elif kind == 'cached':
        room = ('op', 'sub', m0(X, off['m_hi']), m0(X, off['m_lo']))
        room2 = ('op', 'sub', m0(X, off['m_hi']), m0(X, off['m_sp']))
        ck.need(ge_any(h.facts, room, Es) or ge_any(h.facts, room2, Es), 'alloc.bounds', w, 'the cached stacklet is used without checking that the object fits', f)
        ck.need(s.zero(X) is False, 'alloc.advance', w, 'the cached stacklet is used without checking that it exists', f)
        ck.need(not frees(h) and not s.written(X, 'm_prev') and not s.written(s.F, 'm_next'), 'alloc.advance', w, 'moving to the cached stacklet changes the chain', f)
    else:
        size = fr[X]
        fresh_block(ck, 'alloc.advance', f, s, X, size, off, used, s.F)
        room = ('op', 'sub', s.fld(X, 'm_hi'), start)
        ck.need(at_least(room, Es, h.facts), 'alloc.bounds', w, 'a fresh stacklet is not shown to be large enough for the object', f)
        ck.need(s.fld(s.F, 'm_next') == X, 'alloc.advance', w, 'the old top is not linked to the fresh stacklet', f)
        fs = frees(h)
        ck.need(all(e.args[0] == s.N for _, e in fs) and (len(fs) == 1 or (not fs and s.is_null(s.N))), 'alloc.advance', w, 'the replaced cached stacklet is not freed exactly once', f)
        ck.need(len(fr) == 1, 'alloc.advance', w, 'a stacklet is allocated and lost', f)
    for o in (s.F, s.N):
        if o != X:
            ck.need(not s.written(o, 'm_sp') and not s.written(o, 'm_lo') and not s.written(o, 'm_hi'), 'alloc.bounds', w, 'allocate changes a stacklet other than the new top', f)
    if kind != 'fresh':
        ck.need(not s.written(X, 'm_lo') and not s.written(X, 'm_hi'), 'alloc.bounds', w, 'allocate changes the limits of a stacklet', f)


def eq2(a, b):
    return lin_sub(a, b, M64) == ({}, 0)


def strip_add(a, b):
    """a - b as an expression when b is a literal summand of a"""
    if a[0] == 'idx' and eq2(a[1], b) and a[3] == 1:
        return a[2]
    d, c = lin_sub(a, b, M64)
    if len(d) > 3:
        return None
    e = ('c', sgn(c)) if c or not d else None
    for x, k in d.items():
        if k != 1:
            return None
        e = x if e is None else ('op', 'add', e, x)
    return None if e == ('c', 0) else e


def ge_any(facts, room, need):
    """facts entail room >= need (directly, or through a structural upper bound of need)"""
    return ge(facts, ('op', 'sub', room, need))


def dealloc_path(ck, f, p, off):
    if p.end.kind != 'ret':
        ck.bad('dealloc', f.where(), 'deallocate can throw', f)
        return
    h = Heap(p)
    s = St(h, off)
    w = p.end.where()
    F, P, N = s.F, s.P, s.N
    ck.need(s.fld(F, 'm_sp') == ('arg', 1), 'dealloc', w, 'deallocate does not move the stack pointer back to the object', f)
    empty = s.zero(('op', 'sub', ('arg', 1), m0(F, off['m_lo'])))
    hasprev = s.zero(P)
    hasprev = None if hasprev is None else not hasprev
    if s.cur == F:
        ck.need(empty is False or hasprev is False, 'dealloc', w, 'an emptied stacklet with a predecessor remains the top', f)
    elif s.cur == P:
        ck.need(empty is True and hasprev is True, 'dealloc', w, 'the top moves back although the stacklet is not known to be empty with a predecessor', f)
    else:
        ck.bad('dealloc', w, 'after deallocate the top is neither the same stacklet nor its predecessor', f)
        return
    # ownership of links: objects F (old top), N (its cached successor), P (predecessor)
    fs = [e.args[0] for _, e in frees(h) if not s.is_null(e.args[0])]
    PN = m0(P, off['m_next'])      # the predecessor's successor: that is F
    canon = lambda x: F if x == PN and s.cur == P else x
    fs = [canon(x) for x in fs]
    ck.need(len(set(fs)) == len(fs), 'dealloc', w, 'a stacklet is freed twice', f)
    live_next = s.cur
    for x in set(fs):
        if x == N and x != F:
            ok = not_reachable_next(s, F, N)
            ck.need(ok, 'dealloc', w, 'a freed stacklet is still linked', f)
        elif x == F and s.cur == P:
            ok = not_reachable_next(s, P, F)
            ck.need(ok, 'dealloc', w, 'a freed stacklet is still linked', f)
        else:
            ck.bad('dealloc', w, 'deallocate frees a stacklet that is in use', f)
    # an overwritten link must have been freed
    if s.written(F, 'm_next') and not s.is_null(N):
        ck.need(N in fs, 'dealloc', w, 'a cached stacklet is dropped without being freed', f)
    if s.cur == P:
        if s.written(P, 'm_next'):
            ck.need(F in fs, 'dealloc', w, 'the emptied stacklet is dropped without being freed', f)
        # at most one cached stacklet above the new top
        if F in fs:
            ck.need(N in fs or s.is_null(N), 'dealloc', w, 'the successor of a freed stacklet leaks', f)
        else:
            ck.need(s.is_null(s.fld(F, 'm_next')), 'dealloc', w, 'two cached stacklets remain above the new top', f)
    for o in (F, P, N):
        for fl in ('m_lo', 'm_hi', 'm_prev') + (() if o == F else ('m_sp',)):
            ck.need(not s.written(o, fl), 'dealloc', w, 'deallocate corrupts a stacklet', f)


def not_reachable_next(s, owner, x):
    return s.is_null(s.fld(owner, 'm_next')) or s.fld(owner, 'm_next') != x and s.written(owner, 'm_next')


def life(ck, mod, off, used):
    R = 'stack.life'
    for f in ck.fns(mod, r'^lf::impl::stack::release$', 'stack'):
        for p in paths(f):
            h = Heap(p); s = St(h, off); fr = fresh_of(h)
            if p.end.kind != 'ret':
                ck.need(not s.h.get(s.this, 0) or s.cur == s.F, R, f.where(), 'a failed release changes the stack', f)
                continue
            ck.need(s.cur in fr and len(fr) == 1, R, f.where(), 'release does not install a fresh stacklet', f)
            ck.need(h.rw(p.ret) == s.F, R, f.where(), 'release does not return the old top', f)
            ck.need(not frees(h), R, f.where(), 'release frees memory', f)
            if s.cur in fr:
                fresh_block(ck, R, f, s, s.cur, fr[s.cur], off, used, None)
                ck.need(s.fld(s.cur, 'm_sp') == s.fld(s.cur, 'm_lo'), R, f.where(), 'the fresh stacklet does not start empty', f)
                ck.need(at_least(s.fld(s.cur, 'm_hi'), s.fld(s.cur, 'm_lo')), R, f.where(), 'a fresh stacklet has a negative size', f)
    for f in ck.fns(mod, r'^lf::impl::stack::stack$', 'stack'):
        for p in paths(f):
            h = Heap(p); s = St(h, off); fr = fresh_of(h)
            if p.end.kind != 'ret':
                continue
            if fr:
                ck.need(s.cur in fr and len(fr) == 1, R, f.where(), 'a new stack does not own a fresh stacklet', f)
                if s.cur in fr:
                    fresh_block(ck, R, f, s, s.cur, fr[s.cur], off, used, None)
                    ck.need(s.fld(s.cur, 'm_sp') == s.fld(s.cur, 'm_lo'), R, f.where(), 'the fresh stacklet does not start empty', f)
            else:
                ck.need(s.cur == ('arg', 1) and not frees(h), R, f.where(), 'a stack built from a stacklet does not take exactly that stacklet', f)
    for f in ck.fns(mod, r'^lf::impl::(stack::operator=|swap)$', 'stack', 1):
        if 'stack' not in f.name:
            continue
        for p in paths(f):
            if p.end.kind != 'ret':
                continue
            h = Heap(p)
            a, b = h.get(('arg', 0), 0), h.get(('arg', 1), 0)
            swapped = a == m0(('arg', 1)) and b == m0(('arg', 0))
            same_ = h.facts.zero(('op', 'sub', ('arg', 0), ('arg', 1))) is True
            ck.need((swapped or same_) and not frees(h), R, f.where(), 'moving a stack does not exchange the two', f)
    for f in ck.fns(mod, r'^lf::impl::stack::~stack$', 'stack'):
        for p in paths(f):
            if p.end.kind != 'ret':
                continue
            h = Heap(p); s = St(h, off)
            fs = [e.args[0] for _, e in frees(h) if not s.is_null(e.args[0])]
            ck.need(fs.count(s.F) == 1, R, f.where(), 'destruction does not free the top stacklet exactly once', f)
            ck.need(fs.count(s.N) == 1 or (s.N not in fs and s.is_null(s.N)), R, f.where(), 'destruction does not free the cached stacklet exactly once', f)
            ck.need(set(fs) <= {s.F, s.N}, R, f.where(), 'destruction frees something else', f)
