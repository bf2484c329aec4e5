"""Eventual results (C17): the representation of "nothing / value / exception" is derived from the
constructors and writers, and everything else is judged against it."""
from ..kit import *

A0, A1 = 0x100000000, 0x200000000
EXC, VAL = 0x777000, 0x1234


class Ev17(Sim):
    def __init__(self, f, p, rep, sval=VAL):
        self.rep, self.sval = rep or {}, sval
        self.made, self.gone, self.released = [], [], []
        super().__init__(p, self.init, self.call)

    def init(self, _, a, e):
        if a is None:
            return None
        if a == A1:
            return self.sval
        return self.rep.get(a - A0)

    def call(self, _, k, e, av):
        if e.edge == 'unwind':
            return None
        if e.name == 'std::current_exception':
            self.mem[av[0]] = EXC
        elif e.name.endswith('hairy::hairy') and len(av) > 1:
            self.made.append((k, av[0], av[1]))
        elif e.name.endswith('hairy::~hairy'):
            self.gone.append((k, av[0]))
        elif e.name.endswith('exception_ptr::_M_release'):
            self.released.append((k, av[0]))
        return None

    def delta(self):
        """representation after the path: the cells of the object that were written"""
        r = dict(self.rep)
        for k, e in enumerate(self.p.evs):
            if e.kind == 'store' and self.at[k][0] is not None and A0 <= self.at[k][0] < A0 + 4096:
                r[self.at[k][0] - A0] = self.at[k][1]
        for k, a, src in self.made:
            if a is not None and A0 <= a < A0 + 4096:
                r['@'] = a - A0
        return r


def runs(f, rep, sval=VAL):
    out = []
    for p in paths(f):
        s = Ev17(f, p, rep, sval)
        if s.feasible():
            out.append(s)
    return out


def inst(f):
    """(value type, exceptions?) of a basic_eventually instantiation"""
    n = f.d.get('qual') or ''
    m = re.search(r'basic_eventually<(.*?), ?(true|false)>', n) or re.search(r'basic_eventually<(.*?), ?(true|false)>', f.name)
    if m:
        return m.group(1), m.group(2) == 'true'
    m = re.search(r'basic_eventuallyI(.*?)Lb([01])E', f.name)
    if m:
        return {'Ri': 'int &', 'i': 'int', 'v': 'void', 'N5probe5hairyE': 'probe::hairy'}.get(m.group(1), m.group(1)), m.group(2) == '1'
    return None


def norm(t):
    return t.replace(' ', '').replace('probe::', '')


def members(core):
    out = {}
    for f in core.funcs:
        if f.d['job'] != 'evt':
            continue
        t = inst(f)
        if t is None:
            continue
        q = f.q.rsplit('::', 1)[1] if not re.search(r'operator', f.q) else 'operator' + f.q.rsplit('operator', 1)[1]
        out.setdefault((norm(t[0]), t[1]), {}).setdefault(q, []).append(f)
    return out


def model(ms):
    """{'empty': rep, 'value': rep, 'exception': rep} as far as the members exist (first normal path)"""
    rep = {}
    for f in ms.get('basic_eventually', []):
        for s in runs(f, {}):
            rep['empty'] = s.delta()
    if 'empty' not in rep:
        return rep
    for f in ms.get('operator=', []):
        for s in runs(f, rep['empty']):
            if s.p.end.kind == 'ret':
                rep['value'] = s.delta()
    for f in ms.get('stash_exception', []):
        for s in runs(f, rep['empty']):
            if s.p.end.kind == 'ret':
                rep['exception'] = s.delta()
    return rep


def representations(core):
    """result type -> representations of the result object of a future (exceptions enabled); a
    reference result is represented by the address VAL"""
    out = {}
    for (t, x), ms in members(core).items():
        if not x:
            continue
        r = model(ms)
        if t.endswith('&') and 'value' in r:
            r['value'] = {k: VAL if v == A1 else v for k, v in r['value'].items()}
        for n in (t, 'probe::' + t):
            out[n] = r
    return out


def c17(ck, mods):
    ck.rule('states', 'a new object is empty; storing a value or an exception changes the state to exactly that', 6)
    ck.rule('order', 'the state changes only after the value was constructed; a throwing construction leaves the object empty', 1)
    ck.rule('query', 'empty, has_value and has_exception answer true in exactly their state', 20)
    ck.rule('access', 'value and exception accessors designate what was stored', 6)
    ck.rule('destroy', 'destruction destroys exactly what is held, once', 10)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        core = mod['core']
        ck.fns(core, r'basic_eventually::|stash_exception$', 'evt', 20)
        for (t, x), ms in sorted(members(core).items()):
            lab = '%s%s' % (t, ', exceptions' if x else '')
            rep = model(ms)
            any_f = [f for fs in ms.values() for f in fs][0]
            if 'empty' not in rep:
                ck.bad('states', any_f.where(), 'no constructor of the result object for %s' % lab, any_f)
                continue
            ref = t.endswith('&')
            for f in ms.get('operator=', []):
                rs = runs(f, rep['empty'])
                ck.need(any(s.p.end.kind == 'ret' for s in rs), 'states', f.where(), 'a value cannot be stored in an empty object (%s)' % lab, f)
                for s in rs:
                    d = s.delta()
                    if s.p.end.kind == 'unwind':
                        ck.need({k: v for k, v in d.items() if k != '@'} == rep['empty'] and not s.gone, 'order', f.where(), 'a throwing construction leaves the object non-empty (%s)' % lab, f)
                        continue
                    if t.endswith('hairy'):
                        ck.need(len(s.made) == 1 and A0 + d.get('@', -1) not in [a for k, a in s.gone] and s.made[0][2] == A1 and s.made[0][1] == A0 + d.get('@', -1), 'states', f.where(), 'the value is not constructed exactly once from the argument', f)
                        first = [k for k, e in enumerate(s.p.evs) if e.kind == 'store' and s.at[k][0] is not None and A0 <= s.at[k][0] < A0 + 64]
                        ck.need(not s.made or all(k > s.made[0][0] for k in first), 'order', f.where(), 'the state says there is a value before it was constructed', f)
                    else:
                        want = A1 if ref else VAL
                        ck.need(want in d.values(), 'states', f.where(), 'what is stored is not the argument (%s)' % lab, f)
                    ck.need(d == rep['value'] and (d != rep['empty']), 'states', f.where(), 'storing a value does not change the state (%s)' % lab, f)
            for f in ms.get('stash_exception', []):
                rs = runs(f, rep['empty'])
                ck.need(bool(rs) and all(s.p.end.kind == 'ret' for s in rs), 'states', f.where(), 'an exception cannot be stored in an empty object (%s)' % lab, f)
                for s in rs:
                    d = s.delta()
                    ck.need(EXC in d.values(), 'states', f.where(), 'what is stored is not the current exception (%s)' % lab, f)
                    cell = [k for k, v in d.items() if v == EXC]
                    ck.need(not [1 for k, a in s.released if a in [A0 + c for c in cell] or s_val(s, k, a) == EXC], 'states', f.where(), 'the stored exception is released at once', f)
            distinct = [tuple(sorted((str(k), v) for k, v in r.items())) for r in rep.values()]
            ck.need(len(set(distinct)) == len(distinct), 'states', any_f.where(), 'two states are represented alike (%s)' % lab, any_f)
            for q, st in (('empty', 'empty'), ('has_value', 'value'), ('has_exception', 'exception')):
                for f in ms.get(q, []):
                    for name, r in rep.items():
                        rs = runs(f, r)
                        ck.need(bool(rs), 'query', f.where(), '%s() fails in state "%s" (%s)' % (q, name, lab), f)
                        for s in rs:
                            v = s.ev(s.p.ret) if s.p.end.kind == 'ret' else None
                            ck.need(v is not None and bool(v & 1) == (name == st), 'query', f.where(), '%s() answers %s in state "%s" (%s)' % (q, v, name, lab), f)
            for q, st in (('operator*', 'value'), ('operator->', 'value'), ('exception', 'exception')):
                for f in ms.get(q, []):
                    if st not in rep:
                        continue
                    r = rep[st]
                    rs = runs(f, r)
                    ck.need(any(s.p.end.kind == 'ret' for s in rs), 'access', f.where(), '%s fails in state "%s" (%s)' % (q, st, lab), f)
                    for s in rs:
                        v = s.ev(s.p.ret) if s.p.ret is not None else None
                        if st == 'exception':
                            good = v is not None and r.get(v - A0) == EXC
                        elif ref:
                            good = v == A1
                        else:
                            good = v is not None and (v - A0 == r['@'] if '@' in r else r.get(v - A0) == VAL)
                        ck.need(good, 'access', f.where(), '%s does not designate what was stored (%s)' % (q, lab), f)
            for f in ms.get('~basic_eventually', []):
                for name, r in rep.items():
                    rs = runs(f, r)
                    ck.need(any(s.p.end.kind == 'ret' for s in rs), 'destroy', f.where(), 'an object in state "%s" cannot be destroyed (%s)' % (name, lab), f)
                    for s in rs:
                        if s.p.end.kind != 'ret':
                            ck.bad('destroy', f.where(), 'destruction exits by exception', f)
                            continue
                        gone = [a for k, a in s.gone]
                        want = [A0 + r['@']] if name == 'value' and '@' in r else []
                        ck.need(gone == want, 'destroy', f.where(), 'in state "%s" %s' % (name, 'the value is not destroyed exactly once' if want else 'a value that is not there is destroyed'), f)
                        rel = [a for k, a in s.released if s_val(s, k, a) != 0]
                        wx = [A0 + k for k, v in r.items() if v == EXC] if name == 'exception' else []
                        ck.need(rel == wx, 'destroy', f.where(), 'in state "%s" %s (%s)' % (name, 'the exception is not released exactly once' if wx else 'an exception that is not there is released', lab), f)


def s_val(s, k, a):
    v = None
    if a is not None and a - A0 in s.rep:
        v = s.rep[a - A0]
    for j in range(k):
        e = s.p.evs[j]
        if e.kind == 'store' and s.at[j][0] == a:
            v = s.at[j][1]
        elif e.kind == 'call' and e.name == 'std::current_exception' and s.at[j][0][0] == a:
            v = EXC
    return v
