"""IR model: canonical symbolic expressions, debug-info typed access paths, CFG helpers and a
path-sensitive typestate (product automaton) dataflow over the functions exported by tool/irx."""
import re
from collections import defaultdict, deque as _dq


class AnalysisBroken(Exception):
    """The analysis lost its anchor: no verdict is possible."""


# ----------------------------------------------------------------------------- types
class Types:
    ALIAS = {'task_t': 'frame', 'submit_t': 'frame', 'submit_handle_t': 'frame', 'task_handle_t': 'frame'}

    def __init__(self, j):
        self.t = j
        self.by_name = defaultdict(list)
        for k, v in j.items():
            if v.get('m') is not None:
                self.by_name[v.get('n')].append(k)
        self._cache = {}

    def strip(self, t):
        n = 0
        while t in self.t and self.t[t]['k'] in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
            t = self.t[t]['base']
            n += 1
            if n > 50:
                break
        return t

    def is_ptr(self, t):
        t = self.strip(t)
        return t in self.t and self.t[t]['k'] in ('DW_TAG_pointer_type', 'DW_TAG_reference_type', 'DW_TAG_rvalue_reference_type')

    def pointee(self, t):
        t = self.strip(t)
        if self.is_ptr(t):
            return self.resolve(self.strip(self.t[t]['base']))
        return None

    def resolve(self, t):
        """forward declared / opaque composite -> complete definition (or aliased handle type)."""
        d = self.t.get(t)
        if not d or d.get('m') is None:
            return t
        al = self.ALIAS.get(d.get('n'))
        if al:
            for c in self.by_name.get(al, []):
                if self.t[c]['m']:
                    return c
        if not d['m'] and not d['size']:
            for c in self.by_name.get(d['n'], []):
                if self.t[c]['m'] and self.t[c].get('q') == d.get('q'):
                    return c
        return t

    def name(self, t):
        t = self.strip(t)
        d = self.t.get(t)
        if not d:
            return t
        if self.is_ptr(t):
            return (self.name(d['base']) or '?') + '*'
        return d.get('n') or d['k']

    def members_at(self, t, off, depth=0):
        """all (Struct, member, member type) whose storage contains byte `off` of type t."""
        t = self.resolve(self.strip(t))
        key = (t, off)
        if key in self._cache:
            return self._cache[key]
        r = []
        d = self.t.get(t)
        if d and depth < 12:
            if d['k'] == 'DW_TAG_array_type' and d.get('base') in self.t:
                b = self.resolve(self.strip(d['base']))
                es = self.t.get(b, {}).get('size') or 0
                if es:
                    r += self.members_at(b, off % es, depth + 1)
            if str(d.get('n')).startswith('manual_lifetime<') and depth < 6:
                inner = self.template_arg(d)
                if inner:
                    r.append((d['n'], '(held)', inner, off))
                    r += self.members_at(inner, off, depth + 1)
            for m in d.get('m') or []:
                ms = m['size'] or self.size(m['t'])
                if m['off'] <= off < m['off'] + max(ms, 1):
                    sname = d.get('n') or '(anon)'
                    if not m['inh'] and m['n']:
                        r.append((sname, m['n'], m['t'], off - m['off']))
                    r += self.members_at(m['t'], off - m['off'], depth + 1)
        self._cache[key] = r
        return r

    def template_arg(self, d):
        n = d['n'][d['n'].index('<') + 1:-1]
        for c in self.t:
            x = self.t[c]
            if x.get('m') and (x.get('q') == n or x.get('n') == n or (x.get('q') or '').endswith('::' + n)):
                return c
        return None

    def size(self, t):
        t = self.resolve(self.strip(t))
        d = self.t.get(t)
        return (d or {}).get('size') or 0

    def base_names(self, t, depth=0):
        """names of t and of everything at offset zero inside it."""
        t = self.resolve(self.strip(t))
        d = self.t.get(t)
        r = set()
        if not d or depth > 10:
            return r
        if d.get('n'):
            r.add(d['n'])
        for m in d.get('m') or []:
            if m['inh']:
                r |= self.base_names(m['t'], depth + 1)
        return r


# ----------------------------------------------------------------------------- instructions
class Inst:
    __slots__ = ('d', 'v', 'op', 'b', 'i', 'fn')

    def __init__(self, d, b, i, fn):
        self.d, self.v, self.op, self.b, self.i, self.fn = d, d['v'], d['op'], b, i, fn

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def ops(self):
        return self.d['ops']

    @property
    def callee(self):
        return self.d.get('callee', '')

    @property
    def is_call(self):
        return self.op in ('call', 'invoke')

    def where(self):
        for f, l, q in self.d['loc']:
            if 'libfork' in f:
                return '%s:%d (%s)' % (f[f.rfind('include/libfork'):] if 'include/libfork' in f else f, l, q.split('::', 2)[-1] if q else '')
        if self.d['loc']:
            f, l, q = self.d['loc'][0]
            return '%s:%d (%s)' % (f.rsplit('/', 1)[-1], l, q)
        return self.fn.where()

    def subprograms(self):
        return [q for _, _, q in self.d['loc']]

    def __repr__(self):
        return '<%s %s b%d.%d>' % (self.op, self.callee or self.v, self.b, self.i)


PURE_CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'}


def short(n):
    """strip template arguments / inline namespaces for messages."""
    n = re.sub(r'\bv3::', '', n)
    out, d = '', 0
    for c in n:
        if c == '<':
            d += 1
        elif c == '>' and d:
            d -= 1
        elif not d:
            out += c
    return out


def base_name(n):
    """unqualified function name of a demangled signature."""
    s, d, par = '', 0, 0
    i = 0
    m = re.match(r'^(.*?)\boperator(\(\)|<=>|<<=?|>>=?|->\*?|[^\w\s(]+|\s*\w+)', n)
    stripped = ''
    for c in n.replace('operator()', 'operatorCALL').replace('operator<=>', 'operatorSPC').replace('operator->', 'operatorARROW').replace('operator<<', 'operatorSHL').replace('operator>>', 'operatorSHR').replace('operator<', 'operatorLT').replace('operator>', 'operatorGT'):
        if c == '<':
            d += 1
        elif c == '>':
            d = max(0, d - 1)
        elif d == 0:
            stripped += c
    p = stripped.find('(') if '(anonymous' not in stripped else stripped.replace('(anonymous namespace)', '{anonymousnamespace }').find('(')
    head = stripped[:p] if p >= 0 else stripped
    return head.rsplit('::', 1)[-1].strip().split(' ')[-1]


class Func:
    def __init__(self, d, mod):
        self.d, self.mod, self.T = d, mod, mod.T
        self.name = d['name']
        self.q = notmpl(d.get('qual') or d['name']).replace('(anon)', '@')
        self.blocks = [[Inst(x, bi, ii, self) for ii, x in enumerate(b)] for bi, b in enumerate(d['blocks'])]
        self.inst = {}
        for b in self.blocks:
            for i in b:
                self.inst[i.v] = i
        self.args = {a['v']: k for k, a in enumerate(d['args'])}
        self.nargs = len(d['args'])
        self.succ = {b: [] for b in range(len(self.blocks))}
        self.pred = {b: [] for b in range(len(self.blocks))}
        for bi, b in enumerate(self.blocks):
            t = b[-1]
            for s in t.get('succ') or []:
                if s not in self.succ[bi]:
                    self.succ[bi].append(s)
                    self.pred[s].append(bi)
        self._expr = {}
        self._typehints = None

    def where(self):
        f = self.d.get('file', '')
        f = f[f.rfind('include/libfork'):] if 'include/libfork' in f else f
        return '%s:%s (%s)' % (f, self.d.get('line', '?'), short(self.name)[:120])

    @property
    def coro(self):
        return self.d['coro']

    def insts(self):
        for b in self.blocks:
            yield from b

    # ------------------------------------------------------------- expressions
    def operand(self, o, env=None, depth=0):
        if 'v' in o:
            return self.expr(o['v'], env, depth)
        if 'c' in o:
            return ('c', o['c'])
        if 'null' in o:
            return ('c', 0)
        if 'g' in o:
            return ('g', o['g'], o['gm'])
        if 'ce' in o:
            if 'off' in o:
                return addoff(self.operand(o['ops'][0], env, depth + 1), o['off'])
            if o['ce'] in PURE_CASTS:
                return self.operand(o['ops'][0], env, depth + 1)
            return ('op', o['ce']) + tuple(self.operand(x, env, depth + 1) for x in o['ops'])
        if 'undef' in o:
            return ('undef',)
        if 'zero' in o:
            return ('c', 0)
        return ('k', str(sorted((k, str(v)) for k, v in o.items())))

    def expr(self, v, env=None, depth=0):
        if env is not None and v in env:
            return env[v]
        if env is None and v in self._expr:
            return self._expr[v]
        r = self._mk(v, env, depth)
        if env is None:
            self._expr[v] = r
        return r

    def _mk(self, v, env, depth):
        if v in self.args:
            return ('arg', self.args[v])
        i = self.inst.get(v)
        if i is None:
            return ('?', v)
        if depth > 60:
            return ('v', v)
        op = i.op
        E = lambda k: self.operand(i.ops[k], env, depth + 1)
        if op in PURE_CASTS:
            if op == 'trunc' and i.get('ty') not in ('i1', 'i8', 'i16', 'i32'):
                return ('op', 'trunc', i.get('ty'), E(0))
            return E(0)
        if op == 'getelementptr':
            b = E(0)
            if 'off' in i.d:
                for o, s in i.d['var']:
                    b = ('idx', b, self.operand(o, env, depth + 1), s)
                return addoff(b, i.d['off'])
            return ('v', v)
        if op == 'load':
            return ('ld', E(0), v)
        if op == 'alloca':
            return ('alloca', v)
        if op in ('call', 'invoke'):
            if i.callee.startswith('llvm.threadlocal.address'):
                return E(0)
            m = re.match(r'llvm\.([su](?:max|min))\.', i.callee)
            if m:
                return ('op', m.group(1), E(0), E(1))
            if i.callee.startswith('llvm.expect') or i.callee.startswith('llvm.launder') or i.callee.startswith('llvm.strip.inv'):
                return E(0)
            return ('call', v)
        if op == 'phi':
            return ('phi', v)
        if op == 'extractvalue':
            a, ix = E(0), tuple(i.d['idx'])
            while a[0] == 'iv':
                if a[3] == ix:
                    return a[2]
                a = a[1]
            return ('ev', a, ix)
        if op == 'insertvalue':
            return ('iv', E(0), E(1), tuple(i.d['idx']))
        if op == 'atomicrmw':
            return ('rmw', v)
        if op == 'cmpxchg':
            return ('cas', v)
        if op == 'icmp':
            a, b, p = E(0), E(1), i.d['pred']
            if p in ('eq', 'ne'):
                if a[0] == 'c':
                    a, b = b, a
                if a[0] == 'op' and a[1] == 'xor' and b[0] == 'c' and b[1] in (0, -1):
                    x, y = a[2], a[3]
                    if not (x[0] == 'c' or y[0] == 'c'):
                        a, b = x, (y if b[1] == 0 else ('op', 'xor', y, ('c', -1)))
            return ('cmp', p, i.d.get('w', ''), a, b)
        if op == 'select':
            return ('select', E(0), E(1), E(2))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = E(0), E(1)
            if op == 'or' and b[0] == 'c' and a[0] == 'c':
                return ('c', a[1] | b[1])
            if op == 'add' and b[0] == 'c':
                return addoff(a, b[1])
            if op == 'sub' and b[0] == 'c':
                return addoff(a, -b[1])
            return ('op', op, a, b)
        return ('v', v)

    # ------------------------------------------------------------- typing
    def typehints(self):
        """{base expr: [(offset, pointee type)]} from parameters, debug variables, calls and allocas."""
        if self._typehints is None:
            h = defaultdict(set)
            self._typehints = h
            T = self.T
            dis = self.d.get('ditypes') or []
            sret = self.d.get('sretn', 0)
            add = lambda e, t: h[split(e)[0]].add((split(e)[1], t))
            for a in self.d['args']:
                if a.get('sret') and a.get('di'):
                    add(('arg', self.args[a['v']]), a['di'])
            for k in range(1, len(dis)):
                pos = k - 1 + sret
                if pos < self.nargs and T.is_ptr(dis[k]) and len(dis) - 1 + sret == self.nargs:
                    add(('arg', pos), T.pointee(dis[k]))
            for v, kind, t, n in self.d.get('hints', []):
                e = self.expr(v)
                if kind == 'obj':
                    add(e, t)
                elif T.is_ptr(t):
                    add(e, T.pointee(t))
            for i in self.insts():
                if i.is_call and i.get('retdi') and T.is_ptr(i.get('retdi')):
                    add(('call', i.v), T.pointee(i.get('retdi')))
                if i.op == 'alloca' and i.get('sn'):
                    n = i.get('sn').split('.', 1)[-1]
                    nm = re.sub(r'^.*::', '', re.sub(r'\.\d+$', '', n))
                    for t in T.by_name.get(nm, []):
                        if T.size(t) == i.get('asize'):
                            add(('alloca', i.v), t)
                            break
                if i.op == 'getelementptr' and i.get('sn'):
                    n = i.get('sn').split('.', 1)[-1]
                    nm = re.sub(r'^.*::', '', re.sub(r'\.\d+$', '', n))
                    for t in T.by_name.get(nm, []):
                        if T.t[t].get('q', '').endswith(n.split('<')[0].rsplit('::', 1)[-1]) or True:
                            add(self.operand(i.ops[0]), t)
                            break
        return self._typehints

    def pointees(self, e, depth=0):
        """set of types an address expression may point at (its own offset included)."""
        base, off = split(e)
        r = set()
        for o, t in self.typehints().get(base, ()):
            if o == off:
                r.add(self.T.resolve(self.T.strip(t)))
            elif o < off:
                for s, m, mt, rest in self.T.members_at(t, off - o):
                    if rest == 0:
                        r.add(self.T.resolve(self.T.strip(mt)))
        if base[0] == 'ld' and depth < 8:
            for s, m, mt in self.fields(base[1], depth + 1, types=True):
                if self.T.is_ptr(mt):
                    p = self.T.pointee(mt)
                    if off == 0:
                        r.add(p)
                    elif p:
                        for _, _, m2, rest in self.T.members_at(p, off):
                            if rest == 0:
                                r.add(self.T.resolve(self.T.strip(m2)))
        if base[0] == 'g':
            g = self.mod.globals.get(base[2])
            if g and g.get('t'):
                if off == 0:
                    r.add(self.T.resolve(self.T.strip(g['t'])))
                else:
                    for _, _, m2, rest in self.T.members_at(g['t'], off):
                        if rest == 0:
                            r.add(self.T.resolve(self.T.strip(m2)))
        return r

    def fields(self, addr, depth=0, types=False):
        """the set of 'Struct::member' an address expression designates."""
        base, off = split(addr)
        if base[0] == 'idx':
            inner = self.fields(base[1], depth, types)
        else:
            inner = set()
        r = set()

        def put(t, o):
            for s, m, mt, rest in self.T.members_at(t, o):
                if types:
                    if rest == 0:
                        r.add((s, m, mt))
                else:
                    r.add(s + '::' + m)
        hints = self.typehints().get(base, ())
        if base[0] == 'ld' and len(base) > 2 and base[2] % 1000000 in self.inst:
            # resolved on a path: the hints are kept for the unresolved form
            hints = tuple(hints) + tuple(self.typehints().get(self.expr(base[2] % 1000000), ()))
        for o, t in hints:
            if o <= off and (off - o) < max(1, self.T.size(t)):
                put(t, off - o)
        if base[0] == 'ld' and depth < 8:
            for s, m, mt in self.fields(base[1], depth + 1, types=True):
                if self.T.is_ptr(mt):
                    p = self.T.pointee(mt)
                    if p:
                        put(p, off)
        if base[0] == 'g':
            g = self.mod.globals.get(base[2])
            if g and g.get('t'):
                put(g['t'], off)
        if base[0] == 'phi':
            ph = self.inst[base[1]]
            if depth < 4:
                for o, _ in ph.d['inc']:
                    e = self.operand(o)
                    if e[0] != 'phi' and split(e)[0] != base:
                        r |= self.fields(addoff(e, off), depth + 1, types)
        return r | inner

    def has_field(self, addr, *names):
        """does the address designate Struct::member (template arguments of Struct ignored)?"""
        fs = {notmpl(x) for x in self.fields(addr)}
        return any(n in fs for n in names)

    def type_names(self, e):
        return {notmpl(self.T.name(t)) for t in self.pointees(e)}

    # ------------------------------------------------------------- CFG
    def reach_blocks(self, start, avoid=()):
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st += self.succ[b]
        return seen

    def dominators(self):
        if hasattr(self, '_dom'):
            return self._dom
        n = len(self.blocks)
        order = self.rpo()
        allb = set(order)
        dom = {b: set(allb) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in dom]
                new = (set.intersection(*ps) if ps else set()) | {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        self._dom = dom
        return dom

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def dominates(self, a, b):
        if a.b == b.b:
            return a.i <= b.i
        return a.b in self.dominators().get(b.b, ())


def notmpl(s):
    out, d = '', 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>' and d:
            d -= 1
        elif not d:
            out += c
    return out


def split(e):
    return (e[1], e[2]) if e[0] == 'off' else (e, 0)


def addoff(e, k):
    if e[0] == 'c':
        return ('c', e[1] + k)
    b, o = split(e)
    o += k
    return b if o == 0 else ('off', b, o)


def strip_ids(e):
    """access path with load identities removed: two loads of one location compare equal."""
    if not isinstance(e, tuple):
        return e
    if e[0] == 'ld':
        return ('ld', strip_ids(e[1]))
    return tuple(strip_ids(x) if isinstance(x, tuple) else x for x in e)


def mentions(e, sub):
    if e == sub:
        return True
    return isinstance(e, tuple) and any(mentions(x, sub) for x in e if isinstance(x, tuple))


def atoms(e):
    yield e
    if isinstance(e, tuple):
        for x in e:
            if isinstance(x, tuple):
                yield from atoms(x)


# ----------------------------------------------------------------------------- linear forms
def linear(e, mod=1 << 16):
    """e as {atom: coeff}, const  (mod 2^k)."""
    if e[0] == 'c':
        return {}, e[1] % mod
    if e[0] == 'off':
        a, c = linear(e[1], mod)
        return a, (c + e[2]) % mod
    if e[0] == 'op' and e[1] in ('add', 'sub'):
        a, c = linear(e[2], mod)
        b, d = linear(e[3], mod)
        s = 1 if e[1] == 'add' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = (r.get(k, 0) + s * v) % mod
            if r[k] == 0:
                del r[k]
        return r, (c + s * d) % mod
    if e[0] == 'op' and e[1] == 'xor':
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x[0] == 'c' and (x[1] % mod) == mod - 1:
                a, c = linear(y, mod)
                return {k: (-v) % mod for k, v in a.items()}, (-c - 1) % mod
    if e[0] == 'op' and e[1] == 'mul':
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if x[0] == 'c':
                a, c = linear(y, mod)
                return {k: (v * x[1]) % mod for k, v in a.items() if (v * x[1]) % mod}, (c * x[1]) % mod
    if e[0] == 'op' and e[1] == 'shl' and e[3][0] == 'c':
        f = 1 << e[3][1]
        a, c = linear(e[2], mod)
        return {k: (v * f) % mod for k, v in a.items() if (v * f) % mod}, (c * f) % mod
    if e[0] == 'idx':
        a, c = linear(e[1], mod)
        b, d = linear(e[2], mod)
        r = dict(a)
        for k, v in b.items():
            r[k] = (r.get(k, 0) + e[3] * v) % mod
            if r[k] == 0:
                del r[k]
        return r, (c + e[3] * d) % mod
    return {e: 1}, 0


def lin_sub(a, b, mod=1 << 16):
    return linear(('op', 'sub', a, b), mod)


def lin_key(e, mod=1 << 64):
    """canonical key of the predicate e == 0: (nonconst part, const), sign normalised."""
    a, c = linear(e, mod)
    items = tuple(sorted(a.items(), key=repr))
    if items:
        neg = tuple(sorted(((k, (-v) % mod) for k, v in a.items()), key=repr))
        if repr(neg) < repr(items):
            items, c = neg, (-c) % mod
    return items, c


# ----------------------------------------------------------------------------- facts
class Facts:
    """conjunction of (expr == 0), (expr != 0) and opaque predicate literals; immutable."""
    __slots__ = ('f',)

    def __init__(self, f=frozenset()):
        self.f = f

    def __eq__(self, o):
        return self.f == o.f

    def __hash__(self):
        return hash(self.f)

    def truth(self, cond):
        """True / False / None for an i1 expression."""
        k = cond[0]
        if k == 'c':
            return bool(cond[1] & 1)
        if k == 'cmp':
            p, a, b = cond[1], cond[3], cond[4]
            if p in ('eq', 'ne'):
                t = self.zero(('op', 'sub', a, b))
                if t is None and self._bool(a) is not None and b[0] == 'c':
                    pass
                return t if (t is None or p == 'eq') else (not t)
            if a[0] == 'c' and b[0] == 'c':
                x, y = a[1], b[1]
                ux, uy = x % (1 << 64), y % (1 << 64)
                return {'ult': ux < uy, 'ule': ux <= uy, 'ugt': ux > uy, 'uge': ux >= uy, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}.get(p)
            c, pol = canon_cmp(cond)
            if c[0] == 'cmp' and c[1] == 'eq':
                t = self.truth(c)
                return None if t is None else t == pol
            for lit, val in self.f:
                if lit == ('p', c):
                    return val == pol
            return None
        if k == 'op' and cond[1] in ('and', 'or'):
            x, y = self.truth(cond[2]), self.truth(cond[3])
            if cond[1] == 'and':
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            else:
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            return None
        if k == 'op' and cond[1] == 'xor':
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if b[0] == 'c' and b[1] & 1:
                    t = self.truth(a)
                    return None if t is None else not t
        if k == 'select':
            c = self.truth(cond[1])
            if c is True:
                return self.truth(cond[2])
            if c is False:
                return self.truth(cond[3])
            x, y = self.truth(cond[2]), self.truth(cond[3])
            if x is not None and x == y:
                return x
            return None
        t = self.zero(cond)
        return None if t is None else not t

    def _bool(self, e):
        return None

    def zero(self, e):
        """is e == 0 known?"""
        a, c = linear(e, 1 << 64)
        if not a:
            return c == 0
        if e[0] in ('alloca', 'g') or (e[0] == 'off' and e[1][0] in ('alloca', 'g')):
            return False
        items, c = lin_key(e)
        ne = None
        for lit, val in self.f:
            if lit[0] == 'z' and lit[1] == items:
                if val:
                    return lit[2] == c
                if lit[2] == c:
                    ne = False
        return ne

    def assume(self, cond, val):
        """new Facts or None when contradictory."""
        t = self.truth(cond)
        if t is not None:
            return self if t == val else None
        k = cond[0]
        if k == 'cmp':
            p, a, b = cond[1], cond[3], cond[4]
            if p in ('eq', 'ne'):
                return self._addz(('op', 'sub', a, b), val == (p == 'eq'))
            c, pol = canon_cmp(cond)
            if c[0] == 'cmp' and c[1] == 'eq':
                return self.assume(c, val == pol)
            return Facts(self.f | {(('p', c), val == pol)})
        if k == 'op' and cond[1] == 'and':
            if val:
                x = self.assume(cond[2], True)
                return x and x.assume(cond[3], True)
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if self.truth(a) is True:
                    return self.assume(b, False)
            return self
        if k == 'op' and cond[1] == 'or':
            if not val:
                x = self.assume(cond[2], False)
                return x and x.assume(cond[3], False)
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if self.truth(a) is False:
                    return self.assume(b, True)
            return self
        if k == 'op' and cond[1] == 'xor':
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if b[0] == 'c' and b[1] & 1:
                    return self.assume(a, not val)
        if k == 'select':
            c = self.truth(cond[1])
            if c is not None:
                return self.assume(cond[2] if c else cond[3], val)
            # logical and / or
            if cond[3] == ('c', 0) and val:
                x = self.assume(cond[1], True)
                return x and x.assume(cond[2], True)
            if cond[2][0] == 'c' and cond[2][1] & 1 and not val:
                x = self.assume(cond[1], False)
                return x and x.assume(cond[3], False)
            tx, ty = self.truth(cond[2]), self.truth(cond[3])
            if tx is not None and tx != val:
                x = self.assume(cond[1], False)
                return x and x.assume(cond[3], val)
            if ty is not None and ty != val:
                x = self.assume(cond[1], True)
                return x and x.assume(cond[2], val)
            return self
        return self._addz(cond, not val)

    def _addz(self, e, isz):
        items, c = lin_key(e)
        if isz:
            # drop weaker facts on the same linear part
            f = frozenset(x for x in self.f if not (x[0][0] == 'z' and x[0][1] == items))
            return Facts(f | {(('z', items, c), True)})
        return Facts(self.f | {(('z', items, c), False)})

    def kill(self, pred):
        f = frozenset(x for x in self.f if not any(pred(a) for a in atoms(x[0])))
        return self if len(f) == len(self.f) else Facts(f)


def canon_cmp(c):
    """(canonical comparison, polarity) for an ordering comparison."""
    _, p, w, a, b = c
    inv = {'uge': 'ult', 'ule': 'ugt', 'sge': 'slt', 'sle': 'sgt'}
    pol = True
    if p in inv:
        p, pol = inv[p], False
    if p in ('ugt', 'sgt'):
        p, a, b = {'ugt': 'ult', 'sgt': 'slt'}[p], b, a
    if p == 'ult' and b == ('c', 1):
        return ('cmp', 'eq', w, a, ('c', 0)), pol
    if p == 'ult' and a == ('c', 0):
        return ('cmp', 'eq', w, b, ('c', 0)), not pol
    return ('cmp', p, w, a, b), pol


# ----------------------------------------------------------------------------- typestate walk
class Ctx:
    __slots__ = ('fn', 'env', 'facts', 'edge', 'path')

    def __init__(self, fn, env, facts, path=()):
        self.fn, self.env, self.facts, self.path = fn, env, facts, path
        self.edge = None

    def val(self, o):
        return self.fn.operand(o, self.env)

    def ex(self, v):
        return self.fn.expr(v, self.env)

    def truth(self, c):
        return self.facts.truth(c)

    def is_zero(self, e):
        return self.facts.zero(e)


class Machine:
    """Typestate automaton.  step() returns None (dead path), a state, or a list of states."""
    follow_destroy = False
    assumes = False          # trust what the library merely asserts (llvm.assume in NDEBUG views)?
    maxstates = 4000
    prune = True             # drop facts about values that nothing reachable depends on

    def block(self, st, cx):
        return st

    def start(self, fn):
        return 0

    def step(self, i, st, cx):
        return st

    def exit(self, i, st, cx):
        pass

    def edge(self, i, succ, st, cx):
        return st


def walk(fn, m):
    """Product of the CFG, branch facts and machine `m`, to a fixpoint."""
    start = (m.start(fn), Facts(), ())
    seen = defaultdict(set)
    work = _dq([(0, start)])
    seen[0].add(start)
    nstates = 0
    suspends = {}
    while work:
        b, (st, facts, envt) = work.popleft()
        nstates += 1
        if nstates > 60000:
            raise AnalysisBroken('state explosion in ' + fn.name)
        env = dict(envt)
        cx = Ctx(fn, env, facts)
        states = [m.block(st, cx)]
        blk = fn.blocks[b]
        for i in blk[:-1]:
            if i.op == 'phi':
                continue
            # a redefinition invalidates facts about the previous value of this instruction
            v = i.v
            if cx.facts.f and i.op in ('load', 'call', 'atomicrmw', 'cmpxchg'):
                cx.facts = cx.facts.kill(lambda a: (a[0] in ('call', 'rmw', 'cas', 'v') and len(a) > 1 and a[1] == v) or (a[0] == 'ld' and len(a) > 2 and a[2] == v))
            if i.op == 'call' and i.callee.startswith('llvm.assume'):
                if not m.assumes:
                    continue
                nf = cx.facts.assume(cx.val(i.ops[0]), True)
                if nf is None:
                    states = []
                    break
                cx.facts = nf
                continue
            ns = []
            for s in states:
                r = m.step(i, s, cx)
                if r is None:
                    continue
                if isinstance(r, list):
                    ns += r
                else:
                    ns.append(r)
            states = list(dict.fromkeys(ns))
            if not states:
                break
        if not states:
            continue
        t = blk[-1]
        op = t.op
        outs = []  # (succ, state, facts)
        if op == 'invoke':
            v = t.v
            cx.facts = cx.facts.kill(lambda a: a[0] in ('call',) and len(a) > 1 and a[1] == v)
            for s in states:
                for kind in ('normal', 'unwind'):
                    cx.edge = kind
                    r = m.step(t, s, cx)
                    for x in (r if isinstance(r, list) else [r]):
                        if x is not None:
                            outs.append((t.get(kind), x, cx.facts))
            cx.edge = None
        elif op == 'br':
            for s in states:
                if not t.ops:
                    outs.append((t.get('succ')[0], s, cx.facts))
                else:
                    c = cx.val(t.ops[0])
                    for k, val in ((0, True), (1, False)):
                        nf = cx.facts.assume(c, val)
                        if nf is not None:
                            outs.append((t.get('succ')[k], s, nf))
        elif op == 'switch':
            ce = cx.val(t.ops[0])
            src = fn.inst.get(t.ops[0].get('v')) if 'v' in t.ops[0] else None
            is_susp = src is not None and src.is_call and src.callee.startswith('llvm.coro.suspend')
            for s in states:
                if is_susp:
                    cases = dict((c, bb) for c, bb in t.get('cases'))
                    r = m.edge(t, ('resume', src), s, cx)
                    if r is not None and 0 in cases:
                        outs.append((cases[0], r, cx.facts))
                    r = m.edge(t, ('suspend', src), s, cx) if hasattr(m, 'on_suspend') else None
                    if m.follow_destroy and 1 in cases:
                        r = m.edge(t, ('destroy', src), s, cx)
                        if r is not None:
                            outs.append((cases[1], r, cx.facts))
                    continue
                dead = cx.facts
                for c, bb in t.get('cases'):
                    nf = cx.facts.assume(('cmp', 'eq', '', ce, ('c', c)), True)
                    if nf is not None:
                        outs.append((bb, s, nf))
                    dead = dead and dead.assume(('cmp', 'eq', '', ce, ('c', c)), False)
                if dead is not None:
                    outs.append((t.get('default'), s, dead))
        elif op in ('ret', 'resume', 'unreachable'):
            for s in states:
                m.exit(t, s, cx)
        else:
            for s in states:
                for x in t.get('succ') or []:
                    outs.append((x, s, cx.facts))
        for sb, s, nf in outs:
            ne = dict(env)
            # phis of the successor, evaluated in parallel
            new = {}
            for p in fn.blocks[sb]:
                if p.op != 'phi':
                    break
                for o, pb in p.d['inc']:
                    if pb == b:
                        e = fn.operand(o, env)
                        if depth_of(e) > 14 or any(a == ('phi', p.v) for a in atoms(e)) or stepped(e, env.get(p.v)) or stepped(fn.operand(o), ('phi', p.v)):
                            e = ('phi', p.v)
                        new[p.v] = e
                        break
            if new:
                redefined = set(new)
                nf = nf.kill(lambda a: a[0] == 'phi' and len(a) > 1 and a[1] in redefined)
                for p, e in new.items():
                    if e == ('phi', p):
                        ne.pop(p, None)
                    else:
                        ne[p] = e
            # drop environment entries that do not dominate (dead) to keep states small
            live = live_phis(fn)[sb]
            ne = {k: e for k, e in ne.items() if k in live}
            envt2 = tuple(sorted(ne.items()))
            f2 = nf
            if m.prune and f2.f:
                keep = live_vals(fn)[sb] | vals_of(s) | vals_of(envt2)
                ff = frozenset(x for x in f2.f if vals_of(x[0]) <= keep)
                if len(ff) != len(f2.f):
                    f2 = Facts(ff)
            state = (s, f2, envt2)
            if len(seen[sb]) > m.maxstates:
                state = (s, Facts(), ())
            if state not in seen[sb]:
                seen[sb].add(state)
                work.append((sb, state))
    return nstates


def stepped(new, old):
    """does a loop-carried value advance by a constant?  (then it is not unrolled)"""
    if old is None or new[0] == 'c' or new == old:
        return False
    a, c = lin_sub(new, old, 1 << 64)
    return not a and c != 0


def depth_of(e):
    if not isinstance(e, tuple):
        return 0
    return 1 + max([depth_of(x) for x in e if isinstance(x, tuple)] or [0])


def live_phis(fn):
    """phis whose value is still used (transitively) in blocks reachable from each block."""
    if hasattr(fn, '_livephi'):
        return fn._livephi
    phis = {i.v for i in fn.insts() if i.op == 'phi'}
    # transitive phi operands of each instruction through non-phi instructions
    memo = {}

    def deps(v, depth=0):
        if v in memo:
            return memo[v]
        memo[v] = set()
        if v in phis:
            memo[v] = {v}
            return memo[v]
        i = fn.inst.get(v)
        if i is None or depth > 200:
            return memo[v]
        r = set()
        for o in opvals(i):
            r |= deps(o, depth + 1)
        memo[v] = r
        return r
    use = {}
    for b, blk in enumerate(fn.blocks):
        u = set()
        for i in blk:
            if i.op == 'phi':
                continue
            for o in opvals(i):
                u |= deps(o)
        use[b] = u
    # phi uses on edges count as uses in the predecessor
    for b, blk in enumerate(fn.blocks):
        for i in blk:
            if i.op != 'phi':
                break
            for o, pb in i.d['inc']:
                if 'v' in o:
                    use[pb] |= deps(o['v'])
    live = {b: set(use[b]) for b in use}
    ch = True
    while ch:
        ch = False
        for b in reversed(range(len(fn.blocks))):
            n = set(live[b])
            for s in fn.succ[b]:
                n |= live[s]
            if n != live[b]:
                live[b] = n
                ch = True
    fn._livephi = live
    return live


_VALS = {}


def vals_of(e):
    """instruction ids an expression (or any nest of tuples) mentions."""
    if not isinstance(e, tuple) or not e:
        return frozenset()
    r = _VALS.get(e)
    if r is None:
        k = e[0]
        if k in ('call', 'rmw', 'cas', 'phi', 'v') and len(e) > 1 and isinstance(e[1], int):
            r = frozenset((e[1],))
        else:
            r = frozenset().union(*[vals_of(x) for x in e if isinstance(x, tuple)]) if any(isinstance(x, tuple) for x in e) else frozenset()
            if k == 'ld' and len(e) > 2:
                r |= {e[2] % 1000000}
            if k == 'alloca':
                r = frozenset()
        if len(_VALS) > 400000:
            _VALS.clear()
        _VALS[e] = r
    return r


def live_vals(fn):
    """instruction ids live into each block, and what those values were computed from."""
    if hasattr(fn, '_livevals'):
        return fn._livevals
    n = len(fn.blocks)
    use, dfn, out = [], [], [set() for _ in range(n)]
    for b, blk in enumerate(fn.blocks):
        u, d = set(), set()
        for i in blk:
            if i.op != 'phi':
                u |= {o for o in opvals(i) if o not in d}
            d.add(i.v)
        use.append(u)
        dfn.append(d)
    for b, blk in enumerate(fn.blocks):
        for i in blk:
            if i.op != 'phi':
                break
            for o, pb in i.d['inc']:
                if 'v' in o:
                    out[pb].add(o['v'])
    live = [set(u) for u in use]
    ch = True
    while ch:
        ch = False
        for b in reversed(range(n)):
            o = set(out[b])
            for s in fn.succ[b]:
                o |= live[s]
            x = use[b] | (o - dfn[b])
            if len(x) != len(live[b]):
                live[b] = x
                ch = True
    memo = {}

    def deps(v):
        if v not in memo:
            work, r = [v], set()
            while work:
                x = work.pop()
                if x in r:
                    continue
                r.add(x)
                i = fn.inst.get(x)
                if i is not None and i.op != 'phi':
                    work += opvals(i)
            memo[v] = r
        return memo[v]
    # phis of the block itself are live into it under their own name
    fn._livevals = [set().union(*[deps(v) for v in live[b] | {i.v for i in fn.blocks[b] if i.op == 'phi'}]) if live[b] or fn.blocks[b] else set() for b in range(n)]
    return fn._livevals


def opvals(i):
    r = []

    def rec(o):
        if 'v' in o:
            r.append(o['v'])
        for x in o.get('ops') or []:
            rec(x)
    for o in i.d.get('ops') or []:
        rec(o)
    if i.get('indirect'):
        rec(i.get('indirect'))
    for o, _ in i.d.get('inc') or []:
        rec(o)
    for o, _ in i.d.get('var') or []:
        rec(o)
    return r


# ----------------------------------------------------------------------------- module
class Module:
    def __init__(self, j, cfg):
        self.cfg = cfg
        self.T = Types(j['types'])
        self.globals = j['globals']
        self.symbols = j['symbols']
        self.graph = j.get('graph')
        self.tls = j.get('tls')
        self.funcs = [Func(f, self) for f in j['functions']]

    def find(self, rx, job=None):
        r = re.compile(rx)
        return [f for f in self.funcs if r.search(f.name) and (job is None or f.d['job'] == job)]


def show(fn, file=None):
    """human readable symbolic listing (debugging aid)."""
    import sys
    out = file or sys.stdout

    def s(e):
        if not isinstance(e, tuple):
            return str(e)
        k = e[0]
        if k == 'c':
            return str(e[1])
        if k == 'arg':
            return 'arg%d' % e[1]
        if k == 'off':
            fs = sorted(notmpl(x) for x in fn.fields(e))
            return '%s+%d%s' % (s(e[1]), e[2], '{' + fs[0] + '..' + str(len(fs)) + '}' if fs else '')
        if k == 'ld':
            return '*%d[%s]' % (e[2], s(e[1]))
        if k in ('call', 'rmw', 'cas', 'phi', 'alloca', 'v'):
            return k + str(e[1])
        if k == 'g':
            return '@' + short(e[1])[:60]
        if k == 'cmp':
            return '(%s %s %s)' % (s(e[3]), e[1], s(e[4]))
        return '(' + ' '.join(s(x) for x in e) + ')'
    print('==', fn.name, 'job', fn.d['job'], 'within', fn.d['within'], file=out)
    for b, blk in enumerate(fn.blocks):
        print(' b%d: <- %s' % (b, fn.pred[b]), file=out)
        for i in blk:
            if i.op in ('getelementptr', 'icmp') or i.op in PURE_CASTS:
                continue
            ops = ', '.join(s(fn.operand(o)) for o in i.ops)
            ex = ' '.join(str(i.get(k)) for k in ('order', 'forder', 'rmw', 'pred') if i.get(k) and i.get(k) != 'not_atomic')
            if i.op == 'phi':
                ops = ', '.join('%s@b%d' % (s(fn.operand(o)), p) for o, p in i.d['inc'])
            if i.op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
                a = fn.operand(i.ops[1] if i.op == 'store' else i.ops[0])
                fs = sorted(notmpl(x) for x in fn.fields(a))
                ex += ' {' + ' '.join(fs[:4]) + '}'
            tgt = ' -> %s' % (i.get('succ'),) if i.get('succ') is not None else ''
            if i.op == 'switch':
                tgt += ' cases %s default %s' % (i.get('cases'), i.get('default'))
            print('   %d %s %s %s %s%s  ; %s' % (i.v, i.op, short(i.callee) if i.callee else '', ops, ex, tgt, i.where().split('/')[-1][:60]), file=out)
