"""Exceptions of user code never terminate the program (C26): an effect analysis over the exception
graph of whole modules (every call, and what becomes of an exception it throws)."""
import re
from ..ir import AnalysisBroken

USER = re.compile(r'\bprobe::')


class Graph:
    def __init__(self, mod):
        self.sym = {s['m']: s for s in mod.symbols}
        self.fn = {f['m']: f for f in mod.graph}
        self.why = {}
        self.solve()

    def name(self, m):
        return self.sym[m]['n'] if m in self.sym else m

    def source(self, m):
        """can the declaration m throw an exception of the user's?"""
        if m in self.fn or not m:
            return False
        return bool(USER.search(self.name(m).split('(')[0])) or 'rethrow_exception' in m

    def throws(self, m):
        return m in self.why or self.source(m)

    def live(self, f, c):
        """may call c of f throw an exception of the user's?"""
        if c['f'] == '__cxa_rethrow':
            return any(x['w'] == 'got' and x['f'] != '__cxa_rethrow' and self.throws(x['f']) for x in f['calls'])
        return self.throws(c['f'])

    def solve(self):
        again = True
        while again:
            again = False
            for m, f in self.fn.items():
                if m in self.why:
                    continue
                for c in f['calls']:
                    if c['w'] == 'up' and self.live(f, c):
                        self.why[m] = c
                        again = True
                        break

    def chain(self, m):
        out = []
        while len(out) < 10:
            out.append(short(self.name(m)))
            if m not in self.why:
                break
            m = self.why[m]['f']
        return ' -> '.join(out)

    def keeps(self, m, seen=None):
        """does m (transitively) take hold of the current exception or throw it on?"""
        seen = set() if seen is None else seen
        if 'current_exception' in m or m == '__cxa_rethrow':
            return True
        if m in seen or m not in self.fn:
            return False
        seen.add(m)
        return any(self.keeps(c['f'], seen) for c in self.fn[m]['calls']) or any(self.keeps(x, seen) for x in self.fn[m].get('quiet', []))


def short(n):
    n = re.sub(r'\(anonymous namespace\)::', '', n)
    d, out = 0, ''
    for ch in n:
        if ch == '<':
            d += 1
        if not d:
            out += ch
        if ch == '>':
            d -= 1
    return out.split('(')[0][-70:]


def ours(file):
    return file is not None and ('include/libfork/' in file or file.endswith('libfork.hpp'))


def c26(ck, mods):
    ck.rule('reach', 'an exception of user code passes through the library: it leaves the function or reaches a handler, it never meets a "noexcept"', 300)
    ck.rule('kept', 'a handler that user exceptions reach throws on or takes hold of the exception', 100)
    ck.rule('thread', 'no exception of user code can leave the body of a worker thread', 2)
    for cfg, mod in mods.items():
        ck.cfg = cfg
        threads = 0
        for drv, md in sorted(mod.items()):
            if md.graph is None:
                continue
            g = Graph(md)
            for m, f in g.fn.items():
                file = f.get('file') or ''
                lib = ours(file)
                if lib:
                    ck.funcs.add(short(f['n']))
                live = [c for c in f['calls'] if g.live(f, c)]
                for c in live:
                    where = '%s:%s' % ((c.get('file') or file).split('include/')[-1], c.get('l') or f.get('line'))
                    if c['w'] == 'end' and not re.search(r'(^|/)driver/', file):
                        ck.bad('reach', where, 'an exception thrown by %s terminates the program here: %s' % (short(g.name(c['f'])), g.chain(c['f'])), F(f, file))
                    elif lib and c['w'] == 'got':
                        ck.need(any(g.keeps(x) for x in c.get('h', [])), 'kept', where, 'an exception thrown by %s is swallowed by this function' % g.chain(c['f']), F(f, file))
                    elif lib:
                        ck.ok('reach', where)
                if re.search(r'^std::thread::_State_impl<.*::_M_run\(\)', f['n']):
                    threads += 1
                    ck.need(m not in g.why, 'thread', F(f, file).where(), 'an exception of user code can leave the thread: %s' % g.chain(m), F(f, file))
        if not threads:
            raise AnalysisBroken('no thread body found')


class F:
    def __init__(self, f, file):
        self.d = {'file': file, 'line': f.get('line')}
        self.name = self.q = f['n']
        self.file = file
        self._w = '%s:%s' % (file.split('include/')[-1], f.get('line'))

    def where(self, *a):
        return self._w
