#!/usr/bin/env python3
"""Automatic mutants of the headers: every textual operator at every place, filtered by "still compiles", run against the
checks that cover the file until one fires.  Survivors are printed for review: each is either a gap in a check, or harmless.
usage: auto.py FILE-REGEX [-j N] [-s SEED] [-m MAX] [-c C01,C02] [-o OPS-REGEX]"""
import difflib, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(here)
INC = '/repo/include/libfork'
MAP = [
    (r'algorithm/for_each|algorithm/map', 'C22 C20 C21 C26'), (r'algorithm/fold', 'C23 C22 C20 C21 C26'), (r'algorithm/scan', 'C23 C22 C20 C21 C26'),
    (r'ext/deque', 'C06 C02 C26'), (r'ext/list', 'C07 C02 C26'), (r'ext/event_count', 'C08 C26'), (r'impl/stack\.', 'C05 C04 C26'), (r'impl/frame', 'C01 C02 C15 C30 C26'),
    (r'impl/promise', 'C01 C30 C15 C04 C29 C03 C16 C24 C26 C02'), (r'impl/awaitables', 'C01 C30 C15 C16 C04 C03 C02 C24 C29 C26 C25'), (r'ext/context', 'C12 C11 C08 C26'),
    (r'ext/tls|ext/resume', 'C11 C12 C03 C04 C27 C26'), (r'core/eventually', 'C17 C26 C19'), (r'core/sync_wait', 'C13 C14 C26 C19'), (r'co_alloc', 'C25 C26 C19 C03'),
    (r'core/just|control_flow|first_arg|combinate|impl/return|unique_frame|utility|manual_life', 'C30 C29 C16 C17 C13 C25 C26 C19 C18'), (r'core/scheduler', 'C24 C26 C19'),
    (r'schedule/lazy', 'C09 C10 C12 C11 C31 C26'), (r'schedule/busy', 'C10 C12 C11 C31 C26'), (r'schedule/unit', 'C10 C12 C11 C26'), (r'numa_context', 'C11 C31 C12 C09 C10 C26'), (r'schedule/', 'C31 C11 C10 C26'),
    (r'core/', 'C19 C18 C26 C30'), (r'', 'C26'),
]


def blank(s):
    """the source with comments, strings and preprocessor lines blanked, same length"""
    s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.S)
    return re.sub(r'^[ \t]*#(?:[^\n]*\\\n)*[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), s, flags=re.M)


def sites(src):
    b = blank(src)
    out = []

    def sub(op, rx, rep):
        for m in re.finditer(rx, b, re.M):
            r = rep(m) if callable(rep) else rep
            if r is not None and r != m.group(0):
                out.append((op, m.start(), m.end(), r))
    sub('order', r'(?<![\w_])(?:std::memory_order_)?(?:acquire|release|acq_rel|seq_cst)\b(?!\s*\()', lambda m: re.sub(r'(acquire|release|acq_rel|seq_cst)', 'relaxed', m.group(0)))
    sub('cmp', r'(?<=\s)(==|!=|<=|>=|<|>)(?=\s)', lambda m: {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>'}[m.group(0)])
    sub('neg', r'\bif (?:constexpr )?\((?=[^;{}]*\)\s*(?:LF_|\[\[\w+\]\] )?\w*\s*\{)', lambda m: m.group(0) + '!')
    sub('logic', r'&&(?=\s)(?<=\s&&)|\|\|(?=\s)', lambda m: '||' if m.group(0) == '&&' else '&&')
    sub('bool', r'\b(true|false)\b(?=[;,)}])', lambda m: 'false' if m.group(0) == 'true' else 'true')
    sub('arith', r'(?<=\w |\) )[+-](?= [\w(])', lambda m: '-' if m.group(0) == '+' else '+')
    sub('const', r'(?<![\w.])[012](?![\w.\'])', lambda m: {'0': '1', '1': '2', '2': '1'}[m.group(0)])
    sub('incr', r'\+\+(?=\w)|--(?=\w)', lambda m: '--' if m.group(0) == '++' else '++')
    # statement deletion
    for m in re.finditer(r'(?<=[;{}:])(\s*)((?!return\b|using\b|static_assert\b|typename\b|template\b|friend\b|else\b|case\b|public|private|protected|break\b|namespace\b|\[\[)[\w*:(+~-][^;{}]*);', b):
        t = m.group(2)
        if re.match(r'(?:const\b|constexpr|static|inline|auto\b|explicit|virtual|enum|struct|class|union|extern|std::\w+ \w+|bool |int )', t) or re.match(r'[\w:<>, *&]+ [*&]?\w+( =|$|\{)', t) and '->' not in t.split('=')[0] and not re.match(r'(co_await|co_return|throw|delete)\b', t):
            if not re.match(r'\w[\w.\->]* =', t):
                continue
        out.append(('del', m.start(2), m.end(), ';'))
    sub('del', r'\b(?:break|continue);', ';')
    sub('del', r'\bco_return;|(?<=[{;}]\n)\s*return;', ';')
    # two plain arguments exchanged
    sub('swap', r'(?<=[\w>])\((\w+), (\w+)\)', lambda m: '(%s, %s)' % (m.group(2), m.group(1)))
    sub('swap3', r'(?<=[\w>])\((\w+), (\w+)(, [^()]+)\)', lambda m: '(%s, %s%s)' % (m.group(2), m.group(1), m.group(3)))
    # names exchanged for others of the same file
    for a, c in (('begin', 'end'), ('mid', 'beg'), ('mid', 'tail'), ('lhs', 'rhs'), ('head', 'tail'), ('mid', 'end'), ('fork', 'call'), ('call', 'fork'), ('left', 'right'), ('first', 'second'), ('top', 'bottom'), ('bottom', 'top'), ('m_prev', 'm_next'), ('m_next', 'm_prev')):
        sub('name', r'(?<![\w:.])%s\b(?=[,);. ])(?! [\w*&])' % a, c)
    sub('noexcept', r'\bnoexcept\((?!noexcept)[^;{}\n]*\)(?= (?:->|\{|:))|\bnoexcept\(noexcept\([^;{}\n]*\)\)(?= (?:->|\{|:))', 'noexcept')
    sub('addnoex', r'\)(?= -> [^;{}=\n]*\{)|\)(?= \{\n)', lambda m: None)
    sub('move', r'std::(?:move|forward<[\w&]+>)\((\w+)\)', lambda m: m.group(1))
    return out


def relevant(f):
    for rx, c in MAP:
        if re.search(rx, f):
            return c.split()


def compiles(d):
    a = [['g++', '-std=c++23', '-w', '-fsyntax-only', '-DLF_USE_HWLOC', '-I', d + '/include', VERIF + '/witness/use.cpp'],
         ['/usr/bin/clang++-18', '-std=c++23', '-DNDEBUG', '-w', '-fsyntax-only', '-I', d + '/include', VERIF + '/witness/use.cpp']]
    return all(subprocess.run(x, capture_output=True).returncode == 0 for x in a)


def one(a):
    f, src, (op, i, j, rep), checks = a
    d = tempfile.mkdtemp(prefix='lfauto.')
    try:
        shutil.copytree('/repo/include', d + '/include')
        new = src[:i] + rep + src[j:]
        open(os.path.join(d, 'include/libfork', f), 'w').write(new)
        diff = [l for l in difflib.unified_diff(src.splitlines(), new.splitlines(), n=0, lineterm='') if l[:3] not in ('---', '+++')]
        if not compiles(d):
            return f, op, diff, 'nocompile'
        cache = os.path.join(d, 'cache'); os.makedirs(cache)
        broken = []
        for c in checks:
            env = dict(os.environ, LFA_REPO=d, LFA_CACHE=cache, LFA_EVIDENCE=d)
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), c], capture_output=True, text=True, env=env)
            if r.returncode == 1:
                return f, op, diff, c
            if r.returncode:
                broken.append(c + '=' + str(r.returncode))
        return f, op, diff, 'SURVIVES ' + ' '.join(broken)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    opt = lambda k, dv: args[args.index(k) + 1] if k in args else dv
    rx = re.compile(args[0])
    todo = []
    for dd, _, fs in os.walk(INC):
        for n in sorted(fs):
            f = os.path.relpath(os.path.join(dd, n), INC)
            if rx.search(f) and f.endswith('.hpp'):
                src = open(os.path.join(INC, f)).read()
                ch = opt('-c', '').split(',') if '-c' in args else relevant(f)
                todo += [(f, src, s, ch) for s in sites(src) if re.search(opt('-o', ''), s[0])]
    random.Random(int(opt('-s', '1'))).shuffle(todo)
    todo = todo[:int(opt('-m', '100000'))]
    print(len(todo), 'candidates', flush=True)
    if '-n' in args:
        for f, src, s, ch in todo:
            print(f, s[0], src.count('\n', 0, s[1]) + 1, repr(src[s[1]:s[2]])[:80], '->', s[3])
        return
    tally = {}
    with ThreadPoolExecutor(int(opt('-j', '4'))) as ex:
        for f, op, diff, res in ex.map(one, todo):
            k = res.split()[0]
            tally[k] = tally.get(k, 0) + 1
            if k != 'nocompile':
                print('%s %s %s' % (res if k != 'SURVIVES' else 'XX ' + res, f, op) + '\n   ' + '\n   '.join(x[:170] for x in diff), flush=True)
    print(tally)


main()
