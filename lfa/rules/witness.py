"""Compile-fail / compile-pass witnesses (C18, C19).

Every case is one program in two variants that differ in a single offending construct: with -DBAD the
compilers must reject it, without they must accept it.  The deciding step is the type checker of the two
compilers on the headers as they are now; nothing is run."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from ..build import REPO, VERIF, CLANG
from ..ir import AnalysisBroken

GXX = 'g++'
COMP = {
    'g++': [GXX],
    'clang++': [CLANG],
}
STDS = {'quick': ['-std=c++23'], 'thorough': ['-std=c++23', '-std=c++20', '-std=c++23 -DNDEBUG -DLF_USE_HWLOC']}

PRE = '''
#include <libfork.hpp>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace w {
struct base { int v = 0; };
struct derived : base {};
struct move_only { move_only(); move_only(move_only &&); move_only &operator=(move_only &&); };
struct immovable { immovable(); immovable(immovable &&) = delete; };
int make();
std::string make_string();
}
'''


class Case:
    def __init__(self, name, title, code, std=None, only=None):
        self.name, self.title, self.code, self.std, self.only = name, title, code, std, only

    def runs_in(self, mode):
        return not (self.std == 23 and 'c++20' in mode[1]) and self.only in (None, mode[0])

    def text(self):
        return 'namespace %s {\n%s\n}\n' % ('c_' + re.sub(r'\W', '_', self.name), self.code)


def root(body, args=''):
    """a root task running `body`"""
    return ('inline constexpr auto root = [](auto self%s) -> lf::task<void> {\n%s\n  co_await lf::join;\n  co_return;\n};\n'
            'template <class T> inline void run(T &p) { lf::sync_wait(p, root); }\ntemplate void run(lf::lazy_pool &);\n' % (args, body))


def alt(bad, good):
    return '#ifdef BAD\n%s\n#else\n%s\n#endif\n' % (bad, good)


# ------------------------------------------------------------------------------------------- C18
KINDS = {
    'lambda': 'inline constexpr auto f = [](auto {c}) -> lf::task<{r}> {{ {b} }};',
    'const-first': 'inline constexpr auto f = [](auto const {c}) -> lf::task<{r}> {{ {b} }};',
    'member': 'struct fn {{ int k; auto operator()(auto {c}) const -> lf::task<{r}> {{ {b} }} }};\ninline constexpr fn f{{1}};',
    'mutable': 'struct fn {{ int k; auto operator()(auto {c}) -> lf::task<{r}> {{ {b} }} }};\ninline constexpr fn f{{1}};',
    'template': 'template <class T> struct fn {{ T k; auto operator()(auto {c}) const -> lf::task<{r}> {{ {b} }} }};\ninline constexpr fn<int> f{{1}};',
    'static': 'struct fn {{ static auto operator()(auto {c}) -> lf::task<{r}> {{ {b} }} }};\ninline constexpr fn f{{}};',
}
LOC = '  int lv = 1; int const clv = 2; long lng = 3; short sh = 1; std::string s = "x"; w::derived d; w::base bs; std::array<int, 3> arr{}; int raw[3] = {}; int *ptr = &lv; ' \
      '(void)lv; (void)clv; (void)lng; (void)sh; (void)raw; (void)ptr; (void)arr; int out = 0; (void)out;\n'

# parameter, argument that must be rejected by a fork, argument that must be accepted (or None: accepted only by a call)
MATRIX = [
    ('cref-prvalue', 'int const &', '3', 'lv'),
    ('cref-xvalue', 'int const &', 'std::move(lv)', 'clv'),
    ('cref-converted', 'int const &', 'lng', 'lv'),
    ('cref-converted-call', 'int const &', 'w::make()', 'clv'),
    ('cref-promoted', 'long const &', 'lv', 'lng'),
    ('rref-prvalue', 'int &&', '3', None),
    ('rref-xvalue', 'int &&', 'std::move(lv)', None),
    ('crref-prvalue', 'int const &&', '3', None),
    ('crref-xvalue', 'int const &&', 'std::move(clv)', None),
    ('auto-cref', 'auto const &', '3', 'lv'),
    ('auto-rref', 'auto &&', 'w::make()', 'lv'),
    ('string-literal', 'std::string const &', '"abc"', 's'),
    ('string-temp', 'std::string const &', 'w::make_string()', 's'),
    ('string-rref', 'std::string &&', 'std::move(s)', None),
    ('base-of-temp', 'w::base const &', 'w::derived{}', 'd'),
    ('array-decay', 'int *const &', 'raw', 'ptr'),
    ('function', 'std::function<int()> const &', 'w::make', None),
]
SECOND = [
    ('second', 'int, int const &', '1, 3', '1, lv'),
    ('third', 'int &, int, std::string const &', 'lv, 1, "x"', 'lv, 1, s'),
    ('first-of-two', 'int const &, int', '3, 1', 'lv, 1'),
    ('second-of-three', 'int, int &&, int', '1, 3, 1', None),
    ('defaulted-rref', 'int &&x = 3', '', None),
    ('defaulted-tail', 'int, int &&x = 3', '1', None),
    ('defaulted-second', 'int x = 1, int &&y = 3', '', None),
    ('defaulted-third', 'int, int const &y = 2, int &&z = 3', '1, lv', None),
    ('defaulted-crref', 'int, int const &&x = 3', '1', None),
    ('pack', 'auto &&...xs', 'lv, 3', 'lv, clv'),
    ('pack-cref', 'auto const &...xs', 'lv, 3', 'lv, clv'),
]
# arguments every fork accepts
ACCEPT = [
    ('int', '3'), ('int', 'lv'), ('int', 'lng'), ('int &', 'lv'), ('int const &', 'lv'), ('int const &', 'clv'), ('std::string', '"abc"'), ('std::string', 'std::move(s)'),
    ('std::string const', 's'), ('w::base &', 'd'), ('w::base const &', 'd'), ('w::base const &', 'std::as_const(d)'), ('auto', 'w::make()'), ('auto &', 'lv'), ('auto &&', 'lv'),
    ('auto const &', 'lv'), ('std::unique_ptr<int>', 'std::unique_ptr<int>{}'), ('int *', 'raw'), ('int *', '&lv'), ('w::move_only', 'w::move_only{}'), ('int (&)[3]', 'raw'),
    ('int &', 'std::ref(lv)'), ('std::reference_wrapper<int>', 'std::ref(lv)'), ('int, int const &', '1, lv'), ('int x = 3', ''), ('auto &&...', 'lv, clv'), ('auto...', '1, 2'),
    ('std::function<int()>', 'w::make'), ('std::string const &', 'std::as_const(s)'), ('int volatile &', 'lv'),
][:21] + [('std::reference_wrapper<int>', 'std::ref(lv)'), ('int, int const &', '1, lv'), ('int x = 3', ''), ('auto &&...', 'lv, clv'), ('auto...', '1, 2'),
          ('std::function<int()>', 'w::make'), ('std::string const &', 'std::as_const(s)')]


def fdef(kind, params, r='void', b='co_return;'):
    return KINDS[kind].format(c=', ' + params if params else '', r=r, b=b)


def fork_cases(tier):
    out = []

    def add(name, kind, params, bad, good, form='lf::fork({f})', call='lf::call(f)', r='void', b='co_return;', pre=''):
        fk = form.replace('{f}', 'f')
        ok = '  co_await %s(%s);' % (fk, good) if good is not None else '  co_await %s(%s);' % (call, bad)
        code = fdef(kind, params, r, b) + '\n' + root(LOC + pre + alt('  co_await %s(%s);' % (fk, bad), ok))
        out.append(Case('%s.%s' % (name, kind), 'fork of f(%s) with (%s)' % (params, bad), code, 23 if kind == 'static' else None))

    kinds = list(KINDS)
    for n, (name, p, bad, good) in enumerate(MATRIX + SECOND):
        some = kinds if tier == 'thorough' or n in (0, 5) else ['lambda', kinds[1 + n % 5]]
        for k in some:
            add(name, k, p, bad, good)
    # every way to write a fork
    for name, form, r, b in (
            ('slot', 'lf::fork(&out, f)', 'int', 'co_return 1;'), ('bracket', 'lf::fork[f]', 'void', 'co_return;'), ('bracket-slot', 'lf::fork[&out, f]', 'int', 'co_return 1;'),
            ('dispatch', 'lf::dispatch<lf::tag::fork>(&out, f)', 'int', 'co_return 1;'),
            ('dispatch-sync', 'lf::dispatch<lf::tag::fork, lf::modifier::sync>(&out, f)', 'int', 'co_return 1;'),
            ('dispatch-sync-outside', 'lf::dispatch<lf::tag::fork, lf::modifier::sync_outside>(&out, f)', 'int', 'co_return 1;')):
        std = 23 if 'bracket' in name else None
        for p, bad, good in (('int const &', '3', 'lv'), ('int const &', 'lng', 'lv'), ('int &&', '3', None)):
            call = form.replace('tag::fork', 'tag::call').replace('fork(', 'call(').replace('fork[', 'call[').replace('{f}', 'f')
            call = re.sub(r', lf::modifier::\w+', '', call)
            add('form-' + name + '-' + re.sub(r'\W+', '_', p + bad), 'lambda', p, bad, good, form, call, r, b)
            out[-1].std = std
    # a recursive fork through the first argument
    for p, bad, good in (('int const &', 'x - 1', 'x'), ('int &&', '3', None)):
        okk = 'lf::fork(self)(%s)' % good if good else 'lf::call(self)(3)'
        out.append(Case('self-' + re.sub(r'\W+', '_', p), 'fork through the first argument of f(%s) with (%s)' % (p, bad),
                        'inline constexpr auto f = [](auto self, %s x) -> lf::task<void> {\n  if (x > 0) {\n%s\n  }\n  co_await lf::join;\n  co_return;\n};\n' % (p, alt('  co_await lf::fork(self)(%s);' % bad, '  co_await %s;' % okk))
                        + root('  int lv = 1;\n  (void)lv; co_await lf::call(f)(%s);' % ('lv' if good else '3'))))
    # *this
    out.append(Case('this-rvalue', 'fork of a function object through an rvalue-qualified call operator',
                    'struct fn { int k; auto operator()(auto, int) && -> lf::task<void> { co_return; } };\ninline constexpr fn f{1};\n' + root(alt('  co_await lf::fork(f)(1);', '  co_await lf::call(f)(1);')),
                    only='clang++'))   # g++ 13 passes an lvalue reference as the object parameter to the traits
    return out


def accept_cases():
    out = []
    for n, (p, a) in enumerate(ACCEPT):
        for k in KINDS:
            code = fdef(k, p) + '\n' + root(LOC + '  co_await lf::fork(f)(%s);' % a)
            out.append(Case('accept-%d.%s' % (n, k), 'fork of f(%s) with (%s)' % (p, a), code, 23 if k == 'static' else None))
    for n, (name, p, bad, good) in enumerate(MATRIX + SECOND):
        for k in KINDS:
            code = fdef(k, p) + '\n' + root(LOC + '  co_await lf::call(f)(%s);\n  co_await lf::just(f)(%s);' % (bad, bad))
            out.append(Case('call-%s.%s' % (name, k), 'call of f(%s) with (%s)' % (p, bad), code, 23 if k == 'static' else None))
    return out


def result_cases():
    out = []
    glob = 'inline int gi = 1; inline int const gc = 2; inline long gl = 3; inline w::derived gd;\n'
    # result type, returned expression that must be rejected, one that must be accepted
    for n, (r, bad, good) in enumerate([
        ('int const &', '3', 'gi'), ('int const &', 'w::make()', 'gc'), ('int const &', 'std::move(gi)', 'gi'), ('int const &', 'gl', 'gi'), ('int &', 'w::make()', 'gi'), ('int &', 'gc', 'gi'),
        ('int &&', 'gi', 'std::move(gi)'), ('int &&', '3l', 'std::move(gi)'), ('w::base const &', 'w::derived{}', 'gd'),
        ('std::string const &', '"abc"', 'gs'), ('int const &&', 'gi', 'std::move(gc)'),
    ]):
        g = glob + ('inline std::string gs;\n' if 'string' in r else '')
        for kind, ev in (('eventually', 'lf::eventually<%s>' % r), ('try', 'lf::try_eventually<%s>' % r)):
            out.append(Case('return-%d-%s' % (n, kind), 'co_return %s from a task<%s>' % (bad, r),
                            g + 'inline constexpr auto f = [](auto) -> lf::task<%s> {\n%s};\n' % (r, alt('  co_return %s;' % bad, '  co_return %s;' % good))
                            + root('  %s e;\n  co_await lf::fork(&e, f)();' % ev)))
            if kind == 'eventually' and not r.endswith('&&'):
                out.append(Case('return-%d-own' % n, 'co_return %s from a task<%s> into a result object of the user' % (bad, r),
                            g + 'struct keep { std::remove_reference_t<%s> const *p = nullptr; keep &operator=(std::remove_reference_t<%s> const &x) { p = &x; return *this; } };\n' % (r, r)
                            + 'inline constexpr auto f = [](auto) -> lf::task<%s> {\n%s};\n' % (r, alt('  co_return %s;' % bad, '  co_return %s;' % good))
                            + root('  keep e;\n  co_await lf::fork(&e, f)();')))
            out.append(Case('bind-%d-%s' % (n, kind), 'assign %s to an eventual %s' % (bad, r),
                            g + 'inline void f(%s &e) {\n%s}\n' % (ev, alt('  e = %s;' % bad, '  e = %s;' % good))))
    return out


# ------------------------------------------------------------------------------------------- C19
F_INT = 'inline constexpr auto f = [](auto, int) -> lf::task<int> { co_return 1; };\n'
F_VOID = 'inline constexpr auto g = [](auto) -> lf::task<void> { co_return; };\n'


def misuse_cases():
    out = []

    def case(name, title, bad, good, pre='', std=None, only=None):
        """statements of a function"""
        out.append(Case(name, title, pre + 'inline void use() {\n%s}\n' % alt(bad, good), std, only))

    def co(name, title, bad, good, pre='', std=None, only=None):
        """statements of a root task"""
        out.append(Case(name, title, F_INT + F_VOID + pre + root(LOC + alt('  ' + bad, '  ' + good)), std, only))

    def decl(name, title, bad, good, pre='', std=None, only=None):
        out.append(Case(name, title, pre + alt(bad, good), std, only))

    # -- invoking a task function directly
    co('direct-lambda', 'invoking a task function directly', '(void)f(3);', 'co_await lf::call(f)(3);')
    co('direct-await', 'awaiting a directly invoked task function', 'co_await f(3);', 'co_await lf::just(f)(3);')
    co('direct-self', 'invoking a task function with the own first argument', '(void)f(self, 3);', 'co_await lf::call(&out, f)(3);')
    co('direct-int', 'invoking a task function with an arbitrary first argument', '(void)f(0, 3);', 'co_await lf::call(f)(3);')
    decl('direct-plain', 'a coroutine returning a task without a first argument', 'inline lf::task<int> h(int) { co_return 1; }', 'inline constexpr auto h = [](auto, int) -> lf::task<int> { co_return 1; };')
    decl('direct-none', 'a coroutine without parameters returning a task', 'inline lf::task<void> h() { co_return; }', 'inline constexpr auto h = [](auto) -> lf::task<void> { co_return; };')
    # -- the first argument by reference
    for k, t in (('lref', 'auto &'), ('cref', 'auto const &'), ('rref', 'auto &&')):
        for how in ('fork', 'call', 'just'):
            co('first-%s-%s' % (k, how), 'a task function that takes its first argument by reference (%s)' % t, 'co_await lf::%s(hb)(3);' % how, 'co_await lf::%s(hg)(3);' % how,
               'inline constexpr auto hb = [](%s, int) -> lf::task<void> { co_return; };\ninline constexpr auto hg = [](auto, int) -> lf::task<void> { co_return; };\n' % t)
        decl('first-%s-root' % k, 'a root task that takes its first argument by reference (%s)' % t, 'template <class P> void run(P &p) { lf::sync_wait(p, hb, 3); }\ntemplate void run(lf::lazy_pool &);',
             'template <class P> void run(P &p) { lf::sync_wait(p, hg, 3); }\ntemplate void run(lf::lazy_pool &);',
             'inline constexpr auto hb = [](%s, int) -> lf::task<void> { co_return; };\ninline constexpr auto hg = [](auto, int) -> lf::task<void> { co_return; };\n' % t)
    # -- copying what must not be copied
    for k, t, mv in (('future', 'lf::future<int>', True), ('future-void', 'lf::future<void>', True), ('busy', 'lf::busy_pool', True), ('lazy', 'lf::lazy_pool', True), ('deque', 'lf::deque<int>', False),
                     ('list', 'lf::intrusive_list<int>', False), ('context', 'lf::worker_context', False), ('eventually', 'lf::eventually<int>', False), ('eventually-ref', 'lf::eventually<int &>', False),
                     ('try', 'lf::try_eventually<int>', False), ('try-void', 'lf::try_eventually<void>', False), ('try-ref', 'lf::try_eventually<int const &>', False), ('event', 'lf::event_count', False),
                     ('task', 'lf::task<int>', True), ('allocated', 'lf::stack_allocated<int>', False), ('unit', 'lf::unit_pool', None)):
        case('copy-' + k, 'copying %s' % t, 'auto copy(T const &x) -> T; static_assert(std::is_copy_constructible_v<T>);', 'static_assert(std::is_destructible_v<T>);' if mv is None or k == 'context' else 'static_assert(std::is_move_constructible_v<T>%s);' % ('' if mv else ' || true'), 'using T = %s;\n' % t)
        case('assign-' + k, 'copy-assigning %s' % t, 'static_assert(std::is_copy_assignable_v<T>);', '(void)0;', 'using T = %s;\n' % t)
        if mv is False:
            case('move-' + k, 'moving %s' % t, 'static_assert(std::is_move_constructible_v<T> || std::is_move_assignable_v<T>);', '(void)0;', 'using T = %s;\n' % t)
    co('packet-copy', 'storing a forked call and awaiting it as an lvalue', 'auto p = lf::fork(f)(3); co_await p;', 'co_await lf::fork(f)(3);')
    co('packet-move', 'moving a forked call out of its variable', 'auto p = lf::fork(f)(3); auto q = std::move(p); co_await std::move(q);', 'co_await lf::fork(f)(3);')
    # -- awaiting what cannot be awaited
    co('await-int', 'awaiting an int', 'co_await 3;', 'co_await lf::join;')
    co('await-suspend', 'awaiting a standard awaitable', 'co_await std::suspend_always{};', 'co_await lf::call(g)();')
    co('await-bool', 'awaiting a context switcher whose await_suspend returns something', 'co_await wb{};', 'co_await wg{};',
       'struct wb { bool await_ready() { return true; } bool await_suspend(lf::submit_handle) { return true; } void await_resume() {} };\nstruct wg { bool await_ready() { return true; } void await_suspend(lf::submit_handle) {} void await_resume() {} };\n')
    co('await-handle', 'awaiting an awaitable that wants a coroutine handle', 'co_await wb{};', 'co_await wg{};',
       'struct wb { bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };\nstruct wg { bool await_ready() { return true; } void await_suspend(lf::submit_handle) {} void await_resume() {} };\n')
    co('await-noready', 'awaiting an incomplete context switcher', 'co_await wb{};', 'co_await wg{};',
       'struct wb { void await_suspend(lf::submit_handle) {} void await_resume() {} };\nstruct wg { bool await_ready() { return true; } void await_suspend(lf::submit_handle) {} void await_resume() {} };\n')
    co('await-packetless', 'awaiting a bound function that was not invoked', 'co_await lf::fork(f);', 'co_await lf::fork(f)(1);')
    co('await-yield', 'yielding from a task', 'co_yield 3;', 'co_await lf::join;')
    # -- illegal modifiers and tags
    for k, tag, bad, good in (('eager', 'fork', 'eager_throw', 'sync'), ('eager-out', 'fork', 'eager_throw_outside', 'sync_outside'), ('sync', 'call', 'sync', 'eager_throw'), ('sync-out', 'call', 'sync_outside', 'eager_throw_outside')):
        co('mod-' + k, 'the modifier %s on a %s' % (bad, tag), 'co_await lf::dispatch<lf::tag::%s, lf::modifier::%s>(&out, f)(3);' % (tag, bad), 'co_await lf::dispatch<lf::tag::%s, lf::modifier::%s>(&out, f)(3);' % (tag, good))
        co('mod-%s-discard' % k, 'the modifier %s on a %s' % (bad, tag), 'co_await lf::dispatch<lf::tag::%s, lf::modifier::%s>(g)();' % (tag, bad), 'co_await lf::dispatch<lf::tag::%s, lf::modifier::%s>(g)();' % (tag, good))
    co('mod-bogus', 'a type that is no modifier', 'co_await lf::dispatch<lf::tag::fork, int>(&out, f)(3);', 'co_await lf::dispatch<lf::tag::fork, lf::modifier::none>(&out, f)(3);')
    co('tag-root', 'dispatching a root task from a task', 'co_await lf::dispatch<lf::tag::root, lf::modifier::none>(g)();', 'co_await lf::dispatch<lf::tag::call, lf::modifier::none>(g)();')
    # -- result addresses
    co('slot-type', 'a result address of an unrelated type', 'co_await lf::fork(&d, f)(3);', 'co_await lf::fork(&out, f)(3);', 'struct u {};\n')
    co('slot-const', 'a constant result address', 'co_await lf::call(&clv, f)(3);', 'co_await lf::call(&lv, f)(3);')
    co('slot-value', 'a result variable instead of its address', 'co_await lf::call(lv, f)(3);', 'co_await lf::call(&lv, f)(3);')
    co('slot-void', 'a result address for a task without a result', 'co_await lf::call(&lv, g)();', 'co_await lf::call(g)();')
    co('slot-struct', 'an eventual of an unrelated type as result address', 'lf::eventually<u> e; co_await lf::call(&e, f)(3);', 'lf::eventually<int> e; co_await lf::call(&e, f)(3);', 'struct u {};\n')
    # -- root tasks
    decl('root-lost', 'a root task whose exception could not be stored', 'template <class P> void run(P &) { (void)lf::impl::combinate<lf::tag::root, lf::modifier::none>(lf::impl::discard_t{}, g)(); }\ntemplate void run(lf::lazy_pool &);',
         'template <class P> void run(P &p) { lf::sync_wait(p, g); }\ntemplate void run(lf::lazy_pool &);', F_VOID)
    case('root-scheduler', 'waiting on something that is no scheduler', 'int x = 0; lf::sync_wait(x, g);', 'extern lf::lazy_pool &x; lf::sync_wait(x, g);', F_VOID)
    case('root-args', 'submitting a task function with the wrong arguments', 'extern lf::lazy_pool &x; lf::sync_wait(x, f, std::string{});', 'extern lf::lazy_pool &x; lf::sync_wait(x, f, 3);', F_INT)
    case('root-plain', 'submitting an ordinary function', 'extern lf::lazy_pool &x; lf::sync_wait(x, h, 3);', 'extern lf::lazy_pool &x; lf::sync_wait(x, f, 3);', F_INT + 'inline constexpr auto h = [](int) -> int { return 1; };\n')
    co('fork-plain', 'forking an ordinary function', 'co_await lf::fork(h)(3);', 'co_await lf::fork(f)(3);', 'inline constexpr auto h = [](int) -> int { return 1; };\n')
    co('fork-pointer', 'forking a function pointer', 'co_await lf::fork(&h)(3);', 'co_await lf::fork(f)(3);', 'inline int h(int) { return 1; }\n')
    co('fork-moveonly', 'forking a function object that cannot be copied', 'co_await lf::fork(hb{})();', 'co_await lf::fork(hg{})();',
       'struct hb { std::unique_ptr<int> p; auto operator()(auto) const -> lf::task<void> { co_return; } };\nstruct hg { std::shared_ptr<int> p; auto operator()(auto) const -> lf::task<void> { co_return; } };\n')
    co('fork-args', 'forking with the wrong arguments', 'co_await lf::fork(f)(s);', 'co_await lf::fork(f)(1);')
    co('fork-inconsistent', 'forking a function whose result type depends on how it is called', 'co_await lf::fork(h)();', 'co_await lf::fork(g)();',
       'struct hb { template <class S> auto operator()(S) const -> lf::task<std::conditional_t<S::tagged == lf::tag::fork, void, int>> { if constexpr (S::tagged == lf::tag::fork) co_return; else co_return 1; } };\ninline constexpr hb h{};\n')
    # -- allocations
    co('alloc-align', 'allocating over-aligned objects on a fibre stack', 'auto [x] = co_await lf::co_new<big>(2);', 'auto [x] = co_await lf::co_new<small>(2);', 'struct alignas(2 * __STDCPP_DEFAULT_NEW_ALIGNMENT__) big { int x; };\nstruct alignas(__STDCPP_DEFAULT_NEW_ALIGNMENT__) small { int x; };\n')
    co('alloc-default', 'allocating objects that cannot be default-constructed', 'auto [x] = co_await lf::co_new<nd>(2);', 'auto [x] = co_await lf::co_new<int>(2);', 'struct nd { nd(int); };\n')
    co('alloc-ref', 'allocating references', 'auto [x] = co_await lf::co_new<int &>(2);', 'auto [x] = co_await lf::co_new<int *>(2);')
    # -- result types
    for k, bad, good in (('array', 'int[3]', 'std::array<int, 3>'), ('immovable', 'w::immovable', 'w::move_only'), ('const', 'int const', 'int'), ('function', 'int()', 'int (*)()')):
        decl('result-' + k, 'a task whose result is of type %s' % bad, 'inline lf::task<R> *h = nullptr;\ninline auto sz = sizeof(lf::task<R>);', 'inline auto sz = sizeof(lf::task<Q>);', 'using R = %s;\nusing Q = %s;\n' % (bad, good))
    decl('eventual-void', 'an eventual that can hold neither a value nor an exception', 'inline auto sz = sizeof(lf::eventually<void>);', 'inline auto sz = sizeof(lf::try_eventually<void>);')
    # -- the rest of the vocabulary
    decl('deque-type', 'a work-stealing deque of elements that are not trivially copyable', 'inline auto sz = sizeof(lf::deque<std::string>);', 'inline auto sz = sizeof(lf::deque<std::string *>);')
    decl('deque-large', 'a work-stealing deque of elements that are not lock-free', 'inline auto sz = sizeof(lf::deque<std::array<long, 8>>);', 'inline auto sz = sizeof(lf::deque<long>);')
    case('defer-throw', 'deferring a function that may throw', 'lf::defer at = [] { w::make(); };', 'lf::defer at = []() noexcept { w::make(); };')
    case('resume-on', 'transferring to something that is no scheduler', 'extern int *x; (void)lf::resume_on(x);', 'extern lf::lazy_pool *x; (void)lf::resume_on(x);')
    co('context-new', 'constructing a worker context', 'lf::worker_context c;', 'lf::worker_context *c = self.context(); (void)c;')
    return out


# ------------------------------------------------------------------------------------------- running
class Runner:
    def __init__(self, ck, tier):
        self.ck, self.tier = ck, tier
        self.dir = tempfile.mkdtemp(prefix='lfw.')
        self.inc = ['-I', os.path.join(REPO, 'include'), '-I', self.dir]
        self.modes = [(c, s) for c in COMP for s in STDS[tier]]
        open(os.path.join(self.dir, 'pre.hpp'), 'w').write(PRE)

    def key(self, mode):
        return re.sub(r'\W+', '_', mode[0] + mode[1])

    def cmd(self, mode):
        return COMP[mode[0]] + mode[1].split() + ['-w', '-fsyntax-only'] + self.inc

    def prepare(self):
        """precompiled prelude per compiler; a prelude that does not compile is a finding of its own"""
        def one(mode):
            k = self.key(mode)
            d = os.path.join(self.dir, k)
            os.makedirs(d)
            shutil.copy(os.path.join(self.dir, 'pre.hpp'), d)
            out = os.path.join(d, 'pre.hpp.gch' if mode[0] == 'g++' else 'pre.pch')
            c = COMP[mode[0]] + mode[1].split() + ['-w', '-x', 'c++-header', os.path.join(d, 'pre.hpp'), '-o', out, '-I', os.path.join(REPO, 'include')]
            r = subprocess.run(c, capture_output=True, text=True)
            return mode, r
        with ThreadPoolExecutor(4) as ex:
            for mode, r in ex.map(one, self.modes):
                if r.returncode:
                    raise AnalysisBroken('the headers do not compile with %s: %s' % (' '.join(mode), first_error(r.stderr)))

    def compile(self, mode, name, text, bad):
        d = os.path.join(self.dir, self.key(mode))
        src = os.path.join(d, '%s.%s.cpp' % (name, 'bad' if bad else 'good'))
        if mode[0] == 'g++':
            pre, extra = '#include "%s/pre.hpp"\n' % d, []
        else:
            pre, extra = '', ['-include-pch', os.path.join(d, 'pre.pch')]
        open(src, 'w').write(pre + text)
        r = subprocess.run(self.cmd(mode) + extra + (['-DBAD'] if bad else []) + [src], capture_output=True, text=True, timeout=300)
        if r.returncode < 0 or 'internal compiler error' in r.stderr or 'PLEASE submit a bug report' in r.stderr:
            raise AnalysisBroken('%s crashes on %s' % (mode[0], name))
        return r

    def run(self, cases, rule_bad, rule_good, anchor, pairs=True):
        """pairs: reject with -DBAD, accept without; otherwise accept only"""
        ck = self.ck
        try_ok = []
        for mode in self.modes:
            cs = [c for c in cases if c.runs_in(mode)]
            for i in range(0, len(cs), 12):
                try_ok.append((mode, cs[i:i + 12]))
        jobs = []
        if pairs:
            jobs = [(mode, c) for mode in self.modes for c in cases if c.runs_in(mode)]

        def good(a):
            mode, cs = a
            n = '%s_%d' % (re.sub(r'\W', '_', cs[0].name), len(cs))
            r = self.compile(mode, 'all_' + n, ''.join(c.text() for c in cs), False)
            if r.returncode == 0:
                return [(mode, c, None) for c in cs]
            res = []
            for c in cs:
                r = self.compile(mode, re.sub(r'\W', '_', c.name), c.text(), False)
                res.append((mode, c, first_error(r.stderr) if r.returncode else None))
            return res

        def bad(a):
            mode, c = a
            r = self.compile(mode, re.sub(r'\W', '_', c.name), c.text(), True)
            return mode, c, r.returncode
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            fb = [ex.submit(bad, j) for j in jobs]
            fg = [ex.submit(good, j) for j in try_ok]
            for f in fg:
                for mode, c, err in f.result():
                    ck.cfg = ' '.join(mode)
                    ck.need(err is None, rule_good, '%s (witness %s)' % (anchor, c.name), 'correct program rejected: %s%s' % (c.title if not pairs else 'the correct twin of ' + c.title, ': ' + err if err else ''))
            for f in fb:
                mode, c, rc = f.result()
                ck.cfg = ' '.join(mode)
                ck.need(rc != 0, rule_bad, '%s (witness %s)' % (anchor, c.name), 'accepted, but must not compile: %s' % c.title)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def first_error(s):
    for l in s.split('\n'):
        if 'error' in l:
            return re.sub(r'/tmp/\S*/', '', l)[:300]
    return s[:200]


def session(ck, cfgs, body):
    r = Runner(ck, ck.tier)
    try:
        r.prepare()
        body(r)
    finally:
        r.close()


SF = 'include/libfork/core/impl/promise.hpp: coroutine_traits/safe_fork'
RB = 'include/libfork/core: return_result/basic_eventually/safe_ref_bind_to'


def c18(ck, cfgs):
    ck.rule('fork-reject', 'a fork that binds a reference parameter to a temporary or an expiring object does not compile (each witness differs from an accepted twin only in the offending argument)', 80)
    ck.rule('fork-twin', 'the corresponding safe forks and calls compile', 80)
    ck.rule('fork-accept', 'lvalue references and by-value arguments can be forked, calls are not restricted', 200)
    ck.rule('result-reject', 'a reference result is not bound to a temporary, an expiring object or a converted value', 40)
    ck.rule('result-twin', 'the corresponding safe results compile', 40)

    def body(r):
        r.run(fork_cases(ck.tier), 'fork-reject', 'fork-twin', SF)
        r.run(accept_cases(), None, 'fork-accept', SF, pairs=False)
        r.run(result_cases(), 'result-reject', 'result-twin', RB)
    session(ck, cfgs, body)


def c19(ck, cfgs):
    ck.rule('misuse-reject', 'the misuse does not compile (each witness differs from an accepted twin only in the offending construct)', 150)
    ck.rule('misuse-twin', 'the corresponding correct programs compile', 150)

    def body(r):
        r.run(misuse_cases(), 'misuse-reject', 'misuse-twin', 'include/libfork')
    session(ck, cfgs, body)
