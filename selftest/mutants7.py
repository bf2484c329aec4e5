"""C18, C19 (compile-time guarantees) and C28 (headers)."""
PR = 'core/impl/promise.hpp'
SR = 'core/impl/safe_ref.hpp'
EV = 'core/eventually.hpp'
RT = 'core/impl/return.hpp'
TG = 'core/tag.hpp'
FA = 'core/first_arg.hpp'
IV = 'core/invocable.hpp'
TK = 'core/task.hpp'
CA = 'core/co_alloc.hpp'
SW = 'core/sync_wait.hpp'
UT = 'core/impl/utility.hpp'
SC = 'core/scheduler.hpp'
DQ = 'core/ext/deque.hpp'
LS = 'core/ext/list.hpp'
TL = 'core/ext/tls.hpp'
DF = 'core/defer.hpp'
CB = 'core/impl/combinate.hpp'
AW = 'core/impl/awaitables.hpp'
BP = 'schedule/busy_pool.hpp'
LP = 'schedule/lazy_pool.hpp'
EC = 'schedule/ext/event_count.hpp'
JU = 'core/just.hpp'
M7 = [
    # ---- C18
    ('ct-conv', PR, ('requires std::convertible_to<From &, To &> && (!binds_to_temporary<From &, To const &>())', 'requires std::convertible_to<From &, To const &>'), ['C18']),
    ('ct-conv-both', PR, ('''  #if __has_builtin(__reference_converts_from_temporary)
  return __reference_converts_from_temporary(To, From);
  #elif''', '''  #if 0
  #elif 0 &&'''), ['C18']),
    ('ct-xvalue', PR, ('''struct safe_fork_t<From &, To const &> : std::true_type {};
''', '''struct safe_fork_t<From &, To const &> : std::true_type {};

template <typename From, typename To>
  requires (!std::is_reference_v<From>)
struct safe_fork_t<From &&, To const &> : std::true_type {};
'''), ['C18']),
    ('ct-rref', PR, ('  requires (!std::is_reference_v<To>)\nstruct safe_fork_t<From, To>', '  requires (!std::is_lvalue_reference_v<To>)\nstruct safe_fork_t<From, To>'), ['C18']),
    ('ct-noassert', PR, ('  static_assert(always_false<From, To>, "Unsafe fork detected!");', ''), []),     # the use of ::value still rejects
    ('ct-noassert2', None, [(PR, '  static_assert(always_false<From, To>, "Unsafe fork detected!");', ''), (PR, '  static_assert(safe_fork_t<From, To>::value);\n', '')], ['C18']),
    ('ct-onlyfirst', PR, ('struct safe_fork<tag::fork, list<From, A...>, list<To, B...>> : safe_fork<tag::fork, list<A...>, list<B...>> {', 'struct safe_fork<tag::fork, list<From, A...>, list<To, B...>> : std::true_type {'), ['C18']),
    ('ct-default', PR, ('  static_assert(!std::is_rvalue_reference_v<Head>, "Forked rvalue will dangle");\n', ''), ['C18']),
    ('ct-default-head', PR, ('struct safe_fork<tag::fork, list<>, list<Head, Tail...>> : safe_fork<tag::fork, list<>, list<Tail...>> {', 'struct safe_fork<tag::fork, list<>, list<Head, Tail...>> : std::true_type {'), ['C18']),
    ('ct-default-strict', PR, ('!std::is_rvalue_reference_v<Head>, "Forked', '!std::is_reference_v<Head>, "Forked'), ['C18']),   # rejects const member functions
    ('ct-call', PR, ('struct safe_fork<tag::fork, list<From, A...>', 'struct safe_fork<tag::call, list<From, A...>'), ['C18']),
    ('ct-tag', PR, ('lf::impl::safe_fork_v<Tag, lf::impl::list<CallArgs...>', 'lf::impl::safe_fork_v<lf::tag::fork, lf::impl::list<CallArgs...>'), ['C18']),
    ('ct-nocheck', PR, ('  static_assert(lf::impl::safe_fork_v<Tag, lf::impl::list<CallArgs...>, lf::impl::list<Args...>>);\n', ''), ['C18']),
    ('ct-callargs', CB, ('first_arg_t<I, Tag, F, Args &&...>', 'first_arg_t<I, Tag, F, std::remove_reference_t<Args> &...>'), ['C18']),
    ('ct-safe-ref', SR, ('''} // namespace detail

/**
 * @brief Verify that ``To''', '''template <typename To, typename From>
struct safe_ref_bind_impl<To const &, From &&> : std::true_type {};

} // namespace detail

/**
 * @brief Verify that ``To'''), ['C18']),
    ('ct-safe-ref-any', SR, ('detail::safe_ref_bind_impl<To, From &&>::value;', 'std::convertible_to<From, To>;'), ['C18']),
    ('ct-return-ref', RT, ('template <safe_ref_bind_to<R> U>', 'template <typename U>'), ['C18']),
    ('ct-ev-ref', EV, ('template <impl::safe_ref_bind_to<T> U>', 'template <typename U>'), None),
    ('ct-eq-1', PR, ('''template <typename From, typename To>
  requires (!std::is_reference_v<To>)
struct safe_fork_t<From, To> : std::true_type {};
''', '''template <typename Source, typename Param>
  requires (std::is_object_v<Param>)
struct safe_fork_t<Source, Param> : std::true_type {};
'''), []),
    ('ct-eq-2', PR, ('''struct safe_fork<tag::fork, list<From, A...>, list<To, B...>> : safe_fork<tag::fork, list<A...>, list<B...>> {
  static_assert(safe_fork_t<From, To>::value);
};''', '''struct safe_fork<tag::fork, list<From, A...>, list<To, B...>>
    : std::bool_constant<safe_fork_t<From, To>::value && safe_fork<tag::fork, list<A...>, list<B...>>::value> {};'''), []),
    # ---- C19
    ('ct-direct', PR, ('''  static_assert(lf::impl::always_false<R, Args...>, "Don't invoke a coroutine directly!");
''', '''  using promise_type = lf::impl::promise<R, lf::impl::discard_t, lf::tag::call>;
'''), ['C19']),
    ('ct-first-ref', PR, ('''  requires std::is_reference_v<Head>
struct std::coroutine_traits<lf::task<R>, Head, Tail...> {
  static_assert(lf::impl::always_false<R, Head, Tail...>, "The first arg must be passed by value!");
};''', '''  requires std::is_reference_v<Head>
struct std::coroutine_traits<lf::task<R>, Head, Tail...> : std::coroutine_traits<lf::task<R>, std::remove_cvref_t<Head>, Tail...> {
};'''), ['C19']),
    ('ct-mod-sync', TG, ('''template <>
struct valid_modifier_impl<modifier::sync, tag::fork>''', '''template <tag T>
struct valid_modifier_impl<modifier::sync, T>'''), ['C19']),
    ('ct-mod-any', TG, ('''  static_assert(impl::always_false<Mod>, "Mod is not a valid modifier for tag T!");
''', ''), []),
    ('ct-mod-all', None, [(TG, '''struct valid_modifier_impl : std::false_type {
  static_assert(impl::always_false<Mod>, "Mod is not a valid modifier for tag T!");
''', '''struct valid_modifier_impl : std::true_type {
''')], ['C19']),
    ('ct-mod-eager', TG, ('struct valid_modifier_impl<modifier::eager_throw, tag::call>', 'struct valid_modifier_impl<modifier::eager_throw, tag::fork>'), ['C19']),
    ('ct-immovable', UT, ('''  immovable(const immovable &) = delete;
  immovable(immovable &&) = delete;
''', '''  immovable(const immovable &) = default;
  immovable(immovable &&) = default;
'''), ['C19']),
    ('ct-immovable-assign', UT, ('''  auto operator=(const immovable &) -> immovable & = delete;
  auto operator=(immovable &&) -> immovable & = delete;
''', '''  auto operator=(const immovable &) -> immovable & = default;
  auto operator=(immovable &&) -> immovable & = default;
'''), ['C19']),
    ('ct-copy-ev', EV, ('class basic_eventually : impl::immovable<basic_eventually<T, Exception>> {', 'class basic_eventually {'), ['C19']),
    ('ct-copy-alloc', CA, ('class stack_allocated : impl::immovable<stack_allocated<T>> {', 'class stack_allocated {'), ['C19']),
    ('ct-copy-packet', None, [(CB, 'struct [[nodiscard]] quasi_awaitable : immovable<quasi_awaitable<R, I, Tag, Mod>>, unique_frame {};', 'struct [[nodiscard]] quasi_awaitable : unique_frame {};')], None),
    ('ct-copy-future', SW, ('  future(future const &other) = delete;', '  future(future const &other) = default;'), ['C19']),
    ('ct-align', CA, ('std::default_initializable<T> && alignof(T) <= impl::k_new_align', 'std::default_initializable<T>'), ['C19']),
    ('ct-align2', CA, ('alignof(T) <= impl::k_new_align', 'alignof(T) <= 2 * impl::k_new_align'), ['C19']),
    ('ct-returnable', TK, ('std::is_void_v<T> || std::is_reference_v<T> || std::movable<T>', 'std::is_void_v<T> || std::is_reference_v<T> || std::destructible<T>'), ['C19']),
    ('ct-returnable-strict', TK, ('std::is_reference_v<T> || std::movable<T>', 'std::is_lvalue_reference_v<T> || std::copyable<T>'), ['C19', 'C28']),
    ('ct-root', None, [(PR, '      static_assert(always_false<I>, "Root task can\'t propagate exception!");\n', '      std::terminate();\n')], ['C19']),
    ('ct-rootable', SW, ('    requires rootable<F, Args...>\n  friend', '  friend'), None),
    ('ct-switch-void', SC, ('  { awaiter.await_suspend(handle) } -> std::same_as<void>;', '  awaiter.await_suspend(handle);'), ['C19']),
    ('ct-scheduler', SC, ('concept scheduler = requires (Sch &&sch, submit_handle handle) {\n  std::forward<Sch>(sch).schedule(handle); //\n};', 'concept scheduler = true;'), ['C19']),
    ('ct-defer', DF, ('  requires std::is_nothrow_invocable_v<F>', '  requires std::is_invocable_v<F>'), ['C19']),
    ('ct-deque', DQ, ('concept dequeable = lock_free<T> &&', 'concept dequeable = atomicable<T> &&'), ['C19']),
    std::copy_constructible<F>;''', '''    std::move_constructible<F>;'''), None),
    ('ct-consistent', IV, ('    self_consistent<unsafe_result_t<I, Tag, F, Args...>, I, Tag, F, Args...>; //', '    true; //'), ['C19']),
    ('ct-call-consistent', IV, ('''    return_exactly<R, I, T, F, Args...> &&       //
    return_exactly<R, I, tag::call, F, Args...>; //''', '''    return_exactly<R, I, T, F, Args...>; //'''), ['C19']),
    ('ct-resume-on', None, [(SC, 'auto resume_on(Sch *dest) noexcept', 'auto resume_on(worker_context *dest) noexcept'), (SC, 'template <scheduler Sch>\nauto resume_on', 'template <scheduler Sch = worker_context>\nauto resume_on')], ['C19']),
    ('ct-eq-3', TG, ('''template <>
struct valid_modifier_impl<modifier::sync, tag::fork> : std::true_type {};

template <>
struct valid_modifier_impl<modifier::sync_outside, tag::fork> : std::true_type {};
''', '''template <typename M>
  requires std::same_as<M, modifier::sync> || std::same_as<M, modifier::sync_outside>
struct valid_modifier_impl<M, tag::fork> : std::true_type {};
'''), None),
    ('ct-eq-4', TK, ('std::is_void_v<T> || std::is_reference_v<T> || std::movable<T>', 'std::movable<T> || std::is_reference_v<T> || std::is_void_v<T>'), []),
    ('ct-eq-5', CA, ('std::default_initializable<T> && alignof(T) <= impl::k_new_align', 'alignof(T) <= impl::k_new_align && std::default_initializable<T>'), []),
    # ---- C28
    ('hd-include-utility', LS, ('#include "libfork/core/impl/utility.hpp" // for immovable\n', ''), ['C28']),
    ('hd-noninline', TL, ('[[nodiscard]] LF_CLANG_TLS_NOINLINE inline auto stack() noexcept -> stack * {', '[[nodiscard]] auto stack() noexcept -> stack * {'), ['C28']),
    ('hd-static', TL, ('inline thread_local bool has_stack = false;', 'static thread_local bool has_stack = false;'), ['C28']),
    ('hd-static2', TL, ('constinit inline thread_local bool has_context = false;', 'constinit static thread_local bool has_context = false;'), ['C28']),
    ('hd-anon', TL, ('[[nodiscard]] LF_CLANG_TLS_NOINLINE inline auto stack() noexcept -> stack * {', 'static int calls = 0;\n[[nodiscard]] LF_CLANG_TLS_NOINLINE inline auto stack() noexcept -> stack * {\n  ++calls;'), ['C28']),
    ('hd-strong', EC, ('namespace lf {\n', 'namespace lf {\n\nint g_epoch = 0;\n'), ['C28']),
    ('hd-no-exc', 'algorithm/for_each.hpp', ('LF_TRY {', 'try {'), ['C28']),
    ('hd-rethrow', 'core/impl/promise.hpp', ('  void unhandled_exception() noexcept {', '  void unhandled_exception() noexcept {\n    try { throw; } catch (...) {}'), ['C28']),
    ('hd-explicit-spec', JU, ('namespace lf {\n', 'namespace lf {\n\ntemplate <class T> int arity(T) { return 1; }\ntemplate <> int arity<int>(int) { return 0; }\n'), ['C28']),
    ('hd-const-ok', BP, ('namespace lf {\n', 'namespace lf {\n\nstatic constexpr int k_tune = 3;\nconstexpr auto twice(int x) -> int { return 2 * x; }\n'), []),
]
M7 = [m for m in M7 if m[2] is not None]
