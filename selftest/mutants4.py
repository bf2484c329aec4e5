"""further mutants; same format as mutants.py"""
from mutants import AW, PR, FR, RS, DQ, LI, EC, ST, LZ, BZ, UP, NC, TL, CX
from mutants2 import FA, EV, SC, SW, CA, RT, UF, CO, EX, JU, CF
ML = 'core/impl/manual_lifetime.hpp'
FE, MA, FO, SN = ['algorithm/%s.hpp' % x for x in ('for_each', 'map', 'fold', 'scan')]
M4 = [
    # ---- exceptions never terminate
    ('nx-ready', AW, ('auto await_ready() noexcept(noexcept_await_ready<A>)', 'auto await_ready() noexcept'), ['C26']),
    ('nx-ready-mixed', AW, ('auto await_ready() noexcept(noexcept_await_ready<A>)', 'auto await_ready() noexcept(noexcept_await_resume<A>)'), ['C26']),
    ('nx-suspend', AW, ('noexcept(noexcept_await_suspend<A>) ->', 'noexcept(noexcept_await_ready<A>) ->'), ['C26']),
    ('nx-resume', AW, ('auto await_resume() noexcept(noexcept_await_resume<A>)', 'auto await_resume() noexcept(noexcept_await_suspend<A>)'), ['C26']),
    ('nx-sync', AW, ('auto await_resume() const noexcept(!ChildThrows) -> bool', 'auto await_resume() const noexcept(R == region::opening_fork) -> bool'), ['C26']),
    ('nx-first', FA, ('const & noexcept(std::is_nothrow_invocable_v<F const &, Args...>)', 'const & noexcept(std::is_nothrow_invocable_v<F &, Args...>)'), ['C26']),
    ('nx-first-args', FA, ('operator()(Args &&...args) & noexcept(std::is_nothrow_invocable_v<F &, Args...>)', 'operator()(Args &&...args) & noexcept(std::is_nothrow_invocable_v<F &, std::remove_reference_t<Args>...>)'), ['C26']),
    ('nx-event', EV, ('auto operator=(U &&expr) noexcept(std::is_nothrow_constructible_v<T, U>)', 'auto operator=(U &&expr) noexcept(std::is_nothrow_constructible_v<T, std::remove_cvref_t<U> const &>)'), ['C26']),
    ('nx-event2', EV, ('auto operator=(U &&expr) noexcept(std::is_nothrow_constructible_v<T, U>)', 'auto operator=(U &&expr) noexcept(std::is_nothrow_move_constructible_v<T>)'), ['C26']),
    ('nx-manual', ML, ('auto construct(Args &&...args) noexcept(std::is_nothrow_constructible_v<T, Args...>)', 'auto construct(Args &&...args) noexcept'), ['C26']),
    ('nx-await', None, [(EC, 'void await(Pred const &condition) noexcept(std::is_nothrow_invocable_r_v<bool, Pred const &>);', 'void await(Pred const &condition) noexcept(std::is_nothrow_invocable_v<Pred &>);'), (EC, 'void event_count::await(Pred const &condition) noexcept(std::is_nothrow_invocable_r_v<bool, Pred const &>) {', 'void event_count::await(Pred const &condition) noexcept(std::is_nothrow_invocable_v<Pred &>) {')], ['C26']),
    ('nx-await-conv', None, [(EC, 'void await(Pred const &condition) noexcept(std::is_nothrow_invocable_r_v<bool, Pred const &>);', 'void await(Pred const &condition) noexcept(std::is_nothrow_invocable_v<Pred const &>);'), (EC, 'void event_count::await(Pred const &condition) noexcept(std::is_nothrow_invocable_r_v<bool, Pred const &>) {', 'void event_count::await(Pred const &condition) noexcept(std::is_nothrow_invocable_v<Pred const &>) {')], ['C26']),
    ('nx-foreach', LI, ('noexcept(std::is_nothrow_invocable_v<F &, T &>)', 'noexcept(std::is_nothrow_invocable_v<F, T &>)'), ['C26']),
    ('nx-node', LI, ('noexcept(std::is_nothrow_copy_constructible_v<T>) : m_data', 'noexcept : m_data'), ['C26']),
    ('nx-combine', CO, ('auto operator()(Args &&...args) && -> quasi', 'auto operator()(Args &&...args) && noexcept -> quasi'), ['C26']),
    ('nx-return', RT, ('void return_value(R &&value) {', 'void return_value(R &&value) noexcept {'), ['C26']),
    ('nx-return2', RT, ('void return_value(U &&value) {', 'void return_value(U &&value) noexcept(std::is_nothrow_convertible_v<U, R>) {'), ['C26']),
    ('nx-setret', RT, ('void set_return(I &&ret) noexcept(std::is_nothrow_move_assignable_v<I>)', 'void set_return(I &&ret) noexcept'), ['C26']),
    ('nx-transform', PR, ('  auto await_transform(A &&await) {', '  auto await_transform(A &&await) noexcept {'), ['C26']),
    ('nx-transform-copy', PR, ('  auto await_transform(A &&await) {', '  auto await_transform(A &&await) noexcept(noexcept_await_ready<A>) {'), ['C26']),
    ('nx-just', JU, ('  auto await_resume() -> R {', '  auto await_resume() noexcept -> R {'), ['C26']),
    ('nx-just-wrapped', JU, ('auto operator()(Args &&...args) && -> just_wrapped<std::invoke_result_t<F, Args...>> {', 'auto operator()(Args &&...args) && noexcept(std::is_nothrow_invocable_v<F &, Args...>) -> just_wrapped<std::invoke_result_t<F, Args...>> {'), ['C26']),
    ('nx-get', SW, ('  auto get() -> R {', '  auto get() noexcept -> R {'), ['C26']),
    ('nx-unhandled', PR, ('      stash_exception(*(this->get_return()));', '      std::terminate();'), ['C26', 'C15']),
    ('nx-wait', SW, ('auto sync_wait(Sch &&sch, F &&fun, Args &&...args) -> async_result_t<F, Args...> {', 'auto sync_wait(Sch &&sch, F &&fun, Args &&...args) noexcept -> async_result_t<F, Args...> {'), ['C26']),
    ('nx-algo-map', MA, ('map.stash_exception();', 'std::terminate();'), ['C26']),
    ('nx-algo-swallow', FE, ('          for_each.stash_exception(); ', '          '), ['C26']),
    ('nx-coalloc', AW, ('      stack->deallocate(ptr);\n      LF_RETHROW;', '      stack->deallocate(ptr);\n      std::terminate();'), ['C26']),
    ('eq-nx-less', None, [(AW, 'auto await_ready() noexcept(noexcept_await_ready<A>)', 'auto await_ready()'), (EV, 'auto operator=(U &&expr) noexcept(std::is_nothrow_constructible_v<T, U>)', 'auto operator=(U &&expr)')], []),
    ('eq-nx-more', None, [(RT, '[[nodiscard]] auto get_return() noexcept', '[[nodiscard]] auto get_return() noexcept(true)'), (SW, 'requires rootable<F, Args...>\nauto sync_wait', 'requires rootable<F, Args...>\nLF_FORCEINLINE auto sync_wait')], []),
]
