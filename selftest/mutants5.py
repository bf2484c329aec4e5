TL = 'core/ext/tls.hpp'
CO = 'core/co_alloc.hpp'
AW = 'core/impl/awaitables.hpp'
FA = 'core/first_arg.hpp'
SC = 'core/scheduler.hpp'
PR = 'core/impl/promise.hpp'
MC = 'core/macro.hpp'
M5 = [
    ('tl-noinline-stack', TL, ('LF_CLANG_TLS_NOINLINE inline auto stack()', 'inline auto stack()'), ['C27']),
    ('tl-noinline-ctx', TL, ('LF_CLANG_TLS_NOINLINE inline auto context()', 'inline auto context()'), ['C27']),
    ('tl-noinline-ver', MC, ('__clang_major__ <= 16', '__clang_major__ <= 15'), ['C27']),
    ('tl-noinline-force', MC, ('#define LF_CLANG_TLS_NOINLINE LF_NOINLINE', '#define LF_CLANG_TLS_NOINLINE'), ['C27']),
    ('tl-alloc-cache', None, [(CO, 'auto *stack = impl::tls::stack();\n    stack->', 'auto *stack = m_stack;\n    stack->'), (CO, '  impl::frame *m_frame;\n', '  impl::frame *m_frame;\n  impl::stack *m_stack = impl::tls::stack();\n')], ['C27']),
    ('tl-first-static', FA, ('{ return tls::context(); }', '{ static worker_context *const ctx = tls::context(); return ctx; }'), ['C27']),
    ('tl-first-member', None, [(FA, '[[nodiscard]] static auto context() -> worker_context * { return tls::context(); }', '[[nodiscard]] auto context() const -> worker_context * { return m_ctx; }'), (FA, '  { T::context() } -> std::same_as<worker_context *>;\n', ''), (FA, '      : m_fun(std::forward<T>(expr)) {}', '      : m_fun(std::forward<T>(expr)) {}\n  worker_context *m_ctx = tls::context();\n')], ['C27']),
    ('tl-global', TL, ('inline thread_local manual_lifetime<stack>', 'inline manual_lifetime<stack>'), ['C27']),
    ('tl-resume-on', None, [(SC, 'return impl::tls::context() == m_dest;', 'return m_here == m_dest;'), (SC, '  Sch *m_dest;\n', '  Sch *m_dest;\n  worker_context *m_here = impl::tls::context();\n')], ['C27']),
    ('tl-bypass', CO, ('auto *stack = impl::tls::stack();\n', 'auto *stack = impl::tls::thread_stack.data();\n'), ['C27']),
    ('eq-tl-inline', CO, ('auto *stack = impl::tls::stack();\n    stack->deallocate(m_span.data());\n    m_frame->reset_stacklet(stack->top());', 'impl::tls::stack()->deallocate(m_span.data());\n    m_frame->reset_stacklet(impl::tls::stack()->top());'), []),
    ('eq-tl-always', MC, ('#define LF_CLANG_TLS_NOINLINE LF_NOINLINE', '#define LF_CLANG_TLS_NOINLINE __attribute__((noinline))'), []),
]
