"""further mutants; same format as mutants.py"""
from mutants import AW, PR, FR, RS, DQ, LI, EC, ST, LZ, BZ, UP, NC, TL, CX
FA, EV, SC, SW, CA, RT, UF, CO, EX, JU, CF = 'core/first_arg.hpp', 'core/eventually.hpp', 'core/scheduler.hpp', 'core/sync_wait.hpp', 'core/co_alloc.hpp', 'core/impl/return.hpp', 'core/impl/unique_frame.hpp', 'core/impl/combinate.hpp', 'core/exceptions.hpp', 'core/just.hpp', 'core/control_flow.hpp'
M2 = [
    # ---- exceptions to the join
    ('ex-always-store', FR, ('    if (!prev) {\n      m_eptr.construct', '    if (true) {\n      m_eptr.construct'), ['C15']),
    ('ex-last-wins', FR, ('    if (!prev) {\n      m_eptr.construct(std::current_exception());\n    }', '    if (!prev) {\n      m_eptr.construct(std::current_exception());\n    } else {\n      *m_eptr = std::current_exception();\n    }'), ['C15']),
    ('ex-plain-flag', FR, ('    bool prev = std::atomic_ref{m_except}.exchange(true, std::memory_order_acq_rel);', '    bool prev = m_except;\n    m_except = true;'), ['C15']),
    ('ex-not-cleared', FR, ('      m_eptr.destroy();\n  #ifdef __cpp_lib_atomic_ref\n      m_except = false;', '      m_eptr.destroy();\n  #ifdef __cpp_lib_atomic_ref\n'), ['C15', 'C16']),
    ('ex-leak', None, [(FR, '      LF_ASSERT(*m_eptr == nullptr);\n      m_eptr.destroy();\n', ''), (FR, 'std::rethrow_exception(std::exchange(*m_eptr, nullptr));', 'std::rethrow_exception(*m_eptr);')], ['C15']),
    ('ex-reset-drops', FR, ('    m_steal = 0;\n\n', '    m_steal = 0;\n    m_except = false;\n\n'), ['C15']),
    ('ex-join-ignores', AW, ('    LF_ASSERT(self->stacklet() == tls::stack()->top());\n\n    self->unsafe_rethrow_if_exception();', '    LF_ASSERT(self->stacklet() == tls::stack()->top());\n'), ['C15']),
    ('ex-join-unstolen', AW, ('    LF_ASSERT(self->stacklet() == tls::stack()->top());\n\n    self->unsafe_rethrow_if_exception();', '    LF_ASSERT(self->stacklet() == tls::stack()->top());\n    if (self->load_joins(std::memory_order_relaxed) != k_u16_max) { return; }\n    self->unsafe_rethrow_if_exception();'), ['C15']),
    ('ex-own-frame', PR, ('      this->parent()->capture_exception();', '      this->capture_exception();'), ['C15']),
    ('ex-dropped-fork', PR, ('      this->parent()->capture_exception();', '      if constexpr (Tag == tag::call) { this->parent()->capture_exception(); }'), ['C15']),
    ('ex-stash-nothing', FA, ('    m_frame->capture_exception();', '    if (!m_frame->atomic_has_exception()) { }'), ['C15']),
    ('ex-frame-dirty', FR, ('  bool m_except = false;', '  bool m_except = true;'), ['C15']),
    ('ex-no-frame', PR, ('    unsafe_set_frame(arg, this);\n', ''), ['C15']),
    ('ex-slot-and-parent', PR, ('      stash_exception(*(this->get_return()));', '      stash_exception(*(this->get_return()));\n      if constexpr (Tag == tag::fork) { this->parent()->capture_exception(); }'), ['C15']),
    ('ex-final-clears', PR, ('    parent->reset();\n\n    return parent->self();', '    parent->reset();\n    if (parent->unsafe_has_exception()) { parent->capture_exception(); }\n    return parent->self();'), ['C15']),
    # ---- eager / sync
    ('eg-wrong-cond', AW, ('    } else if (self->load_steals() == 0) {\n      // Can throw', '    } else if (self->load_steals() <= 1) {\n      // Can throw'), ['C16']),
    ('eg-no-subst', AW, ('      if (self->atomic_has_exception()) {\n        LF_THROW(exception_before_join{});\n      }\n    }\n  }\n\n  /**\n   * @brief The calling', '    }\n  }\n\n  /**\n   * @brief The calling'), ['C16']),
    ('eg-subst-real', AW, ('      // Otherwise we throw a substitute.\n      if (self->atomic_has_exception()) {\n        LF_THROW(exception_before_join{});\n      }', '      self->unsafe_rethrow_if_exception();'), ['C16']),
    ('eg-outside-skip', AW, ('      // Outside fork-join we can touch the exception.\n      self->unsafe_rethrow_if_exception();', '      // Outside fork-join we can touch the exception.\n'), ['C16']),
    ('sy-true-when-stolen', AW, ('steals_post == steals_pre) {', 'steals_post >= steals_pre) {'), ['C16']),
    ('sy-no-throw-stolen-before', AW, ('          if (self->atomic_has_exception()) {\n            LF_THROW(exception_before_join{});\n          }\n        }\n      }\n      return true;', '        }\n      }\n      return true;'), ['C16']),
    ('sy-unsafe', AW, ('        } else if (steals_post == 0) {', '        } else if (steals_post == steals_pre) {'), ['C16']),
    ('sy-false', AW, ('      return true;\n    }\n    return false;\n  }\n  /**', '      return steals_post == 0;\n    }\n    return false;\n  }\n  /**'), ['C16']),
    ('sy-throwing-flip', PR, ('sync_fork_awaitable<throwing, unknown>', 'sync_fork_awaitable<false, unknown>'), ['C16']),
    ('eg-region', PR, ('        return eager_call_awaitable<unknown>{', '        return eager_call_awaitable<outside>{'), ['C16']),
    ('eg-dropped', PR, ('throwing && std::same_as<Mod, modifier::eager_throw_outside>', 'throwing && Tag == tag::fork && std::same_as<Mod, modifier::eager_throw_outside>'), ['C16']),
    ('sy-pre-const', PR, ('sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, this->load_steals()}', 'sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, std::uint16_t{0}}'), ['C16']),
    ('sy-child-steals', PR, ('        return sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, this->load_steals()};', '        auto pre = awaitable->load_steals();\n        return sync_fork_awaitable<throwing, unknown>{{{}, std::move(awaitable), this}, pre};'), ['C16']),
    # equivalents
    ('eq-ex-cas', FR, ('    bool prev = std::atomic_ref{m_except}.exchange(true, std::memory_order_acq_rel);', '    bool prev = false;\n    std::atomic_ref{m_except}.compare_exchange_strong(prev, true, std::memory_order_acq_rel);'), []),
    ('eq-ex-early', FR, ('    if (!prev) {\n      m_eptr.construct(std::current_exception());\n    }', '    if (prev) {\n      return;\n    }\n    auto e = std::current_exception();\n    m_eptr.construct(std::move(e));'), []),
    ('eq-ex-clear-first', FR, ('    LF_DEFER {\n      LF_ASSERT(*m_eptr == nullptr);\n      m_eptr.destroy();\n  #ifdef __cpp_lib_atomic_ref\n      m_except = false;\n  #else\n      m_except.store(false, std::memory_order_relaxed);\n  #endif\n    };\n\n    std::rethrow_exception(std::exchange(*m_eptr, nullptr));', '    std::exception_ptr e = std::exchange(*m_eptr, nullptr);\n    m_eptr.destroy();\n    m_except = false;\n    std::rethrow_exception(std::move(e));'), []),
    ('eq-sy-nested', AW, ('          if (self->atomic_has_exception()) {\n            LF_THROW(exception_before_join{});\n          }\n        }\n      }\n      return true;', '          bool const has = self->atomic_has_exception();\n          if (has) {\n            LF_THROW(exception_before_join{});\n          }\n        }\n      }\n      return true;'), []),
    ('eq-eg-helper', AW, ('      // Otherwise we throw a substitute.\n      if (self->atomic_has_exception()) {\n        LF_THROW(exception_before_join{});\n      }', '      [](frame const *fr) { if (!fr->atomic_has_exception()) { return; } LF_THROW(exception_before_join{}); }(self);'), []),
    # ---- objects on the fibre stack
    ('co-nodealloc', AW, ('      stack->deallocate(ptr);\n      LF_RETHROW;', '      LF_RETHROW;'), ['C25']),
    ('co-swallow', AW, ('      stack->deallocate(ptr);\n      LF_RETHROW;', '      stack->deallocate(ptr);\n      return {self, std::span<T>{ptr, std::size_t{0}}};'), ['C25']),
    ('co-record-early', None, [(AW, '    self->reset_stacklet(stack->top());\n\n    return {self, std', '    return {self, std'), (AW, '    T *ptr = static_cast<T *>(stack->allocate', '    self->reset_stacklet(stack->top());\n    T *ptr = static_cast<T *>(stack->allocate')], ['C25']),
    ('co-no-record', AW, ('    self->reset_stacklet(stack->top());\n\n    return {self, std', '    return {self, std'), ['C25']),
    ('co-count-1', AW, ('default_construct_n(ptr, checked_cast<int_t>(request.count));', 'default_construct_n(ptr, checked_cast<int_t>(request.count - (request.count > 1)));'), ['C25']),
    ('co-size-1', AW, ('stack->allocate(request.count * sizeof(T))', 'stack->allocate((request.count - 1) * sizeof(T))'), ['C25']),
    ('co-noguard', AW, ('request.count > max / sizeof(T)', 'request.count > max'), ['C25']),
    ('co-span', AW, ('return {self, std::span<T>{ptr, request.count}};', 'return {self, std::span<T>{ptr + 1, request.count}};'), ['C25']),
    ('co-dtor-nodestroy', CA, ('    std::ranges::destroy(m_span);\n', ''), ['C25']),
    ('co-dtor-n1', CA, ('std::ranges::destroy(m_span);', 'std::ranges::destroy(m_span.first(m_span.size() - !m_span.empty()));'), ['C25']),
    ('co-dtor-order', None, [(CA, '    std::ranges::destroy(m_span);\n', ''), (CA, '    stack->deallocate(m_span.data());\n', '    stack->deallocate(m_span.data());\n    std::ranges::destroy(m_span);\n')], ['C25']),
    ('co-dtor-record-early', None, [(CA, '    m_frame->reset_stacklet(stack->top());\n', ''), (CA, '    stack->deallocate(m_span.data());\n', '    m_frame->reset_stacklet(stack->top());\n    stack->deallocate(m_span.data());\n')], ['C25']),
    ('co-dtor-norecord', CA, ('    m_frame->reset_stacklet(stack->top());\n', ''), ['C25']),
    ('co-dtor-leak', CA, ('    stack->deallocate(m_span.data());\n', '    if (!m_span.empty()) { stack->deallocate(m_span.data()); }\n'), ['C25']),
    ('co-get', CA, ('  [[nodiscard]] auto get() noexcept -> std::span<T> {\n    return m_span;', '  [[nodiscard]] auto get() noexcept -> std::span<T> {\n    return m_span.subspan(0, m_span.size() / 2);'), ['C25']),
    ('eq-co-loop', CA, ('    std::ranges::destroy(m_span);\n', '    for (std::size_t i = 0; i < m_span.size(); ++i) { std::destroy_at(m_span.data() + i); }\n'), []),
    ('eq-co-bytes', AW, ('    T *ptr = static_cast<T *>(stack->allocate(request.count * sizeof(T)));', '    std::size_t const n = request.count;\n    std::size_t const bytes = sizeof(T) * n;\n    void *mem = stack->allocate(bytes);\n    T *ptr = static_cast<T *>(mem);'), []),
    ('eq-co-value', AW, ('    return {self, std::span<T>{ptr, request.count}};', '    std::span<T> sp{ptr, request.count};\n    return stack_allocated<T>{self, sp};'), []),
]
