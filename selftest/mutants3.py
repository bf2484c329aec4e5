"""further mutants; same format as mutants.py"""
from mutants import AW, PR, FR, RS, DQ, LI, EC, ST, LZ, BZ, UP, NC, TL, CX
UFR = 'core/impl/unique_frame.hpp'
from mutants2 import FA, EV, SC, SW, CA, RT, UF, CO, EX, JU, CF
M3 = [
    # ---- futures
    ('fu-dtor-nowait', SW, ('    if (valid() && m_heap->status == no_wait) {\n      m_heap->sem.acquire();\n    }', '    if (valid() && m_heap->status == retrievd) {\n      m_heap->sem.acquire();\n    }'), ['C13']),
    ('fu-dtor-always', SW, ('    if (valid() && m_heap->status == no_wait) {', '    if (valid()) {'), ['C13']),
    ('fu-dtor-ready', SW, ('    if (valid() && m_heap->status == no_wait) {', '    if (valid() && m_heap->status != retrievd) {'), ['C13']),
    ('fu-wait-forgets', SW, ('      m_heap->sem.acquire();\n      m_heap->status = ready;', '      m_heap->sem.acquire();'), ['C13']),
    ('fu-wait-nosem', SW, ('      m_heap->sem.acquire();\n      m_heap->status = ready;', '      m_heap->status = ready;'), ['C13']),
    ('fu-wait-valid', SW, ('    if (!valid()) {\n      LF_THROW(broken_future{});\n    }\n', ''), ['C13']),
    ('fu-wait-rearm', SW, ('      m_heap->status = ready;\n    }\n  }', '    }\n    m_heap->status = ready;\n  }'), ['C13']),
    ('fu-get-twice', SW, ('    m_heap->status = retrievd;\n', ''), ['C13']),
    ('fu-get-mark-late', SW, ('    m_heap->status = retrievd;\n\n    if (m_heap->has_exception()) {\n      std::rethrow_exception(std::move(*m_heap).exception());\n    }\n', '    if (m_heap->has_exception()) {\n      std::rethrow_exception(std::move(*m_heap).exception());\n    }\n    m_heap->status = retrievd;\n'), ['C13']),
    ('fu-get-nowait', SW, ('    wait();\n\n    if (m_heap->status == retrievd)', '    if (!valid()) { LF_THROW(broken_future{}); }\n    if (m_heap->status == retrievd)'), ['C13']),
    ('fu-get-noexc', SW, ('    if (m_heap->has_exception()) {\n      std::rethrow_exception', '    if (false) {\n      std::rethrow_exception'), ['C13']),
    ('fu-get-wrong-error', SW, ('      LF_THROW(empty_future{});', '      LF_THROW(broken_future{});'), ['C13']),
    ('fu-get-rereads', SW, ('    if (m_heap->status == retrievd) {', '    if (m_heap->status == no_wait) {'), ['C13']),
    ('fu-detach-waits', SW, ('std::exchange(m_heap, nullptr); }', 'if (valid()) { m_heap->sem.acquire(); } std::exchange(m_heap, nullptr); }'), ['C13']),
    ('fu-detach-not', SW, ('std::exchange(m_heap, nullptr); }', 'if (valid()) { m_heap->status = ready; } }'), ['C13']),
    ('fu-valid', SW, ('return m_heap != nullptr; }', 'return m_heap == nullptr; }'), ['C13']),
    ('fu-sem-1', SW, ('std::binary_semaphore sem{0};', 'std::binary_semaphore sem{1};'), ['C13']),
    ('fu-state-init', SW, ('future_state status = future_state::no_wait;', 'future_state status = future_state::ready;'), ['C13']),
    ('fu-no-share', None, [(SW, 'impl::y_combinate combinator = combinate<tag::root, modifier::none>(share_state, std::forward<F>(fun));', 'impl::y_combinate combinator = combinate<tag::root, modifier::none>(std::shared_ptr<impl::future_shared_state<async_result_t<F, Args...>>>(std::shared_ptr<void>{}, share_state.get()), std::forward<F>(fun));')], ['C13']),
    ('fu-late-sem', SW, ('  await->set_root_sem(&share_state->sem);\n', ''), ['C13', 'C30']),
    ('fu-signal-last', PR, None, []),
    ('eq-fu-wait-nested', SW, ('    if (!valid()) {\n      LF_THROW(broken_future{});\n    }\n\n    if (m_heap->status == no_wait) {\n      m_heap->sem.acquire();\n      m_heap->status = ready;\n    }', '    if (auto *st = m_heap.get()) {\n      if (st->status != no_wait) {\n        return;\n      }\n      st->sem.acquire();\n      st->status = ready;\n      return;\n    }\n    LF_THROW(broken_future{});'), []),
    ('eq-fu-reset', SW, ('std::exchange(m_heap, nullptr); }', 'm_heap.reset(); }'), []),
    ('eq-fu-enum', SW, ('  no_wait,\n  /**\n   * @brief The result is ready.\n   */\n  ready,', '  ready = 7,\n  /**\n   * @brief x\n   */\n  no_wait = 3,'), []),
    ('eq-fu-ref', SW, ('    m_heap->status = retrievd;\n\n    if (m_heap->has_exception()) {\n      std::rethrow_exception(std::move(*m_heap).exception());\n    }', '    auto &state = *m_heap;\n    auto const old = std::exchange(state.status, retrievd);\n    (void)old;\n    bool const failed = state.has_exception();\n    if (failed) {\n      auto ex = std::move(state).exception();\n      std::rethrow_exception(std::move(ex));\n    }'), []),
    ('eq-fu-dtor-flag', SW, ('    if (valid() && m_heap->status == no_wait) {\n      m_heap->sem.acquire();\n    }', '    if (!valid()) {\n      return;\n    }\n    switch (m_heap->status) {\n      case no_wait:\n        m_heap->sem.acquire();\n        break;\n      default:\n        break;\n    }'), []),
    # ---- submission
    ('su-no-reject', SW, ('  if (impl::tls::has_stack || impl::tls::has_context) {', '  if (impl::tls::has_stack && impl::tls::has_context) {'), ['C14']),
    ('su-reject-late', None, [(SW, '  if (impl::tls::has_stack || impl::tls::has_context) {\n    LF_THROW(schedule_in_worker{});\n  }\n', ''), (SW, '  auto share_state = std::make_shared', '  if (impl::tls::has_context) {\n    LF_THROW(schedule_in_worker{});\n  }\n  auto share_state = std::make_shared')], ['C14']),
    ('su-flag-stays', SW, ('    impl::tls::thread_stack.destroy();\n    impl::tls::has_stack = false;', '    impl::tls::thread_stack.destroy();'), ['C14']),
    ('su-stack-leaks', SW, ('    impl::tls::thread_stack.destroy();\n    impl::tls::has_stack = false;', '    impl::tls::has_stack = false;'), ['C14']),
    ('su-flag-first', SW, ('  impl::tls::thread_stack.construct();\n  impl::tls::has_stack = true;', '  impl::tls::has_stack = true;\n  impl::tls::thread_stack.construct();'), ['C14']),
    ('su-no-restore', SW, ('    *impl::tls::thread_stack = impl::stack{stacklet};\n', ''), ['C14']),
    ('su-swallow', SW, ('    *impl::tls::thread_stack = impl::stack{stacklet};\n    LF_RETHROW;', '    *impl::tls::thread_stack = impl::stack{stacklet};'), ['C14']),
    ('su-release-early', None, [(SW, '  impl::ignore_t{} = await.release();\n', ''), (SW, '  LF_TRY {\n    std::forward<Sch>(sch).schedule', '  impl::ignore_t{} = await.release();\n  LF_TRY {\n    std::forward<Sch>(sch).schedule')], ['C14']),
    ('su-not-released', SW, ('  impl::ignore_t{} = await.release();\n', '  impl::ignore_t{} = await.get();\n'), ['C14', 'C29']),
    ('su-defer-late', None, [(SW, '  // Clean up the stack on exit.\n  LF_DEFER {\n    impl::tls::thread_stack.destroy();\n    impl::tls::has_stack = false;\n  };\n', ''), (SW, '  // Set the root semaphore.', '  LF_DEFER {\n    impl::tls::thread_stack.destroy();\n    impl::tls::has_stack = false;\n  };\n  // Set the root semaphore.')], ['C14']),
    ('su-noexcept', SW, ('    std::forward<Sch>(sch).schedule(share_state->node.data());\n', '    [&]() noexcept { std::forward<Sch>(sch).schedule(share_state->node.data()); }();\n'), ['C14']),
    ('su-twice', SW, ('    std::forward<Sch>(sch).schedule(share_state->node.data());\n  } LF_CATCH_ALL {', '    std::forward<Sch>(sch).schedule(share_state->node.data());\n  } LF_CATCH_ALL {\n    std::forward<Sch>(sch).schedule(share_state->node.data());'), ['C14']),
    ('su-no-release-stack', None, [(SW, '  impl::stack::stacklet *stacklet = impl::tls::thread_stack->release();', '  impl::stack::stacklet *stacklet = impl::tls::thread_stack->top();')], ['C14']),
    ('eq-su-guard', SW, ('  LF_DEFER {\n    impl::tls::thread_stack.destroy();\n    impl::tls::has_stack = false;\n  };', '  struct guard {\n    ~guard() {\n      impl::tls::has_stack = false;\n      impl::tls::thread_stack.destroy();\n    }\n  } const g;'), []),
    ('eq-su-split', SW, ('  if (impl::tls::has_stack || impl::tls::has_context) {\n    LF_THROW(schedule_in_worker{});\n  }', '  bool const worker = impl::tls::has_context;\n  if (impl::tls::has_stack) {\n    LF_THROW(schedule_in_worker{});\n  }\n  if (worker) {\n    LF_THROW(schedule_in_worker{});\n  }'), []),
    ('eq-su-sem-later', None, [(SW, '  // Set the root semaphore.\n  await->set_root_sem(&share_state->sem);\n', ''), (SW, '  // Schedule upholds the strong', '  await->set_root_sem(&share_state->sem);\n  // Schedule upholds the strong')], []),
    # ---- eventual results
    ('ev-flag-first', EV, ('    std::construct_at(std::addressof(m_value), std::forward<U>(expr));\n    m_flag = state::value;', '    m_flag = state::value;\n    std::construct_at(std::addressof(m_value), std::forward<U>(expr));'), ['C17']),
    ('ev-no-flag', EV, ('    std::construct_at(std::addressof(m_value), std::forward<U>(expr));\n    m_flag = state::value;', '    std::construct_at(std::addressof(m_value), std::forward<U>(expr));'), ['C17']),
    ('ev-ref-no-flag', EV, ('    m_value = std::addressof(expr);\n\n    if constexpr (!implicit_state) {\n      m_flag = state::value;\n    }', '    m_value = std::addressof(expr);'), ['C17']),
    ('ev-stash-flag', EV, ('    if constexpr (!implicit_state) {\n      dest.m_flag = state::exception;\n    }', '    if constexpr (!implicit_state) {\n      dest.m_flag = state::value;\n    }'), ['C17']),
    ('ev-dtor-value', EV, ('          if constexpr (!is_void) {\n            std::destroy_at(std::addressof(m_value));\n            return;', '          if constexpr (!is_void) {\n            return;'), ['C17']),
    ('ev-dtor-exc', EV, ('          if constexpr (Exception) {\n            std::destroy_at(std::addressof(m_exception));\n            return;', '          if constexpr (Exception) {\n            return;'), ['C17']),
    ('ev-dtor-void', EV, ('      if constexpr (Exception) {\n        std::destroy_at(std::addressof(m_exception));\n      } else {', '      if constexpr (Exception) {\n      } else {'), ['C17']),
    ('ev-dtor-fall', EV, ('        case state::empty:\n          return;\n        case state::value:', '        case state::empty:\n        case state::value:'), ['C17']),
    ('ev-empty', EV, ('      return m_flag == state::empty;', '      return m_flag != state::value;'), ['C17']),
    ('ev-has-exc-void', EV, ('      return m_exception != nullptr;\n    } else {', '      return m_exception == nullptr;\n    } else {'), ['C17', 'C13']),
    ('ev-has-value', EV, ('      return m_value != nullptr;\n    } else {\n      return m_flag == state::value;', '      return m_value != nullptr;\n    } else {\n      return m_flag != state::empty;'), ['C17']),
    ('ev-init-flag', EV, ('m_flag{state::empty} {}', 'm_flag{state::value} {}'), ['C17']),
    ('ev-implicit-wide', EV, ('(is_ref_value && !Exception) || (is_void && Exception);', 'is_ref_value || (is_void && Exception);'), ['C17']),
    ('ev-double-value', EV, ('    std::construct_at(std::addressof(m_value), std::forward<U>(expr));\n    m_flag', '    std::construct_at(std::addressof(m_value), std::forward<U>(expr));\n    std::destroy_at(std::addressof(m_value));\n    m_flag'), ['C17']),
    ('eq-ev-enum', EV, ('  enum class state : char {', '  enum class state : char {\n    spare,'), []),
    ('eq-ev-if', EV, ('      switch (m_flag) {\n        case state::empty:\n          return;', '      if (empty()) {\n        return;\n      }\n      switch (m_flag) {\n        case state::empty:\n          return;'), []),
    ('eq-ev-tmp', EV, ('    std::construct_at(std::addressof(m_value), std::forward<U>(expr));\n    m_flag = state::value;', '    ::new (static_cast<void *>(&m_value)) T(std::forward<U>(expr));\n    constexpr auto next = state::value;\n    m_flag = next;'), []),
    # ---- ownership of frames

    ('ow-fork-after', None, [(AW, '    unique_frame stack_child = std::exchange(child, nullptr);\n', '    frame *raw = child->self() ? child.get() : nullptr;\n'), (AW, '    return stack_child.release()->self();', '    child.release();\n    return raw->self();')], ['C29', 'C03']),
    ('ow-fork-raw', None, [(AW, '    unique_frame stack_child = std::exchange(child, nullptr);\n', '    frame *raw = child.release();\n'), (AW, '    return stack_child.release()->self();', '    return raw->self();')], ['C29']),
    ('ow-fork-keep', None, [(AW, '    unique_frame stack_child = std::exchange(child, nullptr);\n', '    frame *raw = child.get();\n'), (AW, '    return stack_child.release()->self();', '    return raw->self();')], ['C29']),
    ('ow-call-keep', AW, ('    return child.release()->self();', '    return child->self();'), ['C29']),
    ('ow-final-nodestroy', PR, ('      frame *parent = child.promise().parent();\n      child.destroy();', '      frame *parent = child.promise().parent();\n      if constexpr (Tag == tag::call) {\n        child.destroy();\n      }'), ['C29']),
    ('ow-root-nodestroy', PR, ('        child.promise().semaphore()->release();\n        child.destroy();', '        child.promise().semaphore()->release();'), ['C29']),
    ('ow-final-late', None, [(PR, '      frame *parent = child.promise().parent();\n      child.destroy();\n', '      frame *parent = child.promise().parent();\n'), (PR, '      return detail::final_await_suspend(parent);', '      auto next = detail::final_await_suspend(parent);\n      child.destroy();\n      return next;'), (PR, '      if constexpr (Tag == tag::call) {\n        LF_LOG("Inline task', '      if constexpr (Tag == tag::call) {\n        child.destroy();\n        LF_LOG("Inline task')], ['C29']),
    ('ow-deleter-empty', UFR, ('{ non_null(frame)->self().destroy(); }', '{ (void)non_null(frame); }'), ['C29']),
    ('ow-transform-copy', None, [(PR, '        return fork_awaitable{{}, std::move(awaitable), this};', '        return fork_awaitable{{}, unique_frame{awaitable.get()}, this};')], ['C29']),
    ('ow-combinate-release', CO, ('    return {{}, {std::move(task)}};', '    return {{}, {unique_frame{task.get()}}};'), ['C29']),
    ('eq-ow-combinate', CO, ('    return {{}, {std::move(task)}};', '    return {{}, {unique_frame{task.release()}}};'), []),
    ('eq-ow-final-handle', PR, ('      frame *parent = child.promise().parent();\n      child.destroy();', '      auto &promise = child.promise();\n      frame *parent = promise.parent();\n      promise.self().destroy();'), []),
    ('eq-ow-deleter', UFR, ('{ non_null(frame)->self().destroy(); }', '{\n    auto handle = non_null(frame)->self();\n    handle.destroy();\n  }'), []),
    ('eq-ow-fork-move', AW, ('unique_frame stack_child = std::exchange(child, nullptr);', 'unique_frame stack_child = std::move(child);'), []),
    ('eq-ow-fork-try', None, [(AW, '    unique_frame stack_child = std::exchange(child, nullptr);\n', '    frame *kid = child.release();\n    LF_TRY {\n'), (AW, '    tls::context()->push(std::bit_cast<task_handle>(self));\n', '    tls::context()->push(std::bit_cast<task_handle>(self));\n    } LF_CATCH_ALL {\n      kid->self().destroy();\n      LF_RETHROW;\n    }\n'), (AW, '    return stack_child.release()->self();', '    return kid->self();')], []),
    # ---- what a task knows
    ('kn-no-parent', PR, ('    awaitable->set_parent(this);\n', ''), ['C30']),
    ('kn-just-no-parent', PR, ('    awaitable.frame()->set_parent(this);\n', ''), ['C30']),
    ('kn-no-return', CO, ('      static_cast<promise *>(task.get())->set_return(std::move(ret));', '      ignore_t{} = static_cast<promise *>(task.get());'), ['C30']),
    ('kn-return-call-only', CO, ('    if constexpr (!std::same_as<I, discard_t>) {', '    if constexpr (!std::same_as<I, discard_t> && Tag != tag::fork) {'), ['C30']),
    ('kn-move-fun', CO, ('std::as_const(fun)), // Makes', 'std::move(fun)), // Makes'), ['C30']),
    ('kn-stacklet', PR, ('from_promise(*this), tls::stack()->top()}', 'from_promise(*this), nullptr}'), ['C30']),
    ('kn-noframe', PR, ('    unsafe_set_frame(arg, this);\n', ''), ['C30']),
    ('kn-call-self', PR, ('        return eager_call_awaitable<outside>{{{}, std::move(awaitable)}, this};', '        return eager_call_awaitable<outside>{{{}, std::move(awaitable)}, this->parent()};'), ['C30']),
    ('kn-late-sem', SW, ('  await->set_root_sem(&share_state->sem);\n', ''), ['C30']),
    ('kn-return-drop', RT, ('  void return_value(R &&value) { *(this->get_return()) = std::move(value); }', '  void return_value(R &&value) { R tmp = std::move(value); (void)tmp; }'), ['C30']),
    ('ju-swallow', JU, ('    if (this->ret.has_exception()) {\n      std::rethrow_exception(std::move(this->ret).exception());\n    }\n', '    if (this->ret.has_exception()) {\n      LF_THROW(exception_before_join{});\n    }\n'), ['C30']),
    ('ju-late', JU, ('    if (this->ret.has_exception()) {', '    if (!this->ret.empty() && !this->ret.has_exception()) {'), ['C30']),
    ('ju-slot', JU, ('combinate<tag::call, modifier::none>(&this->ret, std::forward<F>(fun))', 'combinate<tag::call, modifier::none>(discard_t{}, std::forward<F>(fun))'), ['C30']),
    ('eq-ju-split', JU, ('    if (this->ret.has_exception()) {\n      std::rethrow_exception(std::move(this->ret).exception());\n    }\n', '    auto &slot = this->ret;\n    bool const failed = slot.has_exception();\n    if (failed) {\n      auto ptr = std::move(slot).exception();\n      std::rethrow_exception(std::move(ptr));\n    }\n'), []),
    ('eq-kn-order', None, [(CO, '    using promise = promise<async_result_t<F, Args...>, I, Tag>;\n', '    using promise = promise<async_result_t<F, Args...>, I, Tag>;\n    auto *raw = static_cast<promise *>(task.get());\n'), (CO, '      static_cast<promise *>(task.get())->set_return', '      raw->set_return')], []),
    ('eq-kn-fun-copy', CO, ('    task task = std::move(fun)(                                 //\n        first_arg_t<I, Tag, F, Args &&...>(std::as_const(fun)), // Makes a copy of fun', '    F copy = fun;\n    task task = std::move(fun)(                                 //\n        first_arg_t<I, Tag, F, Args &&...>(std::move(copy)), // Makes a copy of fun'), []),
    ('eq-kn-parent-helper', PR, ('    awaitable->set_parent(this);\n', '    auto adopt = [](frame *child, frame *parent) noexcept { child->set_parent(parent); };\n    adopt(awaitable.get(), this);\n'), []),
]
M3 = [m for m in M3 if m[2] is not None or m[1] is None]
