"""(id, file, (old, new), properties whose checks must fire; [] = behaviour-preserving, all must stay quiet)"""
AW, PR, FR, RS = 'core/impl/awaitables.hpp', 'core/impl/promise.hpp', 'core/impl/frame.hpp', 'core/ext/resume.hpp'
DQ, LI, EC = 'core/ext/deque.hpp', 'core/ext/list.hpp', 'schedule/ext/event_count.hpp'
ST = 'core/impl/stack.hpp'
LZ, BZ, UP, NC, TL, CX = 'schedule/lazy_pool.hpp', 'schedule/busy_pool.hpp', 'schedule/unit_pool.hpp', 'schedule/impl/numa_context.hpp', 'core/ext/tls.hpp', 'core/ext/context.hpp'
M = [
    # ---- join protocol
    ('ready-ge', AW, ('if (self->load_steals() == joined) {', 'if (self->load_steals() <= joined + 1) {'), ['C01']),
    ('ready-noreset', AW, ('    // Some steals have happened, need to reset the control block.\n    self->reset();', '    // no reset'), ['C01']),
    ('suspend-relaxed', AW, ('self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release)', 'self->fetch_sub_joins(k_u16_max - steals, std::memory_order_relaxed)'), ['C02']),
    ('suspend-nofence', AW, ('      std::atomic_thread_fence(std::memory_order_acquire);\n      LF_LOG("Wins join race");', '      LF_LOG("Wins join race");'), ['C02']),
    ('ready-relaxed', AW, ('self->load_joins(std::memory_order_acquire);\n\n    if', 'self->load_joins(std::memory_order_relaxed);\n\n    if'), ['C02']),
    ('final-relaxed', PR, ('parent->fetch_sub_joins(1, std::memory_order_release) == 1', 'parent->fetch_sub_joins(1, std::memory_order_relaxed) == 1'), ['C02']),
    ('final-nofence', PR, ('    std::atomic_thread_fence(std::memory_order_acquire);\n\n    // Parent has reached', '    // Parent has reached'), ['C02']),
    ('final-noreset', PR, ('    parent->reset();\n\n    return parent->self();', '    return parent->self();'), ['C01']),
    ('final-off', PR, ('std::memory_order_release) == 1) {', 'std::memory_order_release) <= 1) {'), ['C01']),
    ('final-two', PR, ('parent->fetch_sub_joins(1, std', 'parent->fetch_sub_joins(2, std'), ['C01']),
    ('final-reset-ripping', PR, ('    return parent->self();\n  }\n\n  /**', '    parent->reset();\n    return parent->self();\n  }\n\n  /**'), ['C01']),
    ('steal-reset-1', FR, ('m_steal = 0;', 'm_steal = 1;'), ['C01']) ,
    ('resume-nocount', RS, ('  frame->fetch_add_steal();\n\n', ''), ['C01']),
    ('self-nocount', AW, ('    eff_stolen->fetch_add_steal();\n', ''), ['C01']),
    # ---- no touch after publication
    ('fork-late-move', None, [(AW, 'unique_frame stack_child = std::exchange(child, nullptr);', ''), (AW, 'return stack_child.release()->self();', 'return child.release()->self();')], ['C03']),
    ('join-touch', AW, ('LF_LOG("Looses join race");', 'if (self->load_joins(std::memory_order_relaxed) == 0) { return task; }'), ['C03']),
    ('final-late-stacklet', None, [(PR, '  stack::stacklet *p_stacklet = parent->stacklet(); //', ''), (PR, '  if (p_stacklet == c_stacklet) {\n    // We are unable', '  if (parent->stacklet() == c_stacklet) {\n    // We are unable'), (PR, 'if (p_stacklet != c_stacklet) {', 'stack::stacklet *p_stacklet = parent->stacklet(); if (p_stacklet != c_stacklet) {')], ['C03']),
    ('switch-late-steals', None, [(AW, '    if (steals == 0) {\n      // Dest will take', '    if (std::bit_cast<frame *>(unwrap(&self))->load_steals() == 0) {\n      // Dest will take')], ['C03']),
    # ---- stacks
    ('final-nocond-adopt', PR, ('    if (p_stacklet != c_stacklet) {\n      // Case (2)', '    if (p_stacklet == c_stacklet) {\n      // Case (2)'), ['C04']),
    ('final-norelease', PR, ('    ignore_t{} = tls_stack->release();\n\n  } else', '  } else'), ['C04']),
    ('final-always-release', PR, ('  if (p_stacklet == c_stacklet) {\n    // We are unable', '  if (p_stacklet != nullptr) {\n    // We are unable'), ['C04']),
    ('join-noadopt', AW, ('    *tls::stack() = stack{self->stacklet()};\n', ''), ['C04']),
    ('resume-adopt-inv', RS, ('if (frame->load_steals() == 0) {', 'if (frame->load_steals() != 0) {'), ['C04']),
    ('resume-adopt-always', RS, ('if (frame->load_steals() == 0) {', 'if (frame->load_steals() <= 1) {'), ['C04']),
    ('switch-always-release', AW, ('    if (steals == 0) {\n      // Dest', '    if (steals <= 1) {\n      // Dest'), ['C04']),
    ('switch-norelease', AW, ('        ignore_t{} = tls::stack()->release();\n', ''), ['C04']),
    # ---- switches
    ('switch-noself', AW, ('    return try_self_stealing();\n  }\n\n  /**\n   * @brief Forward to the external awaitable\'s await_resume', '    return std::noop_coroutine();\n  }\n\n  /**\n   * @brief Forward to the external awaitable\'s await_resume'), ['C24']),
    ('switch-ready-inv', AW, ('-> bool { return external.await_ready(); }', '-> bool { return !external.await_ready(); }'), ['C24']),
    ('resume-on-inv', 'core/scheduler.hpp', ('impl::tls::context() == m_dest', 'impl::tls::context() != m_dest'), ['C24']),
    ('resume-on-true', 'core/scheduler.hpp', ('impl::tls::context() == m_dest', 'true'), ['C24']),
    # ---- deque
    ('dq-push-norelease', DQ, ('  std::atomic_thread_fence(release);\n  m_bottom.store(bottom + 1, relaxed);', '  m_bottom.store(bottom + 1, relaxed);'), ['C06', 'C02']),
    ('dq-push-order', DQ, ('  buf->store(bottom, val);\n\n  std::atomic_thread_fence(release);\n  m_bottom.store(bottom + 1, relaxed);', '  std::atomic_thread_fence(release);\n  m_bottom.store(bottom + 1, relaxed);\n  buf->store(bottom, val);'), ['C06']),
    ('dq-push-full', DQ, ('if (buf->capacity() < (bottom - top) + 1) {', 'if (buf->capacity() < (bottom - top)) {'), ['C06']),
    ('dq-push-top-relaxed', DQ, ('std::ptrdiff_t const top = m_top.load(acquire);\n  impl', 'std::ptrdiff_t const top = m_top.load(relaxed);\n  impl'), ['C06']),
    ('dq-grow-relaxed', DQ, ('m_buf.store(buf, release);', 'm_buf.store(buf, relaxed);'), ['C06']),
    ('dq-grow-free', DQ, ('      m_garbage.emplace_back(std::exchange(buf, bigger));', '      delete std::exchange(buf, bigger);'), ['C06']),
    ('dq-grow-clear', DQ, ('      m_garbage.emplace_back(std::exchange(buf, bigger));', '      if (m_garbage.size() > 8) { m_garbage.clear(); }\n      m_garbage.emplace_back(std::exchange(buf, bigger));'), ['C06']),
    ('dq-grow-miss', DQ, ('for (std::ptrdiff_t i = top; i != bot; ++i) {', 'for (std::ptrdiff_t i = top + 1; i < bot; ++i) {'), ['C06']),
    ('dq-pop-nofence', DQ, ('  impl::thread_fence_seq_cst();\n\n  std::ptrdiff_t top = m_top.load(relaxed);', '  std::atomic_thread_fence(std::memory_order_acq_rel);\n\n  std::ptrdiff_t top = m_top.load(relaxed);'), ['C06']),
    ('dq-pop-norestore', DQ, ('        m_bottom.store(bottom + 1, relaxed);\n        return std::invoke(std::forward<F>(when_empty));', '        return std::invoke(std::forward<F>(when_empty));'), ['C06']),
    ('dq-pop-nocas', DQ, ('if (top == bottom) {', 'if (top > bottom) {'), ['C06']),
    ('dq-pop-weak', DQ, ('    if (top == bottom) {\n      // The last item could get stolen, by a stealer that loaded bottom before our write above.\n      if (!m_top.compare_exchange_strong', '    if (top == bottom) {\n      // The last item could get stolen, by a stealer that loaded bottom before our write above.\n      if (!m_top.compare_exchange_weak'), ['C06']),
    ('dq-steal-late-load', DQ, ('    T tmp = m_buf.load(consume)->load(top);\n', '    T tmp{};\n'), ['C06']),
    ('dq-steal-nofence', DQ, ('  std::ptrdiff_t top = m_top.load(acquire);\n  impl::thread_fence_seq_cst();', '  std::ptrdiff_t top = m_top.load(acquire);'), ['C06']),
    ('dq-steal-relaxed-cas', DQ, ('top, top + 1, seq_cst, relaxed)) {\n      return {.code = err::lost', 'top, top + 1, relaxed, relaxed)) {\n      return {.code = err::lost'), ['C06']),
    ('dq-steal-lost-none', DQ, ('{.code = err::lost, .val = {}}', '{.code = err::none, .val = tmp}'), ['C06']),
    ('dq-steal-bottom', DQ, ('  if (top < bottom) {\n    // Must load', '  if (top <= bottom) {\n    // Must load'), ['C06']),
    ('dq-size', DQ, ('return std::max(bottom - top, ptrdiff_t{0});', 'return bottom - top;'), ['C06']),
    # ---- list
    ('li-push-relaxed', LI, ('stale_head, new_node, std::memory_order_release', 'stale_head, new_node, std::memory_order_relaxed'), ['C07', 'C02']),
    ('li-push-link-once', LI, ('    for (;;) {\n      non_null(new_node)->m_next = stale_head;', '    non_null(new_node)->m_next = stale_head;\n    for (;;) {'), ['C07']),
    ('li-pop-relaxed', LI, ('m_head.exchange(nullptr, std::memory_order_consume)', 'm_head.exchange(nullptr, std::memory_order_relaxed)'), ['C07', 'C02']),
    ('li-pop-load', LI, ('m_head.exchange(nullptr, std::memory_order_consume)', 'm_head.load(std::memory_order_acquire); m_head.store(nullptr, std::memory_order_release)'), ['C07']),
    ('li-pop-noreverse', LI, ('    while (last) {\n', '    return last;\n    while (last) {\n'), ['C07']),
    ('li-each-late', LI, ('        auto next = root->m_next;\n        std::invoke(func, root->m_data);\n        root = next;', '        std::invoke(func, root->m_data);\n        root = root->m_next;'), ['C07']),
    # ---- event count
    ('ec-notify-relaxed', EC, ('m_val.fetch_add(k_add_epoch, std::memory_order_acq_rel)', 'm_val.fetch_add(k_add_epoch, std::memory_order_relaxed)'), ['C08']),
    ('ec-notify-one-all', EC, ('epoch()->notify_all();', 'epoch()->notify_one();'), ['C08']),
    ('ec-prepare-relaxed', EC, ('m_val.fetch_add(k_add_waiter, std::memory_order_acq_rel)', 'm_val.fetch_add(k_add_waiter, std::memory_order_relaxed)'), ['C08']),
    ('ec-notify-many', EC, ('if (m_val.fetch_add(k_add_epoch, std::memory_order_acq_rel) & k_waiter_mask) [[unlikely]]', 'if ((m_val.fetch_add(k_add_epoch, std::memory_order_acq_rel) & k_waiter_mask) > 1) [[unlikely]]'), ['C08']),
    ('ec-await-nocatch', EC, ('  LF_CATCH_ALL {\n    cancel_wait();', '  LF_CATCH_ALL {'), ['C08']),
    ('ec-await-nocancel', EC, ('        cancel_wait();\n        break;', '        break;'), ['C08']),
    ('ec-await-oldkey', EC, ('    for (;;) {\n      auto my_key = prepare_wait();\n      if (std::invoke(condition)) {', '    auto k0 = prepare_wait(); cancel_wait();\n    for (;;) {\n      auto my_key = k0; k0 = prepare_wait();\n      if (std::invoke(condition)) {'), ['C08']),
    ('ec-wait-noleave', EC, ('  auto prev = m_val.fetch_add(k_sub_waiter, std::memory_order_seq_cst);\n\n  LF_ASSERT((prev & k_waiter_mask) != 0);\n}\n\ntemplate', '  auto prev = m_val.load();\n\n  LF_ASSERT((prev & k_waiter_mask) != 0);\n}\n\ntemplate'), ['C08']),
    # ---- behaviour preserving
    ('eq-comment', PR, ('LF_LOG("Task is not last to join");', 'LF_LOG("Task is not last to join"); (void)0;'), []),
    ('eq-final-order', PR, ('    // Must reset parents control block before resuming parent.\n    parent->reset();\n\n    return parent->self();', '    auto h = parent->self();\n    parent->reset();\n    return h;'), []),
    ('eq-final-helper', None, [(PR, 'inline auto final_await_suspend(frame *parent) noexcept', 'inline void take_over(stack *s, stack::stacklet *p) noexcept { *s = stack{p}; }\ninline auto was_last(frame *parent) noexcept -> bool { if (parent->fetch_sub_joins(1, std::memory_order_release) != 1) { return false; } std::atomic_thread_fence(std::memory_order_acquire); return true; }\ninline auto final_await_suspend(frame *parent) noexcept'), (PR, 'if (parent->fetch_sub_joins(1, std::memory_order_release) == 1) {', 'if (was_last(parent)) {'), (PR, '*tls_stack = stack{p_stacklet};', 'take_over(tls_stack, p_stacklet);')], []),
    ('eq-join-acqrel', None, [(AW, 'self->fetch_sub_joins(k_u16_max - steals, std::memory_order_release)', 'self->fetch_sub_joins(k_u16_max - steals, std::memory_order_acq_rel)'), (AW, '      std::atomic_thread_fence(std::memory_order_acquire);\n      LF_LOG("Wins join race");', '      LF_LOG("Wins join race");')], []),
    ('eq-join-early', AW, ('    LF_LOG("Sync not ready");\n    return false;', '    bool const ready = false;\n    return ready;'), []),
    ('eq-self-inv', AW, ('  if (auto *eff_stolen = std::bit_cast<frame *>(tls::context()->pop())) {\n    eff_stolen->fetch_add_steal();\n    return eff_stolen->self();\n  }\n\n  return std::noop_coroutine();', '  auto *const t = tls::context()->pop();\n  if (t == nullptr) {\n    return std::noop_coroutine();\n  }\n  auto *eff = std::bit_cast<frame *>(t);\n  auto h = eff->self();\n  eff->fetch_add_steal();\n  return h;'), []),
    ('eq-resume-inv', RS, ('    if (frame->load_steals() == 0) {\n      impl::stack *stack = impl::tls::stack();\n      LF_ASSERT(stack->empty());\n      *stack = impl::stack{frame->stacklet()};\n    } else {\n      LF_ASSERT_NO_ASSUME(impl::tls::stack()->empty());\n    }', '    bool const stolen = frame->load_steals() != 0;\n    LF_ASSERT_NO_ASSUME(impl::tls::stack()->empty());\n    if (!stolen) {\n      impl::stack tmp{frame->stacklet()};\n      swap(*impl::tls::stack(), tmp);\n    }'), []),
    ('eq-ready-order', AW, ('    auto joined = k_u16_max - self->load_joins(std::memory_order_acquire);\n\n    if (self->load_steals() == joined) {\n      LF_LOG("Sync is ready");\n      take_stack_reset_frame();\n      return true;\n    }\n', '    std::uint16_t const left = self->load_joins(std::memory_order_acquire);\n    if (self->load_steals() + left != k_u16_max) {\n      return false;\n    }\n    take_stack_reset_frame();\n    if (true) { return true; }\n'), []),
    ('eq-dq-push', DQ, ('  if (buf->capacity() < (bottom - top) + 1) {', '  std::ptrdiff_t const n = bottom - top;\n  if (n >= buf->capacity()) {'), []),
    ('eq-dq-push-rel', DQ, ('  std::atomic_thread_fence(release);\n  m_bottom.store(bottom + 1, relaxed);', '  m_bottom.store(bottom + 1, release);'), []),
    ('eq-dq-pop', DQ, ('      if (!m_top.compare_exchange_strong(top, top + 1, seq_cst, relaxed)) {\n        // Failed race, thief got the last item.\n        m_bottom.store(bottom + 1, relaxed);\n        return std::invoke(std::forward<F>(when_empty));\n      }\n      m_bottom.store(bottom + 1, relaxed);', '      bool const won = m_top.compare_exchange_strong(top, top + 1, seq_cst, relaxed);\n      m_bottom.store(bottom + 1, relaxed);\n      if (!won) {\n        return std::invoke(std::forward<F>(when_empty));\n      }'), []),
    ('eq-dq-steal', DQ, ('    if (!m_top.compare_exchange_strong(top, top + 1, seq_cst, relaxed)) {\n      return {.code = err::lost, .val = {}};\n    }\n    return {.code = err::none, .val = tmp};\n  }\n  return {.code = err::empty, .val = {}};', '    bool const ok = m_top.compare_exchange_strong(top, top + 1, seq_cst, relaxed);\n    return {.code = ok ? err::none : err::lost, .val = ok ? tmp : T{}};\n  }\n  return {.code = err::empty, .val = {}};'), []),
    ('eq-dq-copy', DQ, ('    for (std::ptrdiff_t i = top; i != bot; ++i) {\n      ptr->store(i, load(i));\n    }', '    for (std::ptrdiff_t i = top; i < bot; i += 1) {\n      T const item = load(i);\n      ptr->store(i, item);\n    }'), []),
    ('eq-li-push', LI, ('    for (;;) {\n      non_null(new_node)->m_next = stale_head;\n\n      if (m_head.compare_exchange_weak(stale_head, new_node, std::memory_order_release)) {\n        return;\n      }\n    }', '    do {\n      non_null(new_node)->m_next = stale_head;\n    } while (!m_head.compare_exchange_strong(stale_head, new_node, std::memory_order_acq_rel, std::memory_order_relaxed));'), []),
    ('eq-li-pop', LI, ('    while (last) {\n      node *tmp = last;\n      last = last->m_next;\n      tmp->m_next = first;\n      first = tmp;\n    }', '    for (node *cur = last; cur != nullptr;) {\n      node *const next = cur->m_next;\n      cur->m_next = std::exchange(first, cur);\n      cur = next;\n    }'), []),
    ('eq-ec-notify', EC, ('  if (m_val.fetch_add(k_add_epoch, std::memory_order_acq_rel) & k_waiter_mask) [[unlikely]] { // NOLINT\n    epoch()->notify_all();\n  }', '  auto const old = m_val.fetch_add(k_add_epoch, std::memory_order_acq_rel);\n  if ((old & k_waiter_mask) == 0) { return; }\n  epoch()->notify_all();'), []),
    ('eq-ec-await', EC, ('      if (std::invoke(condition)) {\n        cancel_wait();\n        break;\n      }\n      wait(my_key);', '      bool const done = std::invoke(condition);\n      if (!done) {\n        wait(my_key);\n        continue;\n      }\n      cancel_wait();\n      return;'), []),
    # ---- fibre stack
    ('st-ext-round', ST, ('(size + impl::k_new_align - 1) & ~(impl::k_new_align - 1)', 'size & ~(impl::k_new_align - 1)'), ['C05']),
    ('st-ext-8', ST, ('(size + impl::k_new_align - 1) & ~(impl::k_new_align - 1)', '(size + 7) & ~std::size_t(7)'), ['C05']),
    ('st-unused-cap', ST, ('if (m_fib->unused() < ext_size) {', 'if (m_fib->capacity() < ext_size) {'), ['C05']),
    ('st-unused-size', ST, ('if (m_fib->unused() < ext_size) {', 'if (m_fib->unused() < size) {'), ['C05']),
    ('st-cached-anyway', ST, ('m_fib->m_next != nullptr && m_fib->m_next->capacity() >= ext_size', 'm_fib->m_next != nullptr'), ['C05']),
    ('st-cached-2x', ST, ('m_fib->m_next->capacity() >= ext_size', '2 * m_fib->m_next->capacity() >= ext_size'), ['C05']),
    ('st-geom-only', ST, ('std::max(2 * m_fib->capacity(), ext_size)', '2 * m_fib->capacity()'), ['C05']),
    ('st-min', ST, ('std::max(2 * m_fib->capacity(), ext_size)', 'std::min(2 * m_fib->capacity(), ext_size)'), ['C05']),
    ('st-nohdr', ST, ('round_up_to_page_size(size + sizeof(stacklet))', 'round_up_to_page_size(size)'), ['C05']),
    ('st-round-down', ST, ('std::size_t rounded = (minimum + page_size - 1) & ~(page_size - 1);', 'std::size_t rounded = (minimum + page_size / 2) & ~(page_size - 1);'), ['C05']),
    ('st-setnext-early', None, [(ST, '      stacklet *next = static_cast<stacklet *>(std::malloc(request)); // NOLINT\n', '      if (prev != nullptr) { prev->set_next(nullptr); }\n      stacklet *next = static_cast<stacklet *>(std::malloc(request)); // NOLINT\n')], ['C05']),
    ('st-setnext-leak', ST, ('std::free(std::exchange(m_next, new_next));', 'm_next = new_next;'), ['C05']),
    ('st-noprev', ST, ('next->m_prev = prev;', 'next->m_prev = nullptr;'), ['C05']),
    ('st-nolink', ST, ('        prev->set_next(next);', '        prev->set_next(nullptr);'), ['C05']),
    ('st-dealloc-nofree2', ST, ('        // Always free a second order cached stacklet if it exists.\n        m_fib->set_next(nullptr);', ''), ['C05']),
    ('st-dealloc-freecur', ST, ('        m_fib = m_fib->m_prev;\n      }', '        m_fib = m_fib->m_prev;\n        std::free(m_fib->m_next);\n      }'), ['C05']),
    ('st-dealloc-noempty', ST, ('    if (m_fib->empty()) {\n\n      if', '    if (m_fib->empty() || m_fib->m_next != nullptr) {\n\n      if'), ['C05']),
    ('st-dealloc-stay', ST, ('        m_fib = m_fib->m_prev;\n      }', '        m_fib = m_fib->m_prev->m_prev ? m_fib->m_prev : m_fib;\n      }'), ['C05']),
    ('st-dtor-leak', ST, ('    m_fib->set_next(nullptr);  // Free', '    // Free'), ['C05']),
    ('st-dtor-leak2', ST, ('    std::free(m_fib);          // NOLINT', ''), ['C05']),
    ('st-release-null', ST, ('return std::exchange(m_fib, stacklet::next_stacklet());', 'auto *old = std::exchange(m_fib, nullptr); m_fib = stacklet::next_stacklet(); return old;'), ['C05']),
    ('st-move-steal', ST, ('    swap(*this, other);\n    return *this;', '    m_fib = other.m_fib;\n    return *this;'), ['C05']),
    ('st-new-short', PR, ('return tls::stack()->allocate(size); }', 'return tls::stack()->allocate(size - sizeof(void *)); }'), ['C05']),
    ('st-eq-inline', ST, ('std::free(std::exchange(m_next, new_next)); // NOLINT', 'stacklet *old = m_next; m_next = new_next; if (old != nullptr) { std::free(old); }'), []),
    ('st-eq-div', ST, ('(size + impl::k_new_align - 1) & ~(impl::k_new_align - 1)', '((size + (impl::k_new_align - 1)) / impl::k_new_align) * impl::k_new_align'), []),
    ('st-eq-nested', ST, ('    if (m_fib->unused() < ext_size) {\n      if (m_fib->m_next != nullptr && m_fib->m_next->capacity() >= ext_size) {\n        m_fib = m_fib->m_next;\n      } else {\n        m_fib = stacklet::next_stacklet(std::max(2 * m_fib->capacity(), ext_size), m_fib);\n      }\n    }', '    if (m_fib->unused() >= ext_size) {\n    } else if (auto *nx = m_fib->m_next; nx && !(nx->capacity() < ext_size)) { m_fib = nx; } else { auto want = 2 * m_fib->capacity(); if (want < ext_size) { want = ext_size; } m_fib = stacklet::next_stacklet(want, m_fib); }'), []),
    ('st-eq-dealloc', ST, ('    if (m_fib->empty()) {\n\n      if (m_fib->m_prev != nullptr) {', '    stacklet *const cur = m_fib;\n    if (cur->m_sp == cur->m_lo) {\n\n      if (auto *pv = cur->m_prev; pv) {'), []),
    # ---- pools (C09, C10)
    ('lz-sub-relaxed', LZ, ('if (my_numa_vars.thief.fetch_sub(1, seq_cst) == 1) {', 'if (my_numa_vars.thief.fetch_sub(1, acq_rel) == 1) {'), ['C09']),
    ('lz-load-acq', LZ, ('active.load(seq_cst) > 0', 'active.load(acquire) > 0'), ['C09']),
    ('lz-scan-acq', LZ, ('domain.thief.load(seq_cst)', 'domain.thief.load(acquire)'), ['C09']),
    ('lz-inc-acq', LZ, ('active.fetch_add(1, seq_cst)', 'active.fetch_add(1, acq_rel)'), ['C09']),
    ('lz-sleep-last', LZ, ('if (my_context->shared().active.load(seq_cst) > 0) {', 'if (my_context->shared().active.load(seq_cst) > 1) {'), ['C09']),
    ('lz-nopop', LZ, ('  if (auto *submission = my_context->try_pop_all()) {\n    // Check our private **before** `stop`.\n    my_numa_vars.notifier.cancel_wait();\n    my_context->shared().thief_work_sleep(submission, numa_tid);\n    goto wake_up;\n  }\n', ''), ['C09', 'C10']),
    ('lz-nostopcheck', LZ, ('  if (my_context->shared().stop.test(acquire)) {', '  if (my_numa_vars.thief.load(acquire) > 1 && my_context->shared().stop.test(acquire)) {'), ['C09']),
    ('lz-popstop-order', None, [(LZ, '  auto key = my_numa_vars.notifier.prepare_wait();\n', '  bool stopping = my_context->shared().stop.test(acquire);\n  auto key = my_numa_vars.notifier.prepare_wait();\n'), (LZ, '  if (my_context->shared().stop.test(acquire)) {', '  if (stopping) {')], ['C09']),
    ('lz-nocancel', LZ, ('    my_numa_vars.notifier.cancel_wait();\n    my_context->shared().thief_work_sleep(submission, numa_tid);', '    my_context->shared().thief_work_sleep(submission, numa_tid);'), ['C09']),
    ('lz-nocancel2', LZ, ('      my_numa_vars.notifier.cancel_wait();\n      goto wake_up;', '      goto wake_up;'), ['C09']),
    ('lz-nohandover', LZ, ('    if (numa[tid].thief.fetch_sub(1, acq_rel) == 1) {\n      numa[tid].notifier.notify_one();\n    }', '    numa[tid].thief.fetch_sub(1, acq_rel);'), ['C09']),
    ('lz-handover-off', LZ, ('numa[tid].thief.fetch_sub(1, acq_rel) == 1', 'numa[tid].thief.fetch_sub(1, acq_rel) == 0'), ['C09']),
    ('lz-noscan', LZ, ('if (domain.thief.load(seq_cst) == 0) {', 'if (domain.thief.load(seq_cst) != 0) {'), ['C09']),
    ('lz-scan-one', LZ, ('          domain.notifier.notify_one();', '          domain.notifier.notify_one();\n          break;'), ['C09']),
    ('lz-scan-second', LZ, ('if (active.fetch_add(1, seq_cst) == 0) {', 'if (active.fetch_add(1, seq_cst) == 1) {'), ['C09']),
    ('lz-notify-one', LZ, ('    my_numa_vars.notifier.notify_all();\n  }};', '    my_numa_vars.notifier.notify_one();\n  }};'), ['C09']),
    ('lz-notify-none', LZ, ('    my_numa_vars.notifier.notify_all();\n  }};', '    (void)my_numa_vars;\n  }};'), ['C09']),
    ('lz-active-leak', LZ, ('    active.fetch_sub(1, release);\n', ''), ['C09']),
    ('lz-exit-thief', LZ, ('    my_numa_vars.notifier.notify_all();\n    my_numa_vars.thief.fetch_sub(1, release);\n    return;', '    my_numa_vars.notifier.notify_all();\n    return;'), ['C09']),
    ('lz-exit-nocancel', LZ, ('    my_numa_vars.notifier.cancel_wait();\n    my_numa_vars.notifier.notify_all();\n    my_numa_vars.thief', '    my_numa_vars.notifier.notify_all();\n    my_numa_vars.thief'), ['C09']),
    ('lz-dtor-nowake', LZ, ('    for (auto &&var : m_share->numa) {\n      var.notifier.notify_all();\n    }\n', ''), ['C09', 'C10']),
    ('lz-dtor-wakefirst', None, [(LZ, '    // Set conditions for workers to stop.\n    m_share->stop.test_and_set(std::memory_order_release);\n\n', ''), (LZ, '    for (auto &worker : m_threads) {\n      worker.join();', '    m_share->stop.test_and_set(std::memory_order_release);\n    for (auto &worker : m_threads) {\n      worker.join();')], ['C09', 'C10']),
    ('lz-dtor-wakeone', LZ, ('      var.notifier.notify_all();\n    }\n\n    for', '      var.notifier.notify_one();\n    }\n\n    for'), ['C09', 'C10']),
    ('lz-dtor-numa0', LZ, ('    for (auto &&var : m_share->numa) {\n      var.notifier.notify_all();\n    }\n', '    m_share->numa[0].notifier.notify_all();\n'), ['C09', 'C10']),
    ('lz-work-nolatch', LZ, ('  my_context->shared().latch_start.arrive_and_wait();\n', '  (void)my_context->shared().latch_start.try_wait(); my_context->shared().latch_start.count_down();\n'), ['C10']),
    ('lz-defer-order', LZ, ('    my_context->shared().latch_stop.arrive_and_wait();\n    my_context->finalize_worker();', '    my_context->finalize_worker();\n    my_context->shared().latch_stop.arrive_and_wait();'), ['C10']),
    ('lz-defer-nostop', LZ, ('    my_context->shared().stop.test_and_set(std::memory_order_release);\n    my_context->shared().latch_stop', '    my_context->shared().latch_stop'), ['C10']),
    ('bz-nolatchstop', BZ, ('    my_context->shared().latch_stop.arrive_and_wait();\n', ''), ['C10']),
    ('bz-nodrain', BZ, ('  // Finish up any remaining work.\n  while (submit_handle submissions = my_context->try_pop_all()) {\n    resume(submissions);\n  }\n', ''), ['C10']),
    ('bz-drain-once', BZ, ('  // Finish up any remaining work.\n  while (submit_handle', '  // Finish up any remaining work.\n  if (submit_handle'), ['C10']),
    ('bz-stop-relaxed', BZ, ('stop.test(std::memory_order_acquire)) {\n\n    if', 'stop.test(std::memory_order_relaxed)) {\n\n    if'), ['C10']),
    ('bz-latch-count', BZ, ('latch_stop(checked_cast<std::ptrdiff_t>(n))', 'latch_stop(checked_cast<std::ptrdiff_t>(n + 1))'), ['C10']),
    ('bz-latch-count2', BZ, ('latch_start(checked_cast<std::ptrdiff_t>(n + 1))', 'latch_start(checked_cast<std::ptrdiff_t>(n))'), ['C10']),
    ('bz-ctor-nolatch', BZ, ('      m_share->latch_start.arrive_and_wait();\n    }();', '      m_share->latch_start.count_down();\n    }();'), ['C10']),
    ('bz-ctx-early', None, [(BZ, '      m_share->latch_start.arrive_and_wait();\n    }();\n', '    }();\n'), (BZ, '      m_contexts.push_back(worker->get_underlying());\n    }\n', '      m_contexts.push_back(worker->get_underlying());\n    }\n    m_share->latch_start.arrive_and_wait();\n')], ['C10']),
    ('bz-ctor-skip', BZ, ('      for (auto &&node : nodes) {\n        m_threads', '      for (auto &&node : std::span(nodes).first(nodes.size() - 1)) {\n        m_threads'), ['C10']),
    ('bz-dist', BZ, ('m_dist{0, m_num_threads - 1}', 'm_dist{0, m_num_threads}'), ['C10']),
    ('bz-dtor-nojoin', BZ, ('    for (auto &worker : m_threads) {\n      worker.join();\n    }\n', '    m_threads.front().join();\n'), ['C10']),
    ('bz-dtor-nonull', BZ, ('    if (!m_share) {\n      return; // Moved from.\n    }\n', ''), ['C10']),
    ('bz-assign-default', BZ, ('  auto operator=(busy_pool &&other) noexcept -> busy_pool & {\n    if (this != &other) {\n      // The workers of this pool must be stopped before their threads are replaced.\n      std::destroy_at(this);\n      std::construct_at(this, std::move(other));\n    }\n    return *this;\n  }', '  auto operator=(busy_pool &&other) noexcept -> busy_pool & = default;'), ['C10']),
    ('up-noready', UP, ('    m_ready.wait(false, std::memory_order_acquire);\n', ''), ['C10']),
    ('up-ready-relaxed', UP, ('m_ready.test_and_set(std::memory_order_release)', 'm_ready.test_and_set(std::memory_order_relaxed)'), ['C10']),
    ('up-ready-early', None, [(UP, '    self->m_context = me;\n', ''), (UP, '    self->m_ready.notify_one();\n', '    self->m_ready.notify_one();\n    self->m_context = me;\n')], ['C10']),
    ('up-nodrain', UP, ('    while (auto *job = me->try_pop_all()) {\n      lf::resume(job);\n    }\n  }', '  }'), ['C10']),
    ('up-dtor-nostop', UP, ('    m_stop.test_and_set(std::memory_order_release);\n    m_thread.join();', '    m_thread.join();\n    m_stop.test_and_set(std::memory_order_release);'), ['C10']),
    ('up-thread-first', None, [(UP, '  std::thread m_thread;\n', ''), (UP, ' private:\n  std::atomic_flag m_stop', ' private:\n  std::thread m_thread;\n  std::atomic_flag m_stop')], ['C10']),
    ('up-nofinalize', UP, ('    LF_DEFER { lf::finalize(me); };\n', ''), ['C10']),
    # equivalents
    ('eq-lz-helper', None, [(LZ, '  /**\n   * Called by a thief with work', '  void enter_active() noexcept {\n    if (0 == active.fetch_add(1, seq_cst)) {\n      for (std::size_t k = 0; k != numa.size(); ++k) {\n        auto const t = numa[k].thief.load(seq_cst);\n        if (t > 0) { continue; }\n        numa[k].notifier.notify_one();\n      }\n    }\n  }\n\n  /**\n   * Called by a thief with work'), (LZ, '    if (active.fetch_add(1, seq_cst) == 0) {\n      for (auto &&domain : numa) {\n        if (domain.thief.load(seq_cst) == 0) {\n          domain.notifier.notify_one();\n        }\n      }\n    }\n', '    enter_active();\n')], []),
    ('eq-lz-loop', None, [(LZ, 'wake_up:\n', 'for (;;) {\n'), (LZ, '  // Note, this could be a spurious wakeup, that doesn\'t matter because we will just loop around.\n  goto wake_up;\n}', '  }\n}')] + [(LZ, 'goto wake_up;', 'continue;')] * 4, []),
    ('eq-bz-for', BZ, ('  while (submit_handle submissions = my_context->try_pop_all()) {\n    resume(submissions);\n  }', '  for (;;) {\n    submit_handle const rest = my_context->try_pop_all();\n    if (rest == nullptr) {\n      break;\n    }\n    resume(rest);\n  }'), []),
    ('eq-bz-helper', BZ, ('    LF_LOG("Requesting a stop");\n    // Set conditions for workers to stop\n    m_share->stop.test_and_set(std::memory_order_release);\n\n    for (auto &worker : m_threads) {\n      worker.join();\n    }', '    auto const stop_all = [this] {\n      m_share->stop.test_and_set();\n      for (std::size_t i = 0; i < m_threads.size(); ++i) {\n        m_threads[i].join();\n      }\n    };\n    stop_all();'), []),
    ('eq-up-defer', None, [(UP, '    if (auto *job = me->try_pop_all()) {\n        lf::resume(job);\n      }', '    auto *job = me->try_pop_all();\n      if (!job) { continue; }\n      lf::resume(job);')], []),
    ('eq-lz-dtor-index', LZ, ('    for (auto &&var : m_share->numa) {\n      var.notifier.notify_all();\n    }', '    for (std::size_t i = 0; i < m_share->numa.size(); i++) {\n      m_share->numa.at(i).notifier.notify_all();\n    }'), []),
    ('eq-lz-ctor', LZ, ('      for (auto &&node : nodes) {\n        m_threads.emplace_back(impl::lazy_work, std::move(node));\n      }', '      m_threads.reserve(nodes.size());\n      for (std::size_t i = 0; i < nodes.size(); ++i) {\n        m_threads.push_back(std::thread(impl::lazy_work, std::move(nodes[i])));\n      }'), []),

    # ---- registration, submission, stealing
    ('tls-one-flag', TL, ('  impl::tls::has_stack = false;\n  impl::tls::has_context = false;', '  impl::tls::has_context = false;'), ['C11']),
    ('tls-init-and', TL, ('  if (impl::tls::has_context && impl::tls::has_stack) {\n    LF_THROW', '  if (false) {\n    LF_THROW'), ['C11']),
    ('tls-early-flag', None, [(TL, '  impl::tls::has_context = true;\n', ''), (TL, '  LF_TRY {\n    impl::tls::thread_stack.construct();', '  impl::tls::has_context = true;\n  LF_TRY {\n    impl::tls::thread_stack.construct();')], ['C11']),
    ('tls-no-destroy', TL, ('    impl::tls::thread_context.destroy();\n    LF_RETHROW;', '    LF_RETHROW;'), ['C11']),
    ('tls-no-rethrow', TL, ('    impl::tls::thread_context.destroy();\n    LF_RETHROW;', '    impl::tls::thread_context.destroy();'), ['C11']),
    ('tls-construct-first', None, [(TL, '  worker_context *context = impl::tls::thread_context.construct(std::move(notify));\n', ''), (TL, '  if (impl::tls::has_context && impl::tls::has_stack) {\n    LF_THROW', '  worker_context *context = impl::tls::thread_context.construct(std::move(notify));\n  if (impl::tls::has_context && impl::tls::has_stack) {\n    LF_THROW')], ['C11']),
    ('tls-no-owner-check', TL, ('worker != impl::tls::thread_context.data()', 'worker == nullptr'), ['C11']),
    ('tls-no-reg-check', TL, ('!impl::tls::has_context || !impl::tls::has_stack', 'worker == nullptr'), ['C11']),
    ('tls-destroy-first', None, [(TL, '  impl::tls::thread_context.destroy();\n  impl::tls::thread_stack.destroy();\n', '  impl::tls::thread_stack.destroy();\n'), (TL, '  if (!impl::tls::has_context || !impl::tls::has_stack) {', '  impl::tls::thread_context.destroy();\n  if (!impl::tls::has_context || !impl::tls::has_stack) {')], ['C11']),
    ('tls-leak-stack', TL, ('  impl::tls::thread_context.destroy();\n  impl::tls::thread_stack.destroy();\n', '  impl::tls::thread_context.destroy();\n'), ['C11']),
    ('cx-ctor-noexcept', CX, ('explicit full_context(nullary_function_t notify) : worker', 'explicit full_context(nullary_function_t notify) noexcept : worker'), ['C11']),
    ('dq-ctor-noexcept', DQ, ('constexpr deque<T>::deque(std::ptrdiff_t cap)\n', 'constexpr deque<T>::deque(std::ptrdiff_t cap) noexcept\n'), ['C11']) if False else None,
    ('eq-tls-order', None, [(TL, '  impl::tls::has_stack = false;\n  impl::tls::has_context = false;', '  impl::tls::has_context = impl::tls::has_stack = false;'), (TL, '  impl::tls::thread_context.destroy();\n  impl::tls::thread_stack.destroy();\n', '  impl::tls::thread_stack.destroy();\n  impl::tls::thread_context.destroy();\n'), (TL, 'impl::tls::has_context && impl::tls::has_stack', 'impl::tls::has_stack')], []),
    ('eq-tls-data', TL, ('  return context;\n}', '  return impl::tls::thread_context.data();\n}'), []),
    ('cx-notify-first', CX, ('    m_submit.push(non_null(jobs));\n\n    // Once we have pushed if this throws we cannot uphold the strong exception guarantee.\n    [&]() noexcept {\n      m_notify();\n    }();', '    [&]() noexcept {\n      m_notify();\n    }();\n    m_submit.push(non_null(jobs));'), ['C12']),
    ('cx-notify-empty', CX, ('      m_notify();\n    }();', '      if (m_tasks.empty()) {\n        m_notify();\n      }\n    }();'), ['C12']),
    ('cx-notify-throws', CX, ('    [&]() noexcept {\n      m_notify();', '    [&]() {\n      m_notify();'), ['C12']),
    ('cx-notify-none', CX, ('    [&]() noexcept {\n      m_notify();\n    }();', ''), ['C12']),
    ('rs-order', RS, ('  for_each_elem(ptr, [](impl::submit_t *raw) LF_STATIC_CALL {', '  if (auto *nx = ptr ? *reinterpret_cast<submit_handle *>(reinterpret_cast<char *>(ptr) + 8) : nullptr) {\n    (void)nx;\n    ptr = nx;\n  }\n  for_each_elem(ptr, [](impl::submit_t *raw) LF_STATIC_CALL {'), ['C12']),
    ('li-foreach-late', None, [(LI, '    for (typename intrusive_list<T>::node *walk = root; walk;) {', '    for (typename intrusive_list<T>::node *walk = root; walk; walk = walk->m_next) {'), (LI, '      auto next = walk->m_next;', '      auto next = walk;'), (LI, '      walk = next;', '      (void)next;')], ['C12']) if False else None,
    ('rs-skip-stolen', RS, ('    LF_ASSERT_NO_ASSUME(impl::tls::context()->empty());\n    frame->self().resume();', '    LF_ASSERT_NO_ASSUME(impl::tls::context()->empty());\n    if (frame->load_steals() < 2)\n    frame->self().resume();'), ['C12']),
    ('lz-sched-idx', LZ, ('m_worker[m_dist(m_rng)]->schedule(job)', 'm_worker[m_dist(m_rng) + 1 - 1 * (m_worker.size() > 1)]->schedule(job)'), ['C12']),
    ('bz-sched-twice', BZ, ('m_worker[m_dist(m_rng)]->schedule(job)', 'm_worker[m_dist(m_rng)]->schedule(job); if (m_worker.size() > 4) m_worker[m_dist(m_rng)]->schedule(job)'), ['C12']),
    ('up-sched-none', UP, ('non_null(m_context)->schedule(job)', 'if (!m_stop.test()) non_null(m_context)->schedule(job)'), ['C12']),
    ('lz-sched-if', LZ, ('m_worker[m_dist(m_rng)]->schedule(job)', 'if (!m_share->stop.test()) m_worker[m_dist(m_rng)]->schedule(job)'), ['C12']),
    ('bz-drop-steal', BZ, ('    if (task_handle task = my_context->try_steal()) {\n      resume(task);', '    if (task_handle task = my_context->try_steal()) {\n      if (my_context->shared().stop.test()) { break; }\n      resume(task);'), ['C12', 'C31']),
    ('nc-pop-drop', NC, ('{ return non_null(m_context)->try_pop_all(); }', '{ auto *l = non_null(m_context)->try_pop_all(); return m_neigh.empty() && m_shared == nullptr ? nullptr : l; }'), ['C12']),
    ('eq-cx-helper', CX, ('    [&]() noexcept {\n      m_notify();\n    }();', '    notify_owner();'), []) if False else None,
    ('eq-cx-named', CX, ('    m_submit.push(non_null(jobs));\n\n    // Once we have pushed if this throws we cannot uphold the strong exception guarantee.\n    [&]() noexcept {\n      m_notify();\n    }();', '    auto *const list = non_null(jobs);\n    auto const signal = [this]() noexcept -> void { m_notify(); };\n    m_submit.push(list);\n    signal();'), []),
    ('eq-lz-sched', LZ, ('{ m_worker[m_dist(m_rng)]->schedule(job); }', '{\n    auto const which = m_dist(m_rng);\n    auto &&target = m_worker.at(which);\n    target->schedule(job);\n  }'), []),
    ('eq-bz-sched', BZ, ('{ m_worker[m_dist(m_rng)]->schedule(job); }', '{\n    m_contexts[m_dist(m_rng)]->schedule(job);\n  }'), []),
    ('eq-rs-loop', RS, ('  for_each_elem(ptr, [](impl::submit_t *raw) LF_STATIC_CALL {', '  auto const run = [](impl::submit_t *raw) {'), []) if False else None,
    ('nc-close-self', NC, ('m_close = impl::map(topo.neighbors[1],', 'm_close = impl::map(topo.neighbors[0],'), ['C31']),
    ('nc-neigh-self', NC, ('for (std::size_t i = 1; i < topo.neighbors.size(); ++i) {\n\n        double n', 'for (std::size_t i = 0; i < topo.neighbors.size(); ++i) {\n\n        double n'), ['C31']),
    ('nc-weight-row', None, [(NC, '          weights.push_back(w);\n', ''), (NC, '        for (auto &&context : topo.neighbors[i]) {\n', '        weights.push_back(w);\n        for (auto &&context : topo.neighbors[i]) {\n')], ['C31']),
    ('nc-noempty', NC, ('    if (m_neigh.empty()) {\n      return nullptr;\n    }\n', ''), ['C31']),
    ('nc-empty-close', NC, ('    if (m_neigh.empty()) {\n      return nullptr;\n    }\n', '    if (m_close.empty()) {\n      return nullptr;\n    }\n'), ['C31']),
    ('nc-lost-task', NC, ('        case lf::err::lost:                                                                                  \\\n', '        case lf::err::lost:                                                                                  \\\n          if (task) return task; \\\n'), ['C31']),
    ('nc-drop', NC, ('          return task;                                                                                       \\', '          if (attempts_left-- == 0) return nullptr; return task;                                                                                       \\'), ['C31']) if False else None,
    ('nc-self-fallback', NC, ('#endif // LF_DOXYGEN_SHOULD_SKIP_THIS\n\n    return nullptr;', '#endif // LF_DOXYGEN_SHOULD_SKIP_THIS\n\n    auto [e_, t_] = m_context->try_steal(); return e_ == lf::err::none ? t_ : nullptr;'), ['C31']),
    ('nc-idx', NC, ('m_neigh[m_dist(m_rng)]', 'm_neigh[m_dist(m_rng) + 1]'), ['C31']),
    ('nc-fin', NC, ('finalize(std::exchange(m_context, nullptr))', 'finalize(m_close.empty() ? m_context : m_close.front()->m_context)'), ['C31']),
    ('eq-nc-range', None, [(NC, '    for (auto *neigh : m_close) {\n      LF_RETURN_OR_CONTINUE(neigh);\n    }', '    for (std::size_t j = 0; j < m_close.size(); j++) {\n      LF_RETURN_OR_CONTINUE(m_close[j]);\n    }')], []),
    ('eq-nc-helper', None, [(NC, '      auto [err, task] = context->m_context->try_steal();                                                    \\', '      auto const r = context->m_context->try_steal();  auto const err = r.err; auto *task = r.task;                \\')], []) if False else None,
    ('eq-nc-init', None, [(NC, '      for (std::size_t i = 1; i < topo.neighbors.size(); ++i) {\n\n        double n', '      std::size_t const rows = topo.neighbors.size();\n      for (std::size_t i = 1; i != rows && i < rows; i += 1) {\n\n        double n'), (NC, 'if (topo.neighbors.size() > 1){\n        m_close = impl::map(topo.neighbors[1], [](auto const & neigh) {\n          return neigh.get();\n        });\n      }', 'if (topo.neighbors.size() >= 2){\n        for (auto const &nb : topo.neighbors[1]) {\n          m_close.push_back(nb.get());\n        }\n      }')], []),
]
M = [m for m in M if m]
