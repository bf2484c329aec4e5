"""What each analysis exports: entry points (public or language-mandated names) and the callees kept
as opaque events.  Everything else in the library is inlined, so how a function is cut into helpers
does not matter."""
STACK = [r'^lf::impl::stack::(allocate|deallocate|release)$']
QUEUES = [r'^lf::deque::(push|pop|steal|empty|size|ssize)$', r'^lf::intrusive_list::(push|try_pop_all)$']
SEM = [r'::counting_semaphore::(acquire|release)$']
USER = [r'^probe::\w+(::|\(|<|$)']

EVC = [r'^lf::event_count::(prepare_wait|cancel_wait|wait|await|notify_one|notify_all)$']
CTX = [r'^lf::worker_context::(schedule|try_pop_all|try_steal)$']
POOLSTD = [r'^std::vector::(~?vector|push_back|emplace_back|operator=|reserve|insert|clear|_M_\w+)$', r'^std::(__)?shared_ptr::(~?(__)?shared_ptr|operator=)$', r'^std::(latch|thread|function|move_only_function|mersenne|discrete_distribution|uniform_int_distribution|ranges|shuffle|random_device|condition_variable)\b', r'^std::atomic_flag::(wait|notify_one|notify_all)$', r'^lf::(xoshiro|numa_topology|nullary_function_t)\b']

JOBS = {
 'aw': dict(driver='core',
            root=[r'^lf::impl::(join|call|fork|context_switch|eager_call|sync_fork|alloc|just)_awaitable::(await_ready|await_suspend|await_resume)$',
                  r'^lf::impl::just_wrapped::await_(ready|suspend|resume)$',
                  r'^lf::impl::promise::final_awaitable::await_suspend$',
                  r'^lf::impl::promise::(promise|unhandled_exception)$',
                  r'^lf::resume_on_quasi_awaitable::await_(ready|suspend|resume)$'],
            opaque=STACK + QUEUES + SEM + USER, budget=4000),
 'res': dict(driver='core', root=[r'^lf::resume$', r'^lf::worker_context::schedule$'], opaque=STACK + QUEUES + SEM + USER, budget=4000),
 'xf': dict(driver='core', root=[r'^lf::impl::promise_base::await_transform$'], opaque=STACK + QUEUES + SEM + USER, budget=4000),
 'sched': dict(driver='core', root=[r'^lf::schedule$'],
               opaque=STACK + QUEUES + SEM + USER + [r'^std::', r'_pool::schedule$', r'combinate::operator\(\)$', r'::operator delete', r'stacklet::next_stacklet$'], budget=6000),
 'list': dict(driver='core', root=[r'^lf::intrusive_list::(push|try_pop_all|node::node)$', r'^lf::for_each_elem$'], opaque=USER, budget=2000),
 'deque': dict(driver='core', root=[r'^lf::deque::(push|pop|steal|empty|size|ssize|~deque|deque)$'], opaque=USER + [r'^std::vector::'], budget=3000),
 'ec': dict(driver='core', root=[r'^lf::event_count::(prepare_wait|cancel_wait|wait|await|notify_one|notify_all)$'], opaque=USER + [r'__atomic_(wait|notify)', r'::condition_variable::', r'::mutex::'], budget=3000),
 'stack': dict(driver='core', root=[r'^lf::impl::stack::(allocate|deallocate|release|stack|~stack|operator=|empty|top)$', r'^lf::impl::swap$'], opaque=USER, budget=2000),
 'pnew': dict(driver='core', root=[r'^lf::impl::promise(_base)?::operator (new|delete)$'], opaque=STACK, budget=500),
 'pool': dict(driver='core', root=[r'^lf::impl::(lazy|busy)_work$', r'^lf::impl::busy_vars::busy_vars$', r'^lf::unit_pool::work$', r'^lf::(lazy|busy|unit)_pool::(~?(lazy|busy|unit)_pool|schedule|operator=)$'],
              opaque=EVC + QUEUES + CTX + POOLSTD + [r'^lf::(core::|ext::)?(resume|worker_init|finalize)$', r'^lf::impl::numa_context::(try_steal|init_worker_and_bind)$'], budget=6000),
 'numa': dict(driver='core', root=[r'^lf::impl::numa_context::(init_worker_and_bind|finalize_worker|schedule|try_pop_all|try_steal|get_underlying)$'],
              opaque=CTX + POOLSTD + [r'^lf::(core::|ext::)?(resume|worker_init|finalize)$', r'^lf::impl::map$'], budget=4000),
 'tls': dict(driver='core', root=[r'^lf::(worker_init|finalize)$'], opaque=[r'^lf::impl::(stack|full_context|manual_lifetime)::~?\w+$', r'^lf::impl::stack::release$', r'^std::'], budget=3000),
 'ctor': dict(driver='core', root=[r'^lf::impl::manual_lifetime::construct$'], opaque=[r'^std::'], budget=3000),
 'stash': dict(driver='core', root=[r'^lf::impl::first_arg_t::stash_exception$'], opaque=USER, budget=1000),
 'coalloc': dict(driver='core', root=[r'^lf::impl::alloc_awaitable::await_(ready|suspend|resume)$', r'^lf::stack_allocated::(~stack_allocated|stack_allocated|get)$', r'^lf::co_new$'], opaque=STACK + USER, budget=2000),
 'root': dict(driver='core', root=[r'^lf::schedule$'],
              opaque=STACK + QUEUES + SEM + USER + [r'^lf::impl::stack::(stack|~stack|operator=)$', r'^std::make_shared$', r'^std::(__)?shared_ptr::(~?(__)?shared_ptr|operator=|swap|reset)$', r'^std::exception::', r'_pool::schedule$'], budget=6000),
 'fut': dict(driver='core', root=[r'^lf::future::(~?future|wait|get|detach|valid|operator=)$'],
              opaque=SEM + USER + [r'^std::__shared_count::', r'^std::exception::', r'^std::rethrow_exception$'], budget=4000),
 'evt': dict(driver='core', root=[r'^lf::basic_eventually::(~?basic_eventually|operator[=*]|operator->|empty|has_value|has_exception|exception)$', r'^lf::stash_exception$', r'^lf::impl::future_shared_state::future_shared_state$'], opaque=USER, budget=2000),
 'own': dict(driver='core', root=[r'^lf::task::~task$', r'::~(quasi|just|call|fork|eager_call|sync_fork)_awaitable$', r'^lf::impl::(promise|return_result)::return_(value|void)$', r'^lf::impl::promise::get_return_object$'],
             opaque=STACK + QUEUES + SEM + USER, budget=4000),
 'drop': dict(driver='own', root=[r'^probe::own_\w+$', r'^lf::impl::(promise|return_result)::return_(value|void)$'], opaque=STACK + QUEUES + SEM + USER, budget=4000),
 'notify': dict(driver='core', root=[r'move_only_function::_S_invoke$'], opaque=EVC + USER, budget=2000),
 'al': dict(driver='alg', rootcoro=[r'^lf::(?!core::task)'],
            opaque=[r'_awaitable::await_suspend$', r'join_awaitable::', r'(just|sync_fork|eager_call)_awaitable::await_resume$', r'^lf::impl::tls::', r'^lf::impl::stack::top$',
                    r'^lf::impl::promise.*::unhandled_exception', r'final_awaitable', r'first_arg_t::stash_exception$', r'::~\w+_awaitable$', r'::~promise_base$'] + USER + STACK + QUEUES, budget=20000),
 'al_thr': dict(driver='thr', rootcoro=[r'^lf::(?!core::task)'],
            opaque=[r'_awaitable::await_suspend$', r'join_awaitable::', r'(just|sync_fork|eager_call)_awaitable::await_resume$', r'^lf::impl::tls::', r'^lf::impl::stack::top$',
                    r'^lf::impl::promise.*::unhandled_exception', r'final_awaitable', r'first_arg_t::stash_exception$', r'::~\w+_awaitable$', r'::~promise_base$'] + USER + STACK + QUEUES, budget=20000),
 'y_core': dict(driver='core'),
 'y_own': dict(driver='own'),
 'y_thr': dict(driver='thr'),
 'y_algo': dict(driver='algo'),
 't_core': dict(driver='core', opt='-O2', tls=1, cfgs=['clang-ndebug', 'gcc-debug']),
 't_algo': dict(driver='algo', opt='-O2', tls=1, cfgs=['clang-ndebug', 'gcc-debug']),
 'a_core': dict(driver='core', tls=1, graph=1, cfgs=['clang16-ndebug']),
 'a_algo': dict(driver='algo', tls=1, graph=1, cfgs=['clang16-ndebug']),
 'ctx': dict(driver='core', root=[r'^lf::impl::first_arg_t::context$', r'^lf::resume_on_quasi_awaitable::await_ready$', r'^probe::ctx_\w+$'], opaque=USER, budget=1000),
 'g_core': dict(driver='core', graph=1),
 'g_algo': dict(driver='algo', graph=1),
 'g_own': dict(driver='own', graph=1),
 'g_thr': dict(driver='thr', graph=1),
}
