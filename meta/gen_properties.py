#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so ids, anchors and texts stay reviewable)."""
import json, os, sys
I = "include/libfork/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[I + f for f in files],
                               mechanism=[dict(name=n, where=I + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "A join resumes its task exactly once, after the last forked child",
  "After `co_await lf::join` a task continues only when every child forked since the previous join has completed, and it is resumed by exactly one worker: either the worker that reached the join, or the worker finishing the last outstanding child, never both and never neither. "
  "This holds however often the continuation was stolen, and the bookkeeping is back in its initial state so that any number of fork-join scopes can follow one another in one task.",
  ["schedules", "programs"], "every interleaving of children finishing, continuations being stolen and the parent reaching the join; every number of steals and of successive scopes",
  "the deciding races need a child to finish between two instructions of the joining worker; tests run a few schedules on one machine and pass with most mis-counted variants unless the window is hit",
  ["core/impl/frame.hpp", "core/impl/awaitables.hpp", "core/impl/promise.hpp", "core/ext/resume.hpp"],
  [("join counter and steal counter", "core/impl/frame.hpp"), ("join_awaitable", "core/impl/awaitables.hpp"), ("final_await_suspend", "core/impl/promise.hpp"), ("resume / try_self_stealing count a steal", "core/ext/resume.hpp")],
  ["the code after co_await lf::join"])

p("C02", "Children's effects happen-before the code after the join",
  "Everything a forked child did, wherever it ran, happens-before the code following the join of its parent, and everything the parent did up to a join happens-before the continuation resumed by another worker. "
  "The same holds for publishing a task for stealing or submission and the worker that picks it up.",
  ["schedules"], "all executions allowed by the C++ memory model, not just those a strongly ordered CPU produces",
  "x86 hardware hides missing acquire/release pairs; no test can observe them there",
  ["core/impl/awaitables.hpp", "core/impl/promise.hpp", "core/impl/frame.hpp", "core/ext/deque.hpp", "core/ext/list.hpp"],
  [("release decrements and acquire fences of the join counter", "core/impl/awaitables.hpp"), ("release publication in deque::push and intrusive_list::push", "core/ext/deque.hpp")])

p("C03", "A worker never touches a task after giving it away",
  "Once a worker has made a task available to others - by publishing it for stealing, submitting it to a scheduler, registering its last action at a join it did not win, or signalling a root task's completion - it performs no further read or write of that task, its awaitable or its submission record.",
  ["schedules"], "every schedule in which the new owner resumes or destroys the task immediately",
  "the use-after-free only shows when the other worker is faster than the next few instructions; tests and sanitizers sample a handful of schedules",
  ["core/impl/awaitables.hpp", "core/impl/promise.hpp", "core/ext/list.hpp", "core/ext/resume.hpp", "core/sync_wait.hpp"],
  [("child handle moved to a local before push", "core/impl/awaitables.hpp"), ("loser of the join race returns without dereferencing", "core/impl/awaitables.hpp"), ("next pointer cached before the callback", "core/ext/list.hpp")])

p("C04", "A suspended task's stack is handed over exactly once and never shared",
  "At any time each fibre stack has one owner: a worker that loses a join race, or reschedules a task that was never stolen, gives up the stack that task lives on and continues on a fresh one; the worker that resumes such a task adopts that stack. "
  "A worker whose stack does not hold the task keeps its own stack.",
  ["schedules", "programs"], "every mix of steals, joins won or lost, and explicit rescheduling",
  "double ownership corrupts memory only when both owners allocate concurrently; wrong release leaks or loses stacks silently",
  ["core/impl/awaitables.hpp", "core/impl/promise.hpp", "core/ext/resume.hpp", "core/impl/stack.hpp"],
  [("final_await_suspend stack take/release", "core/impl/promise.hpp"), ("context_switch_awaitable releases iff not stolen", "core/impl/awaitables.hpp"), ("resume(submit_handle) adopts iff not stolen", "core/ext/resume.hpp")])

p("C05", "Fibre-stack allocations never overlap, overflow or leak",
  "Every allocation made for a task lies entirely inside one live segment, is aligned for any type with default new alignment, and is at least as large as requested; releasing in reverse order returns exactly that space. "
  "Each memory segment is freed exactly once, at most one spare segment is kept, and failure to obtain memory leaves the stack as it was.",
  ["programs", "inputs", "fault_sequences"], "every sequence of allocation sizes, every interleaving of grow/shrink, and allocation failure at any point",
  "segment boundaries are hit at a handful of sizes in tests, and allocation failure is never injected",
  ["core/impl/stack.hpp"],
  [("stack::allocate / deallocate / release", "core/impl/stack.hpp"), ("stacklet::next_stacklet / set_next", "core/impl/stack.hpp")])

p("C06", "The work-stealing deque keeps its owner/thief protocol on every path",
  "For every concurrent use by one owner and any number of thieves, an item handed to the deque is returned by exactly one pop or steal: an item is returned only by the side that claimed it, a lost race or empty deque yields no item, and growing the deque neither loses items nor frees memory a thief may still read. "
  "The ordering this needs is requested from the memory model, not left to the hardware.",
  ["schedules", "inputs"], "all interleavings and all C++ memory-model executions, every capacity",
  "duplicated or lost items need a thief inside a window of a few instructions, or weak hardware",
  ["core/ext/deque.hpp", "core/impl/atomics.hpp"],
  [("push/pop/steal ordering and compare-exchange", "core/ext/deque.hpp"), ("retired buffers kept until destruction", "core/ext/deque.hpp"), ("seq_cst fence", "core/impl/atomics.hpp")])

p("C07", "The submission list neither loses, duplicates nor reorders submissions",
  "Items pushed to the intrusive submission list by any number of threads are each delivered exactly once to the owner, in the order the pushes took effect, and an empty list yields null. "
  "Visiting the items never reads an item after it was handed to the callback.",
  ["schedules"], "all interleavings of producers with the consumer, including spurious compare-exchange failure",
  "spurious failures do not happen on x86 and producer collisions are rare in tests",
  ["core/ext/list.hpp"],
  [("push compare-exchange loop", "core/ext/list.hpp"), ("try_pop_all exchange and reversal", "core/ext/list.hpp"), ("for_each_elem", "core/ext/list.hpp")])

p("C08", "The event count has no lost wakeups and balances its waiters",
  "If a notification happens after a thread prepared to wait, that thread's wait returns; every notification changes the epoch and wakes waiters whenever any are registered (all of them for notify_all). "
  "Every prepared wait is paired with exactly one cancel or completed wait on every path, including when the awaited predicate throws.",
  ["schedules", "fault_sequences"], "every interleaving of waiters and notifiers; predicates that throw at any evaluation",
  "a lost wakeup needs the notifier to run in the gap between check and sleep",
  ["schedule/ext/event_count.hpp"],
  [("packed epoch/waiter word", "schedule/ext/event_count.hpp"), ("await()", "schedule/ext/event_count.hpp")])

p("C09", "Sleeping workers are woken whenever there is work or a stop request",
  "A worker of the lazy pool goes to sleep only after announcing itself and then finding no submissions, no stop request and that its sleeping does not leave a busy pool without a searching worker. "
  "A worker that stops searching to run a task hands the search over to a sleeping worker if it was the last searcher, and the number of searching and of active workers is restored on every path.",
  ["schedules"], "every interleaving of submission, stealing, going to sleep and shutdown",
  "the stall needs a submission in the window between the last check and sleeping",
  ["schedule/lazy_pool.hpp"],
  [("lazy_work event loop", "schedule/lazy_pool.hpp"), ("thief_work_sleep", "schedule/lazy_pool.hpp")])

p("C10", "Pools start all workers before use and stop and join all on destruction",
  "A pool accepts work only after every worker has registered its context; destroying a pool requests a stop, wakes every sleeping worker and joins every thread, and no worker tears down its context while another worker can still look at it. "
  "Submissions present when a busy or unit pool's worker sees the stop are drained before it leaves (the lazy pool requires all submitted work to be complete before destruction), and moved-from pools destroy cleanly.",
  ["schedules", "histories"], "every interleaving of construction, submission and destruction; moves at any point of a pool's life",
  "shutdown races and moved-from states are outside what the fixed test scenarios exercise",
  ["schedule/busy_pool.hpp", "schedule/lazy_pool.hpp", "schedule/unit_pool.hpp"],
  [("latch_start/latch_stop protocol", "schedule/busy_pool.hpp"), ("destructors", "schedule/lazy_pool.hpp"), ("ready flag", "schedule/unit_pool.hpp")])

p("C11", "Worker registration is all-or-nothing and strictly paired",
  "Initialising a worker twice, finalising on the wrong thread or finalising twice raises an error and changes nothing; an initialisation that fails leaves the thread unregistered and reports the failure, and a successful one is undone completely by finalise. "
  "Every worker loop of the library finalises what it initialised on every way out.",
  ["histories", "fault_sequences"], "every sequence of init/finalise calls and allocation failure at any step",
  "allocation failure inside initialisation is never injected by the tests",
  ["core/ext/tls.hpp", "schedule/unit_pool.hpp", "schedule/impl/numa_context.hpp", "schedule/busy_pool.hpp", "schedule/lazy_pool.hpp"],
  [("worker_init / finalize", "core/ext/tls.hpp")])

p("C12", "A submitted task is published before its worker is notified, exactly once",
  "Submitting a task to any of the provided schedulers places it in exactly one worker's submission queue and then triggers that worker's notification, on every path; a worker that takes submissions resumes every one of them, and a task obtained by stealing is resumed exactly once. "
  "No submission obtained from a queue is dropped.",
  ["schedules", "programs"], "every pool type, every interleaving of submitters and workers",
  "a dropped or double submission shows only under particular timing",
  ["core/ext/context.hpp", "core/ext/resume.hpp", "schedule/busy_pool.hpp", "schedule/lazy_pool.hpp", "schedule/unit_pool.hpp", "schedule/impl/numa_context.hpp"],
  [("worker_context::schedule", "core/ext/context.hpp"), ("resume overloads", "core/ext/resume.hpp"), ("numa_context::try_steal", "schedule/impl/numa_context.hpp")])

p("C13", "A future yields its result once, only after completion, and never dangles",
  "A future's result is read only after the root task signalled completion; `get` returns or rethrows it at most once, and using an empty or already read future raises the documented error. "
  "Destroying a future that was not waited for waits, a detached one does not, and the shared state outlives the task in every case.",
  ["schedules", "histories"], "every order of wait/get/detach/move/destroy relative to the task finishing",
  "tests follow the documented order and rarely have the task still running",
  ["core/sync_wait.hpp", "core/impl/promise.hpp"],
  [("future", "core/sync_wait.hpp"), ("root final suspend", "core/impl/promise.hpp")])

p("C14", "A failed submission leaves the caller's thread usable and leaks nothing",
  "Calling schedule, sync_wait or detach from a worker raises the documented error without side effects. Elsewhere, whatever step of creating or submitting the root task throws, the exception reaches the caller, the root task is destroyed on the stack it lives on exactly once, and the calling thread is left as it was.",
  ["fault_sequences", "programs"], "failure of every allocation, of the task's argument copies and of the scheduler's own schedule method",
  "tests never make a scheduler or an allocation fail",
  ["core/sync_wait.hpp", "core/ext/tls.hpp", "core/impl/unique_frame.hpp"],
  [("schedule()", "core/sync_wait.hpp")])

p("C15", "An exception in a child reaches the parent at its join and is never lost",
  "If any forked or called child without an exception-capable return slot exits by exception, the first such exception is stored in the parent and is rethrown when the parent resumes from its next join; later ones are discarded without a data race. "
  "Rethrowing clears the stored exception so later scopes start clean, and explicitly stashing the current exception behaves like a throwing child.",
  ["schedules", "fault_sequences"], "any number of concurrently throwing children, any schedule",
  "simultaneous throws are not forced by tests and release builds do not check for lost exceptions",
  ["core/impl/frame.hpp", "core/impl/promise.hpp", "core/impl/awaitables.hpp", "core/first_arg.hpp"],
  [("capture_exception / rethrow", "core/impl/frame.hpp"), ("unhandled_exception", "core/impl/promise.hpp"), ("join_awaitable::await_resume", "core/impl/awaitables.hpp")])

p("C16", "Eager and synchronous dispatch modifiers rethrow the child's exception",
  "A call dispatched with an eager-throw modifier, and a fork dispatched with a sync modifier that completed synchronously, rethrow at that point an exception the child left in the parent - the exception itself when no concurrent sibling can be running, a substitute otherwise - and never report success instead. "
  "A child whose return slot captures exceptions does not cause a throw in the parent, and a sync fork reports synchronous completion exactly when the continuation was not stolen.",
  ["programs", "schedules", "fault_sequences"], "every return-slot kind and modifier, any schedule, any throwing child",
  "no test dispatches with these modifiers directly; algorithms use them only with non-throwing operators in tests",
  ["core/impl/promise.hpp", "core/impl/awaitables.hpp"],
  [("promise_base::await_transform", "core/impl/promise.hpp"), ("eager_call_awaitable, sync_fork_awaitable", "core/impl/awaitables.hpp")])

p("C17", "Deferred-construction results are written once and destroyed once",
  "An eventual-result object holds nothing, a value or (if enabled) an exception, and its queries report exactly that for value, reference and void results alike. "
  "Storing a value or exception constructs it before the state says so, a throwing construction leaves it empty, and destruction destroys exactly what is held.",
  ["programs", "fault_sequences"], "every result type category and every constructor that throws",
  "tests instantiate a few types and never make construction of the stored value throw",
  ["core/eventually.hpp", "core/impl/return.hpp"],
  [("basic_eventually", "core/eventually.hpp")])

p("C18", "Forking a reference that could dangle does not compile",
  "A fork that would bind a reference parameter of the forked function to a temporary - a prvalue or xvalue argument, or an lvalue argument that has to be converted - is rejected at compile time, for functions, lambdas, member functions and defaulted rvalue-reference parameters; lvalue references that bind directly and by-value arguments are accepted, and the restriction does not apply to calls. "
  "A reference result can be bound only to objects that outlive the call. Excepted: functions called through the extern shim (LF_EXTERN_FWD_DECL drops the argument categories) and the object a member function is called on when it is the lambda or function object itself.",
  ["programs"], "every argument/parameter value-category combination a user may write",
  "rejections are compile-time and the test-suite only contains programs that compile",
  ["core/impl/promise.hpp", "core/impl/safe_ref.hpp", "core/impl/return.hpp", "core/eventually.hpp"],
  [("safe_fork", "core/impl/promise.hpp"), ("safe_ref_bind_to", "core/impl/safe_ref.hpp")])

p("C19", "Misuse of tasks, handles and awaitables does not compile",
  "Programs that invoke a task function directly, take its first argument by reference, copy a future, pool, deque, list, context or eventual result, await a non-awaitable, use an illegal modifier, submit a root task whose exception could not be stored, allocate over-aligned objects on a fibre stack, declare a result of an illegal type, or use a result address that cannot hold the result are rejected at compile time; the corresponding correct programs are accepted, resume_on with any scheduler included.",
  ["programs"], "every program using the public API",
  "tests only contain programs that compile; a weakened constraint changes nothing they can see",
  ["core/impl/promise.hpp", "core/first_arg.hpp", "core/invocable.hpp", "core/tag.hpp", "core/co_alloc.hpp", "core/sync_wait.hpp", "core/task.hpp", "core/eventually.hpp"],
  [("coroutine_traits specialisations", "core/impl/promise.hpp"), ("valid_modifier_impl", "core/tag.hpp"), ("rootable", "core/invocable.hpp")])

p("C20", "Algorithms close every fork-join scope on every path",
  "In every parallel algorithm, once a child has been forked no path - including an exception thrown by the user's function, projection, element access or a called child - leaves the algorithm before a join has completed; the exception is delivered after the join.",
  ["programs", "fault_sequences"], "every exit of every algorithm body, normal or exceptional, for all instantiations",
  "leaving a scope early corrupts memory only if the child is still running",
  ["algorithm/for_each.hpp", "algorithm/map.hpp", "algorithm/fold.hpp", "algorithm/scan.hpp"],
  [("try/stash/join around the second branch", "algorithm/for_each.hpp")])

p("C21", "Algorithms read a forked child's result only when it is complete",
  "No parallel algorithm reads a result slot or output range written by a forked child unless a join has been passed since the fork, or the fork reported that the child completed synchronously.",
  ["schedules"], "every path and every schedule, in particular continuations stolen right after the fork",
  "with one worker or a fast child the slot is already written",
  ["algorithm/fold.hpp", "algorithm/scan.hpp", "algorithm/map.hpp", "algorithm/for_each.hpp"],
  [("join before use", "algorithm/fold.hpp"), ("ready flag", "algorithm/scan.hpp")])

p("C22", "Algorithms split their input into adjacent, complete, disjoint parts",
  "Whenever a parallel algorithm divides its input it passes on the first part [begin, split) and the second part [split, end) with one common split point, the same chunk size, operator and projection, and an output position advanced by exactly the length of the first part; it divides only when more than one chunk remains. "
  "Serial chunks visit every element of their part exactly once, in order.",
  ["inputs", "programs"], "every length, chunk size and iterator type",
  "off-by-one splits can cancel out in sums or hit only particular lengths",
  ["algorithm/for_each.hpp", "algorithm/map.hpp", "algorithm/fold.hpp", "algorithm/scan.hpp"],
  [("mid computation and recursion", "algorithm/map.hpp")])

p("C23", "Reductions and scans combine operands strictly left to right",
  "fold and scan apply the user's operator with the accumulation of earlier elements on the left and later elements on the right, so non-commutative operators give the sequential answer; the halves of a division are combined in order and neither is dropped.",
  ["inputs", "programs", "schedules"], "every associative operator, every division of the input",
  "most tests use commutative operators such as plus",
  ["algorithm/fold.hpp", "algorithm/scan.hpp"],
  [("bop invocations", "algorithm/fold.hpp"), ("rise_sweep / fall_sweep", "algorithm/scan.hpp")])

p("C24", "Explicit rescheduling transfers a task once and keeps the worker useful",
  "Awaiting a context switch suspends the task only if the switch says it is not ready, hands it to the destination exactly once, and the abandoned worker then continues with a task still in its own queue (counting it as stolen) or goes idle; `resume_on` does nothing if the task is already on the destination worker. "
  "An exception thrown while handing over is raised in the awaiting task, which stays where it was.",
  ["schedules", "fault_sequences"], "every destination, any number of tasks left behind in the queue, throwing switches",
  "tests use well-behaved switches and few pending ancestors",
  ["core/impl/awaitables.hpp", "core/scheduler.hpp", "core/impl/promise.hpp"],
  [("context_switch_awaitable", "core/impl/awaitables.hpp"), ("resume_on_quasi_awaitable", "core/scheduler.hpp")])

p("C25", "Objects allocated on the fibre stack are constructed and destroyed as a unit",
  "Allocating objects on the fibre stack yields the requested number of default-initialised objects; if a constructor throws, the memory is returned and the exception propagates; releasing destroys every object and returns exactly that memory. "
  "In each case the task's record of where its stack ends is updated to match.",
  ["programs", "fault_sequences"], "every element type, count and throwing constructor",
  "tests allocate trivially constructible elements that cannot throw",
  ["core/co_alloc.hpp", "core/impl/awaitables.hpp"],
  [("alloc_awaitable", "core/impl/awaitables.hpp"), ("stack_allocated", "core/co_alloc.hpp")])

p("C26", "Exceptions from user code never terminate the program",
  "An exception thrown by a user-supplied function, projection, iterator, return-slot assignment, copied argument, awaitable or scheduler passed to any entry point of the library propagates as an exception (to the awaiting task, the join, or the future); no declaration of the library that it cannot throw turns it into program termination (a scheduler's own notification callback, which must not throw, excepted).",
  ["programs", "fault_sequences"], "every user callback of every entry point, throwing at any call",
  "tests throw from task bodies only",
  ["core/just.hpp", "core/first_arg.hpp", "core/impl/combinate.hpp", "core/impl/return.hpp", "core/eventually.hpp", "core/impl/awaitables.hpp", "core/scheduler.hpp", "core/ext/deque.hpp", "core/ext/list.hpp", "schedule/ext/event_count.hpp"],
  [("conditional noexcept specifications", "core/impl/awaitables.hpp")])

p("C27", "Worker-local state is looked up afresh after every possible migration",
  "After any point where a task may continue on another thread, the library uses the stack and context of the worker now running it, never ones looked up before; this holds for optimised builds too.",
  ["schedules", "configurations"], "every suspension point, every migration, every compiler optimisation level",
  "a stale lookup is harmless unless the task migrates exactly there",
  ["core/ext/tls.hpp", "core/impl/promise.hpp", "core/impl/awaitables.hpp", "core/co_alloc.hpp"],
  [("non-inlined accessors", "core/ext/tls.hpp")])

p("C28", "Every header builds alone, in every supported configuration, in many TUs",
  "Each public header compiles on its own as the first include, and the whole library compiles with and without assertions, exceptions and hwloc, under gcc and clang; including it in several translation units neither defines a symbol twice nor gives each unit its own copy of shared library state.",
  ["configurations", "programs"], "every header and every combination of the documented switches",
  "the build uses one compiler and one configuration",
  ["core/macro.hpp", "core/impl/utility.hpp", "core/ext/tls.hpp"],
  [("configuration macros", "core/macro.hpp")])

p("C29", "A task frame is owned by exactly one party from creation to destruction",
  "A task that was created but never started is destroyed exactly once when its holder goes away; starting it by fork, call, just or submission transfers ownership exactly once and, if that fails, it is still destroyed exactly once; a task that ran to completion is destroyed exactly once, before its parent can be resumed.",
  ["programs", "fault_sequences"], "every way to create, discard, start and fail to start a task",
  "tests always start the tasks they create",
  ["core/impl/unique_frame.hpp", "core/impl/awaitables.hpp", "core/impl/promise.hpp", "core/impl/combinate.hpp", "core/just.hpp", "core/sync_wait.hpp"],
  [("unique_frame", "core/impl/unique_frame.hpp"), ("final_awaitable", "core/impl/promise.hpp")])

p("C30", "A task records its parent, result slot and stack before it can run",
  "Before a forked, called or root task starts it knows whom to notify (its parent, or the semaphore of its future), where its result goes, and the segment of the stack it was allocated on; the function object and arguments it received are its own.",
  ["programs"], "every way to start a task",
  "a stale parent or slot is usually masked because the old value happens to be right",
  ["core/impl/promise.hpp", "core/impl/combinate.hpp", "core/just.hpp", "core/sync_wait.hpp", "core/first_arg.hpp", "core/extern.hpp"],
  [("await_transform sets the parent", "core/impl/promise.hpp"), ("y_combinate binds the return address", "core/impl/combinate.hpp")])

p("C31", "A worker steals only from other workers and propagates what it stole",
  "Looking for work, a pool worker examines only other workers' queues, treats a lost race or empty queue as no work rather than as a task, and hands every task it obtained to execution; a pool with a single worker never steals.",
  ["schedules", "configurations"], "every topology and schedule",
  "self-stealing or dropping a stolen task needs particular races and core counts",
  ["schedule/impl/numa_context.hpp", "schedule/busy_pool.hpp", "schedule/lazy_pool.hpp"],
  [("numa_context::try_steal", "schedule/impl/numa_context.hpp"), ("init_worker_and_bind", "schedule/impl/numa_context.hpp")])

# ---- not applicable to static analysis -------------------------------------------------------
p("N01", "Every submitted task eventually completes (progress and fairness)",
  "As long as user code terminates, every task submitted to a running pool is eventually executed and every join is eventually passed.",
  ["schedules"], "all fair schedules", "tests have finite time-outs and a few schedules",
  ["schedule/lazy_pool.hpp", "schedule/busy_pool.hpp"], [("worker loops", "schedule/lazy_pool.hpp")])
p("N02", "Algorithm results equal those of the sequential standard algorithms",
  "for_each, map, fold and scan produce, element for element, what the sequential standard algorithm produces for the same input, operator and projection.",
  ["inputs", "schedules"], "all inputs, lengths, chunk sizes and operators", "tests sample lengths and operators",
  ["algorithm/fold.hpp", "algorithm/scan.hpp", "algorithm/map.hpp", "algorithm/for_each.hpp"], [("algorithms", "algorithm/scan.hpp")])
p("N03", "Memory use is bounded by the worker count times the sequential depth",
  "The total fibre-stack memory of a computation on P workers stays within a constant factor of P times the stack its sequential execution needs.",
  ["schedules", "programs"], "all programs and schedules", "space is not measured",
  ["core/impl/stack.hpp"], [("segmented stack", "core/impl/stack.hpp")])
p("N04", "The random generator reproduces the reference sequence",
  "The pseudo-random generator produces the published xoshiro256** sequence and its jumps skip the documented distance.",
  ["inputs"], "all seeds", "tests use one seed",
  ["schedule/ext/random.hpp"], [("xoshiro", "schedule/ext/random.hpp")])
p("N05", "NUMA distribution places workers evenly and orders neighbours by distance",
  "Distributing workers over a topology assigns each worker one node, spreads or packs them as the strategy says, and lists for each worker all others grouped by distance.",
  ["inputs", "configurations"], "all topologies", "only the machine's own topology is available",
  ["schedule/ext/numa.hpp"], [("numa_topology::distribute", "schedule/ext/numa.hpp")])
p("N06", "Deque histories are linearizable",
  "Every history of concurrent deque operations, including size queries, has a sequential explanation.",
  ["histories", "schedules"], "all histories", "stress tests check totals only",
  ["core/ext/deque.hpp"], [("deque", "core/ext/deque.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
