IRP = 'path-sensitive dataflow and event-order rules over normalised LLVM IR'
LIM = ('Static: decides every path of the analysed functions, for all inputs and schedules the path conditions admit, from the source as it is now. '
       'Trusts clang-18\'s lowering of the headers, LLVM\'s mem2reg/inlining/simplification, the driver\'s instantiations as representatives of the templates, and the standard library. ')
TECH = {
 'C01': (IRP + ' (join-counter protocol)', LIM + 'The counter argument (who resumes) is a fixed protocol proof in DESIGN.md whose premises are the checked rules.'),
 'C02': ('release/acquire pairing analysis over IR memory orders on every publication path', LIM + 'Judged against the C++ memory model, not x86.'),
 'C03': ('publication-point escape analysis: no access after give-away on any IR path', LIM),
 'C04': ('ownership/typestate analysis of fibre stacks across suspension and resumption paths', LIM),
 'C05': ('symbolic-expression dataflow over allocator paths (bounds, alignment, ownership of stacklets)', LIM + 'Frees and reuses are matched per operation; FILO order of user frames is a precondition.'),
 'C06': ('event-order and memory-order rules over every path of push/pop/steal', LIM + 'Checks the Chase-Lev protocol obligations, not linearizability of histories (N06).'),
 'C07': ('event-order and ownership rules over every path of the lock-free list', LIM),
 'C08': ('protocol rules (epoch/waiter counts) over every path of the event count', LIM),
 'C09': (IRP + ' (worker typestate: searching/sleeping/active counts, wake-ups)', LIM + 'The invariant proof that uses the rules is in DESIGN.md.'),
 'C10': (IRP + ' (worker life-cycle typestate, pool construction/destruction order)', LIM),
 'C11': ('path rules (registration typestate, exception edges) over worker_init/finalize and the worker loops', LIM),
 'C12': ('path rules (publish-then-notify, exactly-once forwarding and resumption) over every path', LIM),
 'C13': ('typestate and finite-domain dataflow over every path of future operations and the root result protocol', LIM + 'The status and held-value words are enumerated exhaustively (finite domain), not handed to a solver.'),
 'C14': ('ownership and effect rules over every path, exception edges included, of submission', LIM),
 'C17': ('typestate analysis of the result object over every path, for every represented state', LIM + 'The state word is enumerated exhaustively (finite domain).'),
 'C15': ('path rules (exception-slot typestate and exception edges) over promises, awaitables and the stash', LIM),
 'C16': ('path rules (rethrow obligations of eager and synchronous dispatch) over every path', LIM),
 'C25': ('symbolic-expression dataflow and construction/destruction typestate over every path, exception edges included', LIM),
 'C31': ('provenance dataflow of steal victims and results over every path', LIM + 'That row 0 of the topology holds the worker itself is established by the same rules on numa_topology::distribute only as far as its C++ part goes; hwloc is trusted.'),
 'C29': ('ownership typestate over every path (exception edges included) of code that creates, holds, starts, transfers or finishes a task', LIM + 'Holders are enumerated: the driver\'s create-and-drop functions, the awaitables, the root submission and the final suspends.'),
 'C30': ('path dataflow from the awaiting task to the frame fields the child reads (parent, semaphore, result slot, stacklet), plus copy-provenance of functors and arguments', LIM),
'C26': ('exception-effect analysis: fixpoint over the exception graph (every call edge of every instantiated function and the fate of an exception thrown there) from user code to handlers, noexcept boundaries and thread bodies', LIM + 'Decided on the unoptimised IR of four drivers, one with user types of which exactly one overload may throw, so conditional noexcept specifications are discriminated. Out-of-memory in internal noexcept code is not a user exception.'),
 'C27': ('interprocedural address-taint analysis of the optimised, coroutine-split IR (no worker-local address stored in memory that outlives its lookup) and reachability of thread-local accesses from coroutines through inlinable calls in the headers\' clang<=16 view', LIM + 'The optimiser analysed is clang-18 at -O2; for other compilers only the source-level accessor rule applies.'),
 'C18': ('compile-fail witnesses decided by the type checkers of g++ and clang++ (each paired with an accepted twin that differs only in the offending argument)', LIM + 'Argument/parameter categories, kinds of function object and spellings of a fork are enumerated in lfa/rules/witness.py; functions called through the extern shim and *this of a stateful function object are outside the property.'),
 'C19': ('compile-fail witnesses decided by the type checkers of g++ and clang++ (each paired with an accepted twin)', LIM + 'Each class of misuse is represented by the witnesses enumerated in lfa/rules/witness.py.'),
 'C28': ('stand-alone compilation of every header and of the instantiated vocabulary in every configuration by both compilers; linkage analysis of every symbol the headers define, over LLVM IR', LIM + 'Configurations are enumerated; Windows and macOS toolchains are not available here.'),
 'C20': ('typestate analysis (fork-join scope open/closed, exception pending) over every path, exception edges included, of every instantiated algorithm coroutine', LIM + 'An open scope is closed only by a join or by a fork the IR path knows to have completed synchronously.'),
 'C21': ('path dataflow: reads of result slots and of output positions written by a forked child, against the join (or the synchronous-completion fact) of that path', LIM + 'Output ownership is decided from the symbolic sub-range each fork is given.'),
 'C22': ('symbolic (linear) dataflow of the sub-range, output, chunk and functor arguments of every recursive launch, and loop-shape rules for serial chunks, over every path', LIM + 'The split point itself is free: any point the path conditions place inside the range is accepted.'),
 'C23': ('symbolic dataflow of the operands of every operator application and of the scan invariants at every exit, over every path', LIM + 'Decides operand order and the induction step of the sweep invariants; equality of values with the sequential result is N02.'),
 'C24': ('path rules over context-switch awaitables', LIM),
}
NA = {
 'N01': 'Progress and fairness depend on the operating system scheduler and unbounded run-time behaviour; no sound static argument in reach bounds them (the lost-wakeup part is claimed as C08/C09).',
 'N02': 'Equality with the sequential algorithm quantifies over run-time values and user functors; only the structural parts are static (claimed as C20-C23).',
 'N03': 'The bound is on run-time peak memory as a function of depth and workers; not derivable by a static analysis in reach (local allocation facts are C05).',
 'N04': 'A numeric output sequence: needs evaluation of the generator, which is execution, not static analysis.',
 'N05': 'Depends on the hardware topology reported by hwloc at run time.',
 'N06': 'Linearizability quantifies over whole concurrent histories and needs model checking; the per-operation protocol obligations are claimed as C06.',
}
