#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for property texts)."""
import json
D='include/stdexec/__detail/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Every started operation completes exactly once',
 'Once an operation state obtained from any sender (however it was composed from the library\'s factories and adaptors, and whether its children complete inline, later, or on another thread) has been started, its receiver gets exactly one of set_value, set_error or set_stopped: never none once every child has completed, never two. An operation that is never started never completes.',
 ['programs','schedules','inputs'],'every composition of senders, every disposition of each leaf (value/error/stopped; inline, deferred or cross-thread) and every interleaving of completions with stop requests',
 'Tests fix one composition and one completion order each; the guarantee is over all compositions and all orders in which children complete, fail, or are stopped.',
 [D+'__basic_sender.hpp',D+'__let.hpp',D+'__when_all.hpp',D+'__continues_on.hpp',D+'__sequence.hpp','include/exec/repeat_until.hpp','include/exec/when_any.hpp','include/exec/variant_sender.hpp'],
 [('operation states forward exactly one completion',D+'__basic_sender.hpp'),('last-arrival counters in concurrent joins',D+'__when_all.hpp')],
 ['completion calls on the outermost receiver of each started operation'])
p('C02','Completion may destroy the operation: nothing is touched afterwards',
 'A receiver may destroy the operation state that is completing it, from inside the completion function or from another thread as soon as that function has been entered. After delivering a completion no algorithm, scheduler or queue reads or writes the operation state, its children, or anything it owned.',
 ['programs','schedules'],'every composition, every completion thread, every instant at which the receiver (or a thread it wakes) frees the operation relative to the completing thread\'s remaining instructions',
 'A late access is only visible if the memory is released and reused in the few instructions after the completion call; tests keep operation states alive on the stack of the test.',
 [D+'__basic_sender.hpp',D+'__sequence.hpp',D+'__let.hpp',D+'__when_all.hpp','include/exec/static_thread_pool.hpp',D+'__counting_scopes.hpp',D+'__run_loop.hpp','include/exec/repeat_until.hpp'],
 [('completion is the last thing done to an operation state',D+'__let.hpp')],
 ['release of the heap block holding each operation state, and every later access to it'])
p('C03','Senders are lazy and every resource is released exactly once',
 'Creating, copying, moving, connecting or destroying senders and operation states runs none of the user\'s work and needs no start; only start does. Every value, error, callable, receiver, environment and allocation the library takes ownership of is destroyed or released exactly once (with the allocator and size it came from), by the time the operation state or handle that owns it is gone, on every path: never started, completed with value, error or stopped, or abandoned because an exception interrupted construction.',
 ['programs','inputs','fault_sequences'],'every composition, completion path, early destruction point and throwing construction/allocation point',
 'Leaks and double destruction on rare paths (throwing moves, failed connects, unstarted or stopped operations) do not change the values a unit test compares.',
 [D+'__let.hpp',D+'__variant.hpp',D+'__tuple.hpp',D+'__connect.hpp',D+'__continues_on.hpp',D+'__when_all.hpp',D+'__spawn_future.hpp',D+'__any.hpp','include/exec/detail/shared.hpp'],
 [('variant/manual-lifetime storage for results',D+'__variant.hpp'),('RAII allocation guards',D+'__spawn_common.hpp')],
 ['constructor/destructor events of instrumented user types','every operator new/delete and allocator call'])
p('C04','Sequential adaptors compute what their specification says',
 'For every pipeline built from the sequential factories and adaptors (just, just_error, just_stopped, then, upon_error, upon_stopped, let_value, let_error, let_stopped, into_variant, stopped_as_optional, stopped_as_error, sequence, finally, materialize and the like) the final completion channel, its values and their order, and the sequence of user-function calls equal those of direct evaluation of the specification: each function runs only on its channel, exactly once, with the preceding results, and everything else passes through unchanged.',
 ['programs','inputs'],'every pipeline over these adaptors and every completion disposition of its leaves',
 'Unit tests cover each adaptor on a handful of shapes; the guarantee is compositional, over all nestings and dispositions.',
 [D+'__then.hpp',D+'__upon_error.hpp',D+'__upon_stopped.hpp',D+'__let.hpp',D+'__just.hpp',D+'__into_variant.hpp',D+'__stopped_as_optional.hpp',D+'__stopped_as_error.hpp',D+'__sequence.hpp',D+'__finally.hpp','include/exec/materialize.hpp','include/exec/into_tuple.hpp','include/exec/just_from.hpp','include/exec/create.hpp','include/exec/variant_sender.hpp'],
 [('per-channel dispatch of completions',D+'__then.hpp'),('storage of results for the duration of the nested operation',D+'__let.hpp')],
 ['completion of the pipeline','calls of user functions'])
p('C05','Exceptions become exactly one error completion',
 'If a user-supplied function, a copy or move of a value or error, connecting a nested sender, or an allocation throws while an operation runs, that operation completes exactly once with set_error carrying that very exception (unless the function is specified to terminate), no other completion is delivered, no later stage\'s value function runs, and nothing leaks or is destroyed twice.',
 ['inputs','fault_sequences','programs'],'every point at which user code or an allocation can throw, in every adaptor and composition',
 'The number of throw points (each copy, move, call and allocation, in each algorithm) is far larger than the cases tested; tests rarely throw from moves or allocations at all.',
 [D+'__then.hpp',D+'__let.hpp',D+'__continues_on.hpp',D+'__when_all.hpp',D+'__bulk.hpp',D+'__connect.hpp','include/exec/detail/shared.hpp','include/exec/repeat_until.hpp'],
 [('try/catch around user code when not noexcept',D+'__then.hpp'),('emplacement of results guarded',D+'__let.hpp')],
 ['every injected throw and the completion that follows it'])
p('C06','Work runs on the execution context it was sent to',
 'A schedule operation completes on an execution agent of its scheduler\'s context; starts_on runs the child on the given scheduler; continues_on delivers the child\'s completion (value, error and stopped alike, with its data intact) on the given scheduler; on(sch, snd) runs snd on sch and returns to where it was started; affine/task awaits resume on the task\'s own scheduler. This holds wherever the child completes, and if the scheduling operation itself fails or is stopped that is reported instead, exactly once.',
 ['programs','schedules','inputs'],'every nesting of transfers over several contexts, every completion channel and every completing thread',
 'Tests check one hop with a value; nested transfers, error/stopped channels, and children completing on unexpected threads are unbounded combinations.',
 [D+'__continues_on.hpp',D+'__starts_on.hpp',D+'__on.hpp',D+'__schedule_from.hpp',D+'__affine.hpp',D+'__schedulers.hpp','include/exec/reschedule.hpp'],
 [('results stored, then replayed from the scheduler\'s completion',D+'__continues_on.hpp')],
 ['the context on which each user function and the final completion run'])
p('C07','when_all joins all children with first-failure-wins',
 'when_all (and its transfer and into_variant forms) completes only after every child has completed. If all children succeed it delivers all their values in argument order; otherwise it requests stop on the remaining children and delivers the first recorded failure (an error outranks stopped), whatever the threads and timing; a stop request on its receiver reaches every child.',
 ['schedules','programs','inputs'],'any number of children, dispositions, completion orders and threads, and concurrent outer stop requests',
 'The final arrival, the first-error race and the outer stop request race with each other; tests complete children in a fixed order on one thread.',
 [D+'__when_all.hpp'],[('arrival counter and first-failure state machine',D+'__when_all.hpp'),('stop source shared by the children',D+'__when_all.hpp')],
 ['child completions, child stop requests, the joined completion'],
 [('__count_','children that have not completed',D+'__when_all.hpp'),('__state_','started / error / stopped',D+'__when_all.hpp')])
p('C08','Stop callbacks run exactly once or never, and deregistration is final',
 'On an in-place stop source exactly one request_stop returns true; each registered callback is invoked exactly once, on the requesting thread or (if stop was already requested) inside registration, and never if it was deregistered first. When a callback\'s destructor returns the callback is not running on another thread and will never run again, while destroying a callback from inside its own invocation neither blocks nor touches the destroyed object; tokens observe stop_requested monotonically.',
 ['schedules','histories'],'every interleaving of registration, deregistration (including self-deregistration and deregistration of other callbacks from a callback), and request_stop by several threads',
 'The protocol is a lock-free list with a spin lock and hand-off flags; the racy windows are a few instructions wide and tests exercise them with sequential code.',
 ['include/stdexec/stop_token.hpp',D+'__stop_token.hpp'],
 [('state word lock and callback list','include/stdexec/stop_token.hpp'),('completed flag / removed-during-callback pointer','include/stdexec/stop_token.hpp')],
 ['callback invocations, destructor returns, request_stop results'],
 [('__state_','stop-requested and locked bits','include/stdexec/stop_token.hpp')])
p('C09','run_loop and sync_wait: every item runs once, no lost wake-up',
 'Every operation scheduled on a run_loop is executed exactly once by a thread inside run(), in FIFO order per submitting thread; finish() makes run() return only after everything queued before it has run, and never loses a wake-up. sync_wait returns exactly what its sender produced (value tuple, empty for stopped, or the exception rethrown), only after the sender completed, driving work scheduled back onto its own loop meanwhile, and the loop may be destroyed as soon as it returns.',
 ['schedules','histories','programs'],'any number of producers, any interleaving of push, finish, run and destruction of the loop',
 'Lost wake-ups and use of the loop after it has been destroyed depend on a window between pushing, notifying and returning from run; the shipped repro test samples it by brute force on one pattern.',
 [D+'__run_loop.hpp',D+'__atomic_intrusive_queue.hpp',D+'__sync_wait.hpp'],
 [('multi-producer queue drained by run()',D+'__run_loop.hpp'),('finishing protocol',D+'__run_loop.hpp')],
 ['each submitted item\'s execution, run() and sync_wait returns'])
p('C10','static_thread_pool runs every task once, on a worker, without getting stuck',
 'Every schedule operation started on a static_thread_pool before it is asked to stop completes exactly once on one of that pool\'s workers, whether it was submitted from outside, from a worker of the pool, or in bulk, through any of its schedulers; a worker never sleeps for good while work is queued. Destroying the pool first completes everything submitted before the destruction began and everything the pool\'s own workers submit to it meanwhile through get_scheduler(), and waits for the workers; operations submitted from elsewhere concurrently with or after the stop request complete at most once. iterate/schedule_all on the pool delivers every element to exactly one item operation.',
 ['schedules','histories','configurations'],'any number of submitters and workers, any mix of local, remote and bulk submission, work stealing and sleeping, pool sizes and block parameters',
 'Lost wake-ups, lost or duplicated tasks between local queues, remote queues and thieves, and shutdown races need particular interleavings of several lock-free structures.',
 ['include/exec/static_thread_pool.hpp','include/exec/thread_pool_base.hpp','include/exec/detail/bwos_lifo_queue.hpp',D+'__atomic_intrusive_queue.hpp'],
 [('worker state running/sleeping/notified','include/exec/static_thread_pool.hpp'),('remote queue lists','include/exec/static_thread_pool.hpp'),('work stealing','include/exec/static_thread_pool.hpp')],
 ['each task\'s execution, thread and count'],
 [('__thread_state::state_','running, stealing, sleeping, notified','include/exec/static_thread_pool.hpp')])
p('C11','bulk algorithms invoke every index exactly once with shared values',
 'bulk, bulk_chunked and bulk_unchunked call the function so that the invoked indices (or the union of the chunks) cover [0, shape) exactly once, for every shape including 0 and shapes smaller or larger than the number of workers, with the predecessor\'s values by reference, and complete with those values only after all calls returned. If any call throws, exactly one error completion with one of the thrown exceptions results, after all running calls have finished; error and stopped predecessors call nothing.',
 ['inputs','schedules','configurations'],'every shape, policy, number of workers, throwing index and context (inline, thread pool, parallel scheduler)',
 'Chunk arithmetic and the last-arrival protocol have corner cases (shape 0, 1, n±1, huge) that depend on the pool size and the completion order.',
 [D+'__bulk.hpp','include/exec/thread_pool_base.hpp','include/exec/static_thread_pool.hpp',D+'__parallel_scheduler.hpp',D+'__parallel_scheduler_default_impl.hpp'],
 [('even_share partitioning','include/exec/thread_pool_base.hpp'),('last-finisher counter','include/exec/thread_pool_base.hpp')],
 ['every function invocation (index, thread) and the completion'])
p('C12','Work-stealing queue: each element is taken exactly once',
 'For one owner pushing and popping and any number of concurrent thieves, each element pushed to the block-based work-stealing queue is returned by exactly one pop or steal; the owner\'s pops are LIFO with respect to what has not been stolen, steals never invent, lose or duplicate elements, and a push that reports no room stores nothing. What the pusher wrote before pushing is visible to whoever obtains the element.',
 ['schedules','histories','configurations'],'all interleavings of owner and thieves under the C++ memory model, all numbers and sizes of blocks, including wrap-around and reclamation',
 'The queue is lock-free with per-block acquire/release counters; errors need wrap-around plus a racing steal, or a weakly ordered machine.',
 ['include/exec/detail/bwos_lifo_queue.hpp'],[('per-block head/tail/steal counters','include/exec/detail/bwos_lifo_queue.hpp'),('takeover/grant of blocks','include/exec/detail/bwos_lifo_queue.hpp')],
 ['push/pop/steal call and return events'])
p('C13','Intrusive concurrent queues lose, duplicate or reorder nothing',
 'The multi-producer queues used by the schedulers hand every pushed node to the consumer exactly once, FIFO per producer, under any number of concurrent producers; a push reports emptiness correctly for wake-up purposes, the consumer may free or re-push a node as soon as it has been popped, and everything the producer wrote before the push is visible to the consumer.',
 ['schedules','histories'],'all interleavings of producers and consumer under the C++ memory model',
 'Single-threaded tests cannot see the window in which a node is swapped in but not linked, or missing acquire/release edges.',
 [D+'__atomic_intrusive_queue.hpp',D+'__intrusive_mpsc_queue.hpp',D+'__intrusive_queue.hpp',D+'__intrusive_slist.hpp','include/exec/detail/atomic_intrusive_queue.hpp'],
 [('exchange/CAS based push, batch pop',D+'__atomic_intrusive_queue.hpp'),('stub node',D+'__intrusive_mpsc_queue.hpp')],
 ['push/pop events with node identity'])
p('C14','Counting scopes admit, count and join exactly',
 'simple_counting_scope and counting_scope: an association is granted only while the scope is neither closed nor joined, never after close() has returned; join() completes exactly once, only after every granted association has been released and the scope was closed to new work, and then the scope may be destroyed at once, even by the join\'s continuation. Joining an unused scope completes, several joins all complete, and for counting_scope request_stop reaches every associated operation.',
 ['schedules','histories'],'all interleavings of associate, disassociate, close, join (several) and request_stop',
 'State transitions race on packed atomics; the tests walk them sequentially.',
 [D+'__counting_scopes.hpp',D+'__scope_concepts.hpp',D+'__associate.hpp'],
 [('packed count and scope state',D+'__counting_scopes.hpp'),('list of pending joins',D+'__counting_scopes.hpp')],
 ['association grant/release, close return, join completion, scope destruction'])
p('C15','spawn, spawn_future and associate keep scope and result in step',
 'spawn starts its sender at most once and only under a granted association, and releases every resource before releasing that association, so that a join never completes while spawned state is alive. spawn_future delivers the spawned operation\'s result exactly once to whoever connects the future; dropping the future (started or not) requests stop, never blocks, and the result is discarded; associate runs its sender only with an association and completes with stopped otherwise.',
 ['schedules','histories','fault_sequences'],'all interleavings of completion of the spawned work, consumption or abandonment of the future, stop requests, scope close/join, and allocation failure',
 'Three parties (spawned operation, future consumer, scope) race to be the one that cleans up; tests order them by hand.',
 [D+'__spawn.hpp',D+'__spawn_future.hpp',D+'__spawn_common.hpp',D+'__associate.hpp',D+'__scope_concepts.hpp'],
 [('future state machine',D+'__spawn_future.hpp'),('association released last',D+'__spawn.hpp')],
 ['start of the spawned work, result delivery, deallocation, association release, join completion'])
p('C16','async_scope, start_detached and start_now neither lose nor outlive work',
 'async_scope: on_empty completes only when no nested, spawned or future operation is outstanding, and does complete once that is so; nest and spawn pass results through unchanged; spawn_future delivers the result exactly once or drops it safely; request_stop reaches everything inside. start_detached and start_now run their operation exactly once and free its state exactly once after it completes, including when it completes inline, is stopped, or the environment supplies an allocator.',
 ['schedules','histories'],'all interleavings of nested completion, on_empty waiters, future consumption/abandonment and stop requests',
 'Reference counts, waiter lists and future state are updated from several threads under a mutex in non-obvious order.',
 ['include/exec/async_scope.hpp','include/exec/start_detached.hpp','include/exec/start_now.hpp'],
 [('active count and waiter list under a mutex','include/exec/async_scope.hpp'),('future step machine','include/exec/async_scope.hpp')],
 ['operation starts and completions, on_empty completion, deallocation'])
p('C17','split and ensure_started share one execution with every consumer',
 'A split sender runs its source at most once, no earlier than the first start, and delivers that one result to every copy that is started, before or after the source completes; ensure_started starts its source exactly once, immediately, and delivers the result to the one consumer. A consumer\'s stop request or destruction affects only that consumer until all have gone, then the source is asked to stop, and the shared state is freed exactly once by the last party.',
 ['schedules','histories'],'any number of consumers, any interleaving of their start, stop request and destruction with completion of the source',
 'The waiter list is completed by one thread while others register and unregister; the last-reference race is not reachable from sequential tests.',
 ['include/exec/detail/shared.hpp','include/exec/split.hpp','include/exec/ensure_started.hpp',D+'__intrusive_ptr.hpp'],
 [('shared state with waiter list and tombstone','include/exec/detail/shared.hpp'),('intrusive reference count',D+'__intrusive_ptr.hpp')],
 ['source starts, each consumer\'s completion, release of the shared state'])
p('C18','when_any, stop_when and fork_join: first completion wins, stop requests are forwarded, everything is awaited',
 'when_any delivers the result of the first child to complete, requests stop on the others, and completes only after all children have completed; with several candidates exactly one result is delivered and the others are dropped. A sender wrapped by stop_when sees a stop request exactly once when either the extra token or the receiver\'s token is stopped, and completes with its own result; unless_stop_requested starts its source unless stop was already requested, in which case it completes as stopped; fork_join runs its source once, hands the one result to every branch after the source\'s operation is gone, and joins the branches.',
 ['schedules','inputs'],'any number of children, completion orders and threads, and concurrent stop requests',
 'The first-completion race and the outer stop request race are schedules, not inputs.',
 ['include/exec/when_any.hpp',D+'__stop_when.hpp','include/exec/unless_stop_requested.hpp','include/exec/fork_join.hpp'],
 [('emplace-once flag and countdown','include/exec/when_any.hpp'),('fused stop token',D+'__stop_when.hpp')],
 ['child completions and stop requests, joined completion'])
p('C19','Coroutine tasks behave as senders and awaiters of senders',
 'Awaiting a sender in a coroutine task yields its values, rethrows its error, and unwinds the coroutine as stopped when it is stopped; a task used as a sender completes exactly once with the corresponding completion, resumes on its scheduler after every await, forwards stop requests into what it awaits, and destroys every frame, local and pending clean-up action exactly once in reverse order on all paths, including a task that is never started. At-exit and disposition actions run exactly once at the end of the coroutine and only for their disposition.',
 ['programs','schedules','inputs'],'every nesting of tasks and senders, every completion channel, every resuming thread',
 'Suspension/resumption across threads races with completion, and unwinding by stop takes an unusual path through nested promises.',
 ['include/exec/task.hpp',D+'__task.hpp',D+'__as_awaitable.hpp',D+'__connect_awaitable.hpp',D+'__with_awaitable_senders.hpp',D+'__awaitable.hpp','include/exec/at_coroutine_exit.hpp','include/exec/on_coro_disposition.hpp'],
 [('promise unhandled_stopped / continuation handles',D+'__with_awaitable_senders.hpp'),('sender awaitable with thread-id handshake',D+'__as_awaitable.hpp')],
 ['coroutine body steps, local destructors, completions, threads'])
p('C20','Sequence senders deliver every item once and then finish once',
 'For sequence senders, each item produced is delivered to the consumer exactly once and transformed as specified; an item sender\'s completion is awaited before its resources go away; the sequence completes exactly once and only after every item operation finished. Merging keeps the multiset of items and per-source order; the first item or source error (or a stop request) stops the remaining sources and wins.',
 ['programs','schedules','inputs'],'every sequence pipeline (iterate, transform_each, merge, merge_each, ignore_all_values, empty_sequence, any_sequence), number of items and sources, thread placement, and failing or stopping item',
 'merge_each is a concurrent state machine of nested sequences, items and errors; tests run it inline with a couple of items.',
 ['include/exec/sequence_senders.hpp','include/exec/sequence/iterate.hpp','include/exec/sequence/transform_each.hpp','include/exec/sequence/merge.hpp','include/exec/sequence/merge_each.hpp','include/exec/sequence/ignore_all_values.hpp','include/exec/sequence/empty_sequence.hpp','include/exec/sequence/any_sequence_of.hpp'],
 [('operation counting and error recording in merge_each','include/exec/sequence/merge_each.hpp')],
 ['item deliveries, item completions, sequence completion'])
p('C21','Timed scheduling never fires early, keeps deadline order and can be cancelled',
 'A timed schedule operation completes with value only when its deadline has been reached on its clock, in deadline order among pending timers, and does so within bounded steps after that; a stop request makes it complete promptly with stopped, exactly once, even when it races with expiry. The pending-timer heap keeps every inserted timer exactly once until it is popped or erased, and always yields a minimum.',
 ['schedules','inputs','histories'],'every set of deadlines (equal, past, far future), submitting threads, and races between expiry, insertion, cancellation and shutdown',
 'Races between the timer thread, insertion of an earlier deadline and cancellation are time-dependent; heap erase in the middle has many shapes.',
 ['include/exec/timed_thread_scheduler.hpp','include/exec/timed_scheduler.hpp','include/exec/detail/intrusive_heap.hpp',D+'__intrusive_mpsc_queue.hpp'],
 [('command queue into the timer thread','include/exec/timed_thread_scheduler.hpp'),('intrusive pairing heap','include/exec/detail/intrusive_heap.hpp')],
 ['virtual time of each completion, heap contents after each operation'])
p('C22','Type erasure is transparent',
 'Wrapping a sender, receiver, scheduler, sequence or sender function in the library\'s type-erased forms changes nothing observable: the same completion with the same data, forwarded stop requests and declared environment queries, the same scheduling context and equality, for small and large, copyable and move-only, throwing and non-throwing wrapped types. Copies, moves, swaps and self-assignment of the wrappers preserve the wrapped object and destroy it exactly once, using the given allocator.',
 ['programs','inputs','fault_sequences'],'every wrapped type layout (inline or heap), every completion, every sequence of wrapper operations',
 'Small-buffer versus heap storage, nested wrapping, and vtable forwarding multiply into more cases than tests list.',
 ['include/exec/any_sender_of.hpp',D+'__any.hpp',D+'__any_allocator.hpp',D+'__task_scheduler.hpp','include/exec/function.hpp',D+'__receiver_ref.hpp',D+'__sender_ref.hpp','include/exec/sequence/any_sequence_of.hpp'],
 [('small-buffer model with vtable',D+'__any.hpp')],
 ['completion of wrapped vs unwrapped operation, wrapped object lifetimes'])
p('C23','repeat and trampoline: exact iteration count in bounded stack',
 'repeat_n runs its child exactly n times, repeat_until until it first yields true, and both stop at once on error or stopped, reporting it unchanged; each iteration begins only after the previous operation has completed and been destroyed. The trampoline scheduler runs every scheduled operation exactly once and, together with the repeat algorithms, keeps stack use bounded however many iterations complete inline.',
 ['inputs','schedules'],'every iteration count, inline or asynchronous completion, stop and failure point, recursion depth',
 'Unbounded recursion shows only beyond the iteration counts tests use, and depends on the mix of inline and deferred completions.',
 ['include/exec/repeat_until.hpp','include/exec/repeat_n.hpp','include/exec/repeat_effect_until.hpp','include/exec/trampoline_scheduler.hpp'],
 [('trampoline depth and size limit','include/exec/trampoline_scheduler.hpp'),('re-connect of the child on each iteration','include/exec/repeat_until.hpp')],
 ['iterations, stack depth at each, completions'])
p('C24','Environments and queries reach the operation that asks for them',
 'A query made inside a nested operation sees the value supplied by the nearest enclosing write_env, algorithm or receiver environment that defines it; queries marked forwarding pass through every adaptor; forwarding views of an environment hide queries that are not; a forwarding query about a sender itself is answered by then, let, bulk, write_env, on, starts_on, continues_on, affine, sequence and the like as by the sender they adapt; joined environments prefer the operand the join is documented to prefer, and unanswered queries use their default. A sender whose attributes name a completion scheduler completes on that scheduler (given that it is started on the scheduler its environment names).',
 ['programs','inputs'],'every nesting of environment providers and consumers across the adaptors',
 'Tests check each adaptor\'s environment separately; shadowing and forwarding are properties of compositions.',
 [D+'__env.hpp',D+'__write_env.hpp',D+'__read_env.hpp',D+'__queries.hpp',D+'__query.hpp','include/exec/env.hpp',D+'__unstoppable.hpp'],
 [('environment joining and forwarding filters',D+'__env.hpp')],
 ['results of queries made by instrumented leaf senders'])
p('C25','Stop requests reach every running leaf and the operation still completes',
 'A stop request on the token of the outermost receiver becomes visible to every leaf operation currently running below it (except beneath unstoppable), at whatever time it is made relative to start and completion; the operation then completes exactly once, as soon as its leaves do, and no stop callback remains registered or runs after the completion.',
 ['schedules','programs'],'every composition and every instant of the request: before start, during start, between children, concurrently with completion',
 'Registration of the nested stop callbacks races with the request and with completion; tests request stop before start or after everything is set up.',
 [D+'__when_all.hpp',D+'__stop_when.hpp',D+'__unstoppable.hpp','include/exec/detail/shared.hpp',D+'__spawn_future.hpp',D+'__as_awaitable.hpp','include/exec/when_any.hpp','include/stdexec/stop_token.hpp'],
 [('nested stop sources chained by callbacks','include/stdexec/stop_token.hpp')],
 ['stop visibility at each leaf, callbacks after completion'])
p('C26','Completion signatures and noexcept promises are truthful',
 'The completions an operation actually delivers (channel, value types and reference categories) are among those its sender advertises for that environment, and an operation whose sender advertises no exception_ptr error never delivers one; operations and member functions advertised as noexcept never let an exception escape.  A sender whose attributes promise a completion behavior (inline, on the context that started it, or always asynchronous) completes that way.',
 ['programs','inputs'],'every composition and every runtime completion path, including throwing user code',
 'Signature tests compare computed lists; nothing compares them with what is delivered at run time over compositions.',
 [D+'__completion_signatures.hpp',D+'__get_completion_signatures.hpp',D+'__transform_completion_signatures.hpp',D+'__completion_signatures_of.hpp',D+'__then.hpp',D+'__let.hpp'],
 [('completion signature computation',D+'__transform_completion_signatures.hpp')],
 ['each delivered completion against the advertised list','where and when each completion arrives against the promised completion behavior'])
p('C27','io_uring context: every submission completes once, timers are honoured',
 'Every schedule, schedule_after and schedule_at operation started on a running io_uring context completes exactly once on the context\'s thread; timed ones not before their deadline nor only when some unrelated operation completes; a stop request on the operation or on the context completes them promptly as stopped; run_until_empty returns only when nothing is outstanding and run_until_stopped once stopped, from whichever threads the work was submitted.',
 ['schedules','histories'],'any number of submitting threads, submission bursts beyond the ring size, cancellations racing with completions',
 'Submission, wake-up through an eventfd and cancellation race with the kernel and the run loop.',
 ['include/exec/linux/io_uring_context.hpp','include/exec/linux/memory_mapped_region.hpp','include/exec/linux/safe_file_descriptor.hpp'],
 [('submission/completion queue wrappers','include/exec/linux/io_uring_context.hpp'),('in-flight counter and wake-up','include/exec/linux/io_uring_context.hpp')],
 ['completion events with thread and time'])
p('C28','parallel_scheduler forwards faithfully to its (replaceable) backend',
 'Scheduling and bulk work through parallel_scheduler, with the default or a replaced backend, completes exactly once with the backend\'s outcome, forwards the receiver\'s stop token, supplies suitably aligned storage that stays valid until the backend completes, invokes bulk functions over disjoint ranges covering the shape exactly, and turns an exception thrown by the bulk function into one error completion.',
 ['schedules','inputs','configurations'],'every shape and policy, backend chunking, completion thread, stop and failure point',
 'The backend boundary is type-erased and replaceable; tests use one backend behaviour.',
 [D+'__parallel_scheduler.hpp',D+'__parallel_scheduler_backend.hpp',D+'__parallel_scheduler_default_impl.hpp',D+'__parallel_scheduler_replacement_api.hpp','src/parallel_scheduler/parallel_scheduler.cpp',D+'__task_scheduler.hpp'],
 [('receiver proxies and pre-allocated storage',D+'__parallel_scheduler.hpp')],
 ['backend calls and proxy completions, function invocations'])
p('C29','Completion publishes: library and user data are free of data races',
 'Everything that happened in an operation before its completion happens-before the receiver\'s handling of it and, through joins, scopes, queues and futures, before whatever the consumer does next: under the C++ memory model no execution of correctly used library facilities contains a data race, in library state or in user data handed from one stage to the next.',
 ['schedules','programs'],'all interleavings and all weak-memory behaviours allowed by the C++ memory model for the library\'s concurrent facilities',
 'On x86 most missing acquire/release orders are invisible to tests; only a happens-before monitor sees them.',
 ['include/exec/static_thread_pool.hpp',D+'__when_all.hpp','include/stdexec/stop_token.hpp',D+'__intrusive_ptr.hpp','include/exec/detail/shared.hpp',D+'__spawn_future.hpp','include/exec/async_scope.hpp',D+'__run_loop.hpp',D+'__counting_scopes.hpp','include/exec/sequence/merge_each.hpp',D+'__as_awaitable.hpp'],
 [('acquire/release orders on the counters and state words','include/exec/static_thread_pool.hpp')],
 ['every memory access with its vector clock'])
p('C30','Scope guards, finally and frame allocation helpers clean up exactly once',
 'finally runs its clean-up sender exactly once after the source completed, whatever the channel, and then delivers the source\'s original completion (or the clean-up\'s failure); scope guards run their action exactly once unless dismissed; frame allocators and memory-resource adaptors return every block to the resource it came from with the same size and alignment, and never hand out overlapping or misaligned storage.',
 ['programs','inputs','fault_sequences'],'every completion path of source and clean-up, every nesting, allocation sizes and alignments',
 'Clean-up on error and stopped paths and mixed sizes/alignments are rarely tested.',
 [D+'__finally.hpp','include/exec/finally.hpp','include/exec/scope.hpp',D+'__scope.hpp','include/exec/__frame_allocator.hpp','include/exec/__memory_resource_adaptor.hpp','include/exec/get_frame_allocator.hpp',D+'__any_allocator.hpp'],
 [('result stored while the clean-up runs',D+'__finally.hpp'),('block header with resource pointer','include/exec/__frame_allocator.hpp')],
 ['clean-up executions, allocator calls'])
p('C31','Asio operations become senders that complete once, with the operation\'s own outcome',
 'An operation started through completion_token or use_sender is initiated only by start, hands the receiver\'s allocator to Asio, and completes its receiver exactly once, after its initiation and every intermediate handler have returned: with the values of the invoked handler converted as its signature says, with the first exception that the initiation, an intermediate handler, the executor or a conversion threw, or with stopped when the handler is dropped. A stop request reaches the operation as at most one cancellation, excluded from its handlers, never after the completion, and no callback stays registered; use_sender turns cancellation codes into stopped and every other error code into an exception carrying it. Work scheduled on asio_thread_pool runs exactly once on one of its threads.',
 ['schedules','inputs','fault_sequences'],'every way in which an initiating function, its intermediate handlers and executor may invoke, pass on or drop the handler or throw, against stop requests at any time',
 'The unit tests drive single timers and posts; parallel handlers, exceptions after the handler was passed on and races of cancellation with completion need chosen schedules.',
 ['include/exec/asio/completion_token.hpp','include/exec/asio/use_sender.hpp','include/exec/asio/asio_thread_pool.hpp','include/exec/asio/as_default_on.hpp','include/exec/asio/executor_with_default.hpp'],
 [('frames of running handlers and the recursive mutex','include/exec/asio/completion_token.hpp')],
 ['handler invocations, cancellations, executor calls, completions'])
out='\n'.join(json.dumps(x,ensure_ascii=False) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(out)
print(len(P))
