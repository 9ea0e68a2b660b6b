#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (run by hand after editing).
import json, os
P = []
I = "include/asyncpp/"
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": I + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

add("C01", "Async mutex: exclusion, FIFO hand-off, no lost waiter",
    "At any moment at most one coroutine or caller owns an asyncpp::mutex, and everything written by one owner before unlock is visible (race-free) to the next owner. "
    "Every unlock with waiters queued hands ownership to the waiter that has been suspended longest, so no lock request is lost, granted twice or overtaken by a later one, and try_lock succeeds exactly when the mutex is free. "
    "A mutex_lock owns the mutex exactly while is_locked() is true, releases it exactly once, and transfers that ownership on move construction and move assignment.",
    ["schedules", "histories", "programs"],
    "every interleaving of lock/lock_scoped/try_lock/unlock and of mutex_lock construct/move/unlock/destroy from any number of threads, including weak compare-exchange failures",
    "mutex.cpp drives four single-threaded scripts; no test has two threads inside lock()/unlock(), so the lock-free queue's interleavings, CAS retries and memory orders are never exercised.",
    ["mutex.h"], [("lock-free waiter stack reversed into an owner-private FIFO list", "mutex.h mutex::unlock"), ("CAS loop", "mutex.h lock_awaiter::await_suspend"), ("RAII guard", "mutex.h mutex_lock")],
    ["return of co_await lock()/lock_scoped()", "try_lock() result", "unlock() call/return", "mutex_lock::is_locked()"],
    [("m_state", "unlocked / locked / pointer to newest waiter", "mutex.h"), ("m_awaiters", "FIFO list owned by the lock holder", "mutex.h")])
add("C02", "Single-consumer events: no lost or duplicated wakeup",
    "A coroutine awaiting a single_consumer_event is resumed exactly once, as soon as the event is or becomes set, and never while the event has not been set since the last reset; the manual event stays set until reset(). "
    "For single_consumer_auto_reset_event each set() either resumes the one waiting coroutine or leaves the event set for exactly one later wait, so consecutive sets collapse but none is lost, even when several threads call set() or reset() concurrently. "
    "set() returns true exactly when it resumed a waiting coroutine, and data written before set() is visible to the resumed coroutine.",
    ["schedules", "histories"],
    "every interleaving of set/reset/is_set from any number of threads with one waiter at a time",
    "event.cpp is single-threaded: set and wait never overlap, so the window between testing and publishing state is unreachable.",
    ["event.h"], [("single atomic state word", "event.h single_consumer_event::m_state"), ("exchange in set()", "event.h single_consumer_event::set, single_consumer_auto_reset_event::set"), ("CAS in await_suspend", "event.h awaiter::await_suspend")],
    ["resumption after co_await", "set() return value", "is_set()/is_awaited()"])
add("C03", "Multi-consumer events wake all waiters exactly once",
    "set() on a multi_consumer_event resumes every coroutine waiting at that instant exactly once and lets every later wait pass until reset(); set() on a multi_consumer_auto_reset_event resumes every waiting coroutine exactly once and, if none was waiting, lets exactly one later wait pass. "
    "No waiter is lost, resumed twice or resumed without a set, set() returns true exactly when a coroutine was waiting, and data written before set() is visible to all coroutines it lets through.",
    ["schedules", "histories"],
    "every interleaving of set/reset/wait from any number of threads and waiters, including spurious weak compare-exchange failures",
    "event.cpp uses at most a few waiters on one thread; concurrent registration, registration racing with set, and CAS retry paths are never taken on x86 with one thread.",
    ["event.h"], [("awaiter list pushed by CAS", "event.h multi_consumer_event::awaiter::await_suspend, multi_consumer_auto_reset_event::awaiter::await_suspend"), ("list detached by exchange/CAS", "event.h multi_consumer_event::set, multi_consumer_auto_reset_event::set")],
    ["resumption after co_await", "set() return value", "is_set()/is_awaited()"])
add("C04", "Latch opens exactly when its count reaches zero",
    "A latch is ready, and its waiters resume, exactly when the amounts decremented sum to its initial value: never before, and for every waiter, whether it started waiting before or after that point; an initial count of zero is ready at once. "
    "Everything written before a decrement is visible to every coroutine the latch lets through.",
    ["schedules", "inputs"],
    "every initial count, every split of it into decrement(n) calls on any threads, every number and timing of waiters",
    "No test includes latch.h at all.",
    ["latch.h", "event.h"], [("atomic counter", "latch.h latch::decrement"), ("multi_consumer_event", "latch.h latch::m_event")],
    ["is_ready()", "resumption after co_await latch / wait()"])
add("C05", "Channel delivers each accepted value exactly once, in order",
    "Every value whose write() yields true or try_write() returns true is returned by exactly one read()/try_read(), and every value read was so accepted: no loss, duplication or invention, and suspended readers and writers are each served in the order they suspended. "
    "try_read/try_write succeed exactly when a counterpart is suspended, a read and a write are never left suspended together, and an operation that throws because a value cannot be moved leaves the channel and everyone suspended on it as they were.",
    ["schedules", "histories"],
    "every interleaving of read/try_read/write/try_write on any number of threads, with resumption inline or on dispatchers",
    "channel.cpp is single-threaded, so two parties never race to match, and neither memory ordering of the handed-over value nor awaiter lifetime is exercised.",
    ["channel.h"], [("mutex-protected reader and writer lists", "channel.h channel::read_awaiter::await_suspend, channel::write_awaiter::await_suspend"), ("unhook then resume", "channel.h channel::try_read, channel::try_write")],
    ["result of co_await read()/write()", "try_read()/try_write() result"])
add("C06", "Closing a channel releases everybody and stays closed",
    "close() resumes every suspended reader with nullopt and every suspended writer with false, and after close() has begun no operation stays suspended: once is_closed() has returned true every read yields nullopt and every write yields false without suspending. "
    "Closing is idempotent and safe from any thread and from within resumed coroutines, which may wait for other users of the channel or destroy it, and a value that a writer was told was not delivered is never read.",
    ["schedules", "histories"],
    "every interleaving of close() with reads and writes in any phase (before ready test, between ready test and suspension, suspended)",
    "channel.cpp closes only at quiescent points; the window between the closed-test and suspension is unreachable from one thread.",
    ["channel.h"], [("closed flag re-checked under the lock", "channel.h await_suspend"), ("drain loop", "channel.h channel::close")],
    ["result of co_await read()/write()", "is_closed()"])
add("C07", "Async queue is a bounded linearizable FIFO",
    "Concurrent push/try_push/try_emplace and pop/try_pop behave like one FIFO queue: values come out in the order their pushes took effect, each exactly once, never more than the configured capacity is stored, and size()/empty() report stored plus suspended pushes. "
    "A pop suspends only while nothing is available and a push only while the queue is full; suspended poppers and pushers are served in order of suspension and none stays suspended once it could proceed; with a capacity of zero values pass directly from a push to a pop; a push that throws because its value cannot be constructed leaves the queue and everyone suspended on it as they were.",
    ["schedules", "histories", "configurations"],
    "every capacity from one up, every interleaving of the operations on any number of threads, with inline and dispatcher resumption",
    "queue.cpp checks single-threaded scripts; the lock handed from await_ready to await_suspend, concurrent wakeups and the full-queue refill path are never raced.",
    ["queue.h"], [("mutex held from await_ready into await_suspend", "queue.h pop_awaiter/push_awaiter"), ("refill from first suspended pusher", "queue.h queue::try_pop, pop_awaiter::await_ready")],
    ["results of co_await push()/pop()", "try_* results", "size()/empty()"])
add("C08", "Queue clear and move release waiters without losing items",
    "clear() empties the queue and resumes every suspended push with false, and such a value is never popped. "
    "Moving a queue transfers its items, capacity, fallback dispatcher, and suspended pushers and poppers to the target, which serves them as before; the operations previously suspended on an assigned-to queue are all resumed exactly once as failed (pop: nullopt, push: false), and values whose destructor uses the queue do not deadlock it.",
    ["histories", "schedules", "programs"],
    "every sequence of push/pop/clear/move-construct/move-assign, with pending operations in every combination, and clear() racing with other operations",
    "queue.cpp covers a few fixed move/clear cases with one or two waiters.",
    ["queue.h"], [("list transfer", "queue.h queue::queue(queue&&), queue::operator=(queue&&)"), ("drain", "queue.h queue::clear")],
    ["results of co_await push()/pop()", "size()/empty()"])
add("C09", "threadsafe_queue is a linearizable FIFO",
    "Concurrent operations on one threadsafe_queue (push, emplace, pop, copy and move construction and assignment) take effect one at a time as on a plain FIFO queue: each pushed element is popped at most once and in order, pop returns empty only when the queue was empty, and copies and moves transfer a consistent snapshot without deadlock.",
    ["schedules", "histories"],
    "every interleaving of the operations on any number of threads, including a = b concurrent with b = a",
    "No test includes threadsafe_queue.h at all.",
    ["threadsafe_queue.h"], [("mutex around std::queue", "threadsafe_queue.h")],
    ["return values of pop()", "contents after copy/move"])
add("C10", "Promise settles once and every observer sees that outcome",
    "A promise changes from pending to fulfilled or rejected exactly once: of all racing fulfil and reject attempts exactly one succeeds, and every get, timed get, try_get, await and callback, before or after, observes exactly that value or exception, fully constructed. "
    "Every registered callback of the matching kind and every suspended coroutine runs exactly once, callbacks of the other kind never run, a blocked get() always returns once the promise is settled, also when callbacks or their destructors use the promise or drop its last handle; and an attempt that throws because its value cannot be constructed leaves the promise pending.",
    ["schedules", "histories"],
    "every interleaving of fulfilment, rejection, registration, awaiting and blocking on any number of threads and copies of the promise",
    "promise.cpp settles from one thread; registration racing with settlement and rival settlers never overlap.",
    ["promise.h", "ref.h"], [("value and callback lists under one mutex", "promise.h promise_state"), ("condition variable for blocking get", "promise.h promise::get")],
    ["callback invocations", "results of get/try_get/co_await", "try_fulfill/try_reject results"])
add("C11", "Promise combinators settle with the right outcome, once",
    "promise_first settles with the outcome of an argument that settled first; promise_first_successful is fulfilled with an argument's value whenever any argument is fulfilled, and is rejected, with the exception of the last to fail, only if all are rejected; promise_all is fulfilled exactly when all arguments have settled, fulfilled or rejected (at once if there are none). "
    "Each result settles exactly once and as soon as its condition is met, whatever order or threads the arguments settle on.",
    ["schedules", "inputs"],
    "every number of arguments, every assignment of outcomes, every settling order and overlap, arguments settled before or after combination",
    "promise.cpp checks a few sequential orders; the last-rejection/first-fulfilment race needs two threads.",
    ["promise.h"], [("callbacks on each argument", "promise.h promise_first, promise_first_successful, promise_all"), ("shared atomic counter", "promise.h promise_first_successful, promise_all")],
    ["result promise state and value"])
add("C12", "Thread pool runs every accepted task exactly once, on its threads",
    "Every task accepted by thread_pool::push runs exactly once, on a worker thread of that same pool with dispatcher::current() equal to the pool, no matter whether it was pushed from outside, from the pool's own tasks or from another pool's tasks. "
    "Growing, shrinking (also to zero) and destroying the pool while tasks are being pushed and run neither loses, duplicates nor strands a task; shrinking and destruction return after the retired workers have finished everything they had; work in one worker's queue is taken over by idle workers so that no task waits forever behind a blocked one. A task is destroyed after it ran, when its destructor may push again; growing that throws because a thread cannot be created leaves the pool as it was; and pushing an empty function has no effect.",
    ["schedules", "histories", "configurations"],
    "every interleaving of push, resize, destruction and task execution, any pool sizes, tasks that push, block or resize-race",
    "thread_pool.cpp pushes a handful of tasks and resizes at idle; races of push or steal against resize depend on timing that a test run practically never produces.",
    ["thread_pool.h"], [("per-thread queues with stealing", "thread_pool.h thread_state"), ("valid/target size protocol", "thread_pool.h thread_pool::resize, thread_pool::push")],
    ["task execution (thread, current())", "push() return or exception", "resize()/destructor return", "size()"])
add("C13", "simple_dispatcher runs tasks in order and always stops",
    "simple_dispatcher executes pushed tasks one at a time in push order on the thread inside run(), each exactly once, with dispatcher::current() equal to it while inside run() and restored afterwards, also when run() is nested in another dispatcher or a task throws; an exception leaves run() to its caller and the tasks behind it stay queued for the next run(). "
    "Once stop() has been called, run() returns after at most the task in progress, whatever the timing of stop() and push(); a sleeping run() is always woken by push(); and async_main runs its task to completion on such a dispatcher and returns its result. Pushing an empty function has no effect.",
    ["schedules", "histories"],
    "every interleaving of push/stop from any threads (including from tasks) with run(), including injected spurious wakeups",
    "Only used incidentally in tests, always with stop() called from a task on the same thread.",
    ["simple_dispatcher.h", "dispatcher.h", "async_main.h"], [("mutex + condition variable", "simple_dispatcher.h simple_dispatcher::run, stop, push"), ("thread-local current dispatcher", "dispatcher.h dispatcher::current")],
    ["task execution", "run() return", "dispatcher::current()"])
add("C14", "Timer fires every entry exactly once and never early",
    "Every callback scheduled on a timer is invoked exactly once, on the timer's thread: with true no earlier than its time and without unbounded delay after it, in order of due time among pending entries of one kind (with or without stop token), or with false if it was cancelled or the timer was destroyed first; a pushed function runs exactly once. "
    "wait() resumes the coroutine under the same rules, yielding that flag, and work pushed or scheduled from callbacks is handled alike; pushed functions that keep pushing, or callbacks that keep scheduling themselves anew, do not hold up other work of the timer. Time points may be given on any clock, empty functions have no effect, and a duration or time point awaited directly waits on the process-wide timer.",
    ["schedules", "histories", "inputs"],
    "every mix of past, equal and future due times on both schedules, any threads scheduling, destruction at any moment, callbacks that schedule more",
    "timer.cpp uses a few real-time delays of milliseconds and one timer thread at idle.",
    ["timer.h"], [("two ordered multisets", "timer.h timer::m_scheduled_set, m_scheduled_cancellable_set"), ("timer thread loop and shutdown drain", "timer.h timer::run")],
    ["callback invocations (time, flag, thread)", "result of co_await wait()"])
add("C15", "Timer cancellation is exactly-once, safe and deadlock-free",
    "Requesting stop on the token of a scheduled entry or wait, before, during or after scheduling, at the same moment it fires or while the timer shuts down, and from any thread including the timer's, results in exactly one invocation of that callback: false if cancellation won, true if the timeout did. "
    "A cancelled entry that is not yet due is called back promptly instead of at its due time, and neither request_stop(), schedule(), the timer thread nor the destructor ever deadlocks, and no entry is leaked or touched after it is freed.",
    ["schedules", "histories"],
    "every interleaving of schedule/wait with a stop token, request_stop, firing and destruction, including shared tokens across many entries",
    "timer.cpp cancels once before and once after scheduling from the test thread; the races among stop callback, firing and shutdown are never hit.",
    ["timer.h", "stop_token.h"], [("stop callback extracting the entry under the timer's lock", "timer.h cancel_callback"), ("construction flag", "timer.h cancellable_scheduled_entry"), ("shutdown drain", "timer.h timer::run")],
    ["callback invocations (flag, time)", "return of request_stop()/schedule()/destructor"])
add("C16", "Stop-token polyfill behaves like std::stop_token",
    "The library's own stop_source/stop_token/stop_callback (used where the standard one is missing) is indistinguishable from the C++20 standard: one and only one request_stop returns true, each registered callback runs exactly once if and only if stop is requested before it is deregistered, and runs immediately when registered after the request. "
    "Destroying a callback waits for its concurrent execution on another thread but does not block when done from inside the callback itself; stop_requested/stop_possible follow the standard through every copy, move, swap and destruction of sources and tokens, and state is freed exactly once.",
    ["schedules", "histories", "programs"],
    "every program over sources/tokens/callbacks and every interleaving of request_stop with registration, deregistration and copies",
    "The tests build against libstdc++'s std::stop_token, so no test ever compiles the polyfill.",
    ["stop_token.h"], [("shared refcounted state with spin bit", "stop_token.h")],
    ["return values", "callback invocations (thread, count)", "return of callback destructor"])
add("C17", "task starts lazily, resumes its awaiter once, passes the outcome",
    "A task's body does not run before the task is awaited, then runs to completion exactly once, resumes its awaiter exactly once, and delivers exactly the returned value or the exception that escaped, also when awaiting tasks chain arbitrarily deep or complete on other threads. "
    "A task object's coroutine, its parameters and its result are destroyed exactly once, whether it was awaited, never started or moved from.",
    ["programs", "schedules", "inputs"],
    "every tree of nested tasks with any mix of copyable, move-only and void results, exceptions, suspension points and resuming threads; destruction at any point before start or after completion",
    "task.cpp covers one-level value/exception cases on one thread.",
    ["task.h"], [("symmetric transfer to the continuation", "task.h"), ("result variant", "task.h promise_type")],
    ["body start/end", "awaiter resumption", "co_await result", "object lifetimes"])
add("C18", "Generators yield exactly the body's sequence, lazily",
    "Iterating a generator produces exactly the values its body yields, in order, running the body only as far as the iteration demands; an exception from the body surfaces from begin() or ++ exactly there, and values arrive without being copied, moved or altered beyond what the caller does. "
    "fmap applies its function to each value once, in order and on demand, and the body's locals are destroyed exactly once whenever the generator is abandoned, exhausted, moved or moved over.",
    ["programs", "inputs"],
    "every body (any yields, throws, nested generators) and every consumption pattern (partial, full, moved, early destroy)",
    "generator.cpp checks a handful of fixed integer sequences.",
    ["generator.h"], [("promise holding a pointer to the yielded value", "generator.h")],
    ["values seen", "body progress", "exception site", "object lifetimes"])
add("C19", "Async generators hand over each value once across suspensions",
    "Consuming an async_generator with begin()/++ yields exactly the values its body yields, in order, whether the body or consumer suspends and resumes inline or on other threads, and the body runs only between a request and the value that answers it. "
    "The consumer is resumed exactly once per request, end is reported exactly when the body finishes, an exception of the body is rethrown at the request that hit it, and everything is destroyed exactly once when the generator is exhausted, abandoned or moved. Long streams and nested generators are iterated in constant stack space.",
    ["programs", "schedules", "inputs"],
    "every body/consumer pair with any suspension points, resuming threads, exceptions and abandonment points",
    "async_generator.cpp covers few sequential cases.",
    ["async_generator.h"], [("symmetric transfer between body and consumer", "async_generator.h")],
    ["values seen", "resumption counts", "exception site", "object lifetimes"])
add("C20", "Fire-and-forget tasks run once and free themselves once",
    "An eager fire-and-forget task runs at once, a lazy one only on start(); either runs exactly once however many copies or moves of its handle exist and call start(), continues after all handles are gone, and its frame and parameters are destroyed exactly once, after completion or when the last handle of a never-started task goes, from whatever threads, also if the body destroys the object holding its own handle. "
    "An exception escaping the body goes to the exception_policy selected last: the handler is called once inside the catch, ignore swallows it, terminate or no policy ends the program.",
    ["programs", "schedules"],
    "every sequence of copy/move/assign/start/destroy of handles racing with the body finishing on another thread; every policy selection",
    "fire_and_forget.cpp uses one handle on one thread and does not race completion against handle destruction, nor use exception_policy::ignore.",
    ["fire_and_forget.h", "policy.h"], [("atomic reference count shared by handles and body", "fire_and_forget.h promise_type"), ("policy via await_transform", "fire_and_forget.h, policy.h")],
    ["body start/end", "handler invocations", "frame and parameter destruction"])
add("C21", "Launch scopes: join waits for all children and resumes once",
    "async_launch_scope runs each launched or invoked child immediately and exactly once on a copy of the awaitable or callable it was given, with the arguments exactly as passed, and join() completes once and only after every child launched before it finished, whichever threads children finish on and however children launch further children (a child destroyed while suspended counts as finished); it does not suspend when nothing is in flight. "
    "join_future() becomes ready under the same rule, inflight_coroutines()/all_done() return to zero/true, a second concurrent join reports logic_error instead of hanging or stealing the first, and the scope may be joined again and be destroyed as soon as join completed.",
    ["schedules", "programs"],
    "every set of children completing inline or on any threads at any moment relative to join(), repeated joins, immediate destruction of the scope after join",
    "launch.cpp finishes children by hand from the test thread at chosen moments, so completion never races with join.",
    ["launch.h"], [("atomic child counter and continuation pointer", "launch.h async_launch_scope")],
    ["child start/end", "resumption after join", "join_future readiness"])
add("C22", "Blocking bridges return exactly the coroutine's outcome",
    "as_promise starts the given awaitable immediately and its future becomes ready exactly once, with the value or exception the awaitable produced, whether it completes synchronously or later on any thread; launch likewise runs its awaitable to completion exactly once. "
    "The awaitable is kept alive until it completed, destroyed exactly once, and its effects are visible to the thread that waited.",
    ["schedules", "programs", "inputs"],
    "every awaitable kind (task, promise, event, timer wait, custom), outcome kind and completing thread",
    "Tests use as_promise only as plumbing with results that complete on the same thread.",
    ["sync_wait.h", "launch.h", "detail/concepts.h"], [("eager fire-and-forget wrapper holding a std::promise", "sync_wait.h as_promise"), ("launch_task", "launch.h launch")],
    ["future result", "awaitable lifetime"])
add("C23", "Reference counting frees each object once, after its last use",
    "An object managed by ref handles is destroyed exactly once, when and only when its last reference goes, with every thread's earlier accesses ordered before the destructor. "
    "Copy, move, assignment (also to itself, its own pointee or an object reachable only through the old pointee), reset, release, swap, adopt and casts each change the count by exactly what they say and never touch an object after it is freed.",
    ["schedules", "programs", "histories"],
    "every program over handles (aliasing, cyclic-list traversal, self-assignment) and every interleaving of copies and drops on any number of threads",
    "ref.cpp counts single-threaded copies; neither ordering before destruction nor aliasing assignments are tested.",
    ["ref.h"], [("atomic count policy", "ref.h thread_safe_refcount, intrusive_refcount::remove_ref"), ("handle operations", "ref.h ref")],
    ["destructor execution", "pointer values", "use_count"])
add("C24", "atomic_ref is a linearizable shared pointer cell",
    "Concurrent load, store, exchange, reset and assignment on an atomic_ref behave like an atomic cell holding a counted reference: a load returns a value that was current at some moment during the call, and the object it returns is alive while held. "
    "No reference is leaked or dropped twice, and no operation blocks forever.",
    ["schedules", "histories"],
    "every interleaving of the operations on any number of threads",
    "ref.cpp exercises atomic_ref from a single thread.",
    ["ref.h"], [("pointer with lock bit", "ref.h atomic_ref")],
    ["loaded/exchanged pointers", "destructor execution"])
add("C25", "Signal calls the right subscribers, in order, under reentrancy",
    "Invoking a signal calls each subscriber connected before the emission began and not removed before its turn exactly once, in subscription order (prepended ones first), with the given arguments, through the signal's own copy of the callable; subscribers added during an emission are first called by the next one, removed ones are not called again, and the returned count equals the calls made. "
    "remove, disconnect and scoped handles each drop only their own subscriber, once; size, empty, valid and owns_handle tell the truth; and all of this holds when subscribers append, prepend, remove, disconnect or emit recursively, and after the signal is moved, assigned or destroyed. "
    "Once a removed subscriber has no handle left and the signal was emitted again, its callback is destroyed: removed subscribers do not pile up.",
    ["programs", "histories"],
    "every program of append/prepend/remove/disconnect/emit/move/destroy, including actions taken from inside subscribers at any nesting",
    "signal.cpp checks flat scripts with few subscribers; removal or insertion during emission and removal of adjacent subscribers in combination are not covered.",
    ["signal.h", "ref.h"], [("doubly linked list with emission counter", "signal.h signal")],
    ["subscriber invocations", "emission return value", "handle state queries"])
add("C26", "Signals and signal_manager are thread-safe",
    "With threads concurrently emitting, subscribing, removing and disconnecting on a thread-safe signal or signal_manager (including shrink_to_fit), every subscriber connected throughout an emission is called exactly once by it, none is called by emissions that begin after its removal returned, and no subscription is lost; moving one while others subscribe to it does not corrupt it. "
    "A signal_manager delivers an event only to subscribers of that event, and no operation races on memory, touches freed subscribers or deadlocks, also when called from inside subscribers or their destructors.",
    ["schedules", "histories"],
    "every interleaving of the operations on any number of threads and events",
    "signal.cpp has no concurrent test.",
    ["signal.h"], [("mutex around list edits, refcounted nodes during iteration", "signal.h signal::operator()"), ("shared mutex around the event map", "signal.h signal_manager")],
    ["subscriber invocations", "return values"])
add("C27", "Fibers run like coroutines: await, resume and finish exactly once",
    "A fiber's callable starts when the fiber is first awaited, runs to completion exactly once, and passes its return value to its awaiter, which is resumed exactly once (awaiting again later delivers the value again, a second await while it runs and an await of an empty fiber are refused); fib_await inside it suspends the fiber until the awaited operation completes, on whatever thread that happens, and returns that operation's value or exception. "
    "Nested fibers and mixed coroutine/fiber chains behave likewise, and a fiber object, its stack and its captured state are released exactly once whether it finished, was never started, was moved or is destroyed or replaced while suspended, even if it owns the object that holds it: then its stack is unwound, it never goes on and nobody awaiting it is resumed.",
    ["schedules", "programs"],
    "every program of nested fibers and coroutines with any awaited operations, resuming threads and exceptions",
    "fiber.cpp runs a few sequential cases; resumption from another thread racing with suspension is never exercised.",
    ["fiber.h"], [("coroutine-frame shaped fiber handle", "fiber.h"), ("await on the fiber's stack then switch", "fiber.h fiber_await")],
    ["callable start/end", "co_await fiber result", "fiber_await result"])
add("C28", "Fiber switches preserve the execution context",
    "Across every suspension and resumption a fiber keeps its local variables, callee-saved registers, floating-point control settings and exception-handling state (also when it awaits inside a catch block) intact, starts with the usual floating-point environment, and does not disturb those of the context it switches from. "
    "Its stack is properly aligned, separate from all other live stacks and usable up to the requested size, and running over either end hits a guard page instead of other memory; if stack or guard pages cannot be had, std::bad_alloc is thrown and nothing leaks. In builds with AddressSanitizer or ThreadSanitizer the sanitizer is told about the switches.",
    ["programs", "schedules", "configurations"],
    "every pattern of switches among fibers and threads, any stack sizes, any live register/FP state at the switch points",
    "fiber.cpp checks only results of tiny functions; a register or control word clobbered at a switch shows only under particular register pressure.",
    ["fiber.h"], [("assembly context switch", "fiber.h detail::fiber_swap_context and make_context"), ("mmap stack with guard", "fiber.h detail stack allocation")],
    ["local and register canaries around switches", "FP control words", "stack mappings"])
add("C29", "Coroutine frames come from, and return to, the given allocator",
    "Every coroutine type that accepts an allocator obtains its frame only through that allocator (the one passed as last argument, or a default constructed one if it is stateless) and returns it exactly once with the same size and an equal allocator, for every frame size and allocator alignment or statefulness. "
    "Frames are correctly aligned, and allocator copies made for this are themselves destroyed.",
    ["programs", "configurations", "inputs"],
    "every allocator (stateless, stateful of any size, refcounted) and every task/generator/fire-and-forget/launch coroutine with any frame size",
    "Only one debug allocator with one state layout is used by the tests.",
    ["detail/promise_allocator_base.h", "task.h", "generator.h", "async_generator.h", "fire_and_forget.h", "launch.h"], [("allocator stored next to the frame", "detail/promise_allocator_base.h")],
    ["allocate/deallocate calls", "frame address alignment"])
add("C30", "Coroutines resume on the dispatcher they asked for",
    "A coroutine that suspends on an event, latch, channel, queue or defer is resumed on the dispatcher named by wait(d)/resume_on(d)/defer(d), else for plain co_await on the dispatcher that was current when it suspended, else on the fallback given to set() or to the queue, and only inline in the waking call if there is none; a wait that need not suspend continues where it is, and defer(nullptr) does nothing. "
    "dispatcher::current() names the dispatcher running the code, on every provided dispatcher, and is null elsewhere.",
    ["programs", "configurations", "schedules"],
    "every primitive, every combination of explicit, current, fallback and absent dispatcher, from any thread",
    "Tests mostly run without a dispatcher or with one, never distinguishing which of several candidates was used.",
    ["event.h", "latch.h", "channel.h", "queue.h", "defer.h", "dispatcher.h", "timer.h"], [("dispatcher pointer captured in the awaiter", "event.h awaiter; channel.h; queue.h"), ("thread-local current dispatcher", "dispatcher.h")],
    ["dispatcher::current() and thread at resumption", "pushes observed by recording dispatchers"])
add("C31", "Pointer tagging round-trips every aligned pointer and tag",
    "For every pointer aligned for its type and every tag smaller than that alignment, given as an integer or a scoped enumerator, untagging the tagged pointer yields exactly that pointer, with its constness, and that tag; an integer tag that does not fit is refused at compile time. "
    "For a set of candidate types the tag read back is the one put in whenever it fits the smallest alignment among them, whichever type was tagged.",
    ["inputs", "programs"],
    "every pointer value (null and high addresses included), alignment, tag and type set",
    "ptr_tag.cpp checks a few constants.",
    ["ptr_tag.h"], [("low-bit packing", "ptr_tag.h")],
    ["returned pointer and tag"])
add("C32", "scope_guard runs its action exactly once unless disengaged",
    "A scope_guard invokes its callable exactly once when it goes out of scope while engaged, by return, exception or coroutine destruction, and not at all when disengaged; engage/disengage may be toggled any number of times with only the last state counting.",
    ["programs"],
    "every sequence of engage/disengage and every way of leaving the scope",
    "scope_guard.cpp checks the basic paths only.",
    ["scope_guard.h"], [("engaged flag", "scope_guard.h")],
    ["callable invocations"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
print(len(P))
