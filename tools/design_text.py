# Prose of DESIGN.md; tables are generated from props.py, properties.jsonl, known_findings.txt and seeded/.
HEAD = r"""# Runtime monitoring of asyncpp - design

asyncpp is a header-only C++20 coroutine library. Almost everything it promises is about *schedules*
(lock-free hand-off, wake-ups, cancellation, shutdown) or about *programs* (reentrancy, lifetimes,
exceptions, odd argument types). Every property is decided by executing the real headers of
/repo/include under a controlled or hostile environment while an oracle judges the execution. Nothing is
modelled: the code that runs is the code in /repo, compiled anew whenever it changes (content hash).

All 32 properties are claimed, none is "not applicable". All are claimed at level *exploration*: they held
on everything explored, which is a sample of programs and schedules, not all of them.

(This file is generated by tools/gen_design.py from tools/design_text.py, props.py, known_findings.txt and
seeded/*/meta.json, so that its tables stay in step with what runs.)

## 1. Execution engines

**vrt** (rt/vrt.h, rt/vrt.cpp; variants dbg, rel, poly, polyrel). Scenarios are compiled with
`g++ -fsanitize=thread`: every plain access and every atomic operation of the library is instrumented. They are
*not* linked with libtsan but with our own runtime, which implements that ABI and interposes
pthread mutex/cond/rwlock/once/create/join, sleeps, clocks, futex calls, malloc/free/mmap and static guards:
 - real threads of the scenario run one at a time; at every atomic operation, lock, condition variable, thread
   start/end, sleep and (sampled) plain access a seeded scheduler decides who goes on. Strategies: random
   walk, PCT priorities with change points, bursts. A violating execution is identified by one 64-bit seed and
   replayed from it (`check.py <id> --replay <file>`).
 - virtual time: sleeping and timed waits are logical; nothing depends on machine load. In "fuzzy" executions
   time leaps past deadlines while threads are runnable.
 - faults: spurious condition-variable wake-ups, spurious weak compare-exchange failures, atomic loads that
   return an older store wherever coherence and happens-before allow it.
 - vector clocks from the *memory orders written in the source* (release sequences, fences, relaxed
   operations), so data races and missing acquire/release are reported by happens-before although x86
   would never show them.
 - every execution has a private arena with red zones that never reuses memory: use-after-free, double free,
   overflow and leaks are exact.
 - "no runnable thread and the goal was not reached" is a deadlock or lost wake-up; a step budget under fair
   scheduling catches livelock. Never wall-clock time.
**native** (rt/nrt.cpp; variants asan, asanrel, tsan, plain*, clang, ucontext, ssp). The same scenario
interface as an ordinary program under ASan+UBSan (-fno-sanitize-recover), real TSan, or no sanitizer at all
(several compilers, optimisation levels and configuration macros). Used where the question is about programs
and not schedules, and for fibers, whose assembly needs the real machine.
"rel" variants are built with -DNDEBUG (as users ship it), the others keep the library's own asserts armed.

**Large populations, long histories** (`sc/scale.cpp` native ASan, `sc/long.cpp` optimised builds). Controlled schedules
use few objects; a counter narrowed to 8 or 16 bits, a recursion per element or a reorganisation that starts at some size is
invisible to them. `crowd_*` hold up to 70000 waiters/tasks/handles/callbacks at a time with sizes
around every power of two between 2^7 and 2^16 (and counts and capacities above 2^32 where they are numbers), `life_*` repeat
one object's life cycle as often, `long_*` run loops of up to 1.4 million inline completions on a constant stack. The oracles
are the same: conservation, order, exactly-once, model equality. `crowd_pool`, `crowd_timer`, `crowd_cancel` skip the
leak comparison (glibc caches thread stacks; the DTV of a cached stack looks like a leak).

## 2. Kinds of oracle

 - *reference models* of the API, run beside the library on the recorded event (events are recorded at the API
   boundary by the scenarios: call and return stamped with a logical step);
 - *linearizability* search (WGL) over recorded concurrent histories (channel, queue, threadsafe_queue,
   promise, mutex, events, atomic_ref);
 - *accounting*: exactly-once, FIFO, conservation, "who may run where";
 - *quiescence*: when nothing can run any more, nothing that is enabled may still be pending;
 - *lifetimes*: objects with magic numbers and live counters in every place the library stores user
   objects, plus the arena/ASan/LSan;
 - *races*: vector clocks as above; payloads are plain memory, so that missing ordering is a race on them.
A scenario that the compiler rejects although every header compiles alone is reported as a violation of kind
"interface" (the guaranteed use no longer exists); any other build problem is a harness error (exit 3).
Evidence files report executions, distinct behaviours (hash of schedule, atomic access sequence and history),
and counters of what the oracles saw ("observed").

## 3. Why this reaches what tests cannot

The 98 unit tests execute a few fixed programs on schedules picked by the OS. Here each check executes 10^4 to
10^6 distinct (program, schedule, fault) triples per run; the thorough tier multiplies the counts by 20.
The defects listed in section 6 all passed those tests.

## 4. Checks per property
"""

PP = {
"C01": """2-4 threads run random programs of co_await lock/lock_scoped, try_lock, unlock, moves of mutex_lock, with
coroutines resumed inline or on pump threads. Oracle: owner counter and plain guarded data (race = lost
exclusion/ordering), order of suspension against order of grants, histories linearised against a mutex model,
is_locked against ownership at every grant, every waiter granted at quiescence. `handoff_view` looks at a
mutex_lock from inside the waiter its unlock resumes.
`locks` runs random programs over mutex_lock objects (move, self-move, unlock, assignment over an owner) against
an ownership model.""",
"C02": """random waits, set() and reset() from several threads on both event kinds, against a linearizable model of the
event (waiting/set/unset); `*_collapse`, `*_collect`, `*_pingpong`, `*_visible` check that consecutive sets
collapse without loss (producers publish, set; the collector must see everything), and that plain data
written before set() is visible.""",
"C03": """as C02 with many waiters; `*_herd` counts resumptions per set, `*_rewait` waits again from inside the
resumption (must not be resumed by the same set), `*_collect` is the lost-wake-up test for the auto-reset kind.""",
"C04": """random initial counts, decrement amounts, waits before/after/at zero; `own_latch` destroys the latch right
after its waiter continued. Oracle: sum of decrements against readiness at every step, visibility of plain data
per decrement, nobody waiting at the end.""",
"C05": """random read/write/try_*/close from up to 4 threads, coroutines inline or on pumps; histories are
linearised against a rendezvous-channel model with FIFO reader and writer queues. `stream` checks conservation
and per-writer order with payload visibility on long streams.
`failing` makes the k-th move of a value throw inside every operation and compares the channel with the model
afterwards (nobody lost, nothing delivered).""",
"C06": """the same harness with close() from several threads, from within resumed coroutines, and racing the
instant between check and suspension; nobody may stay suspended once closed; a value reported undelivered is
never read.
`owned`: the coroutines that close() releases own the channel (it dies inside close()) or join a thread that is
using it.""",
"C07": """random pushes, pops, emplaces with capacities 0..3 and unlimited, linearised against a bounded FIFO with
suspended pushers and poppers; size()/empty() are part of the history; `values` compares try_emplace into the
container with try_emplace into a suspended pop; `stream` checks conservation under load.
`failing`: the k-th construction of a value throws.""",
"C08": """clear() against all operations of other threads; move construction and assignment of queues with every
mix of items and waiters, also into memory filled with garbage and while other threads use either queue.
`destructors`: values whose destructor uses both queues, queues moved to themselves. `dispatchers`: a moved queue resumes old and new waiters on the fallback dispatcher it had.""",
"C09": """concurrent push/emplace/pop/copy/move on up to three queues, linearised as plain FIFOs with snapshot
semantics; `cross` assigns two queues to each other from two threads (deadlock, snapshot mixing).
`elements`: copies that throw, destructors that use the queue.""",
"C10": """racing fulfil/reject/observe of every kind (get, timed get, try_get, await, callbacks registered before and
after), linearised against a write-once cell; `duel` interrupts two settlers at every point; payloads are plain
memory.
`values`: values with every kind of constructor; `failing`: the value's constructor throws (still pending, rivals
may settle, observers see only them); `last_handle`: a callback or the awaiting coroutine drops the last handle inside
the settlement; `destructors`: callbacks whose destructor inspects and tries to settle the promise.""",
"C11": """promise_first, promise_first_successful and promise_all over 1-4 arguments (promise_all also over none) settled on different threads in every
order, before and during the call; the expected outcome is derived from happens-before stamps, so that only
orders that are really ordered are insisted on.
`*_types`: arguments of five different types and void, converted to the result, some given twice.""",
"C12": """1-2 pools, pushes from outside, from tasks of the same and of another pool, resize in both directions incl.
0, destruction while tasks push; exactly-once, "runs on a worker thread of the pool it was pushed to", current
dispatcher, resize/destructor return only after retired workers are idle; `blocking`: one worker blocked
forever in a task, everything else must still run.
Callables push again when they are destroyed; `exhausted`: the runtime makes the n-th thread creation fail while the
pool grows (pool unchanged, usable, everything still runs).""",
"C13": """pushes from several threads, stop() from tasks and threads at any moment, nested run(), destruction right
after run() returned; order and exclusion of tasks, wake-ups, restoration of dispatcher::current(); async_main
with value, exception and hops to other dispatchers.
`throwing`: tasks that throw out of run().""",
"C14": """random schedules of all scheduling calls (steady/system/high-resolution clocks, wait, push, tokens) on
virtual time, from outside and from callbacks, destruction at any moment. Oracle: exactly once, never early, not
later than the fuzz bound of the execution (without time leaps: never idle while an entry is due), thread identity, order per kind, flag semantics. `busy`: work that
renews itself (pushed functions that push, entries rescheduled from their callback, also with a stopped token)
next to victims of every kind, with a bound on the runs of the load until all due victims are served. `default`
(native): awaiting durations and time points on the process-wide timer.""",
"C15": """the same with stop requests before/during/after scheduling, from other threads and from the timer's own
thread, racing the timeout and the destructor; `duel` concentrates on one entry. Variant poly runs it on the
library's own stop_token.""",
"C16": """std::stop_token's specification as a model: random programs over sources, tokens and callbacks incl. copy,
move, swap, self-assignment, destruction inside callbacks, on 1-3 threads (`race`, `duel`, `drop`); visibility of
effects both ways; freed exactly once. Compiled with ASYNCPP_FORCE_CUSTOM_STOP_TOKEN.
`shapes`: callbacks of every kind (function pointers, references, move-only, rvalue-only) before and after the request.""",
"C17": """random task trees (values, references, void, exceptions, move-only, awaits completing inline, on pumps and
on threads), abandoned and moved tasks; a monitor per task: begun/ended/resumed once and in that order, frame
destroyed once; `deep` measures stack use of long chains and loops.""",
"C18": """random bodies (yields, nested generators, exceptions, locals) compared event by event with an eager
interpreter of the same plan, value/const/reference element types, copy and move counting, abandonment at every
point, chains of fmap.
`by_rref` yields rvalue references.""",
"C19": """as C18 for async_generator with consumer and body suspending on awaits that complete inline or on other
threads; request/answer alternation monitored; stack use of long and deep streams measured.""",
"C20": """handles of lazy tasks copied, moved, dropped and started from several threads while the body suspends and
finishes elsewhere; `policies` runs random sequences of exception policies, with a child process for those
that must terminate. `owned`: the body destroys the object that holds its handle (inside start(), or when the
handle that kept it alive is assigned).""",
"C21": """children launched from outside and from children, finishing on other threads, join/join_future in rounds,
second joins, destruction right after the join; copies of awaitables and callables carry live counters.
`last_child` concentrates on the last completion racing join(). `forwarding`: arguments arrive as passed (references,
move-only, member pointers), children destroyed while suspended count as finished.""",
"C22": """as_promise/launch over awaitables completing synchronously or on threads, with values, references, void,
std and non-std exceptions; `blocked` waits on the future from a thread. Live counters on the awaitable.""",
"C23": """random handle programs (assignment to itself, to its pointee, along links of the pointee, casts, adopt,
release, swap) against a model of reference counts; `shared` does it across threads with races in the destructor
visible by happens-before.""",
"C24": """histories of load/store/exchange/reset/assignment on one or two cells linearised, live counters on objects,
publication of plain payload, pointers colliding with the lock bit.
`hooks`: types with custom refcount hooks; ordering, comparison and hash of both kinds of handle.""",
"C25": """random reentrant programs: subscribers that append, prepend, remove, disconnect, emit recursively, move,
assign and destroy signals, against an exact list model of what each emission must call, in order.
Subscribers throw (the rest of that emission is off, nothing else changes); callables are passed as lvalue, const
lvalue, rvalue and std::function. Some handles of removed subscribers are kept for a long time: callbacks must be
destroyed all the same.""",
"C26": """the same operations from 2-4 threads on mt signals and signal_manager incl. shrink_to_fit and destruction;
oracle from real-time order: connected throughout = exactly once, removed before = never.
`moves_*` move the object while others subscribe: no subscription is lost.""",
"C27": """random trees of fibers and coroutines awaiting each other and operations completed inline, later or on
other threads; abandonment of suspended fibers at every point (`owned`: of fibers that own
the object holding them); refused awaits; results of all types. Under vrt
(schedules, TSan fiber life cycle), ASan, and real TSan (`pool`).""",
"C28": """runs natively in six builds (gcc -O0/-O2/-O3 -fPIC -DNDEBUG, clang, ucontext, stack-protector TLS) and
under ASan/TSan: `raw` keeps random values in every callee-saved register, MXCSR and x87 control word across
switches done in assembly; `switches`/`migrate` nest try/catch and awaits; `stacks` watches every mmap/munmap/
mprotect of the process and uses stacks to their ends; `guard` touches beyond both ends in a child
with a SIGSEGV handler; `failures` makes the n-th mmap/mprotect/malloc fail.""",
"C29": """every coroutine type x allocator kind (stateless, stateful, pmr, overaligned, counting, throwing, fancy sizes)
x frame size x way to end; the allocator monitors block identity, size, equality and its own copies; locals check
their alignment.""",
"C30": """every awaitable x way to name a dispatcher x waking context x inline/threaded, predicted by the rule in the
property; `provided` and `current` watch dispatcher::current() on every provided dispatcher.""",
"C31": """all tags below every alignment up to 64 (a selection for 128 and 4096), random addresses, const and
non-const, integers and scoped enumerators, sets of types in different orders.
Tags that do not fit must abort in debug builds (child process).""",
"C32": """random programs of engage/disengage with exit by return, exception, and coroutine destruction.""",
}

TAIL = r"""
## 7. Corrections made to properties and machinery (false alarms)

Reported by a check on code that was right; the check or the property was corrected:
 - vrt: memset of the runtime's own metadata was interposed (race report in sync_for).
 - C07 moving: the model ignored the capacity of a helper queue. C12: order of resetting a std::optional. C13
   mixed: one task may already have been taken when stop() is called by another thread. C21: the monitor
   polled without synchronisation. C14: wait() that is ready inline returns true whatever the token says;
   due times are fuzzy by the length of the scheduling call; the final check needed a longer sleep; the
   ordering claim was weakened to "per kind" (entries with and without token live in different queues and the
   library never promised an order between them). C16: a callback destroyed itself while it was
   still being registered; callbacks used sources of other threads. C25: handles used by other threads need
   publication. hd.h: pump::stop set its flag without the lock. C29: the harness kept its own allocator alive.
   C30: cleared pushes return false; the setter's fallback dispatcher is legitimate. C27: the claim "value or
   exception" for the fiber's own callable was removed (an escaping exception terminates by design). C28: the
   raw loop left a context when its budget was used up; too little slack for calls in `stacks`; volatile
   globals for the signal handler; ASan shadow of our own mappings.
 - C17/C18/C31: static_asserts about library behaviour became runtime checks, so that a change that breaks
   them is reported as a violation and not as a harness that does not build.

Checks strengthened because a hand-made mutant survived: C25 (destruction of removed callbacks), C19 (requests from
different coroutines), C30 (poisoned memory), C27 (`results`; TSan life cycle), C28 (upper guard page), C32
(multi-step toggles), C24 (publication without contention), C14 (slack of the timer thread).

Mutants found to be equivalent (no observable difference): channel try_read re-check of closed, exchange in
channel close(); promise_all try_fulfill variant; simple_dispatcher notify before enqueue under the lock;
async_main stop via push; stop_token use of relaxed in sub_ssrc; releasing a node under the signal lock;
async_generator move assignment by swap; fiber empty check, MAP_FAILED comparison.

## 8. How the machinery was tested

 - Seeded changes (section 5), and several hundred mutants: operator/statement mutants of every header (automatic driver,
   survivors reviewed by hand) plus hand-written plausible bugs; every survivor that was not equivalent led to a stronger
   scenario (list in section 7).
 - About 40 behaviour-preserving refactorings over 22 headers (helpers extracted, loops rewritten, statements reordered,
   lists replaced by containers): all 32 checks stayed quiet.
 - tools/selftest.sh plants faults in small programs and checks that rt/ reports races, use after free, leaks,
   deadlocks, lost wake-ups and livelocks.
 - gcov over all quick checks: practically every executable line of include/ is executed; not executed are the overflow of
   the signal counter, `catch (...) std::terminate()` of promise/timer/launch, reversed comparison templates, non-Linux code.

## 9. Not claimed

 - a queue destroyed by a coroutine resumed inside its own clear(); a pop whose refill from a
   suspended push throws, and a value lost when its final move to the consumer throws; values whose copy throws inside the
   noexcept push_awaiter constructor (terminates).
 - fiber: stack size 0 or overflowing; exceptions escaping the callable (terminate); unbounded nesting on the
   main stack; suspending while unwinding; gcc `-fstack-protector-all` breaks the naked switch function (the
   checks use -fstack-protector-strong).
 - timer: pushing or scheduling from a callback during shutdown throws logic_error by design; duration overflow; FIFO among
   entries with equal due time; an entry that reschedules itself at a constant past time point starves later plain entries
   by the order guarantee.
 - signal moved or destroyed during its own emission; emission concurrent with a move of the signal; resizing a pool from its own worker;
   exceptions from dispatcher::push inside noexcept set(); join_future under memory exhaustion (noexcept); destroying the last handle of a stop_source while its
   request_stop runs; begin() twice on a generator; use of a generator after its end.
 - the destruction order of a launch scope's child frame relative to the resumed join (frame goes later, by
   design).
 - forms that do not compile today: async_generator<T&> and <T&&>, ptr_tag with an unscoped
   enumerator, floating-point durations for timer waits.
 - vrt serialises executions at synchronisation points; stores are not delayed past later loads other than by
   the stale-read injection (no full store-buffer model). Code inside libstdc++.so is seen only at its
   pthread/futex/malloc/memcpy calls.
"""
