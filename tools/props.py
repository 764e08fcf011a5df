"""Property table; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
S, I, P, H, C, FS = "schedules", "inputs", "programs", "histories", "configurations", "fault_sequences"
INC = "include/boost/thread/"
PT = INC + "pthread/"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))


TS = "The tests run one hand-written schedule of two or three threads on the real clock; %s"

prop("M01", "Plain and recursive mutexes: exclusion, recursion and no lost wake-ups",
     "At any moment at most one thread owns a mutex, a recursive mutex stays owned until it has been unlocked as often as it was locked, and what one owner wrote is visible to the next. An attempt without waiting fails only while another thread (for a non-recursive mutex: any thread) owns the mutex. A thread that waits for a mutex which is free gets it: no unlock is ever lost.",
     [S, P], "all interleavings of lock, try, timed and unlock calls by any number of threads on any of the four mutex kinds", TS % "exclusion, hand-over and lost wake-ups depend on the interleaving inside lock and unlock.",
     [PT + "mutex.hpp", PT + "recursive_mutex.hpp", PT + "pthread_mutex_scoped_lock.hpp", PT + "pthread_helpers.hpp"],
     [("lock/unlock/try_lock over a native mutex, or a native mutex plus condition and flag", PT + "mutex.hpp"), ("owner and count of recursive mutexes", PT + "recursive_mutex.hpp")],
     [("is_locked / owner / count", "ownership of the timed mutexes", PT + "mutex.hpp, " + PT + "recursive_mutex.hpp")], ["return of lock, try_lock, unlock"])
prop("M02", "Timed lock attempts on mutexes: never early, never late, truthful",
     "A timed attempt to lock a mutex returns success exactly when the caller owns the mutex afterwards, takes a mutex that is free whatever the timeout, and reports failure only at or after its deadline and only if the mutex is unavailable then. It returns when the deadline has passed, on whichever clock and in whichever form (relative, absolute, date-time, special value) the deadline was given, and a failed attempt leaves the mutex unaffected.",
     [S, P, I], "all schedules, all deadlines including past, zero, sub-millisecond and beyond the polling interval, all supported clocks and time types", TS % "they use a few generous timeouts and tolerate hundreds of milliseconds of error.",
     [PT + "mutex.hpp", PT + "recursive_mutex.hpp", INC + "detail/platform_time.hpp"],
     [("try_lock_until / timed_lock loops with bounded polling for foreign clocks", PT + "mutex.hpp"), ("conversion between time representations", INC + "detail/platform_time.hpp")], (), ["return of try_lock_for, try_lock_until, timed_lock"])
prop("S01", "Shared and upgrade mutexes: reader/writer exclusion across all conversions",
     "An exclusive owner excludes every other owner, at most one thread holds upgrade ownership, and any number of shared owners may coexist with it. Every conversion between the three modes is atomic: no other thread acquires an incompatible ownership in between, and a refused conversion leaves the caller with exactly the ownership it had. Attempts without waiting are refused only while ownership is incompatible or another thread is waiting for exclusive ownership.",
     [S, P, C], "all interleavings of all lock, unlock and conversion operations, in both implementations of the mutex", TS % "most conversions are exercised by a single thread only.",
     [PT + "shared_mutex.hpp", INC + "v2/shared_mutex.hpp", INC + "shared_mutex.hpp"],
     [("state_data predicates and flags", PT + "shared_mutex.hpp"), ("two-gate algorithm with a packed reader count", INC + "v2/shared_mutex.hpp")],
     [("shared_count, exclusive, upgrade, exclusive_waiting_blocked", "ownership", PT + "shared_mutex.hpp"), ("state_", "packed ownership word", INC + "v2/shared_mutex.hpp")], ["return of every operation"])
prop("S02", "Shared and upgrade mutexes: waiting requests proceed, timed requests end",
     "Whenever ownership becomes compatible with a waiting request and no thread is waiting for exclusive ownership, that request is granted; no release, failed attempt, timeout or conversion ever leaves an eligible waiter asleep. A timed request or conversion fails only at or after its deadline, ends when the deadline has passed, and after a failure the mutex behaves as if the request had never been made.",
     [S, P, I, C], "all schedules with readers, writers, upgraders and timeouts at any point, for both implementations", TS % "a lost wake-up or a stale count after a timeout needs a particular order of release and timeout.",
     [PT + "shared_mutex.hpp", INC + "v2/shared_mutex.hpp"],
     [("release_waiters and hand-over in unlock_shared", PT + "shared_mutex.hpp"), ("gate1_/gate2_ notifications and state restoration on timeout", INC + "v2/shared_mutex.hpp")], (), ["return of timed operations; threads still blocked when nothing can run"])

prop("C01", "Condition variables: atomic wait, no lost notification, mutex held on return",
     "Waiting releases the mutex and starts to wait in one step: a notification sent by a thread that held the mutex after the waiter released it reaches that waiter. A notification wakes at least one of the threads waiting at that moment, notify_all wakes all of them, and every form of wait returns (or throws) only while the caller owns the mutex again. A wait with a predicate returns success only if the predicate holds.",
     [S, P, C], "all interleavings of waiters, notifiers and mutex users, for condition_variable with unique_lock and condition_variable_any with any lockable", TS % "a notification lost between releasing the mutex and starting to wait needs one exact interleaving.",
     [PT + "condition_variable.hpp", PT + "condition_variable_fwd.hpp"],
     [("wait / do_wait_until over an internal mutex and a native condition", PT + "condition_variable.hpp"), ("lock_on_exit re-acquires the caller's lock", PT + "condition_variable.hpp")],
     [("internal_mutex / cond", "pairing of the caller's mutex with the native wait", PT + "condition_variable.hpp")], ["return of wait forms, notify_one, notify_all; threads still blocked when nothing can run"])
prop("C02", "Condition variables: timed waits report timeouts truthfully, never early",
     "A timed wait reports a timeout only at or after its deadline, and once the deadline has passed it ends as soon as the mutex can be taken again. With a predicate the result is the value of the predicate at the end. This holds on every clock and for every form of timeout, including past and far deadlines and adjustments of the system clock.",
     [S, P, I], "all schedules of timed waits, notifications, owners that keep the mutex, and clock adjustments; all timeout forms and values", TS % "they use a handful of timeouts on an undisturbed clock with generous tolerance.",
     [PT + "condition_variable.hpp", PT + "condition_variable_fwd.hpp", INC + "detail/platform_time.hpp", INC + "condition_variable.hpp"],
     [("conversion of foreign clocks to the internal clock with bounded polling", PT + "condition_variable_fwd.hpp"), ("do_wait_until", PT + "condition_variable.hpp")], (), ["return of wait_for, wait_until, timed_wait"])
prop("C03", "notify_all_at_thread_exit: mutex held until exit, then released and notified",
     "A lock handed to notify_all_at_thread_exit stays owned until the thread's thread-exit callbacks and thread-specific destructors have run; then the mutex is released and every waiter is woken. This does not depend on anybody else keeping, joining or destroying a handle of that thread.",
     [S, P], "all schedules of exiting threads with one or several registered locks, waiters and other mutex users, with joinable and detached threads", TS % "one thread, one waiter, and the handle is joined.",
     ["src/pthread/thread.cpp", PT + "thread_data.hpp", PT + "condition_variable.hpp"],
     [("notify list of the thread data, processed when the thread function has ended", PT + "thread_data.hpp"), ("thread_proxy", "src/pthread/thread.cpp")], [("notify", "registered condition/mutex pairs", PT + "thread_data.hpp")], ["when waiters return; when the mutex can be taken"])
prop("L01", "Lock objects: ownership always matches the mutex, misuse is reported",
     "At every moment a lock object that claims to own its mutex really holds it in the claimed mode exactly once, and one that does not claim to own holds nothing; moving, swapping, converting, releasing, adopting and destroying preserve this. Locking what is already owned, unlocking what is not owned or using an object without a mutex throws and changes nothing. Scope guards release exactly what they acquired on every path, including exceptions.",
     [P, H, I], "all sequences of constructions, assignments, conversions, swaps and calls over all lock object and guard types, with a mutex that may refuse or throw", "The tests call each member once from one prepared state; ownership errors appear only in particular sequences of moves and conversions.",
     [INC + "lock_types.hpp", INC + "lock_guard.hpp", INC + "shared_lock_guard.hpp", INC + "strict_lock.hpp", INC + "reverse_lock.hpp", INC + "with_lock_guard.hpp", INC + "lock_factories.hpp"],
     [("is_locked flag and mutex pointer of unique_lock, shared_lock, upgrade_lock", INC + "lock_types.hpp"), ("conversion constructors", INC + "lock_types.hpp")], [("m / is_locked", "claimed ownership", INC + "lock_types.hpp")], ["calls received by a recording mutex; owns_lock, mutex, exceptions"])
prop("L02", "Locking several mutexes: all or nothing, no deadlock",
     "Locking a set of mutexes together returns with all of them owned, in whatever order callers name them and whatever else they wait for, and never deadlocks against other calls doing the same. Trying to lock a set either owns all and says so, or owns none and names a mutex that was refused. If an attempt throws, none is left owned.",
     [S, P, I], "all interleavings of threads locking overlapping sets in any order, by argument list or range, over all lockable kinds, with refusals and exceptions at any position", TS % "the deadlock and back-out paths depend on which mutex is contended at which moment.",
     [INC + "lock_algorithms.hpp"],
     [("lock_helper / lock_impl back-out and retry starting from the refused mutex", INC + "lock_algorithms.hpp")], (), ["return of lock and try_lock; ownership of each mutex; threads still blocked"])
prop("O01", "call_once: exactly one successful execution, and nobody returns before it",
     "For each flag the function runs to a successful end exactly once, whatever number of threads call concurrently; everybody else returns only after that and sees its effects. An execution that throws propagates to its caller and another caller, waiting or later, executes again. No caller is left asleep once the flag is settled.",
     [S, P, C], "all interleavings of calls on any number of flags, with failing, sleeping and nested executions, in the atomic and the epoch implementation", TS % "exception in one caller while others wait is tested in one order only.",
     [PT + "once_atomic.hpp", PT + "once.hpp", "src/pthread/once_atomic.cpp", "src/pthread/once.cpp", INC + "once.hpp"],
     [("enter/commit/rollback on an atomic word", "src/pthread/once_atomic.cpp"), ("per-thread epoch", PT + "once.hpp")], [("storage / epoch", "state of the flag", PT + "once_atomic.hpp, " + PT + "once.hpp")], ["starts and ends of the function; returns of call_once"])
prop("B01", "Barrier: generations, one completion function run, one leader",
     "Nobody returns from a barrier before as many threads have arrived as the current generation needs, and then all of these return: exactly one of them is told that it was the last. The completion function runs exactly once per generation, after all arrivals and before anybody returns, and may set the size of the next generation. What participants did before arriving is visible to all of them afterwards; a size of zero is refused.",
     [S, P, C], "all interleavings of any number of threads over any number of generations, all constructor forms of the completion function", TS % "re-entry of fast threads into the next generation while slow ones still leave the last one is a matter of timing.",
     [INC + "barrier.hpp"], [("generation counter and count under one mutex", INC + "barrier.hpp")], [("m_count / m_generation", "missing arrivals, current generation", INC + "barrier.hpp")], ["return of wait and count_down_and_wait; runs of the completion function"])
prop("B02", "Latches: nobody passes before zero, nobody is left behind, timeouts truthful",
     "Waiting on a latch ends only after the count has reached zero and always ends then, even if the count is reset immediately afterwards; attempts without waiting and countdowns report truthfully whether zero was reached. A timed wait reports a timeout only at or after its deadline and ends when the deadline has passed. A completion latch lets the waiters through and then runs its completion function exactly once, in the thread that counted down last.",
     [S, P, I], "all interleavings of countdowns, waits of all forms, timeouts and resets", TS % "the window between the last countdown, a reset and a waiter's wake-up is not reachable on purpose.",
     [INC + "latch.hpp", INC + "completion_latch.hpp", INC + "detail/counter.hpp"], [("count and generation under one mutex", INC + "latch.hpp"), ("waiters_/leavers_ hand-shake", INC + "completion_latch.hpp")], [("count_ / generation_", "remaining countdowns, times zero was reached", INC + "latch.hpp")], ["return of wait forms, count_down forms, try forms; runs of the completion function"])
TH, TD, TC = "src/pthread/thread.cpp", PT + "thread_data.hpp", INC + "detail/thread.hpp"
prop("T01", "Threads: launched once, joined after the end, handles refer to one thread",
     "A thread object launches its function exactly once, with a copy of its arguments, in a thread of its own; join returns, and a timed join reports success, only after that function has ended and its effects are visible, and it returns whenever the function has ended, whatever else the joining threads do. A timed join reports failure only at or after its deadline and leaves the thread joinable. Moving, swapping, detaching and joining transfer or end the link between object and thread and nothing else, ids tell threads apart, and misuse (joining oneself or nothing) is reported.",
     [S, P, I], "all interleavings of threads creating, joining, timed-joining, detaching, moving and swapping handles, including threads joining each other, with all forms of callables and timeouts", TS % "the end of a thread races with join, timeout, detach and destruction only by chance.",
     [TC, TH, TD], [("thread_proxy sets done and notifies; join and try_join_until share join_started/joined", TH), ("release_handle / move / detach", TC)],
     [("done, join_started, joined", "life of the thread", TD), ("thread_info", "link between handle and thread", TC)], ["start and end of the function; return of join, try_join_for, try_join_until, timed_join, joinable, get_id, detach"])
prop("T02", "Interruption: delivered once, at interruption points only, when enabled",
     "A request to interrupt a thread is delivered exactly once, as an exception at its next interruption point reached with interruption enabled, and a thread blocked in one is woken; it is delivered nowhere else. While interruption is disabled (and not restored) nothing is delivered and the request stays pending; disabling, restoring and the end of their scopes nest correctly. A thread that ends by interruption ends normally, and everything it held is as if the interrupted call had not waited.",
     [S, P], "all interleavings of requests with waits, sleeps, joins, interruption points, disable and restore scopes, in any nesting", TS % "a request that arrives between the last check and the start of a wait is not reachable on purpose.",
     [PT + "condition_variable.hpp", TD, TH, INC + "detail/thread_interruption.hpp", INC + "interruption.hpp"],
     [("interruption_checker registers the condition and mutex a thread is going to wait on", TD), ("thread::interrupt sets the request and wakes the registered condition", TH), ("disable_interruption / restore_interruption", TH)],
     [("interrupt_requested, interrupt_enabled, current_cond, cond_mutex", "pending request, state of delivery", TD)], ["return or exception of waits, sleeps, joins, interruption_point; interruption_enabled, interruption_requested"])
prop("T03", "Thread exit: callbacks and cleanup run once, in order, before joiners proceed",
     "Functions registered with at_thread_exit run exactly once, in the registering thread, after its function has ended (normally or by interruption) and in reverse order of registration; those registered meanwhile run too. Thread-specific values and exit functions are all done before anybody joining the thread proceeds, whether or not somebody holds a handle.",
     [S, P], "all schedules of exiting threads, with any number and nesting of exit functions and thread-specific values, joinable, detached and foreign threads", "Tests register one or two functions and join; nesting with cleanup of thread-specific values and order against joiners are not covered.",
     [TH, TD], [("tls_destructor / thread_exit_callbacks list", TH), ("add_thread_exit_function", TH)], [("thread_exit_callbacks, tss_data", "what is left to run at exit", TD)], ["runs of exit functions and cleanup functions; return of join"])
prop("T04", "Thread-specific pointers: one value per thread, cleaned exactly once",
     "Each thread sees in a thread_specific_ptr only the value it set there last itself. A value is given to its cleanup function exactly once: when it is replaced by a different value, reset, or at the exit of its thread, while released values are never cleaned up; nothing is cleaned up in, or for, another thread. Cleanup functions may set values of other pointers again and these are cleaned up too.",
     [S, P], "all schedules and sequences of set, get, release and reset in any number of threads and pointers, with cleanup functions that use the pointers again", "Tests look at one pointer and a few threads; cleanup re-entry and values set while the thread exits are not covered.",
     [TH, INC + "tss.hpp"], [("set_tss_data / tls_destructor loop", TH), ("thread_specific_ptr", INC + "tss.hpp")], [("tss_data", "map from pointer to value and cleanup function", TD)], ["get, release; calls of the cleanup function"])
prop("T05", "Thread groups, scoped threads and guards: every thread is joined as promised",
     "A thread_group owns exactly the threads created in or added to it and not removed; join_all returns only after all of them have ended, interrupt_all requests interruption of each, and is_thread_in, is_this_thread_in and size tell the truth. A scoped thread or guard does at the end of its scope exactly what its policy says (join, interrupt and join, detach), also after it has been moved or swapped.",
     [S, P, C], "all interleavings of threads using one group, and of scopes ending while their threads run, for all guard and scoped-thread forms and policies", TS % "they create a few threads and join them in one order.",
     [INC + "detail/thread_group.hpp", INC + "scoped_thread.hpp", INC + "thread_guard.hpp", INC + "thread_functors.hpp"], [("list of threads under a shared_mutex", INC + "detail/thread_group.hpp"), ("destructors with the CallableThread policy", INC + "scoped_thread.hpp")], [("threads", "members of the group", INC + "detail/thread_group.hpp")], ["return of join_all, size, is_thread_in; ends of scopes"])
prop("T06", "Thread creation that fails is reported and leaves nothing behind",
     "If a thread cannot be created, because the system refuses it or memory runs out, the caller gets an exception, the function is never run, its copies are destroyed and nothing else changes: the handle or group is as before and may be used again. Conversely a creation that reports success has launched the function. Nothing is leaked when threads, handles and groups are gone.",
     [FS, S, P], "a refusal of each allocation, each initialisation of a native object or of the native thread creation, in any creation form, with other threads running", "Tests cannot make the native calls fail at a chosen place.",
     [TH, TC, PT + "thread_heap_alloc.hpp", INC + "detail/thread_group.hpp"], [("start_thread_noexcept takes a self reference and gives it back when the native call fails", TH)], [("self", "keeps the thread data alive while the thread runs", TD)], ["exception or success of thread construction and create_thread; live copies of the function; memory at the end"])
prop("N01", "Sleeping: never shorter than asked, ends when due, whatever the clocks do",
     "A sleep for a duration, until a time point of any supported clock, or in a legacy date-time form returns normally only once that time has passed, and it does return then; a sleep for nothing or until the past returns at once. Sleeping is an interruption point (except for the no_interruption_point forms), and adjustments of the system clock affect only sleeps that name a time of that clock.",
     [S, I, P], "all durations and time points including zero, past, sub-millisecond and longer than the polling interval, all forms and clocks, system clock adjustments and interruption requests at any time", "Tests sleep for a few fixed times on an undisturbed clock with tolerances of hundreds of milliseconds.",
     [TH, PT + "thread_data.hpp", INC + "v2/thread.hpp", INC + "detail/platform_time.hpp"], [("sleep_for / sleep_until on the thread's own condition or nanosleep", TH), ("polling of foreign clocks", PT + "thread_data.hpp")], (), ["return of sleep_for, sleep_until, sleep, and no_interruption_point forms"])

FU = INC + "future.hpp"
prop("F01", "A shared state is satisfied once and every reader sees that one outcome",
     "The first set_value, set_exception or emplace on a promise determines the outcome, every later attempt throws promise_already_satisfied and changes nothing. get, wait, is_ready, has_value, has_exception, get_exception_ptr, get_or and get_state of every future and shared_future that refers to the state return only after it is ready (or report that it is not), all see that same value or exception, and everything written before it was set; the timed waits return timeout only once their deadline on their own clock has been reached and ready only if it is. A result can be retrieved from get_future once, and a future without a state reports future_uninitialized instead of blocking.",
     [S, P, I], "every schedule of setters, getters, sharers and timed waiters; every value type (int, void, reference, move-only), clock, duration and time jump", "The tests set a handful of promises from one thread and read them from another after a sleep; lost wake-ups, double satisfaction under a race and early timeouts are schedules they do not produce.",
     [FU], [("shared_state (mark_finished_internal, wait_internal, timed waits), promise, BOOST_THREAD_FUTURE, shared_future", FU)], [("shared states and their owners", "ss, pr, fu, pend in spec/Future.tla", FU)], ["calls and returns with outcome, ids of payloads written before and read after, quiescence, virtual time"])
prop("F02", "An abandoned promise or task breaks its promise, and no satisfied one does",
     "When the last owner of an unsatisfied shared state goes away - a promise or packaged_task destroyed or assigned over before it was satisfied or run - every waiter wakes and gets broken_promise; when it had been satisfied, is satisfied at thread exit, or its ownership was moved or swapped elsewhere, the outcome is kept. Operations on a moved-from promise or task throw promise_moved or task_moved and touch nothing.",
     [S, P, H], "every sequence of construct, move, swap, set, run and destroy over several promises and tasks, racing with waiters", "Tests destroy one promise with no one waiting; which of several moves and swaps leaves an owner, with waiters asleep, is not sampled.",
     [FU], [("promise (destructor, move assignment, swap), packaged_task (destructor, moves), task_base_shared_state::owner_destroyed", FU)], [("shared states and their owners", "ss, pr, tk in spec/Future.tla", FU)], ["outcomes of get and wait after destruction, moves and swaps; quiescence"])
prop("F03", "A packaged_task runs its function once and delivers exactly that outcome",
     "Of any number of concurrent invocations of one packaged_task exactly one runs the function, and the others throw task_already_started; the value returned or the exception thrown becomes the outcome of its future and is published before the invocation returns. A task that was moved from is invalid and throws task_moved, and the function object is destroyed with the state.",
     [S, P], "every schedule of invocations, moves, swaps and destruction of tasks holding functors, function pointers, move-only and allocator-constructed callables", "Tests invoke a task once or twice in sequence.",
     [FU], [("packaged_task, task_base_shared_state, task_shared_state, task_object", FU)], [("shared states and their owners", "ss, tk, pend in spec/Future.tla", FU)], ["start and end of the function with its thread, outcomes, leaks of functors"])
prop("F04", "async runs a function exactly once, deferred ones in the first waiting thread",
     "A function given to async runs exactly once with the arguments that were passed, on another thread (or on the executor given), and its outcome becomes that of the future whether or not anyone waits. With launch::deferred it runs in the first thread that waits for or gets the result and never before, other waiters block until it has finished, a timed wait before that reports deferred and does not run it, and meanwhile readiness queries and timed waits by other threads do not block.",
     [S, P], "every schedule of launching, waiting, timed waiting, sharing and dropping futures, with functions that return, throw and block", "Tests launch single functions and get at once.",
     [FU], [("async, future_async_shared_state, future_deferred_shared_state, future_executor_shared_state, wait_internal", FU)], [("shared states and their owners", "ss (st, who, pol) in spec/Future.tla", FU)], ["start and end of functions with thread, results, timed-wait results, quiescence"])
prop("F05", "A continuation runs once, after its parent is ready, with the parent's outcome",
     "A function attached with then, fallback_to or unwrap runs exactly once, only after its parent is ready, receives a ready future with the parent's outcome (value, exception or broken promise), and its own outcome becomes that of the returned future, whatever the interleaving of attaching and completing. It runs where its policy says: on a new thread, on the executor, in the completing or attaching thread, or, deferred, in the thread that waits; the parent future becomes invalid, and nothing is leaked if the result is dropped. An unwrapped future takes the outcome of the inner one, or the outer one's exception.",
     [S, P, C], "every schedule of attaching, completing, chaining, sharing and dropping; every launch policy, also inherited; every outcome of the parent", "Tests attach one continuation before or after completion from one thread.",
     [FU], [("continuation_shared_state and its variants, set_continuation_ptr, do_continuation, then, fallback_to, future_unwrap_shared_state", FU)], [("shared states and their owners", "ss (par, pol, st, who) in spec/Future.tla", FU)], ["start and end of continuations with thread and argument, outcomes, leaks, quiescence"])
prop("F06", "wait_for_any, wait_for_all, when_any and when_all finish exactly when they may",
     "wait_for_all and the future of when_all become ready only when every member is ready, wait_for_any and the future of when_any as soon as one is, and wait_for_any returns a ready one; none of them deadlocks or misses a completion, whatever the order in which futures are passed, also when several refer to one state. when_all and when_any do not block for members that run elsewhere, run deferred members as documented before they return, and give every member back in order with its outcome.",
     [S, P, I], "every subset, order and mixture of unique, shared, deferred and ready futures, with completions racing with registration", "Tests use two or three futures completed after a sleep; registration racing with completion and overlapping waits by several threads are not sampled.",
     [FU, "include/boost/thread/futures/wait_for_any.hpp", "include/boost/thread/futures/wait_for_all.hpp"], [("future_waiter, waiter_for_any_in_seq, future_when_all_*/future_when_any_* shared states", FU)], [("shared states and their owners", "ss (kd l, y), vf, pend (i, w) in spec/Future.tla", FU)], ["calls and returns, index returned, readiness of members, quiescence"])
prop("F07", "Results set at thread exit become ready only after the thread's objects are gone",
     "After set_value_at_thread_exit, set_exception_at_thread_exit or make_ready_at_thread_exit the state counts as satisfied at once but stays not ready until the calling thread has finished and its thread-specific objects have been destroyed, and then it becomes ready and its waiters wake, even if the promise or task was destroyed or moved before. A deferred set becomes ready at notify_deferred.",
     [S, P], "every schedule of setters, waiters, destruction and thread exit, for threads created by the library and by the platform", "The tests check single cases with generous sleeps.",
     [FU, "src/pthread/thread.cpp", "include/boost/thread/pthread/thread_data.hpp"], [("set_*_at_thread_exit, make_ready_at_thread_exit, thread_data_base::make_ready_at_thread_exit, run_thread_exit_callbacks", FU)], [("shared states and their owners", "ss (con), ended, tls in spec/Future.tla", FU)], ["thread end, destruction of thread-specific objects, readiness, outcomes"])

prop("F08", "Wait callbacks run once per wait that finds no result, in that thread",
     "A callback set with set_wait_callback on a promise or packaged_task is called by every wait for its result (wait, get, timed waits, wait_for_any, wait_for_all) that finds the result not ready: exactly once, in the waiting thread, with the promise or task as argument, before that thread blocks, and without a lock held, so that the callback may provide the result, replace itself, or throw, which ends the wait with that exception. "
     "Waits that find the result ready, and queries such as is_ready, never call it; after the callback was replaced, waits that begin later call the new one, while a copy that is running stays alive until it returns.",
     [S, P], "every schedule of waits of all kinds, settings and replacements of callbacks and results, with callbacks that set the result, run the task, replace themselves, throw or sleep", "Tests count the calls in one thread, with one future.",
     [FU], [("callback called with a copy outside the lock", FU + ": do_callback, set_wait_callback, notify_when_ready")], [("callback", "callback of the shared state, cb in spec/WaitCb.tla", FU)], ["calls and returns of waits, set_wait_callback, set_value and the run of tasks; start and end of callbacks with thread; quiescence; live callbacks"])

CQ = INC + "concurrent_queues/"
prop("Q01", "Unbounded queues deliver every element once, in order, also after close",
     "Every element accepted by a sync_queue or sync_deque, directly or through adaptors, views and stream operators, is delivered to exactly one consumer, in the order in which the elements were accepted, together with everything its producer wrote before. A blocking pull waits while the queue is empty and open and no longer: an element or the closing of the queue wakes it; after close nothing more is accepted, what is left is still delivered, and then every pull reports closed. Attempts that do not wait tell the truth (empty, closed, busy only while another operation is under way), and an operation that fails, throws or is interrupted leaves queue and element as they were.",
     [S, P], "every schedule of producers, consumers, closers, observers and interruptions; every way to push and pull, copied and moved, of copyable and move-only elements, with copies that throw", "Tests run one producer and one consumer in a few fixed orders.",
     [CQ + "sync_queue.hpp", CQ + "sync_deque.hpp", CQ + "detail/sync_queue_base.hpp", CQ + "detail/sync_deque_base.hpp", CQ + "queue_adaptor.hpp", CQ + "deque_adaptor.hpp", CQ + "queue_views.hpp", INC + "csbl/devector.hpp"],
     [("condition with notification of every addition", CQ + "detail/sync_queue_base.hpp"), ("vector with a front index as container", INC + "csbl/devector.hpp")], [("data_, closed_", "elements in order; whether closed", CQ + "detail/sync_queue_base.hpp")], ["calls and returns of push, pull, close and observers with element identities; quiescence; live elements"])
prop("Q02", "Bounded queues never exceed their capacity, lose nothing and wake both sides",
     "A sync_bounded_queue delivers every accepted element to exactly one consumer in order and never holds more than its capacity; size, full, empty and capacity say so. A producer waits exactly while the queue is full and open and a consumer exactly while it is empty and open: room, an element or close wakes them, also when the one that was woken first fails or is interrupted. Operations that report a status never throw for a closed queue, the others throw, and attempts that do not wait tell the truth.",
     [S, P], "every schedule of producers, consumers, closers and interruptions, small capacities with any number of wrap-arounds, both interfaces, with copies that throw", "Tests use one producer, one consumer and a queue that hardly ever wraps.",
     [CQ + "sync_bounded_queue.hpp"], [("ring buffer with one spare cell; counters of waiting producers and consumers", CQ + "sync_bounded_queue.hpp")], [("in_, out_, waiting_full_, waiting_empty_, closed_", "ring buffer and who waits", CQ + "sync_bounded_queue.hpp")], ["calls and returns of push, pull, close and observers with element identities; quiescence; live elements"])
prop("Q03", "Priority queues always deliver a greatest element, and their waits end in time",
     "A pull from a sync_priority_queue takes an element that no element in the queue exceeds, and every accepted element is delivered exactly once. A pull waits only while the queue is empty and open; with a deadline, on any clock, it reports timeout only once that has passed and only if there is nothing, and it does end then. After close nothing is accepted, the rest is delivered and then closed is reported.",
     [S, P, I], "every schedule of producers, consumers, closers and interruptions, with equal and different priorities, deadlines in the past and future on steady, system and user clocks", "Tests push and pull in one thread or with sleeps of fixed length.",
     [CQ + "sync_priority_queue.hpp", CQ + "detail/sync_queue_base.hpp"], [("heap of elements under the base queue's mutex and condition", CQ + "sync_priority_queue.hpp")], [("data_, closed_", "heap; whether closed", CQ + "detail/sync_queue_base.hpp")], ["calls and returns of push, pull, pull_for, pull_until, close with element identities; quiescence; virtual time"])
prop("Q04", "Timed queues release elements when they are due: never early, earliest first",
     "A sync_timed_queue releases an element only when its time has come on the queue's clock, an element with an earlier time before one with a later, each exactly once, and a waiting consumer gets it when it is due even if the clock is set meanwhile. A pull with a deadline gives up only when that has passed and nothing is due, saying whether the queue is empty (timeout) or not (not_ready), and returns in time. close ends all waits at once; elements that are left can still be taken when they are due.",
     [S, P, I], "every schedule of producers, consumers, closers, interruptions and changes of the system clock; due times and deadlines in the past and future, relative and absolute, on the steady and the system clock", "Tests use single elements and generous sleeps; clock changes cannot be tested at all.",
     [CQ + "sync_timed_queue.hpp", CQ + "sync_priority_queue.hpp"], [("wait until the earliest time, limited on adjustable clocks, and look again", CQ + "sync_timed_queue.hpp")], [("data_, closed_", "heap by time; whether closed", CQ + "detail/sync_queue_base.hpp")], ["calls and returns of push, pull, pull_for, pull_until, close with element identities and due times; quiescence; virtual time"])

EX = INC + "executors/"
prop("P01", "synchronized_value: exclusive access, all-or-none on several values, no deadlock",
     "Every read, write, call, comparison, swap and stream operation on a synchronized_value happens while the accessing thread owns the value's mutex, so that it sees and leaves whole values and concurrent updates are never lost; it releases the mutex also when the value's own operation throws. "
     "Operations on two or three values (assignment, swap, comparison, synchronize) own all of them at once and complete in whatever order threads name the values, also when both are the same value. "
     "A handle (strict or unique lock pointer) owns exactly the values it was opened for from the moment it is given them until it is unlocked, moved on or destroyed, and reports ownership and misuse truthfully.",
     [S, P, I], "every program of operations and handles over synchronized values, every schedule, throwing value operations, every mutex type",
     "exclusion and freedom from deadlock must hold for every interleaving of operations that name the values in different orders; tests run each operation in one thread",
     [INC + "synchronized_value.hpp", INC + "lock_algorithms.hpp", INC + "strict_lock.hpp"], [("whole operations", INC + "synchronized_value.hpp: operator=, swap, get, operator(), comparisons"), ("handles", INC + "synchronized_value.hpp: strict_lock_ptr, unique_lock_ptr, synchronize, *_synchronize")],
     [("own", "which thread owns a value", "mtx_"), ("val", "the value", "value_"), ("hd", "handles and what they own", "const_unique_lock_ptr / const_strict_lock_ptr")], ["results of get, add, comparisons", "try_to_synchronize", "who blocks at quiescence"])

prop("R01", "task_region joins all its tasks and reports every exception once",
     "task_region and task_region_final return or throw only after every task run in the region has ended, each accepted task having run exactly once, seeing what was written before it was run, its own writes being visible afterwards. "
     "If the body or tasks threw, the region exits with an exception_list that contains each of those exceptions exactly once, lists flattened and cancellations left out, and otherwise it returns normally. "
     "Once a task has failed in any way, run and wait of its region throw task_canceled_exception and start nothing, while other regions are unaffected; before that they do not.",
     [S, P], "every schedule of bodies, tasks, nested regions, waits and failures, on pools of any size, inline and thread executors, the default executor and plain async, with several regions on one executor at a time",
     "Tests run a handful of tasks that fail at once and sleep for a second before they look; failures during a wait, regions that share an executor and nesting under preemption are not sampled.",
     [INC + "experimental/parallel/v2/task_region.hpp", INC + "experimental/parallel/v1/exception_list.hpp", FU],
     [("futures of the tasks in a vector, waited for at the end", INC + "experimental/parallel/v2/task_region.hpp"), ("flag that cancels the region", INC + "experimental/parallel/v2/task_region.hpp: wrapped")],
     [("group, canceled, exs", "tasks of a region, whether it is cancelled, what was thrown", INC + "experimental/parallel/v2/task_region.hpp")], ["calls and returns of task_region, run and wait; start and end of tasks; contents of the exception list; quiescence; live closures"])
prop("E01", "Pool, loop, thread and inline executors run accepted closures exactly once",
     "Every closure that submit accepts is run exactly once, together with everything its submitter wrote before, and one that was refused (after close, or because copying it or creating its thread failed) is never run; a pool runs closures as long as one of its threads is free, no more at a time than it has threads, after the entry function ran in each; a loop executor runs them in order and only inside loop, run_queued_closures, try_executing_one and reschedule_until; an inline executor before submit returns; a thread executor each in a new thread; try_executing_one and reschedule_until tell the truth, also inside of closures. Destruction, directly, through adaptors and references, and after join, closes the executor, lets everything that was accepted finish and returns only then; a constructor that fails leaves no thread behind, and all closures are destroyed.",
     [S, P, FS], "every schedule of submitters, workers, helpers, closing and destruction, closures that submit, help, close or are interrupted, refusal of threads, every way to pass a closure", "Tests submit a few closures and sleep until they have probably run; closing or destroying a pool between a submission and its execution is a schedule they do not produce.",
     [EX + "basic_thread_pool.hpp", EX + "loop_executor.hpp", EX + "thread_executor.hpp", EX + "inline_executor.hpp", EX + "executor.hpp", EX + "executor_adaptor.hpp", EX + "generic_executor_ref.hpp", EX + "work.hpp", INC + "detail/nullary_function.hpp"],
     [("workers pull from a sync_queue until it is closed", EX + "basic_thread_pool.hpp"), ("one queue run by the callers of loop", EX + "loop_executor.hpp")], [("work_queue, threads", "queue of closures, who hosts which", EX + "basic_thread_pool.hpp")], ["calls and returns of submit, close, closed, try_executing_one, reschedule_until, loop, join and destruction; start and end of closures with thread; quiescence; live closures"])
prop("E02", "Serial executors run one closure at a time, in order of submission",
     "The closures accepted by a serial_executor or serial_executor_cont over any executor run exactly once, one after the other in the order of submission, each seeing what the one before wrote, on the executor below; none is left waiting while the executor below has a free thread. After close submit reports the closing and runs nothing. Destruction returns only after all accepted closures have run.",
     [S, P], "every schedule of submitters, closing and destruction over pools, thread and inline executors, closures that submit, block, ask or close", "Tests submit a few closures from one thread.",
     [EX + "serial_executor.hpp", EX + "serial_executor_cont.hpp"], [("one thread that submits a closure and waits for it, then the next", EX + "serial_executor.hpp"), ("chain of continuations", EX + "serial_executor_cont.hpp")], [("work_queue, fut_", "queue of closures, order n of tasks", EX + "serial_executor.hpp")], ["calls and returns of submit, close, closed and destruction; start and end of closures; quiescence; live closures"])
prop("E03", "Scheduled executors run closures when due, never before, and each once",
     "A closure given to a scheduled_thread_pool, scheduling_adaptor or scheduler with submit_at, submit_after, at(...).submit or after(...).submit, directly or on another executor, runs exactly once, not before its time on the clock of the executor, in order of the times where one thread runs them, and when it is due as soon as a thread is free, also if the system clock was set. close refuses further closures, and destruction runs those that were due when the executor was closed, drops the others without running them, and returns when all running ones have ended. All closures are destroyed, and an lvalue that was passed is only copied.",
     [S, P, I], "every schedule of submitters, closing and destruction; due times in the past and future, relative and absolute, on steady and adjusted system clocks, with several threads", "Tests use a few closures, coarse sleeps and undisturbed clocks.",
     [EX + "scheduled_thread_pool.hpp", EX + "scheduling_adaptor.hpp", EX + "scheduler.hpp", EX + "detail/scheduled_executor_base.hpp", EX + "detail/priority_executor_base.hpp"], [("workers pull from a sync_timed_queue", EX + "detail/priority_executor_base.hpp"), ("resubmission when due", EX + "scheduler.hpp")], [("_workq", "tasks with due times lo, hi", EX + "detail/priority_executor_base.hpp")], ["calls and returns of submit, close, closed and destruction; start and end of closures; virtual time; quiescence; live closures"])
