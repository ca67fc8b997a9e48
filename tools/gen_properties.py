#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe_at, state=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe_at}
    if state: a["state"] = state
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
R = "src/rpp/rpp/"
OPS = R + "operators/"

p("C01", "Streams combined from several threads deliver notifications one at a time",
  "When the sources of a combining stream (merge, flat map, concat, switch to latest, combine latest, zip, with latest from, take until, and windows or groups toggled by another stream) emit from different threads, the subscriber never receives a notification while it is still handling another one, and each notification happens-before the next. The combined stream delivers at most one terminal notification and nothing after it, whichever sources complete or fail concurrently.",
  ["schedules"], "every interleaving of 2-3 threads driving the sources of one combined stream, up to a preemption bound",
  "Overlap needs one thread to be descheduled between a check and a call inside an operator; unit tests run one thread or sample a handful of OS schedules.",
  [OPS+"merge.hpp", OPS+"concat.hpp", OPS+"switch_on_next.hpp", OPS+"combine_latest.hpp", OPS+"zip.hpp", OPS+"with_latest_from.hpp", OPS+"take_until.hpp", OPS+"window_toggle.hpp", OPS+"details/combining_strategy.hpp", R+"observers/observer.hpp"],
  [("observer guarded by a mutex", "rpp::utils::value_with_mutex / pointer_under_lock in operator states"), ("terminal flag", "observer_impl::on_error/on_completed and disposable strategies")],
  "the final subscriber's callbacks")

p("C02", "Combining from several threads loses, duplicates and reorders nothing",
  "When the sources of merge, flat map, concat, zip, combine latest, with latest from, switch to latest or take until emit from different threads, what the subscriber receives is what the operator would produce for some sequential order of those emissions that respects each thread's own order. In particular merged and concatenated streams deliver every value exactly once in source order, and completion is delivered after, and only after, everything that had to finish has finished.",
  ["schedules"], "every interleaving of 2-3 emitting threads up to a preemption bound, compared with all sequential orders of the reference model",
  "A lost inner stream, a completion that overtakes a value or a completion never sent depends on a window a few instructions wide.",
  [OPS+"merge.hpp", OPS+"concat.hpp", OPS+"switch_on_next.hpp", OPS+"combine_latest.hpp", OPS+"zip.hpp", OPS+"with_latest_from.hpp", OPS+"take_until.hpp", OPS+"flat_map.hpp", OPS+"details/combining_strategy.hpp"],
  [("completion counter", "merge_state / combining_state::decrement_on_completed"), ("stage machine", "concat_state_t::stage, drain()"), ("per-source queues", "zip pendings, combine_latest values")],
  "the final subscriber's received sequence after all threads finished")

p("C03", "Cancelling a live subscription from another thread is clean",
  "A subscription may be disposed from any thread while its sources are emitting: the call returns, nothing deadlocks, and nothing a source emits after the call returned reaches the subscriber. Every source that was subscribed is told to stop exactly once, and no notification arrives at an already destroyed object.",
  ["schedules"], "every interleaving of a disposing thread with 1-2 emitting threads up to a preemption bound, for every combining, transforming and subject based stream in the harness set",
  "Whether dispose meets an emission, a terminal event or an upstream registration half way is a matter of scheduling.",
  [R+"observers/observer.hpp", R+"observers/details/disposable_strategy.hpp", R+"disposables/composite_disposable.hpp", R+"disposables/refcount_disposable.hpp", OPS+"merge.hpp", OPS+"concat.hpp", OPS+"switch_on_next.hpp"],
  [("dispose flag and upstream registration", "observer_impl, disposable strategies"), ("composite dispose", "composite_disposable_impl::dispose/add")],
  "the subscriber's callbacks, the sources' cancellation callbacks and the return of dispose")

p("C04", "Blocking subscription returns exactly when the stream has terminated",
  "A blocking subscription returns if and only if the stream delivered its completion or error, whichever thread delivers it and whenever it does so relative to the subscriber going to sleep. All values emitted before the terminal event have been delivered when it returns, and the error, if any, was delivered to the subscriber.",
  ["schedules"], "every interleaving of the blocking thread with the emitting thread up to a preemption bound, for every source length and terminal kind in the bound",
  "A lost wake-up or an early return needs the terminal event to land between the check and the sleep.",
  [R+"observables/blocking_observable.hpp", OPS+"as_blocking.hpp", OPS+"subscribe.hpp"],
  [("condition variable hand-off", "blocking_strategy / blocking disposable")],
  "return of subscribe and the subscriber's callbacks")

p("C05", "Moving a stream to other threads keeps its order, completeness and end",
  "Streams that are moved to other threads (subscribe on, observe on, delay, and sources running on new thread, thread pool or computational schedulers) deliver all values of the source exactly once, in source order, followed by its terminal notification, never two notifications at the same time and never anything after the terminal one. An error may overtake values that are still waiting, but only as a whole: no value follows it.",
  ["schedules"], "every interleaving of source thread, worker threads and virtual clock up to a preemption bound",
  "Worker hand-over, queue draining and terminal events race; tests only compare the result of some runs.",
  [OPS+"observe_on.hpp", OPS+"delay.hpp", OPS+"subscribe_on.hpp", R+"schedulers/new_thread.hpp", R+"schedulers/thread_pool.hpp", R+"schedulers/computational.hpp", R+"schedulers/details/queue.hpp"],
  [("hand-over queue", "delay_state queue and is_active flag, drain_queue"), ("worker queue", "new_thread::state_t, schedulables_queue")],
  "the subscriber's received sequence and the threads it runs on")

p("C06", "Time-driven operators stay correct when time and source race",
  "Debounce, timeout, throttle, and timed windows stay correct when the timer fires on another thread at the very moment the source emits or terminates: notifications do not overlap, at most one terminal notification is delivered and nothing follows it. Debounce never loses the value pending at completion and never emits a value twice; timeout delivers either the value or the timeout outcome, after which the original source is no longer heard.",
  ["schedules"], "every interleaving of a source thread, a timer thread and advances of a virtual clock, up to a preemption bound",
  "The timer and the source meet only within nanoseconds in real runs.",
  [OPS+"debounce.hpp", OPS+"timeout.hpp", OPS+"throttle.hpp", OPS+"delay.hpp"],
  [("pending value under lock", "debounce_state"), ("timeout state lock", "timeout_state / timeout_disposable")],
  "the subscriber's received sequence")

p("D01", "A disposable's action runs exactly once under any concurrency",
  "However many threads dispose the same disposable, dispose or clear its parent, or add it to and remove it from composites at the same time, its action runs exactly once if it was disposed at all and never otherwise, and after any dispose call returned it reports being disposed. Something added to a composite that is or becomes disposed concurrently is itself disposed, and nothing added is forgotten.",
  ["schedules"], "every interleaving of 2-3 threads performing 1-2 operations each on shared disposables, up to a preemption bound",
  "Double execution or a forgotten child needs an add, remove, clear and dispose to meet inside their critical windows.",
  [R+"disposables/composite_disposable.hpp", R+"disposables/details/base_disposable.hpp", R+"disposables/callback_disposable.hpp", R+"disposables/disposable_wrapper.hpp", R+"disposables/refcount_disposable.hpp"],
  [("state word None/Edit/Disposed", "composite_disposable_impl"), ("atomic exchange", "base_disposable_impl::dispose")],
  "execution counts of callback disposables and is_disposed()")

p("D02", "Composite and ref-counted disposables follow their group semantics",
  "For every sequence of operations, a composite disposes every member it still contains exactly once when it is cleared or disposed, disposes at once anything added after disposal, never touches a removed member, and stays usable after clear. A ref-counted disposable disposes its underlying resource exactly when its last outstanding reference (or itself) is disposed, and hands out no live reference afterwards; weak wrappers never keep their target alive.",
  ["histories"], "every operation sequence up to a depth over 2-3 disposables, including operations issued from inside a disposal action",
  "Bugs hide in particular orders of add, remove, clear, dispose and in re-entrant calls that a hand-written test does not combine.",
  [R+"disposables/composite_disposable.hpp", R+"disposables/refcount_disposable.hpp", R+"disposables/disposable_wrapper.hpp", R+"disposables/details/container.hpp", R+"disposables/callback_disposable.hpp"],
  [("containers", "dynamic/static disposables containers"), ("reference count", "refcount_disposable::add_ref/release")],
  "callback counts and is_disposed() after every operation")

p("S01", "A subject forwards every event to exactly its current subscribers",
  "For every history of subscribing, unsubscribing, emitting, failing, completing and disposing, including calls made from inside a subscriber's own callback, a publish subject forwards each value to exactly the observers subscribed when it was emitted and still subscribed when their turn comes, each once and in order. Late subscribers of a finished subject receive just its terminal event, a finished or disposed subject forwards nothing, and one observer leaving never affects another.",
  ["histories"], "every operation sequence up to a depth with up to 3 observers, with re-entrant operations at every callback",
  "Re-entrant subscription changes during delivery interact with copied observer lists; combinations grow beyond hand-written cases.",
  [R+"subjects/publish_subject.hpp", R+"subjects/details/subject_state.hpp", R+"subjects/details/subject_on_subscribe.hpp"],
  [("observer list snapshot", "subject_state::on_next"), ("removal", "disposable_with_observer::base_dispose_impl")],
  "every observer's received trace")

p("S02", "Behavior and replay subjects give late subscribers the right history",
  "A behavior subject gives every new subscriber the latest value (or the initial one) first and then everything emitted later; a replay subject gives the retained values, limited by count and age, in order, followed by everything emitted later and, for a finished subject, its terminal event. The value read from a behavior subject is always the last one emitted, and retained values never exceed the configured bounds.",
  ["histories"], "every operation sequence up to a depth with up to 3 observers, replay bounds and virtual times",
  "The interplay of bound, age, termination and late subscription has more combinations than tests enumerate.",
  [R+"subjects/behavior_subject.hpp", R+"subjects/replay_subject.hpp", R+"subjects/details/subject_state.hpp"],
  [("replay buffer", "replay_subject state"), ("current value", "behavior_subject state")],
  "every observer's received trace and get_value()")

p("S03", "Serialized subjects may be fed and subscribed from any threads",
  "With the serialized variants, several threads may emit, complete, fail, subscribe and unsubscribe at once: each observer sees non-overlapping notifications, every emitter's values in that emitter's order, at most one terminal event and nothing after it. All observers that stay subscribed see the same sequence, no value emitted while an observer is fully subscribed is lost or repeated, and replayed history joins the live values without gap, duplicate or inversion.",
  ["schedules"], "every interleaving of 2-3 threads with 1-3 operations each up to a preemption bound",
  "Joining a live stream, concurrent unsubscription and serialisation are decided by lock windows that tests hit by luck.",
  [R+"subjects/details/subject_state.hpp", R+"subjects/publish_subject.hpp", R+"subjects/behavior_subject.hpp", R+"subjects/replay_subject.hpp"],
  [("serialising mutex", "subject_state::m_serialized_mutex"), ("observer list mutex", "subject_state::m_mutex")],
  "every observer's received trace")

p("S04", "Connectable streams connect once, share, and reset at zero subscribers",
  "A connectable stream subscribes to its source only on connection and at most once per connection, and all its subscribers share that single subscription. With automatic reference counting the source is subscribed when the first subscriber arrives, unsubscribed when the last one leaves, and subscribed afresh if another comes later; these hold for every order of arrivals, departures, connections, disconnections and source events, also from several threads.",
  ["histories", "schedules"], "every operation sequence up to a depth with up to 3 subscribers, and every interleaving of 2 threads arriving and leaving",
  "Reconnection after termination, re-entrant departure and concurrent arrival and departure are seldom combined in tests.",
  [R+"observables/connectable_observable.hpp", OPS+"ref_count.hpp", OPS+"multicast.hpp", OPS+"publish.hpp", OPS+"details/forwarding_subject.hpp", R+"disposables/refcount_disposable.hpp"],
  [("connection state", "connectable_observable::connect"), ("reference count", "ref_count_observable_impl")],
  "number of live source subscriptions and every subscriber's trace")

p("H01", "Schedulers run tasks in due-time order, never early, ties in order",
  "Every worker runs its tasks in order of their due time and, for equal due times, in the order they were scheduled, and never before they are due; a task that asks to be repeated runs again at exactly the point it asked for (relative to now, to its previous due time, or absolute). This holds for every scheduler kind and for tasks scheduled from inside other tasks.",
  ["programs", "schedules"], "every small program of scheduling calls (delays, nesting, repetition kinds) on every scheduler under a virtual clock",
  "Order bugs appear only for particular mixes of delays, nesting and repetition; wall-clock tests cannot tell late from early reliably.",
  [R+"schedulers/details/queue.hpp", R+"schedulers/details/utils.hpp", R+"schedulers/current_thread.hpp", R+"schedulers/new_thread.hpp", R+"schedulers/run_loop.hpp", R+"schedulers/thread_pool.hpp", R+"schedulers/immediate.hpp", R+"schedulers/details/worker.hpp"],
  [("sorted queue", "schedulables_queue::emplace_impl"), ("repetition", "schedulable_base::handle_advanced_call")],
  "the log of task starts with virtual times")

p("H02", "Thread-backed schedulers lose no task and run each worker on one thread",
  "Every task scheduled on a new-thread, thread-pool or run-loop worker from any thread runs exactly once as soon as it is due and the worker is free, even when it is scheduled while the worker is falling asleep, sleeping towards a later task, or shutting down after its last handle was dropped. Tasks of one worker never overlap, a worker's thread ends once its handles are gone and its queue is empty, and a pool uses no more threads than configured.",
  ["schedules"], "every interleaving of scheduling threads, worker threads and clock advances up to a preemption bound",
  "Lost wake-ups, late wake-ups and shutdown races depend on the exact moment of scheduling.",
  [R+"schedulers/new_thread.hpp", R+"schedulers/thread_pool.hpp", R+"schedulers/run_loop.hpp", R+"schedulers/details/queue.hpp", R+"schedulers/computational.hpp"],
  [("wait/notify", "new_thread data_thread and schedulables_queue::emplace_impl"), ("shutdown", "new_thread::state_t::~state_t, run_loop dispose")],
  "log of task executions with thread and virtual time; thread termination")

p("H03", "Disposed work never runs and failing work reports its error",
  "A task whose handler was disposed before the task starts never runs, and a repeating task stops repeating once its handler is disposed, on every scheduler and from every thread; it does not delay or drop other tasks. An exception escaping a task is delivered to that task's handler exactly once and neither kills the worker nor disturbs other tasks.",
  ["programs", "schedules"], "every small program of tasks with a disposal or an exception at every possible point, on every scheduler, and every interleaving of a disposing thread with a worker",
  "The disposal has to land before, between or during runs of the task, on each scheduler; tests try one point each.",
  [R+"schedulers/details/queue.hpp", R+"schedulers/details/utils.hpp", R+"schedulers/current_thread.hpp", R+"schedulers/new_thread.hpp", R+"schedulers/run_loop.hpp", R+"schedulers/immediate.hpp"],
  [("disposed check before run", "drain_queue, data_thread, dispatch_impl"), ("exception routing", "specific_schedulable::operator()")],
  "log of task executions and handler errors")

p("H04", "Same-thread scheduling never recurses and always drains",
  "Work scheduled on the current-thread scheduler from within other current-thread work on the same thread is queued and runs after the current piece returned, so nested streams interleave fairly instead of recursing; when the outermost call returns, everything due has run and nothing stays behind. The immediate scheduler runs the work to its end before returning. Different threads never share a queue.",
  ["programs", "schedules"], "every nesting of scheduling calls up to a depth, with disposals, exceptions and queue ownership by operators, plus two threads at once",
  "Draining and ownership depend on nesting shape and on exits by error or disposal, which grow combinatorially.",
  [R+"schedulers/current_thread.hpp", R+"schedulers/immediate.hpp", R+"schedulers/details/utils.hpp"],
  [("thread-local queue ownership", "current_thread::get_queue/own_queue_guard/drain_queue")],
  "start/end log of tasks relative to each other and to the scheduling call")

p("O01", "Single-source operators compute exactly their documented function",
  "For every source sequence and termination, each single-source value operator (map, filter, take, skip, take while, take last, first, last, element at, distinct, distinct until changed, scan, reduce and its aggregates, buffer, start with, tap, finally and similar) emits exactly the documented sequence, each item at the moment its input makes it available, and the documented terminal event. It never asks for more than it needs: a source is cancelled as soon as the result is decided.",
  ["inputs"], "every source sequence up to a length over a small alphabet with every termination, for every operator and its small parameters, and two-operator chains",
  "Boundary counts, empty sources, termination at each position and chained state are a product no test list covers.",
  [OPS+x for x in ("map.hpp","filter.hpp","take.hpp","skip.hpp","take_while.hpp","take_last.hpp","first.hpp","last.hpp","element_at.hpp","distinct.hpp","distinct_until_changed.hpp","scan.hpp","reduce.hpp","buffer.hpp","start_with.hpp","tap.hpp","finally.hpp")],
  [("operator strategies", "*_observer_strategy::on_next/on_error/on_completed")],
  "the subscriber's trace after every source event, and the source's cancellation")

p("O02", "A throwing user callback becomes exactly one error",
  "Whenever a user function which an operator or a source calls to produce, transform, combine, select, filter or time values (or the subscriber's on_next callback) throws, at whichever call, the exception reaches the subscriber as the single error notification carrying that exception, nothing follows it, the sources are cancelled, and the exception does not escape to the emitter. Errors already in flight are passed through unchanged by operators that do not handle errors. (Callbacks for on_error and on_completed must not throw: they are called from noexcept functions.)",
  ["inputs", "fault_sequences"], "a throw injected at every call index of every user function of every operator, for every source sequence up to a length",
  "Tests throw from one call of some operators; the guarantee is for each call of each user function in each state.",
  [R+"observers/observer.hpp", R+"observables/observable.hpp", OPS+"map.hpp", OPS+"scan.hpp", OPS+"group_by.hpp", OPS+"combine_latest.hpp", OPS+"details/strategy.hpp", R+"sources/create.hpp"],
  [("exception barrier", "observer_impl::on_next try/catch, observable::subscribe")],
  "the subscriber's trace, the emitter's view of the call and source cancellation")

p("O03", "Repeat, retry and error recovery resubscribe exactly as specified",
  "Repeat, retry, retry-when and resume-on-error subscribe to the source exactly as many times as specified, one subscription after the other, never before the previous one ended, and deliver the concatenation of what those subscriptions emitted with the specified final event; a failed or completed subscription is released before the next starts. This holds for synchronous and asynchronous sources, any mix of outcomes and cancellation at any point, without unbounded recursion.",
  ["inputs", "histories"], "every assignment of outcomes (values then complete, error or silence, synchronous or later) to successive subscriptions, every count, and cancellation at every point",
  "Synchronous and asynchronous endings take different paths through the drain loops, and mixes of both are not tested.",
  [OPS+"repeat.hpp", OPS+"retry.hpp", OPS+"retry_when.hpp", OPS+"on_error_resume_next.hpp", R+"sources/concat.hpp"],
  [("drain loop", "is_inside_drain flags in retry, retry_when and source concat")],
  "the subscriber's trace and the number of live source subscriptions")

p("O04", "Multi-source operators compute their documented combination",
  "For every interleaving of events of several sources (values, errors, completions, in any order, synchronous or later), merge, concat, switch to latest, flat map, zip, combine latest, with latest from, take until, start with and their variants emit exactly the documented combination at the documented moment and end exactly when documented. Remaining sources are cancelled as soon as the result has ended.",
  ["histories"], "every interleaving of event sequences of 2-3 sources up to a depth",
  "The number of orders in which two or three sources can emit, fail and end is far beyond example tests.",
  [OPS+"merge.hpp", OPS+"concat.hpp", OPS+"switch_on_next.hpp", OPS+"flat_map.hpp", OPS+"zip.hpp", OPS+"combine_latest.hpp", OPS+"with_latest_from.hpp", OPS+"take_until.hpp", OPS+"start_with.hpp", OPS+"details/combining_strategy.hpp", R+"sources/concat.hpp"],
  [("combining states", "merge_state, concat_state_t, switch_on_next_state_t, combining_state, zip/combine_latest")],
  "the subscriber's trace after every source event and the sources' cancellation")

p("O05", "Groups and windows partition the source exactly",
  "Group-by, window and window-toggle route every source value to exactly the groups or windows it belongs to, in order; each group or window is announced once, before its first value, and ends with the source's terminal event or at its documented boundary. Cancelling one group, one window or the outer subscription never affects the others, and the source is cancelled only when nobody is left to listen.",
  ["histories"], "every source sequence up to a length, with every group/window subscription and cancellation pattern and opening/closing order",
  "Which windows are open, which consumers left and when the source ends combine into too many histories.",
  [OPS+"group_by.hpp", OPS+"window.hpp", OPS+"window_toggle.hpp", OPS+"details/forwarding_subject.hpp", R+"disposables/refcount_disposable.hpp", R+"observables/grouped_observable.hpp"],
  [("group map", "group_by_observer_strategy"), ("current window subject", "window_observer_strategy, window_toggle_state")],
  "traces of outer and inner subscribers and source cancellation")

p("O06", "Timed operators and sources act at exactly the documented times",
  "Under any timing of the source, delay, debounce, throttle, timeout, interval, timer and timed replay act exactly at their documented instants: a value is delayed by exactly the period, debounce emits the last value after a quiet period, throttle keeps the first value per period, timeout fires exactly when nothing arrived within the period, intervals neither drift nor skip. Values that are not emitted by these rules are never emitted.",
  ["inputs", "schedules"], "every sequence of source events over a small grid of times, coinciding with, before and after every deadline",
  "Events that coincide with a deadline, or arrive while a timer is being rearmed, are not reachable with wall-clock tests.",
  [OPS+"delay.hpp", OPS+"debounce.hpp", OPS+"throttle.hpp", OPS+"timeout.hpp", R+"sources/interval.hpp", R+"sources/timer.hpp", R+"schedulers/test_scheduler.hpp"],
  [("deadline arithmetic", "delay/debounce/timeout states and schedulers")],
  "the subscriber's trace with virtual times")

p("O07", "Every subscription to the same stream is independent",
  "A stream description can be subscribed any number of times, one after another or overlapping, and copied or moved: each subscription starts with fresh operator and source state and receives what it would receive alone. Subscribing, terminating or cancelling one subscription never changes another or the description itself, unless sharing was asked for explicitly. A description owns what it was built from: functions, values, containers and other streams passed to it may be destroyed before it is subscribed.",
  ["programs"], "two overlapping or successive subscriptions to every stream shape in the set, at every relative position, compared with each alone",
  "State leaking from the shared description into a subscription only shows on the second or overlapping subscription.",
  [R+"observables/observable.hpp", R+"observables/details/chain_strategy.hpp", OPS+"details/strategy.hpp", R+"sources/from.hpp", R+"sources/concat.hpp", R+"sources/defer.hpp"],
  [("per-subscription strategy construction", "lift_operator / chain strategy subscribe")],
  "each subscriber's trace")

p("O08", "Resources are released when a subscription ends",
  "Once a subscription has completed, failed or been cancelled, and the caller dropped its handles, everything the library held for it - subscribers, user functions, buffered values, upstream subscriptions - is destroyed exactly once, whatever the history; nothing is used after destruction. While a stream is alive nothing it still needs is destroyed, and it lets go of each inner stream or resubscription as soon as that one is over: a stream which goes on through any number of them doesn't hold more and more memory.",
  ["histories"], "every event history of every stream shape up to a depth, with live-object counting and poisoned freed memory",
  "Reference cycles and premature releases appear only for particular endings and hold patterns.",
  [R+"observers/observer.hpp", R+"observers/dynamic_observer.hpp", R+"disposables/disposable_wrapper.hpp", R+"disposables/composite_disposable.hpp", OPS+"group_by.hpp", OPS+"merge.hpp", R+"subjects/details/subject_state.hpp"],
  [("shared ownership graph", "states holding observers and disposables")],
  "live counts of tracked values, observers and callbacks")

p("O09", "After cancelling, a stream is silent and its sources are stopped",
  "When a subscriber disposes its subscription at any point, from outside or from inside its own callback, no further notification reaches it, every subscribed source is cancelled exactly once, and sources that emit regardless are ignored. This holds for every operator and at every moment of its life.",
  ["histories"], "a disposal inserted at every point (including inside every callback) of every event history up to a depth for every stream shape",
  "A disposal can hit each operator in each internal state; tests dispose at one or two convenient moments.",
  [R+"observers/observer.hpp", R+"observers/lambda_observer.hpp", R+"observers/details/disposable_strategy.hpp", R+"disposables/composite_disposable.hpp", OPS+"details/combining_strategy.hpp"],
  [("disposed checks", "observer_impl"), ("upstream propagation", "set_upstream chains")],
  "the subscriber's trace and source cancellation counts")

p("R01", "Sources emit exactly their contents and stop when asked",
  "Every built-in source (values, containers, callables, futures-like callables, custom creation, deferred creation, empty, error, never, concatenation, ranges of time) emits exactly its contents in order and then its terminal event, evaluates lazily once per subscription, and stops promptly when the subscriber has had enough - for every content, container category, memory model and scheduler.",
  ["inputs", "configurations"], "every content up to a length for every source kind, memory model and scheduler, cancelled after every number of values",
  "Source, memory model, scheduler and cancellation point multiply; ownership bugs show only for some combinations.",
  [R+"sources/from.hpp", R+"sources/just.hpp", R+"sources/create.hpp", R+"sources/defer.hpp", R+"sources/concat.hpp", R+"sources/empty.hpp", R+"sources/error.hpp", R+"sources/never.hpp", R+"sources/interval.hpp", R+"sources/timer.hpp", R+"memory_model.hpp"],
  [("iteration", "from_iterable schedulables"), ("memory model", "use_stack / use_shared containers")],
  "the subscriber's trace and evaluation counters")

p("R02", "Type-erased streams and observers behave like the original",
  "Erasing the type of an observable, connectable, grouped or variant stream or of an observer never changes behaviour: for every event history the erased form delivers the same trace, reports the same disposed state, propagates cancellation the same way, and copies of an erased observer share one subscription state. Observers ignore anything after a terminal event or disposal in either form.",
  ["histories"], "every observer and stream call sequence up to a depth, applied to plain and erased forms side by side",
  "Equivalence has to hold for every call order, including misuse after termination, which tests sample.",
  [R+"observers/dynamic_observer.hpp", R+"observers/observer.hpp", R+"observables/dynamic_observable.hpp", R+"observables/variant_observable.hpp", R+"observers/details/disposable_strategy.hpp"],
  [("vtables", "dynamic_observer / dynamic_observable"), ("single shot state", "observer_impl")],
  "traces, is_disposed and upstream disposal of both forms")

p("R03", "Every way of subscribing gives the same stream, and handles control exactly it",
  "All forms of subscribing - member functions and the subscribe / subscribe_with_disposable operators, with callbacks, observers, type-erased observers or own observer strategies, with no handle, a given or a returned one, on streams which announce any number of upstreams - deliver the same values and the same terminal event, once; nothing is delivered after a terminal event, after cancelling through the handle or while an own strategy says it is disposed; an upstream passed by the stream is disposed exactly once when the subscription ends, at once if it has ended already; a handle which is already disposed or empty means that the stream is not subscribed; the callbacks are released with the subscription.",
  ["histories", "configurations"], "every sequence of calls of an observable up to a depth, every split of it into calls made while subscribing and later, for every form of subscription and kind of stream",
  "Some 45 overloads times the disposable strategies of the streams times call order; tests use a handful of combinations.",
  [R+"observables/observable.hpp", OPS+"subscribe.hpp", R+"observers/observer.hpp", R+"observers/lambda_observer.hpp", R+"observers/details/disposable_strategy.hpp", R+"observables/details/disposable_strategy.hpp", R+"disposables/details/container.hpp"],
  [("overloads", "observable::subscribe*, operators::details::subscribe_t"), ("disposable strategies", "local_disposable_strategy, with_disposable_strategy")],
  "the subscriber's trace, is_disposed of observer and handle, disposal of every upstream")

p("M01", "No data race or use of freed memory in supported concurrent use",
  "Used concurrently in any supported way - sources on different threads under combining operators, serialized subjects, shared disposables, schedulers and their workers - the library's internals never access the same memory concurrently without synchronisation, never touch freed memory and never deadlock.",
  ["schedules"], "every interleaving up to a preemption bound of a suite of concurrent programs covering schedulers, disposables, serialized subjects and combining operators, with happens-before race detection on every memory access",
  "A race is a property of the happens-before order of all accesses; tests observe only its occasional consequences.",
  [R+"disposables/composite_disposable.hpp", R+"subjects/details/subject_state.hpp", R+"schedulers/new_thread.hpp", R+"schedulers/thread_pool.hpp", R+"observers/details/disposable_strategy.hpp", OPS+"merge.hpp", OPS+"concat.hpp"],
  [("atomics and mutexes", "all of the above")],
  "every instrumented memory access of library code")

p("X01", "The asio strand scheduler serialises tasks and keeps time order",
  "Tasks scheduled on one strand worker never overlap even when several threads run the context, tasks scheduled for now run in scheduling order, delayed tasks run no earlier than due, repeating tasks repeat at the requested instants, disposed tasks do not run, a throwing task passes the exception to its handler, and work queued for the current thread inside a strand task is carried out on the strand.",
  ["programs", "schedules"], "every small program of scheduling calls with delays, nesting, repetition, disposal and exceptions, driven by a manually polled context and virtual clock, and with two context threads",
  "Depends on the order in which the context completes timers and posts.",
  ["src/extensions/rppasio/rppasio/schedulers/strand.hpp"],
  [("strand posting", "state_t::defer/defer_with_time"), ("queue guard", "current_thread_queue_guard")],
  "log of task starts and ends")

p("X02", "Qt integration delivers on the main loop and ends with its object",
  "Work scheduled on the Qt main-thread scheduler, from any thread, runs only from the main event loop, never early, in due order (to the millisecond), repeats as requested, passes its exception to its handler, does not run once disposed, and reports an error when there is no application. A stream made from a Qt signal delivers every emission to its current subscribers in order and completes exactly once when the object is destroyed.",
  ["programs", "histories"], "every small program of scheduling calls and every history of signal emission, subscription, cancellation and object destruction up to a depth",
  "Histories of subscription, emission and destruction, and programs of repeated tasks, multiply beyond examples.",
  ["src/extensions/rppqt/rppqt/schedulers/main_thread.hpp", "src/extensions/rppqt/rppqt/sources/from_signal.hpp"],
  [("timer posting", "main_thread_scheduler::worker_strategy"), ("signal connection", "from_signal")],
  "log of task runs and subscriber traces")

p("X03", "gRPC reactors send in order, one at a time, and finish once",
  "For every order of application events and transport callbacks, a reactor starts the next write only after the previous one is done, sends every value given to it once and in order, finishes the stream exactly once and only after everything was written, delivers every message read once and in order, and turns the call's end into completion or error of its observable exactly once.",
  ["histories", "schedules"], "every order of emissions, completions, errors, write-done, read-done, cancel and done callbacks up to a depth for each reactor kind, plus two threads at once",
  "Transport callbacks arrive in orders chosen by the network; tests against a local server see one.",
  ["src/extensions/rppgrpc/rppgrpc/details/base.hpp", "src/extensions/rppgrpc/rppgrpc/client_reactor.hpp", "src/extensions/rppgrpc/rppgrpc/server_reactor.hpp"],
  [("write queue", "base_writer"), ("read loop", "base_reader")],
  "calls made to the transport and the observable's trace")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
