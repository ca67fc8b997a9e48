// C04: a blocking subscription returns exactly when the stream has ended.
#include "h.hpp"
using namespace h;
namespace ops = rpp::operators;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th = std::thread;
enum
{
    RETURNED = 1
};

// must be called right after the blocking call returned
void check_returned(const Out& want, int sink = 0)
{
    mc::rec(MARK, RETURNED + sink);
    mc::Quiet q;
    bool      done = false;
    Out       at_return, all;
    for (auto& e : mc::events())
        if (e.code == S_END && e.a == sink)
        {
            at_return.push_back(dec(e.b));
            done |= dec(e.b).k != 'N';
        }
    mc::outcome(ref::str(at_return));
    if (!done)
        mc::fail("the blocking subscription returned before the stream ended; handled so far: [" + ref::str(at_return) + "]");
    if (!(at_return == want))
        mc::fail("the blocking subscription returned with [" + ref::str(at_return) + "] delivered instead of [" + ref::str(want) + "]");
    q.~Quiet();
    new (&q) mc::Quiet;
}
// nothing may arrive afterwards
void check_quiet(const Out& want, int sink = 0)
{
    mc::settle();
    mc::Quiet q;
    auto      hh = history(sink);
    if (!hh.problem.empty())
        mc::fail(hh.problem);
    if (!(hh.out == want))
        mc::fail("delivered [" + ref::str(hh.out) + "] instead of [" + ref::str(want) + "]");
}
template<class O>
void run(O&& o, const Out& want)
{
    Sink<V>{}.subscribe(std::forward<O>(o) | ops::as_blocking());
    check_returned(want);
    check_quiet(want);
}
#define T4 "C04"
SC("block_sync", T4) { run(cold(0, {N(1), N(2), C()}, false), {N(1), N(2), C()}); };
SC("block_sync_error", T4) { run(cold(0, {N(1), E(1)}, false), {N(1), E(1)}); };
SC("block_thread_complete", T4) { run(cold(0, {C()}, true), {C()}); };
SC("block_thread_error", T4) { run(cold(0, {E(2)}, true), {E(2)}); };
SC("block_thread_values", T4) { run(cold(0, {N(1), N(2), C()}, true), {N(1), N(2), C()}); };
SC("block_thread_values_error", T4) { run(cold(0, {N(1), N(2), E(1)}, true), {N(1), N(2), E(1)}); };
SC("block_values_after_end_ignored", T4) { run(cold(0, {N(1), C(), N(2), E(1)}, true), {N(1), C()}); };
SC("block_operators", T4) { run(cold(0, {N(1), N(2), C()}, true) | ops::map([](V v) { return v * 10; }) | ops::filter([](V v) { return v > 10; }), {N(20), C()}); };
SC("block_take", T4) { run(cold(0, {N(1), N(2), N(3)}, true) | ops::take(2), {N(1), N(2), C()}); };
SC("block_throwing_function", T4)
{
    run(cold(0, {N(1), N(2), C()}, true) | ops::map([](V v) -> V { if (v == 2) std::rethrow_exception(make_error(2)); return v; }), {N(1), E(2)});
};
SC("block_late_source", T4)
{
    // the source takes (virtual) time before it ends
    run(rpp::source::create<V>([](auto&& o) {
            Th{[d = std::forward<decltype(o)>(o).as_dynamic()] {
                std::this_thread::sleep_for(std::chrono::milliseconds{5});
                d.on_next(1);
                std::this_thread::sleep_for(std::chrono::milliseconds{5});
                d.on_completed();
            }}.detach();
        }),
        {N(1), C()});
};
SC("block_new_thread_source", T4) { run(rpp::source::just(rpp::schedulers::new_thread{}, V{1}, V{2}), {N(1), N(2), C()}); };
SC("block_observe_on", T4) { run(cold(0, {N(1), N(2), C()}, false) | ops::observe_on(rpp::schedulers::new_thread{}), {N(1), N(2), C()}); };
SC("block_observe_on_error", T4) { run(cold(0, {E(1)}, true) | ops::observe_on(rpp::schedulers::new_thread{}), {E(1)}); };
SC("block_subscribe_on", T4) { run(cold(0, {N(1), C()}, false) | ops::subscribe_on(rpp::schedulers::new_thread{}), {N(1), C()}); };
SC("block_delay", T4) { run(cold(0, {N(1), C()}, false) | ops::delay(std::chrono::milliseconds{3}, rpp::schedulers::new_thread{}), {N(1), C()}); };
SC("block_timer", T4) { run(rpp::source::timer(std::chrono::milliseconds{3}, rpp::schedulers::new_thread{}) | ops::map([](size_t v) { return V(v); }), {N(0), C()}); };
SC("block_interval_take", T4) { run(rpp::source::interval(std::chrono::milliseconds{3}, rpp::schedulers::new_thread{}) | ops::take(2) | ops::map([](size_t v) { return V(v); }), {N(0), N(1), C()}); };
SC("block_current_thread_interval", T4) { run(rpp::source::interval(std::chrono::milliseconds{3}, rpp::schedulers::current_thread{}) | ops::take(2) | ops::map([](size_t v) { return V(v); }), {N(0), N(1), C()}); };
SC("block_concat", T4) { run(rpp::source::concat(cold(0, {N(1), C()}, true), cold(1, {N(2), C()}, true)), {N(1), N(2), C()}); };
SC("block_retry", T4)
{
    auto n = std::make_shared<std::atomic<int>>(0);
    run(rpp::source::defer([n] { return n->fetch_add(1) == 0 ? cold(0, {N(1), E(1)}, true) : cold(0, {N(2), C()}, true); }) | ops::retry(2), {N(1), N(2), C()});
};
SC("block_merge_two_threads", T4)
{
    Sink<V>{}.subscribe((cold(0, {N(1), C()}, true) | ops::merge_with(cold(1, {N(2), C()}, true))) | ops::as_blocking());
    mc::Quiet q;
    auto      hh = history();
    mc::outcome(ref::str(hh.out));
    if (hh.out.size() != 3 || hh.out.back().k != 'C' || hh.out[0].v + hh.out[1].v != 3)
        mc::fail("returned with [" + ref::str(hh.out) + "]");
    q.~Quiet();
    mc::settle();
    new (&q) mc::Quiet;
    if (history().out.size() != 3)
        mc::fail("delivered after return: [" + ref::str(history().out) + "]");
};
SC("block_subject", T4)
{
    // the stream ends from a thread which knows nothing about the subscriber; it must not return before
    rpp::subjects::serialized_publish_subject<V> s;
    Th                                           t{[&] {
        Sink<V>{}.subscribe(s.get_observable() | ops::as_blocking());
        check_returned({C()}); }};
    s.get_observer().on_completed();
    t.join();
};
SC("block_subject_values", T4)
{
    rpp::subjects::serialized_replay_subject<V> s;
    Th                                          t{[&] {
        Sink<V>{}.subscribe(s.get_observable() | ops::as_blocking());
        check_returned({N(1), N(2), C()}); }};
    auto o = s.get_observer();
    o.on_next(1);
    o.on_next(2);
    o.on_completed();
    t.join();
};
SC("block_two_subscribers", T4)
{
    rpp::subjects::serialized_replay_subject<V> s;
    Th                                          t{[&] {
        Sink<V>{0}.subscribe(s.get_observable() | ops::as_blocking());
        check_returned({N(1), E(1)}, 0); }};
    Th                                          u{[&] {
        Sink<V>{1}.subscribe(s.get_observable() | ops::as_blocking());
        check_returned({N(1), E(1)}, 1); }};
    auto o = s.get_observer();
    o.on_next(1);
    o.on_error(make_error(1));
    t.join();
    u.join();
};
SC("block_does_not_return_early", T4)
{
    // the stream only ends after everything else came to rest: by then the subscriber must still be waiting
    rpp::subjects::serialized_publish_subject<V> s;
    std::atomic<bool>                            returned{false};
    Th                                           t{[&] {
        Sink<V>{}.subscribe(s.get_observable() | ops::as_blocking());
        returned = true;
        check_returned({N(1), C()}); }};
    mc::settle();
    if (returned)
        mc::fail("the blocking subscription returned although the stream has not ended");
    s.get_observer().on_next(1);
    mc::settle();
    if (returned)
        mc::fail("the blocking subscription returned on a value");
    s.get_observer().on_completed();
    t.join();
};
SC("block_repeated", T4)
{
    auto o = cold(0, {N(1), C()}, true) | ops::as_blocking();
    Sink<V>{0}.subscribe(o);
    check_returned({N(1), C()}, 0);
    Sink<V>{1}.subscribe(o);
    check_returned({N(1), C()}, 1);
};
SC("block_dynamic_observer", T4)
{
    (cold(0, {N(1), C()}, true) | ops::as_blocking()).subscribe(Sink<V>{}.observer().as_dynamic());
    check_returned({N(1), C()});
};
SC("block_map_of_blocking", T4)
{
    // operators behind as_blocking keep it blocking
    Sink<V>{}.subscribe((cold(0, {N(1), C()}, true) | ops::as_blocking()) | ops::map([](V v) { return v + 1; }));
    check_returned({N(2), C()});
};
} // namespace
