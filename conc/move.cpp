// C05: streams moved to other threads.
#include "h.hpp"
using namespace h;
namespace ops = rpp::operators;
namespace sch = rpp::schedulers;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th = std::thread;
using std::chrono::milliseconds;

// want: values then terminal.  An error may drop values still waiting (`overtake`), but then as a whole.
void check_moved(const Out& want, bool overtake = false, int sink = 0, bool other_thread = true)
{
    mc::settle();
    mc::Quiet q;
    auto      hh = history(sink);
    mc::outcome(ref::str(hh.out));
    if (!hh.problem.empty())
        mc::fail(hh.problem);
    bool ok = hh.out == want;
    if (!ok && overtake && !hh.out.empty() && !want.empty() && hh.out.back() == want.back() && want.back().k == 'E')
    {
        ok = hh.out.size() <= want.size();
        for (size_t i = 0; ok && i + 1 < hh.out.size(); ++i)
            ok = hh.out[i] == want[i];
    }
    if (!ok)
        mc::fail("delivered [" + ref::str(hh.out) + "] instead of [" + ref::str(want) + "]");
    if (other_thread)
        for (auto& e : mc::events())
            if (e.code == S_BEGIN && e.a == sink && e.thread == 0 && dec(e.b).k != 'E')
                mc::fail("notification " + ref::str({dec(e.b)}) + " delivered on the subscribing thread");
}
template<class F>
void manual(F pipe, std::vector<Ev> script, const Out& want, bool overtake = false)
{
    Src<V>  s{0};
    Sink<V> sink;
    sink.subscribe(pipe(s.observable()));
    s.play(script);
    check_moved(want, overtake);
}
#define T5 "C05"
#define PIPE(...) [&](auto o) { return (o | __VA_ARGS__); }
SC("observe_on", T5) { manual(PIPE(ops::observe_on(sch::new_thread{})), {N(1), N(2), N(3), C()}, {N(1), N(2), N(3), C()}); };
SC("observe_on_empty", T5) { manual(PIPE(ops::observe_on(sch::new_thread{})), {C()}, {C()}); };
SC("observe_on_error", T5) { manual(PIPE(ops::observe_on(sch::new_thread{})), {N(1), N(2), E(1)}, {N(1), N(2), E(1)}, true); };
SC("observe_on_error_first", T5) { manual(PIPE(ops::observe_on(sch::new_thread{})), {E(1)}, {E(1)}, true); };
SC("observe_on_map", T5) { manual(PIPE(ops::observe_on(sch::new_thread{}) | ops::map([](V v) { return v + 1; })), {N(1), N(2), C()}, {N(2), N(3), C()}); };
SC("observe_on_take", T5) { manual(PIPE(ops::observe_on(sch::new_thread{}) | ops::take(1)), {N(1), N(2), C()}, {N(1), C()}); };
SC("observe_on_twice", T5) { manual(PIPE(ops::observe_on(sch::new_thread{}) | ops::observe_on(sch::new_thread{})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("observe_on_delayed", T5) { manual(PIPE(ops::observe_on(sch::new_thread{}, milliseconds{2})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("observe_on_delayed_time", T5, .quick_bound = 2, .thorough_bound = 4, .time_races = true) { manual(PIPE(ops::observe_on(sch::new_thread{}, milliseconds{2})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("observe_on_pool", T5)
{
    sch::thread_pool p{1};
    manual(PIPE(ops::observe_on(p)), {N(1), N(2), C()}, {N(1), N(2), C()});
};
SC("observe_on_pool2", T5)
{
    sch::thread_pool p{2};
    manual(PIPE(ops::observe_on(p) | ops::observe_on(p)), {N(1), N(2), C()}, {N(1), N(2), C()});
};
SC("observe_on_pool_dropped", T5)
{
    // the pool object goes away while values are still waiting
    auto    p = std::make_unique<sch::thread_pool>(1);
    Src<V>  s{0};
    Sink<V> sink;
    sink.subscribe(s.observable() | ops::observe_on(*p));
    p.reset();
    s.play({N(1), N(2), C()});
    check_moved({N(1), N(2), C()});
};
SC("delay", T5) { manual(PIPE(ops::delay(milliseconds{2}, sch::new_thread{})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("delay_zero", T5) { manual(PIPE(ops::delay(milliseconds{0}, sch::new_thread{})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("delay_error", T5) { manual(PIPE(ops::delay(milliseconds{2}, sch::new_thread{})), {N(1), N(2), E(1)}, {N(1), N(2), E(1)}); };
SC("delay_time", T5, .quick_bound = 2, .thorough_bound = 4, .time_races = true) { manual(PIPE(ops::delay(milliseconds{2}, sch::new_thread{})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("delay_gaps", T5)
{
    Src<V>  s{0};
    Sink<V> sink;
    sink.subscribe(s.observable() | ops::delay(milliseconds{2}, sch::new_thread{}));
    s.play({N(1)});
    std::this_thread::sleep_for(milliseconds{2});
    s.play({N(2)});
    std::this_thread::sleep_for(milliseconds{3});
    s.play({N(3), C()});
    check_moved({N(1), N(2), N(3), C()});
};
SC("delay_then_map_and_observe", T5) { manual(PIPE(ops::delay(milliseconds{1}, sch::new_thread{}) | ops::map([](V v) { return v; }) | ops::observe_on(sch::new_thread{})), {N(1), N(2), C()}, {N(1), N(2), C()}); };
SC("subscribe_on", T5)
{
    Sink<V>{}.subscribe(cold(0, {N(1), N(2), C()}, false) | ops::subscribe_on(sch::new_thread{}));
    check_moved({N(1), N(2), C()});
};
SC("subscribe_on_error", T5)
{
    Sink<V>{}.subscribe(cold(0, {N(1), E(2)}, false) | ops::subscribe_on(sch::new_thread{}));
    check_moved({N(1), E(2)});
};
SC("subscribe_on_throwing", T5)
{
    Sink<V>{}.subscribe(rpp::source::create<V>([](auto&& o) { o.on_next(1); std::rethrow_exception(make_error(3)); }) | ops::subscribe_on(sch::new_thread{}));
    check_moved({N(1), E(3)});
};
SC("subscribe_on_observe_on", T5)
{
    Sink<V>{}.subscribe(cold(0, {N(1), N(2), C()}, false) | ops::subscribe_on(sch::new_thread{}) | ops::observe_on(sch::new_thread{}));
    check_moved({N(1), N(2), C()});
};
SC("subscribe_on_pool", T5)
{
    sch::thread_pool p{1};
    Sink<V>{}.subscribe(cold(0, {N(1), N(2), C()}, false) | ops::subscribe_on(p) | ops::observe_on(p));
    check_moved({N(1), N(2), C()});
};
SC("source_new_thread", T5)
{
    Sink<V>{}.subscribe(rpp::source::just(sch::new_thread{}, V{1}, V{2}, V{3}));
    check_moved({N(1), N(2), N(3), C()});
};
SC("source_iterable_new_thread", T5)
{
    Sink<V>{}.subscribe(rpp::source::from_iterable(std::vector<V>{1, 2, 3}, sch::new_thread{}) | ops::observe_on(sch::new_thread{}));
    check_moved({N(1), N(2), N(3), C()});
};
SC("source_callable_subscribe_on", T5)
{
    Sink<V>{}.subscribe(rpp::source::from_callable([] { return V{5}; }) | ops::subscribe_on(sch::new_thread{}));
    check_moved({N(5), C()});
};
SC("source_interval", T5, .quick_bound = 2)
{
    Sink<V>{}.subscribe(rpp::source::interval(milliseconds{1}, sch::new_thread{}) | ops::take(3) | ops::map([](size_t v) { return V(v); }));
    check_moved({N(0), N(1), N(2), C()});
};
SC("source_pool", T5)
{
    sch::thread_pool p{1};
    Sink<V>{}.subscribe(rpp::source::just(p, V{1}, V{2}) | ops::observe_on(sch::new_thread{}));
    check_moved({N(1), N(2), C()});
};
SC("two_pools_users", T5)
{
    // two streams share the only thread of a pool
    sch::thread_pool p{1};
    Sink<V>{0}.subscribe(rpp::source::just(p, V{1}, V{2}));
    Sink<V>{1}.subscribe(rpp::source::just(p, V{3}, V{4}));
    check_moved({N(1), N(2), C()}, false, 0);
    check_moved({N(3), N(4), C()}, false, 1);
};
SC("pool_created_from_two_threads", T5)
{
    sch::thread_pool p{2};
    Th               t{[&] { Sink<V>{0}.subscribe(rpp::source::just(p, V{1}, V{2})); }};
    Sink<V>{1}.subscribe(rpp::source::just(p, V{3}, V{4}));
    t.join();
    check_moved({N(1), N(2), C()}, false, 0);
    check_moved({N(3), N(4), C()}, false, 1);
};
SC("computational", T5, .quick_bound = 2, .thorough_bound = 3, .fork_each = true, .allow_leftover = true)
{
    Sink<V>{}.subscribe(rpp::source::just(sch::computational{}, V{1}, V{2}) | ops::observe_on(sch::computational{}));
    check_moved({N(1), N(2), C()});
};
SC("run_loop_observe_on", T5)
{
    sch::run_loop l;
    std::atomic<bool> stop{false};
    Src<V>        s{0};
    Sink<V>       sink;
    sink.subscribe(s.observable() | ops::observe_on(l));
    Th t{[&] {
        while (history().out.empty() || history().out.back().k == 'N')
            l.dispatch();
    }};
    s.play({N(1), N(2), C()});
    t.join();
    check_moved({N(1), N(2), C()});
};
SC("observe_on_source_thread", T5)
{
    // source on one thread, delivery on another
    Sink<V>{}.subscribe(cold(0, {N(1), N(2), C()}, true) | ops::observe_on(sch::new_thread{}));
    check_moved({N(1), N(2), C()});
};
SC("observe_on_source_thread_error", T5)
{
    Sink<V>{}.subscribe(cold(0, {N(1), N(2), E(1)}, true) | ops::observe_on(sch::new_thread{}));
    check_moved({N(1), N(2), E(1)}, true);
};
SC("observe_on_merge", T5, .quick_bound = 1, .thorough_bound = 2)
{
    Sink<V>{}.subscribe(cold(0, {N(1), C()}, true) | ops::observe_on(sch::new_thread{}) | ops::merge_with(cold(1, {N(2), C()}, true) | ops::observe_on(sch::new_thread{})));
    mc::settle();
    mc::Quiet q;
    auto hh = history();
    mc::outcome(ref::str(hh.out));
    if (!hh.problem.empty())
        mc::fail(hh.problem);
    if (hh.out.size() != 3 || hh.out.back().k != 'C' || hh.out[0].v + hh.out[1].v != 3)
        mc::fail("delivered [" + ref::str(hh.out) + "]");
};
SC("observe_on_flat_map", T5, .quick_bound = 2)
{
    Sink<V>{}.subscribe(rpp::source::just(V{1}, V{2}) | ops::map([](V v) { return rpp::source::just(sch::new_thread{}, v * 10, v * 10 + 1); }) | ops::concat());
    check_moved({N(10), N(11), N(20), N(21), C()}, false, 0, false);
};
SC("subscribe_on_repeat", T5, .quick_bound = 2)
{
    Sink<V>{}.subscribe(cold(0, {N(1), C()}, false) | ops::subscribe_on(sch::new_thread{}) | ops::repeat(2));
    check_moved({N(1), N(1), C()}, false, 0, false);
};
SC("observe_on_throwing_subscriber_function", T5)
{
    // what follows throws: exactly one error, nothing after it
    manual(PIPE(ops::observe_on(sch::new_thread{}) | ops::map([](V v) -> V { if (v == 2) std::rethrow_exception(make_error(2)); return v; })), {N(1), N(2), N(3), C()}, {N(1), E(2)});
};
} // namespace
