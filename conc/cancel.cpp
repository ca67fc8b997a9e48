// C03: a live subscription is disposed from another thread.
#include "h.hpp"
using namespace h;
namespace ops = rpp::operators;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th  = std::thread;
using Obs = rpp::dynamic_observable<V>;

void dispose(const rpp::disposable_wrapper& d)
{
    mc::rec(D_BEGIN, 0);
    d.dispose();
    mc::rec(D_END, 0);
}

// nothing emitted after dispose returned is delivered; every subscribed source is told to stop exactly once
void check_cancel(int max_src, int sinks = 1)
{
    mc::settle();
    mc::Quiet  q;
    const auto ev       = mc::events();
    bool       disposed = false;
    std::vector<int> late(16, 0); // nesting of operations begun after dispose returned, per thread
    std::string trace;
    for (auto& e : ev)
    {
        if (e.code == D_END)
            disposed = true;
        if (e.code == OP_BEGIN && disposed)
            late[size_t(e.thread)]++;
        if (e.code == OP_END && late[size_t(e.thread)])
            late[size_t(e.thread)]--;
        if (e.code == S_BEGIN && e.a < sinks)
        {
            trace += ref::str({dec(e.b)}) + (disposed ? "'" : "") + " ";
            if (late[size_t(e.thread)])
                mc::fail("the subscriber received " + ref::str({dec(e.b)}) + " which was emitted after dispose() had returned; trace " + trace);
        }
    }
    mc::outcome(trace);
    for (int s = 0; s < max_src; ++s)
    {
        const auto n = count(SUB, s), c = count(CANCEL, s);
        if (c != n)
            mc::fail("source " + std::to_string(s) + " was subscribed " + std::to_string(n) + " times but told to stop " + std::to_string(c) + " times; trace " + trace);
    }
}

// one emitting thread and one disposing thread
template<class F>
void one(F pipe, std::vector<Ev> a)
{
    {
        Src<V>  s0{0};
        Sink<V> sink;
        auto    d = sink.subscribe_with_disposable(pipe(s0.observable()));
        Th      t{[&] { s0.play(a); }};
        dispose(d);
        t.join();
        check_cancel(1);
    }
}
template<class F>
void two(F pipe, std::vector<Ev> a, std::vector<Ev> b)
{
    Src<V>  s0{0}, s1{1};
    Sink<V> sink;
    auto    d = sink.subscribe_with_disposable(pipe(s0.observable(), s1.observable()));
    Th      t{[&] { s0.play(a); }};
    Th      u{[&] { s1.play(b); }};
    dispose(d);
    t.join();
    u.join();
    check_cancel(2);
}
// subscription itself races with dispose
template<class F>
void subscribing(F pipe, std::vector<Ev> a)
{
    Src<V>  s0{0};
    Sink<V> sink;
    auto    d = rpp::composite_disposable_wrapper::make();
    Th      t{[&] {
        auto s = SinkObserver<V>{sink.st, {}};
        pipe(s0.observable()).subscribe(d, [s](const V& v) { s.on_next(v); }, [s](const std::exception_ptr& e) { s.on_error(e); }, [s] { s.on_completed(); });
        if (s0.obs)
            s0.play(a);
    }};
    dispose(d);
    t.join();
    check_cancel(1);
}
// outer source emits ids of threaded/sync inner sources
template<class F>
void nested(F pipe, std::vector<std::pair<std::vector<Ev>, bool>> inners, std::vector<Ev> a)
{
    std::vector<Obs> obs;
    for (size_t i = 0; i < inners.size(); ++i)
        obs.push_back(cold(int(i) + 1, inners[i].first, inners[i].second));
    Src<V>  s0{0};
    Sink<V> sink;
    auto    d = sink.subscribe_with_disposable(pipe(s0.observable() | ops::map([&obs](V v) -> Obs { return obs[size_t(v - 1)]; })));
    Th      t{[&] { s0.play(a); }};
    dispose(d);
    t.join();
    check_cancel(int(inners.size()) + 1);
}

auto id_    = [](auto&& o) { return o; };
auto chain_ = [](auto&& o) { return o | ops::map([](V v) { return v; }) | ops::filter([](V) { return true; }) | ops::scan(V{0}, [](V, V v) { return v; }) | ops::distinct_until_changed() | ops::skip(0) | ops::take(10) | ops::tap([](V) {}); };

SC("cancel_plain", "C03") { one(id_, {N(1), N(2), C()}); };
SC("cancel_plain_error", "C03") { one(id_, {N(1), E(1)}); };
SC("cancel_chain", "C03") { one(chain_, {N(1), N(2), C()}); };
SC("cancel_dynamic", "C03") { one([](auto&& o) { return o.as_dynamic(); }, {N(1), N(2), C()}); };
SC("cancel_take", "C03") { one([](auto&& o) { return o | ops::take(1); }, {N(1), N(2), C()}); };
SC("cancel_flat_just", "C03") { one([](auto&& o) { return o | ops::flat_map([](V v) { return rpp::source::just(v, v + 1); }); }, {N(1), N(3), C()}); };
SC("cancel_finally", "C03") { one([](auto&& o) { return o | ops::finally([]() noexcept {}); }, {N(1), C()}); };
SC("cancel_buffer", "C03") { one([](auto&& o) { return o | ops::buffer(2) | ops::map([](const std::vector<V>& v) { return v.back(); }); }, {N(1), N(2), C()}); };
SC("cancel_window", "C03") { one([](auto&& o) { return o | ops::window(2) | ops::merge(); }, {N(1), N(2), N(3), C()}); };
SC("cancel_group_by", "C03") { one([](auto&& o) { return o | ops::group_by([](V v) { return v % 2; }) | ops::merge(); }, {N(1), N(2), N(3), C()}); };
SC("cancel_publish_ref_count", "C03") { one([](auto&& o) { return o | ops::publish() | ops::ref_count(); }, {N(1), N(2), C()}); };
SC("cancel_start_with", "C03") { one([](auto&& o) { return o | ops::start_with(V{9}); }, {N(1), C()}); };
SC("cancel_last_reduce", "C03") { one([](auto&& o) { return o | ops::reduce(V{0}, [](V, V v) { return v; }) | ops::last(); }, {N(1), N(2), C()}); };
SC("cancel_retry", "C03") { one([](auto&& o) { return o | ops::retry(1); }, {N(1), C()}); };
SC("cancel_on_error_resume_next", "C03") { one([](auto&& o) { return o | ops::on_error_resume_next([](const std::exception_ptr&) { return cold(1, {N(7), C()}, false); }); }, {N(1), E(1)}); };

SC("subscribing_plain", "C03") { subscribing(id_, {N(1), C()}); };
SC("subscribing_chain", "C03") { subscribing(chain_, {N(1), C()}); };
SC("subscribing_dynamic", "C03") { subscribing([](auto&& o) { return o.as_dynamic(); }, {N(1), C()}); };
SC("subscribing_merge", "C03") { subscribing([](auto&& o) { return o | ops::merge_with(rpp::source::never<V>()); }, {N(1), C()}); };
SC("subscribing_take_until", "C03") { subscribing([](auto&& o) { return o | ops::take_until(rpp::source::never<V>()); }, {N(1), C()}); };
SC("subscribing_publish_ref_count", "C03") { subscribing([](auto&& o) { return o | ops::publish() | ops::ref_count(); }, {N(1), C()}); };
SC("subscribing_switch", "C03") { subscribing([](auto&& o) { return rpp::source::just(o.as_dynamic()) | ops::switch_on_next(); }, {N(1), C()}); };
SC("subscribing_concat", "C03") { subscribing([](auto&& o) { return rpp::source::just(o.as_dynamic()) | ops::concat(); }, {N(1), C()}); };
SC("subscribing_repeat", "C03") { subscribing([](auto&& o) { return o | ops::repeat(1); }, {N(1), C()}); };
SC("subscribing_combine_latest", "C03") { subscribing([](auto&& o) { return o | ops::combine_latest([](V a, V) { return a; }, rpp::source::just(V{1})); }, {N(1), C()}); };

auto sel = [](V x, V y) { return x * 100 + y; };
SC("cancel_merge", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::merge_with(b); }, {N(1), C()}, {N(11), C()}); };
SC("cancel_merge_error", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::merge_with(b); }, {N(1), E(1)}, {N(11)}); };
SC("cancel_combine_latest", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::combine_latest(sel, b); }, {N(1), C()}, {N(11), C()}); };
SC("cancel_zip", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::zip(sel, b); }, {N(1), C()}, {N(11), C()}); };
SC("cancel_with_latest_from", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::with_latest_from(sel, b); }, {N(1), C()}, {N(11), C()}); };
SC("cancel_take_until", "C03", .quick_bound = 3, .thorough_bound = 4) { two([](auto&& a, auto&& b) { return a | ops::take_until(b); }, {N(1), C()}, {N(11)}); };
SC("cancel_retry_when", "C03", .quick_bound = 3, .thorough_bound = 4)
{
    one([](auto&& o) { return o | ops::retry_when([](const std::exception_ptr&) { return cold(1, {N(7)}, true); }) | ops::take(2); }, {N(1), E(1)});
};

SC("cancel_flat_map", "C03", .quick_bound = 3, .thorough_bound = 4) { nested([](auto&& o) { return o | ops::merge(); }, {{{N(11), C()}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}); };
SC("cancel_concat", "C03", .quick_bound = 3, .thorough_bound = 4) { nested([](auto&& o) { return o | ops::concat(); }, {{{N(11), C()}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}); };
SC("cancel_concat_mixed", "C03", .quick_bound = 3, .thorough_bound = 4) { nested([](auto&& o) { return o | ops::concat(); }, {{{N(11), C()}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}); };
SC("cancel_switch", "C03", .quick_bound = 3, .thorough_bound = 4) { nested([](auto&& o) { return o | ops::switch_on_next(); }, {{{N(11), C()}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}); };
SC("cancel_switch_sync", "C03", .quick_bound = 3, .thorough_bound = 4) { nested([](auto&& o) { return o | ops::switch_on_next(); }, {{{N(11), C()}, false}, {{N(21), C()}, false}}, {N(1), N(2), C()}); };

// subject based
template<class S>
void subject(S& s, std::vector<Ev> a)
{
    Sink<V> sink, other{1};
    auto    d = sink.subscribe_with_disposable(s.get_observable());
    auto    d2 = other.subscribe_with_disposable(s.get_observable());
    Th      t{[&] { auto o = s.get_observer(); for (auto& e : a) op<V>(0, o, e); }};
    dispose(d);
    t.join();
    check_cancel(0);
    mc::Quiet q;
    // the other subscriber is unaffected
    Out want, got = history(1).out;
    for (auto& e : a)
        want.push_back(e);
    if (got != want)
        mc::fail("another subscriber received [" + ref::str(got) + "] instead of [" + ref::str(want) + "]");
}
SC("cancel_publish_subject", "C03") { rpp::subjects::publish_subject<V> s; subject(s, {N(1), N(2), C()}); };
SC("cancel_serialized_publish_subject", "C03") { rpp::subjects::serialized_publish_subject<V> s; subject(s, {N(1), N(2), C()}); };
SC("cancel_replay_subject", "C03") { rpp::subjects::replay_subject<V> s; subject(s, {N(1), N(2), C()}); };
SC("cancel_serialized_replay_subject", "C03", .quick_bound = 3, .thorough_bound = 4) { rpp::subjects::serialized_replay_subject<V> s; subject(s, {N(1), N(2), E(1)}); };
template<class S>
void subject_two_leave(S& s, std::vector<Ev> a)
{
    Sink<V> sink, other{1};
    auto    d = sink.subscribe_with_disposable(s.get_observable());
    auto    d2 = other.subscribe_with_disposable(s.get_observable());
    Th      t{[&] { auto o = s.get_observer(); for (auto& e : a) op<V>(0, o, e); }};
    Th      u{[&] { d2.dispose(); }};
    dispose(d);
    t.join();
    u.join();
    check_cancel(0);
}
SC("cancel_publish_subject_two_leave", "C03", .quick_bound = 3, .thorough_bound = 4) { rpp::subjects::publish_subject<V> s; subject_two_leave(s, {N(1), C()}); };
SC("cancel_serialized_publish_subject_two_leave", "C03", .quick_bound = 3, .thorough_bound = 4) { rpp::subjects::serialized_publish_subject<V> s; subject_two_leave(s, {N(1), C()}); };

// both ends dispose the same subscription
// a stream of streams: the outer subscription and the inner ones are cancelled on different threads
template<class F>
void leaving(F pipe, std::vector<Ev> a, int inners)
{
    {
        Src<V>                                         s0{0};
        Sink<V>                                        sinks[4]{Sink<V>{0}, Sink<V>{1}, Sink<V>{2}, Sink<V>{3}};
        std::vector<rpp::composite_disposable_wrapper> d;
        for (int i = 0; i < 4; ++i)
            d.push_back(rpp::composite_disposable_wrapper::make());
        int  n     = 0;
        auto outer = SinkObserver<V>{sinks[0].st, {}};
        pipe(s0.observable()).subscribe(d[0], [&, outer](const auto& in) {
            const int i = ++n;
            outer.on_next(V(100 + i));
            auto s = SinkObserver<V>{sinks[i].st, {}};
            in.subscribe(d[size_t(i)], [s](const V& v) { s.on_next(v); }, [s](const std::exception_ptr& e) { s.on_error(e); }, [s] { s.on_completed(); }); }, [outer](const std::exception_ptr& e) { outer.on_error(e); }, [outer] { outer.on_completed(); });
        auto drop = [&](int i) {
            mc::rec(D_BEGIN, i);
            d[size_t(i)].dispose();
            mc::rec(D_END, i);
        };
        Th t{[&] { s0.play(a); }};
        Th u{[&] { drop(0); }};
        for (int i = 1; i <= inners; ++i)
            drop(i);
        t.join();
        u.join();
        for (int i = inners + 1; i < 4; ++i)
            drop(i);
    }
    mc::settle();
    mc::Quiet q;
    std::vector<char>               gone(4, 0);
    std::vector<std::vector<char>>  late(4, std::vector<char>(16, 0));
    std::string                     trace;
    for (auto& e : mc::events())
    {
        if (e.code == D_END)
            gone[size_t(e.a)] = 1;
        if (e.code == OP_BEGIN)
            for (size_t i = 0; i < 4; ++i)
                late[i][size_t(e.thread)] = gone[i];
        if (e.code == S_BEGIN)
        {
            trace += std::to_string(e.a) + ":" + ref::str({dec(e.b)}) + (gone[size_t(e.a)] ? "'" : "") + " ";
            if (late[size_t(e.a)][size_t(e.thread)])
                mc::fail("subscriber " + std::to_string(e.a) + " received " + ref::str({dec(e.b)}) + " which was emitted after its dispose() had returned; trace " + trace);
        }
    }
    mc::outcome(trace);
    if (count(CANCEL, 0) != 1)
        mc::fail("the source was told to stop " + std::to_string(count(CANCEL, 0)) + " times; trace " + trace);
}
auto groups_ = [](auto&& o) { return o | ops::group_by([](V v) { return v % 2; }); };
SC("cancel_groups", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving(groups_, {N(1), N(2), N(3)}, 1); };
SC("cancel_groups_completing", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving(groups_, {N(1), N(3), C()}, 1); };
SC("cancel_groups_all", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving(groups_, {N(1), N(2)}, 2); };
SC("cancel_windows", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving([](auto&& o) { return o | ops::window(2); }, {N(1), N(2), N(3)}, 1); };
SC("cancel_windows_all", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving([](auto&& o) { return o | ops::window(1); }, {N(1), N(2)}, 2); };
SC("cancel_window_toggle_both", "C03", .quick_bound = 3, .thorough_bound = 4) { leaving([](auto&& o) { return o | ops::window_toggle(rpp::source::just(V{1}), [](V) { return rpp::source::never<V>(); }); }, {N(1), N(2)}, 1); };

SC("cancel_twice", "C03")
{
    Src<V>  s0{0};
    Sink<V> sink;
    auto    d = sink.subscribe_with_disposable(s0.observable() | ops::map([](V v) { return v; }));
    Th      t{[&] { s0.play({N(1), N(2), C()}); }};
    Th      u{[&] { d.dispose(); }};
    dispose(d);
    t.join();
    u.join();
    check_cancel(1);
};
// two subscriptions of one stream: disposing one leaves the other alone
SC("cancel_one_of_two", "C03")
{
    Src<V>  s0{0};
    Sink<V> a{0}, b{1};
    auto    sh = s0.observable() | ops::publish();
    auto    d  = a.subscribe_with_disposable(sh);
    auto    d2 = b.subscribe_with_disposable(sh);
    auto    dc = sh.connect();
    Th      t{[&] { s0.play({N(1), N(2), C()}); }};
    dispose(d);
    t.join();
    check_cancel(1);
    mc::Quiet q;
    if (ref::str(history(1).out) != "N1 N2 C")
        mc::fail("the other subscriber received [" + ref::str(history(1).out) + "]");
};
} // namespace
