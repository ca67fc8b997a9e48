// C06: time-driven operators when the timer and the source meet.  Also C01/C02/C03 for window_toggle.
#include "h.hpp"
using namespace h;
namespace ops = rpp::operators;
namespace sch = rpp::schedulers;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th = std::thread;
using std::chrono::milliseconds;
void nap(int ms) { std::this_thread::sleep_for(milliseconds{ms}); }
#define T6 "C06"
// every timed scenario is explored twice: with a clock which may run ahead of the threads, and with a punctual one
// (time passes only while everybody waits), for which exact claims are possible
#define TSC(name, ...) \
    SC(name, T6, .time_races = true) { __VA_ARGS__; }; \
    SC(name "_punctual", T6, .quick_bound = 2) { __VA_ARGS__; }
// plays `script`, sleeping gap[i] ms before event i
struct Step
{
    int gap;
    Ev  e;
};
void play(Src<V>& s, std::initializer_list<Step> st)
{
    for (auto& x : st)
    {
        if (x.gap)
            nap(x.gap);
        s.play({x.e});
    }
}
void basic(const History& hh)
{
    mc::outcome(ref::str(hh.out));
    if (!hh.problem.empty())
        mc::fail(hh.problem);
}
// ---------------------------------------------------------------- debounce
template<class Sched>
void debounce(Sched s, std::initializer_list<Step> st)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::debounce(milliseconds{2}, s));
    play(src, st);
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    long last = -1, pending = -1;
    for (auto& e : hh.out)
        if (e.k == 'N')
        {
            if (e.v <= last)
                mc::fail("value emitted twice or out of order: [" + ref::str(hh.out) + "]");
            last = e.v;
        }
    for (auto& x : st)
        if (x.e.k == 'N')
            pending = x.e.v;
    const Ev end = std::prev(st.end())->e;
    if (end.k != 'E' && last != pending)
        mc::fail("the last value " + std::to_string(pending) + " was lost: [" + ref::str(hh.out) + "]");
    if (end.k != 'N' && (hh.out.empty() || !(hh.out.back() == end)))
        mc::fail("the end was lost: [" + ref::str(hh.out) + "]");
    // never before its quiet period is over, unless the stream ends
    long endb = -1;
    for (auto& o : hh.ops)
        if (o.e.k != 'N')
            endb = o.begin;
    for (auto& e : mc::events())
        if (e.code == S_BEGIN && dec(e.b).k == 'N' && (endb < 0 || long(e.seq) < endb))
            for (auto& o : mc::events())
                if (o.code == OP_BEGIN && o.b == e.b && e.vtime - o.vtime < 2000000)
                    mc::fail("value emitted before its quiet period was over: [" + ref::str(hh.out) + "]");
    // with a quiet gap longer than the period the value before it must be there
    const Step* prev = nullptr;
    for (auto& x : st)
    {
        if (mc::punctual() && prev && prev->e.k == 'N' && x.gap > 2)
        {
            bool got = false;
            for (auto& e : hh.out)
                got |= e == prev->e;
            if (!got)
                mc::fail("value " + std::to_string(prev->e.v) + " was followed by a quiet period but not emitted: [" + ref::str(hh.out) + "]");
        }
        prev = &x;
    }
}
TSC("debounce_meets_next", debounce(sch::new_thread{}, {{0, N(1)}, {2, N(2)}, {3, C()}}));
TSC("debounce_meets_completion", debounce(sch::new_thread{}, {{0, N(1)}, {2, C()}}));
TSC("debounce_meets_error", debounce(sch::new_thread{}, {{0, N(1)}, {2, E(1)}}));
TSC("debounce_immediate_completion", debounce(sch::new_thread{}, {{0, N(1)}, {0, C()}}));
TSC("debounce_burst", debounce(sch::new_thread{}, {{0, N(1)}, {1, N(2)}, {1, N(3)}, {2, N(4)}, {2, C()}}));
TSC("debounce_quiet_periods", debounce(sch::new_thread{}, {{0, N(1)}, {3, N(2)}, {3, N(3)}, {4, C()}}));
TSC("debounce_unfinished", debounce(sch::new_thread{}, {{0, N(1)}, {2, N(2)}}));
SC("debounce_pool", T6, .time_races = true)
{
    sch::thread_pool p{1};
    debounce(p, {{0, N(1)}, {2, N(2)}, {2, C()}});
};
SC("debounce_then_map", T6, .time_races = true)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::debounce(milliseconds{2}, sch::new_thread{}) | ops::map([](V v) { return v + 10; }) | ops::take(2));
    play(src, {{0, N(1)}, {2, N(2)}, {2, C()}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (hh.out.size() < 2 || !(hh.out.back() == C()) || !(hh.out[hh.out.size() - 2] == N(12)))
        mc::fail("the last value was lost: [" + ref::str(hh.out) + "]");
};
SC("debounce_two", T6, .quick_bound = 2, .thorough_bound = 3, .time_races = true)
{
    // two debounced streams share a worker thread
    sch::thread_pool p{1};
    Src<V>           a{0}, b{1};
    Sink<V>{0}.subscribe(a.observable() | ops::debounce(milliseconds{2}, p));
    Sink<V>{1}.subscribe(b.observable() | ops::debounce(milliseconds{1}, p));
    a.play({N(1)});
    b.play({N(2)});
    nap(2);
    a.play({C()});
    b.play({C()});
    mc::settle();
    mc::Quiet q;
    for (int i = 0; i < 2; ++i)
    {
        auto hh = history(i);
        basic(hh);
        if (!(hh.out == Out{N(i + 1), C()}))
            mc::fail("[" + ref::str(hh.out) + "]");
    }
};

// ---------------------------------------------------------------- timeout
// out must be a prefix of the script followed by the outcome of the timeout, or the whole script
void check_timeout(std::initializer_list<Step> st, const Out& fallback, int period)
{
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    Out       script;
    for (auto& x : st)
        script.push_back(x.e);
    bool ok = hh.out == script && script.back().k != 'N';
    size_t must = 0; // events which arrive in time for sure
    bool in_time = true;
    bool must_fire = script.back().k == 'N';
    for (auto& x : st)
    {
        in_time &= x.gap < period;
        must_fire |= mc::punctual() && x.gap > period;
        must += in_time;
    }
    for (size_t k = 0; !ok && k <= script.size(); ++k)
    {
        if (k && script[k - 1].k != 'N')
            break;
        Out want(script.begin(), script.begin() + long(k));
        want.insert(want.end(), fallback.begin(), fallback.end());
        ok = hh.out == want;
    }
    if (!ok)
        mc::fail("[" + ref::str(hh.out) + "] is neither the source nor a prefix of it with the timeout outcome");
    const bool fired = !(hh.out == script);
    if (count(SUB, 0) != 1 || count(CANCEL, 0) != 1)
        mc::fail("source subscribed " + std::to_string(count(SUB, 0)) + " and cancelled " + std::to_string(count(CANCEL, 0)) + " times: [" + ref::str(hh.out) + "]");
    if (must_fire && !fired)
        mc::fail("the timeout did not fire: [" + ref::str(hh.out) + "]");
    if (mc::punctual() && must == script.size() && fired && script.back().k != 'N')
        mc::fail("the timeout fired although everything arrived in time: [" + ref::str(hh.out) + "]");
    if (fired)
    {
        long last = 0, when = -1;
        for (auto& e : mc::events())
        {
            if (e.code == S_END && dec(e.b).k == 'N' && when < 0)
            {
                if (dec(e.b).v < 7)
                    last = e.vtime;
            }
            if ((e.code == S_BEGIN && dec(e.b) == E(99)) || (e.code == SUB && e.a == 1))
                when = e.vtime;
        }
        if (when >= 0 && when - last < period * 1000000l)
            mc::fail("the timeout fired too early: [" + ref::str(hh.out) + "]");
    }
}
template<class Sched>
void timeout(Sched s, std::initializer_list<Step> st)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::timeout(milliseconds{2}, s));
    play(src, st);
    check_timeout(st, {E(99)}, 2);
}
template<class Sched>
void timeout_fallback(Sched s, std::initializer_list<Step> st, bool threaded)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::timeout(milliseconds{2}, cold(1, {N(7), N(8), C()}, threaded), s));
    play(src, st);
    check_timeout(st, {N(7), N(8), C()}, 2);
}
TSC("timeout_meets_value", timeout(sch::new_thread{}, {{2, N(1)}, {0, C()}}));
TSC("timeout_meets_second_value", timeout(sch::new_thread{}, {{0, N(1)}, {2, N(2)}, {1, C()}}));
TSC("timeout_meets_completion", timeout(sch::new_thread{}, {{0, N(1)}, {2, C()}}));
TSC("timeout_meets_error", timeout(sch::new_thread{}, {{2, E(1)}}));
TSC("timeout_in_time", timeout(sch::new_thread{}, {{1, N(1)}, {1, N(2)}, {1, C()}}));
TSC("timeout_late", timeout(sch::new_thread{}, {{1, N(1)}, {3, N(2)}, {1, C()}}));
TSC("timeout_silent", timeout(sch::new_thread{}, {{1, N(1)}}));
SC("timeout_pool", T6, .time_races = true)
{
    sch::thread_pool p{1};
    timeout(p, {{2, N(1)}, {0, C()}});
};
TSC("timeout_fallback_meets_value", timeout_fallback(sch::new_thread{}, {{2, N(1)}, {0, C()}}, false));
TSC("timeout_fallback_meets_completion", timeout_fallback(sch::new_thread{}, {{0, N(1)}, {2, C()}}, false));
TSC("timeout_fallback_threaded", timeout_fallback(sch::new_thread{}, {{2, N(1)}, {0, N(2)}, {0, C()}}, true));
SC("timeout_then_take", T6, .time_races = true)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::timeout(milliseconds{2}, sch::new_thread{}) | ops::take(1));
    play(src, {{2, N(1)}, {0, N(2)}, {0, C()}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (!(hh.out == Out{N(1), C()}) && !(hh.out == Out{E(99)}))
        mc::fail("[" + ref::str(hh.out) + "]");
};

// ---------------------------------------------------------------- throttle, interval, timers and take_until with a timer
SC("take_until_timer", T6, .time_races = true)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::take_until(rpp::source::timer(milliseconds{2}, sch::new_thread{})));
    play(src, {{0, N(1)}, {2, N(2)}, {0, N(3)}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (hh.out.empty() || !(hh.out.back() == C()))
        mc::fail("[" + ref::str(hh.out) + "]");
    for (size_t i = 0; i + 1 < hh.out.size(); ++i)
        if (!(hh.out[i] == N(long(i) + 1)))
            mc::fail("[" + ref::str(hh.out) + "]");
    if (count(CANCEL, 0) != 1)
        mc::fail("source not cancelled exactly once");
};
SC("throttle_observe_on", T6, .time_races = true)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::throttle(milliseconds{2}) | ops::observe_on(sch::new_thread{}));
    play(src, {{0, N(1)}, {1, N(2)}, {2, N(3)}, {0, N(4)}, {0, C()}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (!(hh.out == Out{N(1), N(3), C()}))
        mc::fail("[" + ref::str(hh.out) + "]");
};
SC("interval_meets_source", T6, .time_races = true)
{
    // with_latest_from an interval
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::with_latest_from([](V v, size_t t) { return v + V(t) * 100; }, rpp::source::interval(milliseconds{1}, sch::new_thread{}) | ops::take(2)));
    play(src, {{1, N(1)}, {1, N(2)}, {1, C()}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (hh.out.empty() || !(hh.out.back() == C()))
        mc::fail("[" + ref::str(hh.out) + "]");
};
SC("delay_meets_source", T6, .time_races = true)
{
    Src<V>  src{0};
    Sink<V> sink;
    sink.subscribe(src.observable() | ops::delay(milliseconds{2}, sch::new_thread{}));
    play(src, {{0, N(1)}, {2, N(2)}, {2, N(3)}, {0, C()}});
    mc::settle();
    mc::Quiet q;
    auto      hh = history();
    basic(hh);
    if (!(hh.out == Out{N(1), N(2), N(3), C()}))
        mc::fail("[" + ref::str(hh.out) + "]");
};

// ---------------------------------------------------------------- windows
// source events on src 0, openings are the values of src 1 (value = window number), closings src 10+k
template<class O>
void windows(O windows_observable, const std::shared_ptr<std::vector<std::shared_ptr<Sink<V>>>>& keep)
{
    auto n = std::make_shared<int>(0);
    auto st = std::make_shared<SinkState>();
    st->id  = 0;
    SinkObserver<V> outer{st};
    windows_observable.subscribe([=](auto&& w) {
        const int k = (*n)++;
        outer.note({'N', k});
        auto s = std::make_shared<Sink<V>>(1 + k);
        keep->push_back(s);
        s->subscribe(w);
        mc::rec(S_END, 0, enc({'N', k})); }, [=](const std::exception_ptr& e) { outer.on_error(e); }, [=] { outer.on_completed(); });
}
void check_windows(int max)
{
    mc::settle();
    mc::Quiet   q;
    std::string all;
    auto        outer = history(0);
    size_t      opened = 0;
    for (auto& e : outer.out)
        opened += e.k == 'N';
    const bool ended = !outer.out.empty() && outer.out.back().k != 'N';
    for (int i = 0; i <= max; ++i)
    {
        auto hh = history(i);
        all += (i ? " | " : "") + ref::str(hh.out);
        if (!hh.problem.empty())
            mc::fail((i ? "window " + std::to_string(i - 1) : std::string{"outer"}) + ": " + hh.problem);
        if (i == 0 || !mc::is("C02"))
            continue;
        if (size_t(i) > opened)
            continue;
        // window boundaries
        long openb = -1, opene = -1, closeb = -1, closee = -1, endb = -1;
        for (auto& o : hh.ops)
        {
            if (o.src == 1 && o.e.k == 'N' && o.e.v == i - 1)
                openb = o.begin, opene = o.end;
            if (o.src == 10 + i - 1 && closeb < 0)
                closeb = o.begin, closee = o.end;
            if (o.src <= 1 && o.e.k == 'E' && (endb < 0 || o.begin < endb))
                endb = o.begin;
            if (o.src == 0 && o.e.k == 'C' && (endb < 0 || o.begin < endb))
                endb = o.begin;
        }
        long last = -1;
        for (auto& o : hh.ops)
            if (o.src == 0 && o.e.k == 'N')
            {
                bool got = false;
                for (auto& e : hh.out)
                    got |= e == o.e;
                if (got && openb >= 0 && o.end >= 0 && o.end < openb)
                    mc::fail("window " + std::to_string(i - 1) + " received value " + std::to_string(o.e.v) + " emitted before it opened: " + all);
                if (got && closee >= 0 && o.begin > closee)
                    mc::fail("window " + std::to_string(i - 1) + " received value " + std::to_string(o.e.v) + " emitted after it closed: " + all);
                if (!got && opene >= 0 && o.begin > opene && (closeb < 0 || (o.end >= 0 && o.end < closeb)) && (endb < 0 || (o.end >= 0 && o.end < endb)))
                    mc::fail("window " + std::to_string(i - 1) + " lost value " + std::to_string(o.e.v) + ": " + all);
            }
        for (auto& e : hh.out)
            if (e.k == 'N')
            {
                if (e.v <= last)
                    mc::fail("window " + std::to_string(i - 1) + " received values out of order: " + all);
                last = e.v;
            }
        if ((ended || closee >= 0) && (hh.out.empty() || hh.out.back().k == 'N'))
            mc::fail("window " + std::to_string(i - 1) + " never ended: " + all);
    }
    mc::outcome(all);
}
#define TW "C01 C02 M01"
struct Wbed
{
    Src<V>                                                s{0}, o{1};
    Src<V>                                                c0{10}, c1{11};
    std::shared_ptr<std::vector<std::shared_ptr<Sink<V>>>> keep = std::make_shared<std::vector<std::shared_ptr<Sink<V>>>>();
    void                                                  go()
    {
        windows(s.observable() | ops::window_toggle(o.observable(), [this](V k) { return (k == 0 ? c0 : c1).observable().as_dynamic(); }), keep);
    }
};
SC("window_toggle_values_close", TW)
{
    Wbed b;
    b.go();
    b.o.play({N(0)});
    Th t{[&] { b.s.play({N(1), N(2), C()}); }};
    b.c0.play({C()});
    t.join();
    check_windows(1);
};
SC("window_toggle_values_open", TW)
{
    Wbed b;
    b.go();
    Th t{[&] { b.s.play({N(1), N(2), C()}); }};
    b.o.play({N(0), N(1)});
    t.join();
    check_windows(2);
};
SC("window_toggle_values_open_close", TW, .quick_bound = 2)
{
    Wbed b;
    b.go();
    b.o.play({N(0)});
    Th t{[&] { b.s.play({N(1), N(2)}); }};
    Th u{[&] { b.o.play({N(1)}); }};
    b.c0.play({C()});
    t.join();
    u.join();
    b.s.play({C()});
    check_windows(2);
};
SC("window_toggle_close_next", TW)
{
    // a value closes the window as well
    Wbed b;
    b.go();
    b.o.play({N(0)});
    Th t{[&] { b.s.play({N(1), N(2), C()}); }};
    b.c0.play({N(5), N(6)});
    t.join();
    check_windows(1);
};
SC("window_toggle_two_close", TW, .quick_bound = 2)
{
    Wbed b;
    b.go();
    b.o.play({N(0), N(1)});
    Th t{[&] { b.s.play({N(1), N(2)}); }};
    Th u{[&] { b.c1.play({C()}); }};
    b.c0.play({C()});
    t.join();
    u.join();
    b.s.play({N(3), C()});
    check_windows(2);
};
SC("window_toggle_error_close", TW)
{
    Wbed b;
    b.go();
    b.o.play({N(0)});
    Th t{[&] { b.s.play({N(1), E(1)}); }};
    b.c0.play({C()});
    t.join();
    check_windows(1);
};
SC("window_toggle_opening_error", TW)
{
    Wbed b;
    b.go();
    b.o.play({N(0)});
    Th t{[&] { b.s.play({N(1), C()}); }};
    b.o.play({E(2)});
    t.join();
    check_windows(1);
};
SC("window_toggle_timers", "C01 C06", .time_races = true)
{
    Wbed b;
    windows(b.s.observable() | ops::window_toggle(rpp::source::timer(milliseconds{1}, sch::new_thread{}), [](size_t) { return rpp::source::timer(milliseconds{1}, sch::new_thread{}); }), b.keep);
    play(b.s, {{1, N(1)}, {1, N(2)}, {0, C()}});
    check_windows(1);
};
SC("window_toggle_interval", "C01 C06", .quick_bound = 1, .thorough_bound = 2, .time_races = true)
{
    Wbed b;
    windows(b.s.observable() | ops::window_toggle(rpp::source::interval(milliseconds{1}, sch::new_thread{}) | ops::take(2), [](size_t) { return rpp::source::timer(milliseconds{1}, sch::new_thread{}); }), b.keep);
    play(b.s, {{1, N(1)}, {1, N(2)}, {1, C()}});
    check_windows(2);
};
} // namespace
