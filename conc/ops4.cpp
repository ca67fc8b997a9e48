// O06 (and O07, O08, O09, R02 for the same operators): time. The virtual clock stands still while something happens and goes on by one
// millisecond in explicit steps; every history of such steps, source events and cancellations is compared with a reference model.
#include "rig.hpp"
namespace
{
using rig::Life;
using rig::Model;
using rig::One;
using rig::Token;
using rig::TV;
using ref::Ev;
namespace ops = rpp::operators;
namespace src = rpp::source;
using std::chrono::milliseconds;

// ---------------------------------------------------------------- models
template<int P, bool EagerError>
struct Delay : One
{
    std::deque<std::pair<long, Ev>> q;
    void next(long v) override { q.push_back({now + P, {'N', v}}); }
    void error(long id) override
    {
        if (EagerError)
        {
            q.clear();
            E(id);
        }
        else
            q.push_back({now + P, {'E', id}});
    }
    void comp() override { q.push_back({now + P, {'C', 0}}); }
    void tick() override
    {
        while (!q.empty() && q.front().first <= now)
        {
            const Ev e = q.front().second;
            q.pop_front();
            if (e.k == 'N')
                N(e.v);
            else if (e.k == 'E')
                E(e.v);
            else
                C();
        }
    }
};
template<int P>
struct Debounce : One
{
    long due = -1, last = 0;
    void next(long v) override
    {
        last = v;
        due  = now + P;
    }
    void comp() override
    {
        if (due >= 0)
            N(last);
        C();
    }
    void tick() override
    {
        if (due >= 0 && due <= now)
        {
            due = -1;
            N(last);
        }
    }
};
template<int P>
struct Throttle : One
{
    long from = -1;
    void next(long v) override
    {
        if (now < from)
            return;
        from = now + P;
        N(v);
    }
};
template<int P, bool Fallback>
struct Timeout : Model
{
    long due = 0;
    int  main = -1;
    void start() override
    {
        due  = now + P;
        main = subscribe(0);
    }
    void on(int sub, int, Ev e) override
    {
        if (e.k == 'N')
        {
            if (sub == main)
                due = now + P;
            N(e.v);
        }
        else if (e.k == 'E')
            E(e.v);
        else
            C();
    }
    void tick() override
    {
        if (ended || due < 0 || due > now)
            return;
        due = -1;
        drop(main);
        if (Fallback)
            subscribe(1);
        else
            E(52);
    }
};
template<int Initial, int Period, int Limit, bool Absolute = false>
struct Interval : Model
{
    long due = 0, n = 0;
    void start() override
    {
        due = (Absolute ? 0 : now) + Initial;
    }
    void on(int, int, Ev) override {}
    void tick() override
    {
        while (!ended && due <= now)
        {
            due += Period;
            N(n++);
            if (n == Limit)
                C();
            if (!Period && !Limit)
                break;
        }
    }
};
struct SubscribeOn : One
{
    bool pending = false;
    void start() override { pending = true; }
    void next(long v) override { N(v); }
    void tick() override
    {
        if (!pending || ended)
            return;
        pending = false;
        subscribe(0);
    }
};
// interval until the source says stop
template<int P>
struct IntervalUntil : Interval<0, P, 0>
{
    void start() override
    {
        Interval<0, P, 0>::start();
        this->subscribe(0);
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'E')
            this->E(e.v);
        else
            this->C();
    }
};
// every value starts a timer
template<int P>
struct FlatTimer : One
{
    std::deque<std::pair<long, long>> q;
    bool                              done = false;
    void                              next(long v) override { q.push_back({now + P, v}); }
    void                              comp() override
    {
        done = true;
        if (q.empty())
            C();
    }
    void tick() override
    {
        while (!ended && !q.empty() && q.front().first <= now)
        {
            const long v = q.front().second;
            q.pop_front();
            N(v);
            if (done && q.empty())
                C();
        }
    }
};
// the last value restarts the timer
template<int P>
struct SwitchTimer : One
{
    long due = -1, last = 0;
    bool done = false;
    void next(long v) override
    {
        last = v;
        due  = now + P;
    }
    void comp() override
    {
        done = true;
        if (due < 0)
            C();
    }
    void tick() override
    {
        if (ended || due < 0 || due > now)
            return;
        due = -1;
        N(last);
        if (done)
            C();
    }
};
template<int P, int Count>
struct DelayTake : Delay<P, false>
{
    int  left = Count;
    void tick() override
    {
        auto& q = this->q;
        while (!this->ended && !q.empty() && q.front().first <= this->now)
        {
            const Ev e = q.front().second;
            q.pop_front();
            if (e.k == 'N')
            {
                this->N(e.v);
                if (--left == 0)
                    this->C();
            }
            else if (e.k == 'E')
                this->E(e.v);
            else
                this->C();
        }
    }
};
template<int P, int Count>
struct RetryTimeout : Model
{
    long due = 0;
    int  main = -1, left = Count;
    void again()
    {
        due  = now + P;
        main = subscribe(0);
    }
    void start() override { again(); }
    void fail(long id)
    {
        if (left-- == 0)
        {
            due = -1;
            E(id);
        }
        else
            again();
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
        {
            due = now + P;
            N(e.v);
        }
        else if (e.k == 'C')
            C();
        else
            fail(e.v);
    }
    void tick() override
    {
        if (ended || due < 0 || due > now)
            return;
        drop(main);
        fail(52);
    }
};

using Delay_2_false = Delay<2, false>;
using Delay_1_false = Delay<1, false>;
using Delay_0_false = Delay<0, false>;
using Delay_0_true = Delay<0, true>;
using Delay_1_true = Delay<1, true>;
using Debounce_2 = Debounce<2>;
using Debounce_1 = Debounce<1>;
using Throttle_2 = Throttle<2>;
using Throttle_1 = Throttle<1>;
using Throttle_0 = Throttle<0>;
using Timeout_2_false = Timeout<2, false>;
using Timeout_1_false = Timeout<1, false>;
using Timeout_2_true = Timeout<2, true>;
using Timeout_1_true = Timeout<1, true>;
using RetryTimeout_2_1 = RetryTimeout<2, 1>;
using Interval_1_1_0 = Interval<1, 1, 0>;
using Interval_1_2_0 = Interval<1, 2, 0>;
using Interval_0_2_0 = Interval<0, 2, 0>;
using Interval_2_1_0_true = Interval<2, 1, 0, true>;
using Interval_1_1_3 = Interval<1, 1, 3>;
using Interval_2_0_1 = Interval<2, 0, 1>;
using Interval_3_0_1_true = Interval<3, 0, 1, true>;
using IntervalUntil_1 = IntervalUntil<1>;
using FlatTimer_2 = FlatTimer<2>;
using SwitchTimer_2 = SwitchTimer<2>;
using DelayTake_1_2 = DelayTake<1, 2>;
#define TIMED .vals = 0, .depth = 7, .deeper = 2, .timed = true
#define TIMED_SHARED .vals = 0, .depth = 7, .deeper = 2, .shared = true, .timed = true
// late: the loop is dispatched in separate steps, so that it may be late; only where the outcome is clear then
RIG_OP("delay_2ms", "O06", false, Delay_2_false, ({TIMED}), w.src(0) | ops::delay(milliseconds{2}, w.loop));
RIG_OP("delay_1ms_late", "O06", false, Delay_1_false, ({TIMED, .late = true}), w.src(0) | ops::delay(milliseconds{1}, w.loop));
RIG_OP("delay_0ms_late", "O06", false, Delay_0_false, ({TIMED, .late = true}), w.src(0) | ops::delay(milliseconds{0}, w.loop));
RIG_OP("observe_on_late", "O06", false, Delay_0_true, ({TIMED, .late = true}), w.src(0) | ops::observe_on(w.loop));
RIG_OP("observe_on_1ms_late", "O06", false, Delay_1_true, ({TIMED, .late = true}), w.src(0) | ops::observe_on(w.loop, milliseconds{1}));
RIG_OP("subscribe_on_late", "O06", false, SubscribeOn, ({TIMED_SHARED, .late = true}), w.src(0) | ops::subscribe_on(w.loop));
RIG_OP("debounce_2ms", "O06", false, Debounce_2, ({TIMED}), w.src(0) | ops::debounce(milliseconds{2}, w.loop));
RIG_OP("debounce_1ms", "O06", false, Debounce_1, ({TIMED}), w.src(0) | ops::debounce(milliseconds{1}, w.loop));
RIG_OP("throttle_2ms", "O06", false, Throttle_2, ({TIMED}), w.src(0) | ops::throttle<rpp::schedulers::run_loop>(milliseconds{2}));
RIG_OP("throttle_1ms", "O06", false, Throttle_1, ({TIMED}), w.src(0) | ops::throttle(milliseconds{1}));
RIG_OP("throttle_0ms", "O06", false, Throttle_0, ({TIMED}), w.src(0) | ops::throttle(milliseconds{0}));
RIG_OP("timeout_2ms", "O06", false, Timeout_2_false, ({TIMED}), w.src(0) | ops::timeout(milliseconds{2}, w.loop));
RIG_OP("timeout_1ms", "O06", false, Timeout_1_false, ({TIMED}), w.src(0) | ops::timeout(milliseconds{1}, w.loop));
RIG_OP("timeout_2ms_fallback", "O06", false, Timeout_2_true, ({TIMED_SHARED}), w.src(0) | ops::timeout(milliseconds{2}, w.src(1), w.loop));
RIG_OP("timeout_1ms_fallback", "O06", false, Timeout_1_true, ({TIMED_SHARED}), w.src(0) | ops::timeout(milliseconds{1}, w.src(1), w.loop));
RIG_OP("timeout_retry", "O06", false, RetryTimeout_2_1, ({TIMED_SHARED}), w.src(0) | ops::timeout(milliseconds{2}, w.loop) | ops::retry(1));
RIG_OP("interval_late", "O06 R01", false, Interval_1_1_0, ({TIMED, .late = true}), src::interval(milliseconds{1}, w.loop));
RIG_OP("interval_initial_late", "O06 R01", false, Interval_1_2_0, ({TIMED, .late = true}), src::interval(milliseconds{1}, milliseconds{2}, w.loop));
RIG_OP("interval_zero_initial_late", "O06 R01", false, Interval_0_2_0, ({TIMED, .late = true}), src::interval(milliseconds{0}, milliseconds{2}, w.loop));
RIG_OP("interval_absolute_late", "O06 R01", false, Interval_2_1_0_true, ({TIMED, .late = true}), src::interval(w.t0 + milliseconds{2}, milliseconds{1}, w.loop));
RIG_OP("interval_take_late", "O06 R01", false, Interval_1_1_3, ({TIMED, .late = true}), src::interval(milliseconds{1}, w.loop) | ops::take(3));
RIG_OP("timer_late", "O06 R01", false, Interval_2_0_1, ({TIMED, .late = true}), src::timer(milliseconds{2}, w.loop));
RIG_OP("timer_absolute_late", "O06 R01", false, Interval_3_0_1_true, ({TIMED, .late = true}), src::timer(w.t0 + milliseconds{3}, w.loop));
RIG_OP("interval_take_until", "O06 R01", false, IntervalUntil_1, ({TIMED}), src::interval(milliseconds{0}, milliseconds{1}, w.loop) | ops::take_until(w.src(0)));
RIG_OP("flat_map_timer", "O06", false, FlatTimer_2, ({TIMED}), w.src(0) | ops::flat_map([&loop = w.loop](const TV& v) { return src::timer(milliseconds{2}, loop) | ops::map([v = v.get()](size_t) { return v; }); }));
RIG_OP("switch_timer", "O06", false, SwitchTimer_2, ({TIMED}), w.src(0) | ops::map([&loop = w.loop](const TV& v) { return src::timer(milliseconds{2}, loop) | ops::map([v = v.get()](size_t) { return v; }); }) | ops::switch_on_next());
RIG_OP("delay_take", "O06", false, DelayTake_1_2, ({TIMED}), w.src(0) | ops::delay(milliseconds{1}, w.loop) | ops::take(2));
} // namespace
