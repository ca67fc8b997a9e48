// S03: serialized subjects fed, subscribed to and left from several threads.
#include "h.hpp"
#include <map>
using namespace h;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th = std::thread;
enum
{
    JOIN_B = 100,
    JOIN_E = 200,
    LEAVE_B = 300,
    LEAVE_E = 400
};

// values are emitter*10+i: decade = emitter, increasing within an emitter
enum Kind
{
    publish,
    behavior,
    replay,
    replay1
};

struct Window
{
    long joinb = -1, joine = -1, leaveb = -1, leavee = -1;
};

void check(Kind kind, int sinks, long initial = 0)
{
    mc::settle();
    mc::Quiet           q;
    const auto          ev = mc::events();
    std::vector<Window> w(static_cast<size_t>(sinks));
    for (size_t i = 0; i < ev.size(); ++i)
        if (ev[i].code == MARK)
        {
            const int  s = int(ev[i].a % 100);
            const long k = ev[i].a - s;
            auto&      x = w[size_t(s)];
            (k == JOIN_B ? x.joinb : k == JOIN_E ? x.joine : k == LEAVE_B ? x.leaveb : x.leavee) = long(i);
        }
    std::vector<History> hs;
    std::string          all;
    for (int s = 0; s < sinks; ++s)
    {
        hs.push_back(history(s));
        all += (s ? " | " : "") + ref::str(hs.back().out);
    }
    mc::outcome(all);
    const auto ops   = hs[0].ops;
    long       term_b = long(ev.size()) + 1, term_e = -1; // first begin / first end of a terminal operation
    for (auto& o : ops)
        if (o.e.k != 'N')
        {
            term_b = std::min(term_b, o.begin);
            if (o.end >= 0)
                term_e = term_e < 0 ? o.end : std::min(term_e, o.end);
        }
    std::string desc = "; received: " + all + "; operations:";
    for (auto& o : ops)
        desc += " t" + std::to_string(o.thread) + "." + ref::str({o.e});
    for (int s = 0; s < sinks; ++s)
    {
        auto&       x  = w[size_t(s)];
        auto&       hh = hs[size_t(s)];
        std::string me = "observer " + std::to_string(s) + ": ";
        if (!hh.problem.empty())
            mc::fail(me + hh.problem + desc);
        std::map<long, long> last; // emitter -> last value
        std::map<long, int>  seen;
        for (size_t i = 0; i < hh.out.size(); ++i)
        {
            const Ev e = hh.out[i];
            if (e.k != 'N')
                continue;
            if (kind == behavior && e.v == initial && i == 0)
                continue;
            if (seen[e.v]++)
                mc::fail(me + "value " + std::to_string(e.v) + " delivered twice" + desc);
            const long em = e.v / 10;
            if (last.count(em) && last[em] > e.v)
                mc::fail(me + "values of one emitter out of order" + desc);
            last[em] = e.v;
        }
        const long end = x.leaveb >= 0 ? x.leaveb : long(ev.size()) + 1;
        for (auto& o : ops)
        {
            if (o.e.k != 'N')
                continue;
            const bool received = seen.count(o.e.v) > 0;
            if (o.begin > x.joine && o.end >= 0 && o.end < end && o.end < term_b && !received)
                mc::fail(me + "lost value " + std::to_string(o.e.v) + " emitted while subscribed" + desc);
            if (received && x.leavee >= 0 && o.begin > x.leavee)
                mc::fail(me + "received value " + std::to_string(o.e.v) + " emitted after leaving" + desc);
            if (received && term_e >= 0 && o.begin > term_e)
                mc::fail(me + "received value " + std::to_string(o.e.v) + " emitted after the end" + desc);
            if (received && kind == publish && o.end >= 0 && o.end < x.joinb)
                mc::fail(me + "received value " + std::to_string(o.e.v) + " emitted before subscribing" + desc);
        }
        const bool ended = !hh.out.empty() && hh.out.back().k != 'N';
        if (term_e >= 0 && x.leaveb < 0 && !ended)
            mc::fail(me + "never received the terminal event" + desc);
        if (term_e < 0 && ended)
            mc::fail(me + "received a terminal event nobody sent" + desc);
    }
    // observers subscribed from the start to the end see the same sequence
    for (int s = 1; s < sinks; ++s)
    {
        auto& x = w[size_t(s)];
        if (x.leaveb >= 0)
            continue;
        const Out &a = hs[0].out, &b = hs[size_t(s)].out;
        bool        suffix = b.size() <= a.size();
        for (size_t i = 0; suffix && i < b.size(); ++i)
            suffix = a[a.size() - b.size() + i] == b[i];
        if (!suffix)
            mc::fail("observers disagree about the sequence (observer " + std::to_string(s) + ")" + desc);
        if (kind == replay && b.size() != a.size())
            mc::fail("late observer " + std::to_string(s) + " missed part of the history or live values" + desc);
        // behavior / replay(1): a gap right after the replayed value shows as a non-suffix; missing everything is a loss too
        if ((kind == behavior || kind == replay1) && b.empty() && !a.empty())
            mc::fail("late observer " + std::to_string(s) + " received nothing" + desc);
    }
}

template<class S>
struct Bed
{
    S                           s;
    std::deque<Sink<V>>         sinks;
    template<class... A>
    explicit Bed(A... a) : s(a...) {}
    rpp::disposable_wrapper     join(int i)
    {
        mc::rec(MARK, JOIN_B + i);
        auto d = Sink<V>{i}.subscribe_with_disposable(s.get_observable());
        mc::rec(MARK, JOIN_E + i);
        return d;
    }
    void leave(int i, const rpp::disposable_wrapper& d)
    {
        mc::rec(MARK, LEAVE_B + i);
        d.dispose();
        mc::rec(MARK, LEAVE_E + i);
    }
    void emit(std::initializer_list<Ev> es)
    {
        auto o = s.get_observer();
        for (auto& e : es)
            op<V>(0, o, e);
    }
};
using P  = Bed<rpp::subjects::serialized_publish_subject<V>>;
using B  = Bed<rpp::subjects::serialized_behavior_subject<V>>;
using R  = Bed<rpp::subjects::serialized_replay_subject<V>>;

template<class F, class G>
void par(F f, G g)
{
    Th t{g};
    f();
    t.join();
}
template<class F, class G, class H>
void par(F f, G g, H k)
{
    Th t{g}, u{k};
    f();
    t.join();
    u.join();
}
#define T3 "S03"
SC("publish_two_emitters", T3)
{
    P b;
    b.join(0);
    b.join(1);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.emit({N(21), C()}); });
    check(publish, 2);
};
SC("publish_two_emitters_error", T3)
{
    P b;
    b.join(0);
    b.join(1);
    par([&] { b.emit({N(11), C()}); }, [&] { b.emit({N(21), E(1)}); });
    check(publish, 2);
};
SC("publish_join", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] { b.join(1); });
    check(publish, 2);
};
SC("publish_join_first", T3)
{
    P b;
    par([&] { b.emit({N(11), C()}); }, [&] { b.join(0); });
    check(publish, 1);
};
SC("publish_two_join", T3, .quick_bound = 2)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), C()}); }, [&] { b.join(1); }, [&] { b.join(2); });
    check(publish, 3);
};
SC("publish_leave", T3)
{
    P    b;
    b.join(0);
    auto d = b.join(1);
    b.join(2);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] { b.leave(1, d); });
    check(publish, 3);
};
SC("publish_two_leave", T3)
{
    P    b;
    b.join(0);
    auto d1 = b.join(1), d2 = b.join(2);
    par([&] { b.leave(1, d1); }, [&] { b.leave(2, d2); });
    b.emit({N(11), C()});
    check(publish, 3);
};
SC("publish_two_leave_emit", T3, .quick_bound = 2)
{
    P    b;
    b.join(0);
    auto d1 = b.join(1), d2 = b.join(2);
    par([&] { b.emit({N(11)}); }, [&] { b.leave(1, d1); }, [&] { b.leave(2, d2); });
    b.emit({N(12), C()});
    check(publish, 3);
};
SC("publish_join_leave", T3)
{
    P    b;
    b.join(0);
    auto d1 = b.join(1);
    par([&] { b.leave(1, d1); }, [&] { b.join(2); });
    b.emit({N(11), C()});
    check(publish, 3);
};
SC("publish_join_leave_emit", T3, .quick_bound = 2)
{
    P    b;
    b.join(0);
    auto d1 = b.join(1);
    par([&] { b.emit({N(11), C()}); }, [&] { b.leave(1, d1); }, [&] { b.join(2); });
    check(publish, 3);
};
SC("publish_join_then_leave", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] { auto d = b.join(1); b.leave(1, d); });
    check(publish, 2);
};
SC("publish_emitters_and_join", T3, .quick_bound = 2)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11)}); }, [&] { b.emit({N(21), C()}); }, [&] { b.join(1); });
    check(publish, 2);
};
SC("publish_join_operators", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] {
        mc::rec(MARK, JOIN_B + 1);
        Sink<V>{1}.subscribe(b.s.get_observable() | rpp::operators::map([](V v) { return v; }) | rpp::operators::take(5));
        mc::rec(MARK, JOIN_E + 1); });
    check(publish, 2);
};
SC("publish_join_dynamic", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), C()}); }, [&] {
        mc::rec(MARK, JOIN_B + 1);
        b.s.get_observable().as_dynamic().subscribe(Sink<V>{1}.observer().as_dynamic());
        mc::rec(MARK, JOIN_E + 1); });
    check(publish, 2);
};
SC("publish_join_merge", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), C()}); }, [&] {
        mc::rec(MARK, JOIN_B + 1);
        Sink<V>{1}.subscribe(b.s.get_observable() | rpp::operators::merge_with(rpp::source::empty<V>()));
        mc::rec(MARK, JOIN_E + 1); });
    check(publish, 2);
};
SC("publish_dispose_subject", T3)
{
    P b;
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.s.get_disposable().dispose(); });
    mc::Quiet q;
    auto hh = history(0);
    mc::outcome(ref::str(hh.out));
    if (!hh.problem.empty())
        mc::fail(hh.problem);
};

SC("behavior_two_emitters", T3)
{
    B b{V{1}};
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.emit({N(21), C()}); });
    check(behavior, 1, 1);
};
SC("behavior_join", T3)
{
    B b{V{1}};
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.join(1); });
    b.emit({C()});
    check(behavior, 2, 1);
};
SC("behavior_join_completing", T3)
{
    B b{V{1}};
    b.join(0);
    par([&] { b.emit({N(11), C()}); }, [&] { b.join(1); });
    check(behavior, 2, 1);
};
SC("behavior_two_emitters_value", T3)
{
    B b{V{1}};
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.emit({N(21)}); });
    check(behavior, 1, 1);
    mc::Quiet q;
    if (b.s.get_value() != history(0).out.back().v)
        mc::fail("get_value() is " + std::to_string(b.s.get_value()) + " after " + ref::str(history(0).out));
};
SC("behavior_leave", T3)
{
    B    b{V{1}};
    b.join(0);
    auto d = b.join(1);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.leave(1, d); });
    check(behavior, 2, 1);
};
SC("behavior_value", T3)
{
    // the value read is always one already emitted and never goes back
    B    b{V{1}};
    b.join(0);
    std::vector<V> got;
    par([&] { b.emit({N(11), N(12)}); }, [&] { got.push_back(b.s.get_value()); got.push_back(b.s.get_value()); });
    mc::Quiet q;
    if (!(got[0] <= got[1]) || b.s.get_value() != 12)
        mc::fail("values read: " + std::to_string(got[0]) + " " + std::to_string(got[1]) + " then " + std::to_string(b.s.get_value()));
};
SC("replay_two_emitters", T3)
{
    R b;
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.emit({N(21), C()}); });
    check(replay, 1);
};
SC("replay_two_emitters_then_join", T3)
{
    R b;
    b.join(0);
    par([&] { b.emit({N(11)}); }, [&] { b.emit({N(21)}); });
    b.join(1);
    b.emit({C()});
    check(replay, 2);
};
SC("replay_join", T3)
{
    R b;
    b.join(0);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] { b.join(1); });
    check(replay, 2);
};
SC("replay_leave", T3)
{
    R    b;
    b.join(0);
    auto d = b.join(1);
    par([&] { b.emit({N(11), N(12), C()}); }, [&] { b.leave(1, d); });
    check(replay, 2);
};
SC("replay_two_join", T3, .quick_bound = 2)
{
    R b;
    b.emit({N(11)});
    b.join(0);
    par([&] { b.join(1); }, [&] { b.join(2); });
    b.emit({N(12), C()});
    check(replay, 3);
};
SC("replay1_join", T3)
{
    R b{size_t{1}};
    b.join(0);
    par([&] { b.emit({N(11), N(12)}); }, [&] { b.join(1); });
    check(replay1, 2);
};

// The plain variants promise nothing about the order of a subscription against a concurrent emission, but one source
// emitting while other threads subscribe and leave must stay memory safe, and a value may only be received once per subscription
// from the live stream, in order.
template<class S>
void plain(Bed<S>& b, std::initializer_list<Ev> values, int joiners, bool leave)
{
    b.join(0);
    std::vector<Th> ts;
    for (int i = 1; i <= joiners; ++i)
        ts.emplace_back([&b, i, leave] {
            auto d = b.join(i);
            if (leave)
                b.leave(i, d);
        });
    b.emit(values);
    for (auto& t : ts)
        t.join();
    mc::settle();
    mc::Quiet q;
    const Out got = history(0).out;
    mc::outcome(ref::str(got) + " | " + ref::str(history(1).out));
    if (got != Out(values))
        mc::fail("the observer subscribed from the start received " + ref::str(got));
}
using rpp::subjects::publish_subject;
using rpp::subjects::replay_subject;
SC("plain_publish_join", "M01", .quick_bound = 3, .thorough_bound = 4)
{
    Bed<publish_subject<V>> b;
    plain(b, {N(11), N(12)}, 1, false);
};
SC("plain_publish_join_leave", "M01", .quick_bound = 3, .thorough_bound = 4)
{
    Bed<publish_subject<V>> b;
    plain(b, {N(11), N(12), C()}, 1, true);
};
SC("plain_publish_two_join", "M01", .quick_bound = 2, .thorough_bound = 4)
{
    Bed<publish_subject<V>> b;
    plain(b, {N(11), C()}, 2, false);
};
SC("plain_replay_join", "M01", .quick_bound = 3, .thorough_bound = 4)
{
    Bed<replay_subject<V>> b;
    plain(b, {N(11), N(12)}, 1, false);
};
SC("plain_replay1_join", "M01", .quick_bound = 3, .thorough_bound = 4)
{
    Bed<replay_subject<V>> b{size_t{1}};
    plain(b, {N(11), N(12), C()}, 1, false);
};
SC("plain_replay_aged_join", "M01", .quick_bound = 2, .thorough_bound = 4)
{
    Bed<replay_subject<V>> b{size_t{2}, std::chrono::milliseconds{1}};
    plain(b, {N(11), N(12)}, 1, false);
};
} // namespace
