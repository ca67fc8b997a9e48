// S04: connectable streams. Sequential part: every history of arrivals, departures, connections, disconnections and source events (also issued from
// inside of callbacks, also with a source which emits while it is being subscribed) against an online reference.
// Concurrent part: arrivals, departures, connections and terminal events from several threads under every interleaving up to a bound.
#include "rig.hpp"
#include <rpp/subjects/publish_subject.hpp>
#include <rpp/subjects/replay_subject.hpp>
namespace
{
using rig::TV;
namespace ops = rpp::operators;
constexpr int OBS = 3;
RIG_UNTRACKED void bump(int& n, int d) { n += d; }

// ---------------------------------------------------------------- the source
struct SrcSub
{
    std::optional<rpp::dynamic_observer<TV>> obs{};
    int                                      cancels = 0;
    bool                                     ended   = false;
};
struct Source
{
    std::deque<SrcSub> subs{};
    std::string        script{}; // emitted during subscription: n - value, e, c
    long               next_v = 1;
    std::function<void(char, long)> before = [](char, long) {};
    std::function<void()>           after  = [] {};
    std::function<void()>           subscribed = [] {};
    template<class O>
    void subscribe(O&& o)
    {
        subs.emplace_back();
        auto& me = subs.back();
        o.set_upstream(rpp::make_callback_disposable([&me]() noexcept { ++me.cancels; }));
        me.obs.emplace(std::forward<O>(o).as_dynamic());
        subscribed();
        for (char c : script)
            if (!me.cancels && !me.ended)
                push(me, c);
    }
    void push(SrcSub& s, char c)
    {
        const long v = c == 'n' ? next_v++ : 0;
        before(c, v);
        auto obs = *s.obs;
        if (c != 'n')
            s.ended = true;
        if (c == 'n')
            obs.on_next(TV{v});
        else if (c == 'e')
            obs.on_error(h::make_error(1));
        else
            obs.on_completed();
        after();
    }
    SrcSub* live()
    {
        for (auto& s : subs)
            if (!s.cancels && !s.ended)
                return &s;
        return nullptr;
    }
    int count_live() const
    {
        int n = 0;
        for (auto& s : subs)
            n += !s.cancels && !s.ended;
        return n;
    }
    auto observable()
    {
        return rpp::source::create<TV>([this](auto&& o) { subscribe(std::forward<decltype(o)>(o)); });
    }
};

enum OState
{
    NEW,
    ON,
    OFF
};
struct Frame
{
    std::vector<std::pair<int, std::string>> exp{};
    int                                      joiner = -1; // may get the terminal event / the history at once
};
template<class Connectable, class Stream>
struct Test
{
    Source&                           src;
    const Connectable&                connectable;
    const Stream&                     stream; // what observers subscribe to
    const bool                        counted;
    const bool                        replays;
    OState                            st[OBS]{};
    rpp::composite_disposable_wrapper h[OBS]{rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
    rpp::disposable_wrapper           connection = rpp::disposable_wrapper::empty();
    int                               next_obs = 0, budget = 0;
    bool                              connected = false, pending = false;
    char                              end = 0;
    size_t                            expected_subs = 0;
    std::vector<long>                 hist{};
    std::vector<Frame>                frames{};
    std::string                       trace{};
    int                               tokens[OBS]{};

    void bad(const std::string& what) { mc::fail("[" + trace + "] " + what); }
    Test(Source& s, const Connectable& c, const Stream& st, bool counted, bool replays)
        : src(s)
        , connectable(c)
        , stream(st)
        , counted(counted)
        , replays(replays)
    {
        src.before = [this](char c, long v) {
            mc::Quiet q;
            trace += c == 'n' ? "next" + std::to_string(v) + " " : c == 'e' ? "error " : "complete ";
            Frame f;
            if (!end)
            {
                if (c != 'n')
                {
                    end       = c;
                    connected = false;
                }
                else if (this->replays)
                    hist.push_back(v);
                for (int i = 0; i < OBS; ++i)
                    if (st_(i) == ON)
                        f.exp.emplace_back(i, c == 'n' ? "N" + std::to_string(v) : c == 'e' ? "E1" : "C");
            }
            frames.push_back(f);
        };
        src.after      = [this] { close(); };
        src.subscribed = [this] {
            mc::Quiet q;
            trace += "<subscribed> ";
            if (pending)
            {
                ++expected_subs;
                connected = true;
                pending   = false;
            }
            if (src.subs.size() > expected_subs)
                bad("unexpected subscription of the source");
            if (src.count_live() > 1)
                bad("the source has two subscriptions at once");
        };
    }
    OState st_(int i) const { return st[i]; }
    void   close()
    {
        mc::Quiet q;
        for (auto& [i, w] : frames.back().exp)
            if (st[i] == ON)
                bad("observer " + std::to_string(i) + " did not receive " + w);
        frames.pop_back();
    }
    void got(int i, const std::string& what)
    {
        {
            mc::Quiet q;
            trace += std::to_string(i) + "<" + what + " ";
            if (st[i] != ON)
                bad("observer " + std::to_string(i) + " received " + what + " after it had left");
            bool ok = false;
            if (!frames.empty())
            {
                auto& f  = frames.back();
                auto  it = std::find_if(f.exp.begin(), f.exp.end(), [&](auto& e) { return e.first == i; });
                if (it != f.exp.end() && it->second == what)
                {
                    ok = true;
                    f.exp.erase(it);
                }
                else if (it == f.exp.end() && f.joiner == i && end && what == (end == 'e' ? "E1" : "C"))
                    ok = true;
            }
            if (!ok)
                bad("observer " + std::to_string(i) + " received unexpected " + what);
            if (what[0] != 'N')
            {
                st[i] = OFF;
                left();
            }
        }
        if (budget)
        {
            std::vector<std::pair<int, int>> as{{0, 0}};
            {
                mc::Quiet q;
                moves(as, true);
            }
            const auto [what, arg] = as[size_t(mc::choose(int(as.size())))];
            if (what)
            {
                --budget;
                trace += "{";
                run(what, arg);
                trace += "} ";
            }
        }
    }
    bool anybody() const
    {
        for (auto s : st)
            if (s == ON)
                return true;
        return false;
    }
    void left() // somebody left
    {
        if (counted && !anybody())
            connected = pending = false;
    }
    void moves(std::vector<std::pair<int, int>>& as, bool inside)
    {
        if (next_obs < OBS)
            as.push_back({1, 0});
        for (int i = 0; i < OBS; ++i)
            if (st[i] == ON)
                as.push_back({2, i});
        if (!counted)
        {
            // known findings of S02: an emission from inside of the replay doesn't reach the observer the history is replayed to
            bool replaying = false;
            for (auto& f : frames)
                replaying |= f.joiner >= 0;
            if (!replaying)
                as.push_back({3, 0});
            if ((!connection.is_disposed() || connected) && !(inside && end)) // (disconnecting from inside of the terminal event is left out)
                as.push_back({4, 0});
        }
        if (src.live() && !inside)
            for (int c : {'n', 'e', 'c'})
                as.push_back({5, c});
    }
    void run(int what, int arg)
    {
        switch (what)
        {
            case 1: join(); break;
            case 2:
                trace += "leave" + std::to_string(arg) + " ";
                st[arg] = OFF;
                left();
                h[arg].dispose();
                break;
            case 3: {
                trace += "connect ";
                const bool was = connected, end_ = end;
                if (!end && !connected)
                {
                    ++expected_subs;
                    connected = true;
                }
                auto w = rpp::composite_disposable_wrapper::make();
                if (!end && !was)
                    connection = w;
                auto d = connectable.connect(w);
                trace += "connected ";
                if (src.subs.size() != expected_subs)
                    bad("the source has " + std::to_string(src.subs.size()) + " subscriptions instead of " + std::to_string(expected_subs));
                if (was && d != connection)
                    bad("connecting twice returned another connection");
                if (connected && connection == d && d.is_disposed())
                    bad("connection is disposed though the stream is connected");
                if (!was && !end_ && d != rpp::disposable_wrapper{w})
                    bad("connecting returned another connection");
                break;
            }
            case 4:
                trace += "disconnect ";
                connected = false;
                connection.dispose();
                break;
            case 5:
                if (auto s = src.live())
                    src.push(*s, char(arg));
                break;
        }
    }
    struct Tok
    {
        int* n;
        explicit Tok(int* n) : n(n) { bump(*n, 1); }
        Tok(const Tok& o) : n(o.n) { bump(*n, 1); }
        Tok(Tok&& o) noexcept : n(o.n) { bump(*n, 1); }
        ~Tok() { bump(*n, -1); }
    };
    void join()
    {
        const int i = next_obs++;
        {
            mc::Quiet q;
            trace += "join" + std::to_string(i) + " ";
            Frame f;
            f.joiner = i;
            for (long v : hist)
                f.exp.emplace_back(i, "N" + std::to_string(v));
            st[i] = ON;
            if (counted && !end && !connected)
                pending = true; // connection follows the subscription (the observer can leave while the history is replayed to it)
            frames.push_back(f);
        }
        Tok tok{&tokens[i]};
        stream.subscribe(
            h[i],
            [this, i, tok](const TV& v) { got(i, "N" + std::to_string(v.get())); },
            [this, i, tok](const std::exception_ptr& e) { got(i, "E" + std::to_string(h::error_id(e))); },
            [this, i, tok] { got(i, "C"); });
        mc::Quiet q;
        trace += "joined ";
        if (st[i] == ON && end)
            bad("observer " + std::to_string(i) + " did not receive the terminal event");
        close();
    }
    void check()
    {
        mc::Quiet q;
        if (pending)
            bad("the source is not subscribed");
        if (src.subs.size() != expected_subs)
            bad("the source was subscribed " + std::to_string(src.subs.size()) + " times instead of " + std::to_string(expected_subs));
        if ((src.count_live() > 0) != connected)
            bad(connected ? "the source is not subscribed" : "the source is still subscribed");
        for (auto& s : src.subs)
        {
            if (s.cancels > 1)
                bad("the source is told to stop twice");
            if (s.obs && s.obs->is_disposed() != (s.cancels || s.ended))
                bad("wrong disposed state of the source's observer");
        }
        for (int i = 0; i < OBS; ++i)
            if ((tokens[i] > 0) != (st[i] == ON))
                bad("observer " + std::to_string(i) + (tokens[i] ? " has left but isn't released" : " is destroyed"));
    }
    void go(int depth, int b)
    {
        budget = b;
        for (int s = 0; s < depth; ++s)
        {
            std::vector<std::pair<int, int>> as{{0, 0}};
            {
                mc::Quiet q;
                moves(as, false);
            }
            const auto [what, arg] = as[size_t(mc::choose(int(as.size())))];
            if (!what)
                break;
            run(what, arg);
            check();
        }
        mc::outcome(trace.substr(0, 30));
    }
};
const char* const SCRIPTS[] = {"", "n", "nn", "nc", "e"};
template<class Make>
void run(bool counted, bool replays, int depth, int budget, Make make)
{
    TV::live = 0;
    {
        Source src;
        src.script = SCRIPTS[mc::choose(5)];
        auto c     = make(src);
        if (counted)
        {
            auto stream = c.ref_count();
            Test t{src, c, stream, true, replays};
            t.trace = "(" + src.script + ") ";
            t.go(depth + (mc::thorough() ? 1 : 0), budget);
            for (auto& d : t.h)
                d.dispose();
            t.connection.dispose();
        }
        else
        {
            Test t{src, c, c, false, replays};
            t.trace = "(" + src.script + ") ";
            t.go(depth + (mc::thorough() ? 1 : 0), budget);
            for (auto& d : t.h)
                d.dispose();
            t.connection.dispose();
        }
        src.subs.clear();
    }
    mc::Quiet q;
    if (TV::live)
        mc::fail("values are not released");
}
#define CONN(name, counted, replays, expr)                                                                                                    \
    SC(name "_histories", "S04", .quick_bound = 0, .thorough_bound = 0) { run(counted, replays, 6, 0, [](Source& s) { return expr; }); };      \
    SC(name "_reentrant", "S04", .quick_bound = 0, .thorough_bound = 0) { run(counted, replays, 4, 1, [](Source& s) { return expr; }); };      \
    SC(name "_reentrant2", "S04", .quick_bound = 0, .thorough_bound = 0) { run(counted, replays, 3, 2, [](Source& s) { return expr; }); };
CONN("publish", false, false, s.observable() | ops::publish())
CONN("publish_lvalue_source", false, false, [&] { const auto o = s.observable(); return o | ops::publish(); }())
CONN("publish_dynamic", false, false, s.observable().as_dynamic() | ops::publish())
CONN("multicast_subject", false, false, s.observable() | ops::multicast(rpp::subjects::publish_subject<TV>{}))
CONN("multicast_serialized", false, false, s.observable() | ops::multicast<rpp::subjects::serialized_publish_subject>())
CONN("multicast_replay", false, true, s.observable() | ops::multicast(rpp::subjects::replay_subject<TV>{}))
CONN("ref_count", true, false, s.observable() | ops::publish())
CONN("ref_count_serialized", true, false, s.observable() | ops::multicast<rpp::subjects::serialized_publish_subject>())
CONN("ref_count_replay", true, true, s.observable() | ops::multicast(rpp::subjects::replay_subject<TV>{}))

// ---------------------------------------------------------------- concurrent part
struct ConcSource
{
    struct Sub
    {
        std::atomic<bool>                        cancelled{false};
        bool                                     ended = false;
        std::optional<rpp::dynamic_observer<TV>> obs{};
    };
    std::mutex                    mutex{};
    std::deque<Sub>               subs{};
    bool                          complete_at_once = false;
    auto                          observable()
    {
        return rpp::source::create<TV>([this](auto&& o) {
            Sub* s;
            {
                std::lock_guard lock{mutex};
                s = &subs.emplace_back();
            }
            o.set_upstream(rpp::make_callback_disposable([s]() noexcept {
                if (s->cancelled.exchange(true))
                    mc::fail("the source is told to stop twice");
            }));
            auto d = std::forward<decltype(o)>(o).as_dynamic();
            std::lock_guard lock{mutex};
            s->obs = d;
        });
    }
    int count_live()
    {
        int n = 0;
        for (auto& s : subs)
            n += !s.cancelled && !s.ended;
        return n;
    }
};
// every thread runs a program over its own observers: J - join, L - leave the last joined one, K - connect, D - disconnect; `before`: observers which are there already
template<bool Counted>
void threads(const std::vector<std::string>& programs, int before, bool completing)
{
    ConcSource                                     src;
    auto                                           conn = src.observable() | ops::publish();
    auto                                           counted = conn.ref_count();
    struct Ob
    {
        rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
        int                               terminals = 0;
        bool                              left = false;
    };
    std::vector<std::unique_ptr<Ob>> obs;
    for (int i = 0; i < 12; ++i)
        obs.push_back(std::make_unique<Ob>());
    auto join = [&](Ob& o) {
        auto f = [&](const auto& stream) { stream.subscribe(o.d, [](const TV&) {}, [](const std::exception_ptr&) {}, [&o] { ++o.terminals; }); };
        if constexpr (Counted)
            f(counted);
        else
            f(conn);
    };
    for (int i = 0; i < before; ++i)
        join(*obs[size_t(i)]);
    if (!Counted && before)
        conn.connect();
    std::vector<std::thread> ts;
    std::vector<int>         used(12, 0);
    for (int i = 0; i < before; ++i)
        used[size_t(i)] = 1;
    auto body = [&](int t) {
        int                     next = 4 + t * 2;
        int                     mine = t < before ? t : -1;
        rpp::disposable_wrapper c    = rpp::disposable_wrapper::empty();
        for (char x : programs[size_t(t)])
        {
            if (x == 'J')
            {
                mine = next++;
                used[size_t(mine)] = 1;
                join(*obs[size_t(mine)]);
            }
            else if (x == 'L' && mine >= 0)
            {
                obs[size_t(mine)]->left = true;
                obs[size_t(mine)]->d.dispose();
            }
            else if (x == 'K')
                c = conn.connect();
            else if (x == 'D')
                c.dispose();
            else if (x == 'C')
            {
                rpp::dynamic_observer<TV> o = [&] {
                    std::lock_guard lock{src.mutex};
                    return *src.subs.front().obs;
                }();
                src.subs.front().ended = true;
                o.on_completed();
            }
        }
    };
    for (size_t t = 1; t < programs.size(); ++t)
        ts.emplace_back(body, int(t));
    body(0);
    for (auto& t : ts)
        t.join();
    mc::Quiet q;
    int       subscribed = 0;
    for (size_t i = 0; i < obs.size(); ++i)
    {
        auto& o = *obs[i];
        if (o.terminals > 1)
            mc::fail("two terminal events");
        if (used[i] && !o.left && o.terminals == 0)
            ++subscribed;
        if (completing && used[i] && !o.left && !o.terminals)
            mc::fail("a subscriber did not receive the completion");
    }
    const int live = src.count_live();
    mc::outcome(std::to_string(live) + "/" + std::to_string(src.subs.size()));
    if (Counted)
    {
        if (!completing && subscribed && live != 1)
            mc::fail(std::to_string(subscribed) + " subscribers, but the source has " + std::to_string(live) + " live subscriptions");
        if ((completing || !subscribed) && live)
            mc::fail("nobody is subscribed, but the source has " + std::to_string(live) + " live subscriptions");
    }
    else if (live > 1)
        mc::fail("the source has " + std::to_string(live) + " live subscriptions");
    // the rest leaves one by one: the connection has to last exactly as long as there is somebody
    const bool backwards = Counted && subscribed > 1 && mc::choose(2);
    int        left      = subscribed;
    for (size_t i = 0; i < obs.size(); ++i)
    {
        const size_t n = backwards ? obs.size() - 1 - i : i;
        auto&        o = *obs[n];
        o.d.dispose();
        if (Counted && !completing && used[n] && !o.left && o.terminals == 0)
        {
            --left;
            if (src.count_live() != (left ? 1 : 0))
                mc::fail(std::to_string(left) + " of " + std::to_string(subscribed) + " subscribers are left, but the source has " + std::to_string(src.count_live()) + " live subscriptions");
        }
    }
    for (auto& s : src.subs)
        s.obs.reset();
}
#define CC(name, counted, programs, before, completing, q, t) \
    SC(name, "S04 M01", .quick_bound = q, .thorough_bound = t) { threads<counted> programs, before, completing); };
#define PROG(...) (std::vector<std::string>{__VA_ARGS__}
CC("two_arrive", true, PROG("J", "J"), 0, false, 3, 5)
CC("three_arrive", true, PROG("J", "J", "J"), 0, false, 2, 3)
CC("two_come_and_go", true, PROG("JL", "JL"), 0, false, 3, 4)
CC("one_comes_and_goes_one_arrives", true, PROG("JL", "J"), 0, false, 3, 5)
CC("last_leaves_one_arrives", true, PROG("L", "J"), 1, false, 3, 5)
CC("last_leaves_two_arrive", true, PROG("L", "J", "J"), 1, false, 2, 3)
CC("two_leave", true, PROG("L", "L"), 2, false, 3, 5)
CC("two_leave_one_arrives", true, PROG("L", "L", "J"), 2, false, 2, 3)
CC("leave_and_return", true, PROG("LJ", "LJ"), 2, false, 2, 3)
CC("arrive_while_completing", true, PROG("C", "J"), 1, true, 3, 5)
CC("leave_while_completing", true, PROG("C", "L"), 2, true, 3, 5)
CC("two_connect", false, PROG("K", "K"), 0, false, 3, 5)
CC("connect_disconnect_connect", false, PROG("KD", "K"), 0, false, 3, 5)
CC("reconnect", false, PROG("KDK", "KD"), 0, false, 2, 4)
CC("join_and_connect", false, PROG("JK", "JK"), 0, false, 3, 4)
CC("complete_and_join", false, PROG("C", "J"), 1, true, 3, 5)
} // namespace
