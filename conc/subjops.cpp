// S01, S02: every history of subscribing, unsubscribing, emitting, terminating, disposing (and passing of time) on a subject, with calls issued
// from inside of the subscribers' callbacks, against an online reference: an emission goes to the observers subscribed when it was emitted and
// still subscribed when their turn comes; a subscription starts with the retained history and/or the terminal event.
#include "rig.hpp"
#include <rpp/subjects/behavior_subject.hpp>
#include <rpp/subjects/publish_subject.hpp>
#include <rpp/subjects/replay_subject.hpp>
namespace
{
using rig::TV;
namespace sub = rpp::subjects;
using std::chrono::milliseconds;

struct Traits
{
    char   kind      = 'P'; // P B R
    size_t count     = 1000;
    int    age_ms    = -1;
    bool   emit_in_replay = false; // emissions from inside of the replay of history to a new subscriber
};
constexpr int OBS = 3;
int           g_tok[OBS + 1];
RIG_UNTRACKED void bump(int& n, int d) { n += d; }
struct Tok
{
    int i;
    explicit Tok(int i) : i(i) { bump(g_tok[i], 1); }
    Tok(const Tok& o) : i(o.i) { bump(g_tok[i], 1); }
    Tok(Tok&& o) noexcept : i(o.i) { bump(g_tok[i], 1); }
    ~Tok() { bump(g_tok[i], -1); }
};
enum OState
{
    NEW,
    JOINING,
    ON,
    OFF
};
struct Frame
{
    char                               k; // N E C S
    std::deque<std::pair<int, std::string>> exp{};
    int                                who      = -1;    // S
    bool                               optional = false; // the rest may be delivered or not
    bool                               terminal_optional = false;
};
template<class Subject>
struct Test
{
    Traits                                         tr;
    Subject                                        subject;
    OState                                         st[OBS]{};
    rpp::composite_disposable_wrapper              h[OBS]{rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make(), rpp::composite_disposable_wrapper::make()};
    int                                            next_obs = 0, budget = 0;
    long                                           next_v = 1, last = 0;
    char                                           end    = 0; // E C D
    std::deque<std::pair<long, long>>              hist{};     // value, when (ms)
    std::vector<Frame>                             frames{};
    std::string                                    trace{};
    int                                            upstreams = 0, upstreams_cut = 0;
    std::vector<rpp::disposable_wrapper>           ups{};
    explicit Test(Traits tr, const Subject& s)
        : tr(tr)
        , subject(s)
    {
        for (int& t : g_tok)
            t = 0;
    }
    static long now() { return mc::vnow() / 1000000; }
    void        bad(const std::string& what) { mc::fail("[" + trace + "] " + what); }
    void        expire()
    {
        if (tr.age_ms >= 0)
            while (!hist.empty() && now() - hist.front().second > tr.age_ms)
                hist.pop_front();
    }
    static std::string N(long v) { return "N" + std::to_string(v); }
    // ------------------------------------------------ observations
    void skip(Frame& f)
    {
        while (!f.exp.empty() && st[f.exp.front().first] == OFF)
            f.exp.pop_front();
    }
    void got(int i, const std::string& what)
    {
        {
            mc::Quiet q;
            trace += std::to_string(i) + "<" + what + " ";
            if (frames.empty())
                bad("observer " + std::to_string(i) + " received " + what + " out of nowhere");
            auto& f = frames.back();
            if (st[i] == OFF || st[i] == NEW)
                bad("observer " + std::to_string(i) + " received " + what + " after it had left");
            skip(f);
            // (the order in which observers are served is not specified)
            auto mine = std::find_if(f.exp.begin(), f.exp.end(), [&](const auto& e) { return e.first == i; });
            while (f.optional && mine != f.exp.end() && mine->second != what)
                mine = std::find_if(f.exp.erase(mine), f.exp.end(), [&](const auto& e) { return e.first == i; });
            if (mine != f.exp.end() && mine->second == what)
                f.exp.erase(mine);
            else if (mine == f.exp.end() && f.k == 'S' && f.who == i && (end == 'E' || end == 'C') && what == (end == 'E' ? "E1" : "C"))
                ;
            else
                bad("observer " + std::to_string(i) + " received " + what + (mine == f.exp.end() ? ", nothing expected" : " instead of " + mine->second));
            if (what[0] != 'N')
                st[i] = OFF;
        }
        react(i, what[0] == 'N');
    }
    void react(int i, bool value)
    {
        if (!budget)
            return;
        struct A
        {
            int what, arg;
        };
        std::vector<A> as{{0, 0}};
        {
            mc::Quiet q;
            const bool replaying = std::any_of(frames.begin(), frames.end(), [](const Frame& f) { return f.k == 'S'; });
            if (st[i] == ON || st[i] == JOINING)
                as.push_back({1, i});
            for (int j = 0; j < OBS; ++j)
                if (j != i && st[j] == ON)
                    as.push_back({1, j});
            if (next_obs < OBS)
                as.push_back({2, 0});
            if (!replaying || tr.emit_in_replay)
                as.push_back({3, 0});
            as.push_back({4, 0});
            as.push_back({5, 0});
            as.push_back({6, 0});
            if (value && st[i] != OFF)
                as.push_back({7, 0});
        }
        const auto a = as[size_t(mc::choose(int(as.size())))];
        if (a.what)
            --budget;
        if (a.what == 7)
        {
            {
                mc::Quiet q;
                trace += "throw ";
                frames.back().exp.push_front({i, "E3"});
            }
            std::rethrow_exception(h::make_error(3));
        }
        const size_t depth = frames.size();
        trace += a.what ? "{" : "";
        run(a.what, a.arg);
        trace += a.what ? "} " : "";
        mc::Quiet q;
        if (frames.size() != depth)
            bad("internal: frames");
    }
    // ------------------------------------------------ operations
    void run(int what, int arg)
    {
        switch (what)
        {
            case 0: break;
            case 1: leave(arg); break;
            case 2: join(); break;
            case 3: next(); break;
            case 4: finish('E'); break;
            case 5: finish('C'); break;
            case 6: dispose(); break;
        }
    }
    void close()
    {
        mc::Quiet q;
        auto&     f = frames.back();
        skip(f);
        if (!f.exp.empty() && !f.optional && f.k == 'S' && tr.emit_in_replay)
            bad("the new subscriber did not receive a value emitted from inside of its own replay");
        if (!f.exp.empty() && !f.optional)
            bad("observer " + std::to_string(f.exp.front().first) + " did not receive " + f.exp.front().second);
        frames.pop_back();
    }
    void leave(int i)
    {
        trace += "leave" + std::to_string(i) + " ";
        st[i] = OFF;
        h[i].dispose();
        if (!h[i].is_disposed())
            bad("a left observer isn't disposed");
    }
    void join()
    {
        const int i = next_obs++;
        {
            mc::Quiet q;
            trace += "join" + std::to_string(i) + " ";
            Frame f{'S'};
            f.who = i;
            if (tr.kind != 'P')
            {
                expire();
                const bool ending = std::any_of(frames.begin(), frames.end(), [](const Frame& f) { return f.k == 'E' || f.k == 'C'; });
                if (tr.kind == 'R' || !end || ending)
                    for (auto& [v, t] : hist)
                        f.exp.emplace_back(i, N(v));
                f.optional = end == 'D' || (tr.kind == 'B' && ending);
            }
            frames.push_back(f);
            st[i] = JOINING;
        }
        Tok tok{i};
        subject.get_observable().subscribe(
            h[i],
            [this, i, tok](const TV& v) { got(i, N(v.get())); },
            [this, i, tok](const std::exception_ptr& e) { got(i, "E" + std::to_string(h::error_id(e))); },
            [this, i, tok] { got(i, "C"); });
        mc::Quiet q;
        if (st[i] == JOINING && (end == 'E' || end == 'C'))
            bad("observer " + std::to_string(i) + " did not receive the terminal event");
        if (st[i] == JOINING)
            st[i] = end ? OFF : ON;
        close();
    }
    void next()
    {
        const long v = next_v++;
        {
            mc::Quiet q;
            trace += "next" + std::to_string(v) + " ";
            Frame f{'N'};
            if (!end)
            {
                last = v;
                if (tr.kind == 'B')
                    hist.clear();
                while (hist.size() >= tr.count)
                    hist.pop_front();
                if (tr.kind != 'P')
                    hist.emplace_back(v, now());
                for (int i = 0; i < OBS; ++i)
                    if (st[i] == ON)
                        f.exp.emplace_back(i, N(v));
                if (tr.emit_in_replay)
                    for (auto& s : frames)
                        if (s.k == 'S' && st[s.who] == JOINING)
                            s.exp.emplace_back(s.who, N(v));
            }
            frames.push_back(f);
        }
        subject.get_observer().on_next(TV{v});
        close();
    }
    void finish(char k)
    {
        {
            mc::Quiet q;
            trace += k == 'E' ? "error " : "complete ";
            Frame f{k};
            if (!end)
            {
                end = k;
                for (int i = 0; i < OBS; ++i)
                    if (st[i] == ON)
                        f.exp.emplace_back(i, k == 'E' ? "E1" : "C");
            }
            frames.push_back(f);
        }
        if (k == 'E')
            subject.get_observer().on_error(h::make_error(1));
        else
            subject.get_observer().on_completed();
        close();
    }
    void dispose()
    {
        {
            mc::Quiet q;
            trace += "dispose ";
            if (!end)
                end = 'D';
            for (auto& f : frames)
                f.optional |= end == 'D';
        }
        subject.get_disposable().dispose();
        if (!subject.get_disposable().is_disposed())
            bad("the subject isn't disposed");
        mc::Quiet q;
        if (end == 'D' && frames.empty())
            for (auto& s : st)
                if (s == ON)
                    s = OFF;
    }
    void attach()
    {
        trace += "upstream ";
        ++upstreams;
        auto d = rpp::make_callback_disposable([this]() noexcept { ++upstreams_cut; });
        ups.push_back(d);
        subject.get_observer().set_upstream(d);
    }
    void check()
    {
        mc::Quiet q;
        if (end == 'D')
            for (auto& s : st)
                if (s == ON)
                    s = OFF;
        for (int i = 0; i < OBS; ++i)
        {
            if (st[i] != ON && g_tok[i])
                bad("observer " + std::to_string(i) + " has left but isn't released");
            if (st[i] == ON && !g_tok[i])
                bad("observer " + std::to_string(i) + " is subscribed but was destroyed");
        }
        if (subject.get_disposable().is_disposed() != !!end || subject.get_observer().is_disposed() != !!end)
            bad(std::string{"the subject is "} + (end ? "not disposed though finished" : "disposed though nobody finished it"));
        if (upstreams_cut != (end ? upstreams : 0))
            bad(std::to_string(upstreams_cut) + " upstreams of " + std::to_string(upstreams) + " are told to stop");
        if constexpr (requires { subject.get_value(); })
            if (subject.get_value().get() != last)
                bad("get_value() is " + std::to_string(subject.get_value().get()) + " instead of " + std::to_string(last));
        if (!end && tr.count < 1000 && TV::live > long(tr.count))
            bad(std::to_string(TV::live) + " values are kept");
        if (tr.kind == 'P' && TV::live)
            bad("values are kept");
    }
    void go(int depth, int b)
    {
        budget = b;
        for (int s = 0; s < depth; ++s)
        {
            std::vector<std::pair<int, int>> ops{{-1, 0}, {3, 0}};
            {
                mc::Quiet q;
                if (next_obs < OBS)
                    ops.push_back({2, 0});
                for (int i = 0; i < OBS; ++i)
                    if (st[i] == ON)
                        ops.push_back({1, i});
                ops.push_back({4, 0});
                ops.push_back({5, 0});
                if (end != 'D')
                    ops.push_back({6, 0});
                if (upstreams < 1)
                    ops.push_back({8, 0});
                if (tr.age_ms >= 0)
                    ops.push_back({9, 0});
            }
            const auto [what, arg] = ops[size_t(mc::choose(int(ops.size())))];
            if (what < 0)
                break;
            if (what == 8)
                attach();
            else if (what == 9)
            {
                trace += "wait ";
                std::this_thread::sleep_for(milliseconds{1});
            }
            else
                run(what, arg);
            check();
        }
        mc::outcome(trace.substr(0, 20));
    }
};
template<class Subject, class Make>
void run(Traits tr, int quick_depth, int thorough_depth, int quick_budget, int thorough_budget, Make make)
{
    TV::live = 0;
    {
        const Subject s = make();
        Test<Subject> t{tr, s};
        if (tr.kind == 'B')
        {
            t.hist.emplace_back(100, 0);
            t.last = 100;
        }
        t.go(mc::thorough() ? thorough_depth : quick_depth, mc::thorough() ? thorough_budget : quick_budget);
        for (auto& d : t.h)
            d.dispose();
    }
    mc::Quiet q;
    if (TV::live)
        mc::fail("values are not released");
    for (int i = 0; i < OBS; ++i)
        if (g_tok[i])
            mc::fail("observers are not released");
}
#define RIG_UNPAREN(...) __VA_ARGS__
#define SUBJ(name, tags, type, traits, expr)                                                                                          \
    SC(name "_histories", tags, .quick_bound = 0, .thorough_bound = 0) { run<type>(Traits RIG_UNPAREN traits, 6, 7, 0, 0, [] { return expr; }); }; \
    SC(name "_reentrant", tags, .quick_bound = 0, .thorough_bound = 0) { run<type>(Traits RIG_UNPAREN traits, 4, 5, 1, 1, [] { return expr; }); }; \
    SC(name "_reentrant2", tags, .quick_bound = 0, .thorough_bound = 0) { run<type>(Traits RIG_UNPAREN traits, 3, 4, 2, 2, [] { return expr; }); };
using P  = sub::publish_subject<TV>;
using SP = sub::serialized_publish_subject<TV>;
using B  = sub::behavior_subject<TV>;
using SB = sub::serialized_behavior_subject<TV>;
using R  = sub::replay_subject<TV>;
using SR = sub::serialized_replay_subject<TV>;
SUBJ("publish", "S01", P, ({}), P{})
SUBJ("serialized_publish", "S01", SP, ({}), SP{})
SUBJ("behavior", "S02", B, ({.kind = 'B', .count = 1}), B{TV{100}})
SUBJ("serialized_behavior", "S02", SB, ({.kind = 'B', .count = 1}), SB{TV{100}})
SUBJ("replay", "S02", R, ({.kind = 'R'}), R{})
SUBJ("serialized_replay", "S02", SR, ({.kind = 'R'}), SR{})
SUBJ("replay_1", "S02", R, ({.kind = 'R', .count = 1}), R{1})
SUBJ("replay_2", "S02", R, ({.kind = 'R', .count = 2}), R{2})
SUBJ("replay_0", "S02", R, ({.kind = 'R', .count = 1}), R{0})
SUBJ("serialized_replay_2", "S02", SR, ({.kind = 'R', .count = 2}), SR{2})
SUBJ("replay_aged", "S02 O06", R, ({.kind = 'R', .count = 3, .age_ms = 1}), (R{3, milliseconds{1}}))
SUBJ("serialized_replay_aged", "S02 O06", SR, ({.kind = 'R', .count = 2, .age_ms = 2}), (SR{2, milliseconds{2}}))
SC("behavior_emission_inside_replay", "S02", .quick_bound = 0, .thorough_bound = 0) { run<B>(Traits{.kind = 'B', .count = 1, .emit_in_replay = true}, 2, 2, 1, 1, [] { return B{TV{100}}; }); };
SC("replay_emission_inside_replay", "S02", .quick_bound = 0, .thorough_bound = 0) { run<R>(Traits{.kind = 'R', .emit_in_replay = true}, 3, 3, 1, 1, [] { return R{}; }); };
} // namespace
