// Bounded-exhaustive histories: streams built from manual sources are driven through every history of source events
// (values, errors, completions, cancellations, values emitted during subscription, throwing user functions) up to a depth,
// and after every single step what the subscriber received, which sources were subscribed and which were cancelled is
// compared with a reference model of the operator.
#pragma once
#include "h.hpp"
#include <deque>
#include <functional>
#include <map>
#include <set>
#define RIG_UNTRACKED __attribute__((no_sanitize("thread"), noinline)) // bookkeeping of the harness only
namespace rig
{
using ref::Ev;
using h::error_id;
using h::make_error;

// ---------------------------------------------------------------- tracked values and functions
struct TV
{
    static inline long live = 0;
    long               v;
    int                magic;
    enum
    {
        OK    = 0x600D,
        MOVED = 0x4040,
        DEAD  = 0xDEAD
    };
    RIG_UNTRACKED static void count(long d) { live += d; }
    explicit TV(long x) : v(x), magic(OK) { count(1); }
    TV(const TV& o) : v(o.get()), magic(OK) { count(1); }
    TV(TV&& o) noexcept : v(o.v), magic(o.magic)
    {
        o.check();
        o.magic = MOVED;
        count(1);
    }
    TV& operator=(const TV& o)
    {
        alive();
        v     = o.get();
        magic = OK;
        return *this;
    }
    TV& operator=(TV&& o) noexcept
    {
        alive();
        o.check();
        v     = o.v;
        magic = o.magic;
        if (this != &o)
            o.magic = MOVED;
        return *this;
    }
    ~TV()
    {
        alive();
        magic = DEAD;
        count(-1);
    }
    void alive() const
    {
        if (magic != OK && magic != MOVED)
            mc::fail("a destroyed value is used");
    }
    void check() const
    {
        if (magic == MOVED)
            mc::fail("a value is used after it was moved away");
        alive();
    }
    long get() const
    {
        check();
        return v;
    }
    bool operator==(const TV& o) const { return get() == o.get(); }
};
} // namespace rig
template<>
struct std::hash<rig::TV>
{
    size_t operator()(const rig::TV& t) const noexcept { return size_t(t.get() & 1); } // equal hashes do not make equal values
};
namespace rig
{
struct Token // lives inside of user functions
{
    static inline long live = 0;
    Token() { count(1); }
    Token(const Token&) { count(1); }
    Token(Token&&) noexcept { count(1); }
    Token& operator=(const Token&) = default;
    ~Token() { count(-1); }
    RIG_UNTRACKED static void count(long d) { live += d; }
};
inline bool g_bad = false; // user functions throw for "bad" values
inline long fn(long v)
{
    if (g_bad && v % 10 == 2)
        std::rethrow_exception(make_error(3));
    return v;
}
inline long enc(const TV& v) { return v.get(); }
inline long enc(long v) { return v; }
inline long enc(int v) { return v; }
inline long enc(size_t v) { return long(v); }
inline long enc(bool v) { return v; }
inline long enc(char v) { return v; }
inline long enc(double v) { return long(v * 100); }
inline long enc(const std::string& s)
{
    long r = 1;
    for (char c : s)
        r = r * 100 + (c - '0');
    return r;
}
template<class T>
long enc(const std::vector<T>& v)
{
    long r = 1;
    for (auto& x : v)
        r = r * 100 + enc(x);
    return r;
}
template<class... T>
long enc(const rpp::utils::tuple<T...>& t)
{
    return t.apply([](const T&... x) { long r = 1; ((r = r * 100 + enc(x)), ...); return r; });
}
template<class... T>
long enc(const std::tuple<T...>& t)
{
    return std::apply([](const T&... x) { long r = 1; ((r = r * 100 + enc(x)), ...); return r; }, t);
}
inline long fold(const std::vector<long>& v)
{
    long r = 1;
    for (long x : v)
        r = r * 100 + x;
    return r;
}

// ---------------------------------------------------------------- what can be seen from outside
struct Seen
{
    int  sink;
    char k; // N E C, or D: cancelled by the subscriber
    long v;
    bool operator==(const Seen&) const = default;
};
inline std::string str(const std::vector<Seen>& s)
{
    std::string r;
    for (auto& x : s)
        r += (r.empty() ? "" : " ") + (x.sink ? std::to_string(x.sink) + ":" : std::string{}) + std::string(1, x.k) + (x.k == 'N' || x.k == 'E' ? std::to_string(x.v) : "");
    return r;
}
using Script  = std::vector<Ev>;
using Scripts = std::map<int, std::vector<Script>>; // source -> what its n-th subscription emits at once

// ---------------------------------------------------------------- reference models
enum class Life
{
    LIVE,
    SELF,   // ended on its own
    DROPPED // must have been told to stop
};
struct Model
{
    struct Sub
    {
        int  src;
        int  role;
        Life life = Life::LIVE;
    };
    std::vector<Sub>  subs;
    std::vector<Seen> out;
    std::map<int, int> nth;
    const Scripts*    scripts    = nullptr;
    bool              ended      = false;
    int               dispose_at = -1;
    int               notes      = 0;
    virtual ~Model()             = default;
    long         now             = 0; // milliseconds
    virtual void tick() {}            // what is due by now has to happen
    virtual void start()         = 0;
    virtual void on(int sub, int role, Ev e) = 0; // an event of a live source
    // ---- building blocks
    void N(long v)
    {
        if (!ended)
            note({0, 'N', v});
    }
    void E(long id)
    {
        if (ended)
            return;
        note({0, 'E', id});
        end();
    }
    void C()
    {
        if (ended)
            return;
        note({0, 'C', 0});
        end();
    }
    void T(long v) // seen by the operator itself, see World::tapped
    {
        out.push_back({0, 'N', v});
    }
    void note(Seen s)
    {
        out.push_back(s);
        if (notes++ == dispose_at)
            cancel();
    }
    void end()
    {
        if (ended)
            return;
        ended = true;
        for (auto& s : subs)
            if (s.life == Life::LIVE)
                s.life = Life::DROPPED;
        at_end();
    }
    virtual void at_end() {}
    void         cancel() { end(); }
    void drop(int sub)
    {
        if (sub >= 0 && subs[size_t(sub)].life == Life::LIVE)
            subs[size_t(sub)].life = Life::DROPPED;
    }
    int subscribe(int src, int role = 0)
    {
        if (ended)
            return -1;
        const int i = int(subs.size());
        subs.push_back({src, role});
        const int n = nth[src]++;
        if (scripts)
            if (auto it = scripts->find(src); it != scripts->end() && size_t(n) < it->second.size())
                for (auto& e : it->second[size_t(n)])
                    deliver(i, e);
        return i;
    }
    bool live(int sub) const { return sub >= 0 && subs[size_t(sub)].life == Life::LIVE; }
    void deliver(int sub, Ev e)
    {
        if (subs[size_t(sub)].life != Life::LIVE)
            return;
        if (e.k != 'N')
            subs[size_t(sub)].life = Life::SELF;
        try
        {
            on(sub, subs[size_t(sub)].role, e);
        }
        catch (...)
        {
            failed(sub);
        }
    }
    virtual void failed(int sub)
    {
        drop(sub);
        E(3);
    }
    void begin()
    {
        try
        {
            start();
        }
        catch (...)
        {
            E(3);
        }
    }
};
// one source
struct One : Model
{
    void start() override
    {
        pre();
        subscribe(0);
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
            next(e.v);
        else if (e.k == 'E')
            error(e.v);
        else
            comp();
    }
    virtual void pre() {}
    virtual void next(long v) = 0;
    virtual void error(long id) { E(id); }
    virtual void comp() { C(); }
};

// ---------------------------------------------------------------- the real thing
struct World;
inline World* W = nullptr;
struct RealSub
{
    int                                       src;
    int                                       sink;
    std::optional<rpp::dynamic_observer<TV>>  obs{};
    int                                       cancels = 0;
    bool                                      was_disposed = false; // already when it was subscribed
};
struct World
{
    std::deque<RealSub>                subs;
    std::vector<Seen>                  out[2];
    std::map<int, int>                 nth[2];
    const Scripts*                     scripts    = nullptr;
    bool                               one_by_one = false, outer = false;
    bool                               lvalue     = false;
    bool                               echo       = false;
    int                                dispose_at = -1;
    int                                notes      = 0;
    int                                cur        = 0; // sink on whose behalf things happen
    rpp::schedulers::run_loop          loop{};
    const rpp::schedulers::time_point  t0         = rpp::schedulers::clock_type::now();
    void dispatch()
    {
        while (loop.is_any_ready_schedulable())
            loop.dispatch_if_ready();
    }
    rpp::composite_disposable_wrapper  handle[2]  = {rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty()};
    World() { W = this; }
    World(const World&) = delete;
    ~World()
    {
        for (auto& s : subs) // whatever still happens then is written down
            s.obs.reset();
        handle[0] = handle[1] = rpp::composite_disposable_wrapper::empty();
        W = nullptr;
    }
    static auto typed(int src)
    {
        return rpp::source::create<TV>([src, t = Token{}](auto&& o) { W->subscribed(src, std::forward<decltype(o)>(o)); });
    }
#ifdef RIG_DYN
    static auto src(int s) { return typed(s).as_dynamic(); }
#else
    static auto src(int s) { return typed(s); }
#endif
    template<class O>
    void subscribed(int src, O&& o)
    {
        for (auto& x : subs)
            if (one_by_one && x.sink == cur && (!outer || x.src) && !x.cancels)
                mc::fail("source " + std::to_string(src) + " is subscribed while the previous one is not released");
        subs.push_back({src, cur});
        RealSub&  me = subs.back();
        const int n  = nth[cur][src]++;
        me.was_disposed = o.is_disposed();
        o.set_upstream(rpp::make_callback_disposable([&me]() noexcept { ++me.cancels; }));
        me.obs.emplace(std::forward<O>(o).as_dynamic());
        if (scripts)
            if (auto it = scripts->find(src); it != scripts->end() && size_t(n) < it->second.size())
                for (auto& e : it->second[size_t(n)])
                    push(me, e);
    }
    void push(RealSub& s, Ev e)
    {
        const int was = cur;
        cur           = s.sink;
        if (e.k == 'N')
        {
            if (lvalue)
            {
                const TV v{e.v};
                s.obs->on_next(v);
                v.check();
            }
            else
                s.obs->on_next(TV{e.v});
        }
        else if (e.k == 'E')
            s.obs->on_error(make_error(e.v));
        else
            s.obs->on_completed();
        cur = was;
    }
    void note(Seen s, int sink)
    {
        out[sink].push_back(s);
        if (sink == 0 && notes++ == dispose_at)
            handle[0].dispose();
        if (echo && s.k != 'N')
            for (auto& x : subs) // the sources do not stop just because the subscriber is being told about the end
                if (x.obs && x.sink == sink)
                    for (Ev e : {Ev{'N', 0}, Ev{'C', 0}, Ev{'E', 1}})
                        push(x, e);
    }
    void tapped(long v) { out[cur].push_back({0, 'N', v}); } // seen by the operator itself
    enum How
    {
        PLAIN,    // subscribe(callbacks)
        RETURNED, // subscribe_with_disposable
        GIVEN,    // subscribe(disposable, callbacks)
        ERASED,   // subscribe(dynamic_observer)
        ERASED_RETURNED,
        OBSERVER_GIVEN
    };
    template<class T>
    static long ev_error(const T& e)
    {
        const long i = error_id(e);
        if (i != 99)
            return i;
        try
        {
            std::rethrow_exception(e);
        }
        catch (const rpp::utils::not_enough_emissions&)
        {
            return 50;
        }
        catch (const rpp::utils::out_of_range&)
        {
            return 51;
        }
        catch (const rpp::utils::timeout_reached&)
        {
            return 52;
        }
        catch (const std::bad_alloc&)
        {
            return 53;
        }
        catch (...)
        {
            return 99;
        }
    }
    template<class O>
    void subscribe(const O& o, How how, int sink = 0)
    {
        using T            = rpp::utils::extract_observable_type_t<O>;
        cur                = sink;
        auto on_next       = [this, sink, t = Token{}](const T& v) { note({0, 'N', enc(v)}, sink); };
        auto on_error      = [this, sink, t = Token{}](const std::exception_ptr& e) { note({0, 'E', ev_error(e)}, sink); };
        auto on_completed  = [this, sink, t = Token{}] { note({0, 'C', 0}, sink); };
        switch (how)
        {
            case PLAIN: o.subscribe(on_next, on_error, on_completed); break;
            case RETURNED: {
                auto d = o.subscribe_with_disposable(on_next, on_error, on_completed);
                handle[sink] = d;
                break;
            }
            case GIVEN:
                handle[sink] = rpp::composite_disposable_wrapper::make();
                o.subscribe(handle[sink], on_next, on_error, on_completed);
                break;
            case ERASED: o.subscribe(rpp::make_lambda_observer<T>(on_next, on_error, on_completed).as_dynamic()); break;
            case ERASED_RETURNED: {
                auto d = o.subscribe_with_disposable(rpp::make_lambda_observer<T>(on_next, on_error, on_completed).as_dynamic());
                handle[sink] = d;
                break;
            }
            case OBSERVER_GIVEN:
                handle[sink] = rpp::composite_disposable_wrapper::make();
                o.subscribe(handle[sink], rpp::make_lambda_observer<T>(on_next, on_error, on_completed));
                break;
        }
        cur = 0;
    }
};

// ---------------------------------------------------------------- the driver
struct Opt
{
    int                 vals    = 3;  // values a single source may emit (0: every value is new)
    int                 outer   = 0;  // > 0: source 0 emits the numbers of that many inner sources, in order
    int                 depth   = 5;  // quick; the thorough tier goes `deeper` steps further
    int                 deeper  = 2;
    bool                errors  = true;
    std::vector<Script> at_once = {}; // what a source may emit during its subscription (first one: the default)
    std::vector<int>    at_once_src = {}; // sources which do so
    int                 at_once_nth = 1;  // for how many of their subscriptions
    int                 max_subs    = 99;
    bool                lax         = true; // subscriptions after the end are fine when they are already disposed
    bool                one_by_one     = false; // a subscription is released before the next one is made
    bool                shared         = false; // subscriptions share one source: no independence
    bool                timed          = false; // time passes: one millisecond per step
    bool                late           = false; // ... and the loop may be late
};
enum Mode
{
    FUNCTION,  // O01 / O03 / O04: every history
    THROWING,  // O02: a user function throws for some values
    CANCEL,    // O09: the subscriber cancels at some point; sources emit regardless
    TWICE,     // O07: two subscriptions to one description, one of them to a copy
    RELEASE,   // O08: everything is released however it ends
    ERASED     // R02: all the ways to subscribe and to erase types
};

template<class M, class B>
struct Drive
{
    const Opt& opt;
    B&         build;
    const char* name;
    World      w{};
    M          m[2];
    int        sinks = 1;
    Scripts    scripts{};
    int        left = 0;
    std::vector<std::string> trace{};

    std::string text()
    {
        std::string s;
        for (auto& [src, v] : scripts)
            for (auto& x : v)
                s += "s" + std::to_string(src) + " at once[" + ref::str(x) + "] ";
        for (auto& t : trace)
            s += t + " ";
        return s;
    }
    void bad(const std::string& what, int i)
    {
        std::string subs;
        int         n = 0;
        for (auto& s : w.subs)
            if (s.sink == i)
                subs += " " + std::to_string(n++) + ":s" + std::to_string(s.src) + (s.cancels ? "-cancelled" : "");
        std::string msubs;
        n = 0;
        for (auto& s : m[i].subs)
            msubs += " " + std::to_string(n++) + ":s" + std::to_string(s.src) + (s.life == Life::DROPPED ? "-cancelled" : s.life == Life::SELF ? "-ended" : "");
        mc::fail(what + ": history " + text() + "| received [" + str(w.out[i]) + "] expected [" + str(m[i].out) + "]; subscriptions" + subs + " expected" + msubs + (i ? " (second subscriber)" : ""));
    }
    void compare()
    {
        mc::Quiet q;
        for (int i = 0; i < sinks; ++i)
        {
            if (w.out[i] != m[i].out)
                bad("wrong events", i);
            size_t n = 0;
            for (auto& s : w.subs)
            {
                if (s.sink != i)
                    continue;
                if (n >= m[i].subs.size())
                {
                    if (!m[i].ended || !opt.lax)
                        bad("unexpected subscription of source " + std::to_string(s.src), i);
                    if (!s.cancels)
                        bad("source subscribed after the end is not cancelled", i);
                    continue;
                }
                auto& x = m[i].subs[n];
                if (s.src != x.src)
                    bad("wrong source subscribed", i);
                if (s.cancels > 1)
                    bad("cancelled twice", i);
                if (x.life == Life::LIVE && s.cancels)
                    bad("subscription " + std::to_string(n) + " was cancelled while it is needed", i);
                if (x.life == Life::DROPPED && !s.cancels)
                    bad("subscription " + std::to_string(n) + " was not cancelled", i);
                if (s.obs)
                {
                    if (x.life == Life::LIVE && s.obs->is_disposed())
                        bad("observer of subscription " + std::to_string(n) + " reports disposed", i);
                    if (x.life != Life::LIVE && !s.obs->is_disposed())
                        bad("observer of subscription " + std::to_string(n) + " still wants events", i);
                }
                ++n;
            }
            if (n < m[i].subs.size())
                bad("missing subscription of source " + std::to_string(m[i].subs[n].src), i);
        }
    }
    // possible source events now
    struct Move
    {
        int real; // index of the real subscription
        int sink, sub;
        Ev  e;
    };
    std::vector<Move> moves(bool dead_too)
    {
        std::vector<Move> r;
        int               n[2] = {0, 0};
        for (size_t k = 0; k < w.subs.size(); ++k)
        {
            auto&     s   = w.subs[k];
            const int sub = n[s.sink]++;
            if (size_t(sub) >= m[s.sink].subs.size())
            {
                if (dead_too)
                    r.push_back({int(k), s.sink, -1, {'N', 0}});
                continue;
            }
            const Life life = m[s.sink].subs[size_t(sub)].life;
            auto       add  = [&](Ev e) { r.push_back({int(k), s.sink, sub, e}); };
            if (opt.outer && s.src == 0)
            {
                const int next = outer_next[s.sink];
                if (next <= opt.outer && life == Life::LIVE)
                    add({'N', next});
            }
            else if (life != Life::LIVE)
            {
                if (dead_too)
                    add({'N', 0});
            }
            else if (opt.vals)
                for (int v = 0; v < opt.vals; ++v)
                    add({'N', v});
            else
                add({'N', s.src * 10 + fresh(s.src, s.sink)});
            if (life == Life::LIVE || dead_too)
            {
                add({'C', 0});
                if (opt.errors)
                    add({'E', 1});
            }
        }
        return r;
    }
    std::map<int, int> emitted[2]{};
    int                outer_next[2] = {1, 1};
    void               tick()
    {
        for (int i = 0; i < sinks; ++i)
            m[i].tick();
        w.dispatch();
    }
    int                fresh(int src, int sink) { return emitted[sink][src]; }
    void               run(Mode mode)
    {
        g_bad         = mode == THROWING;
        const int deep = opt.depth + (mc::thorough() ? opt.deeper : 0) - (mode == TWICE || mode == CANCEL ? 1 : 0) + (mode == FUNCTION || mode == THROWING ? 1 : 0);
        left          = deep;
        int dead_left = mode == CANCEL || mode == FUNCTION ? mc::thorough() ? 2 : 1 : 0; // events of sources which are over
        World::How how = World::PLAIN;
        {
            mc::Quiet q;
            trace.reserve(32);
        }
        if (!opt.at_once.empty())
            for (int s : opt.at_once_src)
                for (int n = 0; n < opt.at_once_nth; ++n)
                {
                    const int c = mc::choose(int(opt.at_once.size()));
                    Script    x = opt.at_once[size_t(c)];
                    if (!opt.vals && !(opt.outer && s == 0))
                    {
                        // values are unique
                        for (auto& e : x)
                            if (e.k == 'N')
                                e.v = s * 10 + emitted[0][s]++;
                        emitted[1] = emitted[0];
                    }
                    if (opt.outer && s == 0)
                    {
                        for (auto& e : x)
                            if (e.k == 'N')
                                e.v = outer_next[0]++;
                        outer_next[1] = outer_next[0];
                    }
                    scripts[s].push_back(x);
                    left -= int(x.size()) / 2;
                }
        w.scripts    = &scripts;
        w.one_by_one = opt.one_by_one;
        w.outer      = opt.outer > 0;
        for (auto& x : m)
            x.scripts = &scripts;
        bool cancelled = false, can_cancel = false;
        switch (mode)
        {
            case FUNCTION:
#ifdef RIG_ECHO
                w.lvalue = mc::choose(2);
                w.echo   = w.lvalue;
#else
                w.lvalue = mc::choose(2);
#endif
                break;
            case THROWING: how = mc::choose(2) ? World::GIVEN : World::PLAIN; break;
            case CANCEL: {
                how = std::array{World::GIVEN, World::RETURNED, World::OBSERVER_GIVEN}[size_t(mc::choose(3))];
                if (how != World::RETURNED)
                {
                    const int c  = mc::choose(5);
                    w.dispose_at = m[0].dispose_at = c - 1; // inside of the c-th notification
                    can_cancel   = c == 0;
                }
                else
                    can_cancel = true;
                break;
            }
            case TWICE: break;
            case RELEASE: {
                how        = std::array{World::GIVEN, World::RETURNED, World::PLAIN}[size_t(mc::choose(opt.timed ? 2 : 3))];
                can_cancel = how != World::PLAIN;
                w.lvalue   = mc::choose(2);
                break;
            }
            case ERASED:
                how        = std::array{World::PLAIN, World::ERASED, World::ERASED_RETURNED, World::RETURNED, World::OBSERVER_GIVEN}[size_t(mc::choose(5))];
                can_cancel = how != World::PLAIN && how != World::ERASED;
#ifdef RIG_ECHO
                w.echo = true;
#endif
                break;
        }
        const long tv0 = TV::live, tok0 = Token::live;
        {
            auto       o  = build(w);
            const long tv1 = TV::live, tok1 = Token::live;
            m[0].begin();
            if (mode == ERASED && mc::choose(2))
                w.subscribe(o.as_dynamic(), how);
            else
                w.subscribe(o, how);
            compare();
            bool second = mode == TWICE;
            // the copy is made before or after the first subscription
            for (; left > 0; --left)
            {
                auto      mv    = moves(dead_left > 0);
                const int extra = (can_cancel && !cancelled && !m[0].ended) + second + (mode == RELEASE) + opt.timed + opt.late;
                if (mv.empty() && !extra)
                    break;
                int c = mc::choose(int(mv.size()) + extra);
                if (size_t(c) < mv.size())
                {
                    const Move& x = mv[size_t(c)];
                    auto&       s = w.subs[size_t(x.real)];
                    {
                        mc::Quiet q;
                        trace.push_back((sinks > 1 ? std::to_string(x.sink) + "/" : std::string{}) + "s" + std::to_string(s.src) + "#" + std::to_string(x.real) + "." + ref::str({x.e}));
                    }
                    if (x.sub < 0 || !m[x.sink].live(x.sub))
                        --dead_left;
                    if (x.e.k == 'N' && opt.outer && s.src == 0)
                        outer_next[x.sink]++;
                    else if (x.e.k == 'N' && !opt.vals && x.sub >= 0 && m[x.sink].live(x.sub))
                        emitted[x.sink][s.src]++;
                    if (x.sub >= 0)
                        m[x.sink].deliver(x.sub, x.e);
                    w.push(s, x.e);
                }
                else
                {
                    c -= int(mv.size());
                    if (opt.timed && c-- == 0)
                    {
                        trace.push_back(opt.late ? "1ms" : "1ms+dispatch");
                        std::this_thread::sleep_for(std::chrono::milliseconds{1});
                        for (int i = 0; i < 2; ++i)
                            ++m[i].now;
                        if (!opt.late)
                            tick();
                        compare();
                        continue;
                    }
                    if (opt.late && c-- == 0)
                    {
                        trace.push_back("dispatch");
                        tick();
                        compare();
                        continue;
                    }
                    if (can_cancel && !cancelled && !m[0].ended && c-- == 0)
                    {
                        trace.push_back("cancel");
                        m[0].cancel();
                        w.handle[0].dispose();
                        cancelled = true;
                    }
                    else if (second && c-- == 0)
                    {
                        trace.push_back("second");
                        second = false;
                        sinks  = 2;
                        m[1].begin();
                        switch (mc::choose(3))
                        {
                            case 0: w.subscribe(o, World::PLAIN, 1); break;
                            case 1: {
                                auto copy = o;
                                w.subscribe(copy, World::PLAIN, 1);
                                break;
                            }
                            case 2: {
                                auto copy  = o;
                                auto moved = std::move(copy);
                                w.subscribe(moved, World::PLAIN, 1);
                                break;
                            }
                        }
                    }
                    else
                        break; // stop here
                }
                compare();
            }
            mc::Quiet q;
            mc::outcome(str(w.out[0]));
            if (mode == RELEASE)
            {
                // the sources let go, the caller lets go
                mc::quiet(false);
                if (opt.timed && !m[0].ended) // a timer keeps a live stream, whoever else let go
                {
                    m[0].cancel();
                    w.handle[0].dispose();
                }
                for (auto& s : w.subs)
                    s.obs.reset();
                w.handle[0] = rpp::composite_disposable_wrapper::empty();
                if (opt.timed) // the loop lets go of what is over when it is its time
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds{10});
                    w.dispatch();
                }
                mc::quiet(true);
                if (!opt.shared && TV::live != tv1)
                    bad(std::to_string(TV::live - tv1) + " values are not released", 0);
                if (!opt.shared && Token::live != tok1)
                    bad(std::to_string(Token::live - tok1) + " functions are not released", 0);
            }
        }
        if (opt.timed)
            w.loop = rpp::schedulers::run_loop{};
        if (mode == RELEASE && (TV::live != tv0 || Token::live != tok0))
            bad("the description does not release what it holds", 0);
    }
};

template<class M, class B>
void go(const char* name, const Opt& opt, Mode mode, B build)
{
    TV::live = Token::live = 0;
    Drive<M, B> d{opt, build, name};
    d.run(mode);
}
// registers one operator for the properties it is decided by
template<class M, class B>
struct Registrar
{
    static h::Reg add(const char* name, const char* function_tag, bool throwing, Opt opt, B build)
    {
        auto one = [&](const char* suffix, std::string tag, Mode mode) {
            static std::deque<std::string> names;
            names.push_back(tag);
            mc::Config c{};
            c.quick_bound = c.thorough_bound = 0;
            c.tags = names.back().c_str();
            mc::add(std::string{name} + suffix, c, [name, opt, mode, build] { go<M>(name, opt, mode, build); });
        };
#ifdef RIG_DYN
        one("/erased_sources", "R02", ERASED);
        (void)function_tag;
        (void)throwing;
#else
        one("", function_tag, FUNCTION);
        if (throwing)
            one("/throwing", "O02", THROWING);
        one("/cancel", "O09", CANCEL);
        if (!opt.shared)
            one("/twice", "O07", TWICE);
        one("/release", "O08", RELEASE);
        one("/erased", "R02", ERASED);
#endif
        return {};
    }
};
template<int Index>
struct Later
{
    const char* name;
    const char* tag;
    bool        throwing;
    Opt         opt;
    template<class M, class B>
    h::Reg with(B b)
    {
        if constexpr (Index % H_PARTS == H_PART)
            return Registrar<M, B>::add(name, tag, throwing, opt, b);
        else
            return {};
    }
};
#define RIG_OP2(n, name, tag, throwing, model, opts, ...) [[maybe_unused]] static const ::h::Reg H_CAT(rig_, n) = ::rig::Later<n>{name, tag, throwing, ::rig::Opt opts}.with<model>([]([[maybe_unused]] auto& w) { return __VA_ARGS__; })
// name, property of its function, has user functions, model, options, how it is built from w.src(i)
#define RIG_OP(name, tag, throwing, model, opts, ...) RIG_OP2(__COUNTER__, name, tag, throwing, model, opts, __VA_ARGS__)
} // namespace rig
