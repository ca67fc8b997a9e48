// O05 (and O02, O07, O08, O09, R02 for the same operators): group_by, window and window_toggle. Streams of streams are driven through
// every history of source events, subscriptions to announced windows and cancellations, and compared with reference models.
#include "rig.hpp"
namespace
{
using rig::Life;
using rig::Seen;
using rig::Token;
using rig::TV;
using ref::Ev;

struct Policy
{
    int  attach     = 0; // how announced windows are subscribed: 0 at once, 1 not at once, 2 only the first one at once, 3 twice at once
    bool keep       = true; // windows are kept to be subscribed later
    int  dispose_at = -1; // inside of that notification...
    int  target     = 0;  // ... that very subscription is cancelled (0) or the outer one (1)
    int  max_sinks  = 4;
};

// ---------------------------------------------------------------- reference
struct M3
{
    struct Sub
    {
        int  src;
        Life life = Life::LIVE;
    };
    struct Win
    {
        std::vector<int> sinks{};
        bool             open = true;
    };
    std::vector<Sub>  subs;
    std::vector<Seen> out;
    std::vector<bool> sink{true};
    std::vector<Win>  wins;
    Policy            p;
    int               notes = 0;
    bool              over  = false;
    const rig::Script* at_once = nullptr; // of closings
    virtual ~M3()     = default;
    virtual void start() { subscribe(0); }
    virtual void on(int sub, Ev e) = 0;
    int          subscribe(int src)
    {
        subs.push_back({src});
        return int(subs.size()) - 1;
    }
    void check()
    {
        if (over || std::ranges::count(sink, true))
            return;
        over = true;
        for (auto& s : subs)
            if (s.life == Life::LIVE)
                s.life = Life::DROPPED;
    }
    void cancel(int i)
    {
        sink[size_t(i)] = false;
        check();
    }
    void tell(int i, char k, long v)
    {
        if (!sink[size_t(i)])
            return;
        out.push_back({i, k, v});
        const bool now = notes++ == p.dispose_at;
        if (k != 'N')
            sink[size_t(i)] = false;
        if (now)
            cancel(p.target ? 0 : i);
        check();
    }
    void all(Win& w, char k, long v)
    {
        for (int s : std::vector<int>(w.sinks))
            tell(s, k, v);
        if (k != 'N')
            w.open = false;
    }
    void attach(size_t win)
    {
        if (int(sink.size()) > p.max_sinks)
            return;
        wins[win].sinks.push_back(int(sink.size()));
        sink.push_back(true);
    }
    bool announce(long id)
    {
        if (!sink[0])
            return false;
        wins.push_back({});
        const size_t w = wins.size() - 1;
        out.push_back({0, 'N', id});
        const bool now = notes++ == p.dispose_at;
        if (p.attach == 0 || p.attach == 3 || (p.attach == 2 && w == 0))
            attach(w);
        if (p.attach == 3)
            attach(w);
        if (now)
            cancel(0);
        return true;
    }
    void finish(char k, long v)
    {
        for (auto& w : wins)
            if (w.open)
                all(w, k, v);
        tell(0, k, v);
        over_all();
    }
    void over_all()
    {
        for (size_t i = 0; i < sink.size(); ++i)
            sink[i] = false;
        check();
    }
    bool live(int sub) const { return sub >= 0 && subs[size_t(sub)].life == Life::LIVE; }
    void deliver(int sub, Ev e)
    {
        if (!live(sub))
            return;
        if (e.k != 'N')
            subs[size_t(sub)].life = Life::SELF;
        try
        {
            on(sub, e);
        }
        catch (...)
        {
            if (live(sub))
                subs[size_t(sub)].life = Life::DROPPED;
            finish('E', 3);
        }
    }
};
template<size_t N>
struct Window : M3
{
    size_t count = N;
    void   on(int, Ev e) override
    {
        if (e.k != 'N')
            return finish(e.k, e.v);
        if (count == N)
        {
            count = 0;
            if (!announce(long(wins.size())))
                wins.push_back({}); // nobody can subscribe it
        }
        all(wins.back(), 'N', e.v);
        if (++count == N)
            all(wins.back(), 'C', 0);
    }
};
struct Toggle : M3
{
    std::map<int, size_t> closing;
    long                  opened = 0;
    void                  start() override
    {
        subscribe(1);
        subscribe(0);
    }
    void on(int sub, Ev e) override
    {
        const int src = subs[size_t(sub)].src;
        if (src == 0)
        {
            if (e.k != 'N')
                return finish(e.k, e.v);
            for (size_t i = 0; i < wins.size(); ++i)
                if (wins[i].open)
                    all(wins[i], 'N', e.v);
            return;
        }
        if (src == 1)
        {
            if (e.k == 'E')
                return finish('E', e.v);
            if (e.k == 'C')
                return;
            const size_t w = wins.size();
            if (!announce(opened++))
                return;
            rig::fn(e.v);
            if (over)
                return;
            const int s = subscribe(2 + int(w));
            closing[s]  = w;
            if (at_once)
                for (auto& x : *at_once)
                    deliver(s, x);
            return;
        }
        if (e.k == 'E')
            return finish('E', e.v);
        if (e.k == 'N')
            subs[size_t(sub)].life = Life::DROPPED;
        all(wins[closing[sub]], 'C', 0);
    }
};
struct Group : M3
{
    std::map<long, size_t> key;
    virtual long           key_of(long v) { return rig::fn(v) % 10 % 2; }
    virtual long           value_of(long v) { return v; }
    virtual long           eq(long k) { return k; }
    void                   on(int, Ev e) override
    {
        if (e.k != 'N')
            return finish(e.k, e.v);
        const long k  = key_of(e.v);
        auto       it = key.find(eq(k));
        if (it == key.end())
        {
            if (!announce(k))
                return;
            it = key.emplace(eq(k), wins.size() - 1).first;
        }
        // (the value is calculated anyway or not at all when nobody listens: not specified)
        all(wins[it->second], 'N', value_of(e.v));
    }
};
struct GroupKeys : Group
{
    long key_of(long v) override { return rig::fn(v) % 10; }
};
struct GroupValues : Group
{
    long key_of(long v) override { return v % 10 % 2; }
    long value_of(long v) override { return rig::fn(v) + 100; }
};
struct GroupNear : Group
{
    long key_of(long v) override { return v % 10; }
    long eq(long k) override { return k / 2; }
};

// ---------------------------------------------------------------- the real thing
struct World3
{
    static inline World3* cur = nullptr;
    struct RealSub
    {
        int                                      src;
        std::optional<rpp::dynamic_observer<TV>> obs{};
        int                                      cancels = 0;
    };
    std::deque<RealSub>                            subs;
    std::vector<Seen>                              out;
    std::vector<rpp::composite_disposable_wrapper> handle;
    std::deque<std::function<void()>>              wins; // subscribes it once more
    Policy                                         p;
    const rig::Script*                             at_once = nullptr;
    bool                                           erase_window = false, erase_sink = false, lvalue = false;
    int                                            notes = 0;
    static auto                                    typed(int src)
    {
        return rpp::source::create<TV>([src, t = Token{}](auto&& o) {
            auto& w  = *cur;
            w.subs.push_back({src});
            auto& me = w.subs.back();
            o.set_upstream(rpp::make_callback_disposable([&me]() noexcept { ++me.cancels; }));
            me.obs.emplace(std::forward<decltype(o)>(o).as_dynamic());
            if (src >= 2 && w.at_once)
                for (auto& e : *w.at_once)
                    w.push(me, e);
        });
    }
    static auto src(int s) { return typed(s).as_dynamic(); }
    void        push(RealSub& s, Ev e)
    {
        if (e.k == 'N')
        {
            if (lvalue)
            {
                const TV v{e.v};
                s.obs->on_next(v);
                v.check();
            }
            else
                s.obs->on_next(TV{e.v});
        }
        else if (e.k == 'E')
            s.obs->on_error(h::make_error(e.v));
        else
            s.obs->on_completed();
    }
    void note(Seen s)
    {
        out.push_back(s);
    }
    void after(int sink)
    {
        if (notes++ == p.dispose_at)
            handle[p.target ? 0 : size_t(sink)].dispose();
    }
    template<class O, class F>
    void attach(const O& o, F&& next)
    {
        using T        = rpp::utils::extract_observable_type_t<O>;
        const int sink = int(handle.size());
        handle.push_back(rpp::composite_disposable_wrapper::make());
        const auto d            = handle.back();
        auto       on_next      = [this, sink, next = std::forward<F>(next), t = Token{}](const T& v) { next(v, sink); };
        auto       on_error     = [this, sink, t = Token{}](const std::exception_ptr& e) { note({sink, 'E', h::error_id(e)}); after(sink); };
        auto       on_completed = [this, sink, t = Token{}] { note({sink, 'C', 0}); after(sink); };
        if (erase_sink)
            o.subscribe(d, rpp::make_lambda_observer<T>(on_next, on_error, on_completed).as_dynamic());
        else
            o.subscribe(d, on_next, on_error, on_completed);
    }
    template<class O>
    void attach_window(const O& o)
    {
        if (int(handle.size()) > p.max_sinks)
            return;
        auto next = [this](const TV& v, int sink) { note({sink, 'N', v.get()}); after(sink); };
        if (erase_window)
            attach(o.as_dynamic(), next);
        else
            attach(o, next);
    }
    template<class O>
    void subscribe(const O& o)
    {
        attach(o, [this](const auto& win, int) {
            long id = long(wins.size());
            if constexpr (requires { win.get_key(); })
                id = rig::enc(win.get_key());
            note({0, 'N', id});
            const size_t w = wins.size();
            if (p.keep)
                wins.push_back([this, win] { attach_window(win); });
            else
                wins.push_back({});
            if (p.attach == 0 || p.attach == 3 || (p.attach == 2 && w == 0))
                attach_window(win);
            if (p.attach == 3)
                attach_window(win);
            after(0);
        });
    }
    void clear()
    {
        for (auto& s : subs)
            s.obs.reset();
        handle.clear();
        wins.clear();
    }
};
// the order in which several streams are told about the end is not specified
std::vector<Seen> norm(std::vector<Seen> s)
{
    for (size_t i = 0; i < s.size();)
    {
        size_t j = i + 1;
        while (s[i].sink && s[i].k != 'N' && j < s.size() && s[j].sink && s[j].k == s[i].k && s[j].v == s[i].v)
            ++j;
        std::sort(s.begin() + long(i), s.begin() + long(j), [](const Seen& a, const Seen& b) { return a.sink < b.sink; });
        i = j;
    }
    return s;
}

struct Opt3
{
    int  digits  = 1; // different kinds of values of the main source
    int  odigits = 1; // ... and of the openings
    int  depth   = 6, deeper = 2;
    bool closings = false;
};
template<class M>
struct Bundle
{
    M      m{};
    World3 w{};
    int    emitted = 0, ever = 0;
};
template<class M, class B>
void drive(const Opt3& opt, rig::Mode mode, B build)
{
    TV::live = Token::live = 0;
    rig::g_bad             = mode == rig::THROWING;
    using rig::Mode;
    int         left = opt.depth + (mc::thorough() ? opt.deeper : 0) - (mode != rig::FUNCTION && mode != rig::THROWING ? 1 : 0);
    int         dead = mode == rig::FUNCTION ? 1 : 0;
    std::string hist;
    Policy      p{};
    p.attach = mc::choose(mode == rig::TWICE ? 2 : 4);
    if (mode == rig::RELEASE && p.attach != 1)
        p.keep = mc::choose(2);
    static const std::vector<rig::Script> scripts{{}, {{'N', 1}}, {{'C', 0}}, {{'E', 2}}};
    const rig::Script*                    at_once = nullptr;
    if (opt.closings && (mode == rig::FUNCTION || mode == rig::RELEASE))
        at_once = &scripts[size_t(mc::choose(int(scripts.size())))];
    if (mode == rig::CANCEL)
    {
        p.dispose_at = mc::choose(5);
        p.target     = mc::choose(2);
    }
    const long tv0 = TV::live, tok0 = Token::live;
    {
        std::deque<Bundle<M>> bs(2);
        int                   n = 1;
        auto                  o = build();
        const long            tok1 = Token::live, tv1 = TV::live;
        for (auto& b : bs)
        {
            b.m.p = b.w.p = p;
            b.m.at_once = b.w.at_once = at_once;
            if (mode == rig::FUNCTION || mode == rig::RELEASE)
                b.w.lvalue = &b == &bs[0] ? mc::choose(2) : 0;
        }
        auto bad = [&](const std::string& what, int i) {
            std::string s, ms;
            for (auto& x : bs[size_t(i)].w.subs)
                s += " s" + std::to_string(x.src) + (x.cancels ? "-cancelled" : "");
            for (auto& x : bs[size_t(i)].m.subs)
                ms += " s" + std::to_string(x.src) + (x.life == Life::DROPPED ? "-cancelled" : x.life == Life::SELF ? "-ended" : "");
            mc::fail(what + ": windows " + (p.attach == 0 ? "subscribed at once" : p.attach == 1 ? "not subscribed at once" : p.attach == 2 ? "subscribed at once only the first time" : "subscribed twice") + (p.dispose_at >= 0 ? ", inside of notification " + std::to_string(p.dispose_at) + (p.target ? " the outer subscription is cancelled" : " its subscription is cancelled") : std::string{}) + (at_once ? ", closings emit at once [" + ref::str(*at_once) + "]" : std::string{}) + "; history " + hist + "| received [" + str(bs[size_t(i)].w.out) + "] expected [" + str(bs[size_t(i)].m.out) + "]; subscriptions" + s + " expected" + ms + (i ? " (second subscriber)" : ""));
        };
        auto compare = [&] {
            mc::Quiet q;
            for (int i = 0; i < n; ++i)
            {
                auto& b = bs[size_t(i)];
                if (norm(b.w.out) != norm(b.m.out))
                    bad("wrong events", i);
                if (b.w.subs.size() < b.m.subs.size())
                    bad("missing subscription", i);
                for (size_t k = 0; k < b.w.subs.size(); ++k)
                {
                    auto& s = b.w.subs[k];
                    if (k >= b.m.subs.size())
                    {
                        if (!b.m.over)
                            bad("unexpected subscription", i);
                        if (!s.cancels)
                            bad("source subscribed after the end is not cancelled", i);
                        continue;
                    }
                    auto& x = b.m.subs[k];
                    if (s.src != x.src)
                        bad("wrong source subscribed", i);
                    if (s.cancels > 1)
                        bad("cancelled twice", i);
                    if (x.life == Life::LIVE && s.cancels)
                        bad("source " + std::to_string(s.src) + " was cancelled while somebody listens", i);
                    if (x.life == Life::DROPPED && !s.cancels)
                        bad("source " + std::to_string(s.src) + " was not cancelled", i);
                    if (s.obs && x.life == Life::LIVE && s.obs->is_disposed())
                        bad("observer of source " + std::to_string(s.src) + " reports disposed", i);
                    if (s.obs && x.life != Life::LIVE && !s.obs->is_disposed())
                        bad("observer of source " + std::to_string(s.src) + " still wants events", i);
                }
            }
        };
        auto start = [&](int i) {
            auto& b     = bs[size_t(i)];
            World3::cur = &b.w;
            b.m.start();
            if (mode == rig::ERASED)
            {
                b.w.erase_window = mc::choose(2);
                b.w.erase_sink   = mc::choose(2);
                if (mc::choose(2))
                    b.w.subscribe(o.as_dynamic());
                else
                    b.w.subscribe(o);
            }
            else if (i && mc::choose(2))
            {
                auto copy = o;
                auto moved = std::move(copy);
                b.w.subscribe(moved);
            }
            else
                b.w.subscribe(o);
        };
        start(0);
        compare();
        bool second = mode == rig::TWICE;
        for (; left > 0; --left)
        {
            struct Move
            {
                int b, kind, i; // 0 event of a source, 1 cancel a subscription, 2 subscribe a window
                Ev  e{};
            };
            std::vector<Move> mv;
            for (int b = 0; b < n; ++b)
            {
                auto& m = bs[size_t(b)].m;
                for (size_t s = 0; s < m.subs.size(); ++s)
                {
                    const bool live = m.live(int(s));
                    if (!live && !dead)
                        continue;
                    const int src = m.subs[s].src;
                    if (src == 1 && !m.sink[0] && live)
                        continue;
                    const int d = src == 0 ? opt.digits : src == 1 && rig::g_bad ? opt.odigits : 1;
                    for (int k = 0; k < (live ? d : 1); ++k)
                        mv.push_back({b, 0, int(s), {'N', bs[size_t(b)].emitted * 10 + k}});
                    mv.push_back({b, 0, int(s), {'C', 0}});
                    mv.push_back({b, 0, int(s), {'E', 1}});
                }
                if (mode != rig::THROWING)
                    for (size_t i = 0; i < m.sink.size(); ++i)
                        if (m.sink[i])
                            mv.push_back({b, 1, int(i)});
                if (p.keep && !m.over)
                    for (size_t i = 0; i < m.wins.size(); ++i)
                        if (m.wins[i].open && i < bs[size_t(b)].w.wins.size() && int(m.sink.size()) <= p.max_sinks)
                            mv.push_back({b, 2, int(i)});
            }
            const int extra = second + (mode == rig::RELEASE);
            if (mv.empty() && !extra)
                break;
            const int c = mc::choose(int(mv.size()) + extra);
            if (size_t(c) < mv.size())
            {
                const auto x = mv[size_t(c)];
                auto&      b = bs[size_t(x.b)];
                World3::cur  = &b.w;
                {
                    mc::Quiet q;
                    hist += (n > 1 ? std::to_string(x.b) + "/" : "") + (x.kind == 0 ? "s" + std::to_string(b.m.subs[size_t(x.i)].src) + "." + ref::str({x.e}) : (x.kind == 1 ? "cancel" : "subscribe_window") + std::to_string(x.i)) + " ";
                }
                switch (x.kind)
                {
                    case 0:
                        if (!b.m.live(x.i))
                            --dead;
                        ++b.emitted;
                        b.m.deliver(x.i, x.e);
                        b.w.push(b.w.subs[size_t(x.i)], x.e);
                        break;
                    case 1:
                        b.m.cancel(x.i);
                        b.w.handle[size_t(x.i)].dispose();
                        break;
                    case 2:
                        b.m.attach(size_t(x.i));
                        b.w.wins[size_t(x.i)]();
                        break;
                }
            }
            else if (second)
            {
                second = false;
                n      = 2;
                hist += "second ";
                start(1);
            }
            else
                break;
            compare();
        }
        mc::outcome(str(bs[0].w.out));
        if (mode == rig::RELEASE)
        {
            for (auto& b : bs)
                b.w.clear();
            mc::Quiet q;
            if (TV::live != tv1)
                bad(std::to_string(TV::live - tv1) + " values are not released", 0);
            if (Token::live != tok1)
                bad(std::to_string(Token::live - tok1) + " functions are not released", 0);
        }
        for (auto& b : bs)
            b.w.clear();
    }
    if (mode == rig::RELEASE && (TV::live != tv0 || Token::live != tok0))
        mc::fail("the description does not release what it holds");
}
template<int Index>
struct Later3
{
    const char* name;
    bool        throwing;
    Opt3        opt;
    template<class M, class B>
    h::Reg with(B build)
    {
        if constexpr (Index % H_PARTS == H_PART)
        {
            auto one = [&](const char* suffix, const char* tag, rig::Mode mode) {
                mc::Config c{};
                c.quick_bound = c.thorough_bound = 0;
                c.tags = tag;
                mc::add(std::string{name} + suffix, c, [opt = opt, mode, build] { drive<M>(opt, mode, build); });
            };
            one("", "O05", rig::FUNCTION);
            if (throwing)
                one("/throwing", "O02", rig::THROWING);
            one("/cancel", "O05 O09", rig::CANCEL);
            one("/twice", "O07", rig::TWICE);
            one("/release", "O08", rig::RELEASE);
            one("/erased", "R02", rig::ERASED);
        }
        return {};
    }
};
#define WIN2(n, name, throwing, model, opts, ...) [[maybe_unused]] const h::Reg H_CAT(win_, n) = Later3<n>{name, throwing, Opt3 opts}.with<model>([] { return __VA_ARGS__; })
#define WIN(name, throwing, model, opts, ...) WIN2(__COUNTER__, name, throwing, model, opts, __VA_ARGS__)

struct Near // a comparator with a state
{
    long  div = 1;
    Token t{};
    bool  operator()(long a, long b) const { return a / div < b / div; }
};

WIN("window_1", false, Window<1>, ({}), World3::src(0) | rpp::ops::window(1));
WIN("window_2", false, Window<2>, ({}), World3::src(0) | rpp::ops::window(2));
WIN("window_3", false, Window<3>, ({}), World3::src(0) | rpp::ops::window(3));
WIN("window_0", false, Window<1>, ({.depth = 4}), World3::src(0) | rpp::ops::window(0));
WIN("group_by", true, Group, ({.digits = 3, .depth = 5}), World3::src(0) | rpp::ops::group_by([t = Token{}](const TV& v) { return int(rig::fn(v.get()) % 10 % 2); }));
WIN("group_by_tracked_key", true, GroupKeys, ({.digits = 3, .depth = 5}), World3::src(0) | rpp::ops::group_by([t = Token{}](const TV& v) { return TV{rig::fn(v.get()) % 10}; }, std::identity{}, [](const TV& a, const TV& b) { return a.get() < b.get(); }));
WIN("group_by_value_selector", true, GroupValues, ({.digits = 3, .depth = 5}), World3::src(0) | rpp::ops::group_by([t = Token{}](const TV& v) { return v.get() % 10 % 2; }, [t = Token{}](const TV& v) { return TV{rig::fn(v.get()) + 100}; }));
WIN("group_by_comparator", false, GroupNear, ({.digits = 3, .depth = 5}), World3::src(0) | rpp::ops::group_by([t = Token{}](const TV& v) { return v.get() % 10; }, std::identity{}, Near{2}));
WIN("window_toggle", true, Toggle, ({.odigits = 3, .depth = 5, .closings = true}), World3::src(0) | rpp::ops::window_toggle(World3::src(1), [t = Token{}, n = std::make_shared<std::map<World3*, int>>()](const TV& v) {
    rig::fn(v.get());
    int k = 0;
    for (auto& s : World3::cur->subs)
        k += s.src >= 2;
    return World3::src(2 + k);
}));
} // namespace
