// R03: every way of subscribing gives the same stream. Each form of subscription (member functions and pipe operators; callbacks, observers,
// type-erased observers and own observer strategies; without a handle, with a given one and with a returned one) on every kind of stream is
// driven through every history of calls an observable may make - at once and later, also after the end - and compared with a reference.
#include "rig.hpp"
namespace
{
using rig::Token;
using rig::TV;
using rpp::composite_disposable_wrapper;
namespace ops = rpp::operators;
enum Beh
{
    PLAIN,
    THROWS,      // the second value makes the subscriber throw
    CANCELS,     // ... cancel through its handle
    FULL,        // ... makes an own strategy report that it is disposed
    CANCELS_END, // cancels when it gets the terminal event
    ECHO,        // not the subscriber: the stream emits once more when it is told to stop
};
struct Ctx
{
    std::vector<rig::Seen>       log{};
    int                          values = 0, ups = 0, subscribed = 0;
    bool                         full = false;
    Beh                          beh  = PLAIN;
    composite_disposable_wrapper d    = composite_disposable_wrapper::empty(); // the given one
    void                         next(const TV& v)
    {
        log.push_back({0, 'N', v.get()});
        if (++values == 2)
        {
            if (beh == THROWS)
                std::rethrow_exception(h::make_error(3));
            if (beh == CANCELS)
                d.dispose();
            if (beh == FULL)
                full = true;
        }
    }
    void error(const std::exception_ptr& e)
    {
        log.push_back({0, 'E', h::error_id(e)});
        if (beh == CANCELS_END)
            d.dispose();
    }
    void comp()
    {
        log.push_back({0, 'C', 0});
        if (beh == CANCELS_END)
            d.dispose();
    }
};
struct Next
{
    Ctx*  c;
    Token t{};
    void  operator()(const TV& v) const { c->next(v); }
};
struct NextMoved
{
    Ctx*  c;
    Token t{};
    void  operator()(TV v) const
    {
        TV own{std::move(v)};
        c->next(own);
    }
};
struct Err
{
    Ctx*  c;
    Token t{};
    void  operator()(const std::exception_ptr& e) const { c->error(e); }
};
struct Comp
{
    Ctx*  c;
    Token t{};
    void  operator()() const { c->comp(); }
};
struct Strategy
{
    Ctx*  c;
    Token t{};
    void  on_next(const TV& v) const { c->next(v); }
    void  on_error(const std::exception_ptr& e) const { c->error(e); }
    void  on_completed() const { c->comp(); }
    void  set_upstream(const rpp::disposable_wrapper&) const noexcept { ++c->ups; }
    bool  is_disposed() const noexcept { return c->full; }
};
// ---------------------------------------------------------------- the forms
enum Handle
{
    NONE,
    GIVEN,
    RETURNED
};
struct Traits
{
    bool   err, comp;
    Handle handle;
    bool   strategy = false;
    bool   wrapped  = false; // the handle belongs to a wrapper of a complete observer, which may end on its own
};
using Ret = composite_disposable_wrapper;
#define LAMBDA_OBS(c) rpp::make_lambda_observer<TV>(Next{&c}, Err{&c}, Comp{&c})
#define LAMBDA_OBS_D(c) rpp::make_lambda_observer<TV>(c.d, Next{&c}, Err{&c}, Comp{&c})
#define FORM(name, tr, ...)                                          \
    struct name                                                      \
    {                                                                \
        static constexpr Traits traits = tr;                         \
        static constexpr auto   str    = #name;                      \
        template<class O>                                            \
        static Ret attach([[maybe_unused]] const O& o, [[maybe_unused]] Ctx& c) \
        __VA_ARGS__                                                  \
    };
#define T_(...) (Traits{__VA_ARGS__})
// members
FORM(member_nec, T_(true, true, NONE), { o.subscribe(Next{&c}, Err{&c}, Comp{&c}); return c.d; })
FORM(member_nc, T_(false, true, NONE), { o.subscribe(Next{&c}, Comp{&c}); return c.d; })
FORM(member_ne, T_(true, false, NONE), { o.subscribe(Next{&c}, Err{&c}); return c.d; })
FORM(member_n, T_(false, false, NONE), { o.subscribe(NextMoved{&c}); return c.d; })
FORM(member_lvalues, T_(true, true, NONE), { const Next n{&c}; const Err e{&c}; Comp f{&c}; o.subscribe(n, e, f); return c.d; })
FORM(member_observer, T_(true, true, NONE), { o.subscribe(LAMBDA_OBS(c)); return c.d; })
FORM(member_observer_own_d, T_(true, true, GIVEN), { o.subscribe(LAMBDA_OBS_D(c)); return c.d; })
FORM(member_dynamic, T_(true, true, NONE), { auto dyn = LAMBDA_OBS(c).as_dynamic(); o.subscribe(dyn); return c.d; })
FORM(member_dynamic_own_d, T_(true, true, GIVEN), { o.subscribe(LAMBDA_OBS_D(c).as_dynamic()); return c.d; })
FORM(member_strategy, T_(true, true, NONE, true), { o.subscribe(Strategy{&c}); return c.d; })
FORM(member_d_nec, T_(true, true, GIVEN), { return o.subscribe(c.d, Next{&c}, Err{&c}, Comp{&c}); })
FORM(member_d_nc, T_(false, true, GIVEN), { return o.subscribe(c.d, Next{&c}, Comp{&c}); })
FORM(member_d_n, T_(false, false, GIVEN), { return o.subscribe(c.d, Next{&c}); })
FORM(member_d_observer, T_(true, true, GIVEN, false, true), { return o.subscribe(c.d, LAMBDA_OBS(c)); })
FORM(member_d_dynamic, T_(true, true, GIVEN, false, true), { return o.subscribe(c.d, LAMBDA_OBS(c).as_dynamic()); })
FORM(member_d_strategy, T_(true, true, GIVEN, true), { return o.subscribe(c.d, Strategy{&c}); })
FORM(member_with_nec, T_(true, true, RETURNED), { return o.subscribe_with_disposable(Next{&c}, Err{&c}, Comp{&c}); })
FORM(member_with_nc, T_(false, true, RETURNED), { return o.subscribe_with_disposable(Next{&c}, Comp{&c}); })
FORM(member_with_n, T_(false, false, RETURNED), { return o.subscribe_with_disposable(NextMoved{&c}); })
FORM(member_with_observer, T_(true, true, RETURNED, false, true), { return o.subscribe_with_disposable(LAMBDA_OBS(c)); })
FORM(member_with_dynamic, T_(true, true, RETURNED, false, true), { return o.subscribe_with_disposable(LAMBDA_OBS(c).as_dynamic()); })
FORM(member_with_strategy, T_(true, true, RETURNED, true), { return o.subscribe_with_disposable(Strategy{&c}); })
// pipes
FORM(pipe_nec, T_(true, true, NONE), { o | ops::subscribe(Next{&c}, Err{&c}, Comp{&c}); return c.d; })
FORM(pipe_nc, T_(false, true, NONE), { o | ops::subscribe(Next{&c}, Comp{&c}); return c.d; })
FORM(pipe_n, T_(false, false, NONE), { o | ops::subscribe(Next{&c}); return c.d; })
FORM(pipe_twice_nec, T_(true, true, NONE), { const auto op = ops::subscribe(Next{&c}, Err{&c}, Comp{&c}); rpp::source::never<TV>() | op; o | op; return c.d; })
FORM(pipe_observer, T_(true, true, NONE), { o | ops::subscribe(LAMBDA_OBS(c)); return c.d; })
FORM(pipe_observer_own_d, T_(true, true, GIVEN), { o | ops::subscribe(LAMBDA_OBS_D(c)); return c.d; })
FORM(pipe_dynamic, T_(true, true, NONE), { o | ops::subscribe(LAMBDA_OBS(c).as_dynamic()); return c.d; })
FORM(pipe_strategy, T_(true, true, NONE, true), { o | ops::subscribe(Strategy{&c}); return c.d; })
FORM(pipe_twice_strategy, T_(true, true, NONE, true), { const auto op = ops::subscribe(Strategy{&c}); rpp::source::never<TV>() | op; o | op; return c.d; })
FORM(pipe_d_nec, T_(true, true, GIVEN), { return o | ops::subscribe(c.d, Next{&c}, Err{&c}, Comp{&c}); })
FORM(pipe_d_nc, T_(false, true, GIVEN), { return o | ops::subscribe(c.d, Next{&c}, Comp{&c}); })
FORM(pipe_d_n, T_(false, false, GIVEN), { return o | ops::subscribe(c.d, Next{&c}); })
FORM(pipe_twice_d_nec, T_(true, true, GIVEN), { const auto op = ops::subscribe(c.d, Next{&c}, Err{&c}, Comp{&c}); rpp::source::never<TV>() | op; return o | op; })
FORM(pipe_d_observer, T_(true, true, GIVEN, false, true), { return o | ops::subscribe(c.d, LAMBDA_OBS(c)); })
FORM(pipe_d_dynamic, T_(true, true, GIVEN, false, true), { return o | ops::subscribe(c.d, LAMBDA_OBS(c).as_dynamic()); })
FORM(pipe_d_strategy, T_(true, true, GIVEN, true), { return o | ops::subscribe(c.d, Strategy{&c}); })
FORM(pipe_twice_d_strategy, T_(true, true, GIVEN, true), { const auto op = ops::subscribe(c.d, Strategy{&c}); rpp::source::never<TV>() | op; return o | op; })
FORM(pipe_with_nec, T_(true, true, RETURNED), { return o | ops::subscribe_with_disposable(Next{&c}, Err{&c}, Comp{&c}); })
FORM(pipe_with_nc, T_(false, true, RETURNED), { return o | ops::subscribe_with_disposable(Next{&c}, Comp{&c}); })
FORM(pipe_with_n, T_(false, false, RETURNED), { return o | ops::subscribe_with_disposable(Next{&c}); })
FORM(pipe_with_observer, T_(true, true, RETURNED, false, true), { return o | ops::subscribe_with_disposable(LAMBDA_OBS(c)); })
FORM(pipe_with_dynamic, T_(true, true, RETURNED, false, true), { return o | ops::subscribe_with_disposable(LAMBDA_OBS(c).as_dynamic()); })
// ---------------------------------------------------------------- the driver
struct Up
{
    rpp::composite_disposable_wrapper d;
    std::shared_ptr<int>              disposed;
};
struct Run
{
    Ctx                                       c{};
    Traits                                    t{};
    std::string                               what{};
    std::vector<char>                         script{};
    size_t                                    split = 0; // how many of them happen while the subscription is being made
    std::optional<rpp::dynamic_observer<TV>>  later{};
    Ret                                       handle = Ret::empty();
    bool                                      attached = false;
    std::vector<rpp::disposable_wrapper>               held{};
    std::function<void()>                              echo{}; // emits into the observer
    std::vector<std::pair<std::shared_ptr<int>, bool>> ups{}; // how often it was disposed; given before the end
    // reference
    std::vector<rig::Seen> want{};
    bool                   ended = false, full = false;
    int                    values = 0, ups_want = 0;
    long                   next_value = 1;
    void                   m_end(rig::Seen s, bool heard)
    {
        if (heard)
            want.push_back(s);
        ended = true;
    }
    void m_next(long v)
    {
        if (ended || full)
            return;
        want.push_back({0, 'N', v});
        if (++values == 2)
        {
            if (c.beh == THROWS)
                m_end({0, 'E', 3}, t.err);
            if (c.beh == CANCELS)
                ended = true;
            if (c.beh == FULL)
                full = true;
        }
    }
    void give_up(auto& obs)
    {
        auto n = std::make_shared<int>(0);
        if (!ended && !full)
            ++ups_want;
        const bool at_once = ended || full;
        ups.push_back({n, at_once});
        held.push_back(rpp::make_callback_disposable([this, n, k = Token{}]() noexcept {
            ++*n;
            if (c.beh == ECHO && echo)
                echo();
        })); // (kept: a callback would be called as well when the last reference to it goes)
        obs.set_upstream(held.back());
    }
    void cancel()
    {
        auto& d = t.handle == GIVEN ? c.d : handle;
        d.dispose();
        ended = true;
    }
    void step(char op, auto& obs)
    {
        switch (op)
        {
            case 'n': {
                const TV v{next_value++};
                obs.on_next(v);
                v.check();
                m_next(v.v);
                break;
            }
            case 'r': {
                const long v = next_value++;
                obs.on_next(TV{v});
                m_next(v);
                break;
            }
            case 'c':
                if (!ended && !full)
                    m_end({0, 'C', 0}, t.comp);
                obs.on_completed();
                break;
            case 'e':
                if (!t.err && !ended && !full)
                    break; // nobody to take it
                if (!ended && !full)
                    m_end({0, 'E', 1}, true);
                obs.on_error(h::make_error(1));
                break;
            case 'u': give_up(obs); break;
            case 'x':
                if (t.handle == GIVEN || (t.handle == RETURNED && attached))
                    cancel();
                break;
        }
        check(op, obs.is_disposed());
    }
    void bad(const std::string& m) const { mc::fail(what + ": " + m); }
    void check(char op, bool disposed)
    {
        mc::Quiet   q;
        const auto  at = [&] { return std::string{" after '"} + op + "' in " + std::string(script.begin(), script.end()) + " (" + std::to_string(split) + " at once)"; };
        if (c.log != want)
            bad("received [" + rig::str(c.log) + "] expected [" + rig::str(want) + "]" + at());
        if (disposed != (ended || full))
            bad(std::string{"the observer "} + (disposed ? "says it is disposed" : "does not say it is disposed") + at());
        for (size_t i = 0; i < ups.size(); ++i)
        {
            const int n = (ended || ups[i].second) ? 1 : 0;
            if (*ups[i].first != n)
                bad("upstream " + std::to_string(i) + " was disposed " + std::to_string(*ups[i].first) + " times, expected " + std::to_string(n) + at());
        }
        if (t.strategy && c.ups != ups_want)
            bad("the strategy got " + std::to_string(c.ups) + " upstreams, expected " + std::to_string(ups_want) + at());
        if (t.wrapped && ended && !want.empty() && want.back() == rig::Seen{0, 'E', 3}) // the observer knows, the wrapper does not have to
            return;
        if (t.handle == GIVEN && c.d.is_disposed() != ended)
            bad(std::string{"the given handle is "} + (c.d.is_disposed() ? "" : "not ") + "disposed" + at());
        if (t.handle == RETURNED && attached && handle.is_disposed() != ended)
            bad(std::string{"the returned handle is "} + (handle.is_disposed() ? "" : "not ") + "disposed" + at());
    }
    template<class Obs>
    void on_subscribe(Obs&& obs)
    {
        ++c.subscribed;
        if (c.beh == ECHO)
            echo = [&obs] { obs.on_next(TV{77}); obs.on_error(h::make_error(2)); };
        for (size_t i = 0; i < split; ++i)
            step(script[i], obs);
        if (split < script.size())
            later.emplace(std::forward<Obs>(obs).as_dynamic());
        echo = {};
        if (later && c.beh == ECHO)
            echo = [this] { later->on_next(TV{77}); later->on_completed(); };
    }
};
// streams of different kinds
template<class Selector>
struct FixedStrategy // knows how many upstreams it is going to pass
{
    using value_type                     = TV;
    using expected_disposable_strategy   = Selector;
    Run*  r;
    Token t{};
    template<rpp::constraint::observer_strategy<TV> S>
    void subscribe(rpp::observer<TV, S>&& obs) const
    {
        r->on_subscribe(std::move(obs));
    }
};
namespace sel = rpp::details::observables;
struct Create
{
    static constexpr int max_ups = 9;
    static auto          make(Run& r) { return rpp::source::create<TV>([&r, t = Token{}](auto&& obs) { r.on_subscribe(std::move(obs)); }); }
};
struct Erased : Create
{
    static auto make(Run& r) { return Create::make(r).as_dynamic(); }
};
struct Mapped : Create
{
    static auto make(Run& r) { return Create::make(r) | ops::map([t = Token{}](const TV& v) { return v; }); }
};
struct Filtered : Create
{
    static auto make(Run& r) { return Create::make(r) | ops::filter([t = Token{}](const TV&) { return true; }); }
};
template<class S, int N>
struct Fixed
{
    static constexpr int max_ups = N;
    static auto          make(Run& r) { return rpp::observable<TV, FixedStrategy<S>>{&r}; }
};
using Fixed1 = Fixed<sel::fixed_disposable_strategy_selector<1>, 1>;
using Fixed2 = Fixed<sel::atomic_fixed_disposable_strategy_selector<2>, 2>;
using Bool   = Fixed<sel::bool_disposable_strategy_selector, 0>;
using ABool  = Fixed<sel::atomic_bool_disposable_strategy_selector, 0>;
using Dyn1   = Fixed<sel::dynamic_disposable_strategy_selector<1>, 9>;

template<class F, class Source>
void histories()
{
    const long tv0 = TV::live, tok0 = Token::live;
    {
        Run r;
        r.t = F::traits;
        // how the handle looks like
        const int pre = F::traits.handle == GIVEN ? mc::choose(3) : 0; // fine, disposed, empty
        if (F::traits.handle == GIVEN)
        {
            r.c.d = pre == 2 ? Ret::empty() : Ret::make();
            if (pre == 1)
                r.c.d.dispose();
        }
        std::vector<Beh> behs{PLAIN, ECHO};
        if (pre == 0)
        {
            if (F::traits.err)
                behs.push_back(THROWS);
            if (F::traits.handle == GIVEN)
            {
                behs.push_back(CANCELS);
                behs.push_back(CANCELS_END);
            }
            if (F::traits.strategy)
                behs.push_back(FULL);
        }
        r.c.beh     = behs[size_t(mc::choose(int(behs.size())))];
        const int depth = pre ? 1 : mc::thorough() ? 5 : 4;
        int       ups   = 0;
        for (int i = 0; i < depth; ++i)
        {
            std::string a = "nrc";
            if (F::traits.err)
                a += 'e';
            if (ups < Source::max_ups)
                a += 'u';
            if (F::traits.handle != NONE)
                a += 'x';
            r.script.push_back(a[size_t(mc::choose(int(a.size())))]);
            ups += r.script.back() == 'u';
        }
        r.split = size_t(mc::choose(depth + 1));
        r.what  = std::string{F::str} + (pre == 1 ? " with a disposed handle" : pre == 2 ? " with an empty handle" : "");
        {
            auto o = Source::make(r);
            if (pre)
                r.ended = true;
            r.handle   = F::attach(o, r.c);
            r.attached = true;
        }
        if (pre)
        {
            if (r.c.subscribed)
                r.bad("the source is subscribed");
            if (!r.c.log.empty())
                r.bad("something is received");
            if (!r.handle.is_disposed())
                r.bad("the returned handle is not disposed");
        }
        else
        {
            if (r.c.subscribed != 1)
                r.bad("the source is subscribed " + std::to_string(r.c.subscribed) + " times");
            if (F::traits.handle == GIVEN && !(r.handle == r.c.d))
                r.bad("another handle is returned");
            if (F::traits.handle == RETURNED && !F::traits.wrapped && r.handle.is_disposed() != r.ended)
                r.bad("the returned handle is in a wrong state");
            for (size_t i = r.split; i < r.script.size(); ++i)
                r.step(r.script[i], *r.later);
            mc::outcome(rig::str(r.c.log));
        }
        r.echo = {};
        r.later.reset();
        if (mc::choose(2) && F::traits.handle == RETURNED) // the handle may outlive everything
        {
            r.handle.dispose();
            for (auto& [n, _] : r.ups)
                if (*n != 1)
                    r.bad("an upstream was disposed " + std::to_string(*n) + " times at the end");
        }
    }
    mc::Quiet q;
    if (TV::live != tv0 || Token::live != tok0)
        mc::fail(std::string{F::str} + ": " + std::to_string(TV::live - tv0) + " values and " + std::to_string(Token::live - tok0) + " functions are not released");
}
template<class Source, class... F>
void all_forms(int which)
{
    int i = 0;
    ((i++ == which ? histories<F, Source>() : void()), ...);
}
#define MEMBERS member_nec, member_nc, member_ne, member_n, member_lvalues, member_observer, member_observer_own_d, member_dynamic, member_dynamic_own_d, member_strategy
#define MEMBERS_D member_d_nec, member_d_nc, member_d_n, member_d_observer, member_d_dynamic, member_d_strategy
#define MEMBERS_W member_with_nec, member_with_nc, member_with_n, member_with_observer, member_with_dynamic, member_with_strategy
#define PIPES pipe_nec, pipe_nc, pipe_n, pipe_twice_nec, pipe_observer, pipe_observer_own_d, pipe_dynamic, pipe_strategy, pipe_twice_strategy
#define PIPES_D pipe_d_nec, pipe_d_nc, pipe_d_n, pipe_twice_d_nec, pipe_d_observer, pipe_d_dynamic, pipe_d_strategy, pipe_twice_d_strategy
#define PIPES_W pipe_with_nec, pipe_with_nc, pipe_with_n, pipe_with_observer, pipe_with_dynamic
#define R3 "R03"
#define GROUP(name, Source, n, ...) SC(name, R3, .quick_bound = 0, .thorough_bound = 0) { all_forms<Source, __VA_ARGS__>(mc::choose(n)); }
#define KIND(name, Source)                      \
    GROUP("members_" name, Source, 10, MEMBERS); \
    GROUP("members_given_" name, Source, 6, MEMBERS_D); \
    GROUP("members_returned_" name, Source, 6, MEMBERS_W); \
    GROUP("pipes_" name, Source, 9, PIPES); \
    GROUP("pipes_given_" name, Source, 8, PIPES_D); \
    GROUP("pipes_returned_" name, Source, 5, PIPES_W)
KIND("create", Create);
KIND("erased", Erased);
KIND("one_expected", Fixed1);
KIND("map", Mapped);
KIND("two_expected", Fixed2);
KIND("filter", Filtered);
KIND("none_expected", Bool);
KIND("none_expected_atomic", ABool);
KIND("one_preallocated", Dyn1);
} // namespace
