// R01: sources emit exactly what they contain, once per subscription, lazily, and stop when asked: for every content, container, memory
// model and scheduler, every point of cancellation and every number of subscriptions.
#include "rig.hpp"
namespace
{
using rig::Token;
using rig::TV;
namespace ops = rpp::operators;
namespace src = rpp::source;
namespace sch = rpp::schedulers;
using std::chrono::milliseconds;

// ---------------------------------------------------------------- containers
long g_begins = 0, g_derefs = 0, g_fail_at = -1; // (how often a container was entered, read, which element can't be read)
RIG_UNTRACKED void bump(long& n) { ++n; }
struct Lazy // forward only, counts, may throw
{
    struct It
    {
        using iterator_category = std::forward_iterator_tag;
        using value_type        = TV;
        using difference_type   = std::ptrdiff_t;
        using pointer           = const TV*;
        using reference         = const TV&;
        const Lazy* c = nullptr;
        size_t      i = 0;
        const TV&   operator*() const
        {
            bump(g_derefs);
            if (long(i) == g_fail_at)
                std::rethrow_exception(h::make_error(3));
            return c->v[i];
        }
        It& operator++()
        {
            ++i;
            return *this;
        }
        It operator++(int)
        {
            It r = *this;
            ++i;
            return r;
        }
        bool operator==(const It& o) const { return i == o.i; }
    };
    std::vector<TV> v;
    Token           t{};
    It              begin() const
    {
        bump(g_begins);
        return {this, 0};
    }
    It end() const { return {this, v.size()}; }
};
std::vector<TV> values(int n)
{
    std::vector<TV> r;
    for (int i = 0; i < n; ++i)
        r.emplace_back(i * 3 + 1);
    return r;
}
// ---------------------------------------------------------------- schedulers
struct Imm
{
    sch::immediate s{};
    void           run() {}
    static constexpr bool stepwise = false;
};
struct Cur
{
    sch::current_thread s{};
    void                run() {}
    static constexpr bool stepwise = false;
};
struct Loop
{
    sch::run_loop s{};
    void          run()
    {
        while (s.is_any_ready_schedulable())
            s.dispatch_if_ready();
    }
    bool step()
    {
        if (!s.is_any_ready_schedulable())
            return false;
        s.dispatch_if_ready();
        return true;
    }
    static constexpr bool stepwise = true;
};
struct Thread
{
    sch::new_thread s{};
    void            run() { mc::settle(); }
    static constexpr bool stepwise = false;
};

struct Log
{
    std::vector<rig::Seen> out;
    std::string            str() const { return rig::str(out); }
};
// the whole test of one source: `make` builds the description, `expected` is what one subscription has to deliver
struct Expect
{
    std::vector<rig::Seen> out{};
    bool                   never = false;
};
template<class S, class Make>
void check(const std::string& what, S& sched, Make make, const Expect& ex, auto&& before_subscribe, auto&& after)
{
    const long tv0 = TV::live, tok0 = Token::live;
    {
        auto o = make();
        before_subscribe();
        // how many subscriptions and what happens to them
        const int  subs      = 1 + mc::choose(2);
        const int  way       = mc::choose(4); // plain, take(k), disposed inside of the k-th notification, disposed before it starts
        const int  k         = way == 1 ? 1 + mc::choose(int(ex.out.size()) + 1) : way == 2 ? mc::choose(int(ex.out.size()) + 1) : 0;
        const bool nested    = subs == 2 && mc::choose(2); // the second one starts inside of the first notification of the first one
        const bool copy      = subs == 2 && mc::choose(2);
        const int  cancel_at = S::stepwise && way == 0 ? mc::choose(int(ex.out.size()) + 2) : -1; // cancelled from outside after that many steps
        Log        log[2];
        std::vector<rpp::composite_disposable_wrapper> hs;
        for (int i = 0; i < subs; ++i)
            hs.push_back(rpp::composite_disposable_wrapper::make());
        std::function<void(int)> subscribe;
        auto                     one = [&](int i, const auto& obs) {
            using T      = rpp::utils::extract_observable_type_t<std::decay_t<decltype(obs)>>;
            auto d       = hs[size_t(i)];
            if (way == 3)
                d.dispose();
            auto note = [&log, &hs, &subscribe, i, way, k, nested](rig::Seen s) {
                log[i].out.push_back(s);
                if (nested && i == 0 && log[0].out.size() == 1)
                    subscribe(1);
                if (way == 2 && int(log[i].out.size()) == k + 1)
                    hs[size_t(i)].dispose();
            };
            auto on_next = [note, t = Token{}](const T& v) { note({0, 'N', rig::enc(v)}); };
            auto on_err  = [note, t = Token{}](const std::exception_ptr& e) { note({0, 'E', h::error_id(e)}); };
            auto on_comp = [note, t = Token{}] { note({0, 'C', 0}); };
            if (way == 1)
                (obs | ops::take(size_t(k))).subscribe(d, on_next, on_err, on_comp);
            else
                obs.subscribe(d, on_next, on_err, on_comp);
        };
        subscribe = [&](int i) {
            if (i == 1 && copy)
            {
                auto c = o;
                auto m = std::move(c);
                one(i, m);
            }
            else
                one(i, o);
        };
        subscribe(0);
        if constexpr (S::stepwise)
        {
            if (cancel_at >= 0)
            {
                for (int n = 0; n < cancel_at && sched.step(); ++n)
                    ;
                hs[0].dispose();
                const auto before = log[0].out;
                sched.run();
                if (log[0].out != before)
                    mc::fail(what + ": cancelled after [" + rig::str(before) + "] but received [" + log[0].str() + "]");
                if (before.size() > ex.out.size() || !std::equal(before.begin(), before.end(), ex.out.begin()))
                    mc::fail(what + ": received [" + log[0].str() + "] expected a prefix of [" + rig::str(ex.out) + "]");
                if (!nested && before.size() < size_t(cancel_at) && before.size() < ex.out.size())
                    mc::fail(what + ": received only [" + rig::str(before) + "] after " + std::to_string(cancel_at) + " tasks");
            }
        }
        sched.run();
        if (subs == 2 && !(nested && !log[0].out.empty()))
        {
            subscribe(1);
            sched.run();
        }
        mc::Quiet q;
        for (int i = 0; i < subs; ++i)
        {
            if (cancel_at >= 0 && i == 0)
                continue;
            auto want = ex.out;
            if (way == 1)
            {
                std::vector<rig::Seen> w2;
                    for (auto& e : want)
                    {
                        w2.push_back(e);
                        if (e.k == 'N' && int(w2.size()) == k)
                        {
                            w2.push_back({0, 'C', 0});
                            break;
                        }
                        if (e.k != 'N')
                            break;
                    }
                want = w2;
            }
            else if (way == 2 && size_t(k) + 1 < want.size())
                want.resize(size_t(k) + 1);
            else if (way == 3)
                want.clear();
            if (log[i].out != want)
                mc::fail(what + (way == 1 ? ", take(" + std::to_string(k) + ")" : way == 2 ? ", cancelled inside of notification " + std::to_string(k) : way == 3 ? ", cancelled before" : "") + (nested ? ", nested" : "") + ": subscription " + std::to_string(i) + " received [" + log[i].str() + "] expected [" + rig::str(want) + "]");
        }
        mc::outcome(what + log[0].str());
        after(subs, way, k, cancel_at);
        for (auto& d : hs)
            d.dispose();
    }
    sched.run();
    mc::Quiet q;
    if (TV::live != tv0 || Token::live != tok0)
        mc::fail(what + ": " + std::to_string(TV::live - tv0) + " values and " + std::to_string(Token::live - tok0) + " functions are not released");
}
Expect all(int n, int fail_at = -1)
{
    Expect e;
    for (int i = 0; i < n; ++i)
    {
        if (i == fail_at)
        {
            e.out.push_back({0, 'E', 3});
            return e;
        }
        e.out.push_back({0, 'N', i * 3 + 1});
    }
    e.out.push_back({0, 'C', 0});
    return e;
}
void reset()
{
    TV::live = Token::live = 0;
    g_begins = g_derefs = 0;
    g_fail_at           = -1;
}
template<class MM, class Sched>
void iterables()
{
    reset();
    Sched     s;
    const int n    = mc::choose(5);
    const int kind = mc::choose(5);
    auto      none = [] {};
    auto      any  = [](int, int, int, int) {};
    switch (kind)
    {
        case 0: check("vector", s, [&] { return src::from_iterable<MM>(values(n), s.s); }, all(n), none, any); break;
        case 1: check("list", s, [&] { auto v = values(n); return src::from_iterable<MM>(std::list<TV>(v.begin(), v.end()), s.s); }, all(n), none, any); break;
        case 2: {
            const std::vector<TV> lvalue = values(n);
            check("vector (lvalue)", s, [&] { return src::from_iterable<MM>(lvalue, s.s); }, all(n), none, any);
            for (int i = 0; i < n; ++i)
                lvalue[size_t(i)].check();
            break;
        }
        case 3: {
            const int fail = mc::choose(n + 1) - 1;
            g_fail_at      = fail;
            check(
                "own container", s, [&] { return src::from_iterable<MM>(Lazy{values(n)}, s.s); }, all(n, fail), [] {
                    if (g_begins || g_derefs)
                        mc::fail("the container is read before anybody subscribed");
                },
                [&](int subs, int way, int k, int cancel_at) {
                    if (way == 3 && g_derefs)
                        mc::fail("the container is read for a cancelled subscription");
                    if (cancel_at < 0 && way == 2 && g_derefs > long(subs) * (k + 2)) // (the next one may be on its way)
                        mc::fail("elements are read after the subscription was cancelled");
                    if (cancel_at < 0 && way == 1 && g_derefs > long(subs) * (k + 1))
                        mc::fail("more elements are read than needed");
                });
            break;
        }
        case 4: {
            auto one = [&](auto... x) { check("just", s, [&] { return src::just<MM>(s.s, TV{x}...); }, all(int(sizeof...(x))), none, any); };
            if (n <= 1)
                one(1);
            else if (n == 2)
                one(1, 4);
            else if (n == 3)
                one(1, 4, 7);
            else
                one(1, 4, 7, 10);
            break;
        }
    }
}
#define R1 "R01"
#define IT(name, mm, sched) SC(name, R1, .quick_bound = 0, .thorough_bound = 0) { iterables<rpp::memory_model::mm, sched>(); }
IT("iterable_stack_immediate", use_stack, Imm);
IT("iterable_stack_current_thread", use_stack, Cur);
IT("iterable_stack_run_loop", use_stack, Loop);
IT("iterable_stack_new_thread", use_stack, Thread);
IT("iterable_shared_immediate", use_shared, Imm);
IT("iterable_shared_current_thread", use_shared, Cur);
IT("iterable_shared_run_loop", use_shared, Loop);
IT("iterable_shared_new_thread", use_shared, Thread);

SC("iterable_default_scheduler", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    Cur       s;
    const int n = mc::choose(5);
    check("from_iterable with defaults", s, [&] { return src::from_iterable(values(n)); }, all(n), [] {}, [](int, int, int, int) {});
};
SC("just_default_scheduler", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    Cur s;
    if (mc::choose(2))
        check("just with defaults", s, [&] { return src::just(TV{1}, TV{4}, TV{7}); }, all(3), [] {}, [](int, int, int, int) {});
    else
    {
        const TV a{1}, b{4};
        check("just with lvalues", s, [&] { return src::just(a, b); }, all(2), [] {}, [](int, int, int, int) {});
        a.check();
        b.check();
    }
};
template<class MM>
void callables()
{
    reset();
    Cur       s;
    long      calls = 0;
    const int kind  = mc::choose(3);
    auto      after = [&](int subs, int way, int k, int) {
        const long want = way == 3 ? 0 : subs;
        if (calls != want)
            mc::fail("the callable was called " + std::to_string(calls) + " times for " + std::to_string(subs) + " subscriptions");
    };
    auto before = [&] {
        if (calls)
            mc::fail("the callable is called before anybody subscribed");
    };
    Expect ex;
    if (kind == 0)
    {
        ex.out = {{0, 'N', 5}, {0, 'C', 0}};
        check("from_callable", s, [&] { return src::from_callable<MM>([&calls, t = Token{}] { ++calls; return TV{5}; }); }, ex, before, after);
    }
    else if (kind == 1)
    {
        ex.out = {{0, 'E', 3}};
        check("from_callable throwing", s, [&] { return src::from_callable<MM>([&calls, t = Token{}]() -> TV { ++calls; std::rethrow_exception(h::make_error(3)); }); }, ex, before, after);
    }
    else
    {
        ex.out = {{0, 'N', 1}, {0, 'C', 0}};
        check("from_callable without result", s, [&] { return src::from_callable<MM>([&calls, t = Token{}] { ++calls; }) | ops::map([](rpp::utils::none) { return 1; }); }, ex, before, after);
    }
}
SC("callable_stack", R1, .quick_bound = 0, .thorough_bound = 0) { callables<rpp::memory_model::use_stack>(); };
SC("callable_shared", R1, .quick_bound = 0, .thorough_bound = 0) { callables<rpp::memory_model::use_shared>(); };
SC("create_and_defer", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    Cur       s;
    long      calls = 0;
    const int n     = mc::choose(4);
    const int end   = mc::choose(3); // completed, error, open
    Expect    ex;
    for (int i = 0; i < n; ++i)
        ex.out.push_back({0, 'N', i + 1});
    if (end < 2)
        ex.out.push_back({0, end ? 'E' : 'C', end ? 3 : 0});
    auto emit = [&calls, n, end, t = Token{}](auto&& o) {
        ++calls;
        for (int i = 0; i < n; ++i)
            o.on_next(TV{i + 1});
        if (end == 0)
            o.on_completed();
        else if (end == 1)
            o.on_error(h::make_error(3));
    };
    auto before = [&] {
        if (calls)
            mc::fail("called before anybody subscribed");
    };
    auto after = [&](int subs, int way, int k, int) {
        const long want = way == 3 ? 0 : subs;
        if (calls != want)
            mc::fail("called " + std::to_string(calls) + " times for " + std::to_string(subs) + " subscriptions");
    };
    switch (mc::choose(4))
    {
        case 0: check("create", s, [&] { return src::create<TV>(emit); }, ex, before, after); break;
        case 1: check("create with dynamic observer", s, [&] { return src::create<TV>([emit](rpp::dynamic_observer<TV> o) { emit(o); }); }, ex, before, after); break;
        case 2: check("defer", s, [&] { return src::defer([emit, &calls] { ++calls; return src::create<TV>([emit, &calls](auto&& o) { --calls; emit(std::forward<decltype(o)>(o)); }); }); }, ex, before, after); break;
        case 3: check("deferred defer", s, [&] { return src::defer([emit] { return src::defer([emit] { return src::create<TV>(emit).as_dynamic(); }); }); }, ex, before, after); break;
    }
};
SC("empty_error_never", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    Cur    s;
    Expect ex;
    auto   any = [](int, int, int, int) {};
    switch (mc::choose(3))
    {
        case 0:
            ex.out = {{0, 'C', 0}};
            check("empty", s, [] { return src::empty<TV>(); }, ex, [] {}, any);
            break;
        case 1:
            ex.out = {{0, 'E', 3}};
            check("error", s, [] { return src::error<TV>(h::make_error(3)); }, ex, [] {}, any);
            break;
        case 2: check("never", s, [] { return src::never<TV>(); }, ex, [] {}, any); break;
    }
};
// concatenations of every list of synchronous sources
SC("concat_of_sync", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    Cur                                  s;
    const int                            n = mc::choose(4);
    std::vector<rpp::dynamic_observable<TV>> parts;
    Expect                               ex;
    bool                                 open = true;
    for (int i = 0; i < n; ++i)
    {
        const int kind = mc::choose(5);
        auto      add  = [&](rig::Seen x) {
            if (open)
                ex.out.push_back(x);
        };
        switch (kind)
        {
            case 0: parts.push_back(src::empty<TV>().as_dynamic()); break;
            case 1:
                parts.push_back(src::just(TV{i}).as_dynamic());
                add({0, 'N', i});
                break;
            case 2:
                parts.push_back(src::just(TV{i}, TV{i + 10}).as_dynamic());
                add({0, 'N', i});
                add({0, 'N', i + 10});
                break;
            case 3:
                parts.push_back(src::error<TV>(h::make_error(3)).as_dynamic());
                add({0, 'E', 3});
                open = false;
                break;
            case 4:
                parts.push_back(src::never<TV>().as_dynamic());
                open = false;
                break;
        }
    }
    if (open)
        ex.out.push_back({0, 'C', 0});
    auto any = [](int, int, int, int) {};
    switch (mc::choose(n ? 4 : 2))
    {
        case 0: check("concat of a container", s, [&] { return src::concat(parts); }, ex, [] {}, any); break;
        case 1: check("concat of a shared container", s, [&] { return src::concat<rpp::memory_model::use_shared>(parts); }, ex, [] {}, any); break;
        case 2:
            if (n == 1)
                check("concat of one", s, [&] { return src::concat(parts[0]); }, ex, [] {}, any);
            else if (n == 2)
                check("concat of two", s, [&] { return src::concat(parts[0], parts[1]); }, ex, [] {}, any);
            else
                check("concat of three", s, [&] { return src::concat(parts[0], parts[1], parts[2]); }, ex, [] {}, any);
            break;
        case 3: check("concat operator", s, [&] { return src::from_iterable(parts) | ops::concat(); }, ex, [] {}, any); break;
    }
};
// thousands of synchronous restarts do not recurse
SC("long_concat_does_not_recurse", R1, .quick_bound = 0, .thorough_bound = 0)
{
    reset();
    long             n = 0;
    const int        kind = mc::choose(3);
    const char*      low = nullptr;
    const char       here = 0;
    auto             on_next = [&](const TV&) {
        const char at = 0;
        if (!low || &at < low)
            low = &at;
        ++n;
    };
    auto run = [&](const auto& o) { o.subscribe(on_next); };
    constexpr int many = 300;
    if (kind == 0)
        run(src::concat(std::vector(size_t(many), src::just(TV{1}))));
    else if (kind == 1)
        run(src::just(TV{1}) | ops::repeat(size_t(many)));
    else
        run(src::from_iterable(std::vector(size_t(many), src::just(TV{1}))) | ops::concat());
    if (n != many)
        mc::fail("not everything was emitted");
    if (&here - low > 20000)
        mc::fail("the stack grows with the length of the stream: " + std::to_string(&here - low) + " bytes");
};
} // namespace
