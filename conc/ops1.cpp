// O01 (and the single-source part of O02, O07, O08, O09, R02): operators over one source.
#define RIG_ECHO
#include "rig.hpp"
using namespace rig;
namespace ops = rpp::ops;
namespace
{
// a model from its reaction to values and to the completion
#define MODEL(Name, State, Next, ...)                             \
    struct Name : One                                             \
    {                                                             \
        State                                                     \
        void next(long v) override { (void)v; Next }              \
        __VA_OPT__(void comp() override { __VA_ARGS__ })          \
    };
#define STATE(...) __VA_ARGS__
using Q = std::deque<long>;

MODEL(MMap, , N(fn(v) + 10);)
RIG_OP("map", "O01", true, MMap, ({}), w.src(0) | ops::map([t = Token{}](const TV& v) { return TV{fn(v.get()) + 10}; }));
RIG_OP("map_by_value", "O01", true, MMap, ({}), w.src(0) | ops::map([t = Token{}](TV v) { return fn(v.get()) + 10; }));

MODEL(MFilter, , if (fn(v) != 1) N(v);)
RIG_OP("filter", "O01", true, MFilter, ({}), w.src(0) | ops::filter([t = Token{}](const TV& v) { return fn(v.get()) != 1; }));

MODEL(MTake1, , N(v); C();)
RIG_OP("take_1", "O01", false, MTake1, ({}), w.src(0) | ops::take(1));
MODEL(MTake2, STATE(int n = 2;), N(v); if (--n == 0) C();)
RIG_OP("take_2", "O01", false, MTake2, ({}), w.src(0) | ops::take(2));
MODEL(MTake3, STATE(int n = 3;), N(v); if (--n == 0) C();)
RIG_OP("take_3", "O01", false, MTake3, ({}), w.src(0) | ops::take(3));

MODEL(MSkip0, , N(v);)
RIG_OP("skip_0", "O01", false, MSkip0, ({}), w.src(0) | ops::skip(0));
MODEL(MSkip2, STATE(int n = 2;), if (n) --n; else N(v);)
RIG_OP("skip_2", "O01", false, MSkip2, ({}), w.src(0) | ops::skip(2));

MODEL(MTakeWhile, , if (fn(v) != 1) N(v); else C();)
RIG_OP("take_while", "O01", true, MTakeWhile, ({}), w.src(0) | ops::take_while([t = Token{}](const TV& v) { return fn(v.get()) != 1; }));

template<int Count>
struct MTakeLast : One
{
    Q    q;
    void next(long v) override
    {
        q.push_back(v);
        if (q.size() > Count)
            q.pop_front();
    }
    void comp() override
    {
        for (long x : q)
            N(x);
        C();
    }
};
RIG_OP("take_last_0", "O01", false, MTakeLast<0>, ({}), w.src(0) | ops::take_last(0));
RIG_OP("take_last_1", "O01", false, MTakeLast<1>, ({}), w.src(0) | ops::take_last(1));
RIG_OP("take_last_2", "O01", false, MTakeLast<2>, ({}), w.src(0) | ops::take_last(2));
RIG_OP("take_last_3", "O01", false, MTakeLast<3>, ({}), w.src(0) | ops::take_last(3));

MODEL(MFirst, , N(v); C();, E(50);)
RIG_OP("first", "O01", false, MFirst, ({}), w.src(0) | ops::first());
MODEL(MLast, STATE(std::optional<long> l;), l = v;, if (l) { N(*l); C(); } else E(50);)
RIG_OP("last", "O01", false, MLast, ({}), w.src(0) | ops::last());
template<int Index>
struct MElementAt : One
{
    int  n = Index;
    void next(long v) override
    {
        if (n-- == 0)
        {
            N(v);
            C();
        }
    }
    void comp() override { E(51); }
};
RIG_OP("element_at_0", "O01", false, MElementAt<0>, ({}), w.src(0) | ops::element_at(0));
RIG_OP("element_at_1", "O01", false, MElementAt<1>, ({}), w.src(0) | ops::element_at(1));
RIG_OP("element_at_3", "O01", false, MElementAt<3>, ({}), w.src(0) | ops::element_at(3));

MODEL(MDistinct, STATE(std::set<long> s;), if (s.insert(v).second) N(v);)
RIG_OP("distinct", "O01", false, MDistinct, ({.depth = 6}), w.src(0) | ops::distinct());
MODEL(MDuc, STATE(std::optional<long> l;), if (!l || *l != v) { l = v; N(v); })
RIG_OP("distinct_until_changed", "O01", false, MDuc, ({.depth = 6}), w.src(0) | ops::distinct_until_changed());
MODEL(MDucFn, STATE(std::optional<long> l;), if (!l || fn(v) / 2 != *l / 2) { l = v; N(v); })
RIG_OP("distinct_until_changed_fn", "O01", true, MDucFn, ({.vals = 4}), w.src(0) | ops::distinct_until_changed([t = Token{}](const TV& a, const TV& b) { return a.get() / 2 == fn(b.get()) / 2; }));

MODEL(MDucNear, STATE(std::optional<long> l;), if (!l || std::abs(v - *l) > 1) { l = v; N(v); })
RIG_OP("distinct_until_changed_near", "O01", false, MDucNear, ({.vals = 4}), w.src(0) | ops::distinct_until_changed([t = Token{}](const TV& a, const TV& b) { return std::abs(a.get() - b.get()) <= 1; }));

struct MScan : One
{
    long s = 7;
    void pre() override { N(s); }
    void next(long v) override
    {
        s = s * 4 + fn(v);
        N(s);
    }
};
RIG_OP("scan", "O01", true, MScan, ({}), w.src(0) | ops::scan(TV{7}, [t = Token{}](TV s, const TV& v) { return TV{s.get() * 4 + fn(v.get())}; }));
RIG_OP("scan_by_reference", "O01", true, MScan, ({}), w.src(0) | ops::scan(TV{7}, [t = Token{}](TV&& s, const TV& v) {
    const long x = fn(v.get());
    s            = TV{s.get() * 4 + x};
    return std::move(s);
}));
MODEL(MScanNoSeed, STATE(std::optional<long> s;), s = s ? *s * 4 + fn(v) : v; N(*s);)
RIG_OP("scan_no_seed", "O01", true, MScanNoSeed, ({}), w.src(0) | ops::scan([t = Token{}](TV s, const TV& v) { return TV{s.get() * 4 + fn(v.get())}; }));
MODEL(MReduce, STATE(long s = 7;), s = s * 4 + fn(v);, N(s); C();)
RIG_OP("reduce", "O01", true, MReduce, ({}), w.src(0) | ops::reduce(TV{7}, [t = Token{}](TV s, const TV& v) { return TV{s.get() * 4 + fn(v.get())}; }));
RIG_OP("reduce_to_other_type", "O01", true, MReduce, ({}), w.src(0) | ops::reduce(7l, [t = Token{}](long s, const TV& v) { return s * 4 + fn(v.get()); }));
MODEL(MReduceNoSeed, STATE(std::optional<long> s;), s = s ? *s * 4 + fn(v) : v;, if (s) N(*s); C();)
RIG_OP("reduce_no_seed", "O01", true, MReduceNoSeed, ({}), w.src(0) | ops::reduce([t = Token{}](TV s, const TV& v) { return TV{s.get() * 4 + fn(v.get())}; }));

template<int Count>
struct MBuffer : One
{
    std::vector<long> b;
    void              next(long v) override
    {
        b.push_back(v);
        if (b.size() >= std::max(1, Count))
            flush();
    }
    void flush()
    {
        N(fold(b));
        b.clear();
    }
    void comp() override
    {
        if (!b.empty())
            flush();
        C();
    }
};
RIG_OP("buffer_1", "O01", false, MBuffer<1>, ({}), w.src(0) | ops::buffer(1));
RIG_OP("buffer_2", "O01", false, MBuffer<2>, ({}), w.src(0) | ops::buffer(2));
RIG_OP("buffer_3", "O01", false, MBuffer<3>, ({}), w.src(0) | ops::buffer(3));

struct MStartWith : One
{
    void pre() override
    {
        N(41);
        N(42);
    }
    void next(long v) override { N(v); }
};
RIG_OP("start_with", "O01", false, MStartWith, ({}), w.src(0) | ops::start_with(TV{41}, TV{42}));
RIG_OP("start_with_values", "O01", false, MStartWith, ({}), w.src(0) | ops::start_with_values(TV{41}, TV{42}));
RIG_OP("start_with_shared_values", "O01", false, MStartWith, ({}), w.src(0) | ops::start_with_values<rpp::memory_model::use_shared>(TV{41}, TV{42}));
RIG_OP("start_with_immediate", "O01", false, MStartWith, ({}), w.src(0) | ops::start_with(rpp::schedulers::immediate{}, TV{41}, TV{42}));

// what tap saw is sent along
struct MTap : One
{
    void next(long v) override
    {
        T(100 + fn(v));
        N(v);
    }
    void error(long id) override
    {
        T(200);
        E(id);
    }
    void comp() override
    {
        T(300);
        C();
    }
};
RIG_OP("tap", "O01", false, MTap, ({}), w.src(0) | ops::tap([&w, t = Token{}](const TV& v) { const long x = fn(v.get()); w.tapped(100 + x); }, [&w](const std::exception_ptr&) { w.tapped(200); }, [&w] { w.tapped(300); }));
MODEL(MId, , N(v);)
MODEL(MFn, , N(fn(v));)
RIG_OP("tap_checking", "O01", true, MFn, ({}), w.src(0) | ops::tap([t = Token{}](const TV& v) { fn(v.get()); }));
RIG_OP("tap_value_only", "O01", false, MId, ({}), w.src(0) | ops::tap([t = Token{}](const TV& v) { v.check(); }));
struct MFinally : One
{
    void next(long v) override { N(v); }
    void at_end() override { T(300); }
};
RIG_OP("finally_seen", "O01", false, MFinally, ({}), w.src(0) | ops::finally([&w, t = Token{}]() noexcept { w.tapped(300); }));
RIG_OP("finally", "O01", false, MId, ({}), w.src(0) | ops::finally([t = Token{}]() noexcept {}));
RIG_OP("observe_on_immediate", "O01", false, MId, ({}), w.src(0) | ops::observe_on(rpp::schedulers::immediate{}));
RIG_OP("delay_0_immediate", "O01", false, MId, ({}), w.src(0) | ops::delay(std::chrono::seconds{0}, rpp::schedulers::immediate{}));
RIG_OP("subscribe_on_immediate", "O01", false, MId, ({}), w.src(0) | ops::subscribe_on(rpp::schedulers::immediate{}));
RIG_OP("publish_ref_count", "O01", false, MId, ({.shared = true}), w.src(0) | ops::publish() | ops::ref_count());
RIG_OP("as_dynamic", "O01", false, MId, ({}), w.src(0).as_dynamic());
RIG_OP("nothing", "O01", false, MId, ({}), w.src(0));

// chains
struct MChain1 : One // filter odd, add 10, take 2
{
    int  n = 2;
    void next(long v) override
    {
        if (fn(v) == 1)
            return;
        N(v + 10);
        if (--n == 0)
            C();
    }
};
RIG_OP("filter_map_take", "O01", true, MChain1, ({}), w.src(0) | ops::filter([t = Token{}](const TV& v) { return fn(v.get()) != 1; }) | ops::map([t = Token{}](TV v) { return TV{v.get() + 10}; }) | ops::take(2));
struct MChain2 : One // skip 1, scan, last
{
    int                 n = 1;
    std::optional<long> s;
    void                next(long v) override
    {
        if (n)
        {
            --n;
            return;
        }
        s = s ? *s * 4 + v : v;
    }
    void comp() override
    {
        if (s)
        {
            N(*s);
            C();
        }
        else
            E(50);
    }
};
RIG_OP("skip_scan_last", "O01", false, MChain2, ({}), w.src(0) | ops::skip(1) | ops::scan([t = Token{}](TV&& s, const TV& v) { return TV{s.get() * 4 + v.get()}; }) | ops::last());
struct MChain3 : One // pairs, of which the first two
{
    std::vector<long> b;
    int               n = 0;
    void              next(long v) override
    {
        b.push_back(v);
        if (b.size() == 2)
        {
            N(fold(b));
            b.clear();
            if (++n == 2)
                C();
        }
    }
    void comp() override
    {
        if (!b.empty())
            N(fold(b));
        C();
    }
};
RIG_OP("buffer_take", "O01", false, MChain3, ({.vals = 2, .depth = 6}), w.src(0) | ops::buffer(2) | ops::take(2));
struct MChain4 : One // distinct | element_at(1)
{
    std::set<long> s;
    void           next(long v) override
    {
        if (s.insert(v).second && s.size() == 2)
        {
            N(v);
            C();
        }
    }
    void comp() override { E(51); }
};
RIG_OP("distinct_element_at", "O01", false, MChain4, ({}), w.src(0) | ops::distinct() | ops::element_at(1));
struct MChain5 : One // take_while(!=1) | take_last(2) | start_with
{
    Q    q;
    void pre() override { N(41); }
    void fin()
    {
        for (long x : q)
            N(x);
        C();
    }
    void next(long v) override
    {
        if (fn(v) == 1)
            return fin();
        q.push_back(v);
        if (q.size() > 2)
            q.pop_front();
    }
    void comp() override { fin(); }
};
RIG_OP("take_while_take_last_start_with", "O01", true, MChain5, ({}), w.src(0) | ops::take_while([t = Token{}](const TV& v) { return fn(v.get()) != 1; }) | ops::take_last(2) | ops::start_with(TV{41}));
} // namespace
