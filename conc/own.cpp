// O07: a stream owns what it was built from. Every operator and source which takes functions, values, containers, streams, subjects or
// schedulers is built from an rvalue, an lvalue and a const lvalue; the originals are destroyed (their memory is poisoned) before the first
// subscription, and copies of the stream are subscribed in every order of a small set.
#include "h.hpp"
#include <array>
#include <list>
namespace
{
using h::V;
namespace ops = rpp::operators;
namespace src = rpp::source;
using Dyn = rpp::dynamic_observable<V>;
using Now = rpp::schedulers::immediate;
// a function object with memory of its own
template<class F>
struct Fn
{
    F              f;
    std::vector<V> own{1, 2, 3};
    template<class... A>
        requires std::invocable<const F&, A...>
    auto operator()(A&&... a) const
    {
        if (own.size() != 3 || own[2] != 3)
            mc::fail("a function is called after it was destroyed or moved away");
        return f(std::forward<A>(a)...);
    }
};
template<class F>
Fn(F) -> Fn<F>;
struct Own
{
    std::vector<V> own{1, 2, 3};
    void           use() const
    {
        if (own.size() != 3 || own[2] != 3)
            mc::fail("a function is called after it was destroyed or moved away");
    }
};
struct NoThrow // finally needs a noexcept one
{
    std::shared_ptr<int> n;
    std::vector<V>       own{1, 2, 3};
    void                 operator()() const noexcept
    {
        if (own.size() == 3)
            ++*n;
    }
};
using Got = std::vector<std::string>;
Got collect(const Dyn& o)
{
    Got g;
    o.subscribe([&](V v) { g.push_back(std::to_string(v)); }, [&](const std::exception_ptr& e) { g.push_back("E" + std::to_string(h::error_id(e))); }, [&] { g.push_back("C"); });
    return g;
}
auto three() { return src::from_iterable(std::vector<V>{1, 2, 3}, Now{}); }
auto fail3() { return src::concat(three(), src::error<V>(h::make_error(3))); }
template<class... A>
struct Args
{
    int mode; // 0 rvalues, 1 lvalues, 2 const lvalues
    template<class Use>
    static Dyn go(int mode, Use use, A... a)
    {
        if (mode == 0)
            return use(std::move(a)...);
        auto box = std::make_unique<std::tuple<A...>>(std::move(a)...);
        if (mode == 1)
            return std::apply([&](auto&... x) { return use(x...); }, *box);
        return std::apply([&](const auto&... x) { return use(x...); }, *box);
    }
};
struct Case
{
    const char*              what;
    std::function<Dyn(int)> make;
    Got                      want;
};
#define FW(x) std::forward<decltype(x)>(x)
template<class Use, class... A>
Case c(const char* what, Got want, Use use, A... a)
{
    return {what, [=](int mode) { return Args<A...>::go(mode, use, a...); }, want};
}
auto inc   = [] { return Fn{[](V v) { return v + 1; }}; };
auto odd   = [] { return Fn{[](V v) { return v % 2 == 1; }}; };
auto sum   = [] { return Fn{[](V a, V b) { return a + b; }}; };
auto same  = [] { return Fn{[](V, V) { return false; }}; };
auto inner = [] { return Fn{[](V v) { return src::just(Now{}, v, v * 10); }}; };

std::vector<Case> cases()
{
    std::vector<Case> r;
    r.push_back(c("map", {"2", "3", "4", "C"}, [](auto&& f) { return (three() | ops::map(FW(f))).as_dynamic(); }, inc()));
    r.push_back(c("filter", {"1", "3", "C"}, [](auto&& f) { return (three() | ops::filter(FW(f))).as_dynamic(); }, odd()));
    r.push_back(c("take_while", {"1", "C"}, [](auto&& f) { return (three() | ops::take_while(FW(f))).as_dynamic(); }, odd()));
    r.push_back(c("scan", {"5", "6", "8", "11", "C"}, [](auto&& s, auto&& f) { return (three() | ops::scan(FW(s), FW(f))).as_dynamic(); }, V{5}, sum()));
    r.push_back(c("scan without seed", {"1", "3", "6", "C"}, [](auto&& f) { return (three() | ops::scan(FW(f))).as_dynamic(); }, sum()));
    r.push_back(c("reduce", {"11", "C"}, [](auto&& s, auto&& f) { return (three() | ops::reduce(FW(s), FW(f))).as_dynamic(); }, V{5}, sum()));
    r.push_back(c("reduce without seed", {"6", "C"}, [](auto&& f) { return (three() | ops::reduce(FW(f))).as_dynamic(); }, sum()));
    r.push_back(c("distinct_until_changed", {"1", "2", "3", "C"}, [](auto&& f) { return (three() | ops::distinct_until_changed(FW(f))).as_dynamic(); }, same()));
    r.push_back(c("tap", {"1", "2", "3", "C"}, [](auto&& n, auto&& e, auto&& k) { return (three() | ops::tap(FW(n), std::decay_t<decltype(e)>(e), FW(k))).as_dynamic(); }, [own = Own{}](V) { own.use(); }, [own = Own{}](const std::exception_ptr&) { own.use(); }, [own = Own{}] { own.use(); }));
    r.push_back(c("tap error", {"1", "2", "3", "E3"}, [](auto&& n, auto&& e, auto&& k) { return (fail3() | ops::tap(FW(n), std::decay_t<decltype(e)>(e), FW(k))).as_dynamic(); }, [own = Own{}](V) { own.use(); }, [own = Own{}](const std::exception_ptr&) { own.use(); }, [own = Own{}] { own.use(); }));
    r.push_back(c("finally", {"1", "2", "3", "C"}, [](auto&& f) { return (three() | ops::finally(FW(f))).as_dynamic(); }, NoThrow{std::make_shared<int>()}));
    r.push_back(c("flat_map", {"1", "10", "2", "20", "3", "30", "C"}, [](auto&& f) { return (three() | ops::flat_map(FW(f))).as_dynamic(); }, inner()));
    r.push_back(c("group_by", {"1", "2", "3", "C"}, [](auto&& k, auto&& v, auto&& l) { return (three() | ops::group_by(FW(k), FW(v), FW(l)) | ops::merge()).as_dynamic(); }, odd(), Fn{[](V v) { return v; }}, Fn{[](bool a, bool b) { return a < b; }}));
    r.push_back(c("on_error_resume_next", {"1", "2", "3", "1", "2", "3", "C"}, [](auto&& f) { return (fail3() | ops::on_error_resume_next(FW(f))).as_dynamic(); }, Fn{[](const std::exception_ptr&) { return three(); }}));
    r.push_back(c("retry_when", {"1", "2", "3", "C"}, [](auto&& f) { return (fail3() | ops::retry_when(FW(f))).as_dynamic(); }, Fn{[](const std::exception_ptr&) { return src::empty<V>(); }}));
    r.push_back(c("combine_latest", {"45", "C"}, [](auto&& f, auto&& o) { return (src::just(Now{}, V{4}) | ops::combine_latest(FW(f), FW(o))).as_dynamic(); }, Fn{[](V a, V b) { return a * 10 + b; }}, src::just(Now{}, V{5})));
    r.push_back(c("zip", {"11", "22", "33", "C"}, [](auto&& f, auto&& o) { return (three() | ops::zip(FW(f), FW(o))).as_dynamic(); }, Fn{[](V a, V b) { return a * 10 + b; }}, three()));
    r.push_back(c("with_latest_from", {"13", "23", "33", "C"}, [](auto&& f, auto&& o) { return (three() | ops::with_latest_from(FW(f), FW(o))).as_dynamic(); }, Fn{[](V a, V b) { return a * 10 + b; }}, three()));
    r.push_back(c("merge_with", {"7", "C"}, [](auto&& a, auto&& b) { return (src::empty<V>() | ops::merge_with(FW(a), FW(b))).as_dynamic(); }, src::empty<V>(), src::just(Now{}, V{7})));
    r.push_back(c("start_with", {"7", "8", "1", "2", "3", "C"}, [](auto&& a, auto&& b) { return (three() | ops::start_with(FW(a), FW(b))).as_dynamic(); }, src::just(Now{}, V{7}), src::just(Now{}, V{8})));
    r.push_back(c("start_with values", {"7", "8", "1", "2", "3", "C"}, [](auto&& a, auto&& b) { return (three() | ops::start_with(FW(a), FW(b))).as_dynamic(); }, V{7}, V{8}));
    r.push_back(c("take_until", {"1", "2", "3", "C"}, [](auto&& a) { return (three() | ops::take_until(FW(a))).as_dynamic(); }, src::never<V>()));
    r.push_back(c("timeout", {"1", "2", "3", "C"}, [](auto&& a, auto&& s) { return (three() | ops::timeout(std::chrono::seconds{1}, FW(a), FW(s))).as_dynamic(); }, src::just(Now{}, V{7}), rpp::schedulers::current_thread{}));
    r.push_back(c("window_toggle", {"1", "2", "3", "C"}, [](auto&& a, auto&& f) { return (three() | ops::window_toggle(FW(a), FW(f)) | ops::merge()).as_dynamic(); }, src::just(Now{}, V{1}), Fn{[](V) { return src::never<V>(); }}));
    r.push_back(c("observe_on", {"1", "2", "3", "C"}, [](auto&& s) { return (three() | ops::observe_on(FW(s))).as_dynamic(); }, Now{}));
    r.push_back(c("subscribe_on", {"1", "2", "3", "C"}, [](auto&& s) { return (three() | ops::subscribe_on(FW(s))).as_dynamic(); }, Now{}));
    // sources
    r.push_back(c("defer", {"1", "2", "3", "C"}, [](auto&& f) { return src::defer(FW(f)).as_dynamic(); }, Fn{[] { return three(); }}));
    r.push_back(c("create", {"4", "C"}, [](auto&& f) { return src::create<V>(FW(f)).as_dynamic(); }, Fn{[](rpp::dynamic_observer<V> o) { o.on_next(4); o.on_completed(); }}));
    r.push_back(c("from_callable", {"4", "C"}, [](auto&& f) { return src::from_callable(FW(f)).as_dynamic(); }, Fn{[] { return V{4}; }}));
    r.push_back(c("just", {"4", "5", "C"}, [](auto&& a, auto&& b) { return src::just(Now{}, FW(a), FW(b)).as_dynamic(); }, V{4}, V{5}));
    r.push_back(c("just shared", {"4", "5", "C"}, [](auto&& a, auto&& b) { return src::just<rpp::memory_model::use_shared>(Now{}, FW(a), FW(b)).as_dynamic(); }, V{4}, V{5}));
    r.push_back(c("from_iterable vector", {"4", "5", "C"}, [](auto&& a) { return src::from_iterable(FW(a), Now{}).as_dynamic(); }, std::vector<V>{4, 5}));
    r.push_back(c("from_iterable list shared", {"4", "5", "C"}, [](auto&& a) { return src::from_iterable<rpp::memory_model::use_shared>(FW(a), Now{}).as_dynamic(); }, std::list<V>{4, 5}));
    r.push_back(c("concat two", {"1", "2", "3", "7", "C"}, [](auto&& a, auto&& b) { return src::concat(FW(a), FW(b)).as_dynamic(); }, three(), src::just(Now{}, V{7})));
    r.push_back(c("concat list", {"1", "2", "3", "1", "2", "3", "C"}, [](auto&& a) { return src::concat(FW(a)).as_dynamic(); }, std::vector{three(), three()}));
    r.push_back(c("concat list shared", {"1", "2", "3", "1", "2", "3", "C"}, [](auto&& a) { return src::concat<rpp::memory_model::use_shared>(FW(a)).as_dynamic(); }, std::vector{three(), three()}));
    r.push_back(c("stream of streams", {"1", "2", "3", "1", "2", "3", "C"}, [](auto&& a) { return (src::from_iterable(FW(a), Now{}) | ops::concat()).as_dynamic(); }, std::vector{three(), three()}));
    // the operator object and the stream it is applied to
    r.push_back(c("pipe", {"2", "3", "4", "C"}, [](auto&& o, auto&& p) { return (FW(o) | FW(p)).as_dynamic(); }, three(), ops::map(inc())));
    r.push_back(c("pipe chain", {"3", "4", "5", "C"}, [](auto&& o, auto&& p) { return (FW(o) | p | p).as_dynamic(); }, three(), ops::map(inc())));
    r.push_back(c("pipe flat_map", {"1", "10", "2", "20", "3", "30", "C"}, [](auto&& o, auto&& p) { return (FW(o) | FW(p)).as_dynamic(); }, three(), ops::flat_map(inner())));
    r.push_back(c("pipe repeat", {"1", "2", "3", "1", "2", "3", "C"}, [](auto&& o, auto&& p) { return (FW(o) | FW(p)).as_dynamic(); }, three(), ops::repeat(2)));
    r.push_back(c("pipe start_with", {"7", "1", "2", "3", "C"}, [](auto&& o, auto&& p) { return (FW(o) | FW(p)).as_dynamic(); }, three(), ops::start_with(V{7})));
    r.push_back(c("as_dynamic", {"1", "2", "3", "C"}, [](auto&& o) { return Dyn{FW(o)}; }, three()));
    return r;
}
SC("built_from_temporaries", "O07", .quick_bound = 0, .thorough_bound = 0)
{
    static const std::vector<Case> all = cases();
    const auto&                    k    = all[size_t(mc::choose(int(all.size())))];
    const int                      mode = mc::choose(3);
    const int                      copy = mc::choose(3); // subscribe the stream, a copy which outlives it, or a moved one
    auto                           one  = std::make_unique<Dyn>(k.make(mode));
    auto                           two  = copy == 0 ? nullptr : copy == 1 ? std::make_unique<Dyn>(*one) : std::make_unique<Dyn>(std::move(*one));
    if (two)
        one.reset();
    auto& o = two ? *two : *one;
    for (int i = 0; i < 2; ++i)
        if (auto got = collect(o); got != k.want)
        {
            std::string s;
            for (auto& g : got)
                s += g + " ";
            mc::fail(std::string{k.what} + (mode == 0 ? " built from rvalues" : mode == 1 ? " built from lvalues" : " built from const lvalues") + ", subscription " + std::to_string(i) + ": got " + s);
        }
};
} // namespace
