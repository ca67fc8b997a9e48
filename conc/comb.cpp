// C01 / C02: combining streams fed by several threads.
#include "h.hpp"
using namespace h;
namespace ops = rpp::operators;
namespace
{
auto N(long v) { return Ev{'N', v}; }
auto E(long v) { return Ev{'E', v}; }
auto C() { return Ev{'C', 0}; }
using Th = std::thread;

// Drives `k` sources from one thread each and checks against the model.
template<class Mod, class Sub>
void run2(const Mod& m, std::vector<Ev> a, std::vector<Ev> b, Sub&& sub, const Out* exact = nullptr)
{
    Src<V> s0{0}, s1{1};
    sub(s0, s1);
    Th t{[&] { s1.play(b); }};
    s0.play(a);
    t.join();
    check_model(m, exact);
}
template<class Mod, class Sub>
void run3(const Mod& m, std::vector<Ev> a, std::vector<Ev> b, std::vector<Ev> c, Sub&& sub)
{
    Src<V> s0{0}, s1{1}, s2{2};
    sub(s0, s1, s2);
    Th t{[&] { s1.play(b); }};
    Th u{[&] { s2.play(c); }};
    s0.play(a);
    t.join();
    u.join();
    check_model(m);
}

auto merge2   = [](auto& a, auto& b) { Sink<>{}.subscribe(a.observable() | ops::merge_with(b.observable())); };
auto merge3   = [](auto& a, auto& b, auto& c) { Sink<>{}.subscribe(a.observable() | ops::merge_with(b.observable(), c.observable())); };
auto sel      = [](V x, V y) { return x * 100 + y; };
auto sel3     = [](V x, V y, V z) { return (x * 100 + y) * 100 + z; };
auto cl2      = [](auto& a, auto& b) { Sink<>{}.subscribe(a.observable() | ops::combine_latest(sel, b.observable())); };
auto cl3      = [](auto& a, auto& b, auto& c) { Sink<>{}.subscribe(a.observable() | ops::combine_latest(sel3, b.observable(), c.observable())); };
auto zip2     = [](auto& a, auto& b) { Sink<>{}.subscribe(a.observable() | ops::zip(sel, b.observable())); };
auto zip3     = [](auto& a, auto& b, auto& c) { Sink<>{}.subscribe(a.observable() | ops::zip(sel3, b.observable(), c.observable())); };
auto wlf2     = [](auto& a, auto& b) { Sink<>{}.subscribe(a.observable() | ops::with_latest_from(sel, b.observable())); };
auto wlf3     = [](auto& a, auto& b, auto& c) { Sink<>{}.subscribe(a.observable() | ops::with_latest_from(sel3, b.observable(), c.observable())); };
auto tu2      = [](auto& a, auto& b) { Sink<>{}.subscribe(a.observable() | ops::take_until(b.observable())); };
// symmetric through an observable of observables
auto mergeoo  = [](auto& a, auto& b) { Sink<>{}.subscribe(rpp::source::just(a.observable().as_dynamic(), b.observable().as_dynamic()) | ops::merge()); };

#define CC "C01 C02"
SC("merge2_next_completed", CC) { run2(ref::Merge{2}, {N(1), N(2), C()}, {N(11), N(12), C()}, merge2); };
SC("merge2_error_value", CC) { run2(ref::Merge{2}, {N(1), E(1)}, {N(11), N(12), C()}, merge2); };
SC("merge2_error_error", CC) { run2(ref::Merge{2}, {N(1), E(1)}, {N(11), E(2)}, merge2); };
SC("merge2_completed_only", CC) { run2(ref::Merge{2}, {C()}, {N(11), C()}, merge2); };
SC("merge3", CC, .quick_bound = 2) { run3(ref::Merge{3}, {N(1), C()}, {N(11), C()}, {N(21), C()}, merge3); };
SC("merge3_error", CC, .quick_bound = 2) { run3(ref::Merge{3}, {N(1), C()}, {N(11), E(1)}, {N(21), N(22)}, merge3); };
SC("merge_observables2", CC) { run2(ref::Merge{2}, {N(1), N(2), C()}, {N(11), C()}, mergeoo); };

SC("combine_latest2", CC) { run2(ref::CombineLatest{2}, {N(1), N(2), C()}, {N(11), N(12), C()}, cl2); };
SC("combine_latest2_error", CC) { run2(ref::CombineLatest{2}, {N(1), N(2), E(1)}, {N(11), N(12), C()}, cl2); };
SC("combine_latest2_errors", CC) { run2(ref::CombineLatest{2}, {N(1), E(1)}, {N(11), E(2)}, cl2); };
SC("combine_latest3", CC, .quick_bound = 2) { run3(ref::CombineLatest{3}, {N(1), N(2), C()}, {N(11), C()}, {N(21), C()}, cl3); };

SC("zip2", CC) { run2(ref::Zip{2}, {N(1), N(2), C()}, {N(11), N(12), C()}, zip2); };
SC("zip2_uneven", CC) { run2(ref::Zip{2}, {N(1), C()}, {N(11), N(12), N(13), C()}, zip2); };
SC("zip2_error", CC) { run2(ref::Zip{2}, {N(1), N(2), E(1)}, {N(11), N(12), C()}, zip2); };
SC("zip3", CC, .quick_bound = 2) { run3(ref::Zip{3}, {N(1), C()}, {N(11), C()}, {N(21), C()}, zip3); };

SC("with_latest_from2", CC) { run2(ref::WithLatest{2}, {N(1), N(2), C()}, {N(11), N(12), C()}, wlf2); };
SC("with_latest_from2_error", CC) { run2(ref::WithLatest{2}, {N(1), N(2), C()}, {N(11), E(1)}, wlf2); };
SC("with_latest_from3", CC, .quick_bound = 2) { run3(ref::WithLatest{3}, {N(1), N(2), C()}, {N(11), N(12)}, {N(21), E(1)}, wlf3); };

SC("take_until_value", CC) { run2(ref::TakeUntil{}, {N(1), N(2), C()}, {N(11)}, tu2); };
SC("take_until_error", CC) { run2(ref::TakeUntil{}, {N(1), N(2), C()}, {E(1)}, tu2); };
SC("take_until_completed", CC) { run2(ref::TakeUntil{}, {N(1), E(2)}, {C()}, tu2); };
SC("take_until_errors", CC) { run2(ref::TakeUntil{}, {N(1), E(2)}, {N(11), E(1)}, tu2); };

// ---------------------------------------------------------------- higher order: the outer source emits ids of inner sources
struct Inner
{
    std::vector<Ev> script;
    bool            threaded;
};
// outer emits ids 1..n then completes (or fails); inner ids < 10, inner values = id*10+i
template<class Mod, class Sub>
void higher(const Mod& m, std::vector<Inner> inners, std::vector<Ev> outer, bool all_subscribed, Sub&& sub, const Out* exact = nullptr)
{
    std::vector<rpp::dynamic_observable<V>> obs;
    for (size_t i = 0; i < inners.size(); ++i)
        obs.push_back(cold(int(i) + 1, inners[i].script, inners[i].threaded));
    Src<V> s0{0};
    sub(s0, obs);
    s0.play(outer);
    mc::settle();
    auto      hh = check_model(m, exact);
    mc::Quiet q;
    if (all_subscribed && mc::is("C02"))
        for (size_t i = 0; i < inners.size(); ++i)
            if (count(SUB, long(i) + 1) != 1)
                mc::fail("inner source " + std::to_string(i + 1) + " was subscribed " + std::to_string(count(SUB, long(i) + 1)) + " times: " + describe(hh));
}
template<class T>
auto pick(const T& obs)
{
    return [&obs](V v) -> rpp::dynamic_observable<V> { return obs[size_t(v - 1)]; };
}
auto flat    = [](auto& s, auto& obs) { Sink<>{}.subscribe(s.observable() | ops::flat_map(pick(obs))); };
auto concat_ = [](auto& s, auto& obs) { Sink<>{}.subscribe(s.observable() | ops::map(pick(obs)) | ops::concat()); };
auto switch_ = [](auto& s, auto& obs) { Sink<>{}.subscribe(s.observable() | ops::map(pick(obs)) | ops::switch_on_next()); };

SC("flat_map_threads", CC, .quick_bound = 2)
{
    higher(ref::FlatMap{2}, {{{N(11), C()}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}, true, flat);
};
SC("flat_map_mixed", CC)
{
    higher(ref::FlatMap{2}, {{{N(11), N(12), C()}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}, true, flat);
};
SC("flat_map_inner_error", CC)
{
    higher(ref::FlatMap{2}, {{{N(11), E(1)}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}, false, flat);
};
SC("flat_map_outer_error", CC)
{
    higher(ref::FlatMap{1}, {{{N(11), N(12), C()}, true}}, {N(1), E(1)}, false, flat);
};
const Out seq3{{'N', 11}, {'N', 21}, {'N', 31}, {'C', 0}};
const Out seq2{{'N', 11}, {'N', 12}, {'N', 21}, {'C', 0}};
SC("concat_threads", CC, .quick_bound = 2)
{
    higher(ref::Concat{3}, {{{N(11), C()}, true}, {{N(21), C()}, true}, {{N(31), C()}, true}}, {N(1), N(2), N(3), C()}, true, concat_, &seq3);
};
SC("concat_threaded_then_sync", CC)
{
    higher(ref::Concat{2}, {{{N(11), N(12), C()}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}, true, concat_, &seq2);
};
SC("concat_sync_then_threaded", CC)
{
    higher(ref::Concat{3}, {{{N(11), C()}, false}, {{N(21), C()}, true}, {{N(31), C()}, false}}, {N(1), N(2), N(3), C()}, true, concat_, &seq3);
};
SC("concat_empty_inner", CC)
{
    higher(ref::Concat{2}, {{{C()}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}, true, concat_);
};
SC("concat_outer_error", CC)
{
    higher(ref::Concat{1}, {{{N(11), N(12), C()}, true}}, {N(1), E(1)}, false, concat_);
};
SC("concat_inner_error", CC)
{
    higher(ref::Concat{2}, {{{N(11), E(1)}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}, false, concat_);
};
SC("switch_threads", CC, .quick_bound = 2)
{
    higher(ref::Switch{2}, {{{N(11), C()}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}, true, switch_);
};
SC("switch_error_then_sync", CC)
{
    higher(ref::Switch{2}, {{{N(11), E(1)}, true}, {{N(21), N(22), C()}, false}}, {N(1), N(2), C()}, false, switch_);
};
SC("switch_error_then_silent", CC)
{
    higher(ref::Switch{2}, {{{E(1)}, true}, {{N(21)}, false}}, {N(1), N(2)}, false, switch_);
};
SC("switch_both_errors", CC, .quick_bound = 2)
{
    higher(ref::Switch{2}, {{{E(1)}, true}, {{N(21), E(2)}, true}}, {N(1), N(2), C()}, false, switch_);
};
SC("switch_threaded_then_sync", CC)
{
    higher(ref::Switch{2}, {{{N(11), N(12), C()}, true}, {{N(21), C()}, false}}, {N(1), N(2), C()}, true, switch_);
};
SC("switch_single", CC)
{
    higher(ref::Switch{1}, {{{N(11), C()}, true}}, {N(1), C()}, true, switch_);
};
SC("switch_inner_error", CC)
{
    higher(ref::Switch{2}, {{{N(11), E(1)}, true}, {{N(21), C()}, true}}, {N(1), N(2), C()}, false, switch_);
};
SC("switch_outer_error", CC)
{
    higher(ref::Switch{1}, {{{N(11), N(12), C()}, true}}, {N(1), E(1)}, false, switch_);
};
} // namespace
