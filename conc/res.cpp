// O08: a stream which goes through any number of inner streams or subscriptions lets go of each of them when that one is over, and not only
// when the whole stream ends: every history of events of the outer stream and of all inner ones; after every step each inner subscription
// which ended (by itself or because it was cancelled) has to have released whatever it attached to its observer.
#include "rig.hpp"
#include <rpp/operators/concat.hpp>
#include <rpp/operators/flat_map.hpp>
#include <rpp/operators/group_by.hpp>
#include <rpp/operators/merge.hpp>
#include <rpp/operators/on_error_resume_next.hpp>
#include <rpp/operators/repeat.hpp>
#include <rpp/operators/retry.hpp>
#include <rpp/operators/retry_when.hpp>
#include <rpp/operators/switch_on_next.hpp>
#include <rpp/operators/window.hpp>
#include <rpp/operators/window_toggle.hpp>
namespace
{
namespace op = rpp::operators;
constexpr int MAXS = 80;
struct Slot
{
    int                                        what = 0; // 0 outer, 1 inner, 2 another inner
    std::optional<rpp::dynamic_observer<long>> obs{};
    bool                                       over = false, cut = false;
    int                                        tok = 0;
};
struct World
{
    Slot        slot[MAXS];
    int         n = 0, budget = 3, sync_budget = 1;
    int         mode[3]{}; // how subscriptions of a kind behave: 0 live, 1 ends at once with what is chosen
    std::string trace{};
};
World* W;
RIG_UNTRACKED void bump(int& x, int d) { x += d; }
struct Tok
{
    int i;
    explicit Tok(int i) : i(i) { bump(W->slot[i].tok, 1); }
    Tok(const Tok& o) : i(o.i) { bump(W->slot[i].tok, 1); }
    Tok(Tok&& o) noexcept : i(o.i) { bump(W->slot[i].tok, 1); }
    ~Tok() { bump(W->slot[i].tok, -1); }
};
void send(int i, char k)
{
    auto& s = W->slot[i];
    W->trace += (s.what == 0 ? "outer" : s.what == 1 ? "inner" : "other") + std::to_string(i) + "." + k + " ";
    if (k == 'N')
    {
        auto o = *s.obs;
        o.on_next(i);
        return;
    }
    s.over = true;
    auto o = std::move(*s.obs);
    s.obs.reset();
    if (k == 'C')
        o.on_completed();
    else
        o.on_error(h::make_error());
}
auto source(int what)
{
    return rpp::source::create<long>([what]<class O>(O&& obs) {
        if (W->n == MAXS)
            mc::fail("harness: too many subscriptions");
        const int i          = W->n++;
        W->slot[i].what      = what;
        rpp::dynamic_observer<long> o{std::forward<O>(obs).as_dynamic()};
        o.set_upstream(rpp::make_callback_disposable([i, t = Tok{i}]() noexcept { W->slot[i].cut = true; }));
        if (W->slot[i].cut)
            return;
        W->slot[i].obs = o;
        if (W->sync_budget > 0 && what != 0)
        {
            const int c = mc::choose(3);
            if (c)
            {
                --W->sync_budget;
                send(i, c == 1 ? 'C' : 'E');
            }
        }
    });
}
auto sink(int who = -1)
{
    return [who](auto&&...) { (void)who; };
}
void settle()
{
    for (int i = 0; i < W->n; ++i)
        if (W->slot[i].cut && W->slot[i].obs)
            W->slot[i].obs.reset();
    for (int i = 0; i < W->n; ++i)
        if ((W->slot[i].over || W->slot[i].cut) && W->slot[i].tok)
            mc::fail("after [" + W->trace + "] the subscription " + std::to_string(i) + " is over, but what it attached to its observer isn't released");
}
// `make(subscribe)` subscribes to the stream under test
template<class Make>
void run(const Make& make, int depth)
{
    World w;
    W = &w;
    {
        auto d = rpp::composite_disposable_wrapper::make();
        make(d);
        settle();
        for (int s = 0; s < depth; ++s)
        {
            std::vector<std::pair<int, char>> ops;
            for (int i = 0; i < w.n; ++i)
                if (w.slot[i].obs)
                    for (char k : {'N', 'C', 'E'})
                        ops.emplace_back(i, k);
            const int c = mc::choose(int(ops.size()) + 2);
            if (c == 0)
                break;
            if (c == 1)
            {
                w.trace += "cancel ";
                d.dispose();
                d = rpp::composite_disposable_wrapper::empty();
                settle();
                for (int i = 0; i < w.n; ++i)
                    if (w.slot[i].obs)
                        mc::fail("after [" + w.trace + "] the subscription " + std::to_string(i) + " isn't stopped");
                break;
            }
            send(ops[size_t(c - 2)].first, ops[size_t(c - 2)].second);
            settle();
        }
        d.dispose();
    }
    settle();
    mc::outcome(w.trace);
    for (auto& s : w.slot)
        s.obs.reset();
    for (auto& s : w.slot)
        if (s.tok)
            mc::fail("after [" + w.trace + "cancel] something isn't released");
    W = nullptr;
}
// A history and a cycle of events after which the same kinds of subscriptions are open: however often the cycle is gone through, the stream
// doesn't hold more and more memory.
template<class Make>
void cycles(const Make& make, int prefix, int length)
{
    World w;
    w.trace.reserve(8192);
    W             = &w;
    w.sync_budget = 0;
    {
        auto d = rpp::composite_disposable_wrapper::make();
        make(d);
        settle();
        auto open = [&] {
            std::string s;
            for (int i = 0; i < w.n; ++i)
                if (w.slot[i].obs)
                    s += char('0' + w.slot[i].what);
            return s;
        };
        auto step = [&](int c) { // c-th of the possible events, if there are as many
            for (int i = 0; i < w.n; ++i)
                if (w.slot[i].obs)
                {
                    if (c < 3)
                    {
                        send(i, "NCE"[c]);
                        settle();
                        return true;
                    }
                    c -= 3;
                }
            return false;
        };
        bool stop = false;
        for (int s = 0; s < prefix && !stop; ++s)
        {
            const int c = mc::choose(int(open().size()) * 3 + 1);
            if (c)
                step(c - 1);
            else
                stop = true;
        }
        w.trace += "| ";
        const std::string start = open();
        std::vector<int>  cycle;
        while (int(cycle.size()) < length && !open().empty())
        {
            const int c = mc::choose(int(open().size()) * 3);
            cycle.push_back(c);
            step(c);
            if (open() == start)
                break;
        }
        if (!cycle.empty() && open() == start)
        {
            w.trace += "(again and again)";
            const size_t shown = w.trace.size();
            bool         same  = true;
            long         at    = 0;
            constexpr int WARM = 2, REPS = 6;
            for (int r = 0; r < WARM + REPS && same; ++r)
            {
                if (r == WARM)
                    at = mc::live_blocks();
                for (int c : cycle)
                    same = same && step(c);
                same = same && open() == start;
                w.trace.resize(shown);
            }
            if (same && mc::live_blocks() - at >= REPS)
                mc::fail("[" + w.trace + "] the stream holds more and more memory: " + std::to_string(mc::live_blocks() - at) + " blocks more after " + std::to_string(REPS) + " times");
        }
        mc::outcome(w.trace);
        d.dispose();
    }
    settle();
    for (auto& s : w.slot)
        s.obs.reset();
    W = nullptr;
}
const auto nothing = [](const auto&...) {};
#define RES(name, ...)                                                                             \
    SC("finished_" name, "O08", .quick_bound = 0, .thorough_bound = 0)                             \
    {                                                                                              \
        run([](const rpp::composite_disposable_wrapper& d) { (__VA_ARGS__).subscribe(d, nothing, [](const std::exception_ptr&) {}, [] {}); }, mc::thorough() ? 9 : 7); \
    };                                                                                             \
    SC("cycles_" name, "O08", .quick_bound = 0, .thorough_bound = 0)                               \
    {                                                                                              \
        cycles([](const rpp::composite_disposable_wrapper& d) { (__VA_ARGS__).subscribe(d, nothing, [](const std::exception_ptr&) {}, [] {}); }, mc::thorough() ? 4 : 3, mc::thorough() ? 5 : 4); \
    };
RES("merge", source(0) | op::map([](long) { return source(1); }) | op::merge())
RES("merge_with", source(0) | op::merge_with(source(1), source(2)))
RES("flat_map", source(0) | op::flat_map([](long) { return source(1); }))
RES("concat", source(0) | op::map([](long) { return source(1); }) | op::concat())
RES("switch_on_next", source(0) | op::map([](long) { return source(1); }) | op::switch_on_next())
RES("retry", source(0) | op::retry())
RES("retry_2", source(1) | op::retry(2))
RES("repeat", source(0) | op::repeat())
RES("repeat_2", source(1) | op::repeat(2))
RES("retry_when", source(0) | op::retry_when([](const std::exception_ptr&) { return source(1); }))
RES("retry_when_at_once", source(1) | op::retry_when([](const std::exception_ptr&) { return source(0); }))
RES("on_error_resume_next", source(0) | op::on_error_resume_next([](const std::exception_ptr&) { return source(1); }))
RES("source_concat", rpp::source::concat(source(0), source(1), source(2)))
RES("merge_of_concat", source(0) | op::map([](long) { return rpp::source::concat(source(1), source(2)); }) | op::merge())
RES("merge_of_retry", source(0) | op::map([](long) { return source(1) | op::retry(2); }) | op::merge())
RES("concat_of_merge", source(0) | op::map([](long) { return source(1) | op::merge_with(source(2)); }) | op::concat())
RES("switch_of_flat_map", source(0) | op::map([](long) { return source(1) | op::flat_map([](long) { return source(2); }); }) | op::switch_on_next())
// the windows' subscribers and closings
#define IN(...) op::map([](const auto& w) { return w | op::map([](long v) { return v; }); }) | op::merge()
RES("window_toggle", source(0) | op::window_toggle(source(1), [](long) { return source(2); }) | IN())
RES("window", source(0) | op::window(2) | IN())
RES("group_by_take", source(0) | op::group_by([](long v) { return v % 2; }) | IN())
} // namespace
