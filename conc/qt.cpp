// X02: Qt.  Every small program of tasks on the main thread scheduler, with an event loop which is turned by hand under a virtual clock, and every history
// of signals, subscriptions, cancellations and the end of the object for from_signal.
#include "bed.hpp"
#include <QBuffer>
#include <QCoreApplication>
#include <rppqt/schedulers/main_thread.hpp>
#include <rppqt/sources/from_signal.hpp>
namespace
{
using Main = rppqt::schedulers::main_thread_scheduler;
int choose(int n) { return mc::choose(n); }
struct App
{
    int                             argc = 1;
    char                            name[2]{'x', 0};
    char*                           argv[2]{name, nullptr};
    std::optional<QCoreApplication> app{};
    App() { app.emplace(argc, argv); }
};
struct Run
{
    int  task, k;
    long due, known, kt;
    bool post;
    long start = -1, end = -1, st = -1, et = -1;
    int  thread = -1;
};
bool turning = false; // the event loop is running
void turn()
{
    turning = true;
    QCoreApplication::processEvents();
    turning = false;
}
void settle_loop()
{
    for (int idle = 0; idle < 4;)
    {
        const auto before = mc::seq();
        turn();
        idle = before == mc::seq() ? idle + 1 : 0;
    }
}
void pump(int ms, long step = MS)
{
    for (long t = 0; t < ms * MS; t += step)
    {
        settle_loop();
        std::this_thread::sleep_for(std::chrono::nanoseconds{step});
    }
    settle_loop();
}
void check(Bed& b, bool exact)
{
    mc::Quiet         q;
    const long        INF = 1l << 60;
    std::vector<Run>  in;
    std::vector<int>  cur(b.t.size(), -1), nerr(b.t.size(), 0);
    std::vector<long> disp(b.t.size(), INF);
    auto              bad = [&](const std::string& m) { mc::fail(m + ":" + text(b)); };
    for (auto& e : mc::events())
    {
        const auto a = size_t(e.a);
        switch (e.code)
        {
            case K_SB:
                cur[a] = int(in.size());
                in.push_back({int(a), 0, e.b, long(e.seq), e.vtime, !b.t[a].abs && b.t[a].delay == 0});
                break;
            case K_RB: {
                if (cur[a] < 0 || in[size_t(cur[a])].start >= 0)
                    return bad("task " + std::to_string(a) + " ran more often than asked");
                auto& i  = in[size_t(cur[a])];
                i.start  = long(e.seq);
                i.st     = e.vtime;
                i.thread = e.thread;
                break;
            }
            case K_RE: {
                auto& i = in[size_t(cur[a])];
                i.end   = long(e.seq);
                i.et    = e.vtime;
                if (e.b >= 0)
                {
                    const int k = i.k + 1;
                    cur[a]      = int(in.size());
                    in.push_back({int(a), k, e.b, long(e.seq), e.vtime, false});
                }
                break;
            }
            case K_ERR:
                ++nerr[a];
                if (e.b != 1)
                    return bad("task " + std::to_string(a) + " got a foreign error");
                break;
            case K_DISP: disp[a] = std::min(disp[a], long(e.seq)); break;
            default: break;
        }
    }
    std::string out;
    for (auto& x : in)
        out += std::to_string(x.task) + "@" + std::to_string(x.st / MS) + " ";
    mc::outcome(out);
    for (auto& x : in)
    {
        const auto xs = "task " + std::to_string(x.task);
        if (x.start < 0)
        {
            if (disp[size_t(x.task)] == INF)
                bad(xs + " (run " + std::to_string(x.k) + ") was lost");
            continue;
        }
        if (x.end < 0)
            bad(xs + " did not return");
        if (x.thread != mc::tid())
            bad(xs + " ran in another thread");
        if (x.st < x.due)
            bad(xs + " ran too early");
        if (disp[size_t(x.task)] < x.start)
            bad("disposed " + xs + " ran");
        long free_at = 0;
        for (auto& y : in)
        {
            if (&x == &y)
                continue;
            const auto ys = "task " + std::to_string(y.task);
            if (y.start >= 0 && y.start < x.start && y.end > x.start)
                bad(ys + " and " + xs + " overlap");
            if (y.start >= 0 && y.start < x.start)
                free_at = std::max(free_at, y.et);
            if (disp[size_t(y.task)] < INF || (y.start >= 0 && y.start < x.start))
                continue;
            if (y.post && x.post && y.known < x.known)
                bad(xs + " ran before " + ys + " which was scheduled first");
            if (y.due + MS <= x.due && y.kt + MS <= x.due && y.kt <= y.due && free_at <= y.due)
                bad(xs + " ran before " + ys + " which was due first");
        }
        if (exact && disp[size_t(x.task)] == INF)
            if (const long want = std::max({x.due, x.kt, free_at}); x.st > want)
                bad(xs + " ran at " + std::to_string(x.st / MS) + " ms instead of " + std::to_string(want / MS) + " ms");
    }
    for (size_t i = 0; i < b.t.size(); ++i)
    {
        bool thrown = false;
        for (auto& x : in)
            thrown |= x.task == int(i) && x.k == b.t[i].reps && x.end >= 0 && b.t[i].throws;
        if (nerr[i] != int(thrown))
            bad("handler of task " + std::to_string(i) + " got " + std::to_string(nerr[i]) + " errors");
    }
}
void shape(Task& x, int c)
{
    switch (c)
    {
        case 0: break;
        case 1: x.rep = NOW, x.reps = 2, x.rep_delay = 0; break;
        case 2: x.rep = NOW, x.reps = 1, x.rep_delay = 1; break;
        case 3: x.rep = THIS, x.reps = 2, x.rep_delay = 2; break;
        case 4: x.rep = TO, x.reps = 1, x.rep_delay = 1; break;
        case 5: x.throws = true; break;
        case 6: x.abs = true; break;
        case 7: x.rep = THIS, x.reps = 1, x.rep_delay = 2, x.work = 1; break;
    }
}
void program(int n, bool inside)
{
    App  app;
    Bed  b;
    auto w = Main::create_worker();
    b.add({});
    const int extra = n + 1;
    auto      in_loop = [](std::function<void(int)> f) {
        return [f](int r) {
            if (!turning)
                mc::fail("a task runs outside of the event loop");
            if (f)
                f(r);
        };
    };
    for (int i = 0; i < n; ++i)
    {
        Task x;
        x.delay = choose(3);
        x.work  = i == 0 ? choose(2) : 0;
        std::function<void(int)> body{};
        if (i == 0 && choose(2))
            switch (choose(4))
            {
                case 0: body = [&b, w, extra](int) { b.put(w, extra); }; break;
                case 1: body = [&b, n](int) { b.dispose(n); }; break;
                case 2: x.rep = NOW, x.reps = 2, x.rep_delay = 1, body = [&b](int r) { if (r == 1) b.dispose(1); }; break;
                case 3: body = [&b, w, extra](int) { b.put(w, extra); b.dispose(extra); }; break;
            }
        else
            shape(x, choose(8));
        x.body = in_loop(body);
        b.add(std::move(x));
    }
    Task x;
    x.delay = n < 3 ? choose(2) : 0;
    shape(x, n < 3 ? choose(6) : choose(2));
    x.body = in_loop({});
    b.add(std::move(x));
    auto all = [&](int) {
        for (int i = 1; i <= n; ++i)
            b.put(w, i);
    };
    if (inside)
    {
        b.t[0].body = all;
        b.put(w, 0);
    }
    else
        all(0);
    pump(14);
    check(b, true);
}
SC("main_programs_1", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true) { program(1, true); };
SC("main_programs_2", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true, .weight = 4) { program(2, true); };
SC("main_programs_2_outside", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true, .weight = 4) { program(2, false); };
SC("main_programs_3", "X02", .quick_bound = -1, .thorough_bound = 0, .fork_each = true, .weight = 20) { program(3, true); };

// delays which are not whole milliseconds, and long ones
struct Quiet2
{
    bool is_disposed() const { return false; }
    void on_error(const std::exception_ptr&) const { mc::fail("error"); }
};
void instants(const std::vector<long>& delays_us, int n, long step_us, long total_ms, bool offset)
{
    App               app;
    std::vector<long> due, ran;
    if (offset)
        std::this_thread::sleep_for(std::chrono::microseconds{choose(2) ? 300 : 700});
    auto w = Main::create_worker();
    due.resize(size_t(n));
    ran.assign(size_t(n), -1);
    for (int i = 0; i < n; ++i)
    {
        const long d  = delays_us[size_t(choose(int(delays_us.size())))];
        due[size_t(i)] = mc::vnow() + d * 1000;
        w.schedule(std::chrono::microseconds{d}, [&ran, &due, i](const Quiet2&) -> rpp::schedulers::optional_delay_from_now {
            if (mc::vnow() < due[size_t(i)])
                mc::fail("a task ran too early by " + std::to_string((due[size_t(i)] - mc::vnow()) / 1000) + " us");
            ran[size_t(i)] = mc::vnow();
            return std::nullopt; }, Quiet2{});
    }
    pump(int(total_ms), step_us * 1000);
    for (int i = 0; i < n; ++i)
    {
        if (ran[size_t(i)] < 0)
            mc::fail("a task was lost");
        for (int j = 0; j < n; ++j)
            if (due[size_t(i)] + MS <= due[size_t(j)] && ran[size_t(i)] > ran[size_t(j)])
                mc::fail("a task ran before a task which was due first");
    }
}
SC("main_parts_of_ms", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true) { instants({0, 300, 1000, 1500, 2700, -1000}, 3, 100, 4, true); };
SC("main_long_delays", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true) { instants({1999000, 2000000, 2003000, 10001000, 9999000, 61000000}, 2, 1000 * 333, 65000, true); };
SC("main_no_application", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true)
{
    struct H
    {
        int* n;
        bool is_disposed() const { return false; }
        void on_error(const std::exception_ptr& e) const
        {
            try
            {
                std::rethrow_exception(e);
            }
            catch (const rppqt::utils::no_active_qapplication&)
            {
                ++*n;
            }
        }
    };
    int  n = 0;
    auto f = [](const H&) -> rpp::schedulers::optional_delay_from_now { mc::fail("ran without an application"); return std::nullopt; };
    auto w = Main::create_worker();
    switch (choose(3))
    {
        case 0: w.schedule(f, H{&n}); break;
        case 1: w.schedule(milliseconds{1}, f, H{&n}); break;
        case 2: w.schedule(sch::clock_type::now(), f, H{&n}); break;
    }
    if (n != 1)
        mc::fail("no error without an application");
};
// tasks come from another thread
SC("main_from_another_thread", "X02", .quick_bound = 1, .thorough_bound = 2, .fork_each = true)
{
    App app;
    Bed b;
    b.add({}), b.add({});
    for (auto& x : b.t)
    {
        x.delay = choose(3);
        shape(x, choose(7));
    }
    Th t{[&] {
        b.put(Main::create_worker(), 0);
        b.put(Main::create_worker(), 1);
    }};
    if (choose(2))
        turn();
    t.join();
    pump(8);
    check(b, false);
};

// ---------------------------------------------------------------- from_signal
template<class Sig, class Emit, class Show>
void histories(int depth, int budget, Sig sig, Emit emit_it, Show show)
{
    App                    app;
    auto                   object = std::make_unique<QBuffer>();
    auto                   other  = std::make_unique<QBuffer>(); // signals of other objects don't matter
    constexpr int          OBS    = 3;
    auto                   stream = rppqt::source::from_signal(*object, sig);
    auto                   copy   = stream;
    struct Ob
    {
        rpp::composite_disposable_wrapper d = rpp::composite_disposable_wrapper::make();
        int                               st = 0; // 1: subscribed, 2: over
        std::vector<std::string>          got{}, want{};
    };
    std::deque<Ob>                               ob(OBS);
    int                                          next = 0, left = budget;
    long                                         v = 1;
    std::string                                  trace;
    std::vector<std::vector<std::pair<int, std::string>>> frames; // still to be delivered
    std::function<void(bool)>                    act;
    auto                                         bad = [&](const std::string& m) { mc::fail("[" + trace + "] " + m); };
    auto                                         got = [&](int i, const std::string& s) {
        trace += std::to_string(i) + "<" + s + " ";
        auto& o = ob[size_t(i)];
        if (o.st != 1)
            bad("received something after the end");
        if (!turning)
        {
        }
        bool ok = false;
        if (!frames.empty())
        {
            auto& f  = frames.back();
            auto  it = std::find(f.begin(), f.end(), std::pair{i, s});
            if (it != f.end())
            {
                f.erase(it);
                ok = true;
            }
        }
        if (!ok)
            bad("received " + s + " out of order");
        if (s == "C")
            o.st = 2;
        if (left)
            act(true);
    };
    auto emission = [&](const std::string& s, auto f) {
        frames.emplace_back();
        for (int i = 0; i < OBS; ++i)
            if (ob[size_t(i)].st == 1)
                frames.back().emplace_back(i, s);
        f();
        for (auto& [i, w] : frames.back())
            if (ob[size_t(i)].st == 1)
                bad("observer " + std::to_string(i) + " did not receive " + w);
        frames.pop_back();
    };
    act = [&](bool inside) {
        std::vector<std::pair<int, int>> as{{0, 0}};
        if (next < OBS)
            as.push_back({1, next});
        for (int i = 0; i < OBS; ++i)
            if (ob[size_t(i)].st == 1)
                as.push_back({2, i});
        if (object)
        {
            as.push_back({3, 0});
            if (!inside)
                as.push_back({4, 0});
        }
        if (!inside)
            as.push_back({5, 0});
        const auto [what, i] = as[size_t(choose(int(as.size())))];
        if (inside && what)
            --left;
        switch (what)
        {
            case 1: {
                const int k = next++;
                trace += "join" + std::to_string(k) + " ";
                ob[size_t(k)].st = 1;
                auto join = [&] {
                    (k % 2 ? copy : stream).subscribe(ob[size_t(k)].d, [&got, k, show](const auto& x) { got(k, show(x)); }, [&bad](const std::exception_ptr&) { bad("error"); }, [&got, k] { got(k, "C"); });
                };
                if (object)
                    join();
                else
                {
                    frames.push_back({{k, "C"}});
                    join();
                    if (ob[size_t(k)].st == 1)
                        bad("a late observer did not receive the completion");
                    frames.pop_back();
                }
                break;
            }
            case 2:
                trace += "leave" + std::to_string(i) + " ";
                ob[size_t(i)].st = 2;
                ob[size_t(i)].d.dispose();
                break;
            case 3: {
                const long x = v++;
                trace += "emit" + std::to_string(x) + " ";
                emission(emit_it(nullptr, x), [&] { emit_it(object.get(), x); });
                break;
            }
            case 4:
                trace += "destroy ";
                emission("C", [&] { object.reset(); });
                break;
            case 5: emit_it(other.get(), 99); break;
        }
    };
    for (int i = 0; i < depth; ++i)
        act(false);
    mc::outcome(trace.substr(0, 40));
    other.reset();
    if (object)
        emission("C", [&] { object.reset(); });
}
void one(int depth, int budget)
{
    histories(
        depth, budget, &QBuffer::bytesWritten,
        [](QBuffer* b, long v) { if (b) emit b->bytesWritten(v); return std::to_string(v); },
        [](qint64 v) { return std::to_string(v); });
}
void two(int depth, int budget)
{
    histories(
        depth, budget, &QBuffer::channelBytesWritten,
        [](QBuffer* b, long v) { if (b) emit b->channelBytesWritten(int(v), v * 10); return std::to_string(v) + "," + std::to_string(v * 10); },
        [](const std::tuple<int, qint64>& v) { return std::to_string(std::get<0>(v)) + "," + std::to_string(std::get<1>(v)); });
}
void none(int depth, int budget)
{
    histories(
        depth, budget, &QBuffer::aboutToClose,
        [](QBuffer* b, long) { if (b) emit b->aboutToClose(); return std::string{"-"}; },
        [](rpp::utils::none) { return std::string{"-"}; });
}
#define SIG(name)                                                                                                                                     \
    SC("signal_" #name "_histories", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true) { name(mc::thorough() ? 6 : 5, 0); };           \
    SC("signal_" #name "_reentrant", "X02", .quick_bound = 0, .thorough_bound = 0, .fork_each = true) { name(mc::thorough() ? 5 : 4, 1); };
SIG(one)
SIG(two)
SIG(none)
} // namespace
