// X01: the asio strand scheduler.  Every small program of tasks (with delays, repetition, nesting - also on the current thread -, disposal and failure)
// on a context which is polled by hand under a virtual clock; and several threads which feed and poll one context under every interleaving up to a bound.
#define ASIO_DISABLE_EPOLL 1 // timers are looked up on every poll (no timerfd, which follows the real clock)
#include "bed.hpp"
#include <asio/io_context.hpp>
#include <rppasio/schedulers/strand.hpp>
namespace
{
using Strand = rppasio::schedulers::strand;
int choose(int n) { return mc::choose(n); }

struct Run
{
    int  task, k;
    long due;   // when it is due
    long known; // event number since when it is known to the worker
    long kt;    // ... and the time
    bool post;  // scheduled for now: no timer
    long start = -1, end = -1, st = -1, et = -1;
    int  thread = -1;
    int  by = -1; // thread which scheduled it
};
// exact: one thread polls, and polls whenever something is due
void check(Bed& b, const std::vector<bool>& here, bool exact)
{
    mc::Quiet         q;
    const long        INF = 1l << 60;
    std::vector<Run>  in;
    std::vector<int>  cur(b.t.size(), -1), nerr(b.t.size(), 0);
    std::vector<long> disp(b.t.size(), INF);
    auto              bad = [&](const std::string& m) { mc::fail(m + ":" + text(b)); };
    for (auto& e : mc::events())
    {
        const auto a = size_t(e.a);
        switch (e.code)
        {
            case K_SB:
                cur[a] = int(in.size());
                in.push_back({int(a), 0, e.b, long(e.seq), e.vtime, !b.t[a].abs && b.t[a].delay == 0 && !here[a]});
                in.back().by = e.thread;
                break;
            case K_RB: {
                if (cur[a] < 0 || in[size_t(cur[a])].start >= 0)
                    return bad("task " + std::to_string(a) + " ran more often than asked");
                auto& i  = in[size_t(cur[a])];
                i.start  = long(e.seq);
                i.st     = e.vtime;
                i.thread = e.thread;
                break;
            }
            case K_RE: {
                auto& i = in[size_t(cur[a])];
                i.end   = long(e.seq);
                i.et    = e.vtime;
                if (e.b >= 0)
                {
                    const int k = i.k + 1;
                    cur[a]      = int(in.size());
                    in.push_back({int(a), k, e.b, long(e.seq), e.vtime, false});
                }
                break;
            }
            case K_ERR:
                ++nerr[a];
                if (e.b != 1)
                    return bad("task " + std::to_string(a) + " got a foreign error");
                break;
            case K_DISP: disp[a] = std::min(disp[a], long(e.seq)); break;
            default: break;
        }
    }
    std::string out;
    for (auto& x : in)
        out += std::to_string(x.task) + "@" + std::to_string(x.st / MS) + " ";
    mc::outcome(out);
    for (auto& x : in)
    {
        const auto xs = "task " + std::to_string(x.task);
        if (x.start < 0)
        {
            if (disp[size_t(x.task)] == INF)
                bad(xs + " (run " + std::to_string(x.k) + ") was lost");
            continue;
        }
        if (x.end < 0)
            bad(xs + " did not return");
        if (x.st < x.due)
            bad(xs + " ran too early");
        if (disp[size_t(x.task)] < x.start && (exact || disp[size_t(x.task)] < x.known))
            bad("disposed " + xs + " ran");
        long free_at = 0;
        for (auto& y : in)
        {
            if (b.worker[size_t(y.task)] != b.worker[size_t(x.task)] || &x == &y)
                continue;
            const auto ys = "task " + std::to_string(y.task);
            if (y.start >= 0 && y.start < x.start && y.end > x.start)
                bad(ys + " and " + xs + " overlap");
            if (y.start >= 0 && y.start < x.start)
                free_at = std::max(free_at, y.et);
            if (disp[size_t(y.task)] < INF || (y.start >= 0 && y.start < x.start))
                continue;
            // y has not run before x
            if (y.post && x.post && y.known < x.known && (exact || x.by == y.by))
                bad(xs + " ran before " + ys + " which was scheduled first");
            if (exact && !y.post && !x.post && y.due < x.due && y.kt < x.due)
                bad(xs + " ran before " + ys + " which was due first");
            if (exact && !y.post && x.post && y.due < x.kt && y.kt < x.kt && y.due < x.due && free_at < x.kt)
                bad(xs + " ran before " + ys + " which was due long before");
        }
        if (exact && disp[size_t(x.task)] == INF)
            if (const long want = std::max({x.due, x.kt, free_at}); x.st > want)
                bad(xs + " ran at " + std::to_string(x.st / MS) + " ms instead of " + std::to_string(want / MS) + " ms");
    }
    for (size_t i = 0; i < b.t.size(); ++i)
    {
        bool thrown = false;
        for (auto& x : in)
            thrown |= x.task == int(i) && x.k == b.t[i].reps && x.end >= 0 && b.t[i].throws;
        if (nerr[i] != int(thrown))
            bad("handler of task " + std::to_string(i) + " got " + std::to_string(nerr[i]) + " errors");
    }
}
void poll(asio::io_context& c)
{
    try
    {
        do
            c.restart();
        while (c.poll());
    }
    catch (...)
    {
        mc::fail("an exception escaped from the context");
    }
    if (sch::current_thread::get_queue())
        mc::fail("the queue of the thread is left behind");
}
void pump(asio::io_context& c, int ms)
{
    for (int i = 0; i < ms; ++i)
    {
        poll(c);
        nap(1);
    }
    poll(c);
    c.restart();
    if (c.poll() || !c.stopped())
        mc::fail("work is left in the context");
}
void shape(Task& x, int c)
{
    switch (c)
    {
        case 0: break;
        case 1: x.rep = NOW, x.reps = 2, x.rep_delay = 0; break;
        case 2: x.rep = NOW, x.reps = 1, x.rep_delay = 1; break;
        case 3: x.rep = THIS, x.reps = 2, x.rep_delay = 2; break;
        case 4: x.rep = TO, x.reps = 1, x.rep_delay = 1; break;
        case 5: x.throws = true; break;
        case 6: x.abs = true; break;
        case 7: x.rep = THIS, x.reps = 1, x.rep_delay = 1, x.work = 1; break;
    }
}
void program(int n, bool inside)
{
    Bed               b;
    std::vector<bool> here(size_t(n) + 2, false);
    asio::io_context  ctx;
    {
        Strand s{ctx.get_executor()};
        auto   w = s.create_worker();
        b.add({});
        const int extra = n + 1;
        for (int i = 0; i < n; ++i)
        {
            Task x;
            x.delay = choose(3);
            x.work  = i == 0 ? choose(2) : 0;
            if (i == 0 && choose(2))
                switch (choose(8))
                {
                    case 0: x.body = [&b, w, extra](int) { b.put(w, extra); }; break;
                    case 1:
                    case 2:
                    case 3:
                    case 4:
                        x.body = [&b, &here, extra](int r) {
                            if (r == 0)
                            {
                                here[size_t(extra)] = true;
                                b.put(sch::current_thread::create_worker(), extra);
                            }
                        };
                        shape(x, choose(4));
                        break;
                    case 5: x.body = [&b, n](int) { b.dispose(n); }; break;
                    case 6: x.rep = NOW, x.reps = 2, x.rep_delay = 1, x.body = [&b](int r) { if (r == 1) b.dispose(1); }; break;
                    case 7:
                        x.body = [&b, &here, extra](int) {
                            here[size_t(extra)] = true;
                            b.put(sch::current_thread::create_worker(), extra);
                            b.dispose(extra);
                        };
                        break;
                }
            else
                shape(x, choose(8));
            b.add(std::move(x));
        }
        Task x;
        x.delay = n < 3 ? choose(2) : 0;
        shape(x, choose(6));
        b.add(std::move(x));
        if (inside)
        {
            b.t[0].body = [&, w](int) {
                for (int i = 1; i <= n; ++i)
                    b.put(w, i);
            };
            b.put(w, 0);
        }
        else
            for (int i = 1; i <= n; ++i)
                b.put(w, i);
    } // nobody keeps the worker
    pump(ctx, 16);
    check(b, here, true);
}
SC("strand_programs_1", "X01", .quick_bound = 0, .thorough_bound = 0) { program(1, true); };
SC("strand_programs_2", "X01", .quick_bound = 0, .thorough_bound = 0, .weight = 4) { program(2, true); };
SC("strand_programs_2_outside", "X01", .quick_bound = 0, .thorough_bound = 0, .weight = 4) { program(2, false); };
SC("strand_programs_3", "X01", .quick_bound = -1, .thorough_bound = 0, .weight = 20) { program(3, true); };

// ---------------------------------------------------------------- several threads
// `feeders` schedule their tasks (digits) on workers while `pollers` poll
struct Job
{
    Task x;
    int  worker = 0;
};
void threads(const std::vector<Job>& jobs, const std::vector<std::vector<int>>& feeds, int pollers, int polls, bool together)
{
    Bed               b;
    asio::io_context  ctx;
    std::vector<bool> here(jobs.size(), false);
    {
        Strand      s{ctx.get_executor()};
        decltype(s.create_worker()) ws[] = {s.create_worker(), s.create_worker()};
        for (auto& j : jobs)
        {
            Task x = j.x;
            if (!x.body)
                x.body = [](int) { mc::point(); };
            b.add(x, j.worker);
        }
        auto feed = [&](const std::vector<int>& f) {
            for (int i : f)
                b.put(ws[jobs[size_t(i)].worker], i);
        };
        std::vector<Th> ts;
        auto            polling = [&] {
            for (int i = 0; i < polls; ++i)
            {
                ctx.poll();
                if (i + 1 < polls)
                    nap(1);
            }
        };
        auto guard = asio::make_work_guard(ctx);
        if (!together)
            for (auto& f : feeds)
                feed(f);
        else
            for (auto& f : feeds)
                ts.emplace_back([&] { feed(f); });
        for (int i = 1; i < pollers; ++i)
            ts.emplace_back(polling);
        polling();
        for (auto& t : ts)
            t.join();
        guard.reset();
    }
    pump(ctx, 8);
    check(b, here, false);
}
Task now() { return {}; }
Task later(int d)
{
    Task t;
    t.delay = d;
    return t;
}
Task twice(Rep r, int d)
{
    Task t;
    t.rep = r, t.rep_delay = d, t.reps = 1;
    return t;
}
Task fails()
{
    Task t;
    t.throws = true;
    return t;
}
SC("two_poll_two_tasks", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{now()}, {now()}}, {{0, 1}}, 2, 1, false); };
SC("two_poll_three_tasks", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{now()}, {now()}, {now()}}, {{0, 1, 2}}, 2, 1, false); };
SC("two_poll_two_workers", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{now(), 0}, {now(), 1}, {now(), 0}}, {{0, 1, 2}}, 2, 1, false); };
SC("two_poll_repeated", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{twice(NOW, 0)}, {now()}}, {{0, 1}}, 2, 1, false); };
SC("two_poll_delayed", "X01 M01", .quick_bound = 2, .thorough_bound = 4) { threads({{later(1)}, {later(1)}}, {{0, 1}}, 2, 2, false); };
SC("two_poll_failing", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{fails()}, {now()}}, {{0, 1}}, 2, 1, false); };
SC("one_feeds_one_polls", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{now()}, {now()}}, {{0, 1}}, 1, 2, true); };
SC("two_feed_one_polls", "X01 M01", .quick_bound = 3, .thorough_bound = 5) { threads({{now()}, {now()}, {now()}}, {{0, 1}, {2}}, 1, 1, true); };
SC("one_feeds_two_poll", "X01 M01", .quick_bound = 2, .thorough_bound = 4) { threads({{now()}, {now()}}, {{0, 1}}, 2, 1, true); };
// work for the current thread stays on the strand
void on_strand(int polls)
{
    Bed               b;
    asio::io_context  ctx;
    std::vector<bool> here{false, true, false};
    {
        Strand s{ctx.get_executor()};
        auto   w = s.create_worker();
        Task   x;
        x.body = [&b](int) { b.put(sch::current_thread::create_worker(), 1); };
        b.add(x);
        Task y;
        y.body = [](int) { mc::point(); };
        b.add(y);
        b.add(y);
        b.put(w, 0);
        b.put(w, 2);
    }
    Th t{[&] {
        for (int i = 0; i < polls; ++i)
            ctx.poll();
    }};
    for (int i = 0; i < polls; ++i)
        ctx.poll();
    t.join();
    pump(ctx, 2);
    check(b, here, false);
}
SC("current_thread_stays_on_strand", "X01 M01", .quick_bound = 2, .thorough_bound = 4) { on_strand(2); };
} // namespace
