// H01-H04: schedulers.  Every program of tasks of a small grammar is run on every scheduler (choices are explored
// exhaustively), and hand-written programs are run from several threads under all interleavings up to the bound.
#include "bed.hpp"
#include <rpp/schedulers/test_scheduler.hpp>
namespace
{
struct Inst // one run of one task
{
    int  task, k;
    long due, due_hi; // when it is due (with a racing clock: bounds)
    long ab, ae;      // event numbers between which it became known to the worker
    bool repeat;      // became known to the worker by its own previous run
    long start = -1, end = -1, st = -1, et = -1;
    int  thread = -1;
};
// `per_thread`: tasks belong to the queue of the thread which scheduled them (current_thread); otherwise to their worker.
// `one_thread`: all tasks of a worker run in the same thread.
void check(Bed& b, bool strict_end = true, bool one_thread = true)
{
    mc::Quiet         q;
    const long        INF = 1l << 60;
    std::vector<Inst> in;
    std::vector<long> disp(b.t.size(), INF), dispt(b.t.size(), INF);
    std::vector<int>  nerr(b.t.size(), 0), cur(b.t.size(), -1);
    auto              bad = [&](const std::string& m) { mc::fail(m + ":" + text(b)); };
    for (auto& e : mc::events())
    {
        const auto a = size_t(e.a);
        switch (e.code)
        {
            case K_SB:
                cur[a] = int(in.size());
                in.push_back({int(e.a), 0, e.b, INF, long(e.seq), INF, false});
                break;
            case K_SE:
                for (auto& i : in)
                    if (i.task == e.a && i.k == 0)
                    {
                        i.ae     = std::min<long>(i.ae, long(e.seq));
                        i.due_hi = std::min(i.due_hi, e.vtime + b.t[a].delay * MS);
                    }
                break;
            case K_RB: {
                if (cur[a] < 0 || in[size_t(cur[a])].start >= 0)
                    return bad("task " + std::to_string(a) + " ran more often than asked");
                Inst& i  = in[size_t(cur[a])];
                i.start  = long(e.seq);
                i.st     = e.vtime;
                i.thread = e.thread;
                if (i.ae > i.start)
                    i.ae = i.start; // known once it started
                if (!i.repeat)
                    i.due_hi = std::min(i.due_hi, e.vtime);
                if (mc::punctual())
                    i.due_hi = i.due;
                break;
            }
            case K_RE: {
                Inst& i = in[size_t(cur[a])];
                i.end   = long(e.seq);
                i.et    = e.vtime;
                if (e.b >= 0)
                {
                    const int k = i.k + 1;
                    cur[a]      = int(in.size());
                    const long hi = b.t[a].rep == THIS ? i.due_hi + b.t[a].rep_delay * MS : INF;
                    in.push_back({int(e.a), k, e.b, hi, long(e.seq), INF, true});
                }
                break;
            }
            case K_ERR:
                ++nerr[a];
                if (e.b != 1)
                    return bad("task " + std::to_string(a) + " got a foreign error");
                break;
            case K_DISP:
                if (disp[a] == INF)
                {
                    disp[a]  = long(e.seq);
                    dispt[a] = e.vtime;
                }
                break;
            default: break;
        }
    }
    std::string out;
    for (auto& e : mc::events())
        if (e.code == K_RB)
            out += std::to_string(e.a) + "@" + std::to_string(e.vtime / MS) + " ";
    mc::outcome(out);
    auto wk = [&](const Inst& i) { return b.worker[size_t(i.task)]; };
    // availability of repeated runs ends with the next start on their worker
    for (auto& i : in)
        if (i.repeat)
            for (auto& j : in)
                if (wk(j) == wk(i) && j.start > i.ab && j.start < i.ae)
                {
                    i.ae = j.start;
                    if (i.due_hi == INF) // from now: it was enqueued before
                        i.due_hi = j.st + b.t[size_t(i.task)].rep_delay * MS;
                }
    if (mc::punctual())
        for (auto& i : in)
            i.due_hi = i.due;
    for (auto& x : in)
    {
        const bool never = disp[size_t(x.task)] < INF;
        if (x.start < 0)
        {
            if (!never && strict_end)
                bad("task " + std::to_string(x.task) + " (run " + std::to_string(x.k) + ") was lost");
            continue;
        }
        if (x.end < 0)
            bad("task " + std::to_string(x.task) + " did not return");
        if (x.st < x.due)
            bad("task " + std::to_string(x.task) + " ran too early");
        long prev_end = -1, prev_t = -1;
        for (auto& y : in)
        {
            if (wk(y) != wk(x) || &y == &x || y.start < 0)
                continue;
            if (y.start < x.start && y.end > x.start)
                bad("tasks " + std::to_string(y.task) + " and " + std::to_string(x.task) + " overlap");
            if (one_thread && y.thread != x.thread)
                bad("tasks of one worker ran in different threads");
            if (y.end < x.start)
            {
                prev_end = std::max(prev_end, y.end);
                prev_t   = std::max(prev_t, y.et);
            }
        }
        // disposed before it could be picked
        if (disp[size_t(x.task)] < std::max(prev_end, x.ab) || (mc::punctual() && dispt[size_t(x.task)] < x.st))
            bad("disposed task " + std::to_string(x.task) + " ran");
        for (auto& y : in)
        {
            if (wk(y) != wk(x) || &y == &x || disp[size_t(y.task)] < INF || (y.start >= 0 && y.start < x.start))
                continue;
            const bool known = y.ae < std::max(prev_end, x.ab) || (y.repeat && y.ab < std::max(prev_end + 1, x.ab) && y.ab < x.ab);
            const bool first = y.due_hi < x.due || (y.due_hi == x.due && y.ae < x.ab);
            if (known && first)
                bad("task " + std::to_string(x.task) + " ran before task " + std::to_string(y.task) + " which was due first");
        }
        if (mc::punctual() && !never)
        {
            bool some_disposed = false; // a disposed task may keep the worker until it was due
            for (long d : disp)
                some_disposed |= d < INF;
            long avt = 0;
            for (auto& e : mc::events())
                if (long(e.seq) == x.ab)
                    avt = e.vtime;
            const long want = std::max({x.due, avt, prev_t});
            if (x.st > want)
                bad("task " + std::to_string(x.task) + " ran at " + std::to_string(x.st / MS) + " ms instead of " + std::to_string(want / MS) + " ms");
            (void)some_disposed;
        }
    }
    for (size_t i = 0; i < b.t.size(); ++i)
    {
        bool thrown = false;
        for (auto& x : in)
            thrown |= x.task == int(i) && x.k == b.t[i].reps && x.end >= 0 && b.t[i].throws;
        if (nerr[i] != int(thrown))
            bad("handler of task " + std::to_string(i) + " got " + std::to_string(nerr[i]) + " errors");
    }
}

// ---------------------------------------------------------------- all small programs, H01/H03/H04
// Picks one of the behaviours of a task of the grammar.
int choose(int n) { return mc::choose(n); }
struct Grammar
{
    Bed                      b;
    std::vector<std::function<void(int)>> via;
};
// Builds `n` tasks which are scheduled, in this order, from inside of a root task, and some of which schedule, dispose or
// throw on their own.
template<class Worker>
void program(Bed& b, const Worker& w, int n, bool nested_current)
{
    const int extra = n; // task scheduled from inside another one
    std::vector<int> ids;
    for (int i = 0; i < n; ++i)
    {
        Task x;
        x.delay     = choose(3);
        x.work      = i == 0 ? choose(2) : 0;
        switch (choose(i == 0 ? 18 : 8))
        {
            case 0: break;
            case 1: x.rep = NOW, x.reps = 2, x.rep_delay = 0; break;
            case 2: x.rep = NOW, x.reps = 1, x.rep_delay = 1; break;
            case 3: x.rep = THIS, x.reps = 2, x.rep_delay = 1; break;
            case 4: x.rep = THIS, x.reps = 1, x.rep_delay = 0; break;
            case 5: x.rep = TO, x.reps = 1, x.rep_delay = 1; break;
            case 6: x.throws = true; break;
            case 7: // (also in the past)
                x.abs = true;
                if (x.delay == 2)
                    x.delay = -1;
                break;
            case 8: x.body = [&b, w, extra](int) { b.put(w, extra + 1); }; break;
            case 9:
                x.rep = NOW, x.reps = 2;
                x.body = [&b, w, extra, nested_current](int r) {
                    if (r == 0)
                    {
                        if (nested_current)
                            b.put(sch::current_thread::create_worker(), extra + 1);
                        else
                            b.put(w, extra + 1);
                    }
                };
                break;
            case 10: x.body = [&b](int) { b.dispose(2); }; break;
            case 15: x.body = [&b, w, extra](int) { b.put(w, extra + 1); b.dispose(1); }; break;
            case 16: x.rep = NOW, x.reps = 1, x.body = [&b, w, extra](int) { b.put(w, extra + 1); b.dispose(1); }; break;
            case 17: x.rep = THIS, x.reps = 1, x.rep_delay = 1, x.body = [&b, w, extra](int) { b.dispose(1); b.put(w, extra + 1); }; break;
            case 12: x.rep = NOW, x.reps = 1, x.rep_delay = 1, x.throws = true; break;
            case 13: x.rep = THIS, x.reps = 1, x.rep_delay = 1, x.throws = true; break;
            case 14: x.rep = TO, x.reps = 1, x.rep_delay = 1, x.throws = true; break;
            case 11: x.rep = NOW, x.reps = 2, x.rep_delay = 1, x.body = [&b](int r) { if (r == 1) b.dispose(1); }; break;
        }
        ids.push_back(b.add(std::move(x)));
    }
    b.add({}); // nested one
}
template<class Worker, class Start>
void run_program(const Worker& w, int n, bool nested_current, Start start)
{
    Bed b;
    b.add({}); // root
    program(b, w, n, nested_current);
    // the root may dispose itself, with or without asking to be repeated
    const int self = n < 3 ? choose(3) : 0;
    if (self == 2)
        b.t[0].rep = NOW, b.t[0].reps = 1;
    b.t[0].body = [&](int) {
        for (int i = 1; i <= n; ++i)
            b.put(w, i);
        if (self)
            b.dispose(0);
    };
    start(b);
    check(b);
}

template<class W, class S>
void prog_loop(const W& w, int n, S& l)
{
    run_program(w, n, false, [&](Bed& b) {
        b.put(w, 0);
        while (!l.is_empty())
            l.dispatch();
    });
}
template<class W>
void prog_thread(const W& w, int n)
{
    run_program(w, n, true, [&](Bed& b) {
        b.put(w, 0);
        mc::settle();
    });
}
template<class W>
void prog_here(const W& w, int n)
{
    run_program(w, n, true, [&](Bed& b) {
        b.put(w, 0);
        mc::rec(K_OUT);
        mc::Quiet q;
        for (auto& e : mc::events())
            if (e.code == K_RB || e.code == K_RE)
                if (e.thread != mc::tid())
                    mc::fail("ran in another thread");
    });
    if (sch::current_thread::get_queue())
        mc::fail("the queue of the thread is left behind");
}
// immediate: the call returns after the work (with all repetitions) is done; nested work is done inside
void check_immediate(Bed& b)
{
    mc::Quiet        q;
    std::vector<int> stack;
    std::vector<long> due(b.t.size(), -1), runs(b.t.size(), 0), ended(b.t.size(), 0), nerr(b.t.size(), 0);
    std::vector<bool> off(b.t.size(), false), over(b.t.size(), false);
    auto              bad = [&](const std::string& m) { mc::fail(m + ":" + text(b)); };
    for (auto& e : mc::events())
    {
        const auto a = size_t(e.a);
        switch (e.code)
        {
            case K_SB: stack.push_back(int(a)); due[a] = std::max(e.b, e.vtime); break;
            case K_SE:
                if (stack.empty() || stack.back() != int(a))
                    bad("calls do not nest");
                stack.pop_back();
                if (!off[a] && !over[a])
                    bad("the call returned before task " + std::to_string(a) + " was done");
                break;
            case K_RB:
                if (stack.empty() || stack.back() != int(a) || over[a])
                    bad("task " + std::to_string(a) + " runs outside of its call");
                if (off[a])
                    bad("disposed task " + std::to_string(a) + " ran");
                if (e.vtime != std::max(due[a], ended[a]))
                    bad("task " + std::to_string(a) + " ran at the wrong time");
                ++runs[a];
                break;
            case K_RE:
                over[a]  = e.b < 0;
                due[a]   = e.b;
                ended[a] = e.vtime;
                break;
            case K_ERR: ++nerr[a]; break;
            case K_DISP: off[a] = true; break;
            default: break;
        }
    }
    for (size_t i = 0; i < b.t.size(); ++i)
    {
        if (nerr[i] != (b.t[i].throws && over[i] ? 1 : 0))
            bad("handler of task " + std::to_string(i) + " got " + std::to_string(nerr[i]) + " errors");
        if (over[i] && runs[i] != b.t[i].reps + 1)
            bad("task " + std::to_string(i) + " ran " + std::to_string(runs[i]) + " times");
    }
    mc::outcome(text(b));
}
void prog_immediate(int n)
{
    auto w = sch::immediate::create_worker();
    Bed  b;
    b.add({});
    program(b, w, n, false);
    b.t[0].body = [&](int) {
        for (int i = 1; i <= n; ++i)
            b.put(w, i);
    };
    b.put(w, 0);
    check_immediate(b);
}
void prog_pool(int n)
{
    sch::thread_pool p{1};
    prog_thread(p.create_worker(), n);
}
void prog_run_loop(int n)
{
    sch::run_loop l{};
    prog_loop(l.create_worker(), n, l);
}
#define PROG(name, tags, ...) \
    SC(name "_2", tags, .quick_bound = 0, .thorough_bound = 0) { constexpr int n = 2; __VA_ARGS__; }; \
    SC(name "_3", tags, .quick_bound = 0, .thorough_bound = 0, .weight = 4) { constexpr int n = 3; __VA_ARGS__; }; \
    SC(name "_4", tags, .quick_bound = -1, .thorough_bound = 0, .weight = 20) { constexpr int n = 4; __VA_ARGS__; }
PROG("programs_current_thread", "H01 H03 H04", prog_here(sch::current_thread::create_worker(), n));
PROG("programs_immediate", "H01 H03 H04", prog_immediate(n));
PROG("programs_new_thread", "H01 H02 H03 H04", prog_thread(sch::new_thread::create_worker(), n));
PROG("programs_thread_pool", "H01 H02 H03", prog_pool(n));
PROG("programs_run_loop", "H01 H02 H03", prog_run_loop(n));

// ---------------------------------------------------------------- test_scheduler: time goes on by hand, H01/H03
// Every small program of tasks, scheduled at every moment, against a stable list of tasks ordered by time.
struct VTask
{
    int  delay, rep, reps, rdelay, act; // act: 0 none, 1 throws at its last run, 2 schedules the extra task, 3 disposes the last task
    int  runs = 0;
    bool off  = false;
};
struct VBed
{
    std::vector<VTask> t;
    std::string        log;
    bool               real = true;
    std::function<void(int)> put{};
    long               now = 0, seq = 0;
    struct Entry
    {
        long due, seq;
        int  task;
    };
    std::vector<Entry> queue{};
    std::vector<long>  scheduled{}, executed{};
    // a run of the task; what it asks for
    int run(int i, long at)
    {
        auto& x = t[size_t(i)];
        log += std::to_string(i) + "@" + std::to_string(at) + "(";
        const int r = x.runs++;
        if (r == 0 && x.act == 2)
            put(int(t.size()) - 1);
        if (r == 0 && x.act == 3)
            t[t.size() - 2].off = true;
        log += ")";
        return r < x.reps ? x.rep : x.act == 1 ? -1 : 0;
    }
    void model_put(int i)
    {
        const long due = now + t[size_t(i)].delay;
        scheduled.push_back(due);
        queue.push_back({due, seq++, i});
        model_drain();
    }
    void model_drain()
    {
        for (;;)
        {
            auto it = std::min_element(queue.begin(), queue.end(), [](auto& a, auto& b) { return std::pair{a.due, a.seq} < std::pair{b.due, b.seq}; });
            if (it == queue.end() || it->due > now)
                return;
            const Entry e = *it;
            queue.erase(it);
            if (t[size_t(e.task)].off)
                continue;
            executed.push_back(now);
            const int k = run(e.task, now);
            if (k < 0)
                log += "error" + std::to_string(e.task) + " ";
            if (k <= 0 || t[size_t(e.task)].off)
                continue;
            const long d   = t[size_t(e.task)].rdelay;
            const long due = std::max(now, k == THIS ? e.due + d : now + d);
            scheduled.push_back(due);
            queue.push_back({due, seq++, e.task});
        }
    }
};
struct VHandler
{
    VBed* b;
    int   i;
    bool  is_disposed() const { return b->t[size_t(i)].off; }
    void  on_error(const std::exception_ptr&) const { b->log += "error" + std::to_string(i) + " "; }
};
template<class D, class W>
void vgo(VBed& b, const W& w, int i)
{
    w.schedule(milliseconds{b.t[size_t(i)].delay}, [&b, i](const VHandler&) -> std::optional<D> {
        const auto now = sch::test_scheduler::now();
        const int  k   = b.run(i, std::chrono::duration_cast<milliseconds>(now.time_since_epoch()).count() - 10000);
        if (k < 0)
            std::rethrow_exception(make_error(1));
        if (k == 0)
            return std::nullopt;
        const milliseconds d{b.t[size_t(i)].rdelay};
        if constexpr (std::is_same_v<D, sch::delay_to>)
            return D{now + d};
        else
            return D{d};
    }, VHandler{&b, i});
}
void test_scheduler_program(int n, int steps)
{
    sch::test_scheduler::s_current_time = sch::time_point{std::chrono::seconds{10}};
    sch::test_scheduler s{};
    const auto          w = s.create_worker();
    VBed                r, m;
    for (int i = 0; i < n; ++i)
    {
        const int kind  = choose(4);
        const int delay = choose(3);
        r.t.push_back({delay, kind, kind ? 1 + (i == 0) : 0, kind ? choose(3) : 0, choose(i == 0 ? 4 : 2)});
    }
    r.t.push_back({1, NONE, 0, 0, 0}); // scheduled from inside of the first one
    m.t   = r.t;
    r.put = [&](int i) {
        switch (r.t[size_t(i)].rep)
        {
            case THIS: vgo<sch::delay_from_this_timepoint>(r, w, i); break;
            case TO: vgo<sch::delay_to>(r, w, i); break;
            default: vgo<sch::delay_from_now>(r, w, i); break;
        }
    };
    m.put            = [&](int i) { m.model_put(i); };
    std::string done = "";
    int         next = 0;
    auto        same = [&] {
        auto ms = [](const std::vector<sch::time_point>& v) {
            std::string o;
            for (auto& x : v)
                o += std::to_string(std::chrono::duration_cast<milliseconds>(x.time_since_epoch()).count() - 10000) + " ";
            return o;
        };
        auto num = [](const std::vector<long>& v) {
            std::string o;
            for (long x : v)
                o += std::to_string(x) + " ";
            return o;
        };
        if (r.log != m.log)
            mc::fail("after [" + done + "] ran " + r.log + " expected " + m.log);
        if (ms(s.get_schedulings()) != num(m.scheduled) || ms(s.get_executions()) != num(m.executed))
            mc::fail("after [" + done + "] reports schedulings " + ms(s.get_schedulings()) + "executions " + ms(s.get_executions()) + "expected " + num(m.scheduled) + "and " + num(m.executed));
    };
    for (int i = 0; i < steps; ++i)
    {
        const int c = choose(next < n ? 3 : 2);
        if (c == 2)
        {
            done += "schedule " + std::to_string(next) + "; ";
            r.put(next);
            m.put(next);
            ++next;
        }
        else
        {
            done += "advance " + std::to_string(c + 1) + "; ";
            m.now += c + 1;
            m.model_drain();
            s.time_advance(milliseconds{c + 1});
        }
        same();
    }
    mc::outcome(r.log);
}
SC("test_scheduler_1", "H01 H03", .quick_bound = 0, .thorough_bound = 0) { test_scheduler_program(1, 6); };
SC("test_scheduler_2", "H01 H03", .quick_bound = 0, .thorough_bound = 0) { test_scheduler_program(2, mc::thorough() ? 6 : 4); };

// ---------------------------------------------------------------- several threads, H02 (H03: disposal and failure)
// every scenario once with a punctual clock (exact times) and once with a clock that may run ahead
#define DUAL(name, tags, qb, ...) \
    SC(name, tags, .quick_bound = qb) { __VA_ARGS__; }; \
    SC(name "_time_races", tags, .quick_bound = qb, .time_races = true) { __VA_ARGS__; }
using NT = std::shared_ptr<decltype(sch::new_thread::create_worker())>;
NT nt() { return std::make_shared<decltype(sch::new_thread::create_worker())>(sch::new_thread::create_worker()); }
Task after(int ms)
{
    Task t;
    t.delay = ms;
    return t;
}
Task every(int first, Rep r, int d, int reps)
{
    Task t;
    t.delay = first, t.rep = r, t.rep_delay = d, t.reps = reps;
    return t;
}
// two threads feed one worker
void two_feeders(int d0, int d1, int d2)
{
    Bed  b;
    auto w = nt();
    b.add(after(d0)), b.add(after(d1)), b.add(after(d2));
    Th t{[&, w] { b.put(*w, 0); b.put(*w, 1); }};
    b.put(*w, 2);
    w.reset();
    t.join();
    mc::settle();
    check(b);
}
DUAL("feed_now", "H02", 3, two_feeders(0, 0, 0));
DUAL("feed_later", "H02", 3, two_feeders(1, 0, 1));
DUAL("feed_earlier", "H02", 3, two_feeders(2, 1, 1));
// a task is scheduled while the worker sleeps towards a later one
void while_sleeping(int first, int at, int second, int third = 0)
{
    Bed  b;
    auto w = nt();
    b.add(after(first)), b.add(after(second)), b.add(after(third));
    b.put(*w, 0);
    nap(at);
    b.put(*w, 1);
    b.put(*w, 2);
    w.reset();
    mc::settle();
    check(b);
}
DUAL("sleeping_earlier", "H02", 3, while_sleeping(3, 1, 1));
DUAL("sleeping_between", "H02", 3, while_sleeping(3, 1, 1, 2));
DUAL("sleeping_before_both", "H02", 3, while_sleeping(4, 1, 2, 1));
DUAL("sleeping_tie", "H02", 3, while_sleeping(2, 1, 1));
DUAL("sleeping_later", "H02", 3, while_sleeping(2, 1, 2));
DUAL("sleeping_at_wakeup", "H02", 3, while_sleeping(1, 1, 0));
// the last handle goes while tasks wait, run, or are being scheduled
void drop(int d0, int d1, Rep r, int reps)
{
    Bed  b;
    auto w = nt();
    b.add(every(d0, r, 1, reps)), b.add(after(d1));
    b.put(*w, 0);
    Th t{[&b, w = std::move(w)]() mutable { b.put(*w, 1); w.reset(); }};
    t.join();
    mc::settle();
    check(b);
    mc::settle();
    mc::Quiet q;
    if (mc::live_threads() != 1)
        mc::fail("the worker thread did not end");
}
DUAL("drop_waiting", "H02", 3, drop(1, 1, NONE, 0));
DUAL("drop_running", "H02", 3, drop(0, 0, NONE, 0));
DUAL("drop_repeating", "H02", 3, drop(0, 0, THIS, 2));
DUAL("drop_repeating_now", "H02", 3, drop(0, 1, NOW, 1));
DUAL("drop_idle", "H02", 3, {
    auto w = nt();
    w.reset();
    mc::settle();
    mc::Quiet q;
    if (mc::live_threads() != 1)
        mc::fail("the worker thread did not end");
});
DUAL("drop_two_handles", "H02", 3, {
    Bed  b;
    auto w = std::make_unique<decltype(sch::new_thread::create_worker())>(sch::new_thread::create_worker());
    auto v = std::make_unique<decltype(sch::new_thread::create_worker())>(*w);
    b.add(after(0)), b.add(after(0));
    Th t{[&] { b.put(*v, 0); v.reset(); }};
    b.put(*w, 1);
    w.reset();
    t.join();
    mc::settle();
    check(b);
    mc::Quiet q;
    if (mc::live_threads() != 1)
        mc::fail("the worker thread did not end");
});
DUAL("drop_inside_own_task", "H02", 2, {
    Bed  b;
    auto w = nt();
    Task x;
    x.body = [&b, v = std::make_shared<NT>(w)](int) { b.put(**v, 1); v->reset(); };
    b.add(std::move(x));
    b.add(after(1));
    b.put(*w, 0);
    w.reset();
    mc::settle();
    check(b);
});
// tasks schedule tasks
DUAL("tasks_schedule_tasks", "H02 H04", 3, {
    Bed  b;
    auto w = nt();
    Task x;
    x.body = [&](int) { b.put(*w, 1); b.put(sch::current_thread::create_worker(), 2); };
    b.add(std::move(x)), b.add(after(1)), b.add(after(0)), b.add(after(1));
    b.put(*w, 0);
    b.put(*w, 3);
    mc::settle();
    w.reset();
    check(b);
});
DUAL("repeating_and_feeder", "H02 H01", 3, {
    // a task which asks to be repeated at once does not keep others out
    Bed  b;
    auto w = nt();
    b.add(every(0, NOW, 0, 3)), b.add(after(0));
    b.put(*w, 0);
    b.put(*w, 1);
    w.reset();
    mc::settle();
    check(b);
});
DUAL("repeating_and_own_nested", "H02 H01 H04", 3, {
    Bed  b;
    auto w = nt();
    Task x = every(0, THIS, 0, 2);
    x.body = [&](int r) { if (r == 0) b.put(sch::current_thread::create_worker(), 1); };
    b.add(std::move(x)), b.add(after(0)), b.add(after(0));
    b.put(*w, 0);
    b.put(*w, 2);
    w.reset();
    mc::settle();
    check(b);
});
DUAL("two_workers_ping_pong", "H02", 2, {
    Bed  b;
    auto u = nt(), v = nt();
    Task x, y;
    x.body = [&](int) { b.put(*v, 1); };
    y.body = [&](int) { b.put(*u, 2); };
    b.add(std::move(x), 0), b.add(std::move(y), 1), b.add(after(0), 0), b.add(after(0), 1);
    b.put(*u, 0);
    b.put(*v, 3);
    mc::settle();
    u.reset();
    v.reset();
    check(b);
});
// pools
void by_thread(Bed& b)
{
    mc::Quiet q;
    for (auto& e : mc::events())
        if (e.code == K_RB)
            b.worker[size_t(e.a)] = e.thread;
}
size_t run_threads(const Bed&)
{
    std::vector<int> t;
    for (auto& e : mc::events())
        if (e.code == K_RB && std::find(t.begin(), t.end(), e.thread) == t.end())
            t.push_back(e.thread);
    return t.size();
}
void pool(size_t size, std::initializer_list<int> delays, bool threads)
{
    Bed b;
    {
        sch::thread_pool p{size};
        for (int d : delays)
            b.add(after(d));
        if (threads)
        {
            Th t{[&] { auto w = p.create_worker(); b.put(w, 0); b.put(w, 1); }};
            auto w = p.create_worker();
            b.put(w, 2);
            t.join();
        }
        else
            for (int i = 0; i < int(delays.size()); ++i)
                b.put(p.create_worker(), i);
    }
    mc::settle();
    by_thread(b);
    check(b);
    mc::Quiet q;
    if (run_threads(b) > size)
        mc::fail("more threads than configured");
    if (mc::live_threads() != 1)
        mc::fail("threads of the pool did not end");
    if (threads)
    {
        int t0 = -1;
        for (auto& e : mc::events())
            if (e.code == K_RB && e.a <= 1)
            {
                if (t0 >= 0 && t0 != e.thread)
                    mc::fail("tasks of one worker ran in different threads");
                t0 = e.thread;
            }
    }
    else if (delays.size() >= size && run_threads(b) != size)
        mc::fail("workers are not spread over the threads of the pool");
}
DUAL("pool1_two_threads", "H02", 3, pool(1, {0, 1, 0}, true));
DUAL("pool2_two_threads", "H02", 2, pool(2, {1, 0, 0}, true));
DUAL("pool2_round_robin", "H02", 2, pool(2, {0, 0, 1}, false));
DUAL("pool_same_worker_copies", "H02", 2, {
    Bed              b;
    sch::thread_pool p{2};
    auto             w = p.create_worker();
    auto             v = w;
    b.add(after(0)), b.add(after(0)), b.add(after(1));
    Th t{[&] { b.put(v, 0); b.put(v, 2); }};
    b.put(w, 1);
    t.join();
    mc::settle();
    check(b);
});
// run loops: one thread dispatches, others schedule
void loop(int d0, int d1, int d2, int extra_runs)
{
    Bed           b;
    sch::run_loop l{};
    b.add(after(d0)), b.add(every(d1, NOW, 1, extra_runs)), b.add(after(d2));
    Th t{[&] { auto w = l.create_worker(); b.put(w, 0); b.put(w, 1); }};
    Th u{[&] { auto w = l.create_worker(); b.put(w, 2); }};
    for (int i = 0; i < 3 + extra_runs; ++i)
        l.dispatch();
    t.join();
    u.join();
    check(b);
    mc::Quiet q;
    if (!l.is_empty())
        mc::fail("something is left in the loop");
}
DUAL("loop_now", "H02", 2, loop(0, 0, 0, 0));
DUAL("loop_delays", "H02", 2, loop(1, 0, 1, 1));
DUAL("loop_earlier_while_waiting", "H02", 3, {
    Bed           b;
    sch::run_loop l{};
    auto          w = l.create_worker();
    b.add(after(3)), b.add(after(1));
    b.put(w, 0);
    Th t{[&] { nap(1); b.put(w, 1); }};
    l.dispatch();
    l.dispatch();
    t.join();
    check(b);
});
DUAL("loop_if_ready", "H02 H01", 2, {
    Bed           b;
    sch::run_loop l{};
    auto          w = l.create_worker();
    b.add(after(0)), b.add(after(2)), b.add(after(0));
    Th t{[&] { b.put(w, 0); b.put(w, 1); b.put(w, 2); }};
    l.dispatch_if_ready();
    t.join();
    nap(1);
    l.dispatch_if_ready();
    l.dispatch_if_ready();
    l.dispatch_if_ready();
    while (!l.is_empty())
        l.dispatch();
    mc::Quiet q;
    // exact start times do not apply: the loop is polled
    std::vector<long> at(3, -1);
    for (auto& e : mc::events())
        if (e.code == K_RB)
        {
            if (at[size_t(e.a)] >= 0)
                mc::fail("ran twice");
            at[size_t(e.a)] = e.vtime;
        }
    for (int i = 0; i < 3; ++i)
        if (at[size_t(i)] < 0)
            mc::fail("task lost:" + text(b));
    if (at[1] < 2 * MS)
        mc::fail("ran too early:" + text(b));
});
DUAL("loop_gone", "H02", 3, {
    // the loop is destroyed while a worker handle schedules
    Bed  b;
    auto l = std::make_unique<sch::run_loop>();
    auto w = l->create_worker();
    b.add(after(0)), b.add(after(0));
    b.put(w, 0);
    Th t{[&] { b.put(w, 1); }};
    l->dispatch();
    l.reset();
    t.join();
    mc::Quiet q;
    int n = 0;
    for (auto& e : mc::events())
        n += e.code == K_RB;
    if (n != 1)
        mc::fail("one dispatch ran " + std::to_string(n) + " tasks");
});
DUAL("loop_two_dispatchers", "H02", 3, {
    Bed           b;
    sch::run_loop l{};
    auto          w = l.create_worker();
    b.add(after(0)), b.add(after(1)), b.add(after(0));
    b.put(w, 0);
    Th t{[&] { l.dispatch(); }};
    b.put(w, 1);
    b.put(w, 2);
    l.dispatch();
    l.dispatch();
    t.join();
    mc::Quiet q;
    std::vector<int> n(3, 0);
    for (auto& e : mc::events())
        if (e.code == K_RB)
            ++n[size_t(e.a)];
    if (n != std::vector<int>{1, 1, 1})
        mc::fail("tasks ran wrongly:" + text(b));
});

// ---------------------------------------------------------------- H03
void dispose_from_outside(Task x, int at)
{
    Bed  b;
    auto w = nt();
    b.add(std::move(x)), b.add(after(1));
    b.put(*w, 0);
    b.put(*w, 1);
    w.reset();
    if (at)
        nap(at);
    b.dispose(0);
    mc::settle();
    check(b);
}
DUAL("dispose_pending", "H03", 3, dispose_from_outside(after(1), 0));
DUAL("dispose_starting", "H03", 3, dispose_from_outside(after(0), 0));
DUAL("dispose_waiting", "H03", 3, dispose_from_outside(after(2), 1));
DUAL("dispose_repeating", "H03", 3, dispose_from_outside(every(0, NOW, 1, 3), 1));
DUAL("dispose_repeating_this", "H03", 3, dispose_from_outside(every(0, THIS, 1, 3), 2));
DUAL("dispose_repeating_at_once", "H03", 3, dispose_from_outside(every(0, NOW, 0, 3), 0));
DUAL("dispose_long_wait", "H03", 3, dispose_from_outside(after(5), 1));
DUAL("dispose_current_thread", "H03 H04", 3, {
    // the worker of this thread sleeps while another thread disposes its tasks
    Bed  b;
    auto w = sch::current_thread::create_worker();
    Task root;
    root.body = [&](int) { b.put(w, 1); b.put(w, 2); b.put(w, 3); };
    b.add(std::move(root)), b.add(after(2)), b.add(every(0, THIS, 1, 4)), b.add(after(5));
    Th t{[&] { nap(1); b.dispose(1); nap(1); b.dispose(2); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_current_thread_repeating", "H03 H04", 3, {
    Bed  b;
    auto w = sch::current_thread::create_worker();
    Task root;
    root.body = [&](int) { b.put(w, 1); };
    b.add(std::move(root)), b.add(every(0, NOW, 2, 3));
    Th t{[&] { nap(1); b.dispose(1); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_current_thread_to", "H03 H04", 3, {
    Bed  b;
    auto w = sch::current_thread::create_worker();
    b.add(every(2, TO, 2, 3));
    Th t{[&] { nap(3); b.dispose(0); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_current_thread_alone", "H03 H04", 3, {
    Bed  b;
    auto w = sch::current_thread::create_worker();
    b.add(every(2, THIS, 2, 3));
    Th t{[&] { nap(1); b.dispose(0); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_immediate", "H03 H04", 3, {
    Bed  b;
    auto w = sch::immediate::create_worker();
    b.add(every(1, NOW, 2, 3));
    Th t{[&] { nap(2); b.dispose(0); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_immediate_this", "H03 H04", 3, {
    Bed  b;
    auto w = sch::immediate::create_worker();
    b.add(every(2, THIS, 2, 3));
    Th t{[&] { nap(1); b.dispose(0); }};
    b.put(w, 0);
    t.join();
    check(b);
});
DUAL("dispose_run_loop", "H03", 3, {
    Bed           b;
    sch::run_loop l{};
    auto          w = l.create_worker();
    b.add(after(2)), b.add(every(0, NOW, 1, 2)), b.add(after(1));
    b.put(w, 0);
    b.put(w, 1);
    b.put(w, 2);
    Th t{[&] { nap(1); b.dispose(0); b.dispose(1); }};
    while (!l.is_empty())
        l.dispatch();
    t.join();
    check(b);
});
DUAL("throwing_tasks", "H03", 2, {
    Bed  b;
    auto w = nt();
    Task x = every(0, NOW, 1, 1);
    x.throws = true;
    Task y = after(0);
    y.throws = true;
    b.add(std::move(x)), b.add(std::move(y)), b.add(after(1)), b.add(after(0));
    b.put(*w, 0);
    Th t{[&] { b.put(*w, 1); b.put(*w, 3); }};
    b.put(*w, 2);
    t.join();
    w.reset();
    mc::settle();
    check(b);
});
DUAL("throwing_and_disposed", "H03", 3, {
    Bed  b;
    auto w = nt();
    Task x = every(0, NOW, 0, 2);
    x.throws = true;
    b.add(std::move(x)), b.add(after(0));
    b.put(*w, 0);
    b.put(*w, 1);
    b.dispose(0);
    w.reset();
    mc::settle();
    check(b);
});
// ---------------------------------------------------------------- H04
DUAL("two_threads_own_queues", "H04", 3, {
    Bed  b;
    auto w = sch::current_thread::create_worker();
    Task x, y;
    x.work = 1;
    x.body = [&](int) { b.put(w, 1); b.put(w, 2); };
    y.body = [&](int) { b.put(w, 4); b.put(w, 5); };
    b.add(std::move(x), 0), b.add(after(0), 0), b.add(every(0, NOW, 1, 1), 0);
    b.add(std::move(y), 1), b.add(after(1), 1), b.add(after(0), 1);
    Th t{[&] { b.put(w, 3); mc::rec(K_OUT); if (sch::current_thread::get_queue()) mc::fail("the queue of the thread is left behind"); }};
    b.put(w, 0);
    mc::rec(K_OUT);
    if (sch::current_thread::get_queue())
        mc::fail("the queue of the thread is left behind");
    t.join();
    check(b);
    mc::Quiet q;
    std::vector<int> out(16, 0);
    for (auto& e : mc::events())
    {
        if (e.code == K_OUT)
            out[size_t(e.thread)] = 1;
        if (e.code == K_RB && out[size_t(e.thread)])
            mc::fail("work was left behind when the outermost call returned:" + text(b));
    }
});
} // namespace
