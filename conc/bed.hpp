// Tasks with every kind of delay, repetition, failure and disposal, and the log of what a worker did with them.
#pragma once
#include "h.hpp"
#include <deque>
using namespace h;
namespace sch = rpp::schedulers;
namespace
{
using Th = std::thread;
using std::chrono::milliseconds;
constexpr long MS = 1000000;
void nap(int ms) { std::this_thread::sleep_for(milliseconds{ms}); }

enum K : int
{
    K_SB = 100, // schedule call begins: a = task, b = due
    K_SE,       // ... returned
    K_RB,       // run begins: a = task, b = run number
    K_RE,       // run ends: a = task, b = due of the next run, or -1
    K_ERR,      // handler got an error: a = task, b = error id
    K_DISP,     // dispose of the handler returned: a = task
    K_OUT,      // outermost call returned
};
enum Rep
{
    NONE,
    NOW,  // delay_from_now
    THIS, // delay_from_this_timepoint
    TO,   // delay_to
};
struct Task
{
    int                   delay = 0;
    bool                  abs   = false; // schedule by time point
    Rep                   rep   = NONE;
    int                   rep_delay = 0;
    int                   reps      = 0; // how many times it asks to be repeated
    int                   work      = 0; // ms it takes
    bool                  throws    = false; // at the last run
    std::function<void(int run)> body = {};
};
struct Bed;
struct Handler
{
    int  id;
    Bed* bed;
    bool is_disposed() const;
    void on_error(const std::exception_ptr& e) const { mc::rec(K_ERR, id, error_id(e)); }
};
struct Bed
{
    std::deque<Task>              t;
    std::deque<std::atomic<bool>> off;
    std::vector<int>              worker; // of each task
    std::vector<int>              runs;
    long                          due0[16] = {};
    int                           add(Task x, int w = 0)
    {
        t.push_back(std::move(x));
        off.emplace_back(false);
        worker.push_back(w);
        runs.push_back(0);
        return int(t.size()) - 1;
    }
    void dispose(int id)
    {
        off[size_t(id)].store(true);
        mc::rec(K_DISP, id);
    }
    template<class W>
    void put(const W& w, int id)
    {
        const Task& x   = t[size_t(id)];
        const long  due = mc::vnow() + x.delay * MS;
        mc::rec(K_SB, id, due);
        switch (x.rep)
        {
            case NONE:
            case NOW: go<sch::delay_from_now>(w, id); break;
            case THIS: go<sch::delay_from_this_timepoint>(w, id); break;
            case TO: go<sch::delay_to>(w, id); break;
        }
        mc::rec(K_SE, id);
    }
    template<class D, class W>
    void go(const W& w, int id)
    {
        const Task& x  = t[size_t(id)];
        auto        fn = [this, id, due = std::make_shared<long>(mc::vnow() + x.delay * MS)](const Handler&) -> std::optional<D> {
            const Task& x   = t[size_t(id)];
            const int   run = runs[size_t(id)]++;
            mc::rec(K_RB, id, run);
            if (x.work)
                nap(x.work);
            if (x.body)
                x.body(run);
            const bool again = run < x.reps;
            if (!again && x.throws)
            {
                mc::rec(K_RE, id, -1);
                std::rethrow_exception(make_error(1));
            }
            if (!again)
            {
                mc::rec(K_RE, id, -1);
                return std::nullopt;
            }
            const auto d = milliseconds{x.rep_delay};
            if constexpr (std::is_same_v<D, sch::delay_to>)
            {
                *due = mc::vnow() + x.rep_delay * MS;
                mc::rec(K_RE, id, *due);
                return D{sch::clock_type::now() + d};
            }
            else
            {
                *due = (std::is_same_v<D, sch::delay_from_now> ? mc::vnow() : *due) + x.rep_delay * MS;
                mc::rec(K_RE, id, *due);
                return D{d};
            }
        };
        if (x.abs)
            w.schedule(sch::clock_type::now() + milliseconds{x.delay}, std::move(fn), Handler{id, this});
        else
            w.schedule(milliseconds{x.delay}, std::move(fn), Handler{id, this});
    }
};
bool Handler::is_disposed() const { return bed->off[size_t(id)].load(); }

std::string text(const Bed& b)
{
    (void)b;
    std::string s;
    for (auto& e : mc::events())
    {
        const char* n = e.code == K_SB ? "sched" : e.code == K_RB ? "run" : e.code == K_RE ? "end" : e.code == K_ERR ? "error" : e.code == K_DISP ? "dispose" : e.code == K_OUT ? "out" : nullptr;
        if (n)
            s += std::string(" T") + std::to_string(e.thread) + ":" + n + std::to_string(e.a) + "@" + std::to_string(e.vtime / MS);
    }
    return s;
}
} // namespace
