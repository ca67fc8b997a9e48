// Public API of the controlled-scheduler model checker, used by the harnesses in /verif/conc.
// Harness TUs are compiled with -fsanitize=thread and linked against mc_rt.cpp (NOT against libtsan).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
struct Config
{
    int  quick_bound    = 3;     // preemption bound of the quick tier (-1: thorough tier only)
    int  thorough_bound = 5;     // preemption bound of the thorough tier
    bool time_races     = false; // the virtual clock may advance while threads are runnable (costs one deviation)
    bool fork_each      = false; // one process per execution (library state that outlives an execution)
    bool allow_leftover = false; // threads blocked forever at the end are fine (static thread pools)
    bool races          = true;  // happens-before race detection on plain memory
    int  max_threads    = 14;
    int  horizon        = 20000; // decision points per execution before a livelock is reported
    double weight       = 1.0;   // share of the time budget
    const char* tags    = "";    // properties this scenario belongs to (space separated); empty: all
};

struct Event
{
    int      thread;
    int      code;
    long     a, b;
    long     vtime; // virtual nanoseconds since start of execution
    uint32_t seq;
};

void add(const std::string& name, Config cfg, std::function<void()> body);
bool thorough();                   // the thorough tier is running (bigger data bounds)
bool punctual();                   // the clock only advances while nobody can run (no time_races)
bool is(const char* property);     // the running check decides this property (always true without --property)

// ---- usable inside an execution (uninstrumented, never scheduling points unless stated) ----
void                      rec(int code, long a = 0, long b = 0); // append to the global event log
struct EventList
{
    const Event* data;
    size_t       n;
    const Event* begin() const { return data; }
    const Event* end() const { return data + n; }
    size_t       size() const { return n; }
    const Event& operator[](size_t i) const { return data[i]; }
};
EventList                 events();
uint32_t                  seq();                                 // current global event number
void                      fail(const std::string& msg);          // report a violation of the scenario's property
void                      outcome(const std::string& s);         // count distinct outcomes
int                       choose(int n);                         // data nondeterminism: explores 0..n-1
void                      point();                               // scheduling point dependent on every other point()
int                       tid();
long                      live_blocks();                         // heap blocks allocated minus freed by executions (differences only)
long                      vnow();                                // virtual ns since start of the execution
void                      quiet(bool on);                        // suspend instrumentation in the calling thread
int                       live_threads();                        // controlled threads not finished (incl. caller)
void                      settle();                              // let every other thread run until all are blocked or finished
                                                                 // (virtual time passes), then return
void                      settle_until(long vns);                // same, but virtual time does not pass vns
struct Quiet
{
    Quiet() { quiet(true); }
    ~Quiet() { quiet(false); }
};
} // namespace mc

#define MC_CHECK(cond, msg)                  \
    do                                       \
    {                                        \
        if (!(cond))                         \
            ::mc::fail(std::string{msg});    \
    } while (0)
