// Shared pieces of the concurrent harnesses: instrumented subscriber, manual and cold sources, history recording, oracles.
#pragma once
#include <mc.h>
#include <rpp/rpp.hpp>
#include <atomic>
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "../ref/model.hpp"

// The link operations of std::list live inside libstdc++.so, where the race detector can't see their accesses: the same
// operations are defined here, so that they are compiled with instrumentation.
namespace std
{
_GLIBCXX_BEGIN_NAMESPACE_VERSION
namespace __detail
{
[[gnu::weak, gnu::noinline]] void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
{
    _M_next               = pos;
    _M_prev               = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev          = this;
}
[[gnu::weak, gnu::noinline]] void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = _M_next;
    _List_node_base* const p = _M_prev;
    p->_M_next               = n;
    n->_M_prev               = p;
}
} // namespace __detail
_GLIBCXX_END_NAMESPACE_VERSION
} // namespace std

namespace h
{
using ref::Ev;
using ref::Out;
using V = long;

enum Code : int
{
    S_BEGIN = 1,  // notification enters the subscriber: a = sink, b = encoded event
    S_END,        // ... and leaves
    OP_BEGIN,     // source operation: a = source, b = encoded event
    OP_END,       //
    SUB,          // a = source was subscribed
    CANCEL,       // a = source was told to stop
    D_BEGIN,      // dispose called: a = who
    D_END,        //
    MARK,         // free use
    RUN_BEGIN,    // scheduler task starts: a = task id, b = worker
    RUN_END,
};
inline long enc(Ev e) { return (e.k == 'N' ? 0 : e.k == 'E' ? 1 : 2) + 4 * e.v; }
inline Ev   dec(long x) { return Ev{"NEC"[x & 3], x >> 2}; }

inline std::exception_ptr make_error(long id = 0)
{
    static const std::exception_ptr e0 = std::make_exception_ptr(std::runtime_error{"e0"});
    static const std::exception_ptr e1 = std::make_exception_ptr(std::runtime_error{"e1"});
    static const std::exception_ptr e2 = std::make_exception_ptr(std::runtime_error{"e2"});
    static const std::exception_ptr e3 = std::make_exception_ptr(std::runtime_error{"e3"});
    return id == 0 ? e0 : id == 1 ? e1 : id == 2 ? e2 : e3;
}
[[maybe_unused]] inline const bool errors_made = (make_error(0), make_error(1), make_error(2), make_error(3), true); // no lazy construction inside of executions
inline long error_id(const std::exception_ptr& p)
{
    for (long i = 0; i < 4; ++i)
        if (make_error(i) == p)
            return i;
    return 99;
}

// ---------------------------------------------------------------- subscriber
// Records every notification; `touched` is plain memory, so unsynchronised consecutive notifications are data races.
struct SinkState
{
    int  id      = 0;
    long touched = 0;
};
template<class T>
struct SinkObserver
{
    std::shared_ptr<SinkState>       st;
    std::function<void(const T&)>    extra = {};
    static long                      as_long(const T& v) { return static_cast<long>(v); }
    void                             note(Ev e) const
    {
        mc::rec(S_BEGIN, st->id, enc(e));
        st->touched += 1;
        mc::point();
        st->touched += 1;
    }
    void on_next(const T& v) const
    {
        note({'N', as_long(v)});
        if (extra)
            extra(v);
        mc::rec(S_END, st->id, enc({'N', as_long(v)}));
    }
    void on_error(const std::exception_ptr& e) const
    {
        note({'E', error_id(e)});
        mc::rec(S_END, st->id, enc({'E', error_id(e)}));
    }
    void on_completed() const
    {
        note({'C', 0});
        mc::rec(S_END, st->id, enc({'C', 0}));
    }
};

template<class T = V>
struct Sink
{
    std::shared_ptr<SinkState>    st = std::make_shared<SinkState>();
    std::function<void(const T&)> extra{};
    explicit Sink(int id = 0) { st->id = id; }
    auto observer() const
    {
        auto s = SinkObserver<T>{st, extra};
        return rpp::make_lambda_observer<T>([s](const T& v) { s.on_next(v); }, [s](const std::exception_ptr& e) { s.on_error(e); }, [s] { s.on_completed(); });
    }
    template<class O>
    void subscribe(const O& o) const
    {
        auto s = SinkObserver<T>{st, extra};
        o.subscribe([s](const T& v) { s.on_next(v); }, [s](const std::exception_ptr& e) { s.on_error(e); }, [s] { s.on_completed(); });
    }
    template<class O>
    auto subscribe_with_disposable(const O& o) const
    {
        auto s = SinkObserver<T>{st, extra};
        return o.subscribe_with_disposable([s](const T& v) { s.on_next(v); }, [s](const std::exception_ptr& e) { s.on_error(e); }, [s] { s.on_completed(); });
    }
};

// ---------------------------------------------------------------- sources
template<class T, class Obs>
void op(int src, Obs&& obs, Ev e, const std::function<T(long)>& make = {})
{
    mc::rec(OP_BEGIN, src, enc(e));
    if (e.k == 'N')
    {
        if constexpr (std::is_convertible_v<long, T>)
            obs.on_next(make ? make(e.v) : T(e.v));
        else
            obs.on_next(make(e.v));
    }
    else if (e.k == 'E')
        obs.on_error(make_error(e.v));
    else
        obs.on_completed();
    mc::rec(OP_END, src, enc(e));
}

// A source whose events are issued by the harness threads after it has been subscribed.
template<class T>
struct Src
{
    int                                    id;
    std::optional<rpp::dynamic_observer<T>> obs{};
    std::function<T(long)>                 make{};
    bool                                   with_upstream = true;
    explicit Src(int i) : id(i) {}
    Src(const Src&) = delete;
    auto observable()
    {
        return rpp::source::create<T>([this](auto&& o) {
            mc::rec(SUB, id);
            if (with_upstream)
                o.set_upstream(rpp::make_callback_disposable([i = id]() noexcept { mc::rec(CANCEL, i); }));
            obs.emplace(std::forward<decltype(o)>(o).as_dynamic());
        });
    }
    void play(std::initializer_list<Ev> es)
    {
        for (auto& e : es)
            op<T>(id, *obs, e, make);
    }
    void play(const std::vector<Ev>& es)
    {
        for (auto& e : es)
            op<T>(id, *obs, e, make);
    }
};

// Emits `script` on every subscription, in the subscribing thread or in a new one.
inline rpp::dynamic_observable<V> cold(int id, std::vector<Ev> script, bool threaded)
{
    return rpp::source::create<V>([=](auto&& o) {
               mc::rec(SUB, id);
               o.set_upstream(rpp::make_callback_disposable([id]() noexcept { mc::rec(CANCEL, id); }));
               if (!threaded)
               {
                   for (auto& e : script)
                       op<V>(id, o, e);
               }
               else
                   std::thread{[script, id, d = std::forward<decltype(o)>(o).as_dynamic()]() {
                       for (auto& e : script)
                           op<V>(id, d, e);
                   }}.detach();
           })
        .as_dynamic();
}

// ---------------------------------------------------------------- oracles
struct SrcOp
{
    int  thread, src;
    Ev   e;
    long begin, end; // event numbers
};
struct History
{
    std::vector<SrcOp> ops;
    Out                out;      // of sink 0
    std::string        problem;  // serialisation problem
};

inline History history(int sink = 0)
{
    History     r;
    const auto  ev    = mc::events();
    int         inside = 0;
    bool        term   = false;
    for (size_t i = 0; i < ev.size(); ++i)
    {
        const auto& e = ev[i];
        if (e.code == OP_BEGIN)
            r.ops.push_back({e.thread, int(e.a), dec(e.b), long(i), -1});
        else if (e.code == OP_END)
        {
            for (size_t k = r.ops.size(); k-- > 0;)
                if (r.ops[k].thread == e.thread && r.ops[k].src == int(e.a) && r.ops[k].end < 0)
                {
                    r.ops[k].end = long(i);
                    break;
                }
        }
        else if (e.code == S_BEGIN && e.a == sink)
        {
            const Ev d = dec(e.b);
            if (inside)
                r.problem = "notification " + ref::str({d}) + " delivered while another one is being handled; received so far: " + ref::str(r.out);
            if (term)
                r.problem = "notification " + ref::str({d}) + " delivered after the terminal one; received: " + ref::str(r.out);
            ++inside;
            if (d.k != 'N')
                term = true;
            r.out.push_back(d);
        }
        else if (e.code == S_END && e.a == sink)
            --inside;
    }
    return r;
}

inline std::string describe(const History& hh)
{
    std::string s = "received [" + ref::str(hh.out) + "] operations:";
    for (auto& o : hh.ops)
        s += " t" + std::to_string(o.thread) + ":s" + std::to_string(o.src) + "." + ref::str({o.e});
    return s;
}

inline bool linearize(const std::vector<SrcOp>& ops, std::vector<char>& used, size_t left, const ref::Model& m, const Out& want, size_t have)
{
    if (left == 0)
        return have == want.size();
    for (size_t i = 0; i < ops.size(); ++i)
    {
        if (used[i])
            continue;
        bool minimal = true;
        for (size_t k = 0; k < ops.size() && minimal; ++k)
            if (!used[k] && k != i)
            {
                if (ops[k].thread == ops[i].thread && ops[k].src == ops[i].src && k < i)
                    minimal = false;
                else if (ops[k].end >= 0 && ops[k].end < ops[i].begin)
                    minimal = false;
            }
        if (!minimal)
            continue;
        auto c = m.clone();
        Out  o;
        if (c->apply(ops[i].src, ops[i].e, o) == ref::Res::never && !m.done)
            continue;
        if (have + o.size() > want.size())
            continue;
        bool same = true;
        for (size_t k = 0; k < o.size() && same; ++k)
            same = o[k] == want[have + k];
        if (!same)
            continue;
        used[i] = 1;
        if (linearize(ops, used, left - 1, *c, want, have + o.size()))
            return true;
        used[i] = 0;
    }
    return false;
}

// the standard end-of-execution checks of C01 / C02
inline History check_serial(int sink = 0)
{
    mc::Quiet q;
    History   hh = history(sink);
    if (mc::is("C01") && !hh.problem.empty())
        mc::fail(hh.problem + "; " + describe(hh));
    mc::outcome(ref::str(hh.out));
    return hh;
}
inline History check_model(const ref::Model& m, const Out* exact = nullptr)
{
    History   hh = check_serial();
    mc::Quiet q;
    if (mc::is("C02"))
    {
        std::vector<char> used(hh.ops.size(), 0);
        if (!linearize(hh.ops, used, hh.ops.size(), m, hh.out, 0))
            mc::fail("no sequential order of the source events explains what was received: " + describe(hh));
        if (exact && !(hh.out == *exact))
            mc::fail("expected exactly [" + ref::str(*exact) + "]: " + describe(hh));
    }
    return hh;
}
inline size_t count(int code, long a)
{
    size_t n = 0;
    for (auto& e : mc::events())
        n += e.code == code && e.a == a;
    return n;
}

struct Reg
{
    Reg() = default;
};
#ifndef H_PARTS // a unit can be compiled in H_PARTS pieces, every piece with its share of the scenarios
    #define H_PARTS 1
    #define H_PART 0
#endif
template<int Index>
struct Pending
{
    const char* name;
    const char* tags;
    mc::Config  cfg;
    template<class F>
    Reg operator<<(F f)
    {
        if constexpr (Index % H_PARTS == H_PART)
        {
            cfg.tags = tags;
            mc::add(name, cfg, [f] { f(0); });
        }
        return {};
    }
};
#define H_CAT2(a, b) a##b
#define H_CAT(a, b) H_CAT2(a, b)
#define H_SC(n, name, tags, ...) [[maybe_unused]] static const ::h::Reg H_CAT(reg_, n) = ::h::Pending<n>{name, tags, ::mc::Config{__VA_ARGS__}} << []([[maybe_unused]] auto h_unused)
#define SC(name, tags, ...) H_SC(__COUNTER__, name, tags, __VA_ARGS__)
} // namespace h
