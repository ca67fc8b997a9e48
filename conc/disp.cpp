// D02: every sequence of operations on composite and ref-counted disposables, including operations issued from inside of disposal actions,
//      against a plain reference implementation. D01: every pair (triple) of short programs on shared disposables under every interleaving;
//      the final state has to be one some sequential order of the operations produces.
#include "h.hpp"
#include <rpp/disposables/refcount_disposable.hpp>
#include <set>
namespace
{
#define UNTRACKED __attribute__((no_sanitize("thread"), noinline)) // bookkeeping of the harness only
enum K : int
{
    ADD,     // P.add(item)
    ADDW,    // P.add(weak item)
    REMOVE,  // P.remove(item)
    DISPOSE, // item.dispose()
    DROP,    // the thread's handle to the item goes
    CLEAR,   // P.clear()
    PDISPOSE,
    PDROP,
    REF, // item slot = P.add_ref(mode)
    NEST, // Q.add(item)
    SELF, // P.add(P)
    NOP,
};
struct Op
{
    K   k;
    int i = 0;
    int m = 0;
};
std::string str(const Op& o)
{
    static const char* n[] = {"add", "add weak", "remove", "dispose", "drop", "clear", "dispose parent", "drop parent", "ref", "nest", "add itself", "-"};
    return std::string{n[o.k]} + (o.k == CLEAR || o.k == PDISPOSE || o.k == PDROP || o.k == SELF || o.k == NOP ? "" : " " + std::to_string(o.i)) + (o.k == REF ? (o.m ? "s" : "w") : "");
}
constexpr int ITEMS = 6; // 0..2 callbacks, 3 nested composite Q (with its own callback 5), 4: added by actions
using State = std::string;

// ---------------------------------------------------------------- reference
struct Node
{
    bool                                                            disposed = false;
    std::vector<std::pair<std::shared_ptr<Node>, std::weak_ptr<Node>>> members{}; // strong or weak
    bool                                                            composite = false;
    std::function<void(bool destroying)>                            hook{};
    size_t                                                          capacity = 1000;
    bool                                                            dead     = false;
    static std::shared_ptr<Node>                                    make()
    {
        return {new Node{}, [](Node* n) { n->dispose(true); n->dead = true; n->members.clear(); n->hook = {}; delete n; }};
    }
    void dispose(bool destroying = false)
    {
        if (disposed)
            return;
        disposed = true;
        if (hook)
        {
            auto f = hook;
            f(destroying);
        }
        auto m = members;
        for (auto& [s, w] : m)
            if (auto l = w.lock())
                l->dispose();
        m.clear();
        auto out = std::move(members);
        members.clear();
    }
    bool add(const std::shared_ptr<Node>& n, bool strong)
    {
        if (!n || n->disposed || n.get() == this)
            return true;
        if (disposed)
        {
            n->dispose();
            return true;
        }
        if (members.size() >= capacity)
            return false;
        members.emplace_back(strong ? n : nullptr, n);
        return true;
    }
    void remove(const Node* n)
    {
        if (disposed)
            return;
        std::vector<std::shared_ptr<Node>> out;
        for (size_t i = 0; i < members.size();)
            if (members[i].second.lock().get() == n)
            {
                out.push_back(members[i].first);
                members.erase(members.begin() + long(i));
            }
            else
                ++i;
    }
    void clear()
    {
        if (disposed)
            return;
        auto out = std::move(members);
        members.clear();
        for (auto& [s, w] : out)
            if (auto l = w.lock())
                l->dispose();
    }
};
struct RefWorld
{
    int                                        runs[ITEMS]{}, overflows = 0;
    std::shared_ptr<Node>                      p[3], item[3][ITEMS];
    std::weak_ptr<Node>                        wp, w[ITEMS];
    int                                        refs = 0; // outstanding
    std::vector<std::weak_ptr<Node>>           made{};
    std::vector<Op>                            action;
    bool                                       refcounted;
    explicit RefWorld(int threads, bool refcounted, size_t capacity, std::vector<Op> action)
        : action(std::move(action))
        , refcounted(refcounted)
    {
        auto P      = Node::make();
        P->capacity = capacity;
        wp          = P;
        std::shared_ptr<Node> it[ITEMS];
        for (int i = 0; i < ITEMS; ++i)
        {
            it[i] = Node::make();
            w[i]  = it[i];
        }
        for (int i = 0; i < ITEMS; ++i)
        {
            if (i == 3)
                continue;
            it[i]->hook = [this, i](bool) {
                ++runs[i];
                if (size_t(i) < this->action.size())
                    apply(-1, this->action[size_t(i)]);
            };
        }
        it[3]->add(it[5], true);
        for (int t = 0; t < threads; ++t)
        {
            p[t] = P;
            for (int i = 0; i < ITEMS; ++i)
                if (i != 5)
                    item[t][i] = it[i];
        }
    }
    void make_ref(int t, int slot, bool strong_ref)
    {
        auto P = p[t];
        item[t][slot].reset();
        if (!P || P->disposed)
            return;
        auto r = Node::make();
        ++refs;
        std::weak_ptr<Node>   weak = P;
        std::shared_ptr<Node> keep = strong_ref ? nullptr : P;
        r->hook                    = [this, weak, keep, me = std::weak_ptr<Node>(r), raw = r.get()](bool) mutable {
            --refs;
            if (auto P = weak.lock())
            {
                P->remove(raw);
                if (!refs && !P->disposed)
                    P->dispose();
            }
            raw->hook = {}; // (releases the source)
        };
        P->add(r, strong_ref);
        item[t][slot] = r;
        made.push_back(r);
    }
    void apply(int t, const Op& o)
    {
        auto P = t < 0 ? wp.lock() : p[t];
        auto I = t < 0 ? w[o.i].lock() : item[t][o.i];
        switch (o.k)
        {
            case ADD:
            case ADDW:
                if (P && !P->add(I, o.k == ADD))
                    ++overflows;
                else if (!P && I)
                    I->dispose();
                break;
            case REMOVE:
                if (P && I)
                    P->remove(I.get());
                break;
            case DISPOSE:
                if (I)
                    I->dispose();
                break;
            case DROP:
                I.reset();
                item[t][o.i].reset();
                break;
            case CLEAR:
                if (P)
                    P->clear();
                break;
            case PDISPOSE:
                if (P)
                    P->dispose();
                break;
            case PDROP:
                P.reset();
                p[t].reset();
                break;
            case REF: make_ref(t, o.i, o.m); break;
            case NEST:
                if (auto Q = t < 0 ? w[3].lock() : item[t][3])
                    Q->add(I, true);
                break;
            case SELF: // (ignored)
            case NOP: break;
        }
    }
    State state(int threads) const
    {
        State s;
        for (int i = 0; i < ITEMS; ++i)
            s += std::to_string(runs[i]);
        s += "/";
        for (int t = 0; t < threads; ++t)
        {
            s += !p[t] ? "-" : p[t]->disposed ? "D" : "a";
            for (int i = 0; i < ITEMS; ++i)
                s += !item[t][i] ? "-" : item[t][i]->disposed ? "D" : "a";
        }
        s += "/o" + std::to_string(overflows);
        return s;
    }
    std::string alive() const
    {
        std::string s;
        for (int i = 0; i < ITEMS; ++i)
            s += w[i].expired() ? "." : "*";
        int n = 0;
        for (auto& r : made)
            n += !r.expired();
        return s + (wp.expired() ? "." : "*") + std::to_string(n); // (references)
    }
    void drop_all(int threads)
    {
        for (int t = 0; t < threads; ++t)
        {
            for (auto& i : item[t])
                i.reset();
            p[t].reset();
        }
    }
};
// ---------------------------------------------------------------- the real thing
int  g_runs[ITEMS], g_over, g_live;
UNTRACKED void bump(int& x, int d) { x += d; }
struct Life
{
    Life() { bump(g_live, 1); }
    Life(const Life&) { bump(g_live, 1); }
    Life(Life&&) noexcept { bump(g_live, 1); }
    ~Life() { bump(g_live, -1); }
};
template<class PT>
struct RealWorld
{
    rpp::disposable_wrapper_impl<PT> p[3], wp = rpp::disposable_wrapper_impl<PT>::empty();
    bool                             has_p[3]{};
    std::vector<rpp::disposable_wrapper> item[3], w;
    rpp::composite_disposable_wrapper    q[3], wq = rpp::composite_disposable_wrapper::empty();
    bool                                 has[3][ITEMS]{};
    std::vector<rpp::disposable_wrapper> made[3]; // references made by threads
    std::vector<Op>                      action;
    explicit RealWorld(int threads, std::vector<Op> action)
        : p{rpp::disposable_wrapper_impl<PT>::empty(), rpp::disposable_wrapper_impl<PT>::empty(), rpp::disposable_wrapper_impl<PT>::empty()}
        , q{rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty(), rpp::composite_disposable_wrapper::empty()}
        , action(std::move(action))
    {
        for (auto& r : g_runs)
            r = 0;
        g_over = g_live = 0;
        auto P          = rpp::disposable_wrapper_impl<PT>::make();
        wp              = P.as_weak();
        auto Q          = rpp::composite_disposable_wrapper::make();
        wq              = Q.as_weak();
        for (int i = 0; i < ITEMS; ++i)
        {
            rpp::disposable_wrapper d = Q;
            if (i != 3)
                d = rpp::make_callback_disposable([this, i, l = Life{}]() noexcept {
                    bump(g_runs[i], 1);
                    if (size_t(i) < this->action.size())
                        apply(-1, this->action[size_t(i)]);
                });
            w.push_back(d.as_weak());
            if (i == 5)
                Q.add(d);
            for (int t = 0; t < threads; ++t)
            {
                item[t].push_back(i == 5 ? rpp::disposable_wrapper::empty() : d);
                has[t][i] = i != 5;
            }
        }
        for (int t = 0; t < threads; ++t)
        {
            p[t]     = P;
            has_p[t] = true;
            q[t]     = Q;
        }
    }
    void apply(int t, const Op& o)
    {
        auto P = t < 0 ? wp : p[t];
        auto I = t < 0 ? w[size_t(o.i)] : item[t][size_t(o.i)];
        switch (o.k)
        {
            case ADD:
            case ADDW:
                try
                {
                    P.add(o.k == ADD ? I : I.as_weak());
                }
                catch (const rpp::utils::more_disposables_than_expected&)
                {
                    bump(g_over, 1);
                }
                break;
            case REMOVE:
                if (I.is_disposed() && !I_alive(I))
                    break;
                P.remove(I);
                break;
            case DISPOSE: {
                I.dispose();
                if (!I.is_disposed())
                    mc::fail("dispose returned, but the disposable isn't disposed");
                break;
            }
            case DROP:
                I                          = rpp::disposable_wrapper::empty();
                item[t][size_t(o.i)]       = rpp::disposable_wrapper::empty();
                has[t][o.i]                = false;
                if (o.i == 3)
                    q[t] = rpp::composite_disposable_wrapper::empty();
                break;
            case CLEAR: P.clear(); break;
            case PDISPOSE:
                P.dispose();
                if (!P.is_disposed())
                    mc::fail("dispose returned, but the parent isn't disposed");
                break;
            case PDROP:
                P        = rpp::disposable_wrapper_impl<PT>::empty();
                p[t]     = P;
                has_p[t] = false;
                break;
            case REF:
                if constexpr (std::same_as<PT, rpp::refcount_disposable>)
                {
                    has[t][o.i]          = false;
                    item[t][size_t(o.i)] = rpp::disposable_wrapper::empty();
                    if (auto l = P.lock())
                    {
                        auto r = l->add_ref(o.m ? rpp::refcount_disposable::Mode::StrongRefRefSource : rpp::refcount_disposable::Mode::WeakRefStrongSource);
                        if (!r.is_disposed())
                        {
                            item[t][size_t(o.i)] = r;
                            has[t][o.i]          = true;
                            made[t].push_back(r.as_weak());
                        }
                    }
                }
                break;
            case NEST: (t < 0 ? wq : q[t]).add(I); break;
            case SELF: P.add(P); break;
            case NOP: break;
        }
    }
    static bool                    I_alive(const rpp::disposable_wrapper& d) { return !!d.lock(); }
    State state(int threads) const
    {
        State s;
        for (int r : g_runs)
            s += std::to_string(r);
        s += "/";
        for (int t = 0; t < threads; ++t)
        {
            s += !has_p[t] ? "-" : p[t].is_disposed() ? "D" : "a";
            for (int i = 0; i < ITEMS; ++i)
                s += !has[t][i] ? "-" : item[t][size_t(i)].is_disposed() ? "D" : "a";
        }
        s += "/o" + std::to_string(g_over);
        return s;
    }
    std::string alive() const
    {
        std::string s;
        for (auto& x : w)
            s += x.lock() ? "*" : ".";
        int n = 0;
        for (auto& m : made)
            for (auto& r : m)
                n += !!r.lock();
        return s + (wp.lock() ? "*" : ".") + std::to_string(n); // (references)
    }
    void drop_all(int threads)
    {
        for (int t = 0; t < threads; ++t)
        {
            for (auto& i : item[t])
                i = rpp::disposable_wrapper::empty();
            q[t] = rpp::composite_disposable_wrapper::empty();
            p[t] = rpp::disposable_wrapper_impl<PT>::empty();
        }
    }
};
using namespace rpp::details::disposables;
using Plain    = rpp::composite_disposable;
using Dynamic2 = rpp::composite_disposable_impl<dynamic_disposables_container<2>>;
using Static1  = rpp::composite_disposable_impl<static_disposables_container<1>>;
using Static2  = rpp::composite_disposable_impl<static_disposables_container<2>>;
using Static5  = rpp::composite_disposable_impl<static_disposables_container<5>>;
using Counted  = rpp::refcount_disposable;
template<class P>
constexpr size_t capacity = 1000;
template<>
constexpr size_t capacity<Static1> = 1;
template<>
constexpr size_t capacity<Static2> = 2;
template<>
constexpr size_t capacity<Static5> = 5;

template<class P>
void sequential(const std::vector<Op>& alphabet, int depth, std::vector<Op> actions)
{
    RealWorld<P> real{1, actions};
    RefWorld     refw{1, std::same_as<P, Counted>, capacity<P>, actions};
    std::string  done;
    for (int s = 0; s < depth; ++s)
    {
        const int c = mc::choose(int(alphabet.size()) + 1);
        if (!c)
            break;
        const Op o = alphabet[size_t(c - 1)];
        done += str(o) + "; ";
        real.apply(0, o);
        mc::Quiet q;
        refw.apply(0, o);
        if (real.state(1) != refw.state(1))
            mc::fail("after [" + done + "] (runs of actions/what is disposed): " + real.state(1) + " expected " + refw.state(1));
        if (real.alive() != refw.alive())
            mc::fail("after [" + done + "] alive: " + real.alive() + " expected " + refw.alive());
    }
    real.drop_all(1);
    mc::Quiet q;
    refw.drop_all(1);
    if (real.state(0) != refw.state(0))
        mc::fail("after [" + done + "drop everything] " + real.state(0) + " expected " + refw.state(0));
    if (g_live)
        mc::fail("after [" + done + "drop everything] actions are not released");
    mc::outcome(real.state(1));
}
const std::vector<Op> BASIC{{ADD, 0}, {ADD, 1}, {ADD, 3}, {ADDW, 0}, {REMOVE, 0}, {REMOVE, 3}, {DISPOSE, 0}, {DISPOSE, 3}, {DROP, 0}, {DROP, 1}, {DROP, 3}, {CLEAR}, {PDISPOSE}, {PDROP}, {SELF}};
#define D2(name, P)                                                        \
    SC("composite_" name, "D01 D02", .quick_bound = 0, .thorough_bound = 0)    \
    {                                                                      \
        sequential<P>(BASIC, mc::thorough() ? 5 : 4, {});                  \
    };
D2("plain", Plain)
D2("dynamic2", Dynamic2)
D2("static1", Static1)
D2("static2", Static2)
D2("static5", Static5)
D2("refcount_as_composite", Counted)

// operations issued from inside of the action which is run by dispose/clear/destruction
const std::vector<Op> INSIDE{{NOP}, {ADDW, 4}, {ADDW, 1}, {REMOVE, 1}, {REMOVE, 0}, {CLEAR}, {PDISPOSE}, {DISPOSE, 1}, {DISPOSE, 0}};
const std::vector<Op> OUTSIDE{{ADD, 0}, {ADD, 1}, {REMOVE, 1}, {DISPOSE, 0}, {DROP, 0}, {CLEAR}, {PDISPOSE}, {PDROP}};
template<class P>
void reentrant()
{
    std::vector<Op> a;
    a.push_back(INSIDE[size_t(mc::choose(int(INSIDE.size())))]);
    a.push_back(INSIDE[size_t(mc::choose(int(INSIDE.size())))]);
    sequential<P>(OUTSIDE, mc::thorough() ? 5 : 4, a);
}
SC("reentrant_plain", "D01 D02", .quick_bound = 0, .thorough_bound = 0) { reentrant<Plain>(); };
SC("reentrant_static5", "D01 D02", .quick_bound = 0, .thorough_bound = 0) { reentrant<Static5>(); };
SC("reentrant_refcount", "D01 D02", .quick_bound = 0, .thorough_bound = 0) { reentrant<Counted>(); };

// references: slots 1 and 2 and 4 hold references
const std::vector<Op> COUNTED{{ADD, 0}, {REF, 1, 0}, {REF, 2, 0}, {REF, 1, 1}, {REF, 2, 1}, {DISPOSE, 1}, {DISPOSE, 2}, {DROP, 1}, {DROP, 2}, {CLEAR}, {PDISPOSE}, {PDROP}};
SC("refcount", "D01 D02", .quick_bound = 0, .thorough_bound = 0) { sequential<Counted>(COUNTED, mc::thorough() ? 6 : 5, {}); };
SC("refcount_reentrant", "D01 D02", .quick_bound = 0, .thorough_bound = 0)
{
    sequential<Counted>(COUNTED, mc::thorough() ? 5 : 4, {INSIDE[size_t(mc::choose(int(INSIDE.size())))]});
};

// ---------------------------------------------------------------- D01
template<class P>
void concurrent(const std::vector<Op>& setup, std::vector<std::vector<Op>> programs)
{
    const int    threads = int(programs.size());
    State        final_state;
    {
        RealWorld<P> real{threads, {}};
        for (auto& o : setup)
            real.apply(0, o);
        std::vector<std::thread> ts;
        for (int t = 1; t < threads; ++t)
            ts.emplace_back([&, t] {
                for (auto& o : programs[size_t(t)])
                    real.apply(t, o);
            });
        for (auto& o : programs[0])
            real.apply(0, o);
        for (auto& t : ts)
            t.join();
        {
            mc::Quiet q;
            final_state = real.state(threads) + real.alive();
        }
        real.drop_all(threads);
        mc::Quiet q;
        final_state += real.state(0) + (g_live ? "not released" : "");
    }
    mc::Quiet             q;
    std::set<State>       possible;
    std::vector<size_t>   pos(size_t(threads), 0);
    std::vector<std::pair<int, Op>> order;
    std::function<void()> go = [&] {
        bool end = true;
        for (int t = 0; t < threads; ++t)
            if (pos[size_t(t)] < programs[size_t(t)].size())
            {
                end = false;
                order.emplace_back(t, programs[size_t(t)][pos[size_t(t)]++]);
                go();
                order.pop_back();
                --pos[size_t(t)];
            }
        if (!end)
            return;
        RefWorld w{threads, std::same_as<P, Counted>, capacity<P>, {}};
        for (auto& o : setup)
            w.apply(0, o);
        for (auto& [t, o] : order)
            w.apply(t, o);
        State s = w.state(threads) + w.alive();
        w.drop_all(threads);
        possible.insert(s + w.state(0));
    };
    go();
    mc::outcome(final_state);
    if (!possible.count(final_state))
    {
        std::string s;
        for (auto& p : programs)
        {
            s += " [";
            for (auto& o : p)
                s += str(o) + ";";
            s += "]";
        }
        std::string e;
        for (auto& p : possible)
            e += " " + p;
        mc::fail("no sequential order of" + s + " ends with " + final_state + ", possible:" + e);
    }
}
std::vector<Op> pick(const std::vector<Op>& from, int n)
{
    std::vector<Op> r;
    for (int i = 0; i < n; ++i)
        r.push_back(from[size_t(mc::choose(int(from.size())))]);
    return r;
}
const std::vector<Op> SHARED{{ADD, 0}, {ADDW, 0}, {ADD, 1}, {REMOVE, 0}, {DISPOSE, 0}, {DROP, 0}, {CLEAR}, {PDISPOSE}, {PDROP}};
template<class P>
void pairs(int n0, int n1, const std::vector<Op>& ops)
{
    std::vector<Op> setup;
    if (mc::choose(2))
        setup.push_back({ADD, 0});
    auto a = pick(ops, n0), b = pick(ops, n1);
    concurrent<P>(setup, {a, b});
}
SC("pairs_plain", "D01 D02 M01", .quick_bound = 3, .thorough_bound = 6) { pairs<Plain>(1, 1, SHARED); };
SC("programs_plain", "D01 D02 M01", .quick_bound = 2, .thorough_bound = 3) { pairs<Plain>(2, mc::thorough() ? 2 : 1, SHARED); };
SC("pairs_static5", "D01 D02 M01", .quick_bound = 3, .thorough_bound = 6) { pairs<Static5>(1, 1, SHARED); };
SC("programs_static5", "D01 D02 M01", .quick_bound = 2, .thorough_bound = 3) { pairs<Static5>(2, 1, SHARED); };
SC("three_plain", "D01 D02 M01", .quick_bound = 2, .thorough_bound = 3)
{
    static const std::vector<Op> ops{{ADD, 0}, {ADD, 1}, {REMOVE, 0}, {DISPOSE, 0}, {CLEAR}, {PDISPOSE}};
    std::vector<Op>              setup;
    if (mc::choose(2))
        setup.push_back({ADD, 0});
    auto a = pick(ops, 1), b = pick(ops, 1), c = pick(ops, 1);
    concurrent<Plain>(setup, {a, b, c});
};
// (clear() disposes references one after another: it is not atomic with respect to new ones, so it is not a part of these programs)
const std::vector<Op> SHARED_REFS{{REF, 1, 0}, {REF, 1, 1}, {DISPOSE, 2}, {DROP, 2}, {PDISPOSE}, {PDROP}, {DISPOSE, 1}};
template<int N0, int N1>
void refs()
{
    const int              mode = mc::choose(2);
    const std::vector<Op>  setup{{ADD, 0}};
    auto                   a = pick(SHARED_REFS, N0), b = pick(SHARED_REFS, N1);
    // every thread has its own reference in the slot 2 from the beginning
    std::vector<std::vector<Op>> programs{a, b};
    State                        final_state;
    const int                    threads = 2;
    {
        RealWorld<Counted> real{threads, {}};
        real.apply(0, {ADD, 0});
        for (int t = 0; t < threads; ++t)
            real.apply(t, {REF, 2, mode});
        std::thread th{[&] {
            for (auto& o : programs[1])
                real.apply(1, o);
        }};
        for (auto& o : programs[0])
            real.apply(0, o);
        th.join();
        {
            mc::Quiet q;
            final_state = real.state(threads) + real.alive();
        }
        real.drop_all(threads);
        mc::Quiet q;
        final_state += real.state(0) + (g_live ? "not released" : "");
    }
    mc::Quiet             q;
    std::set<State>       possible;
    size_t                pos[2]{};
    std::vector<std::pair<int, Op>> order;
    std::function<void()> go = [&] {
        bool end = true;
        for (int t = 0; t < threads; ++t)
            if (pos[t] < programs[size_t(t)].size())
            {
                end = false;
                order.emplace_back(t, programs[size_t(t)][pos[t]++]);
                go();
                order.pop_back();
                --pos[t];
            }
        if (!end)
            return;
        RefWorld w{threads, true, 1000, {}};
        w.apply(0, {ADD, 0});
        for (int t = 0; t < threads; ++t)
            w.apply(t, {REF, 2, mode});
        for (auto& [t, o] : order)
            w.apply(t, o);
        State s = w.state(threads) + w.alive();
        w.drop_all(threads);
        possible.insert(s + w.state(0));
    };
    go();
    mc::outcome(final_state);
    if (!possible.count(final_state))
    {
        std::string s;
        for (auto& p : programs)
        {
            s += " [";
            for (auto& o : p)
                s += str(o) + ";";
            s += "]";
        }
        std::string e;
        for (auto& p : possible)
            e += " " + p;
        mc::fail("no sequential order of" + s + " ends with " + final_state + ", possible:" + e);
    }
}
SC("refs_pairs", "D01 D02 M01", .quick_bound = 3, .thorough_bound = 6) { refs<1, 1>(); };
SC("refs_programs", "D01 D02 M01", .quick_bound = 2, .thorough_bound = 3) { refs<2, 1>(); };
SC("refs_programs_2", "D01 D02 M01", .quick_bound = -1, .thorough_bound = 2) { refs<2, 2>(); };
} // namespace
