// Reference models of the combining operators: deterministic event machines, deliberately boring.
// Used (1) by the linearizability oracle over real concurrent executions and (2) by the exhaustive history checker.
#pragma once
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
struct Ev
{
    char k; // 'N' next, 'E' error, 'C' completed
    long v;
    bool operator==(const Ev& o) const { return k == o.k && (k == 'C' || v == o.v); }
};
using Out = std::vector<Ev>;

inline std::string str(const Out& o)
{
    std::string s;
    for (auto& e : o)
    {
        if (!s.empty())
            s += ' ';
        s += e.k;
        if (e.k != 'C')
            s += std::to_string(e.v);
    }
    return s.empty() ? "-" : s;
}

enum class Res
{
    ok,
    never // source was never subscribed at this point
};

// Source numbering: 0 = main/outer; others as documented per model.
struct Model
{
    bool done = false;
    virtual ~Model()                                       = default;
    virtual std::unique_ptr<Model> clone() const           = 0;
    virtual Res                    apply(int src, Ev e, Out& out) = 0;
};

template<class D>
struct M : Model
{
    std::unique_ptr<Model> clone() const override { return std::make_unique<D>(static_cast<const D&>(*this)); }
    void                   emit(Out& o, Ev e)
    {
        if (this->done)
            return;
        o.push_back(e);
        if (e.k != 'N')
            this->done = true;
    }
};

// n symmetric sources
struct Merge : M<Merge>
{
    std::vector<char> fin;
    int               left;
    explicit Merge(int n) : fin(n, 0), left(n) {}
    Res apply(int s, Ev e, Out& o) override
    {
        if (fin[s])
            return Res::ok;
        if (e.k == 'N' || e.k == 'E')
            emit(o, e);
        if (e.k == 'C' && --left == 0)
            emit(o, e);
        if (e.k != 'N')
            fin[s] = 1;
        return Res::ok;
    }
};

// source 0 = outer, value v of outer subscribes inner source v (1..)
struct FlatMap : M<FlatMap>
{
    std::vector<char> st; // 0 never, 1 active, 2 finished
    int               left = 1;
    explicit FlatMap(int inners) : st(inners + 1, 0) { st[0] = 1; }
    Res apply(int s, Ev e, Out& o) override
    {
        if (st[s] == 0)
            return Res::never;
        if (st[s] == 2)
            return Res::ok;
        if (e.k == 'E')
            emit(o, e);
        else if (e.k == 'C')
        {
            if (--left == 0)
                emit(o, e);
        }
        else if (s == 0)
        {
            if (!done)
            {
                st[e.v] = 1;
                ++left;
            }
        }
        else
            emit(o, e);
        if (e.k != 'N')
            st[s] = 2;
        return Res::ok;
    }
};

// outer 0 emits inner ids; inner sources are subscribed one after another
struct Concat : M<Concat>
{
    std::vector<char> st;
    std::deque<int>   q;
    int               cur       = 0;
    bool              outer_fin = false;
    explicit Concat(int inners) : st(inners + 1, 0) { st[0] = 1; }
    void advance(Out& o)
    {
        if (done)
            return;
        if (!q.empty())
        {
            cur = q.front();
            q.pop_front();
            st[cur] = 1;
        }
        else
        {
            cur = 0;
            if (outer_fin)
                emit(o, {'C', 0});
        }
    }
    Res apply(int s, Ev e, Out& o) override
    {
        if (st[s] == 0)
            return Res::never;
        if (st[s] == 2)
            return Res::ok;
        if (e.k == 'E')
        {
            st[s] = 2;
            emit(o, e);
        }
        else if (s == 0)
        {
            if (e.k == 'N')
            {
                if (!done)
                {
                    q.push_back(static_cast<int>(e.v));
                    if (!cur)
                        advance(o);
                }
            }
            else
            {
                st[0]     = 2;
                outer_fin = true;
                if (!cur && q.empty())
                    emit(o, e);
            }
        }
        else if (e.k == 'N')
            emit(o, e);
        else
        {
            st[s] = 2;
            advance(o);
        }
        return Res::ok;
    }
};

struct Switch : M<Switch>
{
    std::vector<char> st;
    int               cur       = 0;
    bool              outer_fin = false;
    explicit Switch(int inners) : st(inners + 1, 0) { st[0] = 1; }
    Res apply(int s, Ev e, Out& o) override
    {
        if (st[s] == 0)
            return Res::never;
        if (st[s] == 2)
            return Res::ok;
        if (e.k == 'E')
        {
            st[s] = 2;
            emit(o, e);
        }
        else if (s == 0)
        {
            if (e.k == 'N')
            {
                if (!done)
                {
                    if (cur)
                        st[cur] = 2;
                    cur     = static_cast<int>(e.v);
                    st[cur] = 1;
                }
            }
            else
            {
                st[0]     = 2;
                outer_fin = true;
                if (!cur)
                    emit(o, e);
            }
        }
        else if (e.k == 'N')
            emit(o, e);
        else
        {
            st[s] = 2;
            cur   = 0;
            if (outer_fin)
                emit(o, e);
        }
        return Res::ok;
    }
};

// combined values are encoded as base-100 numbers: first source most significant
inline long combine(const std::vector<long>& v)
{
    long r = 0;
    for (long x : v)
        r = r * 100 + x;
    return r;
}

struct CombineLatest : M<CombineLatest>
{
    std::vector<char> fin, has;
    std::vector<long> val;
    int               left, missing;
    explicit CombineLatest(int n) : fin(n, 0), has(n, 0), val(n, 0), left(n), missing(n) {}
    Res apply(int s, Ev e, Out& o) override
    {
        if (fin[s])
            return Res::ok;
        if (e.k == 'N')
        {
            if (!has[s])
            {
                has[s] = 1;
                --missing;
            }
            val[s] = e.v;
            if (!missing)
                emit(o, {'N', combine(val)});
            return Res::ok;
        }
        fin[s] = 1;
        if (e.k == 'E')
            emit(o, e);
        else if (--left == 0)
            emit(o, e);
        return Res::ok;
    }
};

struct Zip : M<Zip>
{
    std::vector<char>             fin;
    std::vector<std::deque<long>> q;
    int                           left;
    explicit Zip(int n) : fin(n, 0), q(n), left(n) {}
    Res apply(int s, Ev e, Out& o) override
    {
        if (fin[s])
            return Res::ok;
        if (e.k == 'N')
        {
            q[s].push_back(e.v);
            for (auto& x : q)
                if (x.empty())
                    return Res::ok;
            std::vector<long> v;
            for (auto& x : q)
            {
                v.push_back(x.front());
                x.pop_front();
            }
            emit(o, {'N', combine(v)});
            return Res::ok;
        }
        fin[s] = 1;
        if (e.k == 'E')
            emit(o, e);
        else if (--left == 0)
            emit(o, e);
        return Res::ok;
    }
};

// source 0 = main, others supply the latest value; completion of the others is ignored
struct WithLatest : M<WithLatest>
{
    std::vector<char> fin, has;
    std::vector<long> val;
    int               missing;
    explicit WithLatest(int n) : fin(n, 0), has(n, 0), val(n, 0), missing(n - 1) {}
    Res apply(int s, Ev e, Out& o) override
    {
        if (fin[s])
            return Res::ok;
        if (e.k == 'N')
        {
            if (s != 0)
            {
                if (!has[s])
                {
                    has[s] = 1;
                    --missing;
                }
                val[s] = e.v;
            }
            else if (!missing)
            {
                val[0] = e.v;
                emit(o, {'N', combine(val)});
            }
            return Res::ok;
        }
        fin[s] = 1;
        if (e.k == 'E' || s == 0)
            emit(o, e);
        return Res::ok;
    }
};

// source 0 = main, source 1 = trigger: first event of the trigger ends the stream (value or completion: completed)
struct TakeUntil : M<TakeUntil>
{
    std::vector<char> fin{0, 0};
    Res apply(int s, Ev e, Out& o) override
    {
        if (fin[s])
            return Res::ok;
        if (s == 1 && e.k == 'N')
            e = {'C', 0};
        else if (e.k != 'N')
            fin[s] = 1;
        emit(o, e);
        return Res::ok;
    }
};
} // namespace ref
