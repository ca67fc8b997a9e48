// O03, O04 (and the corresponding parts of O02, O07, O08, O09, R02): operators over several sources and resubscribing ones.
#include "rig.hpp"
using namespace rig;
namespace ops = rpp::ops;
namespace
{
// what sources may emit during their subscription
const Script NOTHING{}, VALUE{{'N', 1}}, VALUE_END{{'N', 1}, {'C', 0}}, END{{'C', 0}}, FAIL{{'E', 2}}, VALUE_FAIL{{'N', 1}, {'E', 2}}, TWO{{'N', 1}, {'N', 1}};
#define SYNC(...) .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, VALUE_FAIL}, .at_once_src = {__VA_ARGS__}

// ------------------------------------------------------------------------------------------------ O04: combining
template<int Count>
struct MMerge : Model
{
    int  left = Count;
    void start() override
    {
        for (int i = 0; i < Count; ++i)
            subscribe(i);
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
            N(e.v);
        else if (e.k == 'E')
            E(e.v);
        else if (--left == 0)
            C();
    }
};
RIG_OP("merge_with", "O04", false, MMerge<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::merge_with(w.src(1)));
RIG_OP("merge_with_at_once", "O04", false, MMerge<2>, ({.vals = 0, .depth = 4, SYNC(0, 1)}), w.src(0) | ops::merge_with(w.src(1)));
RIG_OP("merge_with_3", "O04", false, MMerge<3>, ({.vals = 0, .depth = 4}), w.src(0) | ops::merge_with(w.src(1), w.src(2)));

struct Outer : Model // source 0 emits the sources to use
{
    void start() override { subscribe(0, 0); }
    void on(int sub, int role, Ev e) override
    {
        if (e.k == 'E')
            E(e.v);
        else if (role == 0)
            e.k == 'N' ? source(fn(e.v)) : sources_end();
        else if (e.k == 'N')
            N(e.v);
        else
            source_end(sub);
    }
    virtual void source(long v)      = 0;
    virtual void sources_end()       = 0;
    virtual void source_end(int sub) = 0;
};
struct MFlat : Outer
{
    int  left = 1;
    void source(long v) override
    {
        ++left;
        subscribe(int(v), 1);
    }
    void dec()
    {
        if (--left == 0)
            C();
    }
    void sources_end() override { dec(); }
    void source_end(int) override { dec(); }
};
#define INNER ops::map([&w, t = Token{}](const TV& v) { return w.src(int(fn(v.get()))); })
RIG_OP("merge", "O04", true, MFlat, ({.vals = 0, .outer = 3, .depth = 6, .deeper = 1}), w.src(0) | INNER | ops::merge());
RIG_OP("flat_map", "O04", true, MFlat, ({.vals = 0, .outer = 2, .depth = 6, .deeper = 1}), w.src(0) | ops::flat_map([&w, t = Token{}](const TV& v) { return w.src(int(fn(v.get()))); }));
RIG_OP("merge_at_once", "O04", false, MFlat, ({.vals = 0, .outer = 2, .depth = 5, SYNC(1, 2)}), w.src(0) | INNER | ops::merge());
RIG_OP("merge_outer_at_once", "O04", false, MFlat, ({.vals = 0, .outer = 3, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, VALUE_FAIL, TWO}, .at_once_src = {0, 1}}), w.src(0) | INNER | ops::merge());

struct MConcat : Outer
{
    std::deque<int> q;
    bool            busy = false, fin = false;
    void            source(long v) override
    {
        q.push_back(int(v));
        if (!busy)
            advance();
    }
    void advance()
    {
        if (q.empty())
        {
            if (fin)
                C();
            return;
        }
        const int s = q.front();
        q.pop_front();
        busy = true;
        subscribe(s, 1);
    }
    void sources_end() override
    {
        fin = true;
        if (!busy)
            C();
    }
    void source_end(int) override
    {
        busy = false;
        advance();
    }
};
RIG_OP("concat", "O04", true, MConcat, ({.vals = 0, .outer = 3, .depth = 6, .deeper = 1, .one_by_one = true}), w.src(0) | INNER | ops::concat());
RIG_OP("concat_at_once", "O04", false, MConcat, ({.vals = 0, .outer = 2, .depth = 5, SYNC(1, 2), .one_by_one = true}), w.src(0) | INNER | ops::concat());
RIG_OP("concat_outer_at_once", "O04", false, MConcat, ({.vals = 0, .outer = 3, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, VALUE_FAIL, TWO}, .at_once_src = {0, 1}, .one_by_one = true}), w.src(0) | INNER | ops::concat());

struct MSwitch : Outer
{
    int  cur = -1;
    bool fin = false;
    void source(long v) override
    {
        drop(cur);
        cur = int(subs.size());
        subscribe(int(v), 1);
    }
    void sources_end() override
    {
        fin = true;
        if (!live(cur))
            C();
    }
    void source_end(int) override
    {
        if (fin)
            C();
    }
};
RIG_OP("switch_on_next", "O04", true, MSwitch, ({.vals = 0, .outer = 3, .depth = 6, .deeper = 1, .one_by_one = true}), w.src(0) | INNER | ops::switch_on_next());
RIG_OP("switch_on_next_at_once", "O04", false, MSwitch, ({.vals = 0, .outer = 2, .depth = 5, SYNC(1, 2), .one_by_one = true}), w.src(0) | INNER | ops::switch_on_next());
RIG_OP("switch_on_next_outer_at_once", "O04", false, MSwitch, ({.vals = 0, .outer = 3, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, VALUE_FAIL, TWO}, .at_once_src = {0, 1}, .one_by_one = true}), w.src(0) | INNER | ops::switch_on_next());

// one source after another
template<int Count>
struct MSeq : Model
{
    int  i = 0;
    void start() override { advance(); }
    void advance()
    {
        if (i == Count)
            C();
        else
            subscribe(i++);
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
            N(e.v);
        else if (e.k == 'E')
            E(e.v);
        else
            advance();
    }
};
RIG_OP("source_concat", "O04 R01", false, MSeq<3>, ({.vals = 2, .depth = 6, .one_by_one = true}), rpp::source::concat(w.src(0), w.src(1), w.src(2)));
RIG_OP("source_concat_1", "O04 R01", false, MSeq<1>, ({.vals = 2, .depth = 4, .one_by_one = true}), rpp::source::concat(w.src(0)));
RIG_OP("source_concat_at_once", "O04 R01", false, MSeq<3>, ({.vals = 1, .depth = 4, SYNC(0, 1, 2), .one_by_one = true}), rpp::source::concat(w.src(0), w.src(1), w.src(2)));
RIG_OP("source_concat_shared", "O04 R01", false, MSeq<2>, ({.vals = 2, .depth = 5, SYNC(0), .one_by_one = true}), rpp::source::concat<rpp::memory_model::use_shared>(w.src(0), w.src(1)));
RIG_OP("source_concat_container", "O04 R01", false, MSeq<3>, ({.vals = 2, .depth = 5, SYNC(1), .one_by_one = true}), rpp::source::concat(std::vector{w.src(0), w.src(1), w.src(2)}));
RIG_OP("source_concat_empty_container", "O04 R01", false, MSeq<0>, ({.vals = 2, .depth = 2}), rpp::source::concat(std::vector<decltype(w.src(0))>{}));
RIG_OP("source_concat_mixed", "O04 R01", false, MSeq<2>, ({.vals = 2, .depth = 5, SYNC(1), .one_by_one = true}), rpp::source::concat(w.src(0), w.src(1) | ops::map([](TV v) { return v; })));
struct MStart : MSeq<3> // the last one is the source itself
{
};
RIG_OP("start_with_observables", "O04", false, MStart, ({.vals = 2, .depth = 5, SYNC(0, 1), .one_by_one = true}), w.src(2) | ops::start_with(w.src(0), w.src(1)));

struct Tuple : Model // every source supplies a part; subscribes the others first
{
    int                            count;
    std::vector<std::deque<long>>  q;
    int                            left;
    Tuple(int n) : count(n), q(size_t(n)), left(n) {}
    void start() override
    {
        for (int i = 1; i < count; ++i)
            subscribe(i, i);
        subscribe(0, 0);
    }
    void on(int, int role, Ev e) override
    {
        if (e.k == 'N')
            value(size_t(role), e.v);
        else if (e.k == 'E')
            E(e.v);
        else if (--left == 0)
            C();
    }
    virtual void value(size_t i, long v) = 0;
    bool         all()
    {
        for (auto& x : q)
            if (x.empty())
                return false;
        return true;
    }
    long fronts()
    {
        long r = 1;
        for (auto& x : q)
            r = r * 100 + x.front();
        return r;
    }
};
template<int Count>
struct MZip : Tuple
{
    MZip() : Tuple(Count) {}
    void value(size_t i, long v) override
    {
        q[i].push_back(v);
        if (!all())
            return;
        const long r = fronts();
        for (auto& x : q)
        {
            fn(x.front());
            x.pop_front();
        }
        N(r);
    }
};
auto sel2 = [t = Token{}](const TV& a, const TV& b) { return (100 + fn(a.get())) * 100 + fn(b.get()); };
auto sel3 = [t = Token{}](const TV& a, const TV& b, const TV& c) { return ((100 + fn(a.get())) * 100 + fn(b.get())) * 100 + fn(c.get()); };
RIG_OP("zip", "O04", false, MZip<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::zip(w.src(1)));
RIG_OP("zip_selector", "O04", true, MZip<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::zip([t = Token{}](TV a, TV b) { return (100 + fn(a.get())) * 100 + fn(b.get()); }, w.src(1)));
RIG_OP("zip_3", "O04", true, MZip<3>, ({.vals = 0, .depth = 5}), w.src(0) | ops::zip(sel3, w.src(1), w.src(2)));
RIG_OP("zip_at_once", "O04", false, MZip<2>, ({.vals = 0, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, TWO}, .at_once_src = {0, 1}}), w.src(0) | ops::zip(sel2, w.src(1)));

template<int Count>
struct MLatest : Tuple
{
    MLatest() : Tuple(Count) {}
    void value(size_t i, long v) override
    {
        q[i] = {v};
        if (!all())
            return;
        for (auto& x : q)
            fn(x.front());
        N(fronts());
    }
};
RIG_OP("combine_latest", "O04", false, MLatest<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::combine_latest(w.src(1)));
RIG_OP("combine_latest_selector", "O04", true, MLatest<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::combine_latest(sel2, w.src(1)));
RIG_OP("combine_latest_3", "O04", true, MLatest<3>, ({.vals = 0, .depth = 5}), w.src(0) | ops::combine_latest(sel3, w.src(1), w.src(2)));
RIG_OP("combine_latest_at_once", "O04", false, MLatest<2>, ({.vals = 0, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, TWO}, .at_once_src = {0, 1}}), w.src(0) | ops::combine_latest(sel2, w.src(1)));

template<int Count>
struct MWithLatest : Tuple
{
    MWithLatest() : Tuple(Count) {}
    void value(size_t i, long v) override
    {
        q[i] = {v};
        if (i || !all())
            return;
        for (auto& x : q)
            fn(x.front());
        N(fronts());
    }
    void on(int sub, int role, Ev e) override
    {
        if (e.k == 'C')
        {
            if (role == 0)
                C();
        }
        else
            Tuple::on(sub, role, e);
    }
};
RIG_OP("with_latest_from", "O04", false, MWithLatest<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::with_latest_from(w.src(1)));
RIG_OP("with_latest_from_selector", "O04", true, MWithLatest<2>, ({.vals = 0, .depth = 6}), w.src(0) | ops::with_latest_from(sel2, w.src(1)));
RIG_OP("with_latest_from_3", "O04", true, MWithLatest<3>, ({.vals = 0, .depth = 5}), w.src(0) | ops::with_latest_from(sel3, w.src(1), w.src(2)));
RIG_OP("with_latest_from_at_once", "O04", false, MWithLatest<2>, ({.vals = 0, .depth = 4, .at_once = {NOTHING, VALUE, VALUE_END, END, FAIL, TWO}, .at_once_src = {0, 1}}), w.src(0) | ops::with_latest_from(sel2, w.src(1)));

struct MTakeUntil : Model
{
    void start() override
    {
        subscribe(1, 1);
        subscribe(0, 0);
    }
    void on(int, int role, Ev e) override
    {
        if (e.k == 'E')
            E(e.v);
        else if (e.k == 'C' || role == 1)
            C();
        else
            N(e.v);
    }
};
RIG_OP("take_until", "O04", false, MTakeUntil, ({.vals = 0, .depth = 6}), w.src(0) | ops::take_until(w.src(1)));
RIG_OP("take_until_at_once", "O04", false, MTakeUntil, ({.vals = 0, .depth = 4, SYNC(0, 1)}), w.src(0) | ops::take_until(w.src(1)));
RIG_OP("take_until_other_type", "O04", false, MTakeUntil, ({.vals = 0, .depth = 5}), w.src(0) | ops::take_until(w.src(1) | ops::map([](const TV&) { return 1; })));

// ------------------------------------------------------------------------------------------------ O03: resubscribing
template<int Count> // -1: for ever
struct MRepeat : Model
{
    int  n = 0;
    void start() override { again(); }
    void again()
    {
        if (n++ == Count)
            C();
        else
            subscribe(0);
    }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
            N(e.v);
        else if (e.k == 'E')
            E(e.v);
        else
            again();
    }
};
#define SYNC_N(n, ...) SYNC(__VA_ARGS__), .at_once_nth = n
RIG_OP("repeat_0", "O03", false, MRepeat<0>, ({.vals = 2, .depth = 2}), w.src(0) | ops::repeat(0));
RIG_OP("repeat_1", "O03", false, MRepeat<1>, ({.vals = 2, .depth = 4, .one_by_one = true}), w.src(0) | ops::repeat(1));
RIG_OP("repeat_2", "O03", false, MRepeat<2>, ({.vals = 2, .depth = 5, .one_by_one = true}), w.src(0) | ops::repeat(2));
RIG_OP("repeat_3_at_once", "O03", false, MRepeat<3>, ({.vals = 1, .depth = 4, SYNC_N(3, 0), .one_by_one = true}), w.src(0) | ops::repeat(3));
RIG_OP("repeat_for_ever", "O03", false, MRepeat<-1>, ({.vals = 1, .depth = 5, SYNC_N(2, 0), .one_by_one = true}), w.src(0) | ops::repeat());
template<int Count>
struct MRepeatTake : MRepeat<Count>
{
    int  left = 3;
    void on(int s, int r, Ev e) override
    {
        MRepeat<Count>::on(s, r, e);
        if (e.k == 'N' && --left == 0)
            this->C();
    }
};
RIG_OP("repeat_for_ever_take", "O03", false, MRepeatTake<-1>, ({.vals = 1, .depth = 4, .at_once = {VALUE_END, NOTHING, END, TWO}, .at_once_src = {0}, .at_once_nth = 4, .one_by_one = true}), w.src(0) | ops::repeat() | ops::take(3));

template<int Count> // -1: for ever
struct MRetry : Model
{
    int  n = Count;
    void start() override { subscribe(0); }
    void on(int, int, Ev e) override
    {
        if (e.k == 'N')
            N(e.v);
        else if (e.k == 'C')
            C();
        else if (n == 0)
            E(e.v);
        else
        {
            if (n > 0)
                --n;
            subscribe(0);
        }
    }
};
RIG_OP("retry_0", "O03", false, MRetry<0>, ({.vals = 2, .depth = 4, .one_by_one = true}), w.src(0) | ops::retry(0));
RIG_OP("retry_1", "O03", false, MRetry<1>, ({.vals = 2, .depth = 5, .one_by_one = true}), w.src(0) | ops::retry(1));
RIG_OP("retry_2", "O03", false, MRetry<2>, ({.vals = 2, .depth = 5, .one_by_one = true}), w.src(0) | ops::retry(2));
RIG_OP("retry_2_at_once", "O03", false, MRetry<2>, ({.vals = 1, .depth = 4, SYNC_N(3, 0), .one_by_one = true}), w.src(0) | ops::retry(2));
RIG_OP("retry_for_ever", "O03", false, MRetry<-1>, ({.vals = 1, .depth = 5, SYNC_N(2, 0), .one_by_one = true}), w.src(0) | ops::retry());
// the function above fails for some of the values
struct MMapRetry : MRetry<2>
{
    void on(int s, int r, Ev e) override
    {
        if (e.k == 'N' && fn_fails(e.v))
        {
            drop(s);
            MRetry<2>::on(s, r, {'E', 3});
        }
        else
            MRetry<2>::on(s, r, e);
    }
    static bool fn_fails(long v) { return g_bad && v % 10 == 2; }
};
RIG_OP("map_retry", "O03", true, MMapRetry, ({.vals = 3, .depth = 5}), w.src(0) | ops::map([t = Token{}](TV v) { fn(v.get()); return v; }) | ops::retry(2));

// source 0 failed: source 1 decides
struct MRetryWhen : Model
{
    void start() override { subscribe(0, 0); }
    void on(int sub, int role, Ev e) override
    {
        if (role == 0)
        {
            if (e.k == 'N')
                N(e.v);
            else if (e.k == 'C')
                C();
            else
            {
                fn(e.v); // the notifier
                subscribe(1, 1);
            }
        }
        else if (e.k == 'N')
        {
            drop(sub);
            subscribe(0, 0);
        }
        else if (e.k == 'E')
            E(e.v);
        else
            C();
    }
};
#define NOTIFIER [&w, t = Token{}](const std::exception_ptr& e) { fn(error_id(e)); return w.src(1); }
RIG_OP("retry_when", "O03", false, MRetryWhen, ({.vals = 1, .depth = 7, .deeper = 1}), w.src(0) | ops::retry_when(NOTIFIER));
RIG_OP("retry_when_at_once", "O03", true, MRetryWhen, ({.vals = 1, .depth = 4, SYNC_N(2, 0, 1)}), w.src(0) | ops::retry_when(NOTIFIER));

struct MResume : Model
{
    void start() override { subscribe(0, 0); }
    void on(int, int role, Ev e) override
    {
        if (e.k == 'N')
            N(e.v);
        else if (e.k == 'C')
            C();
        else if (role)
            E(e.v);
        else
        {
            fn(e.v);
            subscribe(1, 1);
        }
    }
};
RIG_OP("on_error_resume_next", "O03", false, MResume, ({.vals = 2, .depth = 6}), w.src(0) | ops::on_error_resume_next(NOTIFIER));
RIG_OP("on_error_resume_next_at_once", "O03", true, MResume, ({.vals = 1, .depth = 4, SYNC(0, 1)}), w.src(0) | ops::on_error_resume_next(NOTIFIER));
// the function above fails for some of the values: the source has to be left
template<class Base>
struct MMapThen : Base
{
    void on(int s, int r, Ev e) override
    {
        if (r == 0 && e.k == 'N' && g_bad && e.v % 10 == 2)
        {
            this->drop(s);
            Base::on(s, r, {'E', 3});
        }
        else
            Base::on(s, r, e);
    }
};
#define MAPPED w.src(0) | ops::map([t = Token{}](TV v) { fn(v.get()); return v; })
#define PLAIN_NOTIFIER [&w, t = Token{}](const std::exception_ptr&) { return w.src(1); }
struct MRetryWhenPlain : MRetryWhen
{
    void on(int sub, int role, Ev e) override
    {
        if (role == 0 && e.k == 'E')
            subscribe(1, 1);
        else
            MRetryWhen::on(sub, role, e);
    }
};
struct MResumePlain : MResume
{
    void on(int sub, int role, Ev e) override
    {
        if (role == 0 && e.k == 'E')
            subscribe(1, 1);
        else
            MResume::on(sub, role, e);
    }
};
RIG_OP("map_retry_when", "O03", true, MMapThen<MRetryWhenPlain>, ({.vals = 3, .depth = 5}), MAPPED | ops::retry_when(PLAIN_NOTIFIER));
RIG_OP("map_on_error_resume_next", "O03", true, MMapThen<MResumePlain>, ({.vals = 3, .depth = 5}), MAPPED | ops::on_error_resume_next(PLAIN_NOTIFIER));
} // namespace
