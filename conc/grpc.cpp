// X03: gRPC reactors, on streams which stand for the network.  Every order of application events and transport callbacks up to a depth is compared with a
// model of the six reactors, and application threads run against transport threads in every interleaving up to a preemption bound.
#include "h.hpp"
#undef __SANITIZE_THREAD__ // absl would call into the sanitizer's runtime
#include <rppgrpc/rppgrpc.hpp>
#include <condition_variable>
#include <deque>
#include <mutex>
using namespace h;
namespace
{
using Th = std::thread;
struct Msg
{
    long  v = 0;
    Msg() = default;
    explicit Msg(long x) : v(x) {}
    explicit operator long() const { return v; }
};
enum Kind
{
    C_BIDI,
    C_WRITE,
    C_READ,
    S_BIDI,
    S_WRITE,
    S_READ
};
constexpr bool server(Kind k) { return k >= S_BIDI; }
constexpr bool reads(Kind k) { return k % 3 != 1; }
constexpr bool writes(Kind k) { return k % 3 != 2; }

// ------------------------------------------------------------------ the stream: what a reactor asks of the transport
struct Wire
{
    std::mutex               m;
    std::condition_variable  cv;
    std::vector<std::string> log;
    Msg*                     rbuf = nullptr; // a read is outstanding
    const Msg*               wptr = nullptr; // a write is outstanding
    long                     wval = 0;
    int                      finishes = 0; // Finish, or WritesDone of a client
    bool                     ended = false; // the transport has decided to deliver OnDone
    bool                     cancelled = false, rdead = false, wdead = false, closed = false;
    int                      reacting = 0;
    std::vector<long>        written;
    std::string              status;
    void note(std::string s)
    {
        log.push_back(std::move(s));
        cv.notify_all();
    }
    void bad(const std::string& s)
    {
        mc::Quiet   q;
        std::string t;
        for (auto& l : log)
            t += " " + l;
        mc::fail(s + ", after:" + t);
    }
    void start()
    {
        std::lock_guard l{m};
        note("start");
    }
    void read(Msg* to)
    {
        std::lock_guard l{m};
        if (ended)
            bad("a read is started on a call which has ended");
        if (rbuf)
            bad("a read is started while another one is outstanding");
        rbuf = to;
        note("read");
    }
    void write(const Msg* what)
    {
        std::lock_guard l{m};
        if (ended)
            bad("a write is started on a call which has ended");
        if (wptr)
            bad("a write is started while another one is outstanding");
        if (finishes)
            bad("a write is started after the stream was finished");
        wptr = what;
        wval = what->v;
        written.push_back(wval);
        note("write" + std::to_string(wval));
    }
    void finish(const std::string& how)
    {
        std::lock_guard l{m};
        if (ended)
            bad("the stream is finished after the call has ended");
        if (finishes++)
            bad("the stream is finished more than once");
        status = how;
        note("finish" + how);
    }
};
std::string show(const grpc::Status& s)
{
    return s.error_code() == grpc::StatusCode::OK ? "OK" : s.error_code() == grpc::StatusCode::CANCELLED ? "CANCELLED" : s.error_code() == grpc::StatusCode::INTERNAL ? "INTERNAL" : "?";
}
template<class Base>
struct Client : Base
{
    Wire& w;
    explicit Client(Wire& x) : w(x) {}
    void start_call() { w.start(); }
    void AddHold(int) override {}
    void RemoveHold() override {}
    void StartCall() override { w.start(); }
};
struct ClientBidi final : Client<grpc::ClientCallbackReaderWriter<Msg, Msg>>
{
    using R = rppgrpc::client_bidi_reactor<Msg, Msg>;
    using G = grpc::ClientBidiReactor<Msg, Msg>;
    using Client::Client;
    void bind(R* r) { BindReactor(r); }
    void Write(const Msg* m, grpc::WriteOptions) override { w.write(m); }
    void WritesDone() override { w.finish(""); }
    void Read(Msg* m) override { w.read(m); }
};
struct ClientWrite final : Client<grpc::ClientCallbackWriter<Msg>>
{
    using R = rppgrpc::client_write_reactor<Msg>;
    using G = grpc::ClientWriteReactor<Msg>;
    using Client::Client;
    void bind(R* r) { BindReactor(r); }
    void Write(const Msg* m, grpc::WriteOptions) override { w.write(m); }
    void WritesDone() override { w.finish(""); }
};
struct ClientRead final : Client<grpc::ClientCallbackReader<Msg>>
{
    using R = rppgrpc::client_read_reactor<Msg>;
    using G = grpc::ClientReadReactor<Msg>;
    using Client::Client;
    void bind(R* r) { BindReactor(r); }
    void Read(Msg* m) override { w.read(m); }
};
template<class Base>
struct Server : Base
{
    Wire&                        w;
    grpc::internal::ServerReactor* r = nullptr;
    explicit Server(Wire& x) : w(x) {}
    void                           SendInitialMetadata() override {}
    void                           Finish(grpc::Status s) override { w.finish(show(s)); }
    grpc::internal::ServerReactor* reactor() override { return r; }
    void                           CallOnDone() override {}
};
struct ServerBidi final : Server<grpc::ServerCallbackReaderWriter<Msg, Msg>>
{
    using R = rppgrpc::server_bidi_reactor<Msg, Msg>;
    using G = grpc::ServerBidiReactor<Msg, Msg>;
    using Server::Server;
    void bind(R* r) { BindReactor(r); }
    void Write(const Msg* m, grpc::WriteOptions) override { w.write(m); }
    void WriteAndFinish(const Msg* m, grpc::WriteOptions, grpc::Status s) override
    {
        w.write(m);
        w.finish(show(s));
    }
    void Read(Msg* m) override { w.read(m); }
};
struct ServerWrite final : Server<grpc::ServerCallbackWriter<Msg>>
{
    using R = rppgrpc::server_write_reactor<Msg>;
    using G = grpc::ServerWriteReactor<Msg>;
    using Server::Server;
    void bind(R* r) { BindReactor(r); }
    void Write(const Msg* m, grpc::WriteOptions) override { w.write(m); }
    void WriteAndFinish(const Msg* m, grpc::WriteOptions, grpc::Status s) override
    {
        w.write(m);
        w.finish(show(s));
    }
};
struct ServerRead final : Server<grpc::ServerCallbackReader<Msg>>
{
    using R = rppgrpc::server_read_reactor<Msg>;
    using G = grpc::ServerReadReactor<Msg>;
    using Server::Server;
    void bind(R* r) { BindReactor(r); }
    void Read(Msg* m) override { w.read(m); }
};
template<Kind K>
using Stream = std::tuple_element_t<K, std::tuple<ClientBidi, ClientWrite, ClientRead, ServerBidi, ServerWrite, ServerRead>>;

std::string what(const std::exception_ptr& e)
{
    try
    {
        std::rethrow_exception(e);
    }
    catch (const std::exception& x)
    {
        return x.what();
    }
}
// ------------------------------------------------------------------ one call
template<Kind K>
struct Call
{
    using R = typename Stream<K>::R;
    using G = typename Stream<K>::G;
    Wire                                    w{};
    Stream<K>                               s{w};
    G*                                      g = nullptr;
    R*                                      r = new R{};
    std::optional<rpp::dynamic_observer<Msg>> app{};
    std::optional<rpp::dynamic_observer<Msg>> app2{};
    bool                                    echo;
    explicit Call(bool e = false) : echo(e)
    {
        g = r;
        if constexpr (writes(K))
        {
            app.emplace(r->get_observer().as_dynamic());
            app2.emplace(r->get_observer().as_dynamic());
        }
        listen();
        if constexpr (!server(K))
            s.bind(r);
    }
    // the observer of values read; `delivering` is plain memory
    long delivering = 0;
    void listen()
    {
        r->get_observable().subscribe(
            [this](const auto& v) {
                std::string t = "n";
                if constexpr (reads(K))
                    t += std::to_string(v.v);
                deliver(t);
                if constexpr (reads(K) && writes(K))
                    if (echo)
                        app->on_next(Msg{v});
            },
            [this](const std::exception_ptr& e) { deliver("e:" + what(e)); },
            [this] { deliver("c"); });
    }
    void deliver(const std::string& t)
    {
        if (delivering++)
            w.bad("a notification (" + t + ") of the observable overlaps another one");
        {
            std::lock_guard l{w.m};
            if (w.closed)
                w.bad("the observable got " + t + " after its end");
            w.closed = t[0] != 'n';
            w.note(t);
        }
        mc::point();
        delivering--;
    }
    void open()
    {
        if constexpr (server(K))
        {
            s.r = r;
            s.bind(r);
        }
        else
            r->init();
    }
    // -------------------------------------------------------------- callbacks of the transport
    void react(int d)
    {
        std::lock_guard l{w.m};
        w.reacting += d;
        w.cv.notify_all();
    }
    void read_done(bool ok, long v = 0)
    {
        if constexpr (reads(K))
        {
            {
                std::lock_guard l{w.m};
                ++w.reacting;
                if (ok)
                    w.rbuf->v = v;
                else
                    w.rdead = true;
                w.rbuf = nullptr;
            }
            g->OnReadDone(ok);
            react(-1);
        }
    }
    void write_done(bool ok)
    {
        if constexpr (writes(K))
        {
            {
                std::lock_guard l{w.m};
                ++w.reacting;
                if (w.wptr->v != w.wval)
                    w.bad("the message changed before its write was done");
                w.wptr = nullptr;
                if (!ok)
                    w.wdead = true;
            }
            g->OnWriteDone(ok);
            react(-1);
        }
    }
    void cancel()
    {
        if constexpr (server(K))
        {
            {
                std::lock_guard l{w.m};
                ++w.reacting;
                w.cancelled = true;
            }
            g->OnCancel();
            react(-1);
        }
    }
    bool can_end() const { return !w.ended && !w.rbuf && !w.wptr && !w.reacting && (server(K) ? w.finishes > 0 : !reads(K) || w.rdead); }
    bool write_or_end() // wait for a write, or decide that the call has ended
    {
        std::unique_lock l{w.m};
        w.cv.wait(l, [this] { return w.wptr || (can_end()); });
        if (w.wptr)
            return true;
        w.ended = true;
        return false;
    }
    void done(bool ok = true)
    {
        if (std::lock_guard l{w.m}; !w.ended)
        {
            if (!can_end())
                w.bad("harness: not the end");
            w.ended = true;
        }
        if constexpr (server(K))
            g->OnDone();
        else
            g->OnDone(ok ? grpc::Status::OK : grpc::Status{grpc::StatusCode::UNAVAILABLE, "lost"});
    }
    // wait until it holds
    template<class P>
    void until(P p)
    {
        std::unique_lock l{w.m};
        w.cv.wait(l, p);
    }
    void await_end(bool ok = true)
    {
        until([this] { return can_end() && (w.ended = true); });
        done(ok);
    }
};
// ------------------------------------------------------------------ the model
template<Kind K>
struct Model
{
    std::deque<long>         q{};
    std::string              want{};                                              // how to finish
    bool                     wants = false, finished = false, cut = false, closed = false; // cut: nothing more is taken from the application
    bool                     opened = false, r0 = false, f0 = false;
    bool                     echo = false;
    long                     w0 = -1;
    std::string              s0{};
    std::vector<std::string> log{};
    void                     write()
    {
        if (server(K) && !opened)
            w0 = q.front();
        else
            log.push_back("write" + std::to_string(q.front()));
    }
    void finish(const std::string& how)
    {
        if (finished)
            return;
        finished = true;
        if (server(K) && !opened)
        {
            f0 = true;
            s0 = how;
        }
        else
            log.push_back("finish" + (server(K) ? how : std::string{}));
    }
    void next(long v)
    {
        if (cut || wants)
            return;
        q.push_back(v);
        if (q.size() == 1 && !finished)
            write();
    }
    void end(const std::string& how)
    {
        if (cut || wants)
            return;
        wants = true;
        want  = how;
        if (q.empty())
            finish(how);
    }
    void deliver(const std::string& t)
    {
        if (closed)
            return;
        closed = t[0] != 'n';
        log.push_back(t);
    }
    void open()
    {
        opened = true;
        if (!server(K))
            log.push_back("start");
        if (reads(K))
            log.push_back("read");
        if (w0 >= 0)
            log.push_back("write" + std::to_string(w0));
        if (f0)
            log.push_back("finish" + s0);
    }
    void read_done(bool ok, long v)
    {
        if (ok)
        {
            deliver("n" + std::to_string(v));
            if (echo)
                next(v);
            log.push_back("read");
        }
        else if (K == S_READ)
            finish("OK");
        else if (K == C_BIDI)
            cut = true;
    }
    void write_done(bool ok)
    {
        if (!ok)
        {
            if (K == S_WRITE)
                finish("OK");
            return;
        }
        q.pop_front();
        if (finished)
            return;
        if (!q.empty())
            write();
        else if (wants)
            finish(want);
    }
    void cancel()
    {
        cut = true;
        deliver("e:OnCancel called");
        if (K != S_READ)
            finish("CANCELLED");
    }
    void done(bool ok)
    {
        cut = true;
        deliver(ok || server(K) ? "c" : "e:lost");
    }
};
template<Kind K>
void histories(int depth, bool echo = false)
{
    Call<K>  c{echo};
    Model<K> m{};
    m.echo = echo;
    auto& w = c.w;
    std::string trace;
    long        v    = 1;
    bool        done = false;
    auto        same = [&] {
        if (w.log == m.log)
            return;
        std::string a, b;
        for (auto& x : w.log)
            a += " " + x;
        for (auto& x : m.log)
            b += " " + x;
        mc::fail("after " + trace + ": expected" + b + ", got" + a);
    };
    enum
    {
        NEXT,
        COMPLETE,
        ERROR,
        OPEN,
        READ,
        READ_END,
        WRITTEN,
        WRITE_FAIL,
        CANCEL,
        DONE,
        DONE_ERR
    };
    const char* names[] = {"next ", "completed ", "error ", "open ", "read_done ", "read_end ", "write_done ", "write_fail ", "cancel ", "done ", "done_err "};
    auto        act = [&](int a) {
        trace += names[a];
        switch (a)
        {
            case NEXT:
                m.next(v);
                c.app->on_next(Msg{v++});
                break;
            case COMPLETE:
                m.end("OK");
                c.app->on_completed();
                break;
            case ERROR:
                m.end("INTERNAL");
                c.app->on_error(make_error());
                break;
            case OPEN:
                m.open();
                c.open();
                break;
            case READ:
                m.read_done(true, v);
                c.read_done(true, v++);
                break;
            case READ_END:
                m.read_done(false, 0);
                c.read_done(false);
                break;
            case WRITTEN:
            case WRITE_FAIL:
                m.write_done(a == WRITTEN);
                c.write_done(a == WRITTEN);
                break;
            case CANCEL:
                m.cancel();
                c.cancel();
                break;
            case DONE:
            case DONE_ERR:
                done = true;
                m.done(a == DONE);
                c.done(a == DONE);
                break;
        }
        same();
    };
    for (int i = 0; i < depth; ++i)
    {
        std::vector<int> as;
        if (writes(K))
            as.insert(as.end(), {NEXT, COMPLETE, ERROR});
        if (!m.opened)
            as.push_back(OPEN);
        else if (!done)
        {
            if (w.rbuf)
            {
                if (!w.rdead)
                    as.push_back(READ);
                as.push_back(READ_END);
            }
            if (w.wptr)
            {
                if (!w.wdead)
                    as.push_back(WRITTEN);
                as.push_back(WRITE_FAIL);
            }
            if (server(K) && !w.cancelled)
                as.push_back(CANCEL);
            if (c.can_end())
            {
                as.push_back(DONE);
                if (!server(K))
                    as.push_back(DONE_ERR);
            }
        }
        if (as.empty())
            break;
        act(as[size_t(mc::choose(int(as.size())))]);
    }
    mc::outcome(trace.substr(0, 60));
    // and to the end
    if (!m.opened)
        act(OPEN);
    while (!done)
        act(w.wptr ? w.wdead ? WRITE_FAIL : WRITTEN : w.rbuf ? READ_END : c.can_end() ? DONE : CANCEL);
    if (writes(K))
        act(NEXT);
}
#define HIST(name, K, quick, deep)                                                                                                                    \
    SC("reactor_" #name "_histories", "X03", .quick_bound = 0, .thorough_bound = 0) { histories<K>(mc::thorough() ? deep : quick); };
HIST(client_bidi, C_BIDI, 7, 9)
HIST(client_write, C_WRITE, 8, 10)
HIST(client_read, C_READ, 10, 14)
HIST(server_bidi, S_BIDI, 7, 8)
HIST(server_write, S_WRITE, 8, 9)
HIST(server_read, S_READ, 10, 14)
SC("reactor_client_bidi_echo_histories", "X03", .quick_bound = 0, .thorough_bound = 0) { histories<C_BIDI>(mc::thorough() ? 9 : 7, true); };
SC("reactor_server_bidi_echo_histories", "X03", .quick_bound = 0, .thorough_bound = 0) { histories<S_BIDI>(mc::thorough() ? 8 : 7, true); };

// ------------------------------------------------------------------ threads
// after the end: what was written are the values in the order of each emitter, all of them if `all`
template<Kind K>
void check(Call<K>& c, const std::vector<std::vector<long>>& emitters, bool all)
{
    mc::Quiet           q;
    std::vector<size_t> at(emitters.size(), 0);
    size_t              n = 0;
    for (long v : c.w.written)
    {
        bool found = false;
        for (size_t e = 0; e < emitters.size() && !found; ++e)
            if (at[e] < emitters[e].size() && emitters[e][at[e]] == v)
            {
                ++at[e];
                found = true;
            }
        if (!found)
            c.w.bad("a value was written twice or out of order");
    }
    for (auto& e : emitters)
        n += e.size();
    if (all && c.w.written.size() != n)
        c.w.bad("not every value was written");
    if (c.w.ended && !c.w.closed)
        c.w.bad("the call ended, and the observable did not");
    std::string t;
    for (auto& l : c.w.log)
        t += l + " ";
    mc::outcome(t);
}
// answers writes until there are n of them
template<Kind K>
void answer(Call<K>& c, int n)
{
    for (int i = 0; i < n; ++i)
    {
        c.until([&] { return c.w.wptr != nullptr; });
        c.write_done(true);
    }
}
template<Kind K>
void finishing(bool by_error) // the application completes while the transport is writing
{
    Call<K> c;
    c.open();
    Th a{[&] {
        c.app->on_next(Msg{1});
        c.app->on_next(Msg{2});
        if (by_error)
            c.app->on_error(make_error());
        else
            c.app->on_completed();
    }};
    Th t{[&] {
        answer(c, 2);
        if (reads(K))
        {
            c.until([&] { return c.w.finishes > 0; });
            c.read_done(false);
        }
        else
            c.until([&] { return c.w.finishes > 0; });
        c.await_end();
    }};
    a.join();
    t.join();
    check(c, {{1, 2}}, true);
    if (server(K) && c.w.status != (by_error ? "INTERNAL" : "OK"))
        c.w.bad("finished with " + c.w.status);
}
SC("finish_client_bidi", "X03") { finishing<C_BIDI>(false); };
SC("finish_client_write", "X03") { finishing<C_WRITE>(false); };
SC("finish_server_bidi", "X03") { finishing<S_BIDI>(false); };
SC("finish_server_write", "X03") { finishing<S_WRITE>(false); };
SC("finish_server_bidi_error", "X03") { finishing<S_BIDI>(true); };
SC("finish_server_write_error", "X03") { finishing<S_WRITE>(true); };

template<Kind K>
void emitters() // two emitters; one of them completes after both are done
{
    Call<K> c;
    c.open();
    Th a{[&] { c.app->on_next(Msg{1}); c.app->on_next(Msg{2}); }};
    Th b{[&] { c.app2->on_next(Msg{11}); }};
    Th t{[&] {
        answer(c, 3);
    }};
    a.join();
    b.join();
    t.join();
    c.app->on_completed();
    if (reads(K))
        c.read_done(false);
    c.await_end();
    check(c, {{1, 2}, {11}}, true);
}
SC("emitters_client_bidi", "X03", .quick_bound = 2, .thorough_bound = 4) { emitters<C_BIDI>(); };
SC("emitters_client_write", "X03", .quick_bound = 2, .thorough_bound = 4) { emitters<C_WRITE>(); };
SC("emitters_server_bidi", "X03", .quick_bound = 2, .thorough_bound = 4) { emitters<S_BIDI>(); };
SC("emitters_server_write", "X03", .quick_bound = 2, .thorough_bound = 4) { emitters<S_WRITE>(); };

template<Kind K>
void emission_against_completion() // an emitter, another one who completes
{
    Call<K> c;
    c.open();
    Th a{[&] { c.app->on_next(Msg{1}); }};
    Th b{[&] { c.app2->on_completed(); }};
    Th t{[&] {
        bool writing = false;
        c.until([&] { return (writing = c.w.wptr) || c.w.finishes; });
        if (writing)
            c.write_done(true);
        c.until([&] { return c.w.finishes > 0; });
        if (reads(K))
            c.read_done(false);
        c.await_end();
    }};
    a.join();
    b.join();
    t.join();
    check(c, {{1}}, false);
}
SC("emission_and_completion_client_bidi", "X03") { emission_against_completion<C_BIDI>(); };
SC("emission_and_completion_server_bidi", "X03") { emission_against_completion<S_BIDI>(); };
SC("emission_and_completion_server_write", "X03") { emission_against_completion<S_WRITE>(); };

// the call is cancelled while the application emits and completes, and writes and reads are going on
template<Kind K>
void cancelled(bool completes, bool write_ok, bool one_value)
{
    Call<K> c;
    c.open();
    c.app->on_next(Msg{1});
    Th a{[&] {
        if (!one_value)
            c.app->on_next(Msg{2});
        if (completes)
            c.app->on_completed();
    }};
    Th x{[&] { c.cancel(); }};
    Th t{[&] {
        c.write_done(write_ok);
        if (reads(K))
            c.read_done(false);
        c.until([&] { return c.w.cancelled; });
        while (c.write_or_end())
            c.write_done(false);
        c.done();
    }};
    a.join();
    x.join();
    t.join();
    check(c, {{1, 2}}, false);
}
SC("cancel_server_bidi_values", "X03") { cancelled<S_BIDI>(false, true, false); };
SC("cancel_server_bidi_completion", "X03") { cancelled<S_BIDI>(true, true, true); };
SC("cancel_server_bidi_completion_failed_write", "X03") { cancelled<S_BIDI>(true, false, true); };
SC("cancel_server_write_values", "X03") { cancelled<S_WRITE>(false, true, false); };
SC("cancel_server_write_completion", "X03") { cancelled<S_WRITE>(true, true, true); };
SC("cancel_server_write_failed_write", "X03") { cancelled<S_WRITE>(false, false, false); };
SC("cancel_server_write_completion_failed_write", "X03") { cancelled<S_WRITE>(true, false, true); };

// values are read while the call is cancelled
template<Kind K>
void cancelled_reader()
{
    Call<K> c;
    c.open();
    Th x{[&] { c.cancel(); }};
    Th t{[&] {
        c.read_done(true, 1);
        c.until([&] { return c.w.rbuf != nullptr; });
        c.read_done(true, 2);
        c.until([&] { return c.w.rbuf != nullptr; });
        c.read_done(false);
    }};
    x.join();
    t.join();
    c.await_end();
    check(c, {}, false);
}
SC("cancel_server_bidi_reader", "X03") { cancelled_reader<S_BIDI>(); };
SC("cancel_server_read_reader", "X03") { cancelled_reader<S_READ>(); };

// the call ends, whatever the application is doing
template<Kind K>
void ending(int values, bool completes, bool ok)
{
    Call<K> c;
    c.open();
    Th a{[&] {
        for (int i = 1; i <= values; ++i)
            c.app->on_next(Msg{i});
        if (completes)
            c.app->on_completed();
    }};
    Th t{[&] {
        if (reads(K))
            c.read_done(false);
        while (c.write_or_end())
            c.write_done(false);
        c.done(ok);
    }};
    t.join();
    a.join();
    check(c, {{1, 2}}, false);
}
SC("end_client_bidi_values", "X03") { ending<C_BIDI>(2, false, true); };
SC("end_client_bidi_completion", "X03") { ending<C_BIDI>(2, true, false); };
SC("end_client_write_values", "X03") { ending<C_WRITE>(2, false, true); };
SC("end_client_write_completion", "X03") { ending<C_WRITE>(0, true, false); };

// values read are sent back, while the application emits, too
template<Kind K>
void echoing()
{
    Call<K> c{true};
    c.open();
    Th a{[&] { c.app2->on_next(Msg{11}); }};
    Th t{[&] { c.read_done(true, 1); }};
    Th u{[&] { answer(c, 2); }};
    a.join();
    t.join();
    u.join();
    c.app->on_completed();
    c.read_done(false);
    c.await_end();
    check(c, {{1}, {11}}, true);
}
SC("echo_client_bidi", "X03", .quick_bound = 2, .thorough_bound = 4) { echoing<C_BIDI>(); };
SC("echo_server_bidi", "X03", .quick_bound = 2, .thorough_bound = 4) { echoing<S_BIDI>(); };
} // namespace
