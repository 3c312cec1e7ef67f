// The Boost.Asio backend: real boost.asio, run by (controlled) threads. Locks and condition variables of boost are the ones of
// the controlled scheduler, select() waits in virtual time.
#include "scn.hpp"
#include "rotor/asio.hpp"
#include <boost/asio.hpp>

namespace bwto {
struct inbound {};
} // namespace bwto
namespace rotor {
template <> inline auto &supervisor_t::access<bwto::inbound>() noexcept { return inbound_queue; }
} // namespace rotor

namespace {
using namespace bw;
namespace ra = rotor::asio;
namespace asio = boost::asio;
struct AB : W {
    using S = sup_t<ra::supervisor_asio_t>;
    static constexpr bool nested_loops = true, io = false;
    static constexpr int max_loops = 2, timer_slack_us = 0, late_us = 5000000;
    static constexpr int variants = 3;
    static constexpr const char *variant_names[] = {"one thread", "an io context with two threads", "two io contexts"};
    bool timer_order;
    struct ctx_t : ra::system_context_asio_t {
        W *w;
        ctx_t(W *w_, asio::io_context &io) : ra::system_context_asio_t(io), w{w_} {}
        void on_error(r::actor_base_t *a, const extended_error_ptr_t &ee) noexcept override { w->fatal(a, ee); }
    };
    struct Loop {
        std::shared_ptr<asio::io_context> io;
        std::shared_ptr<asio::io_context::strand> strand;
        r::intrusive_ptr_t<ctx_t> ctx;
        r::intrusive_ptr_t<S> root;
    };
    std::vector<Loop> loops;
    std::vector<r::intrusive_ptr_t<S>> sups;
    std::vector<asio::io_context *> threads;
    explicit AB(int n, int variant) {
        thr::knobs().lock_points = false;
        timer_order = variant != 1;
        loops.resize(n);
        for (int i = 0; i < n; ++i) {
            auto &l = loops[i];
            l.io = !i || variant == 2 ? std::make_shared<asio::io_context>() : loops[0].io;
            l.strand = std::make_shared<asio::io_context::strand>(*l.io);
            l.ctx.reset(new ctx_t(this, *l.io));
            if (!i || variant == 2)
                threads.push_back(l.io.get());
        }
        if (variant == 1)
            threads.push_back(threads[0]);
    }
    S *root(int l, Probe &p, const Opt &o) {
        loops[l].root = apply(loops[l].ctx->create_supervisor<S>().strand(loops[l].strand).guard_context(true), o, p);
        return loops[l].root.get();
    }
    S *child(S &parent, int l, Probe &p, const Opt &o) {
        sups.push_back(apply(parent.template create_actor<S>().strand(loops[l].strand).guard_context(true), o, p));
        return sups.back().get();
    }
    int cur_loop() override {
        for (size_t i = 0; i < loops.size(); ++i)
            if (loops[i].strand->running_in_this_thread())
                return int(i);
        return -1;
    }
    int64_t clock(int) { return thr::now_us(); }
    void go() {
        auto &k = thr::knobs();
        setup(k);
        k.on_idle = [this] {
            if (thr::anybody_sleeps())
                return; // in a handler
            for (auto &p : probes)
                if (p.is_sup && p.ptr && !p.down() && thr::queue_size(&static_cast<r::supervisor_t *>(p.ptr)->access<bwto::inbound>()))
                    mc::fail("*", "lost-wakeup", "everybody sleeps, but the inbound queue of %s is not empty: %s", p.name.c_str(), thr::status().c_str());
        };
        for (auto &l : loops)
            if (l.root)
                l.root->start();
        for (size_t i = 0; i < threads.size(); ++i)
            thr::spawn(("thread" + std::to_string(i)).c_str(), [this, i] {
                while (threads[i]->run_one())
                    thr::point("next handler");
            });
        thr::spawn("env", [this] { env(); });
        thr::run();
        if (!stop() && !thr::all_done())
            mc::fail("*", "deadlock", "the threads do not finish: %s", thr::status().c_str());
    }
    void release() {
        sups.clear();
        for (auto &l : loops)
            l.root.reset();
        loops.clear();
    }
};

// --- forwarder: completions of Boost.Asio operations become calls of methods of an actor ---------------------------------
struct fwd_t final : probed_t<act_base> {
    using config_t = act_cfg;
    template <typename A> using config_builder_t = act_builder<A>;
    using probed_t<act_base>::probed_t;
    std::function<void(int, int)> on; // kind of handler, value
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        probed_t<act_base>::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &s) { s.subscribe_actor(&fwd_t::on_m1); });
    }
    void on_m1(msg::m1 &m) noexcept {
        Nested n(*P, "m1");
        P->check("m1");
        if (P->m1)
            P->m1(reinterpret_cast<act_t &>(*this), m);
    }
    void call(int kind, int v) {
        Nested n(*P, "completion");
        P->check("completion");
        mc::obs("%s completion %d %d", P->name.c_str(), kind, v);
        on(kind, v);
    }
    void done() noexcept { call(0, 0); }
    void done_value(int v) noexcept { call(1, v); }
    void error(const boost::system::error_code &ec) noexcept { call(2, ec == boost::asio::error::operation_aborted ? 1 : 0); }
    template <typename Fn> auto post(Fn fn) { return ra::forwarder_t{*this, std::move(fn)}; }
};
struct Forward {
    using B = AB;
    enum { K_VOID, K_VOID_ERR, K_VALUE, K_VALUE_ERR, K_N };
    static int count() { return 2 * K_N * K_N * 2 * 2 * 3 * B::variants; }
    struct C {
        bool nested, cancel, foreign;
        int k[2], when, var;
    };
    static C decode(int c) {
        Cfg g(c);
        C x;
        x.nested = g(2);
        x.k[0] = g(K_N);
        x.k[1] = g(K_N);
        x.cancel = g(2);
        x.foreign = g(2);
        x.when = g(3);
        x.var = g(B::variants);
        return x;
    }
    static std::string describe(int c) {
        auto x = decode(c);
        static const char *kn[] = {"no value", "no value or error", "value", "value or error"}, *wn[] = {"nothing else", "shutdown of the actor at any moment", "shutdown of the supervisor at any moment"};
        return std::string("completions: ") + kn[x.k[0]] + ", " + kn[x.k[1]] + (x.cancel ? ", cancelled" : "") + (x.foreign ? ", completed outside of the strand at any moment" : ", timers") + (x.nested ? ", nested supervisor, " : ", ") + wn[x.when] + ", " + B::variant_names[x.var];
    }
    struct OpSt {
        std::unique_ptr<asio::steady_timer> timer;
        std::function<void(bool)> complete; // by a foreign thread
        bool started = false, completed = false, aborted = false;
        int calls = 0;
    };
    static B *body(int c) {
        auto x = decode(c);
        static const Topo one{"one", {{-1, 0}}}, two{"nested", {{-1, 0}, {0, 0}}};
        Opt o;
        auto sp = std::make_shared<Sys<B>>(x.nested ? two : one, o, x.var);
        auto &s = *sp;
        auto &w = *s.w;
        w.keep.push_back(sp);
        auto &p = w.probe("f");
        auto &sup = *s.sup[x.nested ? 1 : 0];
        p.parent = sup.P;
        auto f = sup.template create_actor<fwd_t>().init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).probe(&p).finish();
        w.keep.push_back(std::shared_ptr<void>(nullptr, [f](void *) {}));
        auto F = f.get();
        auto opp = std::make_shared<std::array<OpSt, 2>>();
        w.keep.push_back(opp);
        auto &ops = *opp;
        auto got = std::make_shared<std::pair<int, int>>(0, 0);
        auto &io = *w.loops[0].io;
        f->on = [&ops, F, x, got](int kind, int v) {
            // which operation is it: those with a value tell
            bool err = kind == 2;
            int idx = -1;
            for (int i = 0; i < 2; ++i) {
                auto &q = ops[i];
                bool value = x.k[i] == K_VALUE || x.k[i] == K_VALUE_ERR, with_err = x.k[i] == K_VOID_ERR || x.k[i] == K_VALUE_ERR;
                bool fits = q.completed && !q.calls && (err ? q.aborted && with_err && v : (!q.aborted || !with_err) && (value ? kind == 1 && v == 40 + i : kind == 0));
                if (fits) {
                    idx = i;
                    break;
                }
            }
            if (idx < 0) {
                mc::fail("*", "wrong-completion", "handler %d is called with %d, no such operation is completed", kind, v);
                return;
            }
            ++ops[idx].calls;
            F->template send<payload::m1_t>(F->get_address(), 0, got->first++);
            F->resources->release(idx);
        };
        p.m1 = [got](act_t &, msg::m1 &m) {
            if (m.payload.seq != got->second++)
                mc::fail("*", "order", "message #%d of a completion is received instead of #%d", m.payload.seq, got->second - 1);
        };
        p.at_start = [&ops, F, x, &io, &w](r::actor_base_t &) {
            for (int i = 0; i < 2; ++i) {
                auto &q = ops[i];
                F->resources->acquire(i);
                q.started = true;
                auto start = [&q, x, i, &io, &w](auto fwd, auto with_err, auto value) {
                    auto invoke = [i](auto &fn, const boost::system::error_code &ec, auto with_err_, auto value_) {
                        if constexpr (with_err_ && value_)
                            fn(ec, 40 + i);
                        else if constexpr (with_err_)
                            fn(ec);
                        else if constexpr (value_)
                            fn(40 + i);
                        else
                            fn();
                    };
                    auto fp = std::make_shared<decltype(fwd)>(std::move(fwd));
                    if (!x.foreign) {
                        q.timer = std::make_unique<asio::steady_timer>(io);
                        q.timer->expires_after(std::chrono::milliseconds(5 + 5 * i));
                        q.timer->async_wait([&q, fp, invoke, with_err, value](const boost::system::error_code &ec) {
                            q.completed = true;
                            q.aborted = bool(ec);
                            invoke(*fp, ec, with_err, value);
                        });
                        if (x.cancel)
                            q.timer->cancel();
                    } else
                        q.complete = [&q, fp, invoke, with_err, value](bool aborted) {
                            q.completed = true;
                            q.aborted = aborted;
                            invoke(*fp, aborted ? boost::system::error_code(asio::error::operation_aborted) : boost::system::error_code(), with_err, value);
                        };
                };
                std::true_type yes;
                std::false_type no;
                switch (x.k[i]) {
                case K_VOID:
                    start(ra::forwarder_t{*F, &fwd_t::done}, no, no);
                    break;
                case K_VOID_ERR:
                    start(ra::forwarder_t{*F, &fwd_t::done, &fwd_t::error}, yes, no);
                    break;
                case K_VALUE:
                    start(ra::forwarder_t{*F, &fwd_t::done_value}, no, yes);
                    break;
                default:
                    start(ra::forwarder_t{*F, &fwd_t::done_value, &fwd_t::error}, yes, yes);
                }
            }
        };
        p.at_shut_start = [&ops](r::actor_base_t &) {
            for (auto &q : ops)
                if (q.timer)
                    q.timer->cancel();
        };
        if (x.foreign)
            for (int i = 0; i < 2; ++i)
                w.op("completion", [&ops, i, x] {
                    ops[i].complete(x.cancel);
                    ops[i].complete = {};
                }, [&ops, i] { return bool(ops[i].complete); });
        if (x.when == 1)
            w.op("shutdown of the actor", [F] { F->get_supervisor().enqueue(r::make_message<r::payload::shutdown_trigger_t>(F->get_supervisor().get_address(), F->get_address(), r::make_error("f", r::make_error_code(r::shutdown_code_t::normal)))); },
                 [F, &p] { return p.n_start && !p.n_shut_start; });
        if (x.when == 2)
            w.op("shutdown", [&s] { s.sup[0]->shutdown(); }, [&w, &s] { return w.all_started() && !s.sp[0]->n_shut_start; });
        auto check = [&ops, got] {
            for (auto &q : ops)
                if (q.started && q.calls != 1)
                    mc::fail("*", "lost-completion", "completion is handled %d times", q.calls);
            if (got->first != got->second)
                mc::fail("*", "lost", "%d messages have been sent by completion handlers, %d are received", got->first, got->second);
        };
        if (!x.when)
            w.op("check", check, {}, true);
        s.down_ops();
        w.go();
        w.check_down();
        if (!w.stop()) {
            for (auto &q : ops)
                if (q.started && q.calls != 1)
                    mc::fail("*", "lost-completion", "completion is handled %d times", q.calls);
        }
        for (auto &q : ops)
            q.timer.reset();
        f->on = {};
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c))
            B::finish(w);
    }
};
} // namespace
BW_SCENARIOS(AB, "asio", "P21", "P21")
static mc::Reg reg_forward(mc::Scenario{"asio.forward", {"P21", "P13"}, [](mc::Tier) { return Forward::count(); }, [](int c) { Forward::run(c); }, [](int c) { return Forward::describe(c); }, 2, 3});
int main(int argc, char **argv) {
    bw::race_setup();
    return mc::main(argc, argv, BW_ENGINE);
}
