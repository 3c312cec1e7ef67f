// What all real backends share: probed actors and supervisors, the environment, the final checks.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
#include "rotor.hpp"
#include <cstring>
#include <deque>
#include <memory>

#ifndef BW_ENGINE
#error
#endif
namespace bw {
inline void race_setup() {
#ifdef BW_RACE
    mc::every_property = "P26";
    mc::bound_less = 1;
#endif
}
namespace r = rotor;
namespace pt = boost::posix_time;
using r::address_ptr_t;
using r::extended_error_ptr_t;
using r::message_ptr_t;
using r::request_id_t;
using r::state_t;
inline pt::time_duration ms(int v) { return pt::milliseconds(v); }
constexpr int T_INIT = 10000, T_SHUT = 10000, T_REQ = 1000;
struct act_t;
struct W;

namespace payload {
struct m1_t {
    int from, seq;
};
struct m2_t {
    int from, seq;
};
struct io_t {
    int v;
};
struct call_t {
    std::function<void(act_t &)> fn;
};
struct rs_t {
    int v = -1;
};
struct rq_t {
    using response_t = rs_t;
    int v;
};
} // namespace payload
namespace msg {
using m1 = r::message_t<payload::m1_t>;
using m2 = r::message_t<payload::m2_t>;
using io = r::message_t<payload::io_t>;
using call = r::message_t<payload::call_t>;
using rq = r::request_traits_t<payload::rq_t>::request::message_t;
using rs = r::request_traits_t<payload::rq_t>::response::message_t;
} // namespace msg

struct Probe {
    W *w = nullptr;
    std::string name;
    int loop = 0;
    Probe *parent = nullptr;
    bool is_sup = false;
    r::actor_base_t *ptr = nullptr;
    bool created = false;
    int n_init_start = 0, n_init_finish = 0, n_start = 0, n_shut_start = 0, n_shut_finish = 0;
    int64_t down_at = -1;
    extended_error_ptr_t reason;
    std::function<void(r::actor_base_t &, r::plugin::plugin_base_t &)> conf;
    std::function<void(r::actor_base_t &)> at_start, at_shut_start, at_shut_finish, at_init_start;
    std::function<void(act_t &, msg::m1 &)> m1;
    std::function<void(act_t &, msg::m2 &)> m2;
    std::function<void(act_t &, msg::io &)> io;
    std::function<void(act_t &, msg::rq &)> rq;
    std::function<void(act_t &, msg::rs &)> rs;
    std::function<void(r::actor_base_t &, request_id_t, bool)> timer;
    bool started() const { return n_start > 0; }
    bool down() const { return n_shut_finish > 0; }
    void check(const char *what);
};

struct W {
    std::deque<Probe> probes;
    std::vector<std::shared_ptr<void>> keep;
    struct Op {
        std::string name;
        std::function<void()> fn;
        std::function<bool()> enabled;
        bool only_quiet = false;
    };
    std::vector<Op> ops;
    std::function<bool(r::actor_base_t *, const extended_error_ptr_t &)> on_fatal;
    bool dead = false;
    int64_t quiet_horizon_us = 30000000;
    int64_t max_jump_us = 100000; // time does not pass further, while threads are able to run
    bool run_on = false;
    const char *busy[8] = {}; // handler being executed by the loop

    W() { thr::reset(); thr::virtual_time(true); }
    virtual ~W() {}
    Probe &probe(std::string name) {
        probes.emplace_back();
        probes.back().w = this;
        probes.back().name = std::move(name);
        return probes.back();
    }
    virtual int cur_loop() = 0; // -1: outside of all event loops
    bool stop() const { return dead || mc::failed(); }
    int64_t now() const { return thr::now_us() / 1000; }
    void op(std::string name, std::function<void()> fn, std::function<bool()> enabled = {}, bool only_quiet = false) {
        ops.push_back({std::move(name), std::move(fn), std::move(enabled), only_quiet});
    }
    void fatal(r::actor_base_t *a, const extended_error_ptr_t &ee) {
        mc::obs("on_error %s", ee->message().c_str());
        if ((on_fatal && on_fatal(a, ee)) || dead)
            return;
        dead = true;
        std::string name = "?";
        for (auto &p : probes)
            if (a && p.ptr == a)
                name = p.name;
        mc::fail("*", "fatal-error", "unexpected fatal error reported to the system context by %s: %s", name.c_str(), ee->message().c_str());
    }
    void setup(thr::Knobs &k) {
        k.quiet_horizon_us = quiet_horizon_us;
        k.run_on = run_on;
        k.may_jump = [this](int64_t d) { return d - thr::now_us() <= max_jump_us; };
        k.stop = [this] { return stop(); };
    }
    // body of the thread of the environment
    void env() {
        for (auto &o : ops) {
            thr::wait_quiet(o.enabled, o.only_quiet);
            if (stop())
                return;
            if (o.enabled && !o.enabled())
                continue; // everything is quiet, and it is not going to be enabled
            mc::obs("op: %s", o.name.c_str());
            o.fn();
        }
    }
    bool all_started() const {
        for (auto &p : probes)
            if (p.created && !p.n_start)
                return false;
        return true;
    }
    void dump() {
        for (auto &p : probes)
            if (p.created)
                printf("  %s: init_start %d init_finish %d start %d shut_start %d shut_finish %d alive %d\n", p.name.c_str(), p.n_init_start, p.n_init_finish, p.n_start, p.n_shut_start,
                       p.n_shut_finish, p.ptr != nullptr);
        printf("  threads: %s\n", thr::status().c_str());
        fflush(stdout);
    }
    // everybody must be shut down; called after the threads are finished
    void check_down() {
        if (stop())
            return;
        for (auto &p : probes)
            if (p.ptr && p.created && !p.down())
                mc::fail("*", "stuck", "%s is not shut down at the end (init_finish %d, start %d, shutdown_start %d); %s", p.name.c_str(), p.n_init_finish, p.n_start, p.n_shut_start,
                         thr::status().c_str());
    }
    // deletes this
    template <typename T> static void finish(T *w) {
        thr::virtual_time(false);
        if (w->stop()) {
            if (mc::verbose)
                w->dump();
            return; // abandoned
        }
        w->ops.clear();
        w->keep.clear();
        w->release();
        for (auto &p : w->probes)
            if (p.created && p.ptr)
                mc::fail("*", "leak", "%s is shut down and released, but never destroyed", p.name.c_str());
        delete w;
        if (!mc::warming() && !mc::failed() && mc::arena_live()) {
            if (mc::verbose)
                mc::arena_dump(20);
            mc::fail("*", "leak", "%zu allocations (%zu bytes) are leaked after the system is shut down and released", mc::arena_live(), mc::arena_live_bytes());
        }
    }
};

inline void Probe::check(const char *what) {
    if (w->dead)
        return;
    int l = w->cur_loop();
    bool creation = !strcmp(what, "init_start");
    if (l >= 0 && l != loop && !creation)
        mc::fail("*", "foreign-context", "%s of %s runs in the event loop #%d instead of its own #%d", what, name.c_str(), l, loop);
    if (l < 0 && !creation)
        mc::fail("*", "foreign-context", "%s of %s runs outside of any event loop instead of #%d", what, name.c_str(), loop);
    if (n_shut_finish)
        mc::fail("*", "call-after-shutdown", "%s of %s is called after its shutdown has been finished", what, name.c_str());
}

// handlers of one loop are never nested
struct Nested {
    W *w;
    int l;
    const char *prev;
    Nested(Probe &p, const char *what, bool allowed = false) : w{p.w}, l{p.w->cur_loop()}, prev{l >= 0 ? p.w->busy[l] : nullptr} {
        if (l < 0)
            return;
        if (prev && !allowed)
            mc::fail("*", "nested", "%s of %s is called inside of the handler of %s", what, p.name.c_str(), prev);
        w->busy[l] = what;
    }
    ~Nested() {
        if (l >= 0)
            w->busy[l] = prev;
    }
};

template <typename Base> struct probed_t : Base {
    Probe *P;
    template <typename Cfg> explicit probed_t(Cfg &cfg) : Base(cfg), P{cfg.probe} {
        P->ptr = this;
        P->created = true;
    }
    ~probed_t() {
        P->ptr = nullptr;
        if (P->n_init_start && !P->down() && !P->w->dead && !mc::failed())
            mc::fail("*", "destroyed-alive", "%s destroyed before it was shut down", P->name.c_str());
    }
    void order(bool ok, const char *what) {
        P->check(what);
        mc::obs("%s.%s", P->name.c_str(), what);
        if (!ok)
            mc::fail("*", "lifecycle", "%s: %s out of order (init_start %d init_finish %d start %d shutdown_start %d shutdown_finish %d)", P->name.c_str(), what, P->n_init_start,
                     P->n_init_finish, P->n_start, P->n_shut_start, P->n_shut_finish);
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        if (P->conf)
            P->conf(*this, p);
    }
    void init_start() noexcept override {
        order(!P->n_init_start && !P->n_shut_start, "init_start");
        ++P->n_init_start;
        Base::init_start();
        if (P->at_init_start)
            P->at_init_start(*this);
    }
    void init_finish() noexcept override {
        order(!P->n_init_finish && P->n_init_start == 1 && !P->n_shut_start, "init_finish");
        ++P->n_init_finish;
        Base::init_finish();
    }
    void on_start() noexcept override {
        order(!P->n_start && P->n_init_finish == 1 && !P->n_shut_start, "on_start");
        ++P->n_start;
        Base::on_start();
        if (P->at_start)
            P->at_start(*this);
    }
    void shutdown_start() noexcept override {
        order(!P->n_shut_start && P->n_init_start == 1, "shutdown_start");
        ++P->n_shut_start;
        Base::shutdown_start();
        if (P->at_shut_start)
            P->at_shut_start(*this);
    }
    void shutdown_finish() noexcept override {
        order(!P->n_shut_finish && P->n_shut_start == 1, "shutdown_finish");
        Base::shutdown_finish();
        ++P->n_shut_finish;
        P->down_at = P->w->now();
        P->reason = this->get_shutdown_reason();
        if (P->is_sup)
            for (auto &c : P->w->probes)
                if (c.parent == P && c.created && !c.down())
                    mc::fail("*", "child-outlives", "%s finished its shutdown before its child %s", P->name.c_str(), c.name.c_str());
        if (!this->timers_map.empty() || !this->active_requests.empty())
            mc::fail("*", "pending-after-shutdown", "%s has %zu timers and %zu requests after its shutdown", P->name.c_str(), this->timers_map.size(), this->active_requests.size());
        if (P->at_shut_finish)
            P->at_shut_finish(*this);
    }
    request_id_t timer(pt::time_duration d) { return this->start_timer(d, *this, &probed_t::on_timer); }
    void on_timer(request_id_t id, bool cancelled) noexcept {
        Nested n(*P, "timer", cancelled);
        P->check("timer");
        mc::obs("%s.timer%s", P->name.c_str(), cancelled ? " cancelled" : "");
        if (P->timer)
            P->timer(*this, id, cancelled);
    }
    using Base::resources;
    using Base::supervisor;
};

struct act_cfg : r::actor_config_t {
    using r::actor_config_t::actor_config_t;
    Probe *probe = nullptr;
};
template <typename Actor> struct act_builder : r::actor_config_builder_t<Actor> {
    using builder_t = typename Actor::template config_builder_t<Actor>;
    using parent_t = r::actor_config_builder_t<Actor>;
    using parent_t::parent_t;
    builder_t &&probe(Probe *p) && {
        parent_t::config.probe = p;
        return std::move(*static_cast<builder_t *>(this));
    }
};
struct act_base : r::actor_base_t {
    explicit act_base(act_cfg &c) : r::actor_base_t(c) {}
};
struct act_t final : probed_t<act_base> {
    using config_t = act_cfg;
    template <typename A> using config_builder_t = act_builder<A>;
    using probed_t<act_base>::probed_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        probed_t<act_base>::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &s) {
            s.subscribe_actor(&act_t::on_m1);
            s.subscribe_actor(&act_t::on_m2);
            s.subscribe_actor(&act_t::on_call);
            s.subscribe_actor(&act_t::on_rq);
            s.subscribe_actor(&act_t::on_rs);
            s.subscribe_actor(&act_t::on_io)->tag_io();
        });
    }
    void on_m1(msg::m1 &m) noexcept {
        Nested n(*P, "m1");
        P->check("m1");
        mc::obs("%s<-m1(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        if (P->m1)
            P->m1(*this, m);
    }
    void on_m2(msg::m2 &m) noexcept {
        Nested n(*P, "m2");
        P->check("m2");
        mc::obs("%s<-m2(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        if (P->m2)
            P->m2(*this, m);
    }
    void on_io(msg::io &m) noexcept {
        Nested n(*P, "io");
        P->check("io");
        mc::obs("%s<-io(%d)", P->name.c_str(), m.payload.v);
        if (P->io)
            P->io(*this, m);
        mc::obs("%s io(%d) done", P->name.c_str(), m.payload.v);
    }
    void on_call(msg::call &m) noexcept {
        Nested n(*P, "call");
        P->check("call");
        m.payload.fn(*this);
    }
    void on_rq(msg::rq &m) noexcept {
        Nested n(*P, "rq");
        P->check("rq");
        mc::obs("%s<-rq(%d)", P->name.c_str(), m.payload.request_payload.v);
        if (P->rq)
            P->rq(*this, m);
    }
    void on_rs(msg::rs &m) noexcept {
        Nested n(*P, "rs");
        P->check("rs");
        mc::obs("%s<-rs(%d,%d)", P->name.c_str(), m.payload.req->payload.request_payload.v, m.payload.ee ? m.payload.ee->ec.value() : 0);
        if (P->rs)
            P->rs(*this, m);
    }
};

template <typename S> struct sup_cfg : S::config_t {
    using S::config_t::config_t;
    Probe *probe = nullptr;
};
template <typename Sup, typename S> struct sup_builder : S::template config_builder_t<Sup> {
    using builder_t = typename Sup::template config_builder_t<Sup>;
    using parent_t = typename S::template config_builder_t<Sup>;
    using parent_t::parent_t;
    builder_t &&probe(Probe *p) && {
        parent_t::config.probe = p;
        return std::move(*static_cast<builder_t *>(this));
    }
};
template <typename S> struct sup_base : S {
    explicit sup_base(sup_cfg<S> &c) : S(c) {}
};
template <typename S> struct sup_t final : probed_t<sup_base<S>> {
    using config_t = sup_cfg<S>;
    template <typename X> using config_builder_t = sup_builder<X, S>;
    template <typename Cfg> explicit sup_t(Cfg &c) : probed_t<sup_base<S>>(c) { this->P->is_sup = true; }
};

struct Cfg {
    int c;
    explicit Cfg(int v) : c{v} {}
    int operator()(int n) {
        int x = c % n;
        c /= n;
        return x;
    }
};
template <typename Sup> r::intrusive_ptr_t<act_t> make_act(Probe &p, Sup &sup) {
    p.loop = sup.P->loop;
    p.parent = sup.P;
    return sup.template create_actor<act_t>().init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).probe(&p).finish();
}
// runs the function in the context of the actor; may be called by any thread
inline void in_context(const r::intrusive_ptr_t<act_t> &a, r::supervisor_t &sup, std::function<void(act_t &)> fn) {
    sup.enqueue(r::make_message<payload::call_t>(a->get_address(), std::move(fn)));
}
} // namespace bw
