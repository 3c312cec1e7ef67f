// Closed world around the real rotor core: harness-controlled localities (event loops), virtual time,
// probed actors, message-granular injection of API calls, final-state oracle.
#pragma once
#include "mc.hpp"
#include "rotor.hpp"
#include "rotor/registry.h"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace hto {
struct trig {};
} // namespace hto
namespace rotor {
template <>
inline auto actor_base_t::access<hto::trig, request_id_t, bool>(request_id_t id, bool cancelled) noexcept {
    on_timer_trigger(id, cancelled);
}
} // namespace rotor

namespace h {
namespace r = rotor;
namespace pt = boost::posix_time;
using r::address_ptr_t;
using r::extended_error_ptr_t;
using r::message_ptr_t;
using r::request_id_t;
using r::state_t;

struct World;
struct Loc;
struct msup_t;
struct act_t;

inline pt::time_duration ms(int v) { return pt::milliseconds(v); }
// well known intervals, by which the explorer decides which timers may expire early
constexpr int T_INIT = 10000, T_SHUT = 20000, T_REQ = 1000;

namespace payload {
struct m1_t {
    int from, seq;
    void *who = nullptr;
};
struct m2_t {
    int from, seq;
    void *who = nullptr;
};
struct rs_t {
    int v = -1;
};
struct rq_t {
    using response_t = rs_t;
    int v;
};
// intrusive (by-pointer) request/response
struct rsp_t : r::arc_base_t<rsp_t> {
    int v = -1;
    explicit rsp_t(int v_) : v{v_} {}
    rsp_t() = default;
};
struct rqp_t : r::arc_base_t<rqp_t> {
    using response_t = r::intrusive_ptr_t<rsp_t>;
    int v;
    explicit rqp_t(int v_) : v{v_} {}
};
} // namespace payload
namespace msg {
using m1 = r::message_t<payload::m1_t>;
using m2 = r::message_t<payload::m2_t>;
using rq = r::request_traits_t<payload::rq_t>::request::message_t;
using rs = r::request_traits_t<payload::rq_t>::response::message_t;
using rqp = r::request_traits_t<payload::rqp_t>::request::message_t;
using rsp = r::request_traits_t<payload::rqp_t>::response::message_t;
} // namespace msg

struct TimerRec {
    int64_t deadline;
    int interval;
    r::timer_handler_base_t *handler;
    request_id_t id;
    msup_t *sup;
};

struct Loc {
    World *w;
    int idx;
    struct In {
        msup_t *sup;
        message_ptr_t m;
    };
    std::deque<In> inbox;
    std::list<TimerRec> timers;
    msup_t *leader = nullptr;
    bool kick = false;
    bool running = false;
    bool fresh = true; // its supervisor has been created, but the event loop has not been run yet
    bool foreign_calls = true; // may be preempted
};

// everything the harness knows about one actor instance
struct Probe {
    World *w = nullptr;
    std::string name;
    Loc *loc = nullptr;
    Probe *parent = nullptr; // probe of the supervisor
    bool is_sup = false;
    r::actor_base_t *ptr = nullptr; // nulled by the destructor
    bool created = false;
    int n_init_start = 0, n_init_finish = 0, n_start = 0, n_shut_start = 0, n_shut_finish = 0, n_dtor = 0;
    int n_after = 0;
    int64_t seq_created = -1, seq_init_finish = -1, seq_start = -1, seq_shut_start = -1, seq_shut_finish = -1;
    extended_error_ptr_t reason; // shutdown reason seen in shutdown_finish
    // behaviour
    std::function<void(r::actor_base_t &, r::plugin::plugin_base_t &)> conf;
    std::function<void(r::actor_base_t &)> at_ctor_init, at_init_start, at_init_finish, at_start, at_shut_start, at_shut_finish, before_shut_finish;
    std::function<bool(r::actor_base_t &, const address_ptr_t &)> on_unlink;
    std::function<bool()> should_restart;
    std::function<void(act_t &, msg::m1 &)> m1;
    std::function<void(act_t &, msg::m2 &)> m2;
    std::function<void(act_t &, msg::rq &)> rq;
    std::function<void(act_t &, msg::rs &)> rs;
    std::function<void(act_t &, msg::rqp &)> rqp;
    std::function<void(act_t &, msg::rsp &)> rsp;
    std::function<void(r::actor_base_t &, request_id_t, bool)> timer;
    std::function<void(r::actor_base_t *, const extended_error_ptr_t &)> child_init;
    std::function<void(r::actor_base_t *)> child_shut;
    bool started() const { return n_start > 0; }
    bool down() const { return n_shut_finish > 0; }
    void check(const char *what); // locality and life-time check of every callback
};

struct mcctx_t : r::system_context_t {
    World *w = nullptr;
    void on_error(r::actor_base_t *actor, const extended_error_ptr_t &ec) noexcept override;
    std::string identity() noexcept override { return "ctx"; }
};

struct World {
    r::intrusive_ptr_t<mcctx_t> ctx;
    std::deque<Loc> locs;
    std::deque<Probe> probes;
    std::vector<r::intrusive_ptr_t<msup_t>> sups; // [0] is the root
    int64_t now = 0;                              // virtual ms
    int64_t seq = 0;
    Loc *cur = nullptr;
    Loc *last = nullptr;
    bool dead = false; // fatal error was reported
    std::string fatal;
    std::function<bool(r::actor_base_t *, const extended_error_ptr_t &)> on_fatal; // returns true if expected
    // explorer knobs
    bool k_all = true;        // offer "deliver the whole inbox at once"
    bool k_preempt = false;   // offer to run the destination locality right at the moment of sending
    bool k_idle_timers = true; // in an idle system time goes on and timers expire
    bool k_patient = false;   // in an idle system non-fireable timers wait for fireable ones
    bool k_timers = true;     // offer early expiration of fireable timers
    std::function<bool(int interval)> fireable = [](int i) { return i != T_INIT && i != T_SHUT; };
    struct Op {
        std::string name;
        std::function<void()> fn;
        std::function<bool()> enabled;
        bool done = false;
    };
    std::vector<Op> ops;      // script operations of the environment, between the runs of event loops
    size_t next_op = 0;
    // API calls injected between any two messages inside of do_process
    struct Inj {
        std::string name;
        std::function<void()> fn;
        std::function<bool()> enabled;
        Loc *loc = nullptr;
        bool done = false;
        bool must = false; // executed at quiescence if it has not been before
    };
    std::vector<Inj> injs;
    bool ticking = false;
    bool k_explore = true; // false: the default schedule (uninteresting phases of a scenario)
    std::function<void(const TimerRec &)> on_fire; // before a timer is triggered
    int pick(int n, const char *label) { return k_explore ? mc::choose(n, mc::DEV, label) : 0; }
    std::string blame = "P08"; // the properties an unexpected stuck state or fatal error breaks
    int fired = 0, max_fired = 400;
    int cur_depth = 0;
    std::function<void()> invariant; // after every step
    std::vector<std::shared_ptr<void>> keep; // lives as long as the world

    explicit World(int nlocs, unsigned layout = 0);
    ~World();
    Loc &loc(int i) { return locs[i]; }
    Probe &probe(const std::string &name, Probe *parent = nullptr) {
        probes.emplace_back();
        auto &p = probes.back();
        p.w = this;
        p.name = name;
        p.parent = parent;
        if (parent)
            p.loc = parent->loc;
        return p;
    }
    void op(const std::string &name, std::function<void()> fn, std::function<bool()> enabled = {}) {
        ops.push_back({name, std::move(fn), std::move(enabled)});
    }
    void inj(const std::string &name, Loc &l, std::function<void()> fn, std::function<bool()> enabled = {}, bool must = false) {
        injs.push_back({name, std::move(fn), std::move(enabled), &l, false, must});
    }
    void enqueue(msup_t &sup, message_ptr_t m);
    void check_queues(); // after the run of an event loop
    void process(Loc &l, size_t n);
    void drain(Loc &l);
    void fire(Loc &l, std::list<TimerRec>::iterator it);
    bool step();
    void run(); // until quiescence
    void boot(); // start all supervisors
    void root_shutdown();
    void boot_quietly() { // the tree becomes operational by the default schedule
        k_explore = false;
        boot();
        run();
        k_explore = true;
    }
    bool idle() const {
        for (auto &l : locs)
            if (!l.inbox.empty() || l.kick || l.running)
                return false;
        return true;
    }
    // executes `fn` as if it were code of the event loop
    template <typename F> void as(Loc &l, F &&fn) {
        auto saved = cur;
        cur = &l;
        fn();
        l.kick = true;
        cur = saved;
    }
    size_t armed() const {
        size_t n = 0;
        for (auto &l : locs)
            n += l.timers.size();
        return n;
    }
    void dump();
    // shuts down, checks the final state, releases everything, checks leaks. Deletes the world.
    void end(bool shutdown = true);
    void tick_handler(Loc &l);
    void put_tick(Loc &l, size_t pos);
    bool want_ticks(Loc &l) const;
    void run_inj(Inj &i);
    bool stop() const { return dead || mc::failed(); }
};

// ---------------------------------------------------------------------------------------
template <typename Base> struct probed_t : Base {
    Probe *P;
    template <typename Cfg> explicit probed_t(Cfg &cfg) : Base(cfg), P{cfg.probe} {
        P->ptr = this;
        P->created = true;
        P->seq_created = ++P->w->seq;
    }
    ~probed_t() {
        P->ptr = nullptr;
        ++P->n_dtor;
        if (P->n_init_start && !P->down() && !P->w->dead && !mc::failed())
            mc::fail("P06,P08,P17", "destroyed-alive", "%s destroyed before it was shut down", P->name.c_str());
    }
    state_t st() const { return this->state; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        if (P->conf)
            P->conf(*this, p);
    }
    void init_start() noexcept override {
        P->check("init_start");
        ++P->n_init_start;
        if (P->n_init_start > 1 || P->n_shut_start)
            mc::fail("P06", "lifecycle", "%s: init_start called %d times (shutdown started: %d)", P->name.c_str(), P->n_init_start, P->n_shut_start);
        Base::init_start();
        if (P->at_init_start)
            P->at_init_start(*this);
    }
    void init_finish() noexcept override {
        P->check("init_finish");
        ++P->n_init_finish;
        mc::obs("%s.init_finish", P->name.c_str());
        P->seq_init_finish = ++P->w->seq;
        if (P->n_init_finish > 1 || P->n_init_start != 1 || P->n_shut_start || P->n_start)
            mc::fail("P06", "lifecycle", "%s: init_finish out of order (init_start %d init_finish %d start %d shutdown_start %d)", P->name.c_str(),
                     P->n_init_start, P->n_init_finish, P->n_start, P->n_shut_start);
        Base::init_finish();
        if (P->at_init_finish)
            P->at_init_finish(*this);
    }
    void on_start() noexcept override {
        P->check("on_start");
        ++P->n_start;
        mc::obs("%s.on_start", P->name.c_str());
        P->seq_start = ++P->w->seq;
        if (P->n_start > 1 || P->n_init_finish != 1 || P->n_shut_start)
            mc::fail("P06", "lifecycle", "%s: on_start out of order (init_finish %d start %d shutdown_start %d)", P->name.c_str(), P->n_init_finish,
                     P->n_start, P->n_shut_start);
        Base::on_start();
        if (P->at_start)
            P->at_start(*this);
    }
    void shutdown_start() noexcept override {
        P->check("shutdown_start");
        ++P->n_shut_start;
        mc::obs("%s.shutdown_start", P->name.c_str());
        P->seq_shut_start = ++P->w->seq;
        if (P->n_shut_start > 1 || P->n_init_start != 1 || P->n_shut_finish)
            mc::fail("P06", "lifecycle", "%s: shutdown_start called %d times (shutdown_finish %d)", P->name.c_str(), P->n_shut_start, P->n_shut_finish);
        Base::shutdown_start();
        if (P->at_shut_start)
            P->at_shut_start(*this);
    }
    void shutdown_finish() noexcept override {
        P->check("shutdown_finish");
        if (P->before_shut_finish)
            P->before_shut_finish(*this);
        Base::shutdown_finish();
        ++P->n_shut_finish;
        mc::obs("%s.shutdown_finish", P->name.c_str());
        P->seq_shut_finish = ++P->w->seq;
        P->reason = this->get_shutdown_reason();
        if (P->n_shut_finish > 1 || P->n_shut_start != 1)
            mc::fail("P06", "lifecycle", "%s: shutdown_finish out of order (shutdown_start %d shutdown_finish %d)", P->name.c_str(), P->n_shut_start,
                     P->n_shut_finish);
        if (P->is_sup)
            for (auto &c : P->w->probes)
                if (c.parent == P && c.created && !c.down())
                    mc::fail("P08", "child-outlives", "%s finished its shutdown before its child %s", P->name.c_str(), c.name.c_str());
        if (!this->timers_map.empty() || !this->active_requests.empty())
            mc::fail("P04,P05", "pending-after-shutdown", "%s has %zu timers and %zu requests after its shutdown", P->name.c_str(),
                     this->timers_map.size(), this->active_requests.size());
        if (P->at_shut_finish)
            P->at_shut_finish(*this);
    }
    bool on_unlink(const address_ptr_t &a) noexcept override {
        P->check("on_unlink");
        if (P->on_unlink)
            return P->on_unlink(*this, a);
        return Base::on_unlink(a);
    }
    bool should_restart() const noexcept override {
        if (P->should_restart)
            return P->should_restart();
        return Base::should_restart();
    }
    // protected API made public for the scripts
    request_id_t timer(pt::time_duration d) { return this->start_timer(d, *this, &probed_t::on_timer); }
    void on_timer(request_id_t id, bool cancelled) noexcept {
        P->check("timer");
        mc::obs("%s.timer%s", P->name.c_str(), cancelled ? " cancelled" : "");
        if (P->timer)
            P->timer(*this, id, cancelled);
    }
    using Base::init_request;
    using Base::make_error;
    using Base::resources;
    using Base::shutdown_request;
    using Base::redirect;
    using Base::state;
    using Base::supervisor;
    using Base::timers_map;
    using Base::active_requests;
    using Base::get_plugin;
};

struct act_cfg : r::actor_config_t {
    using r::actor_config_t::actor_config_t;
    Probe *probe = nullptr;
};
template <typename Actor> struct act_builder : r::actor_config_builder_t<Actor> {
    using builder_t = typename Actor::template config_builder_t<Actor>;
    using parent_t = r::actor_config_builder_t<Actor>;
    using parent_t::parent_t;
    builder_t &&probe(Probe *p) && {
        parent_t::config.probe = p;
        return std::move(*static_cast<builder_t *>(this));
    }
};

struct act_base : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    using config_t = act_cfg;
    template <typename A> using config_builder_t = act_builder<A>;
    explicit act_base(act_cfg &c) : r::actor_base_t(c) {}
};

struct act_t final : probed_t<act_base> {
    using config_t = act_cfg;
    template <typename A> using config_builder_t = act_builder<A>;
    using probed_t<act_base>::probed_t;
    void on_m1(msg::m1 &m) noexcept {
        P->check("m1");
        mc::obs("%s<-m1(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        if (P->m1)
            P->m1(*this, m);
    }
    void on_m1b(msg::m1 &m) { // second handler of the same message type (called from a lambda handler)
        P->check("m1b");
        mc::obs("%s<-m1b(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        ++n_m1b;
        if (m1b)
            m1b(*this, m);
    }
    void on_m2(msg::m2 &m) noexcept {
        P->check("m2");
        mc::obs("%s<-m2(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        if (P->m2)
            P->m2(*this, m);
    }
    void on_rq(msg::rq &m) noexcept {
        P->check("rq");
        mc::obs("%s<-rq(%d)", P->name.c_str(), m.payload.request_payload.v);
        if (P->rq)
            P->rq(*this, m);
    }
    void on_rs(msg::rs &m) noexcept {
        P->check("rs");
        mc::obs("%s<-rs(%d,%d)", P->name.c_str(), m.payload.req->payload.request_payload.v, m.payload.ee ? m.payload.ee->ec.value() : 0);
        if (P->rs)
            P->rs(*this, m);
    }
    void on_rqp(msg::rqp &m) noexcept {
        P->check("rqp");
        mc::obs("%s<-rqp(%d)", P->name.c_str(), m.payload.request_payload->v);
        if (P->rqp)
            P->rqp(*this, m);
    }
    void on_rsp(msg::rsp &m) noexcept {
        P->check("rsp");
        mc::obs("%s<-rsp(%d,%d)", P->name.c_str(), m.payload.req->payload.request_payload->v, m.payload.ee ? m.payload.ee->ec.value() : 0);
        if (P->rsp)
            P->rsp(*this, m);
    }
    std::function<void(act_t &, msg::m1 &)> m1b;
    int n_m1b = 0;
};

struct msup_cfg : r::supervisor_config_t {
    using r::supervisor_config_t::supervisor_config_t;
    Probe *probe = nullptr;
    bool plain = false; // kept for symmetry with msup_plain_t
};
template <typename Sup> struct msup_builder : r::supervisor_config_builder_t<Sup> {
    using builder_t = typename Sup::template config_builder_t<Sup>;
    using parent_t = r::supervisor_config_builder_t<Sup>;
    using parent_t::parent_t;
    builder_t &&probe(Probe *p) && {
        parent_t::config.probe = p;
        return std::move(*static_cast<builder_t *>(this));
    }
};

struct msup_base : r::supervisor_t {
    Loc *loc;
    Probe *PB;
    explicit msup_base(msup_cfg &c) : r::supervisor_t(c), loc{c.probe->loc}, PB{c.probe} {}
    address_ptr_t make_address() noexcept override { return instantiate_address(loc); }
    void start() noexcept override { loc->kick = true; }
    void shutdown() noexcept override {
        auto ec = r::make_error_code(r::shutdown_code_t::normal);
        supervisor->enqueue(r::make_message<r::payload::shutdown_trigger_t>(supervisor->get_address(), address, make_error(ec)));
    }
    void enqueue(message_ptr_t m) noexcept override;
    void do_start_timer(const pt::time_duration &interval, r::timer_handler_base_t &handler) noexcept override {
        auto d = int64_t(interval.total_milliseconds());
        auto it = loc->timers.begin();
        auto deadline = PB->w->now + d;
        while (it != loc->timers.end() && it->deadline <= deadline)
            ++it;
        loc->timers.insert(it, TimerRec{deadline, int(d), &handler, handler.request_id, reinterpret_cast<msup_t *>(this)});
    }
    void do_cancel_timer(request_id_t id) noexcept override {
        for (auto it = loc->timers.begin(); it != loc->timers.end(); ++it)
            if (it->id == id && it->sup == reinterpret_cast<msup_t *>(this)) {
                auto owner = it->handler->owner;
                loc->timers.erase(it);
                owner->access<hto::trig, request_id_t, bool>(id, true);
                return;
            }
        mc::fail("P03,P04,P05", "cancel-unknown-timer", "%s cancels timer %zu, which is not armed (a real event loop asserts or throws here)",
                 PB->name.c_str(), (size_t)id);
        abort();
    }
    void on_child_init(r::actor_base_t *a, const extended_error_ptr_t &ec) noexcept override {
        r::supervisor_t::on_child_init(a, ec);
        if (PB->child_init)
            PB->child_init(a, ec);
    }
    void on_child_shutdown(r::actor_base_t *a) noexcept override {
        r::supervisor_t::on_child_shutdown(a);
        if (PB->child_shut)
            PB->child_shut(a);
    }
};

struct msup_t : probed_t<msup_base> {
    using config_t = msup_cfg;
    template <typename S> using config_builder_t = msup_builder<S>;
    template <typename Cfg> explicit msup_t(Cfg &c) : probed_t<msup_base>(c) {
        P->is_sup = true;
        if (!loc->leader)
            loc->leader = this;
    }
    r::messages_queue_t &q() { return static_cast<msup_t *>(locality_leader)->queue; }
    bool leads() const { return locality_leader == static_cast<const r::supervisor_t *>(this); }
    using probed_t<msup_base>::request_map;
    void on_m1(msg::m1 &m) noexcept { // supervisors handle user messages too
        P->check("m1");
        mc::obs("%s<-m1(%d,%d)", P->name.c_str(), m.payload.from, m.payload.seq);
        if (sm1)
            sm1(*this, m);
    }
    std::function<void(msup_t &, msg::m1 &)> sm1;
};

// the same supervisor with the release-build (non-inspecting) delivery loop
#ifdef BW_INSPECT // in this engine every delivery is inspected
void inspect_init();
void inspect_level(const char *);
using plain_delivery_t = r::plugin::inspected_local_delivery_t;
#else
using plain_delivery_t = r::plugin::local_delivery_t;
#endif
struct msup_plain_t final : msup_t {
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::locality_plugin_t,
                                      r::plugin::delivery_plugin_t<plain_delivery_t>, r::plugin::lifetime_plugin_t,
                                      r::plugin::init_shutdown_plugin_t, r::plugin::foreigners_support_plugin_t, r::plugin::child_manager_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t,
                                      r::plugin::resources_plugin_t, r::plugin::starter_plugin_t>;
    using config_t = msup_cfg;
    template <typename S> using config_builder_t = msup_builder<S>;
    using msup_t::msup_t;
};
struct msup_insp_t final : msup_t {
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::locality_plugin_t,
                                      r::plugin::delivery_plugin_t<r::plugin::inspected_local_delivery_t>, r::plugin::lifetime_plugin_t,
                                      r::plugin::init_shutdown_plugin_t, r::plugin::foreigners_support_plugin_t, r::plugin::child_manager_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t,
                                      r::plugin::resources_plugin_t, r::plugin::starter_plugin_t>;
    using config_t = msup_cfg;
    template <typename S> using config_builder_t = msup_builder<S>;
    using msup_t::msup_t;
};

// helpers ---------------------------------------------------------------------------------
struct SupOpt {
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    bool registry = false, sync = false, escalate = false, autoshutdown = false, plain = true;
    address_ptr_t registry_addr;
    int init_timeout = T_INIT, shut_timeout = T_SHUT;
};
msup_t *make_root(World &w, Probe &p, int loc, const SupOpt &o = {});
msup_t *make_sup(World &w, Probe &p, int loc, msup_t &parent, const SupOpt &o = {});
struct ActOpt {
    bool escalate = false, autoshutdown = false;
    int init_timeout = T_INIT, shut_timeout = T_SHUT;
    address_ptr_t spawner;
};
r::intrusive_ptr_t<act_t> make_act(World &w, Probe &p, msup_t &sup, const ActOpt &o = {});

// configuration space helper: mixed radix decoding
struct Cfg {
    int c;
    explicit Cfg(int v) : c{v} {}
    int operator()(int n) {
        int r = c % n;
        c /= n;
        return r;
    }
};
inline std::string root_ec(const extended_error_ptr_t &e) { return e ? e->root()->ec.message() : std::string("none"); }

} // namespace h
