// P13: resources gate initialization and shutdown: all short programs of acquire and release, by messages, direct calls and timers
#include "trio.hpp"
using namespace h;

namespace {
constexpr int OP_T = 5;
struct ResCfg {
    int kind, loc, how, link, init, step[4], shut, victim;
    explicit ResCfg(int c, int depth) {
        Cfg g(c);
        victim = g(2); // 0: the actor itself, 1: the root
        kind = g(2);   // actor, supervisor
        loc = g(2);
        how = g(3);  // message, direct call, timer
        link = g(2); // additionally waits for another actor to become operational
        init = g(5); // nothing, 0, 0 twice, 0 and 1, 0 taken and given back
        shut = g(3); // in shutdown_start: nothing, takes 1, takes and gives back 1
        for (auto &x : step)
            x = 0;
        for (int i = 0; i < depth; ++i)
            step[i] = g(5); // nothing, take 0, take 1, give 0, give 1
    }
    static int count(int depth) {
        int n = 2 * 2 * 2 * 3 * 2 * 5 * 3;
        while (depth--)
            n *= 5;
        return n;
    }
};
struct RSt {
    ResCfg g;
    std::unique_ptr<Trio> t;
    Probe *pa = nullptr;
    r::intrusive_ptr_t<act_t> act;
    msup_t *sup = nullptr;
    int held[2] = {};
    bool in_shut_start = false;
    bool ready = false; // the other actor may become operational
    int pending = 0;    // operations on the way
    std::deque<int> timed;
    explicit RSt(int c, int d) : g{c, d} {}
    int total() const { return held[0] + held[1]; }
    r::plugin::resources_plugin_t *res() {
        auto p = g.kind ? sup->resources : act->resources;
        return static_cast<r::plugin::resources_plugin_t *>(p);
    }
    bool gone() const { return !pa->ptr || pa->down(); }
    void apply(int op) { // 1,2 take; 3,4 give
        if (gone())
            return;
        int i = (op - 1) & 1;
        if (op <= 2) {
            if (pa->n_shut_start && !total() && !in_shut_start)
                return; // the gate has been passed: nothing may be acquired any more
            ++held[i];
            mc::obs("acquire %d", i);
            res()->acquire(i);
        } else if (held[i]) {
            --held[i];
            mc::obs("release %d", i);
            bool more = total();
            if (res()->release(i) != more)
                mc::fail("P13", "release-result", "release(%d) tells that %s is held, but %d are", i, more ? "nothing" : "something", total());
        }
        if (gone())
            return;
        for (int k = 0; k < 2; ++k)
            if (int(res()->has(k)) != held[k])
                mc::fail("P13", "count", "has(%d) is %d instead of %d", k, int(res()->has(k)), held[k]);
        if (res()->has_any() != bool(total()))
            mc::fail("P13", "count", "has_any() is wrong, %d are held", total());
    }
};

void run_res(int c, int depth) {
    auto sp = std::make_shared<RSt>(c, depth);
    auto &s = *sp;
    auto &g = s.g;
    auto &w = *new World(2);
    w.keep.push_back(sp);
    w.blame = "P13,P08";
    w.k_patient = true;
    w.fireable = [](int i) { return i == OP_T; };
    {
        s.t.reset(new Trio(w, topos[5], true, 0, r::supervisor_policy_t::shutdown_self));
        auto &t = *s.t;
        w.boot_quietly();
        // B: the one to be linked with
        t.pa[1]->conf = [&s](r::actor_base_t &, r::plugin::plugin_base_t &p) {
            if (s.g.link)
                p.with_casted<r::plugin::resources_plugin_t>([](auto &r) { r.acquire(0); });
        };
        t.make(1, 0);
        s.ready = !g.link;
        auto server = t.a[1]->get_address();
        auto pa = s.pa = g.kind ? &w.probe("A") : t.pa[0];
        pa->conf = [&s, server](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
                auto &g = s.g;
                if (!g.kind)
                    s.act = static_cast<act_t *>(&a);
                else
                    s.sup = static_cast<msup_t *>(&a);
                if (g.init)
                    s.apply(1);
                if (g.init == 2)
                    s.apply(1);
                if (g.init == 3)
                    s.apply(2);
                if (g.init == 4)
                    s.apply(3);
            });
            p.with_casted<r::plugin::link_client_plugin_t>([&](auto &l) {
                if (s.g.link)
                    l.link(server, true);
            });
            p.with_casted<r::plugin::starter_plugin_t>(
                [&](auto &st) {
                    if (s.g.kind)
                        st.subscribe_actor(&msup_t::on_m1);
                    else
                        st.subscribe_actor(&act_t::on_m1);
                },
                r::plugin::config_phase_t::PREINIT);
        };
        pa->m1 = [&s](act_t &, msg::m1 &m) {
            --s.pending;
            s.apply(m.payload.seq);
        };
        pa->timer = [&s](r::actor_base_t &, request_id_t, bool cancelled) {
            --s.pending;
            int op = s.timed.front();
            s.timed.pop_front();
            if (!cancelled)
                s.apply(op);
        };
        pa->at_init_finish = [&s](r::actor_base_t &) {
            if (s.total())
                mc::fail("P13", "init-while-held", "initialization is finished while %d resources are held", s.total());
        };
        pa->at_shut_start = [&s](r::actor_base_t &) {
            s.in_shut_start = true;
            if (s.g.shut)
                s.apply(2);
            if (s.g.shut == 2)
                s.apply(4);
            s.in_shut_start = false;
        };
        pa->before_shut_finish = [&s](r::actor_base_t &) {
            if (s.total())
                mc::fail("P13", "shutdown-while-held", "shutdown is finished while %d resources are held", s.total());
        };
        if (g.kind) {
            s.sup = make_sup(w, *pa, g.loc, *t.sup[0], {});
            s.sup->sm1 = [&s](msup_t &, msg::m1 &m) {
                --s.pending;
                s.apply(m.payload.seq);
            };
            s.sup->start();
        } else {
            t.make(0, g.loc);
            s.act = t.a[0];
            t.sup[g.loc]->start();
        }
        t.sup[0]->start();
        auto &L = w.loc(g.loc);
        auto self = [&s]() -> r::actor_base_t * { return s.g.kind ? static_cast<r::actor_base_t *>(s.sup) : s.act.get(); };
        auto issue = [&w, &s, &L, self](int op, int how) {
            if (s.gone())
                return;
            w.as(L, [&] {
                if (how == 1)
                    s.apply(op);
                else if (how == 0) {
                    ++s.pending;
                    self()->send<payload::m1_t>(self()->get_address(), payload::m1_t{0, op});
                } else {
                    ++s.pending;
                    s.timed.push_back(op);
                    if (s.g.kind)
                        s.sup->timer(ms(OP_T));
                    else
                        s.act->timer(ms(OP_T));
                }
            });
        };
        static const char *on[] = {"", "acquire 0", "acquire 1", "release 0", "release 1"};
        for (int i = 0; i < depth; ++i)
            if (int op = g.step[i])
                w.op(on[op], [&s, issue, op] {
                    if (s.pa->n_init_start && (s.g.how == 1 || !s.pa->n_shut_start))
                        issue(op, s.g.how);
                });
        if (g.link)
            w.op("the server becomes operational", [&w, &s] {
                s.ready = true;
                auto &b = s.t->a[1];
                if (s.t->pa[1]->ptr && !s.t->pa[1]->down())
                    w.as(w.loc(0), [&] { static_cast<r::plugin::resources_plugin_t *>(b->resources)->release(0); });
            }, [&t] { return !t.pa[1]->ptr || t.pa[1]->n_shut_start || static_cast<r::plugin::resources_plugin_t *>(t.a[1]->resources)->has(0); });
        auto release_all = [&s, issue] {
            for (int k = 0; k < 2; ++k)
                while (s.held[k] && !s.gone())
                    issue(3 + k, 1);
        };
        auto quiet_timers = [&s] { return s.timed.empty(); };
        w.op("release everything", release_all, quiet_timers);
        w.op("release everything", release_all, [&s, quiet_timers] { return s.pa->n_shut_start && s.total() && quiet_timers(); });
        w.inj(g.victim ? "shutdown of the root" : "shutdown", g.victim ? w.loc(0) : L,
              [&s, self, &t] {
                  if (s.g.victim)
                      t.sup[0]->do_shutdown();
                  else
                      self()->do_shutdown();
              },
              [&s, &t] { return s.pa->n_init_start && s.pa->ptr && !s.pa->n_shut_start && !t.ps[0]->n_shut_start; }, true);
        w.invariant = [&w, &s] {
            if (!w.idle() || s.gone() || !s.pa->n_init_start)
                return;
            auto &p = *s.pa;
            if (!s.total() && !p.n_shut_start && !p.n_init_finish && s.ready)
                mc::fail("P13", "init-stuck", "nothing is held, but the initialization does not proceed");
            if (!s.total() && p.n_shut_start)
                mc::fail("P13", "shutdown-stuck", "nothing is held, but the shutdown does not proceed");
        };
        w.run();
        s.act.reset();
        for (auto &x : t.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_res(int c, int depth) {
    ResCfg g(c, depth);
    static const char *in[] = {"nothing", "0", "0 twice", "0 and 1", "0 and gives it back"}, *hw[] = {"messages", "direct calls", "timers"};
    static const char *sh[] = {"", ", takes 1 in shutdown_start", ", takes and gives back 1 in shutdown_start"};
    static const char *on[] = {"-", "+0", "+1", "-0", "-1"};
    std::string r = g.kind ? "supervisor" : "actor";
    r += " in loop " + std::to_string(g.loc) + " takes " + in[g.init] + " at initialization, then by " + hw[g.how] + ":";
    for (int i = 0; i < depth; ++i)
        r += std::string(" ") + on[g.step[i]];
    return r + sh[g.shut] + (g.link ? "; links with an actor, which is not operational yet" : "") + (g.victim ? "; root is shut down" : "; it is shut down");
}
template <int D> mc::Scenario scenario(const char *name, bool quick) {
    return {name, {"P13", "P17"}, [quick](mc::Tier t) { return quick || t == mc::Tier::thorough ? ResCfg::count(D) : 0; }, [](int c) { run_res(c, D); },
            [](int c) { return desc_res(c, D); }, 1, quick ? 2 : 1, 1, 0};
}
mc::Reg r1(scenario<2>("resources.gate", true)), r2(scenario<4>("resources.deep", false));
} // namespace
