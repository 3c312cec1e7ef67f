// P05, P04: timer programs of actors in the core; several actors per event loop, shutdown at any moment
#include "timerprog.hpp"
#include "trio.hpp"
using namespace h;

namespace {
struct TSt {
    TimerProg p, q; // of A and B
    std::unique_ptr<Trio> t;
};
const std::vector<int> &plist() {
    static std::vector<int> v = [] {
        std::vector<int> r;
        for (int c = 0; c < TimerProg::count(); ++c)
            if (!TimerProg::skip(c))
                r.push_back(c);
        return r;
    }();
    return v;
}
constexpr int NV = 4;
// v: 0 nothing else; 1 shutdown of A injected; 2 B of the same loop runs its own timers; 3 the supervisor is shut down
void run_timer(int c) {
    int v = c % NV;
    auto sp = std::make_shared<TSt>();
    auto &s = *sp;
    s.p.decode(plist()[c / NV]);
    auto &w = *new World(1);
    w.keep.push_back(sp);
    w.blame = "P05,P04,P08";
    {
        s.t.reset(new Trio(w, topos[0], true));
        auto &t = *s.t;
        for (int i = 0; i < (v == 2 ? 2 : 1); ++i)
            t.make(i, 0);
        auto bind = [&](TimerProg &p, int i) {
            p.now = [&w] { return w.now; };
            p.start = [&t, i](int d) { return t.a[i]->timer(ms(d)); };
            p.cancel = [&t, i](size_t id) { t.a[i]->cancel_timer(id); };
            p.shutdown = [&t, i] { t.a[i]->do_shutdown(); };
            p.going_down = [&t, i] { return t.pa[i]->n_shut_start > 0; };
            t.pa[i]->timer = [&p](r::actor_base_t &, request_id_t id, bool c) { p.callback(id, c); };
        };
        bind(s.p, 0);
        if (v == 2) {
            bind(s.q, 1);
            int ops[] = {TimerProg::O_S10, TimerProg::O_S20, TimerProg::O_CFIRST};
            for (int k = 0; k < 3; ++k)
                s.q.ops[k] = ops[k];
        }
        w.boot_quietly();
        w.op("script of A", [&] { w.as(w.loc(0), [&] { s.p.script(); }); });
        if (v == 2)
            w.op("script of B", [&] { w.as(w.loc(0), [&] { s.q.script(); }); });
        if (v == 1)
            w.op("shutdown of A", [&] { w.as(w.loc(0), [&] { t.a[0]->do_shutdown(); }); });
        if (v == 3)
            w.op("shutdown of the supervisor", [&] { w.as(w.loc(0), [&] { t.sup[0]->do_shutdown(); }); });
        w.run();
        if (!w.stop()) {
            s.p.final();
            s.q.final();
        }
        for (auto &x : t.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_timer(int c) {
    TimerProg p;
    p.decode(plist()[c / NV]);
    static const char *vs[] = {"", "; A is shut down", "; B uses timers, too", "; the supervisor is shut down"};
    return p.describe() + vs[c % NV];
}
mc::Reg r1({"timer.prog", {"P05", "P04", "P17"}, [](mc::Tier) { return int(plist().size()) * NV; }, run_timer, desc_timer, 3, 4, 1, 0});

// ---- shutdown with things in flight: timers, requests, plain messages, foreign calls (P04) ----------------------------
struct FSt {
    std::unique_ptr<Trio> t;
    int sent = 0, got_after = 0;
    int ticks = 0;
    address_ptr_t ab;
};
struct FCfg {
    int topo, victim, load, foreign, late;
    explicit FCfg(int c) {
        Cfg g(c);
        topo = g(5);
        victim = g(3);  // A, B, supervisor of B
        load = g(8);    // bit 0: B has a timer, 1: B has a request to A pending, 2: A sends a burst of messages to B
        foreign = g(2); // C listens to the address of B
        late = g(2);    // one more message is sent after B is shut down
    }
    static int count() { return 5 * 3 * 8 * 2 * 2; }
};
const Topo ftopos[] = {{{0, 0, 0}}, {{0, 1, 0}}, {{1, 0, 1}}, {{1, 2, 1}}, {{0, 1, 1}}};
void run_flight(int c) {
    FCfg g(c);
    auto sp = std::make_shared<FSt>();
    auto &s = *sp;
    auto &topo = ftopos[g.topo];
    auto &w = *new World(nlocs(topo));
    w.keep.push_back(sp);
    w.blame = "P04,P08";
    w.k_preempt = true;
    {
        s.t.reset(new Trio(w, topo, true));
        auto &t = *s.t;
        for (int i = 0; i < 3; ++i)
            t.pa[i]->conf = [&s, i, g](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>(
                    [&](auto &st) {
                        st.subscribe_actor(&act_t::on_m1);
                        st.subscribe_actor(&act_t::on_m2);
                        st.subscribe_actor(&act_t::on_rq);
                        st.subscribe_actor(&act_t::on_rs);
                        if (i == 2 && g.foreign)
                            st.subscribe_actor(&act_t::on_m1, s.ab);
                    },
                    r::plugin::config_phase_t::PREINIT);
            };
        t.make(1, topo.l[1]);
        s.ab = t.a[1]->get_address();
        t.make(0, topo.l[0]);
        t.make(2, topo.l[2]);
        w.boot_quietly();
        auto alive = [&t](int i) { return t.a[i] && !t.pa[i]->n_shut_finish; };
        if (g.load & 1)
            w.op("B starts timers", [&, alive] {
                if (alive(1))
                    w.as(*t.pa[1]->loc, [&] {
                        t.a[1]->timer(ms(10));
                        t.a[1]->timer(ms(20));
                    });
            });
        if (g.load & 2)
            w.op("B sends requests to A and C", [&, alive] {
                if (alive(1))
                    w.as(*t.pa[1]->loc, [&] {
                        t.a[1]->request<payload::rq_t>(t.a[0]->get_address(), 1).send(ms(T_REQ));
                        t.a[1]->request<payload::rq_t>(t.a[2]->get_address(), 2).send(ms(T_REQ + 5));
                    });
            });
        // A answers, C does not
        t.pa[0]->rq = [](act_t &self, msg::rq &m) { self.reply_to(m, 5); };
        if (g.load & 4)
            w.op("A sends a burst", [&, alive] {
                if (alive(0))
                    w.as(*t.pa[0]->loc, [&] {
                        for (int k = 0; k < 3; ++k)
                            t.a[0]->send<payload::m1_t>(s.ab, 0, k);
                    });
            });
        int x = g.victim == 0 ? 0 : 1;
        if (g.victim < 2)
            w.inj("shutdown of " + t.pa[x]->name, *t.pa[x]->loc, [&t, x] { t.a[x]->do_shutdown(); }, [&t, x] { return t.a[x] && !t.pa[x]->n_shut_start; }, true);
        else
            w.inj("shutdown of the supervisor of B", *t.pa[1]->loc, [&t] { t.sup[t.pa[1]->loc->idx]->do_shutdown(); },
                  [&t] { return t.a[1] && !t.pa[1]->parent->n_shut_start; }, true);
        w.run();
        if (g.late && !w.stop() && alive(0)) {
            w.op("A sends to B again", [&] {
                w.as(*t.pa[0]->loc, [&] {
                    t.a[0]->send<payload::m1_t>(s.ab, 0, 9);
                    t.a[0]->request<payload::rq_t>(s.ab, 9).send(ms(T_REQ + 9));
                });
            });
            int before = t.pa[0]->n_shut_start;
            w.run();
            (void)before;
        }
        if (!w.stop()) {
            // every armed timer belongs to somebody alive: there is none at all now
            for (auto &l : w.locs)
                for (auto &tr : l.timers)
                    mc::fail("P04", "timer-left", "a timer (%d ms) is still armed in the idle system", tr.interval);
            if (!t.pa[x]->down())
                mc::fail("P08", "stuck", "%s is not shut down", t.pa[x]->name.c_str());
        }
        s.ab.reset();
        for (auto &q : t.a)
            q.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_flight(int c) {
    FCfg g(c);
    std::string r = "localities of A,B,C=";
    for (int l : ftopos[g.topo].l)
        r += char('0' + l);
    static const char *vs[] = {"A", "B", "the supervisor of B"};
    return r + "; shutdown of " + vs[g.victim] + (g.load & 1 ? "; B has timers" : "") + (g.load & 2 ? "; B has pending requests" : "") +
           (g.load & 4 ? "; A sends a burst to B" : "") + (g.foreign ? "; C listens to B's address" : "") + (g.late ? "; A sends again afterwards" : "");
}
mc::Reg r2({"down.inflight", {"P04", "P08", "P17", "P06", "P24"}, [](mc::Tier) { return FCfg::count(); }, run_flight, desc_flight, 2, 3, 1, 0});
} // namespace
