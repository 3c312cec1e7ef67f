// P12: registration and discovery by plugins: servers S and T, client C, any order of creation, any shutdown at any message
#include "trio.hpp"
using namespace h;

namespace {
const Topo dtopos[] = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{1, 1, 1}}, {{1, 2, 0}}}; // S, C, T
const char *nm[] = {"x", "y"};
enum Vict { V_NONE, V_S, V_C, V_SUP_S, V_SUP_C, V_SC, N_VICT };
struct DCfg {
    int topo, sreg, want, delayed, link, order, third, victim;
    explicit DCfg(int c) {
        Cfg g(c);
        topo = g(5);
        sreg = g(3);    // S registers: x; x and y; y
        want = g(3);    // C wants: x; x and y; y
        delayed = g(2); // delayed discovery
        link = g(3);    // 0 discover only, 1 link(false), 2 link(true)
        order = g(3);   // creation: S, C; C, S; C only
        third = g(3);   // 0 nobody, 1: T registers x after S, 2: T registers x before
        victim = g(N_VICT);
    }
    static int count() { return 5 * 3 * 3 * 2 * 3 * 3 * 3 * N_VICT; }
    bool skip() const {
        if (order == 2 && (sreg || victim == V_S || victim == V_SUP_S || victim == V_SC || third == 1))
            return true;
        if (third && (link == 0 || sreg == 2 || want == 2))
            return true;
        if (victim == V_SUP_C && (topo == 0 || topo == 1 || topo == 3))
            return true;
        return false;
    }
};
const std::vector<int> &dlist() {
    static std::vector<int> v = [] {
        std::vector<int> r;
        for (int c = 0; c < DCfg::count(); ++c)
            if (!DCfg(c).skip())
                r.push_back(c);
        return r;
    }();
    return v;
}
struct DSt {
    DCfg g;
    std::unique_ptr<Trio> t;
    address_ptr_t found[2], addr[3], reg, via;
    int cb_disc[2] = {}, cb_link[2] = {};
    bool failed_cb = false;
    struct Rep {
        int code = -1;
        r::address_t *addr = nullptr;
    };
    std::map<std::string, Rep> reply;
    bool asked[3] = {}; // explicit shutdown
    explicit DSt(int c) : g{c} {}
    std::vector<int> wanted() const { return g.want == 0 ? std::vector<int>{0} : g.want == 1 ? std::vector<int>{0, 1} : std::vector<int>{1}; }
    std::vector<int> sregs() const { return g.sreg == 0 ? std::vector<int>{0} : g.sreg == 1 ? std::vector<int>{0, 1} : std::vector<int>{1}; }
};

void run_discovery(int c) {
    auto sp = std::make_shared<DSt>(c);
    auto &s = *sp;
    auto &g = s.g;
    auto &topo = dtopos[g.topo];
    auto &w = *new World(nlocs(topo));
    w.keep.push_back(sp);
    w.blame = "P08,P12";
    w.k_preempt = true;
    w.fireable = [](int) { return false; };
    {
        SupOpt o;
        o.policy = r::supervisor_policy_t::shutdown_failed;
        s.t.reset(new Trio(w, topo, true, 1, r::supervisor_policy_t::shutdown_failed));
        auto &t = *s.t;
        const char *an[] = {"S", "C", "T", "O"};
        for (int i = 0; i < 4; ++i)
            t.pa[i]->name = an[i];
        // O: observer of the registry
        t.pa[3]->conf = [&s](r::actor_base_t &, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &am) { s.via = am.create_address(); });
            p.with_casted<r::plugin::starter_plugin_t>(
                [&](auto &st) {
                    st.subscribe_actor(r::lambda<r::message::discovery_response_t>([&s](auto &m) {
                                           auto &n = m.payload.req->payload.request_payload.service_name;
                                           s.reply[n] = {m.payload.ee ? m.payload.ee->ec.value() : 0, m.payload.res.service_addr.get()};
                                       }),
                                       s.via);
                },
                r::plugin::config_phase_t::PREINIT);
        };
        t.make(3, 0);
        w.boot_quietly();
        s.reg = t.sup[0]->get_registry_address();
        t.pa[0]->conf = [&s](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::registry_plugin_t>([&](auto &r) {
                for (int n : s.sregs())
                    r.register_name(nm[n], a.get_address());
            });
        };
        t.pa[2]->conf = [](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::registry_plugin_t>([&](auto &r) { r.register_name("x", a.get_address()); });
        };
        t.pa[1]->conf = [&s, &w](r::actor_base_t &, r::plugin::plugin_base_t &p) {
            (void)w;
            p.with_casted<r::plugin::registry_plugin_t>([&](auto &r) {
                for (int n : s.wanted()) {
                    auto &task = r.discover_name(nm[n], s.found[n], s.g.delayed);
                    if (s.g.link)
                        task.link(s.g.link == 2);
                    task.callback([&s, n](auto phase, auto &ec) {
                        bool link = phase == r::plugin::registry_plugin_t::phase_t::linking;
                        mc::obs("C: %s %s %s", link ? "linked" : "discovered", nm[n], ec ? "error" : "ok");
                        int &k = link ? s.cb_link[n] : s.cb_disc[n];
                        ++k;
                        s.failed_cb |= bool(ec);
                        if (k > 1)
                            mc::fail("P12", "callback-twice", "the callback of '%s' is called %d times", nm[n], k);
                    });
                }
            });
        };
        auto owner = [&s](int n, const address_ptr_t &a) -> int { // who may own the name
            for (int x : s.sregs())
                if (x == n && a == s.addr[0])
                    return 0;
            if (n == 0 && a == s.addr[2])
                return 2;
            return -1;
        };
        t.pa[1]->at_init_finish = [&s, owner](r::actor_base_t &) {
            for (int n : s.wanted()) {
                if (!s.found[n])
                    mc::fail("P12", "not-discovered", "C is initialized, but '%s' is not resolved", nm[n]);
                int o = owner(n, s.found[n]);
                if (o < 0) {
                    mc::fail("P12", "wrong-address", "C is initialized, but '%s' is resolved to a wrong address", nm[n]);
                    continue;
                }
                if (!s.cb_disc[n] || (s.g.link && !s.cb_link[n]))
                    mc::fail("P12", "not-resolved", "C is initialized before '%s' is %s", nm[n], s.cb_disc[n] ? "linked" : "discovered");
                if (s.g.link == 2 && !s.t->pa[o]->n_start)
                    mc::fail("P12,P10", "not-operational", "C is initialized, but linked '%s' is not operational", nm[n]);
            }
            if (s.failed_cb)
                mc::fail("P12", "init-after-failure", "C is initialized after a discovery has failed");
        };
        auto mk = [&](int i) {
            w.op(std::string("create ") + an[i], [&w, &t, &s, i, l = topo.l[i]] {
                if (t.sup[l]->P->n_shut_start)
                    return;
                w.as(w.loc(l), [&] {
                    t.make(i, l);
                    s.addr[i] = t.a[i]->get_address();
                });
            });
        };
        if (g.third == 2)
            mk(2);
        if (g.order == 0)
            mk(0);
        if (g.third == 1 && g.order == 0)
            mk(2);
        mk(1);
        if (g.order == 1) {
            mk(0);
            if (g.third == 1)
                mk(2);
        }
        auto down = [&](int i) {
            w.inj(std::string("shutdown of ") + an[i], w.loc(topo.l[i]),
                  [&t, &s, i] {
                      s.asked[i] = true;
                      t.pa[i]->ptr->do_shutdown();
                  },
                  [&t, i] { return t.pa[i]->ptr && t.a[i] && !t.pa[i]->n_shut_start; }, g.delayed || true);
        };
        if (g.victim == V_S || g.victim == V_SC)
            down(0);
        if (g.victim == V_C || g.victim == V_SC)
            down(1);
        if (g.victim == V_SUP_S || g.victim == V_SUP_C) {
            int l = topo.l[g.victim == V_SUP_S ? 0 : 1];
            w.inj("shutdown of the supervisor", w.loc(l), [&t, l] { t.sup[l]->do_shutdown(); },
                  [&t, l] { return t.a[1] && t.sup[l]->P->ptr && !t.sup[l]->P->n_shut_start; }, true);
        }
        w.run();
        bool root_down = t.ps[0]->n_shut_start;
        if (!w.stop() && !root_down) {
            // what is registered now?
            w.k_explore = false;
            w.as(w.loc(0), [&] {
                for (auto n : nm)
                    t.a[3]->request_via<r::payload::discovery_request_t>(s.reg, s.via, std::string(n)).send(ms(T_INIT));
            });
            w.run();
            for (int i = 0; i < 3; ++i)
                if (t.pa[i]->created && !t.pa[i]->down() && !t.pa[i]->n_start)
                    mc::fail("P12", "stuck", "%s is neither operational nor shut down (init_finish %d shutdown_start %d)", an[i], t.pa[i]->n_init_finish,
                             t.pa[i]->n_shut_start);
            auto up = [&](int i) { return t.pa[i]->created && t.pa[i]->n_start && !t.pa[i]->down(); };
            for (int n = 0; n < 2; ++n) {
                auto it = s.reply.find(nm[n]);
                if (it == s.reply.end()) {
                    mc::fail("P12,P03", "registry-silent", "the registry does not answer");
                    break;
                }
                auto &rep = it->second;
                bool s_has = false;
                for (int x : s.sregs())
                    s_has |= x == n;
                r::address_t *want = up(0) && s_has ? s.addr[0].get() : up(2) && n == 0 ? s.addr[2].get() : nullptr;
                if (up(0) && s_has && up(2) && n == 0)
                    mc::fail("P12", "name-shared", "both S and T registered the same name and are operational");
                if (want && rep.addr != want)
                    mc::fail("P12", "name-not-discoverable", "the owner of '%s' is operational, but the name is not discoverable", nm[n]);
                if (!want && rep.addr)
                    mc::fail("P12", "stale-name", "'%s' is still registered, but its owner is shut down", nm[n]);
            }
            // nobody goes down without a cause
            bool sup_s = t.pa[0]->created && t.pa[0]->parent->n_shut_start, sup_c = t.pa[1]->parent && t.pa[1]->parent->n_shut_start;
            bool conflict = g.third != 0;
            if (t.pa[0]->created && t.pa[0]->down() && !s.asked[0] && !sup_s && !conflict)
                mc::fail("P12", "unexpected-shutdown", "S is shut down without a cause");
            if (t.pa[1]->created && t.pa[1]->down() && !s.asked[1] && !sup_c) {
                bool cause = false;
                if (g.link || t.pa[1]->n_start == 0)
                    cause |= t.pa[0]->down() || t.pa[2]->down();
                bool possible = true; // all names are available
                for (int n : s.wanted()) {
                    bool has = false;
                    for (int x : s.sregs())
                        has |= x == n && g.order != 2;
                    has |= n == 0 && g.third;
                    possible &= has;
                }
                cause |= !possible || (!g.delayed && !t.pa[1]->n_init_finish);
                if (!cause)
                    mc::fail("P12", "unexpected-shutdown", "C is shut down without a cause");
                if (!possible && t.pa[1]->n_init_finish)
                    mc::fail("P12", "init-without-names", "C is initialized, although a name has never been registered");
            }
            if (t.pa[1]->created && up(1) && g.link)
                for (int n : s.wanted()) {
                    int o = owner(n, s.found[n]);
                    if (o >= 0 && t.pa[o]->down())
                        mc::fail("P12,P10", "client-stays", "C is operational, but its linked '%s' is shut down", nm[n]);
                }
        }
        w.k_explore = false;
        for (auto &a : s.found)
            a.reset();
        for (auto &a : s.addr)
            a.reset();
        s.reg.reset();
        s.via.reset();
        for (auto &x : t.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_discovery(int c) {
    DCfg g(c);
    static const char *so[] = {"x", "x,y", "y"}, *ln[] = {"", ", link", ", link operational only"}, *od[] = {"S then C", "C then S", "C only"};
    static const char *th[] = {"", "; T registers x afterwards", "; T registers x before"};
    static const char *vs[] = {"", "; S is shut down", "; C is shut down", "; supervisor of S is shut down", "; supervisor of C is shut down", "; S and C are shut down"};
    std::string r = "loops of S,C,T=";
    for (int l : dtopos[g.topo].l)
        r += char('0' + l);
    return r + "; S registers " + so[g.sreg] + "; C discovers " + so[g.want] + (g.delayed ? " (delayed)" : "") + ln[g.link] + "; created: " + od[g.order] +
           th[g.third] + vs[g.victim];
}
mc::Reg r1({"reg.plugins", {"P12", "P08", "P17", "P24", "P06", "P10"}, [](mc::Tier) { return int(dlist().size()); }, [](int c) { run_discovery(dlist()[c]); },
            [](int c) { return desc_discovery(dlist()[c]); }, 1, 2, 1, 0});
} // namespace
