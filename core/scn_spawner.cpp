// P14: restart policies of spawners: all short histories of ends of the spawned actors, with supervisor shutdown at any moment
#include "trio.hpp"
using namespace h;

namespace {
constexpr int PERIOD = 7, LIFE = 30;
enum End { E_STAY, E_NORMAL, E_FAIL, E_NORMAL_LATE, E_FAIL_LATE, E_THROW, E_INIT_FAIL, N_END };
struct SpCfg {
    int kind, sup, policy, max, esc, ask, victim, phase, end[5];
    int gens;
    SpCfg(int c, int depth) {
        Cfg g(c);
        kind = g(2);   // actor, supervisor
        sup = g(2);    // spawned by root, by sup1 (another event loop)
        policy = g(5);
        max = g(3);
        esc = g(2);
        ask = g(3);    // ask_actor: yes; no; yes then no
        phase = g(2);  // spawner is created when the supervisor is operational, or right after its creation
        victim = g(3); // nobody, the supervisor, the root
        gens = 0;
        bool over = false;
        valid = true;
        for (int i = 0; i < depth; ++i) {
            int e = g(N_END);
            if (over && e)
                valid = false;
            end[i] = over ? E_STAY : e;
            over |= !e;
            if (!over)
                gens = i + 1;
        }
        for (int i = depth; i < 5; ++i)
            end[i] = E_STAY;
        if (ask && r::restart_policy_t(policy) != r::restart_policy_t::ask_actor)
            valid = false;
        if (victim == 2 && sup == 0)
            valid = false;
        if (kind && (phase || victim == 2))
            valid = false;
    }
    bool valid;
    static int count(int depth) {
        int n = 2 * 2 * 5 * 3 * 2 * 3 * 2 * 3;
        while (depth--)
            n *= N_END;
        return n;
    }
};
const std::vector<int> &slist(int depth) {
    auto mk = [](int d) {
        std::vector<int> r;
        for (int c = 0; c < SpCfg::count(d); ++c)
            if (SpCfg(c, d).valid)
                r.push_back(c);
        return r;
    };
    if (depth == 2) {
        static std::vector<int> v = mk(2);
        return v;
    }
    static std::vector<int> v = mk(3);
    return v;
}
struct Gen {
    Probe *p = nullptr; // null if the factory has thrown
    int64_t at = 0, down_at = -1;
    bool abnormal = false;
};
struct SSt {
    SpCfg g;
    std::unique_ptr<Trio> t;
    std::deque<Gen> gen;
    extended_error_ptr_t ee;
    bool asked = false; // shutdown from outside
    bool over = false;  // the world comes to its end
    SSt(int c, int d) : g{c, d} {}
    r::restart_policy_t policy() const { return r::restart_policy_t(g.policy); }
    bool answer(size_t k) const { return g.ask == 0 || (g.ask == 2 && k == 0); }
    bool wants(size_t k) const { // does the policy ask for the next one after the end of generation k
        auto e = g.end[k];
        if (g.max && int(k) + 1 >= g.max)
            return false;
        bool normal = e == E_NORMAL || e == E_NORMAL_LATE;
        switch (policy()) {
        case r::restart_policy_t::always:
            return true;
        case r::restart_policy_t::never:
            return false;
        case r::restart_policy_t::normal_only:
            return normal;
        case r::restart_policy_t::fail_only:
            return !normal;
        case r::restart_policy_t::ask_actor:
            return e != E_THROW && answer(k);
        }
        return false;
    }
};

void run_spawn(int c, int depth) {
    auto sp = std::make_shared<SSt>(c, depth);
    auto &s = *sp;
    auto &g = s.g;
    auto &w = *new World(2);
    w.keep.push_back(sp);
    w.blame = "P14,P08";
    w.k_patient = true;
    w.max_fired = 60;
    w.fireable = [](int i) { return i == PERIOD || i == LIFE; };
    {
        s.t.reset(new Trio(w, topos[5], true, 0, r::supervisor_policy_t::shutdown_self));
        auto &t = *s.t;
        s.ee = r::make_error("custom", r::make_error_code(r::error_code_t::cancelled));
        auto *sup = t.sup[g.sup];
        auto *ps = t.ps[g.sup];
        auto factory = [&s, &w, ps](r::supervisor_t &sup, const address_ptr_t &addr) -> r::actor_ptr_t {
            auto &g = s.g;
            auto *msup = static_cast<msup_t *>(&sup);
            size_t k = s.gen.size();
            mc::obs("factory call %zu at %d", k, int(w.now));
            if (ps->n_shut_start)
                mc::fail("P14", "spawn-while-shutdown", "an actor is spawned after %s has started its shutdown", ps->name.c_str());
            if (g.max && int(k) >= g.max)
                mc::fail("P14", "too-many", "attempt %zu, but maximum is %d", k + 1, g.max);
            if (k) {
                auto &prev = s.gen.back();
                if (w.now - prev.at < PERIOD)
                    mc::fail("P14", "too-early", "the restart happens %d ms after the previous creation, the period is %d ms", int(w.now - prev.at), PERIOD);
                if (g.end[k - 1] == E_STAY || (prev.p && prev.down_at < 0))
                    mc::fail("P14", "two-at-once", "a second instance is spawned while the first one is alive");
                else if (!s.wants(k - 1))
                    mc::fail("P14", "unwanted-restart", "attempt %zu contradicts the policy (the previous end: %d)", k + 1, g.end[k - 1]);
            }
            if (s.gen.size() >= 4 || mc::failed())
                throw 1;
            s.gen.push_back({nullptr, w.now});
            int e = g.end[k];
            if (e == E_THROW)
                throw 1;
            auto &p = w.probe("X" + std::to_string(k));
            s.gen[k].p = &p;
            p.should_restart = [&s, k] { return s.answer(k); };
            p.conf = [&s, e](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
                    if (e == E_INIT_FAIL)
                        a.do_shutdown(s.ee);
                });
            };
            p.at_start = [&s, e](r::actor_base_t &a) {
                if (e == E_NORMAL)
                    a.do_shutdown();
                if (e == E_FAIL)
                    a.do_shutdown(s.ee);
                if (e == E_NORMAL_LATE || e == E_FAIL_LATE) {
                    if (s.g.kind)
                        static_cast<msup_t &>(a).timer(ms(LIFE));
                    else
                        static_cast<act_t &>(a).timer(ms(LIFE));
                }
            };
            p.timer = [&s, e](r::actor_base_t &a, request_id_t, bool cancelled) {
                if (!cancelled)
                    a.do_shutdown(e == E_FAIL_LATE ? s.ee : extended_error_ptr_t{});
            };
            p.at_shut_finish = [&s, &w, k](r::actor_base_t &a) {
                s.gen[k].down_at = w.now;
                auto &reason = a.get_shutdown_reason();
                s.gen[k].abnormal = reason && reason->root()->ec;
            };
            if (g.kind) {
                SupOpt so;
                p.loc = msup->loc;
                p.parent = msup->P;
                p.is_sup = true;
                return msup->create_actor<msup_plain_t>().init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).spawner_address(addr).probe(&p).finish();
            }
            ActOpt o;
            o.spawner = addr;
            return make_act(w, p, *msup, o);
        };
        auto spawn = [&s, sup, factory] {
            sup->spawn(factory)
                .restart_period(ms(PERIOD))
                .restart_policy(s.policy())
                .max_attempts(s.g.max)
                .escalate_failure(s.g.esc)
                .spawn();
        };
        if (g.phase == 1) {
            spawn();
            w.boot();
        } else {
            w.boot_quietly();
            w.op("spawn", [&w, &s, ps, sup, spawn] {
                if (ps->ptr && !ps->n_shut_start)
                    w.as(*sup->loc, spawn);
            });
        }
        if (g.victim)
            w.inj(g.victim == 1 ? "shutdown of the supervisor" : "shutdown of the root", w.loc(g.victim == 1 ? g.sup : 0),
                  [&s, &t] {
                      s.asked = true;
                      t.sup[s.g.victim == 1 ? s.g.sup : 0]->do_shutdown();
                  },
                  [&s, ps, &t] {
                      auto &v = s.g.victim == 1 ? *ps : *t.ps[0];
                      return v.n_init_start && v.ptr && !v.n_shut_start && (s.gen.size() || ps->n_start);
                  });
        w.run();
        if (!w.stop()) {
            bool sup_down = ps->n_shut_start;
            size_t n = s.gen.size();
            // the end of the last generation
            bool ended = n && (!s.gen[n - 1].p || s.gen[n - 1].down_at >= 0);
            if (!sup_down) {
                if (!n)
                    mc::fail("P14", "not-spawned", "the first instance is never spawned");
                else if (ended && g.end[n - 1] != E_STAY && s.wants(n - 1))
                    mc::fail("P14", "no-restart", "the policy asks for attempt %zu, but nothing is spawned", n + 1);
            }
            for (size_t k = 0; k + 1 < n; ++k) {
                auto d = s.gen[k].p ? s.gen[k].down_at : s.gen[k].at;
                if (s.gen[k + 1].at > d + PERIOD)
                    mc::fail("P14", "too-late", "attempt %zu happens %d ms after the end of the previous instance, the period is %d", k + 2,
                             int(s.gen[k + 1].at - d), PERIOD);
            }
            if (ended && !s.asked && g.phase == 0) {
                auto e = g.end[n - 1];
                bool fail = e == E_FAIL || e == E_FAIL_LATE || e == E_INIT_FAIL;
                bool final = !s.wants(n - 1);
                if (g.esc && fail && final) {
                    if (!ps->down() )
                        mc::fail("P14", "not-escalated", "final failure of the spawned actor is not escalated to %s", ps->name.c_str());
                    else if (!ps->reason || ps->reason->root() != s.ee)
                        mc::fail("P14,P09", "escalated-reason", "%s is shut down because of another reason (%s)", ps->name.c_str(), root_ec(ps->reason).c_str());
                } else if (sup_down && e != E_THROW)
                    mc::fail("P14", "unexpected-escalation", "%s is shut down, although there is nothing to escalate", ps->name.c_str());
            }
            if (!ended && !s.asked && sup_down && g.phase == 0)
                mc::fail("P14", "unexpected-shutdown", "%s is shut down without a cause", ps->name.c_str());
        }
        w.k_explore = false;
        s.over = true;
    }
    sp.reset();
    w.end();
}
std::string desc_spawn(int c, int depth) {
    SpCfg g(c, depth);
    static const char *pn[] = {"always", "never", "ask_actor", "normal_only", "fail_only"};
    static const char *en[] = {"stays", "exits", "fails", "exits later", "fails later", "factory throws", "fails to initialize"};
    static const char *an[] = {"yes", "no", "yes, no"}, *vn[] = {"", "; the supervisor is shut down", "; the root is shut down"};
    std::string r = std::string(g.kind ? "supervisor" : "actor") + " spawned by " + (g.sup ? "sup1" : "root") + (g.phase ? " before it is initialized" : "") +
                    ", policy " + pn[g.policy] + (r::restart_policy_t(g.policy) == r::restart_policy_t::ask_actor ? std::string(" (") + an[g.ask] + ")" : "") +
                    ", max attempts " + std::to_string(g.max) + (g.esc ? ", escalation" : "") + "; generations: ";
    for (int i = 0; i < depth; ++i) {
        r += std::string(i ? ", " : "") + en[g.end[i]];
        if (!g.end[i])
            break;
    }
    return r + vn[g.victim];
}
template <int D> mc::Scenario scenario(const char *name) {
    return {name, {"P14", "P08", "P17"}, [](mc::Tier t) { return D == 2 || t == mc::Tier::thorough ? int(slist(D).size()) : 0; },
            [](int c) { run_spawn(slist(D)[c], D); }, [](int c) { return desc_spawn(slist(D)[c], D); }, 1, D == 2 ? 2 : 1, 1, 0};
}
mc::Reg r1(scenario<2>("spawner.policy")), r2(scenario<3>("spawner.long"));
} // namespace
