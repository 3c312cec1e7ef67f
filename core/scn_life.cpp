// P06-P09: life cycle of trees: shapes x localities x policies x failures x injected shutdowns at every message
#include "world.hpp"
using namespace h;

namespace {
// custom error, to be found as the root of the reasons
const std::error_code BOOM = r::make_error_code(r::error_code_t::request_timeout);

struct Node {
    const char *name;
    int parent; // index or -1
    bool sup;
    int loc;
};
struct Shape {
    std::vector<Node> n;
};
const std::vector<Shape> shapes = {
    {{{"root", -1, true, 0}, {"A", 0, false, 0}}},
    {{{"root", -1, true, 0}, {"A", 0, false, 0}, {"B", 0, false, 0}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 0}, {"A", 1, false, 0}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 1}, {"A", 1, false, 1}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 1}, {"A", 1, false, 1}, {"B", 1, false, 1}, {"C", 0, false, 0}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 0}, {"T", 1, true, 1}, {"A", 2, false, 1}, {"C", 0, false, 0}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 1}, {"T", 1, true, 0}, {"A", 2, false, 0}, {"B", 1, false, 1}}},
    {{{"root", -1, true, 0}, {"S", 0, true, 1}, {"A", 1, false, 1}, {"T", 0, true, 2}, {"B", 3, false, 2}}},
};

enum Fail { NONE, INIT_TIMEOUT, SELF_INIT_START, SELF_INIT_FINISH, SELF_START_ERR, SELF_START_NORMAL, DELAYED, KILL_SUP, KILL_ROOT, INIT_ERR, N_FAIL };
const char *fail_names[] = {"nothing fails", "A never finishes its init", "A shuts down in init_start", "A shuts down in init_finish", "A shuts down in on_start (error)",
                            "A shuts down in on_start (normal)", "A's init is delayed by the environment", "A shuts its supervisor down in on_start",
                            "A shuts the root down in on_start", "A answers its init request with an error"};

struct Tree {
    World &w;
    const Shape &sh;
    std::vector<Probe *> p;
    std::vector<msup_t *> sup;
    std::vector<r::intrusive_ptr_t<act_t>> act;
    std::vector<r::extended_error_ptr_t> cause; // explicit cause of the shutdown of a node
    std::vector<int> n_cause;
    std::vector<bool> failing;
    r::supervisor_policy_t policy;
    bool sync;
    int a_idx = 0;
    bool esc, autosh;

    Tree(World &w_, const Shape &s, const SupOpt &o, const ActOpt &ao) : w{w_}, sh{s}, policy{o.policy}, sync{o.sync}, esc{ao.escalate}, autosh{ao.autoshutdown} {
        size_t n = s.n.size();
        p.resize(n), sup.resize(n), act.resize(n), cause.resize(n), n_cause.resize(n), failing.resize(n);
        for (size_t i = 0; i < n; ++i) {
            p[i] = &w.probe(s.n[i].name);
            if (!strcmp(s.n[i].name, "A"))
                a_idx = i;
        }
    }
    void hooks() {
        for (size_t i = 0; i < p.size(); ++i) {
            auto prev_if = p[i]->at_init_finish;
            auto prev_st = p[i]->at_start;
            if (sh.n[i].sup)
                p[i]->at_init_finish = [this, i, prev_if](r::actor_base_t &a) {
                    for (size_t j = 0; j < p.size(); ++j)
                        if (sh.n[j].parent == int(i) && p[j]->created && !p[j]->n_init_finish && !p[j]->n_shut_start)
                            mc::fail("P07", "init-without-child", "%s finished its initialization before its child %s did", p[i]->name.c_str(), p[j]->name.c_str());
                    if (prev_if)
                        prev_if(a);
                };
            if (sync && sh.n[i].parent >= 0)
                p[i]->at_start = [this, i, prev_st](r::actor_base_t &a) {
                    auto *pp = p[sh.n[i].parent];
                    if (!pp->n_start)
                        mc::fail("P07", "sync-start", "%s is started before its supervisor %s (synchronized start)", p[i]->name.c_str(), pp->name.c_str());
                    for (size_t j = 0; j < p.size(); ++j)
                        if (sh.n[j].parent == sh.n[i].parent && p[j]->created && p[j]->seq_created < pp->seq_init_finish && !p[j]->n_init_finish && !p[j]->n_shut_start)
                            mc::fail("P07", "sync-start", "%s is started before %s is initialized (synchronized start)", p[i]->name.c_str(), p[j]->name.c_str());
                    if (prev_st)
                        prev_st(a);
                };
        }
    }
    void make(size_t i, const SupOpt &o, const ActOpt &ao) {
        auto &n = sh.n[i];
        if (n.parent < 0)
            sup[i] = make_root(w, *p[i], n.loc, o);
        else if (n.sup)
            sup[i] = make_sup(w, *p[i], n.loc, *sup[n.parent], o);
        else
            act[i] = make_act(w, *p[i], *sup[n.parent], int(i) == a_idx ? ao : ActOpt{});
    }
    bool abnormal(size_t i) { return p[i]->reason && p[i]->reason->root()->ec; }
    r::extended_error_t *root_of(size_t i) { return p[i]->reason ? p[i]->reason->root().get() : nullptr; }
    // explicit shutdown by whoever; must be called in the loop of the node
    void kill(size_t i, int how) {
        if (!p[i]->ptr || p[i]->n_shut_start)
            return;
        r::extended_error_ptr_t ee;
        if (how)
            ee = r::make_error("test", how == 2 ? r::make_error_code(r::error_code_t::unknown_service) : BOOM);
        ++n_cause[i];
        if (n_cause[i] == 1)
            cause[i] = ee;
        p[i]->ptr->do_shutdown(ee);
    }
    // the outcome at quiescence, before the final shutdown
    void check() {
        if (w.stop())
            return;
        for (size_t i = 0; i < p.size(); ++i) {
            auto &P = *p[i];
            int par = sh.n[i].parent;
            if (!P.down()) {
                if (!P.n_start) {
                    mc::fail(P.n_shut_start ? "P08" : "P07", P.n_shut_start ? "stuck-shutdown" : "not-operational", "%s is neither operational nor shut down (init_finish %d, shutdown_start %d)", P.name.c_str(), P.n_init_finish,
                             P.n_shut_start);
                    return;
                }
                if (n_cause[i])
                    mc::fail("P08", "ignored-shutdown", "%s does not shut down, although it was asked to", P.name.c_str());
                if (failing[i])
                    mc::fail("P09", "failed-child-runs", "%s did not finish its initialization in time, but it is running", P.name.c_str());
                if (par >= 0 && p[par]->down())
                    mc::fail("P08", "child-outlives", "%s is still running, its supervisor is shut down", P.name.c_str());
            }
            // obligations of the supervisor i
            bool may = n_cause[i] > 0 || failing[i] || (par >= 0 && p[par]->n_shut_start && (!P.n_shut_start || p[par]->seq_shut_start < P.seq_shut_start));
            std::vector<r::extended_error_t *> roots;
            if (n_cause[i] && cause[i])
                roots.push_back(cause[i]->root().get());
            if (par >= 0 && p[par]->down())
                roots.push_back(root_of(par));
            for (size_t j = 0; j < p.size(); ++j) {
                if (sh.n[j].parent != int(i) || !p[j]->down())
                    continue;
                auto &C = *p[j];
                bool flagged = int(j) == a_idx;
                bool before = !P.n_init_finish || P.seq_init_finish > C.seq_shut_finish; // the supervisor was initializing
                if (flagged && autosh) {
                    may = true;
                    roots.push_back(root_of(j));
                    if (!P.down())
                        mc::fail("P09", "no-autoshutdown", "%s is configured to shut its supervisor %s down, which is still running", C.name.c_str(), P.name.c_str());
                }
                if (flagged && esc && abnormal(j)) {
                    may = true;
                    roots.push_back(root_of(j));
                    if (!P.down())
                        mc::fail("P09", "no-escalation", "%s failed and is configured to escalate, but its supervisor %s is still running", C.name.c_str(), P.name.c_str());
                }
                if (!C.n_init_finish && before) {
                    may = true;
                    if (policy == r::supervisor_policy_t::shutdown_self && !P.down())
                        mc::fail("P09", "init-failure-ignored", "%s failed to initialize, its supervisor %s is initializing with the default policy, but continues",
                                 C.name.c_str(), P.name.c_str());
                }
                if (!C.n_start && (!P.n_init_finish || P.seq_init_finish > C.seq_shut_start))
                    may = true;
            }
            if (P.down() && !may)
                mc::fail(P.n_start ? "P08,P09" : "P07,P08,P09", "unexpected-shutdown", "%s is shut down without a cause", P.name.c_str());
            if (P.down() && !P.reason)
                mc::fail("P09", "no-reason", "%s is shut down without any reason", P.name.c_str());
            // plain case: the actor goes down only because its supervisor does, or on explicit request
            if (P.down() && P.reason && P.n_start && !roots.empty() && !(n_cause[i] && !cause[i])) {
                bool ok = false;
                for (auto x : roots)
                    ok |= x == root_of(i);
                if (!ok)
                    mc::fail("P09", "wrong-reason", "the shutdown reason of %s (%s) does not lead to the original cause", P.name.c_str(), P.reason->message().c_str());
            }
        }
    }
};

struct LifeCfg {
    int shape, sync, policy, fail, flags, target, how, plain;
    explicit LifeCfg(int c) {
        Cfg g(c);
        shape = g(int(shapes.size()));
        sync = g(2);
        policy = g(2);
        fail = g(N_FAIL);
        flags = g(3);
        target = g(4);
        how = g(2);
        plain = 1;
    }
    static int count() { return int(shapes.size()) * 2 * 2 * N_FAIL * 3 * 4 * 2; }
    // skips combinations which repeat others
    bool skip() const {
        auto &s = shapes[shape].n;
        if (target == 0 && how)
            return true;
        if (target == 3 && s.size() < 4)
            return true;
        return false;
    }
};
const std::vector<int> &life_list() {
    static std::vector<int> v = [] {
        std::vector<int> r;
        for (int c = 0; c < LifeCfg::count(); ++c)
            if (!LifeCfg(c).skip())
                r.push_back(c);
        return r;
    }();
    return v;
}

void run_life(int c, bool two) {
    LifeCfg g(c);
    auto &s = shapes[g.shape];
    int nl = 0;
    for (auto &n : s.n)
        nl = std::max(nl, n.loc + 1);
    auto &w = *new World(nl);
    w.blame = "P08";
    w.k_preempt = true;
    {
        SupOpt o;
        o.policy = g.policy ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        o.sync = g.sync;
        ActOpt ao;
        ao.escalate = g.flags == 1;
        ao.autoshutdown = g.flags == 2;
        auto tp = std::make_shared<Tree>(w, s, o, ao);
        auto &t = *tp;
        w.keep.push_back(tp);
        int a = t.a_idx;
        auto &pa = *t.p[a];
        int par = s.n[a].parent;
        switch (g.fail) {
        case INIT_TIMEOUT:
            ao.init_timeout = 5000;
            t.failing[a] = true;
            [[fallthrough]];
        case DELAYED: {
            pa.conf = [](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::resources_plugin_t>([&](auto &r) { r.acquire(0); });
            };
            pa.at_shut_start = [](r::actor_base_t &x) {
                auto &A = static_cast<act_t &>(x);
                if (A.resources->has(0))
                    A.resources->release(0);
            };
            break;
        }
        case SELF_INIT_START:
            pa.at_init_start = [&t, a](auto &) { t.kill(a, 1); };
            break;
        case SELF_INIT_FINISH:
            pa.at_init_finish = [&t, a](auto &) { t.kill(a, 1); };
            break;
        case SELF_START_ERR:
            pa.at_start = [&t, a](auto &) { t.kill(a, 1); };
            break;
        case SELF_START_NORMAL:
            pa.at_start = [&t, a](auto &) { t.kill(a, 0); };
            break;
        case KILL_SUP:
            pa.at_start = [&t, par](auto &) { t.kill(par, 1); };
            break;
        case KILL_ROOT:
            if (s.n[a].loc == 0 && s.n[par].loc == 0 && (s.n[par].parent < 0 || s.n[s.n[par].parent].loc == 0))
                pa.at_start = [&t](auto &) { t.kill(0, 1); };
            else
                pa.at_start = [&t](auto &) {
                    ++t.n_cause[0];
                    t.sup[0]->shutdown();
                };
            break;
        case INIT_ERR:
            t.failing[a] = true;
            pa.at_init_start = [](r::actor_base_t &x) {
                auto &A = static_cast<act_t &>(x);
                (void)A;
            };
            pa.conf = [](r::actor_base_t &x, r::plugin::plugin_base_t &p) { // links to an actor which never exists
                p.with_casted<r::plugin::link_client_plugin_t>([&](auto &l) { l.link(static_cast<act_t &>(x).supervisor->make_address(), false); });
            };
            ao.init_timeout = 5000;
            break;
        }
        t.hooks();
        for (size_t i = 0; i < s.n.size(); ++i)
            t.make(i, o, ao);
        if (g.fail == DELAYED)
            w.inj("release A's resource", w.loc(s.n[a].loc),
                  [&t, a] {
                      auto &A = *t.act[a];
                      if (A.resources->has(0))
                          A.resources->release(0);
                  },
                  [&t, a] { return t.p[a]->n_init_start && !t.p[a]->n_shut_start && t.act[a]->resources->has(0); }, true);
        // target of the injected shutdown: 1 root (API), 2 A's supervisor or A, 3 another node
        auto add = [&](int target, int how) {
            if (target == 1) {
                if (how == 0)
                    w.inj("root->shutdown()", w.loc(nl - 1), [&t] {
                        if (!t.p[0]->n_shut_start) {
                            ++t.n_cause[0];
                            t.sup[0]->shutdown();
                        }
                    });
                else
                    w.inj("root.do_shutdown(error)", w.loc(0), [&t] { t.kill(0, 1); });
            } else if (target == 2)
                w.inj("A.do_shutdown", w.loc(s.n[a].loc), [&t, a, how] { t.kill(a, how); }, [&t, a] { return t.p[a]->ptr && t.p[a]->n_init_start; });
            else if (target == 3) {
                int x = 1; // S
                w.inj("S.do_shutdown", w.loc(s.n[x].loc), [&t, x, how] { t.kill(x, how); });
            }
        };
        if (g.target)
            add(g.target, g.how);
        if (two)
            add(1 + g.target % 3 == 3 && s.n.size() < 4 ? 1 : 1 + g.target % 3, g.how);
        w.boot();
        w.run();
        t.check();
        for (auto &x : t.act)
            x.reset();
    }
    w.end();
}
std::string desc_life(int c) {
    LifeCfg g(c);
    auto &s = shapes[g.shape];
    std::string t;
    for (auto &n : s.n)
        t += std::string(n.name) + "@" + std::to_string(n.loc) + (n.parent >= 0 ? std::string("<") + s.n[n.parent].name : "") + " ";
    static const char *tg[] = {"no shutdown injected", "root is shut down", "A is shut down", "S is shut down"};
    return "tree " + t + (g.sync ? "sync " : "") + (g.policy ? "policy=shutdown_failed " : "") + fail_names[g.fail] +
           (g.flags == 1 ? ", A escalates" : g.flags == 2 ? ", A autoshutdown" : "") + ", " + tg[g.target] + (g.how ? " with error" : "");
}
mc::Reg r1({"life.tree", {"P06", "P07", "P08", "P09", "P24", "P17"}, [](mc::Tier) { return int(life_list().size()); }, [](int c) { run_life(life_list()[c], false); },
            [](int c) { return desc_life(life_list()[c]); }, 1, 2, 1, 0});

// children which are created at any moment of the life of the tree, directly or by a spawner
struct DynShape {
    Shape s;
    int first, owner; // nodes from first on are created by the supervisor 'owner'
};
const std::vector<DynShape> dshapes = {
    {{{{"root", -1, true, 0}, {"A", 0, false, 0}, {"N", 0, false, 0}}}, 2, 0},
    {{{{"root", -1, true, 0}, {"A", 0, false, 0}, {"N", 0, true, 0}, {"M", 2, false, 0}}}, 2, 0},
    {{{{"root", -1, true, 0}, {"A", 0, false, 0}, {"N", 0, true, 1}, {"M", 2, false, 1}}}, 2, 0},
    {{{{"root", -1, true, 0}, {"S", 0, true, 1}, {"A", 1, false, 1}, {"N", 1, false, 1}}}, 3, 1},
    {{{{"root", -1, true, 0}, {"S", 0, true, 0}, {"A", 1, false, 0}, {"N", 1, true, 0}, {"M", 3, false, 0}}}, 3, 1},
    {{{{"root", -1, true, 0}, {"S", 0, true, 1}, {"A", 1, false, 1}, {"N", 1, true, 1}, {"M", 3, false, 1}}}, 3, 1},
};
enum { DYN_NOW, DYN_SPAWN, DYN_IN_START, DYN_N };
enum { NEW_OK, NEW_DELAYED, NEW_HANGS, NEW_FAILS, NEW_N };
// shape, synchronized start of the owner, policy, how it is created, how it behaves, A/its supervisor delayed, shutdown of (nobody, root, owner, N)
int dyn_count() { return int(dshapes.size()) * 2 * 2 * DYN_N * NEW_N * 3 * 4; }
auto *resources_of(Probe &p) { return p.is_sup ? static_cast<msup_t *>(p.ptr)->resources : static_cast<act_t *>(p.ptr)->resources; }
void run_dyn(int c) {
    Cfg g(c);
    auto &ds = dshapes[g(int(dshapes.size()))];
    bool sync = g(2);
    auto policy = g(2) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
    int how = g(DYN_N), beh = g(NEW_N);
    int delay = g(3);
    int victim = g(4);
    auto &s = ds.s;
    int nl = 1;
    for (auto &n : s.n)
        nl = std::max(nl, n.loc + 1);
    auto &w = *new World(nl);
    w.blame = "P08";
    {
        SupOpt o;
        o.policy = policy;
        o.sync = sync;
        auto tp = std::make_shared<Tree>(w, s, o, ActOpt{});
        auto &t = *tp;
        w.keep.push_back(tp);
        int a = t.a_idx, n = ds.first, own = ds.owner;
        auto &pa = *t.p[a], &pn = *t.p[n], &po = *t.p[own];
        auto hold = [](Probe &p) {
            p.conf = [](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::resources_plugin_t>([&](auto &r) { r.acquire(0); });
            };
            p.at_shut_start = [&p](r::actor_base_t &) {
                auto res = resources_of(p);
                if (res->has(0))
                    res->release(0);
            };
        };
        int last = int(s.n.size()) - 1; // the leaf among the new ones
        if (delay)
            hold(delay == 1 ? pa : po);
        if (beh == NEW_DELAYED || beh == NEW_HANGS)
            hold(*t.p[last]);
        if (beh == NEW_HANGS)
            t.failing[last] = true;
        if (beh == NEW_FAILS)
            t.p[last]->at_init_start = [&t, last](auto &) { t.kill(last, 1); };
        auto release = [&](int i) {
            w.inj("release the resource of " + t.p[i]->name, w.loc(s.n[i].loc),
                  [&t, i] {
                      auto res = resources_of(*t.p[i]);
                      if (res->has(0))
                          res->release(0);
                  },
                  [&t, i] { return t.p[i]->ptr && t.p[i]->n_init_start && !t.p[i]->n_shut_start && resources_of(*t.p[i])->has(0); }, true);
        };
        t.hooks();
        for (int i = 0; i < n; ++i)
            t.make(i, o, ActOpt{});
        SupOpt no;
        no.policy = policy;
        no.sync = sync;
        auto make = [&t, n, last, no] {
            t.make(n, no, ActOpt{});
            if (last != n)
                t.make(last, no, ActOpt{});
        };
        auto make_spawned = [&t, &w, n, last, no](r::supervisor_t &sup, const r::address_ptr_t &addr) -> r::actor_ptr_t {
            auto &own = static_cast<msup_t &>(sup);
            auto &p = *t.p[n];
            if (last == n) {
                ActOpt ao;
                ao.spawner = addr;
                return t.act[n] = make_act(w, p, own, ao);
            }
            p.loc = &w.loc(t.sh.n[n].loc);
            p.parent = own.P;
            p.is_sup = true;
            auto x = own.create_actor<msup_plain_t>().init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).policy(no.policy).synchronize_start(no.sync).spawner_address(addr).probe(&p).finish();
            w.sups.push_back(x);
            t.sup[n] = x.get();
            t.make(last, no, ActOpt{});
            return x;
        };
        bool spawned_late = false;
        auto create = [&, make, make_spawned] {
            if (how == DYN_SPAWN) {
                if (po.n_init_finish)
                    spawned_late = true;
                t.sup[own]->spawn(make_spawned).restart_policy(r::restart_policy_t::never).spawn();
            } else
                make();
        };
        if (how == DYN_IN_START)
            po.at_start = [create, prev = po.at_start](r::actor_base_t &a) {
                if (prev)
                    prev(a);
                create();
            };
        else
            w.inj("create N", w.loc(s.n[own].loc), create, [&po, &pn] { return po.ptr && po.n_init_start && !po.n_shut_start && !pn.created; }, true);
        if (delay)
            release(delay == 1 ? a : own);
        if (beh == NEW_DELAYED)
            release(last);
        if (victim == 1)
            w.inj("root->shutdown()", w.loc(nl - 1), [&t] {
                if (!t.p[0]->n_shut_start) {
                    ++t.n_cause[0];
                    t.sup[0]->shutdown();
                }
            });
        if (victim == 2)
            w.inj("the owner goes down", w.loc(s.n[own].loc), [&t, own] { t.kill(own, 1); }, [&po] { return po.n_init_start > 0; });
        if (victim == 3)
            w.inj("N goes down", w.loc(s.n[n].loc), [&t, n] { t.kill(n, 1); }, [&pn] { return pn.ptr && pn.n_init_start; });
        w.boot();
        w.run();
        if (!w.stop() && !pn.created && !po.n_shut_start)
            mc::fail("P14,P07", "not-created", "%s is not created", pn.name.c_str());
        if (pn.created)
            t.check();
        for (auto &x : t.act)
            x.reset();
    }
    w.end();
}
std::string desc_dyn(int c) {
    Cfg g(c);
    auto &s = dshapes[g(int(dshapes.size()))].s;
    int sy = g(2), po = g(2), h = g(DYN_N), b = g(NEW_N), ad = g(3), v = g(4);
    std::string t;
    for (auto &n : s.n)
        t += std::string(n.name) + "@" + std::to_string(n.loc) + (n.parent >= 0 ? std::string("<") + s.n[n.parent].name : "") + " ";
    static const char *hn[] = {"N is created at any moment", "N is spawned", "N is created in on_start of its supervisor"}, *bn[] = {"", ", slowly initialized", ", never initialized", ", fails in init_start"},
                      *vn[] = {"", "; root is shut down", "; its supervisor is shut down", "; N is shut down"};
    return "tree " + t + (sy ? "sync " : "") + (po ? "policy=shutdown_failed " : "") + hn[h] + bn[b] + (ad == 1 ? ", A is slow" : ad ? ", its supervisor is slow" : "") + vn[v];
}
mc::Reg r2({"life.dynamic", {"P06", "P07", "P08", "P09", "P17"}, [](mc::Tier) { return dyn_count(); }, run_dyn, desc_dyn, 1, 2, 1, 0});
} // namespace
