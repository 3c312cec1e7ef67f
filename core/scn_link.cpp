// P10: links: chains of clients and servers over localities, any shutdown at any message
#include "world.hpp"
using namespace h;

namespace {
// kind of topology: who links to whom (indices into the actors 0..2)
struct LinkTopo {
    const char *name;
    int n;
    std::vector<std::pair<int, int>> links; // client -> server
};
const std::vector<LinkTopo> ltopos = {
    {"C->S", 2, {{0, 1}}},
    {"C->M->S", 3, {{0, 1}, {1, 2}}},
    {"C->S, D->S", 3, {{0, 2}, {1, 2}}},
    {"C->S, C->T", 3, {{0, 1}, {0, 2}}},
};
struct LCfg {
    int topo, locs, op, keep, delay, target, order, how;
    explicit LCfg(int c) {
        Cfg g(c);
        topo = g(int(ltopos.size()));
        locs = g(4);   // 0: all @0; 1: clients @0, servers @1; 2: clients @1, servers @0; 3: each other own loop
        op = g(2);     // operational only
        keep = g(2);   // the client overrides on_unlink and stays
        delay = g(3);  // 0 none; 1 the server's init is delayed; 2 the server never initializes (time out)
        target = g(5); // 0 none, 1..3 actor, 4 supervisor of the servers
        order = g(2);  // creation order: clients first?
    }
    static int count() { return int(ltopos.size()) * 4 * 2 * 2 * 3 * 5 * 2; }
    bool skip() const {
        auto &t = ltopos[topo];
        return (target && target < 4 && target > t.n) || (delay && keep);
    }
};
const std::vector<int> &llist() {
    static std::vector<int> v = [] {
        std::vector<int> r;
        for (int c = 0; c < LCfg::count(); ++c)
            if (!LCfg(c).skip())
                r.push_back(c);
        return r;
    }();
    return v;
}
const char *an[] = {"X0", "X1", "X2"};

struct St {
    LinkTopo t;
    Probe *root, *sups[3] = {};
    msup_t *sup[3] = {};
    Probe *p[3] = {};
    r::intrusive_ptr_t<act_t> a[3];
    int loc[3];
    struct L {
        int cb = 0, cb_ok = 0, unlinks = 0;
        int64_t seq_ok = 0, seq_unlink = 0;
    };
    std::map<std::pair<int, int>, L> links;
    address_ptr_t addr[3];
    bool asked[3] = {};
};

void run_link(int c) {
    LCfg g(c);
    auto sp = std::make_shared<St>();
    auto &s = *sp;
    s.t = ltopos[g.topo];
    auto &T = s.t;
    auto is_server = [&](int i) {
        for (auto &l : T.links)
            if (l.second == i)
                return true;
        return false;
    };
    auto is_client = [&](int i) {
        for (auto &l : T.links)
            if (l.first == i)
                return true;
        return false;
    };
    int last_server = T.links.back().second;
    for (int i = 0; i < T.n; ++i) {
        bool srv = is_server(i);
        s.loc[i] = g.locs == 0 ? 0 : g.locs == 1 ? srv : g.locs == 2 ? !srv : std::min(i, 2);
    }
    int nl = 1;
    for (int i = 0; i < T.n; ++i)
        nl = std::max(nl, s.loc[i] + 1);
    auto &w = *new World(nl);
    w.keep.push_back(sp);
    w.blame = "P08,P10";
    w.k_preempt = true;
    {
        static const char *sn[] = {"root", "sup1", "sup2"};
        SupOpt o;
        o.policy = r::supervisor_policy_t::shutdown_failed;
        for (int i = 0; i < nl; ++i) {
            s.sups[i] = &w.probe(sn[i]);
            s.sup[i] = i ? make_sup(w, *s.sups[i], i, *s.sup[0], o) : make_root(w, *s.sups[i], 0, o);
        }
        for (int i = 0; i < T.n; ++i)
            s.p[i] = &w.probe(an[i]);
        bool op = g.op;
        for (int i = 0; i < T.n; ++i) {
            auto &P = *s.p[i];
            std::vector<int> servers;
            for (auto &l : T.links)
                if (l.first == i) {
                    servers.push_back(l.second);
                    s.links[l];
                }
            bool delayed = i == last_server && g.delay;
            P.conf = [&s, &w, i, servers, op, delayed](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::link_client_plugin_t>([&](auto &lc) {
                    for (int srv : servers)
                        lc.link(s.addr[srv], op, [&s, &w, i, srv](auto &ee) {
                            auto &l = s.links[{i, srv}];
                            ++l.cb;
                            mc::obs("link %d->%d %s", i, srv, ee ? "failed" : "ok");
                            if (l.cb > 1)
                                mc::fail("P10", "link-callback-twice", "link callback of %s is called %d times", an[i], l.cb);
                            if (!ee) {
                                ++l.cb_ok;
                                l.seq_ok = ++w.seq;
                                if (s.p[srv]->n_shut_finish)
                                    mc::fail("P10", "linked-to-dead", "%s is linked to %s, which is already shut down", an[i], an[srv]);
                            }
                        });
                });
                if (delayed)
                    p.with_casted<r::plugin::resources_plugin_t>([&](auto &r) { r.acquire(0); });
            };
            if (delayed)
                P.at_shut_start = [](r::actor_base_t &x) {
                    auto &A = static_cast<act_t &>(x);
                    if (A.resources->has(0))
                        A.resources->release(0);
                };
            P.at_init_finish = [&s, i, servers, op](r::actor_base_t &) {
                for (int srv : servers) {
                    auto &l = s.links[{i, srv}];
                    if (!l.cb_ok)
                        mc::fail("P10", "init-without-link", "%s is initialized before it is linked to %s", an[i], an[srv]);
                    if (op && !s.p[srv]->n_start)
                        mc::fail("P10", "not-operational", "%s is linked to %s (operational only), which is not started", an[i], an[srv]);
                }
            };
            bool keep = g.keep;
            if (is_client(i))
                P.on_unlink = [&s, &w, i, servers, keep](r::actor_base_t &, const address_ptr_t &addr) {
                    for (int srv : servers)
                        if (s.addr[srv] == addr) {
                            auto &l = s.links[{i, srv}];
                            ++l.unlinks;
                            l.seq_unlink = ++w.seq;
                            mc::obs("unlink %d->%d", i, srv);
                            if (l.unlinks > 1)
                                mc::fail("P10", "unlink-twice", "%s is asked to unlink from %s %d times", an[i], an[srv], l.unlinks);
                            if (!l.cb_ok)
                                mc::fail("P10", "unlink-unlinked", "%s is asked to unlink from %s, but was never linked", an[i], an[srv]);
                            if (!s.p[srv]->n_shut_start)
                                mc::fail("P10", "unlink-alive", "%s is asked to unlink from %s, which is not going down", an[i], an[srv]);
                            return !keep;
                        }
                    mc::fail("P10", "unlink-alien", "%s is asked to unlink from an unknown server", an[i]);
                    return true;
                };
            if (is_server(i))
                P.before_shut_finish = [&s, i](r::actor_base_t &) {
                    for (auto &kv : s.links) {
                        if (kv.first.second != i)
                            continue;
                        auto &C = *s.p[kv.first.first];
                        if (kv.second.cb_ok && !kv.second.unlinks && !C.n_shut_start)
                            mc::fail("P10", "server-outlived", "%s finished its shutdown while %s is still linked to it", an[i], C.name.c_str());
                    }
                };
        }
        // the addresses have to be known before: servers first, or (order 1) the clients are created last to first
        std::vector<int> order;
        for (int i = T.n - 1; i >= 0; --i)
            order.push_back(i);
        for (int i : order) {
            ActOpt ao;
            if (i == last_server && g.delay == 2)
                ao.init_timeout = 5000;
            s.a[i] = make_act(w, *s.p[i], *s.sup[s.loc[i]], ao);
            s.addr[i] = s.a[i]->get_address();
        }
        if (g.order) { // the loops of the clients come first
            for (int i = 0; i < T.n; ++i)
                if (!is_server(i)) {
                    w.loc(s.loc[i]).kick = true;
                    w.last = &w.loc(s.loc[i]);
                    break;
                }
        }
        if (g.delay == 1)
            w.inj("release the server", w.loc(s.loc[last_server]), [&s, last_server] { static_cast<act_t *>(s.p[last_server]->ptr)->resources->release(0); },
                  [&s, last_server] {
                      auto &P = *s.p[last_server];
                      return P.n_init_start && !P.n_shut_start && P.ptr && static_cast<act_t *>(P.ptr)->resources->has(0);
                  },
                  true);
        if (g.target && g.target < 4) {
            int x = g.target - 1;
            w.inj(std::string(an[x]) + ".do_shutdown", w.loc(s.loc[x]), [&s, x] {
                if (s.p[x]->ptr && !s.p[x]->n_shut_start) {
                    s.asked[x] = true;
                    s.p[x]->ptr->do_shutdown();
                }
            });
        } else if (g.target == 4) {
            int l = s.loc[last_server];
            w.inj("supervisor of the server: do_shutdown", w.loc(l), [&s, l] {
                if (s.sups[l]->ptr && !s.sups[l]->n_shut_start)
                    s.sups[l]->ptr->do_shutdown();
            });
        }
        w.boot();
        w.run();
        if (!w.stop()) {
            for (int i = 0; i < T.n; ++i) {
                auto &P = *s.p[i];
                bool gone = P.down();
                if (!gone && !P.n_start)
                    mc::fail("P10", "stuck", "%s is neither operational nor shut down (init_finish %d shutdown_start %d)", an[i], P.n_init_finish, P.n_shut_start);
                bool cause = s.asked[i] || P.parent->n_shut_start || (i == last_server && g.delay == 2);
                // during the initialization of the supervisor the failure of a child is handled by its policy
                bool cause_weak = false;
                for (auto &kv : s.links) {
                    if (kv.first.first != i)
                        continue;
                    int srv = kv.first.second;
                    auto &S = *s.p[srv];
                    auto &l = kv.second;
                    if (S.down()) {
                        if (!(g.keep && l.cb_ok) || !P.n_start)
                            cause = true;
                        if (!gone && (!g.keep || !l.cb_ok))
                            mc::fail("P10", "client-stays", "%s keeps running, although its server %s is shut down", an[i], an[srv]);
                        if (!gone && l.cb_ok && l.unlinks != 1)
                            mc::fail("P10", "no-unlink", "%s was asked to unlink from %s %d times", an[i], an[srv], l.unlinks);
                    } else if (P.n_start && !l.cb_ok)
                        mc::fail("P10", "no-link", "%s runs without the link to %s", an[i], an[srv]);
                }
                (void)cause_weak;
                if (gone && !cause)
                    mc::fail("P10", "unexpected-shutdown", "%s is shut down without a cause", an[i]);
            }
        }
        for (auto &x : s.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_link(int c) {
    LCfg g(c);
    static const char *lo[] = {"one loop", "clients@0 servers@1", "clients@1 servers@0", "each in its own loop"};
    std::string r = ltopos[g.topo].name;
    r += std::string(" (X0,X1,X2), ") + lo[g.locs] + (g.op ? ", operational only" : "") + (g.keep ? ", clients survive unlink" : "") +
         (g.delay == 1 ? ", slow server init" : g.delay == 2 ? ", server init times out" : "") + ", shutdown of " +
         (g.target == 0 ? "nobody" : g.target == 4 ? "the server's supervisor" : an[g.target - 1]) + " injected" + (g.order ? ", client loop first" : "");
    return r;
}
mc::Reg r1({"link.graph", {"P10", "P08", "P17", "P24", "P06"}, [](mc::Tier) { return int(llist().size()); }, [](int c) { run_link(llist()[c]); },
            [](int c) { return desc_link(llist()[c]); }, 1, 2, 1, 0});

// two clients of one server, which answer to unlink requests at once, later, or refuse to go down; anybody goes down at any moment
struct UCfg {
    int kind[2], server, mask, op;
    explicit UCfg(int c) {
        Cfg g(c);
        kind[0] = g(3); // 0 default, 1 answers later, 2 on_unlink returns false (keeps running)
        kind[1] = g(3);
        server = g(5); // 0 actor, 1 actor in another loop, 2 supervisor with own loop, 3 supervisor of the same loop, 4 root
        mask = 1 + g(7); // who is asked to go down: 1 client 0, 2 client 1, 4 the server
        op = g(2) && server != 4; // a child cannot wait for the start of its own supervisor, which waits for the child
    }
    static int count() { return 3 * 3 * 5 * 7 * 2; }
};
struct USt {
    Probe *root, *ps, *p[3] = {}; // 2 is the server
    msup_t *sup[2] = {};
    r::intrusive_ptr_t<act_t> a[3];
    address_ptr_t addr;
    r::intrusive_ptr_t<r::message::unlink_request_t> asked[2];
    int n_cb[2] = {}, n_ok[2] = {}, n_ask[2] = {}, n_unlink[2] = {};
    bool told[3] = {}, answered[2] = {};
};
void run_unlink(int c, bool linked) {
    UCfg g(c);
    auto sp = std::make_shared<USt>();
    auto &s = *sp;
    bool far = g.server == 1 || g.server == 2, is_sup = g.server >= 2, is_root = g.server == 4;
    auto &w = *new World(far ? 2 : 1);
    w.keep.push_back(sp);
    w.blame = "P08,P10";
    w.k_preempt = true;
    {
        SupOpt o;
        s.root = &w.probe("root");
        s.sup[0] = make_root(w, *s.root, 0, o);
        s.p[0] = &w.probe("C0");
        s.p[1] = &w.probe("C1");
        s.p[2] = is_root ? s.root : &w.probe("S");
        s.p[2]->before_shut_finish = [&s](r::actor_base_t &) {
            for (int i = 0; i < 2; ++i)
                if (s.n_ok[i] && !s.answered[i] && !s.p[i]->n_shut_start)
                    mc::fail("P10", "server-outlived", "the server finished its shutdown while %s is still linked to it", s.p[i]->name.c_str());
        };
        if (is_root) {
            s.addr = s.sup[0]->get_address();
        } else if (is_sup) {
            s.sup[1] = make_sup(w, *s.p[2], far ? 1 : 0, *s.sup[0], o);
            s.addr = s.sup[1]->get_address();
        } else {
            if (far)
                s.sup[1] = make_sup(w, w.probe("sup1"), 1, *s.sup[0], o);
            s.a[2] = make_act(w, *s.p[2], *s.sup[far]);
            s.addr = s.a[2]->get_address();
        }
        for (int i = 0; i < 2; ++i) {
            auto &P = *s.p[i];
            int kind = g.kind[i];
            bool op = g.op;
            P.conf = [&s, i, kind, op](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::link_client_plugin_t>([&](auto &lc) {
                    lc.link(s.addr, op, [&s, i](auto &ee) {
                        ++s.n_cb[i];
                        s.n_ok[i] += !ee;
                        if (s.n_cb[i] > 1)
                            mc::fail("P10", "link-callback-twice", "link callback of C%d is called %d times", i, s.n_cb[i]);
                    });
                    lc.on_unlink([&s, i, kind](r::message::unlink_request_t &m) {
                        mc::obs("C%d is asked to unlink", i);
                        if (++s.n_ask[i] > 1)
                            mc::fail("P10", "unlink-twice", "C%d is asked to unlink %d times", i, s.n_ask[i]);
                        if (!s.n_ok[i] && !s.p[i]->n_shut_start) // accepted by the server, but discarded by the client, which goes down
                            mc::fail("P10", "unlink-unlinked", "C%d is asked to unlink, but was never linked", i);
                        if (!s.p[2]->n_shut_start)
                            mc::fail("P10", "unlink-alive", "C%d is asked to unlink from the server, which is not going down", i);
                        if (kind == 1) {
                            s.asked[i].reset(&m);
                            return true;
                        }
                        s.answered[i] = true;
                        return false;
                    });
                });
            };
            P.on_unlink = [&s, i, kind](r::actor_base_t &, const address_ptr_t &addr) {
                mc::obs("on_unlink of C%d", i);
                if (addr != s.addr)
                    mc::fail("P10", "unlink-alien", "C%d is asked to unlink from an unknown server", i);
                if (++s.n_unlink[i] > 1 || !s.answered[i])
                    mc::fail("P10", "unlink-twice", "on_unlink of C%d is called %d times%s", i, s.n_unlink[i], s.answered[i] ? "" : ", though the link is still in use");
                return kind != 2;
            };
            s.a[i] = make_act(w, P, *s.sup[0]);
            if (kind == 1)
                w.inj(P.name + " forgets the link", w.loc(0), [&s, i] {
                    auto &A = static_cast<act_t &>(*s.p[i]->ptr);
                    s.answered[i] = true;
                    auto m = std::move(s.asked[i]);
                    static_cast<r::plugin::link_client_plugin_t *>(A.get_plugin(r::plugin::link_client_plugin_t::class_identity))->forget_link(*m);
                }, [&s, i] { return s.asked[i] && s.p[i]->ptr && !s.p[i]->down(); }, true);
        }
        if (linked) // everybody is operational already
            w.boot_quietly();
        for (int x = 0; x < 3; ++x)
            if (g.mask & (1 << x))
                w.inj(s.p[x]->name + ".do_shutdown", *s.p[x]->loc, [&s, x] {
                    s.told[x] = true;
                    if (s.p[x]->ptr && !s.p[x]->n_shut_start)
                        s.p[x]->ptr->do_shutdown();
                }, [&s, x] { return s.p[x]->n_init_start > 0; }, true);
        if (!linked)
            w.boot();
        w.run();
        if (!w.stop()) {
            auto &S = *s.p[2];
            if (s.told[2] ? !S.down() : S.n_shut_start || !S.n_start)
                if (s.told[2] || !s.root->n_shut_start)
                    mc::fail("P10,P08", "server", "the server %s", s.told[2] ? "does not finish its shutdown" : "does not run, though nobody asked it to shut down");
            for (int i = 0; i < 2; ++i) {
                auto &P = *s.p[i];
                bool failed = !s.n_ok[i]; // could not be linked: own init fails
                bool expect = s.told[i] || (s.told[2] && g.kind[i] != 2) || failed;
                if (s.root->n_shut_start)
                    continue;
                if (expect ? !P.down() : P.n_shut_start || !P.n_start)
                    mc::fail("P10,P08", "client", "C%d %s", i, expect ? "does not finish its shutdown" : "does not run, though there is no reason to go down");
                if (s.told[2] && s.n_ok[i] && !P.n_shut_start && s.n_ask[i] != 1)
                    mc::fail("P10", "no-unlink", "C%d was asked to unlink %d times", i, s.n_ask[i]);
                if (failed && !s.told[2] && !s.told[i])
                    mc::fail("P10", "no-link", "C%d is not linked", i);
            }
        }
        for (auto &x : s.asked)
            x.reset();
        for (auto &x : s.a)
            x.reset();
        s.addr.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_unlink(int c) {
    UCfg g(c);
    static const char *k[] = {"default", "answers later", "survives unlink"}, *sv[] = {"an actor", "an actor in another loop", "a supervisor with own loop", "a supervisor of the same loop", "root"};
    return std::string("client 0 ") + k[g.kind[0]] + ", client 1 " + k[g.kind[1]] + ", the server is " + sv[g.server] + ", asked to go down:" +
           (g.mask & 1 ? " client 0" : "") + (g.mask & 2 ? " client 1" : "") + (g.mask & 4 ? " server" : "") + (g.op ? ", operational only" : "");
}
mc::Reg r2({"link.unlink", {"P10", "P08", "P17", "P24", "P06"}, [](mc::Tier) { return UCfg::count(); }, [](int c) { run_unlink(c, false); }, [](int c) { return desc_unlink(c); }, 1, 2, 1, 0});
mc::Reg r3({"link.linked", {"P10", "P08", "P17", "P24"}, [](mc::Tier) { return UCfg::count(); }, [](int c) { run_unlink(c, true); }, [](int c) { return desc_unlink(c) + "; everybody is operational"; }, 3, 4, 1, 0});

// a client which never answers to the unlink request: the server cannot go down, the time-out is reported
void run_deaf(int c) {
    Cfg g(c);
    int server = g(3), other = g(3); // actor, supervisor, root; is there another client, and does it survive?
    auto &w = *new World(1);
    w.blame = "P10";
    {
        SupOpt o;
        auto &pr = w.probe("root");
        auto root = make_root(w, pr, 0, o);
        msup_t *sup = nullptr;
        r::intrusive_ptr_t<act_t> a[3];
        auto &ps = server == 2 ? pr : w.probe("S");
        address_ptr_t addr;
        if (server == 0) {
            a[2] = make_act(w, ps, *root);
            addr = a[2]->get_address();
        } else if (server == 1) {
            sup = make_sup(w, ps, 0, *root, o);
            addr = sup->get_address();
        } else
            addr = root->get_address();
        std::vector<r::intrusive_ptr_t<r::message::unlink_request_t>> kept;
        for (int i = 0; i < (other ? 2 : 1); ++i) {
            auto &P = w.probe("C" + std::to_string(i));
            P.conf = [&, i](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::link_client_plugin_t>([&](auto &lc) {
                    lc.link(addr, false);
                    if (!i)
                        lc.on_unlink([&](r::message::unlink_request_t &m) {
                            kept.emplace_back(&m);
                            return true;
                        });
                });
            };
            if (i)
                P.on_unlink = [other](r::actor_base_t &, const address_ptr_t &) { return other == 1; };
            a[i] = make_act(w, P, *root);
        }
        w.boot_quietly();
        int timeouts = 0, others = 0;
        w.on_fatal = [&](r::actor_base_t *, const extended_error_ptr_t &ee) {
            bool t = ee->root()->ec == r::make_error_code(r::error_code_t::request_timeout);
            ++(t ? timeouts : others);
            return true;
        };
        bool early = false;
        w.invariant = [&] { early |= ps.down() && !timeouts; };
        if (!w.stop())
            w.op("server.do_shutdown", [&] { w.as(*ps.loc, [&] { ps.ptr->do_shutdown(); }); });
        w.run();
        if (!w.stop()) {
            if (server == 2) { // the clients are its children, i.e. they go down, too
                if (timeouts || others || !ps.down())
                    mc::fail("P10", "server", "root does not go down with its clients");
            } else if (early)
                mc::fail("P10", "server-outlived", "the server finished its shutdown, while its client did not answer to the unlink request");
            if (server != 2 && !timeouts)
                mc::fail("P10", "unreported", "client does not answer to the unlink request, and the time-out of the shutdown is not reported");
            if (others)
                mc::fail("P10", "fatal-error", "unexpected error is reported");
        }
        w.dead = true; // no recovery is promised
        kept.clear();
        w.end(false);
    }
}
std::string desc_deaf(int c) {
    Cfg g(c);
    int server = g(3), other = g(3);
    static const char *sv[] = {"an actor", "a supervisor", "root"}, *ot[] = {"no other client", "another client", "another client, which survives"};
    return std::string("a client never answers to the unlink request of the server, which is ") + sv[server] + "; " + ot[other];
}
mc::Reg r4({"link.deaf", {"P10"}, [](mc::Tier) { return 9; }, run_deaf, desc_deaf, 2, 3, 1, 0});

// the link request of a client times out, while the server is busy or not operational yet: the server must not wait for the dead client
void run_late(int c) {
    Cfg g(c);
    int where = g(6); // same loop, client in another loop, server in another loop, both in another loop, client is a supervisor (server in another loop)
    bool op = g(2), busy = g(2), other = g(2);
    int what = g(3); // server is shut down, nothing, server's supervisor (root) at once
    bool early = what == 2;
    bool cs = where > 3;
    int lc = cs ? 1 : where & 1, ls = where == 5 ? 2 : cs ? 0 : where >> 1;
    auto &w = *new World(where == 5 ? 3 : where ? 2 : 1);
    w.blame = "P10,P08";
    w.k_preempt = true;
    {
        SupOpt o;
        o.policy = r::supervisor_policy_t::shutdown_failed;
        auto &pr = w.probe("root");
        auto root = make_root(w, pr, 0, o);
        msup_t *sup[3] = {root, nullptr, nullptr};
        if (where && !cs)
            sup[1] = make_sup(w, w.probe("sup"), 1, *root, o);
        if (where == 5)
            sup[2] = make_sup(w, w.probe("sup2"), 2, *root, o);
        auto &S = w.probe("S"), &C = w.probe("C");
        r::intrusive_ptr_t<act_t> s, a, b;
        if (busy) // holds a resource while it initializes
            S.conf = [](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::resources_plugin_t>([&](auto &) { static_cast<act_t &>(a).resources->acquire(0); });
            };
        s = make_act(w, S, *sup[ls]);
        auto addr = s->get_address();
        auto client = [&](Probe &P) {
            P.conf = [addr, op](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::link_client_plugin_t>([&](auto &lc) { lc.link(addr, op); });
            };
        };
        client(C);
        ActOpt ao;
        ao.init_timeout = 5000;
        if (cs) {
            o.init_timeout = 5000;
            make_sup(w, C, 1, *root, o);
        } else
            a = make_act(w, C, *sup[lc], ao);
        if (other) {
            auto &D = w.probe("D");
            client(D);
            b = make_act(w, D, *root);
        }
        if (busy)
            w.inj("release the server", w.loc(ls), [&S] { static_cast<act_t *>(S.ptr)->resources->release(0); },
                  [&S] { return S.n_init_start && !S.down() && S.ptr && static_cast<act_t *>(S.ptr)->resources->has(0); }, true);
        if (early)
            w.inj("S.do_shutdown", w.loc(ls), [&S] { S.ptr->do_shutdown(); }, [&S] { return S.n_init_finish && !S.n_shut_start && S.ptr; });
        w.boot();
        w.k_idle_timers = false; // the rest of the timers do not matter
        w.run();
        if (!w.stop() && what == 0 && !S.n_shut_start) {
            w.op("S.do_shutdown", [&] { w.as(*S.loc, [&] { s->do_shutdown(); }); });
            w.run();
            if (!w.stop() && !S.down())
                mc::fail("P10,P08", "server", "the server does not finish its shutdown: it waits for a client whose link request has timed out");
        }
        for (auto x : {&s, &a, &b})
            x->reset();
        w.k_idle_timers = true;
    }
    w.end();
}
std::string desc_late(int c) {
    Cfg g(c);
    int where = g(6), op = g(2), busy = g(2), other = g(2), what = g(3);
    static const char *wn[] = {"one loop", "client in another loop", "server in another loop", "both in another loop than root", "client is a supervisor in another loop", "client is a supervisor, three loops"};
    static const char *fn[] = {"server goes down", "root goes down", "server goes down early"};
    return std::string("the link request may time out; ") + wn[where] + (op ? ", operational only" : "") + (busy ? ", server initializes slowly" : "") + (other ? ", another client" : "") + "; " + fn[what];
}
mc::Reg r5({"link.late", {"P10", "P08", "P17", "P24", "P06"}, [](mc::Tier) { return 6 * 2 * 2 * 2 * 3; }, run_late, desc_late, 2, 3, 1, 0});
} // namespace
