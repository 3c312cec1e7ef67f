// Scenarios shared by all real backends. B is derived from bw::W and provides
//   using S                            the probed supervisor
//   B(int loops, int variant)
//   static constexpr int variants, variant_names
//   S *root(int loop, Probe &, Opt)    root supervisor of its own system context
//   S *child(S &parent, int loop, Probe &, Opt)
//   void go()                          starts the supervisors, runs everything up to the end
//   void release()
//   static constexpr bool nested_loops   a child supervisor might have another loop than its parent
//   static constexpr int late_us         time between creation of the context and of the supervisors
//   static constexpr bool io             handlers tagged as blocking
#pragma once
#include "bw.hpp"
#include "timerprog.hpp"
#include <map>

namespace bw {
struct Opt {
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    int poll_us = 0;
    std::atomic_bool *flag = nullptr;
    int flag_ms = 0;
    bool registry = false;
    r::address_ptr_t registry_address;
};
template <typename Builder> auto apply(Builder &&b, const Opt &o, Probe &p) {
    auto &&x = std::move(b).init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).policy(o.policy).poll_duration(pt::microseconds(o.poll_us)).probe(&p);
    if (o.flag)
        std::move(x).shutdown_flag(*o.flag, ms(o.flag_ms));
    if (o.registry)
        std::move(x).create_registry();
    if (o.registry_address)
        std::move(x).registry_address(o.registry_address);
    return std::move(x).finish();
}

struct Node {
    int parent, loop;
};
struct Topo {
    const char *name;
    std::vector<Node> sups;
};
template <typename B> const std::vector<Topo> &topos() {
    static const std::vector<Topo> nested{{"two loops", {{-1, 0}, {-1, 1}}},
                                          {"two loops, one with a nested supervisor", {{-1, 0}, {0, 0}, {-1, 1}}},
                                          {"child supervisor in another loop", {{-1, 0}, {0, 1}}},
                                          {"child supervisors: own loop, and nested", {{-1, 0}, {0, 0}, {0, 1}}}};
    static const std::vector<Topo> flat{nested[0], nested[1]};
    static const std::vector<Topo> single{{"one loop", {{-1, 0}}}, {"one loop, nested supervisor", {{-1, 0}, {0, 0}}}, {"one loop, two contexts", {{-1, 0}, {-1, 0}}}};
    return B::max_loops == 1 ? single : B::nested_loops ? nested : flat;
}

// the system: supervisors of the topology, actors on them
template <typename B> struct Sys {
    B *w;
    const Topo &topo;
    std::vector<typename B::S *> sup;
    std::vector<Probe *> sp, ap;
    std::vector<r::intrusive_ptr_t<act_t>> act;
    std::vector<int> on;

    Sys(const Topo &t, const Opt &o, int variant) : topo{t} {
        int n = 1;
        for (auto &x : t.sups)
            n = std::max(n, x.loop + 1);
        w = new B(n, variant);
        thr::advance_us(B::late_us); // the application is busy between creation of the context and of the actors
        for (auto &x : t.sups) {
            auto &p = w->probe("sup" + std::to_string(sup.size()));
            p.loop = x.loop;
            p.is_sup = true;
            sp.push_back(&p);
            if (x.parent < 0)
                sup.push_back(w->root(x.loop, p, o));
            else {
                p.parent = sp[x.parent];
                sup.push_back(w->child(*sup[x.parent], x.loop, p, o));
            }
        }
    }
    int actor(int s) {
        auto &p = w->probe(std::string(1, char('a' + act.size())));
        ap.push_back(&p);
        on.push_back(s);
        act.push_back(make_act(p, *sup[s]));
        return int(act.size()) - 1;
    }
    const r::address_ptr_t &addr(int a) { return act[a]->get_address(); }
    void call(int a, std::function<void(act_t &)> fn) { in_context(act[a], *sup[on[a]], std::move(fn)); }
    bool is_root(int s) const { return topo.sups[s].parent < 0; }
    // the rest is shut down, when everything is quiet
    void down_ops() {
        for (size_t i = 0; i < sup.size(); ++i)
            if (is_root(int(i)))
                w->op("shutdown of sup" + std::to_string(i), [this, i] { sup[i]->shutdown(); }, [this, i] { return sp[i]->n_shut_start == 0; }, true);
    }
};

// --- exchange -----------------------------------------------------------------------------------------------------------
struct Ledger {
    struct E {
        int sent = 0, got = 0;
    };
    std::map<std::pair<int, int>, E> m; // from, to
    int next(int from, int to) { return m[{from, to}].sent++; }
    void got(int from, int to, int seq) {
        auto &e = m[{from, to}];
        if (seq != e.got)
            mc::fail("*", seq < e.got ? "delivered-twice" : "order", "message #%d of %d is received by %d instead of #%d", seq, from, to, e.got);
        e.got = seq + 1;
    }
    void final() {
        for (auto &[k, e] : m)
            if (e.sent != e.got)
                mc::fail("*", "lost", "%d of %d messages from %d to %d are lost", e.sent - e.got, e.sent, k.first, k.second);
    }
};
// pattern: who sends
enum { X_ENV, X_PING, X_CROSS, X_FAN, X_REQ, X_IO, X_N };
template <typename B> struct Exchange {
    static int count() { return int(topos<B>().size()) * 4 * 2 * X_N * 2 * B::variants; }
    struct C {
        const Topo *t;
        int sa, sb, poll, pat, var;
        bool quiet;
    };
    static C decode(int c) {
        Cfg g(c);
        C r;
        r.t = &topos<B>()[g(int(topos<B>().size()))];
        int n = int(r.t->sups.size());
        int pl = g(4);
        // placements of a and b: last/first, first/last, middle/last, same
        r.sa = pl == 0 ? n - 1 : pl == 1 ? 0 : pl == 2 ? (n > 2 ? 1 : 0) : n - 1;
        r.sb = pl == 0 ? 0 : n - 1;
        if (pl == 2 && n <= 2)
            r.sa = r.sb = 0;
        r.poll = g(2) * 3;
        r.pat = g(X_N);
        r.quiet = g(2);
        r.var = g(B::variants);
        return r;
    }
    static std::string describe(int c) {
        auto x = decode(c);
        static const char *pn[] = {"environment sends to a and b", "a sends to b, b echoes", "a and b send to each other", "c and a send to b", "a requests b", "a sends to a blocking handler of b"};
        return std::string(x.t->name) + ", a@sup" + std::to_string(x.sa) + ", b@sup" + std::to_string(x.sb) + ", polling " + std::to_string(x.poll) + " us, " + pn[x.pat] + (x.quiet ? " when everything is quiet" : " at any moment") + ", " + B::variant_names[x.var];
    }
    static B *body(int c) {
        auto x = decode(c);
        Opt o;
        o.poll_us = x.poll;
        auto sp = std::make_shared<Sys<B>>(*x.t, o, x.var);
        auto &s = *sp;
        auto &w = *s.w;
        w.keep.push_back(sp);
        int a = s.actor(x.sa), b = s.actor(x.sb), e = 9;
        auto lp = std::make_shared<Ledger>();
        auto &l = *lp;
        w.keep.push_back(lp);
        auto send = [&s, &l](act_t &from, int fi, int to) {
            int k = l.next(fi, to);
            if (k % 2)
                from.template send<payload::m2_t>(s.addr(to), fi, k);
            else
                from.template send<payload::m1_t>(s.addr(to), fi, k);
        };
        auto env_send = [&s, &l, e](int to) {
            int k = l.next(e, to);
            if (k % 2)
                s.sup[s.on[to]]->enqueue(r::make_message<payload::m2_t>(s.addr(to), e, k));
            else
                s.sup[s.on[to]]->enqueue(r::make_message<payload::m1_t>(s.addr(to), e, k));
        };
        auto recv = [&l, &s](int me) {
            s.ap[me]->m1 = [&l, me](act_t &, msg::m1 &m) { l.got(m.payload.from, me, m.payload.seq); };
            s.ap[me]->m2 = [&l, me](act_t &, msg::m2 &m) { l.got(m.payload.from, me, m.payload.seq); };
        };
        recv(a);
        recv(b);
        auto ready = [&w] { return w.all_started(); };
        auto go = [&s](int who, std::function<void(act_t &)> fn) { s.call(who, std::move(fn)); };
        switch (x.pat) {
        case X_ENV:
            for (int i = 0; i < 4; ++i)
                w.op("env sends", [=] { env_send(i % 2 ? a : b); }, ready, x.quiet);
            break;
        case X_PING:
            s.ap[b]->m1 = [&l, send, a, b](act_t &me, msg::m1 &m) {
                l.got(m.payload.from, b, m.payload.seq);
                send(me, b, a);
            };
            s.ap[b]->m2 = [&l, send, a, b](act_t &me, msg::m2 &m) {
                l.got(m.payload.from, b, m.payload.seq);
                send(me, b, a);
            };
            for (int k = 0; k < 2; ++k)
                w.op("a sends", [=] { go(a, [=](act_t &me) {
                                          send(me, a, b);
                                          send(me, a, b);
                                      }); },
                     ready, x.quiet);
            break;
        case X_CROSS:
            w.op("both send", [=] {
                go(a, [=](act_t &me) {
                    send(me, a, b);
                    send(me, a, b);
                });
                go(b, [=](act_t &me) {
                    send(me, b, a);
                    send(me, b, a);
                });
            },
                 ready, x.quiet);
            w.op("env sends", [=] { env_send(a); }, ready, x.quiet);
            break;
        case X_FAN: {
            int cc = s.actor(0);
            recv(cc);
            w.op("a and c send to b", [=] {
                go(a, [=](act_t &me) {
                    send(me, a, b);
                    send(me, a, b);
                });
                go(cc, [=](act_t &me) {
                    send(me, cc, b);
                    send(me, cc, b);
                });
            },
                 ready, x.quiet);
            w.op("env sends", [=] { env_send(b); }, ready, x.quiet);
            break;
        }
        case X_REQ: {
            auto ans = std::make_shared<std::vector<int>>(3, 0);
            s.ap[b]->rq = [](act_t &me, msg::rq &m) { me.reply_to(m, m.payload.request_payload.v * 10); };
            s.ap[a]->rs = [ans](act_t &, msg::rs &m) {
                int v = m.payload.req->payload.request_payload.v;
                if (m.payload.ee)
                    mc::fail("*", "request-failed", "request %d fails: %s", v, m.payload.ee->message().c_str());
                else if (m.payload.res.v != v * 10)
                    mc::fail("*", "wrong-response", "request %d is answered with %d", v, m.payload.res.v);
                if (++(*ans)[v] > 1)
                    mc::fail("*", "response-twice", "request %d is answered twice", v);
            };
            for (int k = 0; k < 3; k += 2)
                w.op("a requests", [=, &s] { go(a, [=, &s](act_t &me) {
                                                 for (int i = k; i < std::min(k + 2, 3); ++i)
                                                     me.template request<payload::rq_t>(s.addr(b), i).send(ms(T_REQ));
                                             }); },
                     ready, x.quiet);
            w.op("check of responses", [ans] {
                for (int v = 0; v < 3; ++v)
                    if ((*ans)[v] != 1)
                        mc::fail("*", "no-response", "request %d has got %d responses", v, (*ans)[v]);
            }, {}, true);
            break;
        }
        case X_IO:
            s.ap[b]->io = [&l, send, a, b](act_t &me, msg::io &m) {
                l.got(a, b, m.payload.v);
                thr::sleep_us(20000);
                send(me, b, a);
            };
            for (int k = 0; k < 2; ++k)
                w.op("a sends", [=, &s, &l] { go(a, [=, &s, &l](act_t &me) { me.template send<payload::io_t>(s.addr(b), l.next(a, b)); }); }, ready, x.quiet);
            break;
        }
        w.op("check of the exchange", [&l] { l.final(); }, {}, true);
        s.down_ops();
        w.go();
        w.check_down();
        if (!w.stop())
            l.final();
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c)) // everything, what it has captured, is gone
            B::finish(w);
    }
};

// --- shutdown at any moment ----------------------------------------------------------------------------------------------
enum { D_ENV, D_ENV_TWICE, D_PEER, D_SELF, D_START, D_N };
template <typename B> struct Down {
    static int count() { return int(topos<B>().size()) * 3 * D_N * 2 * 2 * 2 * B::variants; }
    struct C {
        const Topo *t;
        int victim, how, poll, var;
        bool traffic, started;
    };
    static bool decode(int c, C &r) {
        Cfg g(c);
        r.t = &topos<B>()[g(int(topos<B>().size()))];
        r.victim = g(3);
        r.how = g(D_N);
        r.poll = g(2) * 3;
        r.traffic = g(2);
        r.started = g(2);
        r.var = g(B::variants);
        return r.victim < int(r.t->sups.size());
    }
    static std::string describe(int c) {
        C x;
        if (!decode(c, x))
            return "-";
        static const char *hn[] = {"shutdown by the environment", "shutdown by the environment twice", "shutdown by an actor of another supervisor", "an actor of it shuts it down", "shutdown in on_start of an actor"};
        return std::string(x.t->name) + ", sup" + std::to_string(x.victim) + ": " + hn[x.how] + (x.started ? " after the start" : " at any moment") + (x.traffic ? ", with traffic" : "") + ", polling " + std::to_string(x.poll) + " us, " + B::variant_names[x.var];
    }
    static B *body(int c) {
        C x;
        if (!decode(c, x))
            return nullptr;
        Opt o;
        o.poll_us = x.poll;
        o.policy = r::supervisor_policy_t::shutdown_failed;
        auto sp = std::make_shared<Sys<B>>(*x.t, o, x.var);
        auto &s = *sp;
        auto &w = *s.w;
        w.keep.push_back(sp);
        int n = int(s.sup.size());
        for (int i = 0; i < n; ++i)
            s.actor(i);
        int v = x.victim, other = (v + 1) % n;
        auto started = [&w, x] { return !x.started || w.all_started(); };
        if (x.traffic) { // everybody talks to the next one until somebody is gone
            auto left = std::make_shared<int>(6);
            for (int i = 0; i < n; ++i)
                s.ap[i]->m1 = [left, &s, i, n](act_t &me, msg::m1 &) {
                    if (--*left > 0)
                        me.template send<payload::m1_t>(s.addr((i + 1) % n), i, 0);
                };
            w.op("traffic", [&s] { s.sup[s.on[0]]->enqueue(r::make_message<payload::m1_t>(s.addr(0), 0, 0)); }, started);
        }
        switch (x.how) {
        case D_ENV_TWICE:
            w.op("shutdown", [&s, v] { s.sup[v]->shutdown(); }, started);
            // fall through
        case D_ENV:
            w.op("shutdown", [&s, v] { s.sup[v]->shutdown(); }, [&s, started, v] { return started() && !s.sp[v]->down(); });
            break;
        case D_PEER:
            w.op("go", [&s, v, other] { s.call(other, [&s, v](act_t &) { s.sup[v]->shutdown(); }); }, started);
            break;
        case D_SELF:
            w.op("go", [&s, v] { s.call(v, [&s, v](act_t &) { s.sup[v]->do_shutdown(); }); }, started);
            break;
        case D_START:
            s.ap[v]->at_start = [&s, v](r::actor_base_t &) { s.sup[v]->shutdown(); };
            break;
        }
        w.op("check", [&s, &w, v, x] {
            // a message to an actor which is not subscribed yet is dropped, that's why only after the start
            bool must = x.how == D_ENV || x.how == D_ENV_TWICE || x.how == D_START || x.started;
            if (must && !s.sp[v]->down())
                mc::fail("*", "not-shut-down", "sup%d is asked to shut down, everything is quiet, but it is not shut down (%s)", v, thr::status().c_str());
            for (auto &p : w.probes)
                if (p.created && p.n_shut_start) {
                    bool below = false;
                    for (auto q = &p; q; q = q->parent)
                        below |= q == s.sp[v];
                    if (!below && x.started)
                        mc::fail("*", "unexpected-shutdown", "%s goes down though only %s is asked to", p.name.c_str(), s.sp[v]->name.c_str());
                }
        },
             {}, true);
        s.down_ops();
        w.go();
        w.check_down();
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c)) // everything, what it has captured, is gone
            B::finish(w);
    }
};

// --- timers ------------------------------------------------------------------------------------------------------------
enum { TC_PLAIN, TC_BUSY, TC_START, TC_IO, TC_IO_SLOW, TC_N };
template <typename B> struct Timers {
    static std::vector<int> &list() {
        static std::vector<int> l = [] {
            std::vector<int> r;
            for (int i = 0; i < TimerProg::count(); ++i)
                if (!TimerProg::skip(i))
                    r.push_back(i);
            return r;
        }();
        return l;
    }
    static int ctxs() { return B::io ? TC_N : TC_IO; }
    static int count() { return int(list().size()) * ctxs() * 2 * 2 * B::variants; }
    struct C {
        int prog, ctx, poll, var;
        bool nested;
    };
    static C decode(int c) {
        Cfg g(c);
        C r;
        r.ctx = g(ctxs());
        r.poll = g(2) * 3;
        r.nested = g(2);
        r.var = g(B::variants);
        r.prog = list()[g.c];
        return r;
    }
    static std::string describe(int c) {
        auto x = decode(c);
        TimerProg p;
        p.decode(x.prog);
        static const char *cn[] = {"in a handler", "in a handler, while messages arrive", "in on_start", "in a blocking handler", "in a slow blocking handler"};
        return p.describe() + " " + cn[x.ctx] + (x.nested ? ", in a nested supervisor" : "") + ", polling " + std::to_string(x.poll) + " us, " + B::variant_names[x.var];
    }
    static B *body(int c) {
        auto x = decode(c);
        static const Topo one{"one", {{-1, 0}}}, two{"nested", {{-1, 0}, {0, 0}}};
        Opt o;
        o.poll_us = x.poll;
        auto sp = std::make_shared<Sys<B>>(x.nested ? two : one, o, x.var);
        auto &s = *sp;
        auto &w = *s.w;
        w.keep.push_back(sp);
        int a = s.actor(x.nested ? 1 : 0);
        auto pp = std::make_shared<TimerProg>();
        w.keep.push_back(pp);
        auto &pr = *pp;
        pr.decode(x.prog);
        pr.props = "*";
        pr.unit = 1003; // not a multiple of milliseconds
        pr.late = 300000;
        pr.slack = B::timer_slack_us;
        pr.check_order = w.timer_order;
        auto &A = *s.ap[a];
        auto owner = [&A] { return static_cast<act_t *>(A.ptr); };
        pr.now = [&w] { return w.clock(0); };
        pr.start = [owner](int d) { return owner()->timer(pt::microseconds(d * 1003)); };
        pr.cancel = [owner](size_t id) { owner()->cancel_timer(id); };
        pr.shutdown = [owner] { owner()->do_shutdown(); };
        pr.going_down = [&A] { return A.n_shut_start > 0; };
        // what a callback sends is delivered
        auto sent = std::make_shared<std::pair<int, int>>(0, 0);
        A.timer = [&pr, &A, owner, &s, a, sent](r::actor_base_t &, request_id_t id, bool cancelled) {
            if (!A.n_shut_start)
                owner()->template send<payload::m2_t>(s.addr(a), a, sent->first++);
            pr.callback(id, cancelled);
        };
        A.m2 = [a, sent](act_t &, msg::m2 &m) {
            if (m.payload.from != a || m.payload.seq < 0)
                return;
            if (m.payload.seq != sent->second++)
                mc::fail("*", "order", "message #%d of a timer callback is received instead of #%d", m.payload.seq, sent->second - 1);
        };
        A.m1 = [&pr](act_t &, msg::m1 &) { pr.script(); };
        bool slow = x.ctx == TC_IO_SLOW;
        A.io = [&pr, slow](act_t &, msg::io &) {
            if (slow)
                thr::sleep_us(12000);
            pr.script();
            if (slow)
                thr::sleep_us(12000);
        };
        bool io = x.ctx == TC_IO || x.ctx == TC_IO_SLOW;
        if (x.ctx == TC_START)
            A.at_start = [&pr](r::actor_base_t &) { pr.script(); };
        // the program runs twice in case of blocking handlers: it cancels timers, which have been started by the first one
        if (x.ctx != TC_START)
            w.op("script", [&s, a, io, slow] {
            if (io) {
                s.sup[s.on[a]]->enqueue(r::make_message<payload::io_t>(s.addr(a), 0));
                if (slow)
                    s.sup[s.on[a]]->enqueue(r::make_message<payload::io_t>(s.addr(a), 1));
            } else
                s.sup[s.on[a]]->enqueue(r::make_message<payload::m1_t>(s.addr(a), 0, 0));
        },
             [&w] { return w.all_started(); }, true);
        if (x.ctx == TC_BUSY)
            for (int i = 0; i < 2; ++i)
                w.op("a message", [&s, a] { s.sup[s.on[a]]->enqueue(r::make_message<payload::m2_t>(s.addr(a), 0, -1)); });
        w.op("check of timers", [&pr, &A, sent] {
            if (A.n_shut_start)
                return;
            pr.final();
            if (sent->first != sent->second)
                mc::fail("*", "lost", "%d messages have been sent by timer callbacks, %d are received", sent->first, sent->second);
        }, {}, true);
        s.down_ops();
        w.go();
        w.check_down();
        if (!w.stop())
            pr.final();
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c)) // everything, what it has captured, is gone
            B::finish(w);
    }
};

// --- shutdown flag --------------------------------------------------------------------------------------------------------
template <typename B> struct Flag {
    static int count() { return 2 * 3 * 2 * 2 * B::variants; }
    static std::string describe(int c) {
        Cfg g(c);
        int ms = g(2), when = g(3), poll = g(2) * 3, traffic = g(2);
        return std::string("flag is set ") + (when == 0 ? "at any moment" : when == 1 ? "after the start" : "before the start") + ", checked every " + (ms ? "25" : "10") + " ms, polling " + std::to_string(poll) + (traffic ? " us, with traffic" : " us");
    }
    static B *body(int c) {
        Cfg g(c);
        int period = g(2) ? 25 : 10, when = g(3), poll = g(2) * 3;
        bool traffic = g(2);
        auto flag = std::make_shared<std::atomic_bool>(when == 2);
        Opt o;
        o.poll_us = poll;
        o.flag = flag.get();
        o.flag_ms = period;
        auto sp = std::make_shared<Sys<B>>(topos<B>()[0], o, g(B::variants));
        auto &s = *sp;
        auto &w = *s.w;
        w.keep.push_back(sp);
        w.keep.push_back(flag);
        for (size_t i = 0; i < s.sup.size(); ++i)
            s.actor(int(i));
        auto set_at = std::make_shared<int64_t>(thr::now_us());
        if (traffic)
            for (int i = 0; i < 2; ++i)
                w.op("a message", [&s] { s.sup[s.on[0]]->enqueue(r::make_message<payload::m2_t>(s.addr(0), 0, 0)); });
        if (when != 2)
            w.op("flag is set", [flag, set_at] {
                *flag = true;
                *set_at = thr::now_us();
            },
                 [&w, when] { return when == 0 || w.all_started(); }, false);
        w.quiet_horizon_us = when == 2 ? 5000000 : 1000; // the flag is checked for ever: nobody is ever idle
        w.run_on = true;
        w.max_jump_us = 0; // the moment of shutdown is measured
        w.go();
        w.check_down();
        if (!w.stop())
            for (auto &p : w.probes)
                if (p.is_sup && p.down_at > *set_at / 1000 + period + 5)
                    mc::fail("*", "flag-late", "%s is shut down %d ms after the flag is set (interval %d ms)", p.name.c_str(), int(p.down_at - *set_at / 1000), period);
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c)) // everything, what it has captured, is gone
            B::finish(w);
    }
};
} // namespace bw

// MSG: property of messages and shutdown, TIM: property of timers
#define BW_SCN(B, NAME, TYPE, BQ, BT, ...)                                                                                               \
    static mc::Reg reg_##TYPE(mc::Scenario{NAME, std::set<std::string>{__VA_ARGS__}, [](mc::Tier) { return TYPE<B>::count(); }, [](int c) { TYPE<B>::run(c); }, \
                                           [](int c) { return TYPE<B>::describe(c); }, BQ, BT});
#define BW_SCENARIOS(B, PFX, MSG, TIM)                                \
    BW_SCN(B, PFX ".exchange", Exchange, 2, 3, MSG, "P01", "P02", "P24") \
    BW_SCN(B, PFX ".down", Down, 2, 3, MSG, "P08", "P17")             \
    BW_SCN(B, PFX ".timer", Timers, 1, 2, TIM, "P05")                 \
    BW_SCN(B, PFX ".flag", Flag, 2, 3, TIM)
