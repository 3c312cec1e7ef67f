// P01 exact delivery, P02 order, P16 routing, P15 dynamic subscriptions
#include "trio.hpp"
using namespace h;

namespace {

// reference: which subscription has to see which message, exactly once and in the order of sending
struct Ledger {
    struct Sub {
        std::string owner;
        r::address_t *addr;
        int type, tag;
        bool active = true;
    };
    struct Send {
        int from;
        r::address_t *addr;
        int type;
        std::vector<int> got;      // per subscription
        std::vector<bool> expect;  // subscription was active when sent
        int64_t at;
    };
    std::vector<Sub> subs;
    std::vector<Send> sends;
    std::map<std::pair<int, int>, int> last; // (from, sub) -> last seq
    const char *p_exact = "P01", *p_order = "P02";

    int sub(const std::string &o, const address_ptr_t &a, int type, int tag) {
        subs.push_back({o, a.get(), type, tag});
        return int(subs.size()) - 1;
    }
    int send(int from, const address_ptr_t &a, int type) {
        Send s{from, a.get(), type, {}, {}, 0};
        s.got.assign(subs.size(), 0);
        for (auto &b : subs)
            s.expect.push_back(b.active && b.addr == s.addr && b.type == type);
        sends.push_back(s);
        return int(sends.size()) - 1;
    }
    template <typename M> void got(int sub, M &m, int type) {
        auto &b = subs[sub];
        int seq = m.payload.seq;
        if (seq < 0 || seq >= int(sends.size())) {
            mc::fail(p_exact, "alien-message", "%s received a message which was never sent", b.owner.c_str());
            return;
        }
        auto &s = sends[seq];
        if (s.addr != b.addr || s.type != type || type != b.type || s.from != m.payload.from || m.address.get() != s.addr) {
            mc::fail(p_exact, "misdelivery", "message #%d reached the wrong handler of %s", seq, b.owner.c_str());
            return;
        }
        ++s.got[sub];
        if (s.got[sub] > 1)
            mc::fail(p_exact, "duplicate", "message #%d from %d is delivered %d times to %s", seq, s.from, s.got[sub], b.owner.c_str());
        auto k = std::make_pair(s.from, sub);
        auto it = last.find(k);
        if (it != last.end() && it->second > seq)
            mc::fail(p_order, "reordered", "%s received message #%d from %d after its later message #%d", b.owner.c_str(), seq, s.from, it->second);
        last[k] = seq;
    }
    void final() {
        for (size_t i = 0; i < sends.size(); ++i)
            for (size_t j = 0; j < sends[i].expect.size(); ++j)
                if (sends[i].expect[j] && sends[i].got[j] != 1)
                    mc::fail(p_exact, "lost", "message #%zu from %d is delivered %d times to %s", i, sends[i].from, sends[i].got[j], subs[j].owner.c_str());
                else if (!sends[i].expect[j] && sends[i].got[j])
                    mc::fail(p_exact, "misdelivery", "message #%zu from %d is delivered to %s, which is not subscribed", i, sends[i].from,
                             subs[j].owner.c_str());
    }
};

// --------------------------------------------------------------------------------------------
// exchange: A sends a program of three messages, B and C react; second handler, foreign subscriber
// --------------------------------------------------------------------------------------------
void run_exchange(int c) {
    Cfg g(c);
    int prog[3] = {g(4), g(4), g(4)};
    auto &topo = topos[g(7)];
    bool second = g(2), foreign = g(2), plain = g(2);
    auto &w = *new World(nlocs(topo));
    w.blame = "P01,P02";
    w.k_preempt = true;
    {
        auto L = std::make_shared<Ledger>();
        Trio t(w, topo, plain);
        auto conf = [&](int i, bool m1b) {
            t.pa[i]->conf = [m1b](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                    s.subscribe_actor(&act_t::on_m1);
                    s.subscribe_actor(&act_t::on_m2);
                    if (m1b)
                        s.subscribe_actor(r::lambda<msg::m1>([self = static_cast<act_t *>(&a)](msg::m1 &m) { self->on_m1b(m); }));
                }, r::plugin::config_phase_t::PREINIT);
            };
        };
        for (int i = 0; i < 3; ++i)
            conf(i, second && i == 1);
        for (int i = 0; i < 3; ++i)
            t.make(i, topo.l[i]);
        std::vector<address_ptr_t> ad;
        for (int i = 0; i < 3; ++i)
            ad.push_back(t.a[i]->get_address());
        int s_m1[4], s_m2[4], s_m1b = -1, s_d = -1;
        for (int i = 0; i < 3; ++i) {
            s_m1[i] = L->sub(t.pa[i]->name, ad[i], 1, 0);
            s_m2[i] = L->sub(t.pa[i]->name, ad[i], 2, 0);
        }
        if (second)
            s_m1b = L->sub("B", ad[1], 1, 1);
        auto send = [L](act_t &self, int from, const address_ptr_t &to, int type) {
            int seq = L->send(from, to, type);
            if (type == 1)
                self.send<payload::m1_t>(to, from, seq);
            else
                self.send<payload::m2_t>(to, from, seq);
        };
        for (int i = 0; i < 3; ++i) {
            t.pa[i]->m2 = [L, i, s = s_m2[i]](act_t &, msg::m2 &m) { L->got(s, m, 2); };
            t.pa[i]->m1 = [=, s = s_m1[i]](act_t &self, msg::m1 &m) {
                L->got(s, m, 1);
                if (i == 1 && m.payload.from == 0) { // B answers to A and notifies C
                    send(self, 1, ad[2], 1);
                    send(self, 1, ad[0], 2);
                }
                if (i == 2 && m.payload.from == 1) // C: closes the triangle
                    send(self, 2, ad[0], 1);
            };
        }
        if (second)
            t.a[1]->m1b = [L, s_m1b](act_t &, msg::m1 &m) { L->got(s_m1b, m, 1); };
        if (foreign) { // D lives in the locality of A and listens to the address of B
            s_d = L->sub("D", ad[1], 1, 2);
            t.pa[3]->conf = [b = ad[1]](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&act_t::on_m1, b); });
            };
            t.pa[3]->m1 = [L, s_d](act_t &, msg::m1 &m) { L->got(s_d, m, 1); };
            t.make(3, topo.l[0]);
        }
        w.boot();
        w.run(); // everything is operational now
        w.op("start the exchange", [&w, &t, send, prog, ad]() {
            w.cur = t.pa[0]->loc;
            for (int k = 0; k < 3; ++k)
                send(*t.a[0], 0, ad[1 + (prog[k] >> 1)], 1 + (prog[k] & 1));
            w.cur->kick = true;
            w.cur = nullptr;
        });
        w.op("C starts too", [&w, &t, send, ad]() {
            w.cur = t.pa[2]->loc;
            send(*t.a[2], 2, ad[1], 2);
            send(*t.a[2], 2, ad[1], 1);
            w.cur->kick = true;
            w.cur = nullptr;
        });
        w.run();
        if (!w.stop())
            L->final();
        for (auto &x : t.a)
            x.reset();
    }
    w.end();
}
std::string desc_exchange(int c) {
    Cfg g(c);
    int p0 = g(4), p1 = g(4), p2 = g(4), topo = g(7), s = g(2), f = g(2), pl = g(2);
    char b[200];
    snprintf(b, sizeof b, "A sends %s%s,%s%s,%s%s; localities of A,B,C=%d%d%d%s%s; %s delivery", p0 & 1 ? "m2" : "m1", p0 & 2 ? ">C" : ">B",
             p1 & 1 ? "m2" : "m1", p1 & 2 ? ">C" : ">B", p2 & 1 ? "m2" : "m1", p2 & 2 ? ">C" : ">B", topos[topo].l[0], topos[topo].l[1],
             topos[topo].l[2], s ? ", two handlers in B" : "", f ? ", foreign subscriber D" : "", pl ? "plain" : "inspected");
    return b;
}
mc::Reg r1({"msg.exchange", {"P01", "P02", "P24", "P17"}, [](mc::Tier t) { return t == mc::Tier::quick ? 64 * 7 * 2 * 2 * 2 : 64 * 7 * 2 * 2 * 2; }, run_exchange, desc_exchange, 1, 2, 1, 0});


// --------------------------------------------------------------------------------------------
// siblings: two child supervisors of root share one event loop, root itself has another one (or the same)
// --------------------------------------------------------------------------------------------
void run_siblings(int c) {
    Cfg g(c);
    int far = g(2), what = g(3), dir = g(2);
    auto &w = *new World(far ? 2 : 1);
    w.blame = "P01,P08";
    w.k_preempt = true;
    w.k_timers = false; // the request does not time out early
    {
        SupOpt o;
        auto &p0 = w.probe("root"), &p1 = w.probe("sup1"), &p2 = w.probe("sup2");
        auto root = make_root(w, p0, 0, o);
        msup_t *sup[2] = {make_sup(w, p1, far, *root, o), make_sup(w, p2, far, *root, o)};
        Probe *p[3] = {&w.probe("A"), &w.probe("B"), &w.probe("R")}; // R is an actor of root
        struct {
            int hit[3] = {}, rs = 0, rs_ok = 0;
        } n;
        r::intrusive_ptr_t<act_t> a[3];
        address_ptr_t hub;
        for (int i : {1, 0, 2}) {
            bool listens = what == 2 && i == 0; // A is subscribed at the address of B
            p[i]->conf = [&hub, listens](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                    s.subscribe_actor(&act_t::on_m1);
                    s.subscribe_actor(&act_t::on_rq);
                    s.subscribe_actor(&act_t::on_rs);
                    if (listens)
                        s.subscribe_actor(&act_t::on_m1, hub);
                });
            };
            p[i]->m1 = [&n, i](act_t &, msg::m1 &) { ++n.hit[i]; };
            p[i]->rq = [](act_t &self, msg::rq &m) { self.reply_to(m, m.payload.request_payload.v + 1); };
            p[i]->rs = [&n](act_t &, msg::rs &m) { ++n.rs, n.rs_ok += !m.payload.ee; };
            a[i] = make_act(w, *p[i], i == 2 ? *root : *sup[i]);
            if (i == 1)
                hub = a[1]->get_address();
        }
        int from = dir ? 1 : 0, to = dir ? 0 : 1;
        w.boot_quietly();
        if (!w.stop()) {
            w.k_idle_timers = false;
            if (what == 0) {
                w.op("message to the actor of the sibling supervisor", [&] { w.as(*p[from]->loc, [&] { a[from]->send<payload::m1_t>(a[to]->get_address(), from, 0); }); });
                w.run();
                if (n.hit[to] != 1)
                    mc::fail("P01", far ? "lost-between-siblings" : "lost-same-loop", "message to an actor of the sibling supervisor with the same event loop is delivered %d times", n.hit[to]);
            } else if (what == 1) {
                w.op("request to the actor of the sibling supervisor",
                     [&] { w.as(*p[from]->loc, [&] { a[from]->request<payload::rq_t>(a[to]->get_address(), 1).send(ms(T_REQ)); }); });
                w.k_idle_timers = true;
                w.run();
                if (n.rs != 1)
                    mc::fail("P01,P03", "answers", "request to an actor of the sibling supervisor is answered %d times", n.rs);
                else if (n.rs_ok != 1)
                    mc::fail("P01", far ? "request-lost-between-siblings" : "lost-same-loop", "request to an actor of the sibling supervisor with the same event loop is lost: it times out");
            } else {
                w.op("message to the address the actor of the sibling supervisor listens to", [&] { w.as(*p[1]->loc, [&] { a[1]->send<payload::m1_t>(hub, 1, 0); }); });
                w.run();
                if (n.hit[1] != 1)
                    mc::fail("P01", "lost", "message of B to itself is delivered %d times", n.hit[1]);
                if (n.hit[0] != 1)
                    mc::fail("P01", far ? "unseen-by-sibling" : "lost-same-loop", "message is delivered %d times to the subscriber, whose supervisor is the sibling of the address owner's", n.hit[0]);
            }
            n.hit[0] = n.hit[1] = n.hit[2] = 0; // from and to root everything works anyway
            w.op("root sends to both", [&] {
                w.as(*p[2]->loc, [&] {
                    a[2]->send<payload::m1_t>(a[0]->get_address(), 2, 1);
                    a[2]->send<payload::m1_t>(a[1]->get_address(), 2, 2);
                });
            });
            for (int i : {0, 1})
                w.op("both send to root", [&, i] { w.as(*p[i]->loc, [&] { a[i]->send<payload::m1_t>(a[2]->get_address(), i, 3 + i); }); });
            w.run();
            if (!w.stop() && (n.hit[0] < 1 || n.hit[1] != 1 || n.hit[2] != 2))
                mc::fail("P01", "lost", "messages from root are delivered %d and %d times, messages to root %d times of 2", n.hit[0], n.hit[1], n.hit[2]);
            w.k_idle_timers = true;
        }
        for (auto &x : a)
            x.reset();
        hub.reset();
    }
    w.end();
}
std::string desc_siblings(int c) {
    Cfg g(c);
    int far = g(2), what = g(3), dir = g(2);
    static const char *wn[] = {"a message", "a request", "a subscription"};
    return std::string(wn[what]) + " between actors of two sibling supervisors with one event loop, root has " + (far ? "another" : "the same") + " one" + (dir ? " (reversed)" : "");
}
mc::Reg r2({"msg.siblings", {"P01", "P17", "P24"}, [](mc::Tier) { return 12; }, run_siblings, desc_siblings, 2, 3, 1, 0});
} // namespace
