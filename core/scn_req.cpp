// P03: requests, replies and timeouts; P02: replies keep their place among plain messages; P04: shutdown of the requester
#include "trio.hpp"
using namespace h;

namespace {
enum Beh { VALUE, ERROR, TWICE, ERR_VALUE, DELAYED, STORED, NEVER, VALUE_LATE, N_BEH };
const char *beh_name[] = {"value", "error", "value+value", "error+value", "delayed value", "value on demand (reverse order)", "never", "value, and again later"};
enum Victim { NOBODY, REQUESTER, RESPONDER, REQ_SUP, N_VICTIM };

struct QCfg {
    int topo, ptr, n, chained, via, second, victim, beh[3];
    explicit QCfg(int c) {
        Cfg g(c);
        topo = g(5);
        ptr = g(2);
        int shape = g(4); // 1 request, 2 at once, 2 chained, 3 at once
        n = shape == 0 ? 1 : shape == 3 ? 3 : 2;
        chained = shape == 2;
        via = g(3);    // reply to: main address of A, second address of A, address of C
        second = g(2); // C (same supervisor as A) sends a request, too
        victim = g(N_VICTIM);
        for (auto &b : beh)
            b = g(N_BEH);
    }
    static int count() { return 5 * 2 * 4 * 3 * 2 * N_VICTIM * N_BEH * N_BEH * N_BEH; }
    bool skip(bool thorough) const {
        if (chained && via == 2 && topo == 4) // the response is handled in a foreign event loop, A cannot continue there
            return true;
        for (int i = n; i < 3; ++i)
            if (beh[i])
                return true;
        if (thorough)
            return n == 3 && (victim || second);
        if (n == 3)
            return victim || second || ptr || via || beh[0] == TWICE || beh[1] == TWICE || beh[2] == TWICE;
        if (n == 2 && (ptr || second) && victim)
            return true;
        if (n == 2 && second && (beh[0] == ERR_VALUE || beh[1] == ERR_VALUE))
            return true;
        return false;
    }
};
const std::vector<int> &qlist(bool thorough) {
    static std::vector<int> v[2];
    auto &r = v[thorough];
    if (r.empty()) {
        for (int c = 0; c < QCfg::count(); ++c)
            if (!QCfg(c).skip(thorough))
                r.push_back(c);
    }
    return r;
}
const Topo qtopos[] = {{{0, 0, 0}}, {{0, 1, 0}}, {{1, 0, 1}}, {{1, 2, 1}}, {{0, 1, 1}}};

struct Req {
    int requester;
    r::request_id_t id;
    address_ptr_t reply_addr;
    int interval;
    message_ptr_t msg; // as seen by the responder
    bool sent = false, received = false, timed_out = false;
    int replies = 0;                // by the responder
    bool first_err = false;
    int responses = 0;
};
struct QSt {
    QCfg g;
    Req q[4];
    int mseq = 0;                 // plain messages of B to A and C, by destination
    std::map<int, std::vector<int>> order_sent; // destination actor -> tags
    std::vector<int> stored;
    std::vector<int> got[3];
    std::unique_ptr<Trio> t;
    address_ptr_t addr2;
    explicit QSt(int c) : g{c} {}
};

template <bool Ptr> struct K;
template <> struct K<false> {
    using rq = msg::rq;
    using rs = msg::rs;
    static int v(const rq &m) { return m.payload.request_payload.v; }
    static int rv(const rs &m) { return m.payload.res.v; }
};
template <> struct K<true> {
    using rq = msg::rqp;
    using rs = msg::rsp;
    static int v(const rq &m) { return m.payload.request_payload->v; }
    static int rv(const rs &m) { return m.payload.res ? m.payload.res->v : -1; }
};

void send_req(QSt &s, World &w, int who, int i) {
    auto &t = *s.t;
    auto &q = s.q[i];
    auto &A = *t.a[who];
    q.requester = who;
    q.interval = T_REQ + i * 7;
    q.sent = true;
    q.reply_addr = who == 2 ? A.get_address() : s.g.via == 0 ? A.get_address() : s.g.via == 1 ? s.addr2 : t.a[2]->get_address();
    bool direct = who == 2 || s.g.via == 0;
    auto to = t.a[1]->get_address();
    mc::obs("%s sends request %d", t.pa[who]->name.c_str(), i);
    (void)w;
    if (s.g.ptr)
        q.id = direct ? A.request<payload::rqp_t>(to, i).send(ms(q.interval)) : A.request_via<payload::rqp_t>(to, q.reply_addr, i).send(ms(q.interval));
    else
        q.id = direct ? A.request<payload::rq_t>(to, i).send(ms(q.interval)) : A.request_via<payload::rq_t>(to, q.reply_addr, i).send(ms(q.interval));
}

template <bool Ptr> void do_reply(QSt &s, act_t &B, int i, bool err) {
    using M = typename K<Ptr>::rq;
    auto &q = s.q[i];
    auto &m = static_cast<M &>(*q.msg);
    bool first = q.replies++ == 0;
    int val = 100 + 10 * i + q.replies;
    if (first) {
        q.first_err = err;
        if (!q.timed_out) {
            int dest = q.reply_addr == s.t->a[2]->get_address() ? 2 : 0;
            (void)dest;
        }
    }
    mc::obs("B replies %s to %d", err ? "error" : "value", i);
    if (err)
        B.reply_with_error(m, B.make_error(r::make_error_code(r::error_code_t::actor_not_linkable), {}, &m));
    else
        B.reply_to(m, val);
}

// plain message to the owner of the reply address: has to keep its place among the replies
void send_mark(QSt &s, act_t &B, int i) {
    auto &q = s.q[i];
    int dest = q.reply_addr == s.t->a[2]->get_address() ? 2 : 0;
    int tag = 1000 + s.mseq++;
    s.order_sent[dest].push_back(tag);
    B.send<payload::m1_t>(q.reply_addr, 1, tag);
}

template <bool Ptr> void on_request(QSt &s, World &w, act_t &B, typename K<Ptr>::rq &m) {
    (void)w;
    int i = K<Ptr>::v(m);
    auto &q = s.q[i];
    if (!q.sent || q.received) {
        mc::fail("P01,P03", "request-duplicate", "request %d is delivered to the responder more than once (or never sent)", i);
        return;
    }
    q.received = true;
    q.msg = &m;
    int b = i == 3 ? VALUE : s.g.beh[i];
    auto reply = [&](bool err) {
        int dest = q.reply_addr == s.t->a[2]->get_address() ? 2 : 0;
        if (q.replies == 0)
            s.order_sent[dest].push_back(i);
        do_reply<Ptr>(s, B, i, err);
    };
    send_mark(s, B, i);
    switch (b) {
    case VALUE:
        reply(false);
        break;
    case ERROR:
        reply(true);
        break;
    case TWICE:
        reply(false);
        reply(false);
        break;
    case ERR_VALUE:
        reply(true);
        reply(false);
        break;
    case DELAYED:
        B.send<payload::m2_t>(B.get_address(), 1, i);
        break;
    case STORED:
        s.stored.push_back(i);
        break;
    case NEVER:
        break;
    case VALUE_LATE:
        reply(false);
        s.stored.push_back(i);
        break;
    }
    send_mark(s, B, i);
}

template <bool Ptr> void on_response(QSt &s, World &w, int who, act_t &X, typename K<Ptr>::rs &m) {
    (void)X;
    int i = K<Ptr>::v(*m.payload.req);
    if (i < 0 || i > 3) {
        mc::fail("P03", "alien-response", "response to an unknown request");
        return;
    }
    auto &q = s.q[i];
    ++q.responses;
    auto &t = *s.t;
    if (!q.sent)
        mc::fail("P03", "alien-response", "response to request %d, which was never sent", i);
    if (q.responses > 1)
        mc::fail("P03", "second-response", "request %d got %d responses", i, q.responses);
    if (m.address != q.reply_addr || (who == 2) != (q.reply_addr == t.a[2]->get_address()))
        mc::fail("P03,P01", "wrong-reply-address", "response %d is delivered to a wrong address", i);
    if (q.received && static_cast<r::message_base_t *>(m.payload.req.get()) != q.msg.get())
        mc::fail("P03", "wrong-request", "response %d does not carry the original request", i);
    auto &ee = m.payload.ee;
    bool timeout = ee && ee->ec == r::make_error_code(r::error_code_t::request_timeout);
    if (timeout) {
        if (!q.timed_out)
            mc::fail("P03", "early-timeout", "request %d is answered with timeout, but its timer (%d ms) has not expired at %d", i, q.interval, (int)w.now);
    } else {
        if (q.timed_out)
            mc::fail("P03", "reply-after-timeout", "request %d got a reply after its timeout", i);
        if (!q.replies)
            mc::fail("P03", "reply-from-nowhere", "request %d got a reply, but was never replied", i);
        if (bool(ee) != q.first_err)
            mc::fail("P03", "wrong-outcome", "request %d: the first reply was %s, delivered %s", i, q.first_err ? "an error" : "a value", ee ? "an error" : "a value");
        int want = q.first_err ? -1 : 100 + 10 * i + 1;
        if (K<Ptr>::rv(m) != want)
            mc::fail("P03", "wrong-value", "request %d got value %d instead of %d", i, K<Ptr>::rv(m), want);
        if (ee && ee->ec != r::make_error_code(r::error_code_t::actor_not_linkable))
            mc::fail("P03", "wrong-error", "request %d got a wrong error", i);
    }
    if (!timeout)
        s.got[who].push_back(i);
    // the requester may continue
    if (s.g.chained && i == 0 && !t.pa[0]->n_shut_start)
        send_req(s, w, 0, 1);
}

void run_req(int c) {
    auto sp = std::make_shared<QSt>(c);
    auto &s = *sp;
    auto &g = s.g;
    auto &topo = qtopos[g.topo];
    auto &w = *new World(nlocs(topo));
    w.keep.push_back(sp);
    w.blame = "P03,P04,P08";
    w.k_preempt = true;
    {
        s.t.reset(new Trio(w, topo, true));
        auto &t = *s.t;
        auto conf = [&](int i) {
            t.pa[i]->conf = [&s, i](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &am) {
                    if (i == 0)
                        s.addr2 = am.create_address();
                });
                p.with_casted<r::plugin::starter_plugin_t>(
                    [&](auto &st) {
                        st.subscribe_actor(&act_t::on_m1);
                        st.subscribe_actor(&act_t::on_m2);
                        st.subscribe_actor(&act_t::on_rq);
                        st.subscribe_actor(&act_t::on_rqp);
                        st.subscribe_actor(&act_t::on_rs);
                        st.subscribe_actor(&act_t::on_rsp);
                        if (i == 0) {
                            st.subscribe_actor(&act_t::on_rs, s.addr2);
                            st.subscribe_actor(&act_t::on_rsp, s.addr2);
                            st.subscribe_actor(&act_t::on_m1, s.addr2);
                        }
                    },
                    r::plugin::config_phase_t::PREINIT);
                (void)a;
            };
        };
        for (int i = 0; i < 3; ++i)
            conf(i);
        for (int i = 0; i < 3; ++i)
            t.make(i, topo.l[i]);
        t.pa[1]->rq = [&](act_t &B, msg::rq &m) { on_request<false>(s, w, B, m); };
        t.pa[1]->rqp = [&](act_t &B, msg::rqp &m) { on_request<true>(s, w, B, m); };
        auto late = [&s](act_t &B, int i) {
            auto &q = s.q[i];
            int dest = q.reply_addr == s.t->a[2]->get_address() ? 2 : 0;
            if (q.replies == 0)
                s.order_sent[dest].push_back(i);
            if (s.g.ptr)
                do_reply<true>(s, B, i, false);
            else
                do_reply<false>(s, B, i, false);
        };
        t.pa[1]->m2 = [&s, late](act_t &B, msg::m2 &m) {
            late(B, m.payload.seq);
            send_mark(s, B, m.payload.seq);
        };
        for (int x : {0, 2}) {
            t.pa[x]->rs = [&s, &w, x](act_t &X, msg::rs &m) { on_response<false>(s, w, x, X, m); };
            t.pa[x]->rsp = [&s, &w, x](act_t &X, msg::rsp &m) { on_response<true>(s, w, x, X, m); };
            t.pa[x]->m1 = [&s, x](act_t &, msg::m1 &m) { s.got[x].push_back(m.payload.seq); };
        }
        w.on_fire = [&s, &w](const TimerRec &tr) {
            for (auto &q : s.q)
                if (q.sent && q.interval == tr.interval && q.id == tr.id) {
                    q.timed_out = true;
                    if (w.now < tr.deadline)
                        abort();
                }
        };
        w.boot_quietly();
        w.op("requests", [&] {
            w.as(*t.pa[0]->loc, [&] {
                send_req(s, w, 0, 0);
                for (int i = 1; i < g.n && !g.chained; ++i)
                    send_req(s, w, 0, i);
            });
        });
        if (g.second)
            w.op("request of C", [&] {
                if (!t.pa[2]->n_shut_finish)
                    w.as(*t.pa[2]->loc, [&] { send_req(s, w, 2, 3); });
            });
        bool on_demand = false;
        for (int i = 0; i < g.n; ++i)
            on_demand |= g.beh[i] == STORED || g.beh[i] == VALUE_LATE;
        if (on_demand)
            w.inj("B replies to the stored requests", *t.pa[1]->loc,
                  [&s, &t, late] {
                      while (!s.stored.empty()) {
                          int i = s.stored.back();
                          s.stored.pop_back();
                          late(*t.a[1], i);
                          send_mark(s, *t.a[1], i);
                      }
                  },
                  [&s, &t] {
                      size_t n = 0;
                      for (int i = 0; i < s.g.n; ++i)
                          n += s.g.beh[i] == STORED || s.g.beh[i] == VALUE_LATE;
                      return !t.pa[1]->n_shut_start && !s.stored.empty() && (s.stored.size() == n || s.g.chained);
                  },
                  true);
        if (g.victim == REQUESTER || g.victim == RESPONDER) {
            int x = g.victim == REQUESTER ? 0 : 1;
            w.inj("shutdown of " + t.pa[x]->name, *t.pa[x]->loc, [&t, x] { t.a[x]->do_shutdown(); }, [&s, &t, x] { return s.q[0].sent && !t.pa[x]->n_shut_start && t.a[x]; });
        } else if (g.victim == REQ_SUP) {
            w.inj("shutdown of the supervisor of A", *t.pa[0]->loc, [&t] { t.sup[t.pa[0]->loc->idx]->do_shutdown(); },
                  [&s, &t] { return s.q[0].sent && !t.pa[0]->parent->n_shut_start && t.a[0]; });
        }
        w.invariant = [&s, &w, &t] {
            if (!w.idle())
                return;
            for (int i = 0; i < 4; ++i) {
                auto &q = s.q[i];
                if (!q.sent)
                    continue;
                bool alive = !t.pa[q.requester]->n_shut_start, target_alive = q.reply_addr == t.a[q.requester]->get_address() || q.reply_addr == s.addr2 || !t.pa[2]->n_shut_start;
                if (!alive || !target_alive)
                    continue;
                bool due = q.replies || q.timed_out;
                if (due && q.responses != 1)
                    mc::fail("P03", "no-response", "all loops are idle: request %d is replied %d times (timed out: %d), but got %d responses", i, q.replies,
                             q.timed_out, q.responses);
                size_t armed = 0;
                for (auto &l : w.locs)
                    for (auto &tr : l.timers)
                        armed += tr.interval == q.interval;
                if (armed != size_t(!due))
                    mc::fail("P03", "request-timer", "all loops are idle: request %d has %zu armed timers (replied %d, timed out %d)", i, armed, q.replies,
                             q.timed_out);
            }
        };
        w.run();
        if (!w.stop()) {
            for (int i = 0; i < 4; ++i) {
                auto &q = s.q[i];
                bool expected = i == 3 ? g.second : i < g.n && (!g.chained || i == 0 || s.q[0].responses);
                bool may_not = g.victim != NOBODY;
                if (expected && !may_not && (!q.sent || q.responses != 1))
                    mc::fail("P03", "no-outcome", "the system is quiescent, request %d got %d responses", i, q.responses);
            }
            // order of what B sent to each destination
            for (int d : {0, 2}) {
                auto &want = s.order_sent[d];
                auto &got = s.got[d];
                // a reply redirected to another event loop than the requester's one makes a detour (via supervisor of the requester):
                // it is ordered with other replies only
                bool detour = d == 2 && topo.l[2] != topo.l[0];
                for (int part = 0; part < 2; ++part) {
                    auto in_part = [&](int x) { return !detour || (x >= 3) == (part == 1); }; // #3 is the own request of C
                    size_t k = 0;
                    for (size_t j = 0; j < got.size(); ++j) {
                        if (!in_part(got[j]))
                            continue;
                        size_t f = k;
                        while (f < want.size() && want[f] != got[j])
                            ++f;
                        if (f == want.size())
                            mc::fail("P02", "reply-reordered", "%s received #%d of B out of the order of sending", d ? "C" : "A", got[j]);
                        else
                            k = f + 1;
                    }
                }
                if (g.victim == NOBODY) {
                    size_t marks = 0, gm = 0;
                    for (int x : want)
                        marks += x >= 1000;
                    for (int x : got)
                        gm += x >= 1000;
                    if (marks != gm)
                        mc::fail("P01", "lost", "%zu of %zu messages are delivered", gm, marks);
                }
            }
        }
        for (auto &q : s.q) {
            q.msg.reset();
            q.reply_addr.reset();
        }
        s.addr2.reset();
        w.invariant = {};
        for (auto &x : t.a)
            x.reset();
    }
    sp.reset();
    w.end();
}
std::string desc_req(int c) {
    QCfg g(c);
    std::string r = "localities of A(requester),B(responder),C=";
    for (int l : qtopos[g.topo].l)
        r += char('0' + l);
    r += g.ptr ? "; intrusive payload" : "; by-value payload";
    r += g.chained ? "; 2 chained requests" : "; " + std::to_string(g.n) + " request(s) at once";
    r += g.via == 0 ? "" : g.via == 1 ? " via second address of A" : " via C";
    r += g.second ? "; C sends a request, too" : "";
    r += "; B replies:";
    for (int i = 0; i < g.n; ++i)
        r += std::string(i ? ", " : " ") + beh_name[g.beh[i]];
    static const char *v[] = {"", "; A is shut down", "; B is shut down", "; the supervisor of A is shut down"};
    return r + v[g.victim];
}
mc::Reg r1({"req.pair", {"P03", "P02", "P04", "P24", "P17", "P01"}, [](mc::Tier) { return int(qlist(false).size()); },
            [](int c) { run_req(qlist(false)[c]); }, [](int c) { return desc_req(qlist(false)[c]); }, 1, 2, 1, 0});
mc::Reg r2({"req.deep", {"P03", "P02", "P04"}, [](mc::Tier t) { return t == mc::Tier::quick ? 0 : int(qlist(true).size()); },
            [](int c) { run_req(qlist(true)[c]); }, [](int c) { return desc_req(qlist(true)[c]); }, 1, 1, 1, 0});
} // namespace
