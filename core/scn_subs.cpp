// P15 subscriptions, changed at run time
#include "trio.hpp"
using namespace h;

namespace {

struct Inst { // one subscription
    int h;
    r::subscription_info_ptr_t info;
    const r::handler_base_t *h0 = nullptr, *h1 = nullptr; // the handler (and its tagged version)
    int64_t req = -1, conf = -1, unreq = -1, unconf = -1;
    int n_conf = 0, n_unconf = 0;
};
struct Msg {
    int type;
    int64_t sent = -1, processed = -1; // moment of delivery at the address
    int n_observer = 0;
    std::vector<int64_t> got[4]; // per handler of the subscriber
};
struct Book {
    World *w = nullptr;
    address_ptr_t T; // the address
    std::deque<Inst> insts;
    std::deque<Msg> msgs;
    int alien = 0;
    Inst *active(int h) { // subscribed and not asked to be unsubscribed
        for (auto &i : insts)
            if (i.h == h && i.unreq < 0)
                return &i;
        return nullptr;
    }
    Inst *by_handler(const r::handler_base_t *p) {
        for (auto &i : insts)
            if (i.h0 == p || i.h1 == p)
                return &i;
        return nullptr;
    }
    void got(int h, int type, const msg::m1 *m1, const msg::m2 *m2) {
        int seq = m1 ? m1->payload.seq : m2->payload.seq;
        auto addr = m1 ? m1->address.get() : m2->address.get();
        if (seq < 0 || seq >= int(msgs.size()) || msgs[seq].type != type || addr != T.get()) {
            mc::fail("P15,P01", "alien-message", "handler %d is called with a message, which was never sent to its address", h);
            return;
        }
        auto &m = msgs[seq];
        m.got[h].push_back(++w->seq);
        // never without a subscription
        size_t upper = 0;
        bool any_late = false;
        for (auto &i : insts)
            if (i.h == h && i.req >= 0) {
                if (i.unconf < 0)
                    ++upper;
                else if (m.processed >= 0 && i.unconf > m.processed)
                    ++upper;
                any_late |= i.unconf >= 0;
            }
        bool alive = false;
        for (auto &i : insts)
            alive |= i.h == h && i.unconf < 0;
        if (!alive)
            mc::fail("P15", any_late ? "after-unsubscription" : "unsubscribed", "handler %d received message #%d %s", h, seq,
                     any_late ? "after its unsubscription had been confirmed" : "without a subscription");
        else if (m.got[h].size() > upper)
            mc::fail("P15,P01", "duplicate", "handler %d received message #%d %zu times, although it is subscribed %zu time(s)", h, seq, m.got[h].size(), upper);
    }
    void final() {
        for (size_t n = 0; n < msgs.size(); ++n) {
            auto &m = msgs[n];
            if (m.n_observer != 1) {
                mc::fail("P15,P01", "observer", "message #%zu is delivered %d times to an always subscribed handler of another actor", n, m.n_observer);
                continue;
            }
            for (int h = 0; h < 4; ++h) {
                size_t lower = 0, upper = 0;
                for (auto &i : insts) {
                    if (i.h != h || (h == 2) != (m.type == 2))
                        continue;
                    bool before = i.conf >= 0 && i.conf < m.sent;
                    // forwarded by the foreign supervisor for the previous subscription of the same handler, and handled by the new one
                    bool maybe = i.req < (local || m.got[h].empty() ? m.processed : m.got[h].back());
                    bool ended = i.unconf >= 0 && i.unconf < m.processed;
                    bool ending = i.unreq >= 0;
                    if (maybe && !ended)
                        ++upper;
                    if (before && !ended && (!ending || (i.unreq > m.processed && local)))
                        ++lower;
                }
                if (m.got[h].size() < lower)
                    mc::fail("P15,P01", "lost", "handler %d is subscribed, but message #%zu is delivered to it %zu times instead of %zu", h, n, m.got[h].size(),
                             lower);
                if (m.got[h].size() > upper)
                    mc::fail("P15", "duplicate", "message #%zu is delivered %zu times to handler %d, at most %zu expected", n, m.got[h].size(), h, upper);
            }
        }
    }
    void confirmations() {
        for (auto &i : insts) {
            if (i.n_conf != 1)
                mc::fail("P15", "confirmation", "the subscription of handler %d is confirmed %d times", i.h, i.n_conf);
            int expect = i.unreq >= 0 ? 1 : 0;
            if (i.n_unconf != expect)
                mc::fail("P15", "unsub-confirmation", "the unsubscription of handler %d is confirmed %d times instead of %d", i.h, i.n_unconf, expect);
        }
    }
    bool local = true;
};

// sees all confirmations, which arrive to the actor
struct spy_plugin_t : r::plugin::plugin_base_t {
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    void activate(r::actor_base_t *a) noexcept override {
        plugin_base_t::activate(a);
        reaction_on(reaction_t::SUBSCRIPTION);
    }
    bool handle_subscription(r::message::subscription_t &m) noexcept override;
    bool handle_unsubscription(const r::subscription_point_t &point, bool external) noexcept override;
};
const std::type_index spy_plugin_t::class_identity = typeid(spy_plugin_t);

struct subs_t : probed_t<act_base> {
    using config_t = act_cfg;
    template <typename A> using config_builder_t = act_builder<A>;
    using probed_t<act_base>::probed_t;
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t,
                                      r::plugin::resources_plugin_t, r::plugin::starter_plugin_t, spy_plugin_t>;
    std::shared_ptr<Book> B;
    std::function<void(int)> react;
    void handle(int h, const msg::m1 *m1, const msg::m2 *m2) {
        P->check("handler");
        mc::obs("A.h%d(%d)", h, m1 ? m1->payload.seq : m2->payload.seq);
        if (!B)
            return;
        B->got(h, m1 ? 1 : 2, m1, m2);
        if (react) {
            auto fn = std::move(react);
            react = {};
            fn(h);
        }
    }
    void on_x0(msg::m1 &m) noexcept { handle(0, &m, nullptr); }
    void on_x1(msg::m1 &m) noexcept { handle(1, &m, nullptr); }
    void on_y(msg::m2 &m) noexcept { handle(2, nullptr, &m); }
    template <typename F> r::subscription_info_ptr_t sub_as(int h, const address_ptr_t &T, F &&fn) {
        switch (h) {
        case 0:
            return fn(&subs_t::on_x0, T);
        case 1:
            return fn(&subs_t::on_x1, T);
        case 2:
            return fn(&subs_t::on_y, T);
        default:
            return fn(r::lambda<msg::m1>([this](msg::m1 &m) noexcept { handle(3, &m, nullptr); }), T);
        }
    }
    void record(int h, r::subscription_info_ptr_t info, bool tag) {
        B->insts.push_back({h, info});
        auto &i = B->insts.back();
        i.h0 = info->handler.get();
        if (tag)
            info->tag_io();
        i.h1 = info->handler.get();
        i.req = ++P->w->seq;
        mc::obs("A subscribes h%d", h);
    }
    void toggle(int h, bool tag, bool by_pointer) {
        auto i = B->active(h);
        if (!i) {
            record(h, sub_as(h, B->T, [this](auto &&fn, const address_ptr_t &T) { return subscribe(std::move(fn), T); }), tag);
            return;
        }
        i->unreq = ++P->w->seq;
        mc::obs("A unsubscribes h%d", h);
        address_ptr_t addr = B->T;
        bool mine = addr.get() == address.get();
        if (by_pointer && h != 3) {
            switch (h) {
            case 0:
                mine ? unsubscribe(&subs_t::on_x0) : unsubscribe(&subs_t::on_x0, addr);
                break;
            case 1:
                mine ? unsubscribe(&subs_t::on_x1) : unsubscribe(&subs_t::on_x1, addr);
                break;
            case 2:
                mine ? unsubscribe(&subs_t::on_y) : unsubscribe(&subs_t::on_y, addr);
                break;
            }
        } else if (mine)
            unsubscribe(i->info->handler);
        else
            static_cast<r::plugin::lifetime_plugin_t *>(get_plugin(r::plugin::lifetime_plugin_t::class_identity))->unsubscribe(i->info->handler, addr);
    }
};

bool spy_plugin_t::handle_subscription(r::message::subscription_t &m) noexcept {
    auto a = static_cast<subs_t *>(actor);
    auto &p = m.payload.point;
    if (a->B)
        if (auto i = a->B->by_handler(p.handler.get())) {
            mc::obs("A: h%d is subscribed", i->h);
            if (!i->n_conf++)
                i->conf = ++a->P->w->seq;
        }
    return false;
}
bool spy_plugin_t::handle_unsubscription(const r::subscription_point_t &p, bool) noexcept {
    auto a = static_cast<subs_t *>(actor);
    if (a && a->B)
        if (auto i = a->B->by_handler(p.handler.get())) {
            mc::obs("A: h%d is unsubscribed", i->h);
            if (!i->n_unconf++)
                i->unconf = ++a->P->w->seq;
        }
    return false;
}

struct subs_builder_access {};

// ownership: which supervisor has A, which one has the address
struct STopo {
    const char *name;
    int nl;
    int sa, la; // supervisor of A (0 root, 1 second), its locality
    int st;     // supervisor of the address' owner B: 0 root, 1 second, -1: own address of A
};
static const STopo stopos[] = {
    {"own address of an actor of root", 1, 0, 0, -1},
    {"own address of an actor of a child supervisor of the same loop", 1, 1, 0, -1},
    {"address of an actor of the same supervisor", 1, 0, 0, 0},
    {"address of an actor of another supervisor of the same loop", 1, 1, 0, 0},
    {"address in another loop, subscriber in the child supervisor", 2, 1, 1, 0},
    {"address in another loop, subscriber in root", 2, 0, 0, 1},
};

void run_prog(int c, int nops) {
    Cfg g(c);
    auto &tp = stopos[g(6)];
    bool burst = g(2), initial = g(2), tag = g(2), by_pointer = g(2);
    int leave = g(4); // 0 root goes down, 1 the subscriber goes down first, 2 its supervisor goes down and is released, 3 as 1, but it holds a resource first
    int prog[4];
    for (int i = 0; i < nops; ++i)
        prog[i] = g(5);
    auto &w = *new World(tp.nl);
    w.blame = "P15,P08";
    {
        auto B = std::make_shared<Book>();
        w.keep.push_back(B);
        auto b = B.get();
        B.reset();
        b->w = &w;
        SupOpt o;
        o.plain = true;
        auto &ps0 = w.probe("root"), &ps1 = w.probe("sup1"), &pa = w.probe("A"), &po = w.probe("O"), &pb = w.probe("B");
        msup_t *sup[2] = {make_root(w, ps0, 0, o), nullptr};
        sup[1] = make_sup(w, ps1, tp.nl - 1, *sup[0], o);
        msup_t *sa = sup[tp.sa], *st = tp.st < 0 ? sa : sup[tp.st];
        b->local = sa->loc == st->loc;
        auto act_b = make_act(w, pb, *st);
        if (tp.st >= 0)
            b->T = act_b->get_address();
        pa.loc = sa->loc;
        pa.parent = sa->P;
        pa.conf = [b, initial, tag, T = b->T](r::actor_base_t &act, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                auto &a = static_cast<subs_t &>(act);
                if (!b->T)
                    b->T = act.get_address();
                if (!initial)
                    return;
                for (int h : {0, 1})
                    a.record(h, a.sub_as(h, b->T, [&](auto &&fn, const address_ptr_t &T) { return s.subscribe_actor(std::move(fn), T); }), tag);
            });
        };
        auto act_a = sa->create_actor<subs_t>().init_timeout(ms(T_INIT)).shutdown_timeout(ms(T_SHUT)).probe(&pa).finish();
        act_a->B = std::static_pointer_cast<Book>(w.keep.back());
        if (tp.st < 0)
            b->T = act_a->get_address();
        // always subscribed
        po.conf = [T = b->T](r::actor_base_t &, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                s.subscribe_actor(&act_t::on_m1, T);
                s.subscribe_actor(&act_t::on_m2, T);
            });
        };
        po.m1 = [b](act_t &, msg::m1 &m) { ++b->msgs[m.payload.seq].n_observer, b->msgs[m.payload.seq].processed = ++b->w->seq; };
        po.m2 = [b](act_t &, msg::m2 &m) { ++b->msgs[m.payload.seq].n_observer, b->msgs[m.payload.seq].processed = ++b->w->seq; };
        auto act_o = make_act(w, po, *st);
        w.boot_quietly();
        auto send = [b, &po](int type) {
            if (!po.ptr || po.n_shut_start)
                return;
            int seq = int(b->msgs.size());
            b->msgs.push_back({type, ++b->w->seq});
            mc::obs("O sends m%d #%d", type, seq);
            if (type == 1)
                static_cast<act_t *>(po.ptr)->send<payload::m1_t>(b->T, 0, seq);
            else
                static_cast<act_t *>(po.ptr)->send<payload::m2_t>(b->T, 0, seq);
        };
        auto toggle = [&pa, tag, by_pointer](int h) {
            if (pa.ptr && !pa.n_shut_start)
                static_cast<subs_t *>(pa.ptr)->toggle(h, tag, by_pointer);
        };
        auto one = [=, &w, &pa](int k) {
            switch (k) {
            case 0:
            case 1:
                w.as(*sa->loc, [&]() { toggle(k); });
                break;
            case 2:
                w.as(*sa->loc, [&]() { toggle(2), toggle(3); });
                break;
            case 3:
                w.as(*st->loc, [&]() { send(1), send(2); });
                break;
            case 4: // the subscription is changed by the handler itself
                if (pa.ptr)
                    static_cast<subs_t *>(pa.ptr)->react = [=, &pa](int h) {
                        toggle(h == 0 ? 1 : 0);
                        toggle(3);
                        if (h != 2)
                            toggle(h);
                    };
                w.as(*st->loc, [&]() { send(1); });
                break;
            }
        };
        static const char *on[] = {"toggle 0", "toggle 1", "toggle 2 and 3", "send", "send, with reaction"};
        auto done = std::make_shared<int>(0);
        w.keep.push_back(done);
        auto dp = done.get();
        done.reset();
        if (burst)
            w.op("program", [&, one]() {
                for (int i = 0; i < nops; ++i)
                    one(prog[i]);
            });
        else
            for (int i = 0; i < nops; ++i)
                w.inj(on[prog[i]], prog[i] < 3 ? *sa->loc : *st->loc, [=]() { one(prog[i]), ++*dp; }, [=]() { return *dp == i; }, true);
        w.run();
        if (!w.stop())
            b->confirmations();
        if (!w.stop()) { // who is subscribed now?
            w.k_explore = false;
            w.as(*st->loc, [&]() { send(1), send(2); });
            w.run();
            if (!w.stop())
                b->final();
            w.k_explore = true;
        }
        for (auto &i : b->insts)
            i.info.reset();
        act_a.reset();
        act_o.reset();
        act_b.reset();
        if (leave && !w.stop()) {
            bool own_sup = leave == 2 && tp.sa == 1;
            if (own_sup)
                w.as(*sup[1]->loc, [&]() { sup[1]->shutdown(); });
            else if (pa.ptr) {
                if (leave == 3) // it waits, and it is still subscribed
                    w.as(*sa->loc, [&]() { static_cast<subs_t *>(pa.ptr)->resources->acquire(0); });
                w.as(*sa->loc, [&]() { static_cast<subs_t *>(pa.ptr)->do_shutdown(); });
                if (leave == 3) {
                    w.k_explore = w.k_idle_timers = false;
                    w.run();
                    w.k_explore = true;
                    w.as(*st->loc, [&]() { send(1), send(2); });
                    w.run();
                    w.k_idle_timers = true;
                    if (!w.stop() && (!pa.n_shut_start || pa.down()))
                        mc::fail("P15,P13", "not-waiting", "the subscriber holds a resource, but it does not wait for its release");
                    if (!w.stop())
                        b->final();
                    if (!w.stop())
                        w.as(*sa->loc, [&]() { static_cast<subs_t *>(pa.ptr)->resources->release(0); });
                }
            }
            if (tp.st >= 0) // while it goes down
                w.as(*st->loc, [&]() { send(1); });
            w.run();
            if (!w.stop() && !pa.down())
                mc::fail("P15,P08", "stuck", "the subscriber does not finish its shutdown");
            if (!w.stop() && tp.st >= 0) {
                if (own_sup) {
                    w.locs[tp.nl - 1].leader = tp.nl == 1 ? w.locs[0].leader : nullptr;
                    w.sups.pop_back();
                    if (ps1.ptr)
                        mc::fail("P15,P17", "supervisor-kept", "the released supervisor of the unsubscribed actor is not destroyed");
                    if (pa.ptr)
                        mc::fail("P15,P17", "subscriber-kept", "the subscriber is shut down, released with its supervisor, and still not destroyed: "
                                                               "a stale subscription keeps it");
                } else if (pa.ptr)
                    mc::fail("P15,P17", "subscriber-kept", "the subscriber is shut down and released, but not destroyed: a stale subscription keeps it");
                size_t at = b->msgs.size();
                if (!w.stop()) {
                    w.as(*st->loc, [&]() { send(1), send(2); });
                    w.run();
                }
                for (size_t i = at; i < b->msgs.size() && !w.stop(); ++i)
                    if (b->msgs[i].n_observer != 1)
                        mc::fail("P15,P01", "observer", "message #%zu is delivered %d times to the always subscribed handler after the other subscriber has gone", i,
                                 b->msgs[i].n_observer);
            }
        }
        b->T.reset();
    }
    w.end();
}
std::string desc_prog(int c, int nops) {
    Cfg g(c);
    std::string s = stopos[g(6)].name;
    if (g(2))
        s += "; all at once";
    if (g(2))
        s += "; initially subscribed by starter plugin";
    if (g(2))
        s += "; tagged handlers";
    if (g(2))
        s += "; unsubscription by member function";
    static const char *lv[] = {"root goes down", "the subscriber goes down first", "the subscriber's supervisor goes down first",
                               "the subscriber goes down first and waits for a resource"};
    s += "; ";
    s += lv[g(4)];
    static const char *on[] = {"toggle 0", "toggle 1", "toggle 2 and 3", "send", "send with reaction"};
    for (int i = 0; i < nops; ++i)
        s += std::string("; ") + on[g(5)];
    return s;
}
mc::Reg r1({"subs.prog", {"P15", "P17", "P24"}, [](mc::Tier) { return 6 * 16 * 4 * 125; }, [](int c) { run_prog(c, 3); }, [](int c) { return desc_prog(c, 3); }, 2, 3, 1, 0});
mc::Reg r2({"subs.long", {"P15"}, [](mc::Tier t) { return t == mc::Tier::quick ? 0 : 6 * 16 * 4 * 625; }, [](int c) { run_prog(c, 4); }, [](int c) { return desc_prog(c, 4); }, 1, 2, 1, 0});

} // namespace
