// P16 routed and redirected messages
#include "trio.hpp"
using namespace h;

namespace {

struct RMsg {
    int kind;                       // program step
    int n_first[3] = {0, 0, 0};     // handlers at the first address: B, D (foreign or local), second one of B
    int n_second = 0, n_third = 0, n_second_b = 0;
    int64_t last_first = -1, second = -1, third = -1;
    bool sent = false, redirect = false, redirect_next = false;
};
struct RBook {
    World *w;
    std::deque<RMsg> m;
    address_ptr_t first, second, third, virt;
    bool b_first = false, d_first = false, b2_first = false;
    bool b_down = false, d_down = false; // asked to shut down
};

void run_route(int c) {
    Cfg g(c);
    auto &tp = topos[g(7)];
    int subs = g(8);      // who is subscribed to the first address: bit 0 B, bit 1 D, bit 2 the second handler of B
    int dloc = g(2);      // D lives in the loop of A / in the loop of C
    bool plain = g(2);
    int second_at = g(3); // second address: C's own, virtual one of B, A's own (the sender)
    int redir = g(3);     // the handler of the second address redirects: no, to the third one, to the third and then back to the second
    int down = g(3);      // nobody / B / D goes down somewhere in between
    auto &w = *new World(nlocs(tp));
    w.blame = "P16";
    w.k_preempt = true;
    {
        auto K = std::make_shared<RBook>();
        w.keep.push_back(K);
        auto k = K.get();
        K.reset();
        k->w = &w;
        Trio t(w, tp, plain);
        int dl = dloc ? tp.l[2] : tp.l[0];
        auto first_handler = [k](int who) {
            return [k, who](act_t &, msg::m1 &m) {
                auto &x = k->m[m.payload.seq];
                if (m.address.get() != k->first.get())
                    return;
                if (++x.n_first[who] > 1)
                    mc::fail("P16,P01", "first-twice", "message #%d is delivered twice to the handler %d at its first address", m.payload.seq, who);
                x.last_first = ++k->w->seq;
                if (x.n_second)
                    mc::fail("P16", "order", "message #%d is delivered to its second address before it is delivered to all handlers of the first one", m.payload.seq);
            };
        };
        auto later = [k, redir](act_t &self, msg::m1 &m) {
            auto &x = k->m[m.payload.seq];
            if (m.address.get() == k->second.get()) {
                ++x.n_second;
                x.second = ++k->w->seq;
                if (x.n_second == 1 && redir)
                    self.redirect(&m, k->third, redir == 2 ? k->second : address_ptr_t{});
            } else if (m.address.get() == k->third.get()) {
                ++x.n_third;
                x.third = ++k->w->seq;
            } else if (m.address.get() != k->first.get())
                mc::fail("P16", "alien", "message #%d is delivered with a wrong address", m.payload.seq);
        };
        Probe &pa = *t.pa[0], &pb = *t.pa[1], &pc = *t.pa[2], &pd = *t.pa[3];
        // addresses
        pb.at_ctor_init = {};
        auto b_conf = [k, subs, second_at](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &pl) {
                if (!k->virt)
                    k->virt = pl.create_address();
            });
            p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                if (k->first) {
                    if (subs & 1)
                        s.subscribe_actor(&act_t::on_m1, k->first);
                    if (subs & 4)
                        s.subscribe_actor(r::lambda<msg::m1>([self = static_cast<act_t *>(&a)](msg::m1 &m) { self->on_m1b(m); }), k->first);
                    if (second_at == 1)
                        s.subscribe_actor(&act_t::on_m1, k->virt);
                }
            });
        };
        pb.conf = [k, b_conf](r::actor_base_t &a, r::plugin::plugin_base_t &p) {
            if (!k->first && p.identity() == r::plugin::starter_plugin_t::class_identity)
                k->first = a.get_address();
            b_conf(a, p);
        };
        t.make(1, tp.l[1]);
        k->first = t.a[1]->get_address();
        auto listen = [k](int what) { // 1 second, 2 third
            return [k, what](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                    if (what & 1)
                        s.subscribe_actor(&act_t::on_m1, k->second);
                    if (what & 2)
                        s.subscribe_actor(&act_t::on_m1, k->third);
                }, r::plugin::config_phase_t::INITIALIZING);
            };
        };
        pa.conf = listen(second_at == 2 ? 1 : 2);
        pc.conf = listen(second_at == 2 ? 2 : second_at == 1 ? 0 : 1);
        t.make(0, tp.l[0]);
        t.make(2, tp.l[2]);
        k->second = second_at == 0 ? t.a[2]->get_address() : second_at == 1 ? k->virt : t.a[0]->get_address();
        k->third = second_at == 2 ? t.a[2]->get_address() : t.a[0]->get_address();
        if (subs & 2) {
            pd.conf = [k](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&act_t::on_m1, k->first); });
            };
            pd.m1 = first_handler(1);
            t.make(3, dl);
        }
        pb.m1 = [fh = first_handler(0), later, k](act_t &s, msg::m1 &m) {
            fh(s, m);
            if (m.address.get() != k->first.get())
                later(s, m);
        };
        t.a[1]->m1b = first_handler(2);
        pa.m1 = later;
        pc.m1 = later;
        w.boot_quietly();
        for (auto p : {&pa, &pb, &pc})
            if (!p->started())
                mc::fail("P07", "not-operational", "%s is not operational", p->name.c_str());
        int n = 0;
        auto route = [k, &pa](int kind) {
            auto A = static_cast<act_t *>(pa.ptr);
            k->m.push_back({kind});
            int seq = int(k->m.size()) - 1;
            k->m.back().sent = true;
            mc::obs("A routes #%d", seq);
            if (kind == 0)
                A->route<payload::m1_t>(k->first, k->second, 0, seq);
            else { // the premade message
                auto msg = r::make_message<payload::m1_t>(k->first, 0, seq);
                A->redirect(std::move(msg), k->first, k->second);
            }
        };
        w.op("A routes two messages", [&]() {
            w.as(*pa.loc, [&]() {
                if (pa.ptr && !pa.n_shut_start)
                    route(0), route(1);
            });
        });
        (void)n;
        if (down) {
            Probe *p = down == 1 ? &pb : &pd;
            if (p->ptr)
                w.inj(down == 1 ? "B goes down" : "D goes down", *p->loc, [p, k, down]() {
                    (down == 1 ? k->b_down : k->d_down) = true;
                    if (p->ptr && !p->down()) // nobody else keeps it
                        static_cast<act_t *>(p->ptr)->do_shutdown();
                });
        }
        w.run();
        if (!w.stop()) {
            for (size_t i = 0; i < k->m.size(); ++i) {
                auto &x = k->m[i];
                bool sub[3] = {(subs & 1) && !k->b_down, (subs & 2) && !k->d_down, (subs & 4) && !k->b_down};
                bool may[3] = {(subs & 1) != 0, (subs & 2) != 0, (subs & 4) != 0};
                for (int j = 0; j < 3; ++j)
                    if (x.n_first[j] > may[j] || x.n_first[j] < sub[j])
                        mc::fail("P16,P01", "first", "routed message #%zu is delivered %d times to the handler %d of its first address, %d expected", i, x.n_first[j], j,
                                 int(sub[j]));
                int want = redir == 2 ? 2 : 1, want3 = redir ? 1 : 0;
                bool loose = second_at == 1 && k->b_down;
                if (loose ? x.n_second > want : x.n_second != want)
                    mc::fail("P16", x.n_second < want ? "lost" : "duplicate", "routed message #%zu is delivered %d times to its second address instead of %d", i, x.n_second,
                             want);
                if (loose ? x.n_third > want3 : x.n_third != want3)
                    mc::fail("P16", "redirect", "message #%zu is redirected once, but delivered %d times to its new address", i, x.n_third);
            }
        }
        for (auto &x : t.a)
            x.reset();
        k->first.reset(), k->second.reset(), k->third.reset(), k->virt.reset();
    }
    w.end();
}
std::string desc_route(int c) {
    Cfg g(c);
    int tp = g(7), subs = g(8), dl = g(2), pl = g(2), se = g(3), re = g(3), dn = g(3);
    static const char *sa[] = {"C", "virtual address of B", "A"}, *rd[] = {"", ", redirected to a third one", ", redirected to a third one and back"},
                      *dd[] = {"", "; B goes down", "; D goes down"};
    char b[300];
    snprintf(b, sizeof b, "localities of A,B,C=%d%d%d; first address: B%s%s%s; D with %s; second address: %s%s%s; %s delivery", topos[tp].l[0], topos[tp].l[1],
             topos[tp].l[2], subs & 1 ? " +B" : "", subs & 2 ? " +D" : "", subs & 4 ? " +B'" : "", dl ? "C" : "A", sa[se], rd[re], dd[dn],
             pl ? "plain" : "inspected");
    return b;
}
mc::Reg r1({"route.prog", {"P16", "P17", "P24"}, [](mc::Tier) { return 7 * 8 * 2 * 2 * 3 * 3 * 3; }, run_route, desc_route, 1, 3, 1, 0});

} // namespace
