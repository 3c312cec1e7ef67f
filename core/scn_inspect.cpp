// P27: inspected deliveries
#ifdef BW_INSPECT
#include "trio.hpp"
#include <cstring>
#include <iostream>
#include <streambuf>
using namespace h;

namespace {
char env_var[] = "ROTOR_INSPECT_DELIVERY=\0\0\0\0\0\0\0";

struct Lines { // what has been reported on stdout
    struct {
        int delivered = 0, discarded = 0;
    } n[4]; // m1, m2, rq, rs
    int total = 0, strange = 0, above = 0, threshold = 0;
    std::string example;
};
Lines *lines = nullptr;

struct Sink final : std::streambuf {
    char buf[4096];
    size_t len = 0;
    void put(char c) {
        if (c != '\n') {
            if (len + 1 < sizeof buf)
                buf[len++] = c;
            return;
        }
        buf[len] = 0;
        len = 0;
        line();
    }
    void line() {
        if (mc::verbose)
            printf("    %s\n", buf);
        if (!lines)
            return;
        mc::ArenaOff off;
        auto &l = *lines;
        ++l.total;
        bool del = !strncmp(buf, ">> {", 4), dis = !strncmp(buf, "<DISCARDED> {", 13);
        const char *p = buf + (del ? 4 : 13);
        char *end = nullptr;
        long level = del || dis ? strtol(p, &end, 10) : -1;
        if (!(del || dis) || end == p || strncmp(end, "} ", 2)) {
            ++l.strange;
            return;
        }
        if (level > l.threshold)
            ++l.above;
        if (level == 0) { // messages of the user
            int k = strstr(end, "rq_t") ? strstr(end, "response") ? 3 : 2 : strstr(end, "m2_t") ? 1 : strstr(end, "m1_t") ? 0 : -1;
            if (k >= 0)
                ++(del ? l.n[k].delivered : l.n[k].discarded);
        }
    }
    int overflow(int c) override {
        put(char(c));
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        for (std::streamsize i = 0; i < n; ++i)
            put(s[i]);
        return n;
    }
} the_sink;

const char *const thresholds[] = {nullptr, "-1", "0", "1", "5", "9", "15", "20", "99"};

void run_lines(int c) {
    Cfg g(c);
    auto &tp = topos[g(7)];
    int lvl = g(9);
    bool foreign = g(2), gone = g(2);
    auto &w = *new World(nlocs(tp));
    w.blame = "P27";
    w.k_preempt = true;
    Lines L, want;
    L.threshold = thresholds[lvl] ? atoi(thresholds[lvl]) : -1000;
    inspect_level(thresholds[lvl]);
    lines = &L;
    {
        bool on = L.threshold >= 0;
        Trio t(w, tp, false);
        address_ptr_t nobody;
        int handled[4] = {};
        auto seen = [&](int k, const char *what) {
            ++handled[k];
            if (on && L.n[k].delivered < handled[k])
                mc::fail("P27", "unreported", "%s is delivered, but only %d of %d are reported", what, L.n[k].delivered, handled[k]);
        };
        for (int i = 0; i < 3; ++i)
            t.pa[i]->conf = [&nobody, i](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &pl) {
                    if (i == 1 && !nobody)
                        nobody = pl.create_address();
                });
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
                    s.subscribe_actor(&act_t::on_m1);
                    if (i == 0) {
                        s.subscribe_actor(&act_t::on_m2);
                        s.subscribe_actor(&act_t::on_rs);
                    }
                    if (i == 1)
                        s.subscribe_actor(&act_t::on_rq);
                });
            };
        for (int i = 0; i < 3; ++i)
            t.make(i, tp.l[i]);
        auto A = t.a[0]->get_address(), B = t.a[1]->get_address(), C = t.a[2]->get_address();
        if (foreign) {
            t.pa[3]->conf = [B](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&act_t::on_m1, B); });
            };
            t.make(3, tp.l[0]);
        }
        for (int i = 0; i < 3; ++i) {
            t.pa[i]->m1 = [&, i, A](act_t &self, msg::m1 &m) {
                seen(0, "m1");
                if (i == 1 && m.payload.from == 0) {
                    self.send<payload::m1_t>(A, 1, 0);
                    ++want.n[0].delivered;
                }
            };
        }
        t.pa[0]->m2 = [&](act_t &, msg::m2 &) { seen(1, "m2"); };
        t.pa[1]->rq = [&](act_t &self, msg::rq &m) {
            seen(2, "request");
            self.reply_to(m, 1);
            ++want.n[3].delivered;
        };
        t.pa[0]->rs = [&](act_t &, msg::rs &) { seen(3, "response"); };
        w.boot();
        w.k_timers = false;
        w.run();
        auto &a = *t.a[0];
        auto &loc = *t.pa[0]->loc;
        if (gone) {
            w.op("C goes down", [&] { w.as(*t.pa[2]->loc, [&] { t.a[2]->do_shutdown(); }); });
            w.run();
        }
        w.op("A sends", [&] {
            w.as(loc, [&] {
                a.send<payload::m1_t>(B, 0, 0);
                a.send<payload::m2_t>(B, 0, 1);
                a.send<payload::m1_t>(nobody, 2, 2);
                a.send<payload::m1_t>(C, 2, 3);
                a.send<payload::m2_t>(A, 0, 4);
                a.request<payload::rq_t>(B, 5).send(ms(T_REQ));
            });
            ++want.n[0].delivered, ++want.n[1].discarded, ++want.n[0].discarded, ++want.n[1].delivered, ++want.n[2].delivered;
            ++(gone ? want.n[0].discarded : want.n[0].delivered);
        });
        w.op("A sends a routed message", [&] {
            w.as(loc, [&] { a.route<payload::m1_t>(B, C, 2, 6); });
            ++want.n[0].delivered;
            ++(gone ? want.n[0].discarded : want.n[0].delivered);
        });
        w.run();
        auto judge = [&](const char *when) {
            static const char *const names[] = {"m1", "m2", "request", "response"};
            for (int k = 0; k < 4; ++k) {
                auto &x = L.n[k];
                auto &y = want.n[k];
                // a response is seen by the supervisor (which guards the request), too
                bool many = k == 3 && on && x.delivered > y.delivered;
                if ((x.delivered != (on ? y.delivered : 0) && !many) || x.discarded != (on ? y.discarded : 0))
                    mc::fail("P27", "report", "%s: %d messages %s are reported as delivered (expected %d), %d as discarded (expected %d), threshold %s", when,
                             x.delivered, names[k], on ? y.delivered : 0, x.discarded, on ? y.discarded : 0, thresholds[lvl] ? thresholds[lvl] : "unset");
            }
            if (L.above)
                mc::fail("P27", "threshold", "%d messages are reported, although their level is above the threshold %d", L.above, L.threshold);
            if (L.strange)
                mc::fail("P27", "format", "%d lines are neither about a delivered nor about a discarded message", L.strange);
            if (!thresholds[lvl] && L.total)
                mc::fail("P27", "uninvited", "%d messages are reported without ROTOR_INSPECT_DELIVERY", L.total);
        };
        if (!w.stop())
            judge("after the exchange");
        w.root_shutdown();
        w.run();
        if (!w.stop())
            judge("after shutdown");
        for (auto &x : t.a)
            x.reset();
    }
    w.end(false);
    lines = nullptr;
}
std::string desc_lines(int c) {
    Cfg g(c);
    int tp = g(7), lvl = g(9), foreign = g(2), gone = g(2);
    return "threshold " + std::string(thresholds[lvl] ? thresholds[lvl] : "unset") + ", topology #" + std::to_string(tp) + (foreign ? ", foreign subscriber" : "") +
           (gone ? ", C is down" : "");
}
mc::Reg r1({"inspect.lines", {"P27"}, [](mc::Tier) { return 7 * 9 * 2 * 2; }, run_lines, desc_lines, 3, 4, 1, 0});
} // namespace

void h::inspect_level(const char *v) {
    lines = nullptr;
    char *p = strchr(env_var, '=') + 1;
    env_var[0] = v ? 'R' : 'X';
    strcpy(p, v ? v : "99");
}
void h::inspect_init() {
    inspect_level("99");
    putenv(env_var);
    std::cout.rdbuf(&the_sink);
}
#endif
