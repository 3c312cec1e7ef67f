// P08: shutdown() of supervisors is called from outside, at any moment, any number of times; P25: misconfiguration
#include "trio.hpp"
using namespace h;

namespace {

struct EShape {
    int n;
    struct {
        int parent, loc;
    } s[4]; // supervisors
};
static const EShape eshapes[] = {
    {2, {{-1, 0}, {0, 0}}}, {2, {{-1, 0}, {0, 1}}}, {3, {{-1, 0}, {0, 0}, {1, 0}}}, {3, {{-1, 0}, {0, 1}, {1, 1}}}, {3, {{-1, 0}, {0, 1}, {1, 2}}},
};

// targets: supervisors by shutdown() (environment), 3: the actor asks itself twice, 4: the actor asks its supervisor
void run_ext(int c) {
    Cfg g(c);
    auto &sh = eshapes[g(5)];
    bool plain = g(2), sync = g(2);
    int tg[3] = {g(5), g(5), g(5)};
    int nl = 1;
    for (int i = 0; i < sh.n; ++i)
        nl = std::max(nl, sh.s[i].loc + 1);
    auto &w = *new World(nl);
    w.blame = "P08";
    {
        SupOpt o;
        o.plain = plain;
        o.sync = sync;
        static const char *sn[] = {"root", "S1", "S2"};
        msup_t *sup[3] = {};
        Probe *ps[3];
        for (int i = 0; i < sh.n; ++i) {
            ps[i] = &w.probe(sn[i]);
            sup[i] = i ? make_sup(w, *ps[i], sh.s[i].loc, *sup[sh.s[i].parent], o) : make_root(w, *ps[i], 0, o);
        }
        auto &pa = w.probe("A"), &pb = w.probe("B");
        int last = sh.n - 1;
        auto a = make_act(w, pa, *sup[last]);
        auto b = make_act(w, pb, *sup[0]);
        a.reset(), b.reset();
        bool root_asked = false, any = false;
        for (int i = 0; i < 3; ++i) {
            int t = tg[i];
            if (t < 3 && t < sh.n)
                w.op(std::string(sn[t]) + ".shutdown()", [&, t]() {
                    root_asked |= t == 0;
                    any = true;
                    sup[t]->shutdown();
                });
            else if (t == 3)
                w.op("A.do_shutdown() twice", [&]() {
                    if (pa.ptr && !pa.down())
                        w.as(*pa.loc, [&]() {
                            any = true;
                            pa.ptr->do_shutdown();
                            pa.ptr->do_shutdown();
                        });
                });
            else if (t == 4)
                w.op("S.do_shutdown() twice", [&]() {
                    if (ps[last]->ptr && !ps[last]->down())
                        w.as(*ps[last]->loc, [&]() {
                            any = true;
                            root_asked |= last == 0;
                            ps[last]->ptr->do_shutdown();
                            ps[last]->ptr->do_shutdown();
                        });
                });
        }
        w.boot();
        w.run();
        if (!w.stop()) {
            if (root_asked && !ps[0]->down())
                mc::fail("P08", "ignored-shutdown", "shutdown of root was requested, but it is running");
            if (!any && !ps[0]->started())
                mc::fail("P07", "not-operational", "root is not started");
        }
    }
    w.end();
}
std::string desc_ext(int c) {
    Cfg g(c);
    int s = g(5), p = g(2), sy = g(2), a = g(5), b = g(5), d = g(5);
    static const char *n[] = {"root.shutdown()", "S1.shutdown()", "S2.shutdown()", "A asks twice", "A's supervisor asks twice"};
    return "shape #" + std::to_string(s) + (p ? " plain" : " inspected") + (sy ? " sync" : "") + ": " + n[a] + ", " + n[b] + ", " + n[d];
}
mc::Reg r1({"life.external", {"P08", "P06", "P17"}, [](mc::Tier) { return 5 * 4 * 125; }, run_ext, desc_ext, 2, 3, 1, 0});

// --------------------------------------------------------------------------------------------
// P25
// --------------------------------------------------------------------------------------------
enum Bad { ACT_NOTHING, ACT_NO_INIT, ACT_NO_SHUT, SUP_NOTHING, SUP_REGISTRIES, SUP_NO_SHUT, ROOT_SECOND, ROOT_SECOND_BAD, ROOT_SECOND_REG, BAD_N };
static const char *bad_names[] = {"actor without timeouts",
                                  "actor without init timeout",
                                  "actor without shutdown timeout",
                                  "child supervisor without timeouts",
                                  "child supervisor which creates and gets a registry",
                                  "child supervisor without shutdown timeout",
                                  "second root supervisor",
                                  "second root supervisor without timeouts",
                                  "second root supervisor with registry"};

void run_bad(int c) {
    Cfg g(c);
    auto &sh = eshapes[g(5)];
    int bad = g(BAD_N), bad2 = g(BAD_N);
    bool registry = g(2);
    int where = g(3);
    bool sync = g(2);
    int nl = 1;
    for (int i = 0; i < sh.n; ++i)
        nl = std::max(nl, sh.s[i].loc + 1);
    auto &w = *new World(nl);
    w.blame = "P25";
    {
        SupOpt o;
        o.registry = registry;
        o.sync = sync;
        static const char *sn[] = {"root", "S1", "S2"};
        msup_t *sup[3] = {};
        Probe *ps[3];
        for (int i = 0; i < sh.n; ++i) {
            ps[i] = &w.probe(sn[i]);
            sup[i] = i ? make_sup(w, *ps[i], sh.s[i].loc, *sup[sh.s[i].parent], o) : make_root(w, *ps[i], 0, o);
            o.registry = false;
        }
        int last = sh.n - 1;
        auto &pa = w.probe("A"), &pb = w.probe("B"), &pn = w.probe("N"), &px = w.probe("X"), &py = w.probe("Y");
        for (auto p : {&pa, &pb})
            p->conf = [](r::actor_base_t &, r::plugin::plugin_base_t &p) {
                p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&act_t::on_m1); });
            };
        int got_a = 0, got_b = 0;
        pa.m1 = [&](act_t &, msg::m1 &) { ++got_a; };
        pb.m1 = [&](act_t &, msg::m1 &) { ++got_b; };
        auto a = make_act(w, pa, *sup[last]);
        auto b = make_act(w, pb, *sup[0]);
        int errors = 0;
        bool attempt_now = false;
        r::error_code_t expected = r::error_code_t::success;
        w.on_fatal = [&](r::actor_base_t *, const extended_error_ptr_t &ee) {
            if (!attempt_now)
                return false;
            ++errors;
            if (ee->ec != r::make_error_code(expected) && ee->root()->ec != r::make_error_code(expected))
                mc::fail("P25", "wrong-error", "the context is told '%s' instead of '%s'", ee->message().c_str(), r::make_error_code(expected).message().c_str());
            return true;
        };
        auto attempt = [&](int k, Probe &p) {
            auto &s = *sup[where == 2 ? last : where == 1 ? std::min(1, last) : 0];
            p.loc = s.loc;
            p.parent = s.P;
            attempt_now = true;
            errors = 0;
            expected = r::error_code_t::actor_misconfigured;
            r::actor_ptr_t res;
            switch (k) {
            case ACT_NOTHING:
                res = s.create_actor<act_t>().probe(&p).finish();
                break;
            case ACT_NO_INIT:
                res = s.create_actor<act_t>().shutdown_timeout(ms(T_SHUT)).escalate_failure().probe(&p).finish();
                break;
            case ACT_NO_SHUT:
                res = s.create_actor<act_t>().init_timeout(ms(T_INIT)).autoshutdown_supervisor().probe(&p).finish();
                break;
            case SUP_NOTHING:
                res = s.create_actor<msup_plain_t>().probe(&p).finish();
                break;
            case SUP_REGISTRIES:
                res = s.create_actor<msup_plain_t>().timeout(ms(T_INIT)).create_registry().registry_address(s.get_address()).probe(&p).finish();
                break;
            case SUP_NO_SHUT:
                res = s.create_actor<msup_plain_t>().init_timeout(ms(T_INIT)).probe(&p).finish();
                break;
            case ROOT_SECOND:
                expected = r::error_code_t::supervisor_defined;
                res = w.ctx->create_supervisor<msup_insp_t>().timeout(ms(T_INIT)).probe(&p).finish();
                break;
            case ROOT_SECOND_BAD:
                res = w.ctx->create_supervisor<msup_plain_t>().shutdown_timeout(ms(T_INIT)).probe(&p).finish();
                break;
            case ROOT_SECOND_REG:
                expected = r::error_code_t::supervisor_defined;
                res = w.ctx->create_supervisor<msup_plain_t>().timeout(ms(T_INIT)).create_registry().probe(&p).finish();
                break;
            }
            attempt_now = false;
            mc::obs("attempt: %s", bad_names[k]);
            if (res)
                mc::fail("P25", "created", "%s was created", bad_names[k]);
            if (errors != 1)
                mc::fail("P25", "not-reported", "%s: %d errors are reported to the context instead of one", bad_names[k], errors);
            res.reset();
            if (p.ptr)
                mc::fail("P25,P17", "kept", "%s: the refused object still exists", bad_names[k]);
            if (p.n_init_start || p.n_shut_start)
                mc::fail("P25", "alive", "%s: the refused object has been initialized", bad_names[k]);
            if (w.ctx->get_supervisor().get() != sup[0] && !ps[0]->down())
                mc::fail("P25", "root-replaced", "%s: the root supervisor of the context is replaced", bad_names[k]);
        };
        Loc &l = *sup[where == 2 ? last : where == 1 ? std::min(1, last) : 0]->loc;
        Probe &owner = *sup[where == 2 ? last : where == 1 ? std::min(1, last) : 0]->P;
        auto usable = [&owner]() { return owner.ptr && !owner.n_shut_start; };
        w.inj("first attempt", l, [&]() { attempt(bad, px); }, usable, true);
        w.inj("second attempt", l, [&]() { attempt(bad2, py); }, usable, true);
        w.inj("a proper actor", l, [&]() { make_act(w, pn, *sup[where == 2 ? last : where == 1 ? std::min(1, last) : 0]); }, usable, true);
        w.boot();
        w.run();
        if (!w.stop()) {
            for (auto p : {&pa, &pb, &pn, ps[0], ps[last]})
                if (!p->started() || p->n_shut_start)
                    mc::fail("P25,P07", "not-operational", "%s is not operational after the attempts to create misconfigured actors", p->name.c_str());
        }
        if (!w.stop()) {
            w.as(*pa.loc, [&]() { static_cast<act_t *>(pa.ptr)->send<payload::m1_t>(b->get_address(), 0, 0); });
            w.as(*pb.loc, [&]() { static_cast<act_t *>(pb.ptr)->send<payload::m1_t>(a->get_address(), 1, 1); });
            w.run();
            if (!w.stop() && (got_a != 1 || got_b != 1))
                mc::fail("P25", "broken", "the actors do not exchange messages any more");
        }
        a.reset(), b.reset();
        // everything goes down, another attempt in the middle is allowed too
        w.on_fatal = {};
    }
    w.end();
}
std::string desc_bad(int c) {
    Cfg g(c);
    int s = g(5), b = g(BAD_N), b2 = g(BAD_N), r = g(2), wh = g(3), sy = g(2);
    return "shape #" + std::to_string(s) + (r ? " with registry" : "") + (sy ? " sync" : "") + ", by " + (wh == 0 ? "root" : wh == 1 ? "S1" : "the deepest supervisor") + ": " + bad_names[b] + "; " +
           bad_names[b2];
}
mc::Reg r2({"config.bad", {"P25", "P17"}, [](mc::Tier) { return 5 * BAD_N * BAD_N * 2 * 3 * 2; }, run_bad, desc_bad, 1, 2, 1, 0});

} // namespace
