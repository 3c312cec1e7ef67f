// The FLTK backend: the only loop of the process is run by the first thread
#include "fake_fl.hpp"
#include "scn.hpp"
#include "rotor/fltk.hpp"

namespace bwto {
struct inbound {};
} // namespace bwto
namespace rotor {
template <> inline auto &supervisor_t::access<bwto::inbound>() noexcept { return inbound_queue; }
} // namespace rotor

namespace {
using namespace bw;
namespace rf = rotor::fltk;
struct FB : W {
    using S = sup_t<rf::supervisor_fltk_t>;
    static constexpr bool nested_loops = false, io = false, timer_order = true;
    static constexpr int variants = 2;
    static constexpr const char *variant_names[] = {"queues of supervisors are processed after every event", "and before"};
    static constexpr int max_loops = 1, timer_slack_us = 0, late_us = 5000000;
    struct ctx_t : rf::system_context_fltk_t {
        W *w;
        explicit ctx_t(W *w_) : w{w_} {}
        void on_error(r::actor_base_t *a, const extended_error_ptr_t &ee) noexcept override { w->fatal(a, ee); }
    };
    struct Root {
        r::intrusive_ptr_t<ctx_t> ctx;
        r::intrusive_ptr_t<S> sup;
    };
    std::vector<Root> roots;
    std::vector<r::intrusive_ptr_t<S>> sups;
    int variant;
    bool env_done = false, early_release = false;
    std::function<void(int)> on_gone;
    explicit FB(int, int v) : variant{v} {
        fake_fl::make(0);
        thr::knobs().after_push = true;
    }
    S *root(int, Probe &p, const Opt &o) {
        r::intrusive_ptr_t<ctx_t> c(new ctx_t(this));
        auto s = apply(c->create_supervisor<S>(), o, p);
        roots.push_back(Root{c, s});
        return s.get();
    }
    S *child(S &parent, int, Probe &p, const Opt &o) {
        sups.push_back(apply(parent.template create_actor<S>(), o, p));
        return sups.back().get();
    }
    int cur_loop() override { return thr::self() == 0 ? 0 : -1; }
    int64_t clock(int) { return thr::now_us(); }
    void process() {
        for (size_t i = 0; i < roots.size(); ++i)
            if (roots[i].sup)
                roots[i].sup->do_process();
    }
    bool all_down() {
        for (auto &p : probes)
            if (p.is_sup && p.created && !p.down())
                return false;
        return true;
    }
    void go() {
        auto &k = thr::knobs();
        setup(k);
        k.on_idle = [this] {
            if (!fake_fl::waiting())
                return;
            for (auto &x : roots)
                if (x.sup && !x.sup->P->down() && thr::queue_size(&static_cast<r::supervisor_t *>(x.sup.get())->access<bwto::inbound>()))
                    mc::fail("*", "lost-wakeup", "the loop sleeps, but the inbound queue of %s is not empty: %s", x.sup->P->name.c_str(), thr::status().c_str());
        };
        thr::spawn("loop", [this] {
            Fl::lock();
            for (auto &x : roots)
                x.sup->start();
            while (!stop() && !(all_down() && env_done && !fake_fl::awakes())) {
                if (variant)
                    process();
                Fl::wait();
                process();
                for (size_t i = 0; early_release && i < roots.size(); ++i)
                    if (roots[i].sup && roots[i].sup->P->down()) {
                        on_gone(int(i));
                        roots[i].sup.reset();
                        roots[i].ctx.reset();
                    }
            }
            Fl::unlock();
        });
        thr::spawn("env", [this] {
            env();
            env_done = true;
            fake_fl::kick();
        });
        thr::run();
        if (!stop() && !thr::all_done())
            mc::fail("*", "deadlock", "the threads do not finish: %s", thr::status().c_str());
        if (!stop() && fake_fl::timeouts())
            mc::fail("*", "active-timeouts", "%zu timeouts are registered after everything is shut down", fake_fl::timeouts());
    }
    void release() {
        sups.clear();
        roots.clear();
        fake_fl::close();
    }
};

// contexts come and go, while the loop is run
struct Contexts {
    using B = FB;
    static int count() { return 2 * 3 * 3 * 2 * B::variants; }
    static std::string describe(int c) {
        Cfg g(c);
        int later = g(2), n = g(3), m = g(3), started = g(2), var = g(B::variants);
        return std::string("a context ") + (later ? "is followed by another one" : "and another one") + ", " + std::to_string(n) + " messages from outside, " + std::to_string(m) + " from the actor of the other one, shutdown " + (started ? "after the start" : "at any moment") + ", " + B::variant_names[var];
    }
    static B *body(int c) {
        Cfg g(c);
        bool later = g(2);
        int n = g(3), m = g(3);
        bool started = g(2);
        static const Topo one{"one", {{-1, 0}}}, two{"two", {{-1, 0}, {-1, 0}}};
        auto sp = std::make_shared<Sys<B>>(later ? one : two, Opt{}, g(B::variants));
        auto &s = *sp;
        auto &w = *s.w;
        w.early_release = true;
        w.keep.push_back(sp);
        auto ref = std::make_shared<r::intrusive_ptr_t<FB::S>>(s.sup[0]); // of the environment
        auto ref_ctx = std::make_shared<r::intrusive_ptr_t<FB::ctx_t>>(w.roots[0].ctx);
        int a = s.actor(0);
        if (!later)
            s.actor(1);
        auto lp = std::make_shared<Ledger>();
        auto &l = *lp;
        w.keep.push_back(lp);
        auto hear = [&s, &l](int me) { s.ap[me]->m1 = [&l, me](act_t &, msg::m1 &msg) { l.got(msg.payload.from, me, msg.payload.seq); }; };

        if (!later)
            hear(1);
        auto second = std::make_shared<r::intrusive_ptr_t<FB::S>>();
        if (!later)
            second->reset(s.sup[1]);
        w.on_gone = [&s, &w, second, later, hear](int i) {
            if (i)
                return;
            s.act[0].reset();
            if (!later)
                return;
            auto &p = w.probe("sup1");
            p.is_sup = true;
            s.sp.push_back(&p);
            s.sup.push_back(w.root(0, p, Opt{}));
            second->reset(s.sup[1]);
            s.actor(1);
            hear(1);
            s.sup[1]->start();
        };
        auto up = [&s](int i) { return int(s.ap.size()) > i && s.ap[i]->n_start > 0; };
        auto to_a = std::make_shared<r::address_ptr_t>(s.addr(a));
        auto tell = [&](int i) { w.op("a message to a", [to_a, i, ref] { (*ref)->enqueue(r::make_message<payload::m1_t>(*to_a, 9, i)); }); };
        for (int i = 0; i < n - 1; ++i)
            tell(i);
        w.op("shutdown of the first one", [ref] { (*ref)->shutdown(); }, [up, started] { return !started || up(0); });
        if (n)
            tell(n - 1);
        w.op("the environment forgets the first one", [ref, ref_ctx, to_a] {
            to_a->reset();
            ref->reset();
            ref_ctx->reset();
        });
        for (int i = 0; i < m; ++i)
            w.op("a message to b", [&s, &l, second] { (*second)->enqueue(r::make_message<payload::m1_t>(s.addr(1), 8, l.next(8, 1))); }, [up] { return up(1); });
        w.op("the first context is gone", [&w] {
            if (w.roots[0].sup)
                mc::fail("*", "stuck", "the first context is not shut down");
        }, {}, true);
        w.op("check of messages", [&l, m, &s, up] {
            if (!up(1))
                mc::fail("*", "stuck", "the second context is not started");
            auto &e = l.m[{8, 1}];
            if (e.got != m)
                mc::fail("*", "lost", "%d of %d messages to the second context are lost", m - e.got, m);
        }, {}, true);
        w.op("shutdown of the second one", [second] { (*second)->shutdown(); second->reset(); }, {}, true);
        w.go();
        w.check_down();
        w.on_gone = {};
        return &w;
    }
    static void run(int c) {
        if (auto w = body(c))
            B::finish(w);
    }
};
} // namespace
static mc::Reg reg_contexts(mc::Scenario{"fltk.contexts", {"P23", "P17", "P01"}, [](mc::Tier) { return Contexts::count(); }, [](int c) { Contexts::run(c); }, [](int c) { return Contexts::describe(c); }, 2, 3});
BW_SCENARIOS(FB, "fltk", "P23", "P23")
int main(int argc, char **argv) {
    bw::race_setup();
    return mc::main(argc, argv, BW_ENGINE);
}
