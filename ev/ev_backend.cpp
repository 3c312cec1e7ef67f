// The libev backend: every loop is run by its own (controlled) thread
#include "fake_ev.hpp"
#include "scn.hpp"
#include "rotor/ev.hpp"

namespace bwto {
struct inbound {};
} // namespace bwto
namespace rotor {
template <> inline auto &supervisor_t::access<bwto::inbound>() noexcept { return inbound_queue; }
} // namespace rotor

namespace {
using namespace bw;
namespace re = rotor::ev;
struct EB : W {
    using S = sup_t<re::supervisor_ev_t>;
    static constexpr bool nested_loops = false, io = false, timer_order = true;
    static constexpr int variants = 1;
    static constexpr const char *variant_names[] = {"a thread per loop"};
    static constexpr int max_loops = 2, timer_slack_us = 0, late_us = 0;
    struct ctx_t : re::system_context_ev_t {
        W *w;
        explicit ctx_t(W *w_) : w{w_} {}
        void on_error(r::actor_base_t *a, const extended_error_ptr_t &ee) noexcept override { w->fatal(a, ee); }
    };
    struct Loop {
        struct ev_loop *ev;
        r::intrusive_ptr_t<ctx_t> ctx;
        r::intrusive_ptr_t<S> root;
    };
    std::vector<Loop> loops;
    std::vector<r::intrusive_ptr_t<S>> sups;
    explicit EB(int n, int) {
        loops.resize(n);
        for (int i = 0; i < n; ++i) {
            loops[i].ev = fake_ev::make(i);
            loops[i].ctx.reset(new ctx_t(this));
        }
    }
    S *root(int l, Probe &p, const Opt &o) {
        loops[l].root = apply(loops[l].ctx->create_supervisor<S>().loop(loops[l].ev).loop_ownership(true), o, p);
        return loops[l].root.get();
    }
    S *child(S &parent, int l, Probe &p, const Opt &o) {
        sups.push_back(apply(parent.template create_actor<S>().loop(loops[l].ev).loop_ownership(false), o, p));
        return sups.back().get();
    }
    int cur_loop() override {
        int s = thr::self();
        return s >= 0 && s < int(loops.size()) ? s : -1;
    }
    int64_t clock(int l) { return loops[l].ev->now; } // timers are relative to the time of the loop
    void go() {
        auto &k = thr::knobs();
        setup(k);
        k.on_idle = [this] {
            for (auto &p : probes) {
                if (!p.is_sup || !p.ptr || !thr::is_waiting(p.loop) || !thr::queue_size(&static_cast<r::supervisor_t *>(p.ptr)->access<bwto::inbound>()))
                    continue;
                bool gone = false; // messages to a supervisor, which is shut down, are nobody's
                for (auto &q : probes)
                    gone |= q.is_sup && q.loop == p.loop && q.down();
                if (!gone)
                    mc::fail("*", "lost-wakeup", "the loop of %s sleeps, but its inbound queue is not empty: %s", p.name.c_str(), thr::status().c_str());
            }
        };
        for (size_t i = 0; i < loops.size(); ++i)
            thr::spawn(("loop" + std::to_string(i)).c_str(), [this, i] {
                loops[i].root->start();
                fake_ev::run(loops[i].ev);
            });
        thr::spawn("env", [this] { env(); });
        thr::run();
        if (!stop() && !thr::all_done())
            mc::fail("*", "deadlock", "the threads do not finish: %s", thr::status().c_str());
    }
    void release() {
        sups.clear();
        for (auto &l : loops) {
            l.root.reset();
            l.ctx.reset();
            if (!l.ev->destroyed)
                mc::fail("*", "loop-not-destroyed", "the owned loop is not destroyed by its supervisor");
            delete l.ev;
        }
        loops.clear();
    }
};
} // namespace
BW_SCENARIOS(EB, "ev", "P20", "P20")
int main(int argc, char **argv) {
    bw::race_setup();
    return mc::main(argc, argv, BW_ENGINE);
}
