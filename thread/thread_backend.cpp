// The real thread backend: every system context runs in its own (controlled) thread
#include "scn.hpp"
#include "rotor/thread.hpp"

namespace bwto {
struct inbound {};
} // namespace bwto
namespace rotor {
template <> inline auto &supervisor_t::access<bwto::inbound>() noexcept { return inbound_queue; }
} // namespace rotor

namespace {
using namespace bw;
namespace rt = rotor::thread;
struct TB : W {
    using S = sup_t<rt::supervisor_thread_t>;
    static constexpr bool nested_loops = false, io = true, timer_order = true;
    static constexpr int variants = 1;
    static constexpr const char *variant_names[] = {"a thread per loop"};
    static constexpr int max_loops = 2, timer_slack_us = 100, late_us = 20000000;
    struct ctx_t : rt::system_context_thread_t {
        W *w;
        explicit ctx_t(W *w_) : w{w_} {}
        void on_error(r::actor_base_t *a, const extended_error_ptr_t &ee) noexcept override { w->fatal(a, ee); }
    };
    struct Loop {
        r::intrusive_ptr_t<ctx_t> ctx;
        r::intrusive_ptr_t<S> root;
        int fiber = -1;
    };
    std::vector<Loop> loops;
    std::vector<r::intrusive_ptr_t<S>> sups;
    explicit TB(int n, int) {
        loops.resize(n);
        for (auto &l : loops)
            l.ctx.reset(new ctx_t(this));
    }
    S *root(int l, Probe &p, const Opt &o) {
        loops[l].root = apply(loops[l].ctx->create_supervisor<S>(), o, p);
        return loops[l].root.get();
    }
    S *child(S &parent, int, Probe &p, const Opt &o) {
        sups.push_back(apply(parent.template create_actor<S>(), o, p));
        return sups.back().get();
    }
    int cur_loop() override {
        int s = thr::self();
        return s >= 0 && s < int(loops.size()) ? s : -1;
    }
    int64_t clock(int) { return thr::now_us(); }
    void go() {
        auto &k = thr::knobs();
        setup(k);
        k.on_idle = [this] {
            for (auto &p : probes) {
                if (!p.is_sup || !p.ptr || !thr::is_waiting(p.loop) || !thr::queue_size(&static_cast<r::supervisor_t *>(p.ptr)->access<bwto::inbound>()))
                    continue;
                bool gone = false; // messages to a supervisor, which is shut down, are nobody's
                for (auto &q : probes)
                    gone |= q.is_sup && q.loop == p.loop && q.down();
                if (!gone)
                    mc::fail("*", "lost-wakeup", "the loop of %s sleeps, but its inbound queue is not empty: %s", p.name.c_str(), thr::status().c_str());
            }
        };
        for (size_t i = 0; i < loops.size(); ++i)
            loops[i].fiber = thr::spawn(("loop" + std::to_string(i)).c_str(), [this, i] {
                loops[i].root->start();
                loops[i].ctx->run();
            });
        thr::spawn("env", [this] { env(); });
        thr::run();
        if (!stop() && !thr::all_done())
            mc::fail("*", "deadlock", "the threads do not finish: %s", thr::status().c_str());
    }
    void release() {
        sups.clear();
        for (auto &l : loops)
            l.root.reset();
        loops.clear();
    }
};
} // namespace

BW_SCENARIOS(TB, "thread", "P18", "P19")
int main(int argc, char **argv) {
    bw::race_setup();
    return mc::main(argc, argv, BW_ENGINE);
}
