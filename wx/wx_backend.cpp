// The wxWidgets backend: real wx event handlers and events; pending events and wxTimer are run by a loop in virtual time
#include "scn.hpp"
#include "race.hpp"
#include "rotor/wx.hpp"
#include <algorithm>

namespace {
struct Timer {
    int64_t at;
    wxTimer *t;
};
struct TimerState {
    wxEvtHandler *owner = nullptr;
    int id = 0, interval = 0;
    bool one_shot = false;
};
struct Handler;
struct Loop {
    int fiber = 0;
    std::vector<Timer> timers; // by time
    std::vector<std::pair<wxTimer *, TimerState>> state;
    std::vector<Handler *> handlers;
    bool waiting = false, kicked = false;
} *lp;
TimerState &state(const wxTimer *t) {
    for (auto &s : lp->state)
        if (s.first == t)
            return s.second;
    lp->state.push_back({const_cast<wxTimer *>(t), {}});
    return lp->state.back().second;
}
void own(const char *what) {
    if (thr::active() && thr::self() != lp->fiber)
        mc::fail("*", "foreign-wx-call", "%s is called by another thread", what);
}
bool drop(wxTimer *t) {
    for (size_t i = 0; i < lp->timers.size(); ++i)
        if (lp->timers[i].t == t) {
            lp->timers.erase(lp->timers.begin() + i);
            return true;
        }
    return false;
}
struct Handler : wxEvtHandler {
    std::deque<wxEvent *> q;
    Handler() { lp->handlers.push_back(this); }
    ~Handler() {
        for (auto e : q)
            delete e;
        lp->handlers.erase(std::find(lp->handlers.begin(), lp->handlers.end(), this));
    }
    void QueueEvent(wxEvent *e) override {
        thr::point("QueueEvent");
        race::release(this);
        q.push_back(e);
        thr::wake(lp);
    }
    void AddPendingEvent(const wxEvent &e) override { QueueEvent(e.Clone()); }
};
size_t pending() {
    size_t n = 0;
    for (auto h : lp->handlers)
        n += h->q.size();
    return n;
}
void iteration() {
    thr::point("iteration of the loop");
    if (!pending() && !lp->kicked && (lp->timers.empty() || lp->timers[0].at > thr::now_us())) {
        lp->waiting = true;
        thr::wait_on(lp, lp->timers.empty() ? INT64_MAX : lp->timers[0].at);
        lp->waiting = false;
    }
    lp->kicked = false;
    bool timer = !lp->timers.empty() && lp->timers[0].at <= thr::now_us();
    bool event = pending() > 0;
    if (timer && event)
        timer = mc::choose(2, mc::DEV, "a timer or pending events first") == 0;
    if (timer) {
        auto t = lp->timers[0].t;
        auto &s = state(t);
        lp->timers.erase(lp->timers.begin());
        if (!s.one_shot)
            t->Start(s.interval, false);
        t->Notify(); // it might be gone afterwards
        return;
    }
    Handler *h = nullptr;
    int ready = 0;
    Handler *rs[8];
    for (auto x : lp->handlers)
        if (!x->q.empty())
            rs[ready++] = x;
    if (!ready)
        return;
    h = rs[ready > 1 ? mc::choose(ready, mc::DEV, "which handler") : 0];
    auto e = h->q.front();
    h->q.pop_front();
    race::acquire(h);
    h->ProcessEvent(*e);
    delete e;
}
} // namespace

// wxTimer in virtual time instead of the one of the library
void wxTimer::Init() { m_impl = nullptr; }
void wxTimer::SetOwner(wxEvtHandler *owner, int id) {
    auto &s = state(this);
    s.owner = owner;
    s.id = id;
}
wxTimer::~wxTimer() {
    Stop();
    for (size_t i = 0; i < lp->state.size(); ++i)
        if (lp->state[i].first == this) {
            lp->state.erase(lp->state.begin() + i);
            break;
        }
}
bool wxTimer::Start(int ms, bool one_shot) {
    own("wxTimer::Start");
    drop(this);
    auto &s = state(this);
    if (ms != -1)
        s.interval = ms;
    s.one_shot = one_shot;
    int64_t at = thr::now_us() + int64_t(s.interval) * 1000;
    size_t i = 0;
    while (i < lp->timers.size() && lp->timers[i].at <= at)
        ++i;
    lp->timers.insert(lp->timers.begin() + i, Timer{at, this});
    return true;
}
void wxTimer::Stop() {
    own("wxTimer::Stop");
    drop(this);
}
void wxTimer::Notify() {
    auto &s = state(this);
    wxTimerEvent e(*this);
    if (s.owner)
        s.owner->ProcessEvent(e);
}
wxEvtHandler *wxTimer::GetOwner() const { return state(this).owner; }
int wxTimer::GetId() const { return state(this).id; }
int wxTimer::GetInterval() const { return state(this).interval; }
bool wxTimer::IsOneShot() const { return state(this).one_shot; }
bool wxTimer::IsRunning() const {
    for (auto &t : lp->timers)
        if (t.t == this)
            return true;
    return false;
}

namespace {
using namespace bw;
namespace rx = rotor::wx;
struct XB : W {
    using S = sup_t<rx::supervisor_wx_t>;
    static constexpr bool nested_loops = false, io = false, timer_order = true;
    static constexpr int variants = 2;
    static constexpr const char *variant_names[] = {"one event handler", "event handler per supervisor"};
    static constexpr int max_loops = 1, timer_slack_us = 0, late_us = 5000000;
    struct ctx_t : rx::system_context_wx_t {
        W *w;
        explicit ctx_t(W *w_) : w{w_} {}
        void on_error(r::actor_base_t *a, const extended_error_ptr_t &ee) noexcept override { w->fatal(a, ee); }
    };
    struct Root {
        r::intrusive_ptr_t<ctx_t> ctx;
        r::intrusive_ptr_t<S> sup;
    };
    std::vector<Root> roots;
    std::vector<r::intrusive_ptr_t<S>> sups;
    std::vector<std::unique_ptr<Handler>> handlers;
    int variant;
    bool env_done = false;
    explicit XB(int, int v) : variant{v} { lp = new Loop(); }
    Handler *handler() {
        if (handlers.empty() || variant)
            handlers.push_back(std::make_unique<Handler>());
        return handlers.back().get();
    }
    S *root(int, Probe &p, const Opt &o) {
        r::intrusive_ptr_t<ctx_t> c(new ctx_t(this));
        auto s = apply(c->create_supervisor<S>().handler(handler()), o, p);
        roots.push_back(Root{c, s});
        return s.get();
    }
    S *child(S &parent, int, Probe &p, const Opt &o) {
        sups.push_back(apply(parent.template create_actor<S>().handler(handler()), o, p));
        return sups.back().get();
    }
    int cur_loop() override { return thr::self() == 0 ? 0 : -1; }
    int64_t clock(int) { return thr::now_us(); }
    bool all_down() {
        for (auto &p : probes)
            if (p.is_sup && p.created && !p.down())
                return false;
        return true;
    }
    void go() {
        auto &k = thr::knobs();
        setup(k);
        thr::spawn("loop", [this] {
            for (auto &x : roots)
                x.sup->start();
            while (!stop() && !(all_down() && env_done && !pending()))
                iteration();
        });
        thr::spawn("env", [this] {
            env();
            env_done = true;
            lp->kicked = true;
            thr::wake(lp);
        });
        thr::run();
        if (!stop() && !thr::all_done())
            mc::fail("*", "deadlock", "the threads do not finish: %s", thr::status().c_str());
        if (!stop() && !lp->timers.empty())
            mc::fail("*", "active-timers", "%zu timers are running after everything is shut down", lp->timers.size());
    }
    void release() {
        sups.clear();
        roots.clear();
        handlers.clear();
        delete lp;
        lp = nullptr;
    }
};
} // namespace
BW_SCENARIOS(XB, "wx", "P22", "P22")
int main(int argc, char **argv) {
    bw::race_setup();
    return mc::main(argc, argv, BW_ENGINE);
}
