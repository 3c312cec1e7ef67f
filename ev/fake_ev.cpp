#include "fake_ev.hpp"
#include "mc.hpp"
#include "race.hpp"
#include "sched.hpp"
#include <algorithm>
#include <cmath>

namespace {
int64_t us(ev_tstamp t) { return llround(t * 1e6); }
// only ev_async_send() is thread-safe
void own(struct ev_loop *l, const char *what) {
    if (l->destroyed)
        mc::fail("*", "destroyed-loop", "%s on the destroyed loop", what);
    if (thr::active() && thr::self() != l->fiber)
        mc::fail("*", "foreign-ev-call", "%s of loop #%d is called by another thread", what, l->fiber);
}
template <typename V, typename X> bool drop(V &v, X *x) {
    for (size_t i = 0; i < v.size(); ++i)
        if ((void *)v[i] == (void *)x) {
            v.erase(v.begin() + i);
            return true;
        }
    return false;
}
} // namespace

extern "C" {
void ev_async_start(struct ev_loop *l, ev_async *w) noexcept {
    own(l, "ev_async_start");
    if (w->active)
        return;
    w->active = 1;
    w->sent = 0;
    l->asyncs.push_back(w);
}
void ev_async_stop(struct ev_loop *l, ev_async *w) noexcept {
    own(l, "ev_async_stop");
    drop(l->pending, w);
    if (!w->active)
        return;
    drop(l->asyncs, w);
    w->active = 0;
}
void ev_async_send(struct ev_loop *l, ev_async *w) noexcept {
    thr::point("ev_async_send");
    if (l->destroyed)
        mc::fail("*", "destroyed-loop", "ev_async_send on the destroyed loop");
    race::release(w);
    w->sent = 1;
    thr::wake(l);
}
void ev_timer_start(struct ev_loop *l, ev_timer *w) noexcept {
    own(l, "ev_timer_start");
    if (w->active)
        return;
    w->at = (l->now + us(w->at)) / 1e6;
    w->active = 1;
    l->timers.push_back(w);
}
void ev_timer_stop(struct ev_loop *l, ev_timer *w) noexcept {
    own(l, "ev_timer_stop");
    drop(l->pending, w);
    if (!w->active)
        return;
    drop(l->timers, w);
    w->active = 0;
}
ev_tstamp ev_now(struct ev_loop *l) noexcept { return l->now / 1e6; }
void ev_now_update(struct ev_loop *l) noexcept {
    own(l, "ev_now_update");
    thr::point("ev_now_update");
    thr::advance_us(1);
    l->now = thr::now_us();
}
void ev_loop_destroy(struct ev_loop *l) {
    if (!l->timers.empty() || !l->asyncs.empty())
        mc::fail("*", "active-watchers", "the loop is destroyed with %zu active timers and %zu active async watchers", l->timers.size(), l->asyncs.size());
    l->destroyed = true;
}
}

namespace fake_ev {
struct ev_loop *make(int fiber) {
    auto l = new struct ev_loop();
    l->fiber = fiber;
    l->now = thr::now_us();
    return l;
}
void run(struct ev_loop *l) {
    l->running = true;
    while (!mc::failed()) {
        thr::point("iteration of the loop");
        l->now = thr::now_us();
        if (l->timers.empty() && l->asyncs.empty())
            break; // nothing is active
        int64_t next = INT64_MAX;
        bool sent = false;
        for (auto t : l->timers)
            next = std::min(next, us(t->at));
        for (auto a : l->asyncs)
            sent |= a->sent;
        if (!sent && next > l->now)
            thr::wait_on(l, next);
        l->now = thr::now_us();
        std::vector<ev_watcher *> ts, as;
        std::stable_sort(l->timers.begin(), l->timers.end(), [](auto a, auto b) { return a->at < b->at; });
        while (!l->timers.empty() && us(l->timers[0]->at) <= l->now) {
            auto t = l->timers[0];
            l->timers.erase(l->timers.begin());
            t->active = 0;
            ts.push_back((ev_watcher *)t);
        }
        for (auto a : l->asyncs)
            if (a->sent) {
                a->sent = 0;
                race::acquire(a);
                as.push_back((ev_watcher *)a);
            }
        bool timers_first = ts.empty() || as.empty() || mc::choose(2, mc::DEV, "timers or asynchronous watchers first") == 0;
        l->pending = timers_first ? ts : as;
        auto &second = timers_first ? as : ts;
        auto nt = ts.size();
        (void)nt;
        l->pending.insert(l->pending.end(), second.begin(), second.end());
        while (!l->pending.empty() && !mc::failed()) {
            auto w = l->pending[0];
            l->pending.erase(l->pending.begin());
            bool timer = std::find(ts.begin(), ts.end(), w) != ts.end();
            w->cb(l, w, timer ? EV_TIMER : EV_ASYNC);
        }
    }
    l->running = false;
}
} // namespace fake_ev
