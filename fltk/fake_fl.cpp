#include "fake_fl.hpp"
#include "mc.hpp"
#include "race.hpp"
#include "sched.hpp"
#include <cmath>
#include <deque>
#include <vector>

namespace {
struct Timeout {
    int64_t at;
    Fl_Timeout_Handler cb;
    void *arg;
};
struct Awake {
    Fl_Awake_Handler cb;
    void *arg;
};
struct State {
    int fiber = 0;
    std::vector<Timeout> timeouts, checks; // sorted by time
    std::vector<Timeout> idles;
    std::deque<Awake> ring;
    size_t pipe = 0;
    bool waiting = false;
    int owner = -1, depth = 0; // Fl::lock()
} *st;
char lock_obj;
void own(const char *what) {
    if (thr::active() && thr::self() != st->fiber && st->owner != thr::self())
        mc::fail("*", "foreign-fl-call", "%s is called by another thread", what);
}
void insert(double t, Fl_Timeout_Handler cb, void *arg) {
    int64_t at = thr::now_us() + llround((t > 0 ? t : 0) * 1e6);
    size_t i = 0;
    while (i < st->timeouts.size() && st->timeouts[i].at <= at)
        ++i;
    st->timeouts.insert(st->timeouts.begin() + i, Timeout{at, cb, arg});
}
void remove(std::vector<Timeout> &v, Fl_Timeout_Handler cb, void *arg) {
    for (size_t i = 0; i < v.size();)
        if (v[i].cb == cb && (!arg || v[i].arg == arg))
            v.erase(v.begin() + i);
        else
            ++i;
}
int has(std::vector<Timeout> &v, Fl_Timeout_Handler cb, void *arg) {
    for (auto &t : v)
        if (t.cb == cb && t.arg == arg)
            return 1;
    return 0;
}
void run_checks() {
    auto c = st->checks;
    for (auto &t : c)
        if (has(st->checks, t.cb, t.arg))
            t.cb(t.arg);
}
} // namespace

void (*Fl::idle)() = nullptr;
void Fl::add_timeout(double t, Fl_Timeout_Handler cb, void *arg) {
    own("Fl::add_timeout");
    insert(t, cb, arg);
}
void Fl::repeat_timeout(double t, Fl_Timeout_Handler cb, void *arg) {
    own("Fl::repeat_timeout");
    insert(t, cb, arg);
}
int Fl::has_timeout(Fl_Timeout_Handler cb, void *arg) {
    own("Fl::has_timeout");
    return has(st->timeouts, cb, arg);
}
void Fl::remove_timeout(Fl_Timeout_Handler cb, void *arg) {
    own("Fl::remove_timeout");
    remove(st->timeouts, cb, arg);
}
void Fl::add_check(Fl_Timeout_Handler cb, void *arg) {
    own("Fl::add_check");
    st->checks.push_back(Timeout{0, cb, arg});
}
void Fl::remove_check(Fl_Timeout_Handler cb, void *arg) {
    own("Fl::remove_check");
    remove(st->checks, cb, arg);
}
int Fl::has_check(Fl_Timeout_Handler cb, void *arg) { return has(st->checks, cb, arg); }
void Fl::add_idle(Fl_Idle_Handler cb, void *arg) {
    own("Fl::add_idle");
    st->idles.push_back(Timeout{0, cb, arg});
}
void Fl::remove_idle(Fl_Idle_Handler cb, void *arg) {
    own("Fl::remove_idle");
    remove(st->idles, cb, arg);
}
int Fl::has_idle(Fl_Idle_Handler cb, void *arg) { return has(st->idles, cb, arg); }
int Fl::lock() {
    if (!thr::active())
        return 0;
    thr::point("Fl::lock");
    while (st->owner >= 0 && st->owner != thr::self())
        thr::wait_on(&lock_obj, INT64_MAX);
    st->owner = thr::self();
    ++st->depth;
    race::acquire(&lock_obj);
    return 0;
}
void Fl::unlock() {
    if (!thr::active())
        return;
    if (st->owner != thr::self())
        return mc::fail("*", "bad-unlock", "Fl::unlock() is called by a thread, which does not own the lock");
    if (!--st->depth) {
        race::release(&lock_obj);
        st->owner = -1;
        thr::wake(&lock_obj);
    }
    thr::point("Fl::unlock");
}
void Fl::awake(void *) {
    thr::point("Fl::awake, pipe");
    race::release(&st->pipe);
    ++st->pipe;
    thr::wake(st);
}
int Fl::awake(Fl_Awake_Handler cb, void *arg) {
    thr::point("Fl::awake, ring");
    race::release(&st->ring);
    st->ring.push_back(Awake{cb, arg});
    Fl::awake();
    return 0;
}
double Fl::wait(double t) {
    own("Fl::wait");
    thr::point("Fl::wait");
    while (!st->timeouts.empty() && st->timeouts[0].at <= thr::now_us() && !mc::failed()) {
        auto x = st->timeouts[0];
        st->timeouts.erase(st->timeouts.begin());
        x.cb(x.arg);
    }
    run_checks();
    bool idle = !st->idles.empty();
    if (idle) {
        auto x = st->idles[0];
        st->idles.erase(st->idles.begin());
        st->idles.push_back(x);
        x.cb(x.arg);
    }
    int64_t until = t >= 1e15 ? INT64_MAX : thr::now_us() + llround(t * 1e6);
    if (!st->timeouts.empty() && st->timeouts[0].at < until)
        until = st->timeouts[0].at;
    if (!st->idles.empty())
        until = thr::now_us();
    // the lock is free meanwhile
    int depth = st->depth;
    bool mine = st->owner == thr::self();
    if (mine) {
        race::release(&lock_obj);
        st->owner = -1;
        thr::wake(&lock_obj);
    }
    thr::point("fl_wait");
    if (!st->pipe && until > thr::now_us()) {
        st->waiting = true;
        thr::wait_on(st, until);
        st->waiting = false;
    }
    if (mine) {
        while (st->owner >= 0)
            thr::wait_on(&lock_obj, INT64_MAX);
        st->owner = thr::self();
        st->depth = depth;
        race::acquire(&lock_obj);
    }
    if (!st->pipe)
        return 0;
    --st->pipe;
    race::acquire(&st->pipe);
    while (!st->ring.empty() && !mc::failed()) {
        auto a = st->ring.front();
        st->ring.pop_front();
        race::acquire(&st->ring);
        a.cb(a.arg);
        thr::point("next awake handler");
    }
    return 1;
}
int Fl::wait() { return Fl::wait(1e20) > 0; }
int Fl::check() {
    Fl::wait(0.0);
    return 1;
}
int Fl::ready() { return st->pipe > 0 || (!st->timeouts.empty() && st->timeouts[0].at <= thr::now_us()); }

namespace fake_fl {
void make(int fiber) {
    st = new State();
    st->fiber = fiber;
}
void close() {
    delete st;
    st = nullptr;
}
size_t timeouts() { return st->timeouts.size(); }
size_t awakes() { return st->ring.size(); }
void kick() { Fl::awake(); }
bool waiting() { return st->waiting; }
} // namespace fake_fl
