// P05: programs over timers, shared by all backends. The owner calls script() in the context of the actor and
// forwards every timer callback to callback().
#pragma once
#include "mc.hpp"
#include <functional>
#include <vector>

struct TimerProg {
    // hooks of the backend
    std::function<int64_t()> now;
    std::function<size_t(int)> start; // milliseconds => id
    std::function<void(size_t)> cancel;
    std::function<void()> shutdown;
    std::function<bool()> going_down; // the actor is shutting down
    const char *props = "P05";
    bool check_order = true;
    int slack = 0;
    int late = 0;  // 0: a timer is allowed to fire at any later moment
    int unit = 1; // of now() in a millisecond

    enum Op { O_NONE, O_S10, O_S20, O_S30, O_CFIRST, O_CLAST, N_OP };
    enum Act { A_NONE, A_S10, A_S0, A_CFIRST, A_CALL, A_DOWN, N_ACT };
    int ops[3] = {}, acts[2] = {};
    static int count() { return N_OP * N_OP * N_OP * N_ACT * N_ACT; }
    static bool skip(int c) {
        TimerProg p;
        p.decode(c);
        if (p.ops[0] == O_NONE || p.ops[0] >= O_CFIRST)
            return true;
        if (p.ops[1] == O_NONE && p.ops[2] != O_NONE)
            return true;
        if (p.ops[1] >= O_CFIRST && p.ops[2] >= O_CFIRST)
            return true;
        if (p.ops[2] == O_NONE && p.ops[1] == O_CLAST) // the same as cancel first
            return true;
        return false;
    }
    void decode(int c) {
        for (auto &o : ops) {
            o = c % N_OP;
            c /= N_OP;
        }
        for (auto &a : acts) {
            a = c % N_ACT;
            c /= N_ACT;
        }
    }
    std::string describe() const {
        static const char *o[] = {"-", "start 10", "start 20", "start 30", "cancel first", "cancel last"};
        static const char *a[] = {"-", "start 10", "start 0", "cancel the next", "cancel all", "shutdown"};
        std::string r = "script:";
        for (auto x : ops)
            r += std::string(" ") + o[x] + ";";
        r += " in callbacks:";
        for (auto x : acts)
            r += std::string(" ") + a[x] + ";";
        return r;
    }

    struct T {
        size_t id;
        int64_t started;
        int interval;
        int called = 0;
        bool cancelled = false, cancel_asked = false;
        int64_t called_at = 0;
    };
    std::vector<T> ts;
    int calls = 0;

    void do_start(int d) {
        if (ts.size() >= 8)
            return;
        T t{};
        t.started = now();
        t.interval = d;
        size_t k = ts.size();
        ts.push_back(t);
        auto id = start(d);
        ts[k].id = id;
        mc::obs("timer #%zu started for %d at %d", k, d, (int)now());
        for (size_t i = 0; i < k; ++i)
            if (ts[i].id == id && !ts[i].called)
                mc::fail(props, "duplicate-id", "two timers have got the same id");
    }
    void do_cancel(size_t k) {
        ts[k].cancel_asked = true;
        mc::obs("timer #%zu is being cancelled at %d", k, (int)now());
        cancel(ts[k].id);
    }
    // pending timers in the order of their start
    std::vector<size_t> pending() const {
        std::vector<size_t> r;
        for (size_t i = 0; i < ts.size(); ++i)
            if (!ts[i].called && !ts[i].cancel_asked)
                r.push_back(i);
        return r;
    }
    void script() {
        for (int o : ops) {
            auto p = pending();
            switch (o) {
            case O_S10:
            case O_S20:
            case O_S30:
                do_start(o * 10);
                break;
            case O_CFIRST:
                if (!p.empty())
                    do_cancel(p.front());
                break;
            case O_CLAST:
                if (!p.empty())
                    do_cancel(p.back());
                break;
            }
        }
    }
    void callback(size_t id, bool cancelled) {
        T *t = nullptr;
        size_t k = 0;
        for (size_t i = 0; i < ts.size(); ++i)
            if (ts[i].id == id) {
                t = &ts[i];
                k = i;
                if (!t->called)
                    break;
            }
        if (!t) {
            mc::fail(props, "alien-callback", "callback of an unknown timer %zu", id);
            return;
        }
        int n = ++t->called;
        t->cancelled = cancelled;
        t->called_at = now();
        mc::obs("timer #%zu calls back at %d%s", k, (int)now(), cancelled ? " (cancelled)" : "");
        if (n > 1)
            mc::fail(props, "callback-twice", "timer #%zu (%d ms) called back %d times", k, t->interval, n);
        if (cancelled) {
            if (!t->cancel_asked && !going_down())
                mc::fail(props, "spurious-cancel", "timer #%zu (%d ms) reports cancellation, but nobody cancelled it", k, t->interval);
        } else {
            if (now() < t->started + t->interval * unit - slack)
                mc::fail(props, "fired-early", "timer #%zu (%d ms) started at %d fired at %d", k, t->interval, (int)t->started, (int)now());
            if (late && now() > t->started + t->interval * unit + late)
                mc::fail(props, "fired-late", "timer #%zu (%d ms) started at %d fired at %d", k, t->interval, (int)t->started, (int)now());
            if (t->cancel_asked)
                mc::fail(props, "fired-after-cancel", "timer #%zu (%d ms) fired as elapsed after it had been cancelled", k, t->interval);
            if (check_order)
                for (size_t i = 0; i < ts.size(); ++i)
                    if (i != k && !ts[i].called && !ts[i].cancel_asked && ts[i].started + ts[i].interval * unit + slack < t->started + t->interval * unit)
                        mc::fail(props, "fired-out-of-order", "timer #%zu (deadline %d) fired before timer #%zu (deadline %d)", k,
                                 int(t->started + t->interval), i, int(ts[i].started + ts[i].interval));
        }
        int a = calls < 2 ? acts[calls] : A_NONE;
        ++calls;
        auto p = pending();
        switch (a) {
        case A_S10:
            do_start(10);
            break;
        case A_S0:
            do_start(0);
            break;
        case A_CFIRST:
            if (!p.empty())
                do_cancel(p.front());
            break;
        case A_CALL:
            for (auto x : p)
                if (!ts[x].called && !ts[x].cancel_asked)
                    do_cancel(x);
            break;
        case A_DOWN:
            shutdown();
            break;
        }
    }
    // nothing more can happen
    void final() {
        for (size_t i = 0; i < ts.size(); ++i)
            if (ts[i].called != 1)
                mc::fail(props, "no-callback", "timer #%zu (%d ms, started at %d%s) called back %d times", i, ts[i].interval, (int)ts[i].started,
                         ts[i].cancel_asked ? ", cancelled" : "", ts[i].called);
    }
};
