#include "sched.hpp"
#include "race.hpp"
#include <cassert>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace thr {
void tss_reset();
namespace {
constexpr int MAXT = 10;
constexpr size_t STACK = 512 * 1024;
enum St { RUN, MUTEX, CV, SLEEP, OBJ, QUIET, DONE };
const char *st_names[] = {"runnable", "mutex", "condition variable", "sleeping", "waiting", "environment", "finished"};
constexpr int64_t NEVER = INT64_MAX;
struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    St st = DONE;
    void *obj = nullptr;       // what it is blocked on
    void *mtx = nullptr;       // mutex of the condition variable
    int64_t deadline = NEVER;
    bool timed_out = false;
    bool only_quiet = false;
    const std::function<bool()> *enabled = nullptr;
    std::function<void()> *fn = nullptr;
    char name[32] = {};
};
Fiber fib[MAXT];
int nf = 0, cur = -1;
void *main_sp = nullptr;
bool running = false, in_sched = false, virt = false, quiet_flag = false;
int64_t t_us = 0;
Knobs *kn = nullptr;
struct Mtx {
    void *m;
    int owner;
} mtxs[64];
int nm = 0;
struct Q {
    void *q;
    const size_t *n;
} qs[64];
int nq = 0;
constexpr int64_t BASE_US = 1600000000000000ll;

// callee-saved registers are kept on the stack of the fiber
extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

Mtx *mtx(void *m, bool create) {
    for (int i = 0; i < nm; ++i)
        if (mtxs[i].m == m)
            return &mtxs[i];
    if (!create)
        return nullptr;
    for (int i = 0; i < nm; ++i)
        if (mtxs[i].owner < 0) {
            mtxs[i].m = m;
            return &mtxs[i];
        }
    assert(nm < 64);
    mtxs[nm] = Mtx{m, -1};
    return &mtxs[nm++];
}
bool stopped() { return mc::failed() || mc::failing_or_over() || (kn && kn->stop && kn->stop()); }

void to_main() {
    int me = cur;
    cur = -1;
    mc_switch(&fib[me].sp, main_sp);
}
void switch_to(int k) {
    int me = cur;
    if (k == me)
        return;
    cur = k;
    mc_switch(&fib[me].sp, fib[k].sp);
}
int64_t nearest() {
    int64_t d = NEVER;
    for (int i = 0; i < nf; ++i)
        if ((fib[i].st == CV || fib[i].st == SLEEP || fib[i].st == OBJ) && fib[i].deadline < d)
            d = fib[i].deadline;
    return d;
}
// time goes on up to the deadline d: everybody whose deadline is reached becomes runnable
void expire(int64_t d) {
    if (d > t_us)
        t_us = d;
    for (int i = 0; i < nf; ++i) {
        auto &f = fib[i];
        if ((f.st == CV || f.st == SLEEP || f.st == OBJ) && f.deadline <= t_us) {
            f.timed_out = true;
            if (f.st == CV) {
                auto m = mtx(f.mtx, true);
                if (m->owner >= 0) {
                    f.st = MUTEX;
                    f.obj = f.mtx;
                    f.deadline = NEVER;
                    continue;
                }
                m->owner = i;
            }
            f.st = RUN;
            f.deadline = NEVER;
        }
    }
}
bool env_ready(Fiber &f, bool quiet) {
    if (f.st != QUIET || (f.only_quiet && !quiet))
        return false;
    return !f.enabled || !*f.enabled || (*f.enabled)();
}
// picks the next fiber; the current one may be blocked. Returns in the context of the current fiber, when it is scheduled again
void schedule(const char *what) {
    if (stopped()) {
        to_main();
        return;
    }
    mc::step();
    in_sched = true;
    int opt[MAXT + 1];
    int n = 0;
    bool was_running = fib[cur].st == RUN;
    for (int round = 0;; ++round) {
        n = 0;
        for (int k = 0; k < nf; ++k) { // the current one first, the others round robin
            int i = (cur + k) % nf;
            if (fib[i].st == RUN)
                opt[n++] = i;
        }
        if (n)
            break;
        // nobody is able to run
        if (kn->on_idle) {
            kn->on_idle();
            if (stopped()) {
                in_sched = false;
                to_main();
                return;
            }
        }
        int64_t d = nearest();
        if (d == NEVER || d - t_us >= kn->quiet_horizon_us) {
            for (int i = 0; i < nf && !n; ++i)
                if (fib[i].st == QUIET) {
                    fib[i].st = RUN;
                    quiet_flag = true;
                    opt[n++] = i;
                }
            if (n)
                break;
            // the environment has nothing to do any more
            bool env_waits = false;
            for (int i = 0; i < nf; ++i)
                env_waits |= fib[i].st == QUIET;
            if (d == NEVER || (!env_waits && !kn->run_on)) {
                in_sched = false;
                to_main(); // everything is finished or stuck
                return;
            }
        }
        if (round > 2000) {
            mc::fail("*", "no-progress", "time goes on and on, but nothing happens: %s", status().c_str());
            in_sched = false;
            to_main();
            return;
        }
        expire(d);
    }
    int forced = n;
    int env = -1, tm = -1;
    if (kn->points) {
        for (int i = 0; i < nf; ++i)
            if (env_ready(fib[i], false)) {
                env = n;
                opt[n++] = i;
            }
        int64_t d = nearest();
        if (kn->time_dev && d != NEVER && d - t_us < kn->quiet_horizon_us && (!kn->may_jump || kn->may_jump(d))) {
            tm = n;
            opt[n++] = -1;
        }
    } else
        n = 1;
    (void)forced;
    (void)was_running;
    int c = mc::choose(n, mc::DEV, what);
    int to = opt[c];
    if (c == tm && tm >= 0) {
        expire(nearest());
        to = -1;
        for (int k = 1; k <= nf; ++k) { // one of those which have been woken up
            int i = (cur + k) % nf;
            if (fib[i].st == RUN) {
                to = i;
                break;
            }
        }
        if (to < 0)
            to = cur;
    } else if (c == env && env >= 0) {
        fib[to].st = RUN;
        quiet_flag = false;
    }
    in_sched = false;
    switch_to(to);
}

void entry() {
    auto fn = fib[cur].fn;
    (*fn)();
    {
        mc::ArenaOff off;
        delete fn;
    }
    fib[cur].fn = nullptr;
    fib[cur].st = DONE;
    schedule("thread end");
    abort();
}
void block(St st, void *obj, int64_t deadline, const char *what) {
    auto &f = fib[cur];
    f.st = st;
    f.obj = obj;
    f.deadline = deadline;
    f.timed_out = false;
    schedule(what);
}
} // namespace

Knobs &knobs() { return *kn; }
bool active() { return running && cur >= 0 && !in_sched; }
int self() { return running ? cur : -1; }
int64_t now_us() { return t_us; }
void advance_us(int64_t us) { t_us += us; }
void virtual_time(bool on) { virt = on; }
bool quiescent() { return quiet_flag; }
bool is_waiting(int t) { return fib[t].st == CV || fib[t].st == OBJ; }
bool anybody_sleeps() {
    for (int i = 0; i < nf; ++i)
        if (fib[i].st == SLEEP)
            return true;
    return false;
}
bool is_done(int t) { return fib[t].st == DONE; }
bool all_done() {
    for (int i = 0; i < nf; ++i)
        if (fib[i].st != DONE)
            return false;
    return true;
}
std::string status() {
    std::string r;
    for (int i = 0; i < nf; ++i) {
        r += std::string(i ? ", " : "") + fib[i].name + ": " + st_names[fib[i].st];
        if (fib[i].st == CV || fib[i].st == SLEEP || fib[i].st == OBJ)
            r += fib[i].deadline == NEVER ? " for ever" : " for " + std::to_string((fib[i].deadline - t_us) / 1000) + " ms";
    }
    return r;
}
void reset() {
    mc::ArenaOff off;
    for (auto &f : fib) {
        auto st = f.stack;
        f = Fiber{};
        f.stack = st;
    }
    nf = 0;
    cur = -1;
    nm = nq = 0;
    tss_reset();
    running = in_sched = quiet_flag = false;
    t_us = 1000000;
    delete kn;
    kn = new Knobs();
    race::reset();
    race::current = [] { return active() ? self() : -1; };
}
int spawn(const char *name, std::function<void()> fn) {
    assert(nf < MAXT);
    mc::ArenaOff off;
    auto &f = fib[nf];
    if (!f.stack) {
        f.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        assert(f.stack != MAP_FAILED);
        mprotect(f.stack, 4096, PROT_NONE);
    }
    snprintf(f.name, sizeof f.name, "%s", name);
    f.fn = new std::function<void()>(std::move(fn));
    f.st = RUN;
    void **sp = (void **)(f.stack + STACK);
    *--sp = nullptr;        // alignment: entry() is entered as if it were called
    *--sp = (void *)&entry; // return address of mc_switch
    for (int i = 0; i < 6; ++i)
        *--sp = nullptr;
    f.sp = sp;
    return nf++;
}
void run() {
    if (!nf || stopped())
        return;
    running = true;
    cur = 0;
    mc_switch(&main_sp, fib[0].sp);
    running = false;
    cur = -1;
}
void point(const char *what) {
    if (!active())
        return;
    schedule(what);
}
void sleep_us(int64_t us) {
    if (!active()) {
        t_us += us;
        return;
    }
    block(SLEEP, nullptr, t_us + us, "sleep");
}
bool wait_on(void *obj, int64_t deadline) {
    block(OBJ, obj, deadline, "wait");
    return !fib[cur].timed_out;
}
void wake(void *obj) {
    for (int i = 0; i < nf; ++i)
        if (fib[i].st == OBJ && fib[i].obj == obj) {
            fib[i].st = RUN;
            fib[i].deadline = NEVER;
        }
}
void wait_quiet(const std::function<bool()> &enabled, bool only_quiet) {
    auto &f = fib[cur];
    f.enabled = &enabled;
    f.only_quiet = only_quiet;
    block(QUIET, nullptr, NEVER, "environment");
}

void pushed() {
    if (kn && kn->after_push)
        point("pushed");
}
void sync_push(const void *q, int stage) {
    if (!stage) {
        race::release(q);
        race::ignore(1);
    } else
        race::ignore(-1);
}
void sync_pop(const void *q, int stage) {
    if (!stage)
        race::ignore(1);
    else {
        race::ignore(-1);
        race::acquire(q);
    }
}
void queue_add(void *q, const size_t *n) {
    assert(nq < 64);
    qs[nq++] = Q{q, n};
}
void queue_del(void *q) {
    for (int i = 0; i < nq; ++i)
        if (qs[i].q == q) {
            qs[i] = qs[--nq];
            return;
        }
}
size_t queue_size(const void *q) {
    for (int i = 0; i < nq; ++i)
        if (qs[i].q == q)
            return *qs[i].n;
    return 0;
}
size_t queues_nonempty() {
    size_t r = 0;
    for (int i = 0; i < nq; ++i)
        r += *qs[i].n > 0;
    return r;
}

// --- what the system under test calls ---------------------------------------------------------------------------------
static void lpoint(const char *what) {
    if (kn->lock_points)
        point(what);
}
static int do_lock(void *m, bool try_) {
    lpoint("mutex lock");
    while (true) {
        auto x = mtx(m, true);
        if (x->owner < 0) {
            x->owner = cur;
            race::acquire(m);
            return 0;
        }
        if (try_)
            return EBUSY;
        if (x->owner == cur) {
            mc::fail("*", "self-deadlock", "thread '%s' locks a mutex, which it already owns", fib[cur].name);
            to_main();
        }
        block(MUTEX, m, NEVER, "mutex is busy");
    }
}
static int do_unlock(void *m) {
    auto x = mtx(m, false);
    if (!x || x->owner != cur) {
        mc::fail("*", "bad-unlock", "thread '%s' unlocks a mutex, which it does not own", fib[cur].name);
        return 0;
    }
    race::release(m);
    x->owner = -1;
    for (int i = 0; i < nf; ++i)
        if (fib[i].st == MUTEX && fib[i].obj == m) {
            fib[i].st = RUN; // they compete; those inside of the condition variable lock it again below
        }
    lpoint("mutex unlock");
    return 0;
}
static int do_wait(void *cv, void *m, int64_t deadline) {
    lpoint("wait");
    auto x = mtx(m, true);
    if (x->owner != cur)
        mc::fail("*", "wait-without-lock", "condition variable is waited for without the lock");
    race::release(m);
    x->owner = -1;
    for (int i = 0; i < nf; ++i)
        if (fib[i].st == MUTEX && fib[i].obj == m)
            fib[i].st = RUN;
    auto &f = fib[cur];
    f.mtx = m;
    block(CV, cv, deadline, "waiting");
    bool to = fib[cur].timed_out;
    // lock again
    while (true) {
        auto y = mtx(m, true);
        if (y->owner == cur)
            break;
        if (y->owner < 0) {
            y->owner = cur;
            break;
        }
        block(MUTEX, m, NEVER, "mutex is busy");
    }
    race::acquire(m);
    return to ? ETIMEDOUT : 0;
}
static void do_notify(void *cv, bool all) {
    lpoint("notify");
    int w[MAXT], n = 0;
    for (int k = 1; k <= nf; ++k) {
        int i = (cur + k) % nf;
        if (fib[i].st == CV && fib[i].obj == cv)
            w[n++] = i;
    }
    if (!n)
        return;
    int c = all ? -1 : mc::choose(n, mc::DEV, "who is notified");
    for (int i = 0; i < n; ++i)
        if (c < 0 || c == i) {
            auto &f = fib[w[i]];
            f.st = RUN; // it locks the mutex, when it is scheduled
            f.deadline = NEVER;
            f.timed_out = false;
        }
}
static int64_t from_ts(const timespec *ts, clockid_t clk) {
    int64_t us = int64_t(ts->tv_sec) * 1000000 + (ts->tv_nsec + 999) / 1000;
    return clk == CLOCK_REALTIME ? us - BASE_US : us;
}
template <typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
} // namespace thr

using namespace thr;

// keys of the threads: only what is set inside of a controlled thread is its own
namespace {
constexpr int MAXK = 64;
const void *tss[MAXT][MAXK];
char selecting; // everybody who is inside of select()
} // namespace
void thr::tss_reset() { memset(tss, 0, sizeof tss); }

extern "C" {
void *pthread_getspecific(pthread_key_t k) noexcept {
    if (active() && k < MAXK)
        return const_cast<void *>(tss[cur][k]);
    static auto f = real<void *(*)(pthread_key_t)>("pthread_getspecific");
    return f(k);
}
int pthread_setspecific(pthread_key_t k, const void *v) noexcept {
    if (active() && k < MAXK) {
        tss[cur][k] = v;
        return 0;
    }
    static auto f = real<int (*)(pthread_key_t, const void *)>("pthread_setspecific");
    return f(k, v);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, timeval *t) {
    static auto f = real<int (*)(int, fd_set *, fd_set *, fd_set *, timeval *)>("select");
    if (!active())
        return f(n, r, w, e, t);
    int64_t deadline = t ? t_us + int64_t(t->tv_sec) * 1000000 + t->tv_usec : NEVER;
    fd_set r0, w0, e0;
    FD_ZERO(&r0);
    FD_ZERO(&w0);
    FD_ZERO(&e0);
    while (true) {
        timeval zero{0, 0};
        fd_set r1 = r ? *r : r0, w1 = w ? *w : w0, e1 = e ? *e : e0;
        int c = f(n, &r1, &w1, &e1, &zero);
        if (c || deadline <= t_us) {
            if (c)
                race::acquire(&selecting);
            if (r)
                *r = r1;
            if (w)
                *w = w1;
            if (e)
                *e = e1;
            return c;
        }
        wait_on(&selecting, deadline);
    }
}
ssize_t write(int fd, const void *b, size_t n) {
    if (active())
        race::release(&selecting);
    ssize_t c = syscall(SYS_write, fd, b, n);
    if (active())
        wake(&selecting);
    return c;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (active())
        return do_lock(m, false);
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (active())
        return do_lock(m, true);
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (active())
        return do_unlock(m);
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return f(m);
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (active())
        return do_wait(c, m, INT64_MAX);
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait");
    return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
    if (active())
        return do_wait(c, m, from_ts(ts, CLOCK_REALTIME));
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait");
    return f(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const timespec *ts) {
    if (active())
        return do_wait(c, m, from_ts(ts, clk));
    static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
    return f(c, m, clk, ts);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (active()) {
        do_notify(c, false);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal");
    return f(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (active()) {
        do_notify(c, true);
        return 0;
    }
    static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast");
    return f(c);
}
int sched_yield() noexcept {
    if (active()) {
        point("yield");
        return 0;
    }
    return syscall(SYS_sched_yield);
}
int nanosleep(const timespec *ts, timespec *rem) {
    if (active()) {
        sleep_us(int64_t(ts->tv_sec) * 1000000 + ts->tv_nsec / 1000);
        return 0;
    }
    return syscall(SYS_nanosleep, ts, rem);
}
int clock_nanosleep(clockid_t clk, int flags, const timespec *ts, timespec *rem) {
    if (active()) {
        int64_t us = from_ts(ts, flags & TIMER_ABSTIME ? clk : CLOCK_MONOTONIC);
        if (flags & TIMER_ABSTIME)
            us -= t_us;
        sleep_us(us > 0 ? us : 0);
        return 0;
    }
    return syscall(SYS_clock_nanosleep, clk, flags, ts, rem);
}
int clock_gettime(clockid_t clk, timespec *ts) noexcept {
    if (!virt)
        return syscall(SYS_clock_gettime, clk, ts);
    if (active()) {
        lpoint("clock");
        t_us += kn->tick_us;
    }
    int64_t us = t_us + (clk == CLOCK_REALTIME ? BASE_US : 0);
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = us % 1000000 * 1000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    if (!virt) {
        timespec ts;
        int r = syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
        return r;
    }
    int64_t us = t_us + BASE_US;
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
}
