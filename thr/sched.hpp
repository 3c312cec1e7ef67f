// Controlled scheduler: the threads of the system under test are fibers of one OS thread. Every operation on a mutex,
// a condition variable, the lock-free inbound queue, the clock and every sleep is a scheduling point. Deviations from the
// deterministic round-robin schedule are chosen by the explorer (delay bounded exploration). Time is virtual.
#pragma once
#include "mc.hpp"
#include <functional>
#include <string>

namespace thr {
void reset();                                               // a new execution
int spawn(const char *name, std::function<void()> fn);      // a new thread
void run();                                                 // until every thread is finished, or nothing can be done any more
bool active();                                              // inside of run(), in one of the threads
int self();                                                 // index of the running thread, -1 outside
void point(const char *what);                               // scheduling point
void sleep_us(int64_t us);                                  // sleeps in virtual time
// blocks until something else has been done by other threads (on == any non-null object) or until the deadline
bool wait_on(void *obj, int64_t deadline_us);               // true: woken up, false: deadline
void wake(void *obj);                                       // wakes all waiters of the object
// the environment: blocks until the system is quiescent, i.e. nobody can run, or (a deviation) until an earlier moment, when
// enabled() holds. `only_quiet`: no earlier moments
void wait_quiet(const std::function<bool()> &enabled, bool only_quiet);
bool quiescent();                                           // the environment was resumed because of quiescence
int64_t now_us();
void advance_us(int64_t us);
void virtual_time(bool on);
bool all_done();
bool is_done(int thread);
bool is_waiting(int thread); // for a condition variable
bool anybody_sleeps();       // inside of a handler
std::string status();                                       // who is blocked on what
struct Knobs {
    int64_t quiet_horizon_us = 30000000; // the system is quiescent, if the next deadline is not nearer
    bool run_on = false;                 // time goes on though the environment is finished
    bool time_dev = true;                // deviations: time passes though threads are able to run
    bool points = true;                  // false: no deviations at all
    bool after_push = false;             // the moment after a push into a queue is a scheduling point, too
    bool lock_points = true;             // locks, condition variables and the clock are scheduling points
    int64_t tick_us = 1;                 // every look at the clock takes time
    std::function<void()> on_idle;       // nobody can run: invariants
    std::function<bool()> stop;          // the execution is over (failed)
    std::function<bool(int64_t)> may_jump; // deviation of time up to the given moment is allowed
};
Knobs &knobs();
// registry of inbound queues (lock-free queue shim)
void queue_add(void *q, const size_t *size);
void queue_del(void *q);
size_t queue_size(const void *q);
size_t queues_nonempty();
} // namespace thr
