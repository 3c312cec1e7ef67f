// libev replaced at link time: the same interface, but the loops are run by fibers of the controlled scheduler
#pragma once
#include <ev.h>
#include <cstdint>
#include <vector>
struct ev_loop {
    int fiber = -1;
    int64_t now = 0;
    std::vector<ev_timer *> timers;
    std::vector<ev_async *> asyncs;
    std::vector<ev_watcher *> pending;
    bool running = false, destroyed = false;
};
namespace fake_ev {
struct ev_loop *make(int fiber);
void run(struct ev_loop *);
} // namespace fake_ev
