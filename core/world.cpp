#include "world.hpp"
#include "race.hpp"
#include <cstring>
#include <sys/time.h>

namespace {
int64_t g_virtual_ms = 0; // of the current world
}

// the library reads the wall clock through boost::posix_time (gettimeofday): virtual time instead
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept {
    int64_t ms = 1600000000000ll + g_virtual_ms;
    tv->tv_sec = ms / 1000;
    tv->tv_usec = (ms % 1000) * 1000;
    return 0;
}

namespace h {

void Probe::check(const char *what) {
    if (w->dead)
        return;
    // init_start is invoked by the creator of a supervisor with its own event loop
    bool creation = !strcmp(what, "init_start");
    if (w->cur && loc && w->cur != loc && !creation)
        mc::fail("P24", "foreign-context", "%s of %s runs in the event loop #%d instead of its own #%d", what, name.c_str(), w->cur->idx, loc->idx);
    if (n_shut_finish) {
        ++n_after;
        mc::fail("P04,P06", "call-after-shutdown", "%s of %s is called after its shutdown has been finished", what, name.c_str());
    }
}

void mcctx_t::on_error(r::actor_base_t *actor, const extended_error_ptr_t &ec) noexcept {
    std::string who = actor ? actor->get_identity() : "-";
    std::string text = ec->message();
    mc::obs("on_error %s", ec->ec.message().c_str());
    if (w->on_fatal && w->on_fatal(actor, ec))
        return;
    if (w->dead)
        return;
    w->dead = true;
    std::string name = "?";
    for (auto &p : w->probes)
        if (actor && p.ptr == actor)
            name = p.name;
    w->fatal = name + ": " + text;
    mc::fail(w->blame.c_str(), "fatal-error", "unexpected fatal error reported to the system context by %s: %s", name.c_str(), text.c_str());
}

static World *race_world;
World::World(int nlocs, unsigned layout) {
#ifdef BW_INSPECT
    inspect_level("99");
#endif
    mc::arena_layout(layout);
    race::reset();
    race_world = this;
    race::current = [] { return race_world->cur ? race_world->cur->idx : -1; };
    for (int i = 0; i < nlocs; ++i) {
        locs.emplace_back();
        locs.back().w = this;
        locs.back().idx = i;
    }
    ctx.reset(new mcctx_t());
    ctx->w = this;
    g_virtual_ms = 0;
}
World::~World() { race::current = [] { return -1; }; }

void msup_base::enqueue(message_ptr_t m) noexcept { PB->w->enqueue(static_cast<msup_t &>(*this), std::move(m)); }

void World::enqueue(msup_t &sup, message_ptr_t m) {
    Loc &l = *sup.loc;
    race::release(m.get());
    l.inbox.push_back({&sup, std::move(m)});
    if (k_preempt && cur && cur != &l && !l.running && !stop()) {
        // the event loop of the destination runs right now, concurrently with the sender
        if (pick(2, "preempt-on-send")) {
            process(l, l.inbox.size());
        }
    }
}

namespace {
struct tick_msg final : r::message_base_t {
    Loc *l;
    static const char *type() { return "tick"; }
    tick_msg(Loc *l_, const address_ptr_t &a) : r::message_base_t(type(), a), l{l_} {}
    ~tick_msg() override {
        if (l->w->ticking && l->running)
            l->w->tick_handler(*l);
    }
};
} // namespace

bool World::want_ticks(Loc &l) const {
    for (auto &i : injs)
        if (!i.done && i.loc == &l)
            return true;
    return false;
}

void World::put_tick(Loc &l, size_t pos) {
    auto &q = l.leader->q();
    if (q.empty())
        return;
    if (pos > q.size())
        pos = q.size();
    q.insert(q.begin() + pos, message_ptr_t(new tick_msg(&l, l.leader->get_address())));
}

void World::run_inj(Inj &i) {
    i.done = true;
    mc::obs("inject: %s", i.name.c_str());
    i.fn();
}

void World::tick_handler(Loc &l) {
    if (stop())
        return;
    while (true) {
        std::vector<Inj *> en;
        for (auto &i : injs)
            if (!i.done && i.loc == &l && (!i.enabled || i.enabled()))
                en.push_back(&i);
        if (en.empty())
            break;
        int k = pick(int(en.size()) + 1, "inject");
        if (!k)
            break;
        run_inj(*en[k - 1]);
    }
    if (want_ticks(l))
        put_tick(l, 1);
}

// runs all queues of the event loop
void World::drain(Loc &l) {
    if (want_ticks(l)) {
        ticking = true;
        put_tick(l, 0);
    }
    for (size_t i = 0; i < sups.size(); ++i) // there may be several leaders: supervisors of the same loop with a parent in another one
        if (sups[i]->loc == &l && sups[i]->leads() && !sups[i]->q().empty())
            sups[i]->do_process();
}

// nobody may touch the queue of a foreign event loop: besides of the data race, the messages are
// not processed until something else wakes the loop up
void World::check_queues() {
    if (cur || stop())
        return;
    for (auto &s : sups)
        if (s->loc && s->leads() && !s->q().empty() && !s->loc->kick && !s->loc->fresh && !s->loc->running)
            mc::fail("P24,P01", "foreign-queue", "the queue of messages of the event loop #%d is changed by another event loop (#%d)", s->loc->idx, last ? last->idx : -1);
}

void World::process(Loc &l, size_t n) {
    mc::step();
    auto saved = cur;
    cur = &l;
    l.running = true;
    l.kick = l.fresh = false;
    for (size_t i = 0; i < n && !l.inbox.empty(); ++i) {
        auto in = std::move(l.inbox.front());
        l.inbox.pop_front();
        race::acquire(in.m.get());
        in.sup->q().emplace_back(std::move(in.m));
    }
    drain(l);
    l.running = false;
    cur = saved;
    last = &l;
    check_queues();
    if (invariant && !stop() && !cur)
        invariant();
}

void World::fire(Loc &l, std::list<TimerRec>::iterator it) {
    mc::step();
    auto saved = cur;
    cur = &l;
    l.running = true;
    l.kick = l.fresh = false;
    ++fired;
    TimerRec t = *it;
    l.timers.erase(it);
    if (t.deadline > now)
        now = g_virtual_ms = t.deadline;
    if (on_fire)
        on_fire(t);
    mc::obs("t=%d timer of loop %d (interval %d)", int(now), l.idx, t.interval);
    t.handler->owner->access<hto::trig, request_id_t, bool>(t.id, false);
    drain(l);
    l.running = false;
    cur = saved;
    last = &l;
    check_queues();
    if (invariant && !stop() && !cur)
        invariant();
}

bool World::step() {
    if (stop())
        return false;
    struct E {
        int kind; // 0 one message, 1 everything, 2 op, 3 timer, 4 injection
        Loc *l;
        size_t i;
        std::list<TimerRec>::iterator t;
    };
    std::vector<E> ev;
    auto add_loc = [&](Loc &l) {
        if (!l.leader)
            return;
        if (!l.inbox.empty() || l.kick) {
            ev.push_back({0, &l, 1, {}});
            if (k_all && l.inbox.size() > 1)
                ev.push_back({1, &l, l.inbox.size(), {}});
        }
    };
    if (last)
        add_loc(*last);
    for (auto &l : locs)
        if (&l != last)
            add_loc(l);
    bool quiet = ev.empty();
    if (next_op < ops.size() && (!ops[next_op].enabled || ops[next_op].enabled())) {
        ev.push_back({2, nullptr, next_op, {}});
    } else if (quiet) {
        for (size_t i = 0; i < injs.size(); ++i)
            if (!injs[i].done && injs[i].must && (!injs[i].enabled || injs[i].enabled())) {
                ev.push_back({4, injs[i].loc, i, {}});
                break;
            }
    }
    bool only_timers = ev.empty();
    if (only_timers && !k_idle_timers)
        return false;
    std::vector<E> tv;
    bool patient = false;
    if (k_patient)
        for (auto &l : locs)
            patient |= !l.timers.empty() && fireable(l.timers.front().interval);
    for (auto &l : locs) {
        if (l.timers.empty())
            continue;
        auto it = l.timers.begin(); // the earliest of the loop
        if ((!only_timers || patient) && (!k_timers || !fireable(it->interval)))
            continue;
        tv.push_back({3, &l, 0, it});
    }
    std::stable_sort(tv.begin(), tv.end(), [](const E &a, const E &b) { return a.t->deadline < b.t->deadline; });
    ev.insert(ev.end(), tv.begin(), tv.end());
    if (ev.empty())
        return false;
    if (fired > max_fired)
        return false;
    int k = pick(int(ev.size()), "event");
    auto &e = ev[k];
    switch (e.kind) {
    case 0:
    case 1:
        process(*e.l, e.i);
        break;
    case 2: {
        auto &o = ops[next_op++];
        mc::obs("op: %s", o.name.c_str());
        mc::step();
        race::barrier();
        o.fn();
        race::barrier();
        break;
    }
    case 3:
        fire(*e.l, e.t);
        break;
    case 4: {
        mc::step();
        auto saved = cur;
        race::barrier();
        cur = e.l;
        run_inj(injs[e.i]);
        cur = saved;
        race::barrier();
        e.l->kick = true;
        break;
    }
    }
    return !stop();
}

void World::run() {
    while (step()) {
    }
}

void World::boot() {
    for (auto &s : sups)
        s->start();
}

void World::root_shutdown() { sups[0]->shutdown(); }

void World::dump() {
    for (auto &p : probes)
        fprintf(stderr, "  %s: created %d init_start %d init_finish %d start %d shut_start %d shut_finish %d dtor %d\n", p.name.c_str(), p.created,
                p.n_init_start, p.n_init_finish, p.n_start, p.n_shut_start, p.n_shut_finish, p.n_dtor);
}

void World::end(bool shutdown) {
    run();
    if (shutdown && !stop() && !sups.empty() && !probes.empty() && sups[0]->P->n_shut_start == 0) {
        mc::obs("final shutdown");
        root_shutdown();
        run();
    }
    if (!stop()) {
        for (auto &p : probes) {
            if (p.ptr && p.n_init_start && !p.down()) {
                mc::fail(blame.c_str(), "stuck",
                         "the system is quiescent, but %s is not shut down (init_finish %d, start %d, shutdown_start %d)", p.name.c_str(),
                         p.n_init_finish, p.n_start, p.n_shut_start);
            }
        }
    }
    if (!stop()) {
        for (auto &l : locs)
            for (auto &t : l.timers)
                mc::fail("P03,P04,P05", "timer-left", "a timer (interval %d) is still armed after everything is shut down", t.interval);
    }
    if (mc::verbose && stop())
        dump();
    if (stop()) {
        // the state is not trustworthy any more: abandon it (the arena is wiped)
        if (mc::warming()) {
            return;
        }
        return;
    }
    for (auto &l : locs)
        l.inbox.clear();
    ticking = false;
    injs.clear();
    ops.clear();
    sups.clear();
    ctx.reset();
    for (auto &p : probes)
        if (p.created && p.ptr)
            mc::fail("P17", "leak", "%s is shut down and released, but never destroyed", p.name.c_str());
    auto self = this;
    delete self;
    if (!mc::warming() && mc::arena_live()) {
        if (mc::verbose)
            mc::arena_dump(20);
        mc::fail("P17", "leak", "%zu allocations (%zu bytes) are leaked after the system is shut down and released", mc::arena_live(),
                 mc::arena_live_bytes());
    }
}

msup_t *make_root(World &w, Probe &p, int loc, const SupOpt &o) {
    p.loc = &w.loc(loc);
    p.is_sup = true;
    msup_t *res = nullptr;
    auto f = [&](auto builder) {
        auto s = std::move(builder)
                     .init_timeout(ms(o.init_timeout))
                     .shutdown_timeout(ms(o.shut_timeout))
                     .policy(o.policy)
                     .create_registry(o.registry)
                     .synchronize_start(o.sync)
                     .registry_address(o.registry_addr)
                     .escalate_failure(o.escalate)
                     .autoshutdown_supervisor(o.autoshutdown)
                     .probe(&p)
                     .finish();
        if (s) {
            res = s.get();
            w.sups.emplace_back(res);
        }
    };
    if (o.plain)
        f(w.ctx->create_supervisor<msup_plain_t>());
    else
        f(w.ctx->create_supervisor<msup_insp_t>());
    return res;
}

msup_t *make_sup(World &w, Probe &p, int loc, msup_t &parent, const SupOpt &o) {
    p.loc = &w.loc(loc);
    p.parent = parent.P;
    p.is_sup = true;
    msup_t *res = nullptr;
    auto f = [&](auto builder) {
        auto s = std::move(builder)
                     .init_timeout(ms(o.init_timeout))
                     .shutdown_timeout(ms(o.shut_timeout))
                     .policy(o.policy)
                     .create_registry(o.registry)
                     .synchronize_start(o.sync)
                     .registry_address(o.registry_addr)
                     .escalate_failure(o.escalate)
                     .autoshutdown_supervisor(o.autoshutdown)
                     .probe(&p)
                     .finish();
        if (s) {
            res = s.get();
            w.sups.emplace_back(res);
        }
    };
    if (o.plain)
        f(parent.create_actor<msup_plain_t>());
    else
        f(parent.create_actor<msup_insp_t>());
    return res;
}

r::intrusive_ptr_t<act_t> make_act(World &w, Probe &p, msup_t &sup, const ActOpt &o) {
    (void)w;
    p.loc = sup.loc;
    p.parent = sup.P;
    return sup.create_actor<act_t>()
        .init_timeout(ms(o.init_timeout))
        .shutdown_timeout(ms(o.shut_timeout))
        .escalate_failure(o.escalate)
        .autoshutdown_supervisor(o.autoshutdown)
        .spawner_address(o.spawner)
        .probe(&p)
        .finish();
}

} // namespace h

int main(int argc, char **argv) {
#ifdef BW_RACE
    mc::every_property = "P26";
    mc::bound_less = 1;
#endif
#ifdef BW_INSPECT
    mc::every_property = "P27";
    mc::every_property_judges_all = true;
    mc::bound_less = 1;
    h::inspect_init();
#endif
    return mc::main(argc, argv, BW_ENGINE);
}
