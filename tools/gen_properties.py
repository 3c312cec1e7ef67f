#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording and anchors stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
core = "include/rotor/supervisor.h"
prop("P01", "Exactly-once delivery to every subscribed handler",
     "Every message sent to an address is delivered exactly once to each handler which is subscribed to its type on that address, whatever the event loops of sender, address owner and subscriber are, and to nothing else. A message without a matching subscriber is dropped without any effect. Payload, type and address arrive unchanged.",
     ["schedules", "programs", "configurations"], "all interleavings of 1-3 event loops (bounded deviations), all short send programs, all placements of sender, owner and foreign subscriber",
     "the tests run one fixed order of queue processing on hand-picked topologies",
     [core, "src/rotor/subscription.cpp", "src/rotor/plugin/delivery.cpp", "src/rotor/plugin/foreigners_support.cpp"],
     [("delivery loop", core + ": delivery_plugin_t::process"), ("recipients lookup", "src/rotor/subscription.cpp: get_recipients"), ("foreign calls", "src/rotor/plugin/foreigners_support.cpp: on_call")],
     ["actor message handlers"])
prop("P02", "Per-sender message order",
     "Messages sent by one actor to one address are handled by each subscriber in the order in which they were sent. This includes messages, requests and replies mixed with each other, inside of one event loop and across event loops. (A reply travels through the event loop of the requester; when it has been redirected to an address of yet another event loop it is ordered only with other replies of the same kind.)",
     ["schedules", "programs"], "all interleavings of 1-3 event loops, all short programs mixing plain messages, requests and responses",
     "order is only asserted by tests for single fixed scenarios; the reply path goes through an intermediate address and is not compared against plain messages",
     [core, "src/rotor/supervisor.cpp", "src/rotor/plugin/delivery.cpp"],
     [("queue order", core + ": delivery_plugin_t::process"), ("reply re-routing keeps its place", "src/rotor/supervisor.cpp: uplift_last_message")],
     ["actor message handlers"])
prop("P03", "A request gets exactly one outcome",
     "Every request sent by a live actor results in exactly one response: the responder's first reply (value or error), or, when the timeout expires first, a timeout error. The response carries the original request and goes to the requested reply address. Late, repeated or unsolicited replies are silently discarded.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of request, reply and timeout in one or two event loops, for responders which reply once, twice, late, never, with an error, out of order or to a second address",
     "tests fire the timeout or the reply, never every order of both, and do not re-use the reply path afterwards",
     [core, "src/rotor/supervisor.cpp", "include/rotor/request.hpp", "src/rotor/address_mapping.cpp"],
     [("request map", core + ": request_builder_t::send/install_handler"), ("timeout", "src/rotor/supervisor.cpp: on_request_trigger"), ("discard", "src/rotor/supervisor.cpp: discard_request")],
     ["response handlers"])
prop("P04", "Nothing outlives an actor's shutdown",
     "When an actor finishes its shutdown, all its timers have been cancelled and all its pending requests are dropped: none of them stays armed and no handler, timer or response callback of the actor is invoked afterwards. Messages which are still in flight to it are silently dropped.",
     ["schedules", "histories"], "all moments of shutdown relative to in-flight messages, replies, timeouts and timers, local and foreign",
     "tests shut down idle actors, or with one fixed in-flight item",
     ["src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/foreigners_support.cpp"],
     [("timers and requests are cancelled", "src/rotor/actor_base.cpp: shutdown_finish"), ("foreign call guard", "src/rotor/plugin/foreigners_support.cpp: on_call")],
     ["handlers of the shut down actor", "armed timers of the event loop"])
prop("P05", "A timer calls back exactly once",
     "A timer started by an actor calls back exactly once: with 'not cancelled' after its interval has elapsed and never before, or with 'cancelled' if it is cancelled first or the actor shuts down. Timers of one event loop with different deadlines fire in the order of their deadlines, and starting or cancelling timers from timer callbacks does not disturb others.",
     ["schedules", "histories"], "all short programs of start, cancel, expiry and shutdown over 3 timers, including operations inside of timer callbacks",
     "tests start one timer and either fire or cancel it",
     ["src/rotor/actor_base.cpp", "include/rotor/timer_handler.hpp", "src/rotor/thread/system_context_thread.cpp", "src/rotor/ev/supervisor_ev.cpp", "src/rotor/asio/supervisor_asio.cpp"],
     [("timers map", "src/rotor/actor_base.cpp: on_timer_trigger, cancel_timer"), ("shutdown cancels", "src/rotor/actor_base.cpp: shutdown_finish")],
     ["timer callbacks"])
prop("P06", "Actor life cycle order",
     "Every actor passes through its life cycle callbacks in the fixed order - initialization start, initialization finish, start, shutdown start, shutdown finish - each at most once; shutdown may cut the sequence short at any point but always runs shutdown start and then shutdown finish exactly once. An actor is not started before it is initialized, and never after its shutdown has begun.",
     ["schedules", "configurations", "fault_sequences"], "all moments of shutdown between any two messages, all failure points of actors and supervisors, all two-level trees",
     "tests check a few paths; shutdown is never injected between every two messages of initialization, start and shutdown",
     ["src/rotor/actor_base.cpp", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/child_manager.cpp"],
     [("plugins drive init/shutdown", "src/rotor/actor_base.cpp: init_continue, shutdown_continue"), ("start guard", "src/rotor/plugin/starter.cpp: on_start")],
     ["life cycle callbacks"])
prop("P07", "A supervisor is initialized only with its children",
     "A supervisor finishes its initialization only after every child created before that has finished initialization or has failed, and a supervisor starts after it is initialized. With synchronized start no child starts before all children are initialized and the supervisor itself starts; without it a child starts independently once it is initialized. If nothing fails, every actor of the tree becomes operational.",
     ["schedules", "configurations"], "all small trees over 1-3 event loops, with delayed initializations completing in every order",
     "tests have one delayed child at a time and a single event loop order",
     ["src/rotor/plugin/child_manager.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/supervisor.cpp"],
     [("init barrier", "src/rotor/plugin/child_manager.cpp: on_init, handle_init, init_continue"), ("synchronized start", "src/rotor/plugin/child_manager.cpp: handle_start")],
     ["life cycle callbacks"])
prop("P08", "Shutdown of a tree always completes, bottom-up",
     "A shutdown requested at any moment - before, during or after initialization or start, by the environment or by any actor - always completes without a fatal error: every actor below finishes its shutdown before its supervisor does, and the whole tree becomes shut down. Actors outside of the shut down subtree keep running unless a failure policy says otherwise.",
     ["schedules", "configurations", "histories"], "shutdown injected between any two messages and event loop steps, for all small trees, links, pending requests and resources",
     "tests request shutdown at a handful of chosen points",
     ["src/rotor/plugin/child_manager.cpp", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/supervisor.cpp", "src/rotor/actor_base.cpp"],
     [("shutdown protocol", "src/rotor/plugin/child_manager.cpp: on_shutdown_trigger, request_shutdown, on_shutdown_confirm"), ("plugins deactivation", "src/rotor/actor_base.cpp: shutdown_continue")],
     ["life cycle callbacks", "system context errors"])
prop("P09", "Failure policies and shutdown reasons",
     "When a child goes down before its supervisor is initialized, a supervisor with the default policy shuts down with all its children. A child which fails after the supervisor is initialized takes only itself down, whatever the policy is. Escalation of a failed actor and supervisor auto-shutdown take the supervisor down exactly when they are configured (escalation only if the actor shut down abnormally). The reason reported by an actor that is shut down by request, escalation, auto-shutdown or by its supervisor leads back, through its chain, to the original cause.",
     ["configurations", "fault_sequences"], "all combinations of policy, escalation, auto-shutdown, failure kind (timeout, refused, own shutdown) and failure point in two-level trees",
     "tests cover single combinations and compare only the outermost error code",
     ["src/rotor/actor_base.cpp", "src/rotor/plugin/child_manager.cpp", "src/rotor/extended_error.cpp", "include/rotor/policy.h"],
     [("policy", "src/rotor/plugin/child_manager.cpp: on_init, remove_child"), ("escalation", "src/rotor/actor_base.cpp: shutdown_start"), ("reason chain", "src/rotor/actor_base.cpp: assign_shutdown_reason")],
     ["life cycle callbacks", "shutdown reasons"])
prop("P10", "Linking keeps servers alive longer than clients",
     "A client linked to a server is initialized only after the server has accepted the link (and, for 'operational only' links, only after the server has started), and a server finishes its shutdown only after all its linked clients have been unlinked. When a server goes down its clients are asked to unlink exactly once each and by default shut down; when a client goes down it unlinks itself and the server keeps running. Linking to a server which is shutting down fails the client's initialization.",
     ["schedules", "configurations", "histories"], "all orders of link, start and shutdown between one server and one or two clients, and chains of three, in 1-3 event loops, shutdown injected between any two messages",
     "tests shut one side down in a quiescent system",
     ["src/rotor/plugin/link_client.cpp", "src/rotor/plugin/link_server.cpp"],
     [("server side", "src/rotor/plugin/link_server.cpp"), ("client side", "src/rotor/plugin/link_client.cpp")],
     ["link callbacks", "on_unlink", "life cycle callbacks"])
prop("P11", "The registry behaves as a map with promises",
     "The registry answers as a map from names to addresses: the first registration of a free name wins, a taken name is refused, discovery returns the current address or an 'unknown service' error, and de-registration by name or by address frees exactly the names concerned. A delayed discovery is answered once, as soon as the name is registered, or with a 'cancelled' error when it is cancelled, and never otherwise.",
     ["histories", "inputs"], "all operation sequences up to depth 5 over 2 names, 2 service addresses and 2 clients, compared step by step with a reference map",
     "tests run four short fixed histories",
     ["src/rotor/registry.cpp", "include/rotor/registry.h"],
     [("maps", "src/rotor/registry.cpp")], ["registry replies"])
prop("P12", "Declared names are discovered, registered and released",
     "An actor which declares names to register or to discover is initialized only after all of them have been resolved (and linked, if a link was requested), with the discovered addresses filled in, and its initialization fails if a name is refused or unknown. While it is operational its registered names are discoverable, and after its shutdown they are not; a pending delayed discovery never blocks shutdown.",
     ["schedules", "configurations", "histories"], "all creation orders and interleavings of servers and clients with several aliases, delayed or not, linked or not, shutdown injected between any two messages",
     "tests use one client and one server in one order",
     ["src/rotor/plugin/registry.cpp", "src/rotor/registry.cpp", "src/rotor/plugin/link_client.cpp"],
     [("discovery tasks", "src/rotor/plugin/registry.cpp: discovery_task_t"), ("registration", "src/rotor/plugin/registry.cpp: on_registration, handle_shutdown")],
     ["discovery callbacks", "life cycle callbacks", "registry replies"])
prop("P13", "Resources gate initialization and shutdown",
     "While an actor holds at least one resource it neither finishes initialization nor finishes shutdown, and it proceeds as soon as the last one is released. Resources are counted per identifier, in any order of acquire and release.",
     ["histories", "schedules"], "all sequences of acquire/release over 2 resources up to depth 5 in the initialization and shutdown phases, with releases by messages and timers",
     "tests acquire and release a single resource once",
     ["src/rotor/plugin/resources.cpp"],
     [("counter", "src/rotor/plugin/resources.cpp: acquire, release, has_any")], ["life cycle callbacks"])
prop("P14", "Spawned actors restart exactly as their policy says",
     "A spawned actor which goes down is re-created if and only if its restart policy asks for it for that kind of shutdown (always, never, only after normal, only after failure, or when the actor says so), never sooner than the restart period after the previous creation and never more than the maximal number of attempts. With escalation a final failure shuts the supervisor down. No actor is spawned any more once the supervisor shuts down, and shutdown completes even with a pending restart.",
     ["configurations", "histories", "fault_sequences"], "all combinations of policy, escalation, attempts, and sequences of normal exit, failure, failing factory, up to 4 generations, with supervisor shutdown at any moment",
     "tests cover selected policies with two generations",
     ["src/rotor/plugin/child_manager.cpp", "src/rotor/detail/child_info.cpp", "src/rotor/spawner.cpp"],
     [("decision", "src/rotor/detail/child_info.cpp: next_spawn"), ("restart timer", "src/rotor/plugin/child_manager.cpp: on_spawn_timer, on_spawn")],
     ["factory calls", "life cycle callbacks"])
prop("P15", "Subscriptions can be changed at run time",
     "A handler receives the messages which are processed at the address between the confirmation of its subscription and its unsubscription, and none after its unsubscription is confirmed; each subscription and unsubscription is confirmed once. Unsubscribing one handler never affects other handlers of the same message type or address, local or foreign.",
     ["histories", "schedules"], "all short programs of subscribe, unsubscribe and send over 2 handlers and local and foreign addresses, operations inside of handlers included",
     "tests unsubscribe one handler in a quiescent system",
     ["src/rotor/subscription.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/foreigners_support.cpp", "src/rotor/subscription_point.cpp"],
     [("subscription map", "src/rotor/subscription.cpp: materialize, forget"), ("unsubscription protocol", "src/rotor/plugin/lifetime.cpp")],
     ["message handlers"])
prop("P16", "Routed messages visit both addresses in turn",
     "A routed message is first delivered to the handlers at its first address and afterwards exactly once to the handlers at its second address, also when the first address has no handlers. A message which is redirected by a handler is delivered exactly once to its new address.",
     ["schedules", "configurations"], "all placements of sender and both addresses, with and without handlers and with handlers which keep the message, in 1-3 event loops",
     "tests route inside of one event loop with one handler",
     [core, "src/rotor/actor_base.cpp"],
     [("next route", core + ": delivery_plugin_t::process"), ("redirect", "src/rotor/actor_base.cpp: redirect")], ["message handlers"])
prop("P17", "No leaks and no use of dead objects",
     "After the root supervisor is shut down and the application drops its references, every actor, supervisor, message, handler and address created by the system is destroyed exactly once. No freed object is ever accessed in between, and no internal consistency assertion fails.",
     ["schedules", "histories", "configurations"], "every execution explored for the other properties of the core",
     "tests check a few maps for emptiness; leaks on rare interleavings are not visible to them",
     ["include/rotor/arc.hpp", "src/rotor/supervisor.cpp", "src/rotor/actor_base.cpp", "src/rotor/system_context.cpp", "src/rotor/plugin/lifetime.cpp"],
     [("reference counting", "include/rotor/arc.hpp"), ("inbound queue is released", "src/rotor/supervisor.cpp: ~supervisor_t")], ["allocator", "destructors"])
prop("P18", "Thread event loops never lose a message or a wake-up",
     "With the thread backend, messages sent between supervisors running in different threads, and shutdown requests from other threads, are each processed exactly once and in order. A sleeping event loop wakes up whenever a message arrives, no schedule of the threads deadlocks, and every event loop returns once its root supervisor is shut down.",
     ["schedules", "configurations"], "all schedules of 2-3 threads with a bounded number of preemptions at every lock, condition variable and queue operation, for poll durations of zero and more",
     "tests run on real threads and see whatever schedule the machine produces",
     ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp"],
     [("inbound queue and condition variable", "src/rotor/thread/supervisor_thread.cpp: enqueue"), ("event loop", "src/rotor/thread/system_context_thread.cpp: run")],
     ["message handlers", "return of the event loop"])
prop("P19", "Thread backend timers, blocking I/O handlers, shutdown flag",
     "With the thread backend a timer fires after its interval, not before and not twice, also while the loop is polling, sleeping or executing a handler tagged as blocking I/O; a timer started or cancelled from such a handler, or from a timer callback, behaves the same. Setting the shutdown flag shuts the supervisor down within its polling interval.",
     ["schedules", "histories"], "all orders of message arrival, expiry and flag setting with preemption-bounded thread schedules and virtual time, all short timer programs inside and outside of I/O handlers",
     "tests have one timer and real sleeping",
     ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/supervisor.cpp"],
     [("timer list", "src/rotor/thread/system_context_thread.cpp: update_time, start_timer, cancel_timer"), ("interception", "src/rotor/thread/supervisor_thread.cpp: intercept"), ("flag polling", "src/rotor/supervisor.cpp: on_shutdown_check_timer")],
     ["timer callbacks", "life cycle callbacks"])
prop("P20", "libev backend contract",
     "With the libev backend messages and shutdown requests coming from other threads or supervisors are processed exactly once and in order, whatever way the loop interleaves asynchronous wake-ups and timers. Timers call back exactly once, and after shutdown no watcher stays active in the loop.",
     ["schedules", "histories"], "all orders of watcher callbacks of 1-2 loops, of foreign enqueues around them, and of timer expiries and cancellations",
     "tests run a real loop with one order of events",
     ["src/rotor/ev/supervisor_ev.cpp"],
     [("async watcher", "src/rotor/ev/supervisor_ev.cpp: enqueue, on_async"), ("timers", "src/rotor/ev/supervisor_ev.cpp: do_start_timer, do_cancel_timer")],
     ["message handlers", "active watchers"])
prop("P21", "Boost.Asio backend contract",
     "With the Boost.Asio backend messages and shutdown requests posted from other threads or supervisors are processed exactly once and in order, timers call back exactly once, and after shutdown no work is left, so that the io context run ends by itself.",
     ["schedules", "histories"], "all orders in which the handlers of 1-2 io contexts and expiring timers can run, with cancellation races",
     "tests run a real io context with one order of events",
     ["src/rotor/asio/supervisor_asio.cpp", "include/rotor/asio/supervisor_asio.h", "include/rotor/asio/forwarder.hpp"],
     [("strand posting", "src/rotor/asio/supervisor_asio.cpp: enqueue, start, shutdown"), ("timers", "src/rotor/asio/supervisor_asio.cpp: do_start_timer, do_cancel_timer")],
     ["message handlers", "io context"])
prop("P22", "wxWidgets backend contract",
     "With the wxWidgets backend messages and shutdown requests arriving from outside are processed exactly once and in order through the event handler, timers call back exactly once, and after shutdown no timer is left running.",
     ["schedules", "histories"], "all orders of pending events and timer notifications, with cancellation",
     "tests run a real wx loop with one order of events",
     ["src/rotor/wx/supervisor_wx.cpp"],
     [("call after", "src/rotor/wx/supervisor_wx.cpp: enqueue, start, shutdown"), ("timers", "src/rotor/wx/supervisor_wx.cpp")],
     ["message handlers", "wx timers"])
prop("P23", "FLTK backend contract",
     "With the FLTK backend messages and shutdown requests arriving from other threads are processed exactly once and in order after the loop has been awakened, timers call back exactly once, and after shutdown no timeout is left registered.",
     ["schedules", "histories"], "all orders of awake callbacks, timeouts and foreign enqueues, with cancellation",
     "tests run a real FLTK loop with one order of events",
     ["src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/fltk/system_context_fltk.cpp"],
     [("awake", "src/rotor/fltk/system_context_fltk.cpp: enqueue"), ("timers", "src/rotor/fltk/supervisor_fltk.cpp")],
     ["message handlers", "registered timeouts"])
prop("P24", "Actor code runs only in its own event loop",
     "All callbacks of an actor - message handlers, timers, life cycle and link callbacks - are executed only by the event loop of its own supervisor, never by the loop of a peer it exchanges messages, links, subscriptions or registrations with, and never nested inside of another handler of the same loop.",
     ["schedules", "configurations"], "every execution with two or more event loops explored for the other properties",
     "tests use one locality or do not check where the handler runs",
     [core, "src/rotor/plugin/locality.cpp", "src/rotor/plugin/delivery.cpp", "src/rotor/plugin/foreigners_support.cpp"],
     [("locality", "src/rotor/plugin/locality.cpp: activate"), ("foreign handlers are called by message", "src/rotor/plugin/delivery.cpp: delivery")], ["all actor callbacks"])
prop("P25", "Misconfiguration is reported and harmless",
     "An actor or supervisor without the required settings, with contradicting settings, or a second root supervisor in one context is not created: the builder returns nothing and the context is told the proper error. Everything created before keeps working and shuts down normally.",
     ["configurations"], "all subsets of builder settings for actors and supervisors of each kind, before and after the system is running",
     "tests try two misconfigurations",
     ["include/rotor/actor_config.h", "include/rotor/supervisor_config.h", core, "include/rotor/asio/supervisor_config_asio.h", "include/rotor/ev/supervisor_config_ev.h"],
     [("validate", "include/rotor/actor_config.h: validate"), ("finish", core + ": actor_config_builder_t::finish")], ["system context errors", "builder result"])
prop("P26", "Event loops share no unsynchronized state",
     "Actors and supervisors of different event loops, which run in different threads, never access the same memory of the library without being ordered by a delivered message, a lock or another synchronization of the backend: there is no data race, whatever messages, requests, links, subscriptions, registrations, spawns, timers and shutdowns cross the event loops and however the threads are scheduled.",
     ["schedules", "configurations", "programs"], "every execution with two or more event loops explored for the other properties, of the abstract event loops and of each backend: any two conflicting accesses, interleaved or not, are compared by the happens-before order",
     "a data race has a visible effect only in rare schedules of real threads, tests with a race detector see the schedules of one run",
     [core, "src/rotor/plugin/child_manager.cpp", "src/rotor/plugin/locality.cpp", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/ev/supervisor_ev.cpp",
      "src/rotor/asio/supervisor_asio.cpp", "src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/wx/supervisor_wx.cpp"],
     [("messages to other event loops go through enqueue", core + ": delivery and enqueue"), ("inbound queues", "src/rotor/*/supervisor_*.cpp: enqueue"),
      ("reference counters", "include/rotor/arc.hpp")], ["memory accesses of the library"])
prop("P27", "Inspection of deliveries only observes",
     "With supervisors which inspect their deliveries (the debugging delivery plugin, ROTOR_INSPECT_DELIVERY set to any level) all guarantees hold as without: nothing is lost, duplicated, reordered, delayed or kept alive and nothing crashes, whatever messages are dumped. Each message of a user is reported once at each of its addresses: as delivered before its handlers are called, or as discarded if nobody is subscribed; nothing above the requested level is reported, and nothing at all when the variable is not set.",
     ["schedules", "configurations", "histories"], "every execution explored for the other properties of the core, with the highest verbosity, so that every kind of message is dumped in every situation; the report itself for all levels",
     "tests dump messages in a handful of runs and never look at the result",
     ["src/rotor/plugin/delivery.cpp", "include/rotor/supervisor.h", "src/rotor/misc/default_stringifier.cpp", "src/rotor/message_stringifier.cpp"],
     [("dump", "src/rotor/plugin/delivery.cpp: inspected_local_delivery_t"), ("process", "include/rotor/supervisor.h: delivery_plugin_t<inspected_local_delivery_t>::process"),
      ("text", "src/rotor/misc/default_stringifier.cpp")], ["standard output", "message handlers", "all actor callbacks"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
