From 4170c9be0ad8781e41b11d5ad6f6eeaee32c7807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 01/30] fix: do not ignore failed child when supervisor has not
 received own init-request yet

---
 src/rotor/plugin/child_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 8ce2271..6d10d4a 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -112,6 +112,10 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
                     auto ec = make_error_code(error_code_t::failure_escalation);
                     actor->reply_with_error(*init_request, make_error(ec, {}, init_request));
                     init_request.reset();
+                } else {
+                    // own init-request has not been received yet (or it is already answered)
+                    auto ec = make_error_code(shutdown_code_t::child_init_failed);
+                    supervisor_reason = make_error(ec, child.get_shutdown_reason());
                 }
             }
         }
-- 
2.43.0


From 9d1c357f950a8041b9367a4950b18630d4e9a0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 02/30] fix: do not discard unrelated request, when supervisor
 with parent cancels own init

---
 src/rotor/plugin/child_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 6d10d4a..d84f9ec 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -326,7 +326,9 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
 void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto &init_request = child->access<to::init_request>();
-    if (init_request) {
+    // own init-request belongs to the parent supervisor, its id makes no sense here
+    bool foreign_request = child == actor && sup.access<to::parent>();
+    if (init_request && !foreign_request) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
         // or forget the init-request.
         auto &timer_id = init_request->payload.id;
-- 
2.43.0


From 18678c51bf9346829014167425131ca32c496adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 03/30] fix: unlink intermediate actor (client and server at
 once) upon its server shutdown

---
 src/rotor/plugin/link_client.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index aa30779..f3e6691 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -95,6 +95,23 @@ void link_client_plugin_t::forget_link(message::unlink_request_t &message) noexc
     if (it == servers_map.end())
         return;
 
+    auto has_clients = actor->access<to::link_server>()->has_clients();
+    if (has_clients && actor->access<to::state>() < rotor::state_t::SHUTTING_DOWN) {
+        if (it->second.state == link_state_t::UNLINKING)
+            return;
+        // own clients do not know about the server, i.e. nothing will make them unlink
+        if (!actor->access<to::on_unlink, const address_ptr_t &>(server_addr)) {
+            actor->reply_to(message, actor->get_address());
+            servers_map.erase(it);
+            return;
+        }
+        it->second.state = link_state_t::UNLINKING;
+        unlink_queue.emplace_back(&message);
+        auto ec = make_error_code(shutdown_code_t::unlink_requested);
+        actor->do_shutdown(make_error(ec));
+        return;
+    }
+
     unlink_queue.emplace_back(&message);
     try_forget_links(true);
 }
@@ -109,8 +126,9 @@ void link_client_plugin_t::try_forget_links(bool attempt_shutdown) noexcept {
             auto server_it = servers_map.find(server_addr);
             if (server_it != servers_map.end()) {
                 actor->reply_to(message, actor->get_address());
+                bool already_asked = server_it->second.state == link_state_t::UNLINKING;
                 servers_map.erase(server_it);
-                auto result = actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
+                auto result = already_asked || actor->access<to::on_unlink, const address_ptr_t &>(server_addr);
                 shutdown_needed |= result;
             }
         }
-- 
2.43.0


From a944d96ff0672bb2ec384216c6108d10e17dd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 04/30] fix: do not continue initialization upon link response
 when actor is shutting down

---
 src/rotor/plugin/link_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index f3e6691..b3565fa 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -83,7 +83,8 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
         } */
     } else {
         it->second.state = link_state_t::OPERATIONAL;
-        if (actor->access<to::init_request>()) {
+        bool initializing = actor->access<to::state>() == rotor::state_t::INITIALIZING;
+        if (initializing && actor->access<to::init_request>()) {
             actor->init_continue();
         }
     }
-- 
2.43.0


From a3e3314685aa552349d8885317e1c2bce434dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 05/30] fix: server going to shutdown replies to pending
 (operational only) link requests

---
 src/rotor/plugin/link_client.cpp |  6 +++---
 src/rotor/plugin/link_server.cpp | 12 +++++++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index b3565fa..8ca1f0f 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -165,9 +165,11 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
     if (servers_map.empty())
         return plugin_base_t::handle_shutdown(req);
 
+    auto link_server = actor->access<to::link_server>();
+    link_server->notify_shutdown();
+
     try_forget_links(false);
 
-    auto link_server = actor->access<to::link_server>();
     if (!link_server->has_clients()) {
         auto &source_addr = actor->get_address();
         for (auto it = servers_map.begin(); it != servers_map.end();) {
@@ -178,8 +180,6 @@ bool link_client_plugin_t::handle_shutdown(message::shutdown_request_t *req) noe
             }
             it = servers_map.erase(it);
         }
-    } else {
-        link_server->notify_shutdown();
     }
 
     if (servers_map.empty()) {
diff --git a/src/rotor/plugin/link_server.cpp b/src/rotor/plugin/link_server.cpp
index c11b79b..e12c8da 100644
--- a/src/rotor/plugin/link_server.cpp
+++ b/src/rotor/plugin/link_server.cpp
@@ -121,7 +121,16 @@ void link_server_plugin_t::handle_start(message::start_trigger_t *trigger) noexc
 }
 
 void link_server_plugin_t::notify_shutdown() noexcept {
-    for (auto &[address, link_info] : linked_clients) {
+    for (auto it = linked_clients.begin(); it != linked_clients.end();) {
+        auto &[address, link_info] = *it;
+        if (link_info.state == link_state_t::PENDING) {
+            // will never become operational, i.e. there is nobody to link with
+            auto &request = *link_info.request;
+            auto ec = make_error_code(error_code_t::actor_not_linkable);
+            actor->reply_with_error(request, make_error(ec, {}, &request));
+            it = linked_clients.erase(it);
+            continue;
+        }
         if (link_info.state == link_state_t::OPERATIONAL) {
             auto &self = actor->get_address();
             auto &timeout = actor->access<to::shutdown_timeout>();
@@ -129,5 +138,6 @@ void link_server_plugin_t::notify_shutdown() noexcept {
             link_info.state = link_state_t::UNLINKING;
             link_info.unlink_request = request_id;
         }
+        ++it;
     }
 }
-- 
2.43.0


From dc9807e5fabeca3bfd0e97ca884ad63a945f3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 06/30] fix: do not continue initialization which has already
 been failed

---
 src/rotor/actor_base.cpp      | 5 ++++-
 src/rotor/plugin/registry.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rotor/actor_base.cpp b/src/rotor/actor_base.cpp
index 336f90b..d0dccad 100644
--- a/src/rotor/actor_base.cpp
+++ b/src/rotor/actor_base.cpp
@@ -146,7 +146,10 @@ void actor_base_t::shutdown_finish() noexcept {
 
 void actor_base_t::init_continue() noexcept {
     assert(state == state_t::INITIALIZING);
-    assert(init_request);
+    if (!init_request) {
+        // not requested yet or has already been failed
+        return;
+    }
 
     continuation_mask = continuation_mask | PROGRESS_INIT;
     std::size_t in_progress = plugins.size();
diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index d373412..2e07418 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -106,10 +106,14 @@ void registry_plugin_t::on_future(message::discovery_future_t &message) noexcept
 
 void registry_plugin_t::continue_init(const error_code_t &possible_ec, const extended_error_ptr_t &root_ec) noexcept {
     auto &init_request = actor->access<to::init_request>();
-    assert(init_request);
+    if (!init_request) {
+        // has already been failed
+        return;
+    }
     if (root_ec) {
         auto reason = make_error(possible_ec, root_ec, init_request);
         actor->reply_with_error(*init_request, reason);
+        init_request.reset();
     } else {
         actor->init_continue();
     }
-- 
2.43.0


From d7cecec427f497a027f07a171b17dd9ca9e0587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 07/30] fix: wait for in-flight name registrations upon
 shutdown, to be able to deregister them

---
 src/rotor/plugin/registry.cpp | 37 ++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 2e07418..ac7c342 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -64,7 +64,7 @@ void registry_plugin_t::register_name(const std::string &name, const address_ptr
         link_registry();
     }
 
-    register_map.emplace(name, register_info_t{address, state_t::REGISTERING});
+    register_map.emplace(name, register_info_t{address, state_t::LINKING});
 }
 
 registry_plugin_t::discovery_task_t &registry_plugin_t::discover_name(const std::string &name, address_ptr_t &address,
@@ -85,6 +85,18 @@ void registry_plugin_t::on_registration(message::registration_response_t &messag
     auto &ee = message.payload.ee;
     auto it = register_map.find(service);
     assert(it != register_map.end());
+    if (actor->access<to::state>() == rotor::state_t::SHUTTING_DOWN) {
+        // was in progress, when shutdown has been started
+        if (!ee) {
+            auto &registry_addr = actor->get_supervisor().get_registry_address();
+            actor->send<payload::deregistration_service_t>(registry_addr, it->first);
+        }
+        register_map.erase(it);
+        if (register_map.empty()) {
+            actor->shutdown_continue();
+        }
+        return;
+    }
     if (ee) {
         register_map.erase(it);
     } else {
@@ -138,6 +150,7 @@ void registry_plugin_t::on_link(const extended_error_ptr_t &ec) noexcept {
         auto timeout = actor->access<to::init_timeout>();
         for (auto &it : register_map) {
             actor->request<payload::registration_request_t>(registry_addr, it.first, it.second.address).send(timeout);
+            it.second.state = state_t::REGISTERING;
         }
         for (auto &it : discovery_map) {
             it.second.do_discover();
@@ -158,13 +171,20 @@ bool registry_plugin_t::handle_init(message::init_request_t *) noexcept {
 bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexcept {
     if (!register_map.empty()) {
         auto &registry_addr = actor->get_supervisor().get_registry_address();
-        for (auto &it : register_map) {
-            if (it.second.state == state_t::OPERATIONAL) {
-                actor->send<payload::deregistration_service_t>(registry_addr, it.first);
-                it.second.state = state_t::UNREGISTERING;
+        for (auto it = register_map.begin(); it != register_map.end();) {
+            auto &state = it->second.state;
+            if (state == state_t::REGISTERING) {
+                // let's wait the response to be able to deregister the name
+                ++it;
+                continue;
             }
+            if (state == state_t::OPERATIONAL) {
+                actor->send<payload::deregistration_service_t>(registry_addr, it->first);
+            }
+            it = register_map.erase(it);
         }
-        register_map.clear();
+        if (!register_map.empty())
+            return false;
     }
 
     if (!discovery_map.empty()) {
@@ -185,7 +205,10 @@ bool registry_plugin_t::handle_shutdown(message::shutdown_request_t *req) noexce
 }
 
 bool registry_plugin_t::has_registering() noexcept {
-    auto in_progress_predicate = [](auto it) { return it.second.state == state_t::REGISTERING; };
+    auto in_progress_predicate = [](auto &it) {
+        auto &state = it.second.state;
+        return state == state_t::LINKING || state == state_t::REGISTERING;
+    };
     return !std::none_of(register_map.begin(), register_map.end(), in_progress_predicate);
 }
 
-- 
2.43.0


From e0c92e5353ff0ad0b7a6cc90108d9509cb3aa514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 08/30] fix: cancelled or aliased (by address) discovery tasks,
 which are processed during or after linking

---
 src/rotor/plugin/registry.cpp | 44 ++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index ac7c342..9cd74ea 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -216,7 +216,10 @@ template <typename Message> void process_discovery(registry_plugin_t::discovery_
     auto &service = message.payload.req->payload.request_payload.service_name;
     auto &ee = message.payload.ee;
     auto it = dm.find(service);
-    assert(it != dm.end());
+    if (it == dm.end()) {
+        // has already been cancelled
+        return;
+    }
     address_ptr_t *address_value = ee ? nullptr : &message.payload.res.service_addr;
     it->second.template access<to::on_discovery, address_ptr_t *, const extended_error_ptr_t &>(address_value, ee);
 }
@@ -234,25 +237,42 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
     if (actor_state == rotor::state_t::INITIALIZING) {
         if (!ec) {
             auto &aliases = plugin->access<to::aliases_map>();
-            if (!aliases.count(*address)) {
+            auto ait = aliases.find(*address);
+            if (ait == aliases.end()) {
                 auto p = plugin->actor->access<to::get_plugin>(&link_client_plugin_t::class_identity);
                 auto &link_plugin = *static_cast<link_client_plugin_t *>(p);
-                link_plugin.link(*address, operational_only, [this](auto &ec) {
+                // the task might be already cancelled upon link response, that's why it is not captured
+                auto callback = [plugin = plugin, service_name = service_name](auto &ec) {
                     auto &am = plugin->access<to::aliases_map>();
                     auto &dm = plugin->access<to::discovery_map>();
-                    for (auto &alias : am.at(*address)) {
+                    auto it = dm.find(service_name);
+                    if (it == dm.end()) {
+                        return;
+                    }
+                    auto &task = it->second;
+                    for (auto &alias : am.at(*task.address)) {
                         auto &callback = dm.at(alias).task_callback;
                         if (callback) {
                             callback(phase_t::linking, ec);
                         }
                     }
-                    post_discovery(ec);
-                });
+                    task.post_discovery(ec);
+                };
+                link_plugin.link(*address, operational_only, callback);
                 aliases.emplace(*address, names_t{service_name});
-            } else {
-                aliases.at(*address).emplace_back(service_name);
+                state = state_t::LINKING;
+                return;
+            }
+            auto &names = ait->second;
+            if (!names.empty()) {
+                names.emplace_back(service_name);
+                state = state_t::LINKING;
+                return;
+            }
+            // the address has been already linked via other name
+            if (task_callback) {
+                task_callback(phase_t::linking, ec);
             }
-            return;
         }
     }
     post_discovery(ec);
@@ -266,10 +286,12 @@ void registry_plugin_t::discovery_task_t::post_discovery(const extended_error_pt
 
     auto &am = p->aliases_map;
     auto ait = am.find(*it->second.address);
-    if (ait != am.end()) {
+    if (state == state_t::LINKING && ait != am.end()) {
         for (auto &alias : ait->second) {
             dm.erase(alias);
         }
+        // no names means the link has been established
+        ait->second.clear();
     } else {
         dm.erase(it);
     }
@@ -305,5 +327,5 @@ bool registry_plugin_t::discovery_task_t::do_cancel() noexcept {
         state = state_t::CANCELLING;
         return false;
     }
-    return true;
+    return state != state_t::CANCELLING;
 }
-- 
2.43.0


From ccff757a1e57b514bffe0e7aec906a63c63936c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 09/30] fix: link upon discovery only when it has been
 requested

---
 src/rotor/plugin/registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rotor/plugin/registry.cpp b/src/rotor/plugin/registry.cpp
index 9cd74ea..d198fbf 100644
--- a/src/rotor/plugin/registry.cpp
+++ b/src/rotor/plugin/registry.cpp
@@ -235,7 +235,7 @@ void registry_plugin_t::discovery_task_t::on_discovery(address_ptr_t *service_ad
 
     auto actor_state = plugin->actor->access<to::state>();
     if (actor_state == rotor::state_t::INITIALIZING) {
-        if (!ec) {
+        if (!ec && link_on_discovery) {
             auto &aliases = plugin->access<to::aliases_map>();
             auto ait = aliases.find(*address);
             if (ait == aliases.end()) {
-- 
2.43.0


From 0ae256fcb37fd6666fdd5ad98c1079f45952c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 10/30] fix: registry cancels pending discovery promises upon
 shutdown

---
 include/rotor/registry.h |  4 ++++
 src/rotor/registry.cpp   | 27 ++++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/include/rotor/registry.h b/include/rotor/registry.h
index 2e37171..7e0cac4 100644
--- a/include/rotor/registry.h
+++ b/include/rotor/registry.h
@@ -47,6 +47,7 @@ struct ROTOR_API registry_t : public actor_base_t {
     using actor_base_t::actor_base_t;
 
     void configure(plugin::plugin_base_t &plugin) noexcept override;
+    void shutdown_start() noexcept override;
 
     /** \brief registers address on the service. Fails, if the name already exists */
     virtual void on_reg(message::registration_request_t &request) noexcept;
@@ -85,6 +86,9 @@ struct ROTOR_API registry_t : public actor_base_t {
     /** \brief service address to registered names mapping type */
     using reverse_map_t = std::unordered_map<address_ptr_t, registered_names_t>;
 
+    /** \brief replies with error to the discovery promise, which will not be fulfilled */
+    void cancel_promise(message::discovery_promise_t &request) noexcept;
+
     /** \brief name-to-address mapping */
     registered_map_t registered_map;
 
diff --git a/src/rotor/registry.cpp b/src/rotor/registry.cpp
index 9ca4251..6275db5 100644
--- a/src/rotor/registry.cpp
+++ b/src/rotor/registry.cpp
@@ -93,6 +93,12 @@ void registry_t::on_promise(message::discovery_promise_t &request) noexcept {
         return;
     }
 
+    if (state >= state_t::SHUTTING_DOWN) {
+        // nobody will fulfil it
+        cancel_promise(request);
+        return;
+    }
+
     promises.emplace_back(&request);
 }
 
@@ -103,11 +109,22 @@ void registry_t::on_cancel(message::discovery_cancel_t &notify) noexcept {
     auto rit = std::find_if(promises.rbegin(), promises.rend(), predicate);
     if (rit != promises.rend()) {
         auto it = --rit.base();
-        auto &request = *it;
-        auto &name = request->payload.request_payload.service_name;
-        auto ec = make_error_code(error_code_t::cancelled);
-        auto reason = ::make_error(name, ec, {}, request);
-        reply_with_error(*request, reason);
+        cancel_promise(**it);
         promises.erase(it);
     }
 }
+
+void registry_t::cancel_promise(message::discovery_promise_t &request) noexcept {
+    auto &name = request.payload.request_payload.service_name;
+    auto ec = make_error_code(error_code_t::cancelled);
+    auto reason = ::make_error(name, ec, {}, &request);
+    reply_with_error(request, reason);
+}
+
+void registry_t::shutdown_start() noexcept {
+    actor_base_t::shutdown_start();
+    for (auto &request : promises) {
+        cancel_promise(*request);
+    }
+    promises.clear();
+}
-- 
2.43.0


From 919bf9abab541bf830362a0ce0bd1743a2a01e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 11/30] fix: spawner escalates abnormal terminations (only),
 whenever there will be no more restarts

---
 src/rotor/detail/child_info.cpp | 41 ++++++++-------------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/rotor/detail/child_info.cpp b/src/rotor/detail/child_info.cpp
index 1cfa860..75eca4e 100644
--- a/src/rotor/detail/child_info.cpp
+++ b/src/rotor/detail/child_info.cpp
@@ -28,49 +28,28 @@ spawn_demand_t child_info_t::next_spawn(bool abnormal_shutdown) noexcept {
         return demand::no{};
     }
 
-    auto check_failure_escalation = [&]() -> bool {
-        if (escalate_failure) {
-            if (max_attempts && attempts >= max_attempts) {
-                return true;
-            }
-            if (abnormal_shutdown) {
-                if (policy == restart_policy_t::always && !active) {
-                    active = false;
-                    return true;
-                }
-                if (policy == restart_policy_t::normal_only) {
-                    active = false;
-                    return true;
-                }
-            }
+    auto no_more = [&]() -> spawn_demand_t {
+        active = false;
+        if (escalate_failure && abnormal_shutdown) {
+            return demand::escalate_failure{};
         }
-        return false;
+        return demand::no{};
     };
 
-    if (check_failure_escalation()) {
-        return demand::escalate_failure{};
-    }
-
     if (!active) {
-        return demand::no{};
+        return no_more();
     }
 
     if (policy == restart_policy_t::fail_only && !abnormal_shutdown) {
-        active = false;
-        return demand::no{};
+        return no_more();
     }
 
     if (policy == restart_policy_t::normal_only && abnormal_shutdown) {
-        active = false;
-        return demand::no{};
+        return no_more();
     }
 
-    if (policy == restart_policy_t::ask_actor) {
-        auto need_restart = actor->should_restart();
-        if (!need_restart) {
-            active = false;
-            return demand::no{};
-        }
+    if (policy == restart_policy_t::ask_actor && !actor->should_restart()) {
+        return no_more();
     }
 
     auto now = clock_t::local_time();
-- 
2.43.0


From f869eb95dba323da33ef7d560e5c00227d4fb9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:23 +0000
Subject: [PATCH 12/30] fix: spawn request, which is pending at the start of
 supervisor shutdown, does not create an actor

---
 src/rotor/plugin/child_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index d84f9ec..e0ef8c9 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -221,6 +221,12 @@ void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept
     if (!info.active) {
         return;
     }
+    if (actor->access<to::state>() >= state_t::SHUTTING_DOWN) {
+        // was requested before the shutdown has been started
+        info.active = false;
+        actor->shutdown_continue();
+        return;
+    }
     info.spawn_attempt();
 
     try {
-- 
2.43.0


From 624b2cfbee700c800dd4156cc683e6329cbeb887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 13/30] fix: unsubscription of a run-time subscription is
 committed at the foreign address too

---
 src/rotor/plugin/lifetime.cpp    | 4 ++++
 src/rotor/plugin/plugin_base.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/lifetime.cpp b/src/rotor/plugin/lifetime.cpp
index 6c8d829..9c453fb 100644
--- a/src/rotor/plugin/lifetime.cpp
+++ b/src/rotor/plugin/lifetime.cpp
@@ -118,6 +118,10 @@ bool lifetime_plugin_t::handle_unsubscription(const subscription_point_t &point,
         plugin_base_t::forget_subscription(*it);
         points.erase(it);
         result = true;
+        if (external) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            actor->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         if (points.empty()) {
             plugin_base_t::deactivate();
         }
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index 55b80ab..cb1a2f2 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -88,9 +88,10 @@ bool plugin_base_t::handle_unsubscription(const subscription_point_t &point, boo
     if (external) {
         auto act = actor; /* backup */
         auto ok = forget_subscription(point);
-        assert(ok && "unsubscription handled");
-        auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
-        act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        if (ok) {
+            auto &sup_addr = static_cast<actor_base_t &>(point.address->supervisor).get_address();
+            act->send<payload::commit_unsubscription_t>(sup_addr, point);
+        }
         return ok;
     }
     return forget_subscription(point);
-- 
2.43.0


From 572dec0b69d75e4253fe779eeecc93b3710d5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 14/30] fix: different handlers with the same signature are not
 equal

---
 include/rotor/handler.h | 23 ++++++++++++++++++++++-
 src/rotor/handler.cpp   |  2 ++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/rotor/handler.h b/include/rotor/handler.h
index 2fe3ba3..7419256 100644
--- a/include/rotor/handler.h
+++ b/include/rotor/handler.h
@@ -135,7 +135,7 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief compare two handler for equality */
     inline bool operator==(const handler_base_t &rhs) const noexcept {
-        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr;
+        return handler_type == rhs.handler_type && actor_ptr == rhs.actor_ptr && origin().same_backend(rhs.origin());
     }
 
     /** \brief attempt to delivery message to the handler
@@ -167,6 +167,15 @@ struct ROTOR_API handler_base_t : public arc_base_t<handler_base_t> {
 
     /** \brief unique per-message-type pointer used for routing */
     virtual const void *message_type() const noexcept = 0;
+
+    /** \brief the original (i.e. not "upgraded") handler */
+    virtual const handler_base_t &origin() const noexcept { return *this; }
+
+  protected:
+    /** \brief compares the final handlers of the same `handler_type`, i.e. there
+     * might be different pointer-to-member functions of the same signature
+     */
+    virtual bool same_backend(const handler_base_t &) const noexcept { return true; }
 };
 
 /** \struct continuation_t
@@ -191,6 +200,7 @@ struct handler_intercepted_t : public handler_base_t {
     bool select(message_ptr_t &message) noexcept override;
     void call_no_check(message_ptr_t &message) noexcept override;
     const void *message_type() const noexcept override;
+    const handler_base_t &origin() const noexcept override;
 
   private:
     handler_ptr_t backend;
@@ -260,6 +270,11 @@ struct handler_t<Handler, std::enable_if_t<details::is_actor_handler_v<Handler>>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+  protected:
+    bool same_backend(const handler_base_t &rhs) const noexcept override {
+        return handler == static_cast<const handler_t &>(rhs).handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
@@ -308,6 +323,12 @@ struct handler_t<Handler, std::enable_if_t<details::is_plugin_handler_v<Handler>
 
     const void *message_type() const noexcept override { return final_message_t::message_type; }
 
+  protected:
+    bool same_backend(const handler_base_t &rhs) const noexcept override {
+        auto &other = static_cast<const handler_t &>(rhs);
+        return &plugin == &other.plugin && handler == other.handler;
+    }
+
   private:
     using traits = handler_traits<Handler>;
     using backend_t = typename traits::backend_t;
diff --git a/src/rotor/handler.cpp b/src/rotor/handler.cpp
index 88e57fa..3a735cd 100644
--- a/src/rotor/handler.cpp
+++ b/src/rotor/handler.cpp
@@ -69,3 +69,5 @@ handler_ptr_t handler_intercepted_t::upgrade(const void *tag_) noexcept {
 }
 
 const void *handler_intercepted_t::message_type() const noexcept { return backend->message_type(); }
+
+const handler_base_t &handler_intercepted_t::origin() const noexcept { return backend->origin(); }
-- 
2.43.0


From 14fc5fd65dbe1ba10f0db896b9604f4edd12307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 15/30] fix: confirm unsubscription of the very same
 subscription, not of the equal later one

---
 src/rotor/subscription_point.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index 0cdee33..a38853e 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -26,10 +26,18 @@ bool subscription_point_t::operator==(const subscription_point_t &other) const {
 }
 
 subscription_container_t::iterator subscription_container_t::find(const subscription_point_t &point) noexcept {
+    // there might be more then one equal subscription (e.g. unsubscribed, but not confirmed yet, and subscribed again),
+    // hence the very same handler is preferred
+    auto same = [&point](auto &info) {
+        return &info->handler->origin() == &point.handler->origin() && info->address == point.address;
+    };
     auto predicate = [&point](auto &info) {
         return *info->handler == *point.handler && info->address == point.address;
     };
-    auto rit = std::find_if(rbegin(), rend(), predicate);
+    auto rit = std::find_if(rbegin(), rend(), same);
+    if (rit == rend()) {
+        rit = std::find_if(rbegin(), rend(), predicate);
+    }
     if (rit == rend()) {
         return end();
     }
-- 
2.43.0


From 2cd2ba800e2b0eedb17995f645cbfaa40d3007d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 16/30] fix: tag handler of an actor, whose supervisor is not
 the locality leader

---
 src/rotor/subscription_point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/subscription_point.cpp b/src/rotor/subscription_point.cpp
index a38853e..8708030 100644
--- a/src/rotor/subscription_point.cpp
+++ b/src/rotor/subscription_point.cpp
@@ -11,9 +11,11 @@ namespace rotor {
 
 namespace to {
 struct subscription_map {};
+struct locality_leader {};
 } // namespace to
 
 template <> auto &supervisor_t::access<to::subscription_map>() noexcept { return subscription_map; }
+template <> auto &supervisor_t::access<to::locality_leader>() noexcept { return locality_leader; }
 
 namespace tags {
 
@@ -47,7 +49,7 @@ subscription_container_t::iterator subscription_container_t::find(const subscrip
 void subscription_info_t::tag(const void *t) noexcept {
     auto new_handler = handler->upgrade(t);
     auto &sup = handler->actor_ptr->get_supervisor();
-    auto &sm = sup.access<to::subscription_map>();
+    auto &sm = sup.access<to::locality_leader>()->access<to::subscription_map>();
     sm.update(*this, new_handler);
 }
 
-- 
2.43.0


From c36c8209461062fe22744c143754a16955057a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 17/30] fix: actor unsubscribes own handlers, not those of its
 supervisor

---
 include/rotor/supervisor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/rotor/supervisor.h b/include/rotor/supervisor.h
index 55c095c..16c5b7f 100644
--- a/include/rotor/supervisor.h
+++ b/include/rotor/supervisor.h
@@ -500,12 +500,12 @@ template <> inline size_t delivery_plugin_t<plugin::inspected_local_delivery_t>:
 } // namespace plugin
 
 template <typename Handler, typename Enabled> void actor_base_t::unsubscribe(Handler &&h) noexcept {
-    supervisor->unsubscribe_actor(address, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), address);
 }
 
 template <typename Handler, typename Enabled>
 void actor_base_t::unsubscribe(Handler &&h, address_ptr_t &addr) noexcept {
-    supervisor->unsubscribe_actor(addr, wrap_handler(*this, std::move(h)));
+    lifetime->unsubscribe(wrap_handler(*this, std::move(h)), addr);
 }
 
 template <typename T>
-- 
2.43.0


From c84cc1bc9e55a769473c98343c8ea63fa663606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 18/30] fix: no forwarded messages for handlers, whose
 unsubscription is confirmed

---
 src/rotor/plugin/foreigners_support.cpp | 6 ++++--
 src/rotor/plugin/plugin_base.cpp        | 6 ++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/foreigners_support.cpp b/src/rotor/plugin/foreigners_support.cpp
index b05a533..67bb969 100644
--- a/src/rotor/plugin/foreigners_support.cpp
+++ b/src/rotor/plugin/foreigners_support.cpp
@@ -62,8 +62,10 @@ void foreigners_support_plugin_t::on_call(message::handler_call_t &message) noex
             auto lifetime = child_actor->access<to::lifetime>();
             if (lifetime) {
                 auto &points = lifetime->access<to::points>();
-                if (points.find(point) != points.end()) {
-                    handler->call(orig_message);
+                auto it = points.find(point);
+                // there might be the equal handler, which has been subscribed later
+                if (it != points.end() && &(*it)->handler->origin() == &handler->origin()) {
+                    (*it)->handler->call(orig_message);
                 }
             }
         }
diff --git a/src/rotor/plugin/plugin_base.cpp b/src/rotor/plugin/plugin_base.cpp
index cb1a2f2..84c4308 100644
--- a/src/rotor/plugin/plugin_base.cpp
+++ b/src/rotor/plugin/plugin_base.cpp
@@ -15,11 +15,13 @@ namespace to {
 struct lifetime {};
 struct state {};
 struct make_error_code {};
+struct points {};
 } // namespace to
 } // namespace
 
 template <> auto &actor_base_t::access<to::lifetime>() noexcept { return lifetime; }
 template <> auto &actor_base_t::access<to::state>() noexcept { return state; }
+template <> auto &lifetime_plugin_t::access<to::points>() noexcept { return points; }
 template <>
 auto actor_base_t::access<to::make_error_code, const std::error_code &, const extended_error_ptr_t &,
                           const message_ptr_t &>(const std::error_code &ec, const extended_error_ptr_t &next,
@@ -69,6 +71,10 @@ bool plugin_base_t::forget_subscription(const subscription_point_t &point) noexc
         auto &info = *it;
         assert(info->owner_tag == owner_tag_t::PLUGIN);
         forget_subscription(info);
+        // no message should reach the handler any more (i.e. those, which are forwarded by foreign supervisor)
+        if (auto lifetime = actor->access<to::lifetime>(); lifetime) {
+            lifetime->access<to::points>().remove(info);
+        }
         subs.erase(it);
         if (subs.empty()) {
             actor->commit_plugin_deactivation(*this);
-- 
2.43.0


From 8ce066787009f381359a4e4f51f532770af7af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 19/30] fix: handler might subscribe another handler to the
 same message

---
 src/rotor/plugin/delivery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/delivery.cpp b/src/rotor/plugin/delivery.cpp
index ea8d6c7..23a9db9 100644
--- a/src/rotor/plugin/delivery.cpp
+++ b/src/rotor/plugin/delivery.cpp
@@ -44,8 +44,10 @@ void local_delivery_t::delivery(message_ptr_t &message,
         auto wrapped_message = make_message<payload::handler_call_t>(address, message, handler);
         sup.enqueue(std::move(wrapped_message));
     }
-    for (auto &handler : local_recipients.internal) {
-        handler->call(message);
+    // new handlers might be subscribed by the handlers being called
+    auto &internal = local_recipients.internal;
+    for (size_t i = 0, count = internal.size(); i < count; ++i) {
+        internal[i]->call(message);
     }
 }
 
-- 
2.43.0


From 9f77132cac23266e90071d0ff16d07b9bfebde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 20/30] fix: child, which is created after synchronized start
 of its supervisor, is started too

---
 src/rotor/plugin/child_manager.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index e0ef8c9..d3c0cce 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -302,8 +302,10 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
            right after creation */
         if (actor_found) {
             it_actor->second->initialized = true;
-            bool do_start = (address == actor->get_address()) ? (self_state <= state_t::OPERATIONAL)
-                                                              : !sup.access<to::synchronize_start>();
+            // with synchronized start the child, which has been created later, is started immediately
+            bool do_start = (address == actor->get_address())
+                                ? (self_state <= state_t::OPERATIONAL)
+                                : (!sup.access<to::synchronize_start>() || self_state == state_t::OPERATIONAL);
             if (do_start) {
                 sup.template send<payload::start_actor_t>(address);
                 it_actor->second->started = true;
@@ -454,7 +456,7 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
     if (sup.access<to::synchronize_start>()) {
         for (auto &it : actors_map) {
             auto &address = it.first;
-            if (address == actor->get_address())
+            if (address == actor->get_address() || !it.second->initialized)
                 continue;
             sup.template send<payload::start_actor_t>(address);
             it.second->started = true;
-- 
2.43.0


From 03a933bc51f68985647c9fb851120423bf561689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 21/30] fix: supervisor does not access the child with a
 different event loop upon its init failure

---
 src/rotor/plugin/child_manager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index d3c0cce..7966bfc 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -292,10 +292,14 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
                 actor->do_shutdown(reason);
             }
         } else {
-            auto source_actor = actor_found ? it_actor->second->actor : this->actor;
             auto inner = make_error_code(shutdown_code_t::init_failed);
             auto reason = make_error(inner, ec);
-            source_actor->do_shutdown(reason);
+            if (actor_found) {
+                // the child might have different event loop, i.e. it should not be accessed directly
+                request_shutdown(*it_actor->second, reason);
+            } else {
+                actor->do_shutdown(reason);
+            }
         }
     } else {
         /* the if is needed for the very rare case when supervisor was immediately shut down
-- 
2.43.0


From 2b4330b5567a7559fc09e2a6b09a1639d7d262f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 22/30] fix: failure of a child, which is still shutting down,
 is not missed by initializing supervisor

---
 src/rotor/plugin/child_manager.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 7966bfc..6275533 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -267,8 +267,6 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
     auto &ec = message.payload.ee;
 
     auto &sup = static_cast<supervisor_t &>(*actor);
-    bool continue_init = false;
-    continue_init = !ec && !has_initializing();
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
 
@@ -277,7 +275,6 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
         auto &policy = sup.access<to::policy>();
         auto shutdown_self = self_state == state_t::INITIALIZING && policy == supervisor_policy_t::shutdown_self;
         if (shutdown_self) {
-            continue_init = false;
             auto &init_request = actor->access<to::init_request>();
             if (init_request) {
                 if (init_request != message.payload.req) {
@@ -316,7 +313,7 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
             }
         }
     }
-    if (continue_init) {
+    if (!ec) {
         init_continue();
     }
     // no need of treating self as a child
@@ -472,14 +469,8 @@ void child_manager_plugin_t::handle_start(message::start_trigger_t *trigger) noe
 bool child_manager_plugin_t::has_initializing() const noexcept {
     auto init_predicate = [&](auto &it) {
         auto &info = *it.second;
-        auto &child = info.actor;
-        if (!child) {
-            return false;
-        }
-        auto &state = child->template access<to::state>();
-        bool still_initializing =
-            (it.first != actor->get_address()) && (state <= state_t::INITIALIZING) && !info.initialized;
-        return still_initializing;
+        // a child, which is being shut down, might still affect supervisor initialization
+        return info.actor && (it.first != actor->get_address()) && !info.initialized;
     };
     bool has_any = std::any_of(actors_map.begin(), actors_map.end(), init_predicate);
     return has_any;
-- 
2.43.0


From ae1ca8c775d6b615a3180b1221986cd7ba5b7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 23/30] fix: messages to nested supervisors of thread event
 loop are not lost

---
 src/rotor/thread/supervisor_thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rotor/thread/supervisor_thread.cpp b/src/rotor/thread/supervisor_thread.cpp
index 1f7ed2c..e4b0314 100644
--- a/src/rotor/thread/supervisor_thread.cpp
+++ b/src/rotor/thread/supervisor_thread.cpp
@@ -24,7 +24,9 @@ void supervisor_thread_t::shutdown() noexcept {
 
 void supervisor_thread_t::enqueue(message_ptr_t message) noexcept {
     auto ctx = static_cast<system_context_thread_t *>(context);
-    inbound_queue.push(message.detach());
+    // only the queue of the locality leader is examined by the event loop
+    auto leader = static_cast<supervisor_thread_t *>(locality_leader);
+    leader->inbound_queue.push(message.detach());
     std::lock_guard<std::mutex> lock(ctx->mutex);
     ctx->cv.notify_one();
 }
-- 
2.43.0


From 0a55ae757dfdff812bece486f277055a8a56c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 24/30] fix: timers of thread event loop are not fired inside
 of a blocking handler, which starts or cancels timers

---
 src/rotor/thread/system_context_thread.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index b420c07..990ad10 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -93,17 +93,18 @@ void system_context_thread_t::check() noexcept {
 
 void system_context_thread_t::update_time() noexcept {
     now = clock_t::now();
-    auto it = timer_nodes.begin();
-    while (it != timer_nodes.end() && it->deadline < now) {
-        auto actor_ptr = it->handler->owner;
-        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(it->handler->request_id, false);
-        it = timer_nodes.erase(it);
+    // handlers are able to start and cancel timers
+    while (!timer_nodes.empty() && timer_nodes.front().deadline < now) {
+        auto &handler = *timer_nodes.front().handler;
+        timer_nodes.pop_front();
+        auto actor_ptr = handler.owner;
+        actor_ptr->access<to::on_timer_trigger, request_id_t, bool>(handler.request_id, false);
     }
 }
 
 void system_context_thread_t::start_timer(const pt::time_duration &interval, timer_handler_base_t &handler) noexcept {
     if (intercepting)
-        update_time();
+        now = clock_t::now();
     auto deadline = now + time_units_t{interval.total_microseconds()};
     auto it = timer_nodes.begin();
     for (; it != timer_nodes.end(); ++it) {
@@ -115,8 +116,6 @@ void system_context_thread_t::start_timer(const pt::time_duration &interval, tim
 }
 
 void system_context_thread_t::cancel_timer(request_id_t timer_id) noexcept {
-    if (intercepting)
-        update_time();
     auto predicate = [&](auto &info) { return info.handler->request_id == timer_id; };
     auto it = std::find_if(timer_nodes.begin(), timer_nodes.end(), predicate);
     assert(it != timer_nodes.end() && "timer has been found");
-- 
2.43.0


From dce567d70d8bc673f86bebef78f8e3cd84f0169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 25/30] fix: timers started before the first round of thread
 event loop do not fire too early

---
 include/rotor/thread/system_context_thread.h | 3 +++
 src/rotor/thread/system_context_thread.cpp   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/rotor/thread/system_context_thread.h b/include/rotor/thread/system_context_thread.h
index da0cfde..511a882 100644
--- a/include/rotor/thread/system_context_thread.h
+++ b/include/rotor/thread/system_context_thread.h
@@ -90,6 +90,9 @@ struct ROTOR_THREAD_API system_context_thread_t : public system_context_t {
     /** \brief whether the context is intercepting blocking (I/O) handler */
     bool intercepting = false;
 
+    /** \brief whether the event loop is running, i.e. current time is kept up to date */
+    bool running = false;
+
     friend struct supervisor_thread_t;
 };
 
diff --git a/src/rotor/thread/system_context_thread.cpp b/src/rotor/thread/system_context_thread.cpp
index 990ad10..24208df 100644
--- a/src/rotor/thread/system_context_thread.cpp
+++ b/src/rotor/thread/system_context_thread.cpp
@@ -50,6 +50,9 @@ void system_context_thread_t::run() noexcept {
         }
     };
 
+    // a lot of time might have passed since the context creation
+    now = clock_t::now();
+    running = true;
     auto total_us = poll_duration.total_microseconds();
     auto delta = time_units_t{total_us};
     while (condition()) {
@@ -103,7 +106,7 @@ void system_context_thread_t::update_time() noexcept {
 }
 
 void system_context_thread_t::start_timer(const pt::time_duration &interval, timer_handler_base_t &handler) noexcept {
-    if (intercepting)
+    if (intercepting || !running)
         now = clock_t::now();
     auto deadline = now + time_units_t{interval.total_microseconds()};
     auto it = timer_nodes.begin();
-- 
2.43.0


From 9478195617fa2ca1194adc1d12754e351b30c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 26/30] fix: fltk: count pending inbound messages per
 supervisor, not per process

The counter was shared by all contexts: messages of the second context did
not wake up the loop if there were pending messages of the first one, and
messages left by a finished context blocked all further ones.
---
 include/rotor/fltk/supervisor_fltk.h   |  5 +++++
 src/rotor/fltk/system_context_fltk.cpp | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/rotor/fltk/supervisor_fltk.h b/include/rotor/fltk/supervisor_fltk.h
index 48bd29b..e2623af 100644
--- a/include/rotor/fltk/supervisor_fltk.h
+++ b/include/rotor/fltk/supervisor_fltk.h
@@ -10,6 +10,8 @@
 #include "rotor/fltk/export.h"
 #include "rotor/fltk/supervisor_config_fltk.h"
 
+#include <atomic>
+#include <cstdint>
 #include <memory>
 #include <unordered_map>
 
@@ -81,6 +83,9 @@ struct ROTOR_FLTK_API supervisor_fltk_t : public supervisor_t {
 
     /** \brief timer id to timer pointer mapping */
     timers_map_t timers_map;
+
+    /** \brief amount of inbound messages, which are not fetched yet */
+    std::atomic_int32_t queue_counter{0};
 };
 
 } // namespace fltk
diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index aeb6bd8..1472b56 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -5,8 +5,7 @@
 //
 
 #include "rotor/fltk/system_context_fltk.h"
-#include "rotor/supervisor.h"
-#include <atomic>
+#include "rotor/fltk/supervisor_fltk.h"
 #include <cstdint>
 
 #include <FL/Fl.H>
@@ -18,18 +17,22 @@ namespace {
 namespace to {
 struct inbound_queue {};
 struct queue {};
+struct queue_counter {};
 } // namespace to
 } // namespace
 
 template <> inline auto &rotor::supervisor_t::access<to::inbound_queue>() noexcept { return inbound_queue; }
 template <> inline auto &rotor::supervisor_t::access<to::queue>() noexcept { return queue; }
 
-static std::atomic_int32_t queue_counter{0};
+namespace rotor::fltk {
+template <> inline auto &supervisor_fltk_t::access<to::queue_counter>() noexcept { return queue_counter; }
+} // namespace rotor::fltk
 
 static void _callback(void *data) {
-    auto sup_raw = static_cast<supervisor_t *>(data);
-    auto &inbound = sup_raw->access<to::inbound_queue>();
-    auto &queue = sup_raw->access<to::queue>();
+    auto sup_raw = static_cast<supervisor_fltk_t *>(data);
+    auto &inbound = static_cast<supervisor_t *>(sup_raw)->access<to::inbound_queue>();
+    auto &queue = static_cast<supervisor_t *>(sup_raw)->access<to::queue>();
+    auto &queue_counter = sup_raw->access<to::queue_counter>();
     message_base_t *ptr;
     bool try_fetch = true;
     while (try_fetch) {
@@ -47,9 +50,10 @@ static void _callback(void *data) {
 }
 
 void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
-    auto sup = get_supervisor().get();
+    auto sup = static_cast<supervisor_fltk_t *>(get_supervisor().get());
     if (sup) {
-        auto &inbound = sup->access<to::inbound_queue>();
+        auto &inbound = static_cast<supervisor_t *>(sup)->access<to::inbound_queue>();
+        auto &queue_counter = sup->access<to::queue_counter>();
         inbound.push(message.detach());
         if (queue_counter.fetch_add(1) == 0) {
             Fl::awake(_callback, sup);
-- 
2.43.0


From 3f102e9fa23bf429cdd2a96d7120609fde238d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 27/30] fix: fltk: keep the supervisor alive while the awake
 callback is pending

Fl::awake() keeps a pointer to the supervisor, which might be already
destroyed, when the callback is invoked.
---
 src/rotor/fltk/system_context_fltk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rotor/fltk/system_context_fltk.cpp b/src/rotor/fltk/system_context_fltk.cpp
index 1472b56..7139abb 100644
--- a/src/rotor/fltk/system_context_fltk.cpp
+++ b/src/rotor/fltk/system_context_fltk.cpp
@@ -47,6 +47,7 @@ static void _callback(void *data) {
             try_fetch = queue_counter.fetch_sub(fetched) != fetched;
         }
     }
+    intrusive_ptr_release(sup_raw);
 }
 
 void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
@@ -56,6 +57,7 @@ void system_context_fltk_t::enqueue(message_ptr_t message) noexcept {
         auto &queue_counter = sup->access<to::queue_counter>();
         inbound.push(message.detach());
         if (queue_counter.fetch_add(1) == 0) {
+            intrusive_ptr_add_ref(sup);
             Fl::awake(_callback, sup);
         }
     }
-- 
2.43.0


From 1b0375cad9296d9142eadc86cfa9e37b67251f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:37 +0000
Subject: [PATCH 28/30] fix: wx: timers with a fraction of a millisecond do not
 fire too early

---
 src/rotor/wx/supervisor_wx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rotor/wx/supervisor_wx.cpp b/src/rotor/wx/supervisor_wx.cpp
index 31d466a..c94b977 100644
--- a/src/rotor/wx/supervisor_wx.cpp
+++ b/src/rotor/wx/supervisor_wx.cpp
@@ -77,7 +77,8 @@ void supervisor_wx_t::enqueue(message_ptr_t message) noexcept {
 void supervisor_wx_t::do_start_timer(const pt::time_duration &interval, timer_handler_base_t &handler) noexcept {
     auto self = timer_t::supervisor_ptr_t(this);
     auto timer = std::make_unique<timer_t>(&handler, std::move(self));
-    auto timeout_ms = static_cast<int>(interval.total_milliseconds());
+    // wx timers have millisecond resolution, they should not trigger before the requested interval
+    auto timeout_ms = static_cast<int>((interval.total_microseconds() + 999) / 1000);
     timer->StartOnce(timeout_ms);
     timers_map.emplace(handler.request_id, std::move(timer));
 }
-- 
2.43.0


From e4195dbc9f76fdf348ea0024f8d88c5bfc0ae85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 29/30] fix: supervisor does not read the init-request of a
 child, which might have different event loop

---
 include/rotor/detail/child_info.h    |  3 +++
 include/rotor/plugin/child_manager.h |  2 +-
 src/rotor/plugin/child_manager.cpp   | 27 ++++++++++++++-------------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/rotor/detail/child_info.h b/include/rotor/detail/child_info.h
index 6ff7924..1d14129 100644
--- a/include/rotor/detail/child_info.h
+++ b/include/rotor/detail/child_info.h
@@ -105,6 +105,9 @@ struct ROTOR_API child_info_t : boost::intrusive_ref_counter<child_info_t, boost
     /** \brief the timer_id when actor should be spawned */
     request_id_t timer_id{0};
 
+    /** \brief the init request, which has not been answered yet (zero, if there is no such) */
+    request_id_t init_request_id{0};
+
     /** \brief when an actor was successfully spawned */
     pt::ptime last_instantiation;
 
diff --git a/include/rotor/plugin/child_manager.h b/include/rotor/plugin/child_manager.h
index 7b6c1ef..ee6bb9b 100644
--- a/include/rotor/plugin/child_manager.h
+++ b/include/rotor/plugin/child_manager.h
@@ -105,7 +105,7 @@ struct ROTOR_API child_manager_plugin_t : public plugin_base_t {
     bool has_initializing() const noexcept;
     void init_continue() noexcept;
     void request_shutdown(const extended_error_ptr_t &ec) noexcept;
-    void cancel_init(const actor_base_t *child) noexcept;
+    void cancel_init(detail::child_info_t &child_info) noexcept;
     void request_shutdown(detail::child_info_t &child_state, const extended_error_ptr_t &ec) noexcept;
     void on_spawn_timer(request_id_t timer_id, bool cancelled) noexcept;
 
diff --git a/src/rotor/plugin/child_manager.cpp b/src/rotor/plugin/child_manager.cpp
index 6275533..3bdf06c 100644
--- a/src/rotor/plugin/child_manager.cpp
+++ b/src/rotor/plugin/child_manager.cpp
@@ -37,7 +37,6 @@ template <> auto supervisor_t::access<to::discard_request, request_id_t>(request
     return discard_request(request_id);
 }
 template <> auto &supervisor_t::access<to::alive_actors>() noexcept { return alive_actors; }
-template <> auto &actor_base_t::access<to::init_request>() const noexcept { return init_request; }
 template <> auto &actor_base_t::access<to::init_request>() noexcept { return init_request; }
 template <> auto &actor_base_t::access<to::init_timeout>() noexcept { return init_timeout; }
 template <> auto &actor_base_t::access<to::lifetime>() noexcept { return lifetime; }
@@ -125,7 +124,7 @@ void child_manager_plugin_t::remove_child(const actor_base_t &child) noexcept {
         actor->do_shutdown(supervisor_reason);
     }
 
-    cancel_init(&child);
+    cancel_init(info);
     auto child_reason = info.actor->get_shutdown_reason();
     bool erase_spawner = true;
     static_cast<supervisor_t &>(*actor).access<to::alive_actors>().erase(&child);
@@ -208,7 +207,9 @@ void child_manager_plugin_t::on_create(message::create_actor_t &message) noexcep
     auto &child_actor = message.payload.actor;
     auto &actor_address = child_actor->get_address();
     assert(actors_map.count(actor_address) == 1);
-    sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
+    auto &info = *actors_map.find(actor_address)->second;
+    info.init_request_id =
+        sup.template request<payload::initialize_actor_t>(actor_address).send(message.payload.timeout);
 }
 
 void child_manager_plugin_t::on_spawn(message::spawn_actor_t &message) noexcept {
@@ -269,6 +270,9 @@ void child_manager_plugin_t::on_init(message::init_response_t &message) noexcept
     auto &sup = static_cast<supervisor_t &>(*actor);
     auto it_actor = actors_map.find(address);
     bool actor_found = it_actor != actors_map.end();
+    if (actor_found) {
+        it_actor->second->init_request_id = 0;
+    }
 
     auto &self_state = actor->access<to::state>();
     if (ec) {
@@ -332,18 +336,15 @@ void child_manager_plugin_t::on_shutdown_fail(actor_base_t &actor_, const extend
     actor_.get_supervisor().access<to::system_context>()->on_error(&actor_, ec);
 }
 
-void child_manager_plugin_t::cancel_init(const actor_base_t *child) noexcept {
+void child_manager_plugin_t::cancel_init(detail::child_info_t &child_info) noexcept {
     auto &sup = static_cast<supervisor_t &>(*actor);
-    auto &init_request = child->access<to::init_request>();
-    // own init-request belongs to the parent supervisor, its id makes no sense here
-    bool foreign_request = child == actor && sup.access<to::parent>();
-    if (init_request && !foreign_request) {
+    // the child might have different event loop, i.e. its init-request should not be accessed directly
+    auto request_id = child_info.init_request_id;
+    child_info.init_request_id = 0;
+    if (request_id && sup.access<to::timers_map>().count(request_id)) {
         // options: answer instead of actor (easier, but unexpected message can be seen)
         // or forget the init-request.
-        auto &timer_id = init_request->payload.id;
-        if (sup.access<to::timers_map>().count(timer_id)) {
-            sup.access<to::discard_request, request_id_t>(timer_id);
-        }
+        sup.access<to::discard_request, request_id_t>(request_id);
     }
 }
 
@@ -397,7 +398,7 @@ void child_manager_plugin_t::request_shutdown(detail::child_info_t &child_state,
         auto &sup = static_cast<supervisor_t &>(*actor);
         auto &source_actor = child_state.actor;
 
-        cancel_init(source_actor.get());
+        cancel_init(child_state);
         if (source_actor == actor) {
             if (sup.access<to::parent>()) {
                 // will be routed via shutdown request
-- 
2.43.0


From 834c2dc6a18b3e9560e6d7c9759564819ffd32f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 30/30] fix: a server does not wait for a client, whose link
 request has timed out

The server might process the request after the time-out; the client was
registered then, and the shutdown of the server had to wait for the answer of
the dead client to the unlink request, up to its own time-out and fatal error.
---
 src/rotor/plugin/link_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rotor/plugin/link_client.cpp b/src/rotor/plugin/link_client.cpp
index 8ca1f0f..e0fa1bf 100644
--- a/src/rotor/plugin/link_client.cpp
+++ b/src/rotor/plugin/link_client.cpp
@@ -65,6 +65,10 @@ void link_client_plugin_t::on_link_response(message::link_response_t &message) n
     auto callback = it->second.callback;
     if (ec) {
         servers_map.erase(it);
+        if (ec->ec == make_error_code(error_code_t::request_timeout)) {
+            // the server might process the request later, it should not wait for the client upon shutdown
+            actor->send<payload::unlink_notify_t>(address, actor->get_address());
+        }
     }
 
     if (callback) {
-- 
2.43.0

