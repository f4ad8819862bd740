From 35be9b28b83753c8c6780066ee3b62282cbc1af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 01/29] fix: do not change the state of a model whose Mealy
 input was retracted

A model that receives output from a Mealy model stays in the active set when
that output is revised to nothing. If the model is not imminent then it must
not undergo an internal transition.
---
 include/adevs/simulator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..ad57e5f 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -528,6 +528,10 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     PinValue<ValueType> x;
     TimeType t = tNext + adevs_epsilon<TimeType>();
     for (auto model : active) {
+        // Nothing to do if all of the input was retracted and the model is not imminent
+        if (model->inputs.empty() && !(model->tN == tNext)) {
+            continue;
+        }
         // Notify listeners of input events
         for (auto x : model->inputs) {
             for (auto listener : listeners) {
-- 
2.43.0


From 0cbf483189af1c3ba001cc5c52d9620ba9213a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 02/29] fix: respect instance counts when adding and removing
 models during a simulation

Adding another instance of a model rescheduled it and so lost its elapsed
time. Removing one of several instances took the model out of the schedule.
---
 include/adevs/simulator.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index ad57e5f..857779d 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -564,14 +564,25 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         auto op = pending.front();
         pending.pop_front();
         switch (op.op) {
-            case Graph<ValueType, TimeType>::ADD_ATOMIC:
+            case Graph<ValueType, TimeType>::ADD_ATOMIC: {
+                auto const &atomics = graph->get_atomics();
+                bool is_new = atomics.find(op.model) == atomics.end();
                 graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                // Another instance of a model does not change its schedule
+                if (is_new) {
+                    schedule(op.model.get(), t);
+                }
                 break;
-            case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
+            }
+            case Graph<ValueType, TimeType>::REMOVE_ATOMIC: {
                 graph->remove_atomic(op.model);
+                // Keep the model in the schedule while it has other instances
+                auto const &atomics = graph->get_atomics();
+                if (atomics.find(op.model) == atomics.end()) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
+            }
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
                 break;
-- 
2.43.0


From a3e64a122773c872884eced686213657b7ed4aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 03/29] fix: removing a model that is not in the graph has no
 effect

Two models can ask for the removal of the same component in one simulation
cycle. The second removal dereferenced the end of the instance count map.
---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..22ce803 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -316,6 +316,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    // Nothing to do if the model is not in the graph.
+    if (instance_iter == atomic_instance_count.end()) {
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From fe85a9587cc6425248ff6b40f23d4a55b39cd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 04/29] fix: removing a pin also removes the connections from
 other pins to it

All edges connected to the pin are to be removed, but only the edges that
leave the pin were.
---
 include/adevs/graph.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 22ce803..ac9507b 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,23 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the connections from other pins to this pin
+    auto src_iter = pin_to_pin.begin();
+    while (src_iter != pin_to_pin.end()) {
+        auto dst_iter = src_iter->second.begin();
+        while (dst_iter != src_iter->second.end()) {
+            if ((*dst_iter).first == pin && --(*dst_iter).second == 0) {
+                dst_iter = src_iter->second.erase(dst_iter);
+            } else {
+                dst_iter++;
+            }
+        }
+        if (src_iter->second.empty()) {
+            src_iter = pin_to_pin.erase(src_iter);
+        } else {
+            src_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 81b0e7c1cb38522a9025b5d19a6f9de746be7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 05/29] fix: removing a coupled model removes its pin to pin
 couplings

The couplings were added to the graph a second time instead.
---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From addc2fd82afce3964bca17c918e0b7e502a3ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 06/29] fix: removing an atomic model from a coupled model
 removes its couplings

The connections to the model that are part of the coupled model stayed in
the coupled model, and in the graph if the model had other instances.
---
 include/adevs/models.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..cd45a5d 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -586,6 +586,18 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.erase(model);
+    // Remove the couplings to the model that are part of this coupled model
+    auto coupling = pin_to_atomic.begin();
+    while (coupling != pin_to_atomic.end()) {
+        if ((*coupling).second == model) {
+            if (g != nullptr) {
+                g->disconnect((*coupling).first, model);
+            }
+            coupling = pin_to_atomic.erase(coupling);
+        } else {
+            coupling++;
+        }
+    }
     if (g != nullptr) {
         g->remove_atomic(model);
     }
-- 
2.43.0


From dbcb8e4cff27048343e23a9b81862a3e52bf6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 07/29] fix: a coupled model tracks how often it is part of the
 graph

Changes to a coupled model that had been removed were still made in the graph.
Changes to a coupled model that belongs to two parents were made once, and so
they were undone when it was removed from one of its parents.
---
 include/adevs/models.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index cd45a5d..64f0107 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : g(nullptr), instances(0) {}
     /**
      * @brief Destructor
      *
@@ -495,7 +495,10 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
+    // The Graph that this model belongs to, or null if it belongs to none
     Graph<ValueType, TimeType>* g;
+    // Number of times this model has been added to the Graph
+    int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -511,7 +514,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->connect(pin, model);
     }
 }
@@ -520,7 +523,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->disconnect(pin, model);
     }
 }
@@ -528,7 +531,7 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->connect(src, dst);
     }
 }
@@ -536,14 +539,19 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->disconnect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
+    // Given to a new Simulator?
+    if (g != graph) {
+        instances = 0;
+    }
     g = graph;
+    instances++;
     for (auto atomic : atomic_components) {
         g->add_atomic(atomic);
     }
@@ -572,12 +580,17 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
     }
+    // Later changes are not reflected in the Graph if no instance is left in it
+    instances--;
+    if (instances == 0) {
+        g = nullptr;
+    }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.insert(model);
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->add_atomic(model);
     }
 }
@@ -590,7 +603,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
         if ((*coupling).second == model) {
-            if (g != nullptr) {
+            for (int i = 0; i < instances; i++) {
                 g->disconnect((*coupling).first, model);
             }
             coupling = pin_to_atomic.erase(coupling);
@@ -598,7 +611,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             coupling++;
         }
     }
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         g->remove_atomic(model);
     }
 }
@@ -607,7 +620,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.insert(model);
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         model->assign_to_graph(g);
     }
 }
@@ -616,7 +629,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.erase(model);
-    if (g != nullptr) {
+    for (int i = 0; i < instances; i++) {
         model->remove_from_graph();
     }
 }
-- 
2.43.0


From ccfcd36045f8a6b328301f2c51ea9064fd780f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 08/29] fix: a model may be simulated again by another
 Simulator

Models kept their position in the schedule of, and undelivered input from,
an earlier Simulator, which corrupted the schedule of the new one.
---
 include/adevs/simulator.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 857779d..08af526 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -304,6 +304,7 @@ class Simulator {
     TimeType tNext;
 
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
+    void enter(Atomic<ValueType, TimeType>* model, TimeType t);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
     void retract_mealy_output(MealyAtomic<ValueType,TimeType>* root);
@@ -314,7 +315,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Graph<ValueType, TimeT
     : graph(model) {
     graph->set_provisional(true);
     for (auto atomic : model->get_atomics()) {
-        schedule(atomic.get(), adevs_zero<TimeType>());
+        enter(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
 }
@@ -324,7 +325,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, Time
     : graph(new Graph<ValueType, TimeType>()) {
     graph->add_atomic(model);
     graph->set_provisional(true);
-    schedule(model.get(), adevs_zero<TimeType>());
+    enter(model.get(), adevs_zero<TimeType>());
     tNext = sched.minPriority();
 }
 
@@ -425,7 +426,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, Tim
     model->assign_to_graph(graph.get());
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
-        schedule(atomic.get(), adevs_zero<TimeType>());
+        enter(atomic.get(), adevs_zero<TimeType>());
     }
     tNext = sched.minPriority();
 }
@@ -570,7 +571,7 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
                 graph->add_atomic(op.model);
                 // Another instance of a model does not change its schedule
                 if (is_new) {
-                    schedule(op.model.get(), t);
+                    enter(op.model.get(), t);
                 }
                 break;
             }
@@ -606,6 +607,19 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     return t;
 }
 
+template <class ValueType, class TimeType>
+void Simulator<ValueType, TimeType>::enter(Atomic<ValueType, TimeType>* model, TimeType t) {
+    // Discard what another Simulator may have left in the model
+    model->q_index = 0;
+    model->inputs.clear();
+    model->outputs.clear();
+    model->revisable_inputs.clear();
+    if (model->isMealyAtomic() != nullptr) {
+        model->isMealyAtomic()->receivers.clear();
+    }
+    schedule(model, t);
+}
+
 template <class ValueType, class TimeType>
 void Simulator<ValueType, TimeType>::schedule(Atomic<ValueType, TimeType>* model, TimeType t) {
     model->tL = t;
-- 
2.43.0


From 97684546ed28ba64db475499f681d8c81334d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 09/29] fix: a coupled model does not use a graph that no
 longer exists

The graph belongs to the Simulator. Changing a coupled model after its
Simulator was destroyed used the graph after it had been freed.
---
 include/adevs/models.h    | 70 ++++++++++++++++++++++-----------------
 include/adevs/simulator.h |  2 +-
 2 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 64f0107..7d1dc64 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr), instances(0) {}
+    Coupled() : instances(0) {}
     /**
      * @brief Destructor
      *
@@ -495,8 +495,9 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
-    // The Graph that this model belongs to, or null if it belongs to none
-    Graph<ValueType, TimeType>* g;
+    // The Graph that this model belongs to. It is empty if the model belongs to none
+    // or if the Graph no longer exists.
+    std::weak_ptr<Graph<ValueType, TimeType>> g;
     // Number of times this model has been added to the Graph
     int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
@@ -506,16 +507,18 @@ class Coupled {
     /// Pin to pin connections
     std::set<std::pair<pin_t, pin_t>> pin_to_pin;
 
-    void assign_to_graph(Graph<ValueType, TimeType>* graph);
+    void assign_to_graph(std::shared_ptr<Graph<ValueType, TimeType>> graph);
     void remove_from_graph();
+    // Number of instances of this model in the Graph, if there is a Graph
+    int graph_instances() const { return g.expired() ? 0 : instances; }
 };
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.insert(std::make_pair(pin, model));
-    for (int i = 0; i < instances; i++) {
-        g->connect(pin, model);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->connect(pin, model);
     }
 }
 
@@ -523,59 +526,64 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     pin_to_atomic.erase(std::make_pair(pin, model));
-    for (int i = 0; i < instances; i++) {
-        g->disconnect(pin, model);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->disconnect(pin, model);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     pin_to_pin.insert(std::make_pair(src, dst));
-    for (int i = 0; i < instances; i++) {
-        g->connect(src, dst);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->connect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     pin_to_pin.erase(std::make_pair(src, dst));
-    for (int i = 0; i < instances; i++) {
-        g->disconnect(src, dst);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->disconnect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
-void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
+void Coupled<ValueType, TimeType>::assign_to_graph(
+    std::shared_ptr<Graph<ValueType, TimeType>> graph) {
     // Given to a new Simulator?
-    if (g != graph) {
+    if (g.lock() != graph) {
         instances = 0;
     }
     g = graph;
     instances++;
     for (auto atomic : atomic_components) {
-        g->add_atomic(atomic);
+        graph->add_atomic(atomic);
     }
     for (auto coupling : pin_to_atomic) {
-        g->connect(coupling.first, coupling.second);
+        graph->connect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        graph->connect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
-        coupled->assign_to_graph(g);
+        coupled->assign_to_graph(graph);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_from_graph() {
+    auto graph = g.lock();
+    if (graph == nullptr) {
+        return;
+    }
     for (auto atomic : atomic_components) {
-        g->remove_atomic(atomic);
+        graph->remove_atomic(atomic);
     }
     for (auto coupling : pin_to_atomic) {
-        g->disconnect(coupling.first, coupling.second);
+        graph->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->disconnect(coupling.first, coupling.second);
+        graph->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
@@ -583,15 +591,15 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
     // Later changes are not reflected in the Graph if no instance is left in it
     instances--;
     if (instances == 0) {
-        g = nullptr;
+        g.reset();
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.insert(model);
-    for (int i = 0; i < instances; i++) {
-        g->add_atomic(model);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->add_atomic(model);
     }
 }
 
@@ -603,16 +611,16 @@ void Coupled<ValueType, TimeType>::remove_atomic(
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
         if ((*coupling).second == model) {
-            for (int i = 0; i < instances; i++) {
-                g->disconnect((*coupling).first, model);
+            for (int i = 0; i < graph_instances(); i++) {
+                g.lock()->disconnect((*coupling).first, model);
             }
             coupling = pin_to_atomic.erase(coupling);
         } else {
             coupling++;
         }
     }
-    for (int i = 0; i < instances; i++) {
-        g->remove_atomic(model);
+    for (int i = 0; i < graph_instances(); i++) {
+        g.lock()->remove_atomic(model);
     }
 }
 
@@ -620,8 +628,8 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.insert(model);
-    for (int i = 0; i < instances; i++) {
-        model->assign_to_graph(g);
+    for (int i = 0; i < graph_instances(); i++) {
+        model->assign_to_graph(g.lock());
     }
 }
 
@@ -629,7 +637,7 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     coupled_components.erase(model);
-    for (int i = 0; i < instances; i++) {
+    for (int i = 0; i < graph_instances(); i++) {
         model->remove_from_graph();
     }
 }
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 08af526..a6aa77b 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -423,7 +423,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
-    model->assign_to_graph(graph.get());
+    model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
         enter(atomic.get(), adevs_zero<TimeType>());
-- 
2.43.0


From ce0b56597d2f52419a215f5a4bc15a8aa93c2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 10/29] fix: fast_event_locator terminates when the bracket
 cannot shrink further

When the high end of the bracket was itself a point at which the event
function had changed sign, the search never met its end condition. It now
keeps the state and the event functions at the high end and ends there.
---
 include/adevs/solvers/event_locators.h | 30 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..2c4b3f4 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -308,10 +308,11 @@ class fast_event_locator : public event_locator<ValueType> {
   private:
     double const err_tol;
     double *z0, *zf, *dq0, *dqh;
+    double *qh, *zh;  // State and event functions at the high end of the bracket
     spline* p;
 
     bool is_sign_change() const;
-    bool is_sign_change(int i) const { return z0[i] * zf[i] <= 0.0; }
+    bool is_sign_change(int i, double const* z) const { return z0[i] * z[i] <= 0.0; }
 };
 
 template <typename ValueType>
@@ -323,6 +324,8 @@ fast_event_locator<ValueType>::fast_event_locator(ode_system<ValueType>* sys, do
       zf(new double[sys->numEvents()]),
       dq0(NULL),
       dqh(NULL),
+      qh(new double[sys->numVars()]),
+      zh(new double[sys->numEvents()]),
       p(NULL) {
     if (interpolate) {
         p = new spline(sys->numVars());
@@ -335,6 +338,8 @@ template <typename ValueType>
 fast_event_locator<ValueType>::~fast_event_locator() {
     delete[] z0;
     delete[] zf;
+    delete[] qh;
+    delete[] zh;
     if (p != NULL) {
         delete[] dq0;
         delete[] dqh;
@@ -345,7 +350,7 @@ fast_event_locator<ValueType>::~fast_event_locator() {
 template <typename ValueType>
 bool fast_event_locator<ValueType>::is_sign_change() const {
     for (int i = 0; i < this->sys->numEvents(); i++) {
-        if (is_sign_change(i)) {
+        if (is_sign_change(i, zf)) {
             return true;
         }
     }
@@ -382,14 +387,10 @@ repeat:
     assert(hh >= hl);
     // Event is between guess and low end of the bracket
     if (sign_change) {
-        // if low and high end guesses are close enough then
-        // we are on the right side of the event and can
-        // report success
-        if (hh - hl < err_tol) {
-            goto success;
-        }
-        // Otherwise move the high end of the bracket
+        // Move the high end of the bracket
         hh = hg;
+        memcpy(qh, qend, sizeof(double) * this->sys->numVars());
+        memcpy(zh, zf, sizeof(double) * N);
     }
     // Event is between guess and high end of the bracket.
     else {
@@ -397,6 +398,12 @@ repeat:
     }
     // New guess is midpoint of low and high guesses
     hg = (hh + hl) / 2.0;
+    // if low and high end guesses are close enough, or there is no
+    // number between them, then the high end is on the right side
+    // of the event and we can report success
+    if (hh - hl < err_tol || hg <= hl || hg >= hh) {
+        goto success;
+    }
     // Calculate solution at new guess
     if (p != NULL) {
         p->interpolate(qend, hg);
@@ -412,9 +419,10 @@ repeat:
     goto repeat;
     // Success! Step is h and solution is qend
 success:
-    h = hg;
+    h = hh;
+    memcpy(qend, qh, sizeof(double) * this->sys->numVars());
     for (int i = 0; i < N; i++) {
-        events[i] = is_sign_change(i);
+        events[i] = is_sign_change(i, zh);
     }
     return true;
 }
-- 
2.43.0


From b0f07456e68263394b1092e62b95a30471bef479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:09 +0000
Subject: [PATCH 11/29] fix: rk_45 releases its trial state

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 94e01a7ec43851fd2a38eee290aba2cfce654f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 12/29] fix: Hybrid deletes the objects that it adopts

It did not delete the system, solver and event locator, as documented, nor
its own arrays. Also initialise event_happened.
---
 include/adevs/solvers/hybrid.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..de2f471 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -414,7 +414,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     Hybrid(ode_system<ValueType>* sys, ode_solver<ValueType>* solver,
            event_locator<ValueType>* event_finder)
-        : sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {
+        : sys(sys), solver(solver), event_finder(event_finder), event_happened(false), e_accum(0.0) {
         q = new double[sys->numVars()];
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
@@ -593,6 +593,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         }
     }
 
+    /// @brief Deletes the solver, event locator, and system of equations
+    virtual ~Hybrid() {
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+        delete event_finder;
+        delete solver;
+        delete sys;
+    }
+
   private:
     ode_system<ValueType>* sys;              // The ODE system
     ode_solver<ValueType>* solver;           // Integrator for the ode set
-- 
2.43.0


From 8b4999f32b4cb30c8c7cae420a1aaf8df684bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:04 +0000
Subject: [PATCH 13/29] fix: Hybrid does not skip an event at the time at which
 missed output is sent

delta_int dropped an event that was due at the very time at which the
output of an event found at an external transition was sent, and
output_func announced that event without calling postStep.
---
 include/adevs/solvers/hybrid.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index de2f471..3efddfe 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -476,7 +476,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // Nothing else happens unless there is also an event right now
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
@@ -577,14 +580,13 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      * Invokes the ode_system output function as needed.
      */
     void output_func(std::list<adevs::PinValue<ValueType>> &yb) {
-        if (!missedOutput.empty()) {
+        bool const missed = !missedOutput.empty();
+        if (missed) {
             for (auto iter : missedOutput) {
                 yb.push_back(iter);
             }
-            if (sigma == 0.0) {  // Confluent event
-                sys->output_func(q_trial, event, yb);
-            }
-        } else {
+        }
+        if (!missed || sigma == 0.0) {
             // Let the model adjust algebraic variables, etc. for the new state
             sys->postStep(q_trial);
             if (event_exists) {
-- 
2.43.0


From d9aca8795b49849eec2e558029fd5eb9a7490644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 14/29] fix: Hybrid applies an input that meets missed output
 to its current state

delta_conf gave such an input the state at the end of the tentative step
and the time to it as elapsed time.
---
 include/adevs/solvers/hybrid.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 3efddfe..c82b3e2 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -546,8 +546,11 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
         if (!missedOutput.empty()) {
             missedOutput.clear();
+            // The only thing that happened is that output was sent, so this is
+            // an input for the current state and not for the trial state
             if (sigma > 0.0) {
-                event_exists = false;
+                delta_ext(0.0, xb);
+                return;
             }
         }
         // Execute any discrete events
-- 
2.43.0


From 5ebd040761436013b5914bfd4a3832f692e5a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 15/29] fix: Hybrid loses no time and no event when an input
 interrupts a step

When the event locator shortened its search without finding an event, the
rest of the elapsed time was lost. An event found before the input was
reported as a time event if the tentative step ended with one. A step
without an event was not searched again, so that an event just beyond it
was lost.
---
 include/adevs/solvers/hybrid.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index c82b3e2..ccfb7f5 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -504,26 +504,32 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     void delta_ext(TimeType e, std::list<adevs::PinValue<ValueType>> const &xb) {
         bool state_event_exists = false;
+        double searched = 0.0, h;
         event_happened = true;
-        // Check that we have not missed a state event
-        if (event_exists) {
+        // This is not a time event
+        event[sys->numEvents()] = false;
+        // Check that we have not missed a state event. The event finder may
+        // look at less than the interval that it was given.
+        do {
             for (int i = 0; i < sys->numVars(); i++) {
                 q_trial[i] = q[i];
             }
-            solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            h = e - searched;
+            solver->advance(q_trial, h);
+            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
+            searched += h;
             // We missed an event
             if (state_event_exists) {
+                event_exists = true;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
-                for (int i = 0; i < sys->numVars(); i++) {
-                    q[i] = q_trial[i];
-                }
             }
-        }
+            for (int i = 0; i < sys->numVars(); i++) {
+                q[i] = q_trial[i];
+            }
+        } while (!state_event_exists && searched < e && h > 0.0);
         if (!state_event_exists)  // We didn't miss an event
         {
-            solver->advance(q, e);  // Advance the state q by e
             // Let the model adjust algebraic variables, etc. for the new state
             sys->postStep(q);
             // Process the discrete input
-- 
2.43.0


From bafb4f6e293bb496e365c69f9e341ba0da76ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 16/29] fix: CVODE presets the event parameter of the integrate
 methods

The model is to set it to true if it wants an event. A model that leaves
it alone otherwise got the value of an earlier step.
---
 include/adevs/solvers/cvode.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..e9a3a4b 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -216,6 +216,7 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
+    has_event = false;
     this->cvode_integrate(t_projected, has_event);
     return t_projected - t;
 }
@@ -245,6 +246,7 @@ template <typename ValueType>
 void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const &xb) {
     this->cvode_reinit(y_checkpoint, t);
     t += e;
+    has_event = false;
     this->cvode_integrate_until(t, has_event);
     if (has_event) {
         this->cvode_delta_conf(xb);
-- 
2.43.0


From 728cf358454b7fe8ea8c95c7ebda3a9555d09905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 17/29] fix: Jacobian of an FMU has the right column stride and
 no partial of time

---
 include/adevs/solvers/fmi.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..8a8bd51 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,14 +359,13 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is always 1, so its partials are zero, and nobody
+    // else depends on it. This, of course, may be wrong but FMU does not appear
+    // to support partials of f with respect to time. If you really need this, add
+    // dtau/dt = 1 to your equation set and use tau as your time variable.
     return true;
 }
 
-- 
2.43.0


From b9a92b6fa3b480e0d4300e913137ef13ac9f4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 18/29] fix: ModelExchange releases what it has when it cannot
 use an FMU

---
 include/adevs/solvers/fmi.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 8a8bd51..fafec68 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -270,17 +270,28 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
     fmi_import_context_t* context = fmi_import_allocate_context(&callbacks);
     fmi_version_enu_t version = fmi_import_get_fmi_version(context, fmu_file, tmpPath);
 
+    // Done with the context and temporary directory
+    auto release = [&]() {
+        fmi_import_free_context(context);
+        fmi_import_rmdir(nullptr, tmpPath);
+        free(tmpPath);
+    };
+
     if (version != fmi_version_2_0_enu) {
+        release();
         throw adevs::exception("Only version FMI 2.0 is supported");
     }
 
     fmu = fmi2_import_parse_xml(context, tmpPath, 0);
 
     if (!fmu) {
+        release();
         throw adevs::exception("Error parsing FMI XML");
     }
 
     if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs) {
+        fmi2_import_free(fmu);
+        release();
         throw adevs::exception("Only ME 2.0 is supported\n");
     }
 
@@ -291,10 +302,7 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
         fmi2_import_instantiate(fmu, "adevs::ModelExchange", fmi2_model_exchange, nullptr, false);
     assert(status_enum != jm_status_error);
 
-    // Done with the context and temporary directory
-    fmi_import_free_context(context);
-    fmi_import_rmdir(nullptr, tmpPath);
-    free(tmpPath);
+    release();
 
     this->set_num_state_variables(fmi2_import_get_number_of_continuous_states(fmu) + 1);
     this->set_num_event_functions(fmi2_import_get_number_of_event_indicators(fmu));
-- 
2.43.0


From 91729a982f933668b7907853a5e6f5a92e61939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 19/29] fix: ModelExchange makes a step of size zero right
 after an event

---
 include/adevs/solvers/fmi.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index fafec68..66e6cb3 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -496,9 +496,15 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
-    // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // A step of size zero may have been made without calling der_func or
+    // state_event_func
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
+    // Restore values changed by der_func and state_event_func
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From 6353aa23ad93aed747ee7382c8b145a8e74a716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 20/29] fix: ModelExchange has the state of the model also
 after a step of no time

---
 include/adevs/solvers/fmi.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 66e6cb3..6125889 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -471,20 +471,21 @@ double ModelExchange<ValueType>::time_event_func(double const* q) {
 template <typename ValueType>
 void ModelExchange<ValueType>::postStep(double* q) {
     assert(cont_time_mode);
+    // Restore values changed by der_func and state_event_func
+    fmi2_status_t status;
+    status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
+    assert(status == fmi2_status_ok);
+    status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
+    assert(status == fmi2_status_ok);
     // Don't advance the FMU state by zero units of time
     // when in continuous mode
     if (q[this->numVars() - 1] <= t_now) {
         return;
     }
     // Try to complete the integration step
-    fmi2_status_t status;
     fmi2_boolean_t enterEventMode;
     fmi2_boolean_t terminateSimulation;
     t_now = q[this->numVars() - 1];
-    status = fmi2_import_set_time(fmu, t_now);
-    assert(status == fmi2_status_ok);
-    status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-    assert(status == fmi2_status_ok);
     status =
         fmi2_import_completed_integrator_step(fmu, true, &enterEventMode, &terminateSimulation);
     assert(status == fmi2_status_ok);
-- 
2.43.0


From 8ba07384ed7c6a15325640239d3dc083daf7f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 21/29] fix: schedule2.h: keep the index of, and reposition,
 the entry that replaces a removed one

---
 include/adevs/schedule2.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..9b89c48 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -228,7 +228,11 @@ class Schedule {
         // initial element because it is being removed.
         model_heap[index] = model_heap.back();
         model_heap.pop_back();
-        percolate_down(index);
+        // The last element is in a new place, from which it may have to go either way
+        if (index < model_heap.size()) {
+            model_index[model_heap[index].model] = index;
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From 44f1bb1dddc8c3268f80da3f572782e77687c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 22/29] fix: redundant edits of a Coupled model do not change
 the Graph

Adding a component or coupling that is there already, or removing one that
is not there, added to or took from the instance counts of the Graph, and
so could remove what belongs to another Coupled model.
---
 include/adevs/models.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 7d1dc64..98ffad7 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -516,7 +516,9 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
+    if (!pin_to_atomic.insert(std::make_pair(pin, model)).second) {
+        return;  // The coupling exists already
+    }
     for (int i = 0; i < graph_instances(); i++) {
         g.lock()->connect(pin, model);
     }
@@ -525,7 +527,9 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
+    if (pin_to_atomic.erase(std::make_pair(pin, model)) == 0) {
+        return;  // The coupling is not part of this model
+    }
     for (int i = 0; i < graph_instances(); i++) {
         g.lock()->disconnect(pin, model);
     }
@@ -533,7 +537,9 @@ void Coupled<ValueType, TimeType>::remove_coupling(
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
+    if (!pin_to_pin.insert(std::make_pair(src, dst)).second) {
+        return;  // The coupling exists already
+    }
     for (int i = 0; i < graph_instances(); i++) {
         g.lock()->connect(src, dst);
     }
@@ -541,7 +547,9 @@ void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
+    if (pin_to_pin.erase(std::make_pair(src, dst)) == 0) {
+        return;  // The coupling is not part of this model
+    }
     for (int i = 0; i < graph_instances(); i++) {
         g.lock()->disconnect(src, dst);
     }
@@ -597,7 +605,9 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
+    if (!atomic_components.insert(model).second) {
+        return;  // The model is a component already
+    }
     for (int i = 0; i < graph_instances(); i++) {
         g.lock()->add_atomic(model);
     }
@@ -606,7 +616,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.erase(model);
+    bool is_component = atomic_components.erase(model) > 0;
     // Remove the couplings to the model that are part of this coupled model
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
@@ -619,7 +629,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             coupling++;
         }
     }
-    for (int i = 0; i < graph_instances(); i++) {
+    for (int i = 0; is_component && i < graph_instances(); i++) {
         g.lock()->remove_atomic(model);
     }
 }
@@ -627,7 +637,9 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
+    if (!coupled_components.insert(model).second) {
+        return;  // The model is a component already
+    }
     for (int i = 0; i < graph_instances(); i++) {
         model->assign_to_graph(g.lock());
     }
@@ -636,7 +648,9 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
+    if (coupled_components.erase(model) == 0) {
+        return;  // The model is not a component
+    }
     for (int i = 0; i < graph_instances(); i++) {
         model->remove_from_graph();
     }
-- 
2.43.0


From 12d6fc04247259b4c087ed7da5e54648b82e49ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 23/29] fix: Hybrid releases its arrays when the model throws
 in the constructor

---
 include/adevs/solvers/hybrid.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index ccfb7f5..b599750 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -419,11 +419,19 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
         event_exists = false;
-        sys->init(q_trial);  // Get the initial state of the model
-        for (int i = 0; i < sys->numVars(); i++) {
-            q[i] = q_trial[i];
+        try {
+            sys->init(q_trial);  // Get the initial state of the model
+            for (int i = 0; i < sys->numVars(); i++) {
+                q[i] = q_trial[i];
+            }
+            tentative_step();  // Take the first tentative step
+        } catch (...) {
+            // The destructor is not called if the model throws an exception here
+            delete[] q;
+            delete[] q_trial;
+            delete[] event;
+            throw;
         }
-        tentative_step();  // Take the first tentative step
     }
 
     /**
-- 
2.43.0


From 938bc41532e20b8f4e3e8af8c037ddfa076e3183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 24/29] fix: trap releases everything when its setup fails

---
 include/adevs/solvers/trap.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/trap.h b/include/adevs/solvers/trap.h
index c26a2d4..cde54a1 100644
--- a/include/adevs/solvers/trap.h
+++ b/include/adevs/solvers/trap.h
@@ -136,6 +136,7 @@ class trap : public ode_solver<ValueType> {
     kinsol_data_t kinsol_data;
 
     void prep_kinsol(bool silent);
+    void release();
 
     static int func(N_Vector y, N_Vector f, void* user_data);
     static int jac(N_Vector y, N_Vector f, SUNMatrix J, void* user_data, N_Vector tmp1,
@@ -284,16 +285,36 @@ void trap<ValueType>::prep_kinsol(bool silent) {
 
 template <typename ValueType>
 trap<ValueType>::trap(ode_system<ValueType>* sys, double err_tol, double h_max, bool silent)
-    : ode_solver<ValueType>(sys), err_tol(err_tol), h_max(h_max), h_cur(h_max) {
+    : ode_solver<ValueType>(sys),
+      sunctx(nullptr),
+      err_tol(err_tol),
+      h_max(h_max),
+      h_cur(h_max),
+      y(nullptr),
+      scale(nullptr),
+      kmem(nullptr),
+      J(nullptr),
+      LS(nullptr) {
     guess = new double[sys->numVars()];
     dq = new double[sys->numVars()];
     k = new double[sys->numVars()];
 
-    prep_kinsol(silent);
+    try {
+        prep_kinsol(silent);
+    } catch (...) {
+        // The destructor is not called if the constructor fails
+        release();
+        throw;
+    }
 }
 
 template <typename ValueType>
 trap<ValueType>::~trap() {
+    release();
+}
+
+template <typename ValueType>
+void trap<ValueType>::release() {
     delete[] guess;
     delete[] dq;
     delete[] k;
-- 
2.43.0


From 0b0d580b9201748208602e6c5bd0e9630d24d521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:40 +0000
Subject: [PATCH 25/29] fix: double_fcmp compares with != within its tolerance,
 as == does

Without an operator!= the comparison a != b fell back on the exact
comparison of the converted values, so that a == b and a != b could both
be true.
---
 include/adevs/time.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index c0f9636..f5a5c22 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -214,6 +214,10 @@ class double_fcmp {
     bool operator==(double rhs) const { return (fcmp(d, rhs, epsilon) == 0); }
     /// @brief Equality
     bool operator==(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 0); }
+    /// @brief Inequality
+    bool operator!=(double rhs) const { return (fcmp(d, rhs, epsilon) != 0); }
+    /// @brief Inequality
+    bool operator!=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) != 0); }
     /// @brief Advance this value by a step size t2
     double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }
     /// @brief Advance this value by a step size t2
-- 
2.43.0


From 8ac8146c1d81cd10db0288e86ddc19c327f1c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:45 +0000
Subject: [PATCH 26/29] fix: a Schedule of capacity zero or one accessed memory
 outside of its heap

---
 include/adevs/sched.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/adevs/sched.h b/include/adevs/sched.h
index cec025d..fe12d5d 100644
--- a/include/adevs/sched.h
+++ b/include/adevs/sched.h
@@ -52,7 +52,8 @@ class Schedule {
   public:
     /// Creates a scheduler with the default or specified initial capacity.
     Schedule(unsigned int capacity = 100)
-        : capacity(capacity), size(0), heap(new heap_element[capacity]) {
+        // The sentinel and the front of the queue are always there
+        : capacity(capacity < 2 ? 2 : capacity), size(0), heap(new heap_element[this->capacity]) {
         heap[0].priority = adevs_sentinel<TimeType>();  // This is a sentinel value
     }
     /// Get the model at the front of the queue.
-- 
2.43.0


From 21406344bb23e6e19f68942111068888afba3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:49 +0000
Subject: [PATCH 27/29] fix: removing a model that is in no graph of this
 simulator leaves schedules alone

---
 include/adevs/simulator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index a6aa77b..a7195c0 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -576,10 +576,12 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
                 break;
             }
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC: {
-                graph->remove_atomic(op.model);
-                // Keep the model in the schedule while it has other instances
                 auto const &atomics = graph->get_atomics();
-                if (atomics.find(op.model) == atomics.end()) {
+                bool is_member = atomics.find(op.model) != atomics.end();
+                graph->remove_atomic(op.model);
+                // Keep the model in the schedule while it has other instances. A model that
+                // is not in the Graph may be in the schedule of another Simulator.
+                if (is_member && atomics.find(op.model) == atomics.end()) {
                     sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 }
                 break;
-- 
2.43.0


From 391d1ebc85cfdd59fc4a7d42979a5cf108962c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:22 +0000
Subject: [PATCH 28/29] fix: ModelExchange refuses the name of a variable that
 the FMU does not have

Reading or setting it silently used the real variable with reference zero.
---
 include/adevs/solvers/fmi.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 6125889..9cff327 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -193,12 +193,24 @@ class ModelExchange : public ode_system<ValueType> {
         fmi2_base_type_enu_t var_type;
     };
     std::map<std::string, variable_info_t> name_to_variable_map;
+    // Throws an exception if there is no such variable
+    variable_info_t find_variable(std::string const &name) const;
 };
 
+template <typename ValueType>
+typename ModelExchange<ValueType>::variable_info_t ModelExchange<ValueType>::find_variable(
+    std::string const &name) const {
+    auto const iter = name_to_variable_map.find(name);
+    if (iter == name_to_variable_map.end()) {
+        throw adevs::exception(("The FMU has no variable " + name).c_str());
+    }
+    return iter->second;
+}
+
 template <typename ValueType>
 std::any ModelExchange<ValueType>::get_variable(std::string name) {
     fmi2_status_t status;
-    variable_info_t var_info = name_to_variable_map[name];
+    variable_info_t var_info = find_variable(name);
     if (var_info.var_type == fmi2_base_type_real) {
         fmi2_real_t val;
         status = fmi2_import_get_real(fmu, &var_info.ref, 1, &val);
@@ -223,7 +235,7 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
 template <typename ValueType>
 void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
     fmi2_status_t status;
-    variable_info_t var_info = name_to_variable_map[name];
+    variable_info_t var_info = find_variable(name);
     if (var_info.var_type == fmi2_base_type_real) {
         fmi2_real_t val = std::any_cast<fmi2_real_t>(value);
         status = fmi2_import_set_real(fmu, &var_info.ref, 1, &val);
-- 
2.43.0


From 77add119be7631c206c9f05e621a83f18171c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:22 +0000
Subject: [PATCH 29/29] fix: ModelExchange reads and sets enumerations, which
 are integers in FMI

They were read as zero and setting them had no effect.
---
 include/adevs/solvers/fmi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 9cff327..2282493 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -217,7 +217,7 @@ std::any ModelExchange<ValueType>::get_variable(std::string name) {
         assert(status == fmi2_status_ok);
         return val;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int || var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val;
         status = fmi2_import_get_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
@@ -242,7 +242,7 @@ void ModelExchange<ValueType>::set_variable(std::string name, std::any value) {
         assert(status == fmi2_status_ok);
         return;
     }
-    if (var_info.var_type == fmi2_base_type_int) {
+    if (var_info.var_type == fmi2_base_type_int || var_info.var_type == fmi2_base_type_enum) {
         fmi2_integer_t val = std::any_cast<fmi2_integer_t>(value);
         status = fmi2_import_set_integer(fmu, &var_info.ref, 1, &val);
         assert(status == fmi2_status_ok);
-- 
2.43.0

