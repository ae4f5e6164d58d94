From 5a7cb860332067c1f6b9e7a034fc4f25ff2ff777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 01/12] fix: accumulate statistics if the number of threads
 decreases

---
 libclingo-dl/src/propagator.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 54276a8..f6f0211 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -64,9 +64,10 @@ void Statistics::accu(Statistics const &x) {
     if (thread_statistics.size() < x.thread_statistics.size()) {
         thread_statistics.resize(x.thread_statistics.size());
     }
-    auto it = x.thread_statistics.begin();
-    for (auto &y : thread_statistics) {
-        y.accu(*it++);
+    // Note: there might be fewer threads than in previous steps
+    auto it = thread_statistics.begin();
+    for (auto const &y : x.thread_statistics) {
+        (it++)->accu(y);
     }
 }
 
-- 
2.43.0


From 0b779e7ab2deac6d365a9dfac688e6bc453078ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 02/12] fix: do not share decision heuristic setting among
 propagators

---
 libclingo-dl/src/clingo-dl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libclingo-dl/src/clingo-dl.cc b/libclingo-dl/src/clingo-dl.cc
index 8efc17c..a6b241a 100644
--- a/libclingo-dl/src/clingo-dl.cc
+++ b/libclingo-dl/src/clingo-dl.cc
@@ -137,8 +137,8 @@ template <typename T> class DLPropagatorFacade : public PropagatorFacade {
   public:
     DLPropagatorFacade(clingo_control_t *control, PropagatorConfig const &conf) : prop_{step_, conf} {
         handle_error(clingo_control_add(control, "base", nullptr, 0, THEORY));
-        static clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
-                                           conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
+        clingo_propagator_t prop = {init<T>, propagate<T>, undo<T>, check<T>,
+                                    conf.decision_mode != DecisionMode::Disabled ? decide<T> : nullptr};
         handle_error(clingo_control_register_propagator(control, &prop, &prop_, false));
     }
 
-- 
2.43.0


From 95524b46428f9fb5501ff13566ec5026b39384f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 03/12] fix: propagate through the zero vertex of the component

---
 libclingo-dl/src/propagator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index f6f0211..d33e850 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -745,7 +745,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             auto &edge = edges_[edge_idx];
             auto &info = vertex_info_[edge.from];
             // check for conflicts
-            if (!state.graph.add_edge(ctl, edge_idx, info.cc)) {
+            if (!state.graph.add_edge(ctl, edge_idx, zero_vertices_[info.cc])) {
                 return;
             }
         }
-- 
2.43.0


From d385d802df86cc85c1c316299abdb0bae5ab2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 04/12] fix: do not disable edges twice if zero and full
 propagation are combined

---
 libclingo-dl/src/graph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index a2867ca..4054be2 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -858,7 +858,10 @@ template <typename T> auto Graph<T>::propagate_full_(Clingo::PropagateControl &c
     //
     // There is a negative cycle, if cost(x ->* u) + cost(v *<- y) - cost(x -> y) + cost(u -> v) is negative.
     ++stats_.edges_propagated;
-    disable_edge(xy_idx);
+    // Note: the edge might have been disabled by propagation through the zero vertex
+    if (edge_is_enabled(xy_idx)) {
+        disable_edge(xy_idx);
+    }
     auto &xy = edges_[xy_idx];
     auto &x = vertices_[xy.from];
     auto &y = vertices_[xy.to];
-- 
2.43.0


From d6fa5b00f136b523c62ed4bf0530742b443e222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:15 +0000
Subject: [PATCH 05/12] fix: keep search bound of optimization within known
 bounds

---
 app/lib/src/app.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/lib/src/app.cc b/app/lib/src/app.cc
index 6a00b05..cae2403 100644
--- a/app/lib/src/app.cc
+++ b/app/lib/src/app.cc
@@ -113,8 +113,12 @@ auto Optimizer::on_model(Clingo::Model &model) -> bool {
 
     // determine search bound
     double aux = *optimization - adjust_;
-    if (lower_bound_ && aux <= *lower_bound_) {
-        aux = *lower_bound_ + 1.0;
+    if (lower_bound_ && aux < *lower_bound_) {
+        aux = *lower_bound_;
+    }
+    // the search bound must improve on the current solution
+    if (aux > *upper_bound_) {
+        aux = *upper_bound_;
     }
     if (aux < std::numeric_limits<int_value_t>::min()) {
         aux = std::numeric_limits<int_value_t>::min();
-- 
2.43.0


From 5e22aed99cc8d9ff19ed1fcbce6e251bd1301f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 06/12] fix: do not backtrack levels that could not be
 established

---
 libclingo-dl/clingo-dl/graph.hh | 4 ++--
 libclingo-dl/src/graph.cc       | 6 +++++-
 libclingo-dl/src/propagator.cc  | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/clingo-dl/graph.hh b/libclingo-dl/clingo-dl/graph.hh
index 31d2638..c8b294a 100644
--- a/libclingo-dl/clingo-dl/graph.hh
+++ b/libclingo-dl/clingo-dl/graph.hh
@@ -123,8 +123,8 @@ template <typename T> class Graph {
     //!
     //! This function assumes that the graph is not conflicting.
     [[nodiscard]] auto add_edge(Clingo::PropagateControl &ctl, edge_t uv_idx, vertex_t zero_idx) -> bool;
-    //! Backtracks the last decision level established with ensure_decision_level().
-    void backtrack();
+    //! Backtracks the given decision level if it has been established with ensure_decision_level().
+    void backtrack(level_t level);
     //! Return the configured propagation mode.
     [[nodiscard]] auto mode() const -> PropagationMode;
 
diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 4054be2..4653a4f 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -977,7 +977,11 @@ template <typename T>
     });
 }
 
-template <typename T> void Graph<T>::backtrack() {
+template <typename T> void Graph<T>::backtrack(level_t level) {
+    // Note: the level is missing if an error occured while establishing it
+    if (changed_trail_.empty() || current_decision_level_() != level) {
+        return;
+    }
     auto entry = changed_trail_.back();
     for (auto it = changed_vertices_.rbegin(), ie = changed_vertices_.rend() - entry.vertex_offset; it != ie; ++it) {
         vertices_[*it].potential_stack.pop_back();
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index d33e850..2bb0a20 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -202,7 +202,7 @@ void DLPropagator<T>::undo(Clingo::PropagateControl const &ctl, Clingo::LiteralS
     static_cast<void>(changes);
     auto &state = states_[ctl.thread_id()];
     Timer t{state.stats.time_undo};
-    state.graph.backtrack();
+    state.graph.backtrack(ctl.assignment().decision_level());
 }
 
 template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl) {
-- 
2.43.0


From 1ba405d1320eedfe8db978fd1207d438f5689e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 07/12] fix: set up watches and facts for threads added between
 steps

---
 libclingo-dl/clingo-dl/propagator.hh |  4 ++++
 libclingo-dl/src/propagator.cc       | 31 +++++++++++++++++++++++-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b1eff00..b2411cb 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -127,6 +127,10 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
                     bool strict);
     //! Add (up to one) edge for a constraint.
     void add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vertex_t v_id, value_t weight, literal_t lit);
+    //! Add watches for the given edge literal in the given thread.
+    void add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id);
+    //! Prepare threads that did not take part in the previous step.
+    void initialize_threads_(Clingo::PropagateInit &init);
     //! Reset connected components (to be recalculated with the next call to cc_calculate_).
     void cc_reset_();
     //! Mark a vertex in a component as visited.
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index 2bb0a20..ed1e4fc 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -165,6 +165,7 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     edge_t edge_start = edges_.size();
 
     Timer t{stats_.time_init};
+    initialize_threads_(init);
     if (!add_constraints_(init)) {
         return;
     }
@@ -423,11 +424,31 @@ void DLPropagator<T>::add_edge_(Clingo::PropagateInit &init, vertex_t u_id, vert
     edges_.push_back({u_id, v_id, weight, lit});
     lit_to_edges_.emplace(lit, id);
     for (int i = 0; i < init.number_of_threads(); ++i) {
-        init.add_watch(lit, i);
-        if (conf_.get_propagate_mode(i) >= PropagationMode::Zero || conf_.get_propagate_root(i) > 0 ||
-            conf_.get_propagate_budget(i) > 0) {
-            disable_edges_ = true;
-            init.add_watch(-lit, i);
+        add_watches_(init, lit, i);
+    }
+}
+
+template <typename T>
+void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, Clingo::id_t thread_id) {
+    init.add_watch(lit, thread_id);
+    if (conf_.get_propagate_mode(thread_id) >= PropagationMode::Zero || conf_.get_propagate_root(thread_id) > 0 ||
+        conf_.get_propagate_budget(thread_id) > 0) {
+        disable_edges_ = true;
+        init.add_watch(-lit, thread_id);
+    }
+}
+
+template <typename T> void DLPropagator<T>::initialize_threads_(Clingo::PropagateInit &init) {
+    // Note: Threads that did not take part in the previous step do not have
+    // watches for the edges added so far. They receive their facts again when
+    // watches are added.
+    auto threads = numeric_cast<Clingo::id_t>(init.number_of_threads());
+    for (auto i = numeric_cast<Clingo::id_t>(states_.size()); i < threads; ++i) {
+        if (i < facts_.size()) {
+            facts_[i].lits.clear();
+        }
+        for (auto const &edge : edges_) {
+            add_watches_(init, edge.lit, i);
         }
     }
 }
-- 
2.43.0


From 59fe9b16c6369f809f1d6aca83d7268b3eb78704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:17 +0000
Subject: [PATCH 08/12] fix: treat edge as relevant in full propagation despite
 costlier parallel edge

---
 libclingo-dl/src/graph.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 4653a4f..657b185 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -405,7 +405,12 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                         costs_heap_.push(*this, v_idx);
                     } else {
                         // vertex v became or lost relevance
-                        if (relevant_u != relevant_v) {
+                        // Note: the vertex at the end of the relevant edge has
+                        // already been counted if it is first reached via a
+                        // costlier parallel edge.
+                        if (uv_idx == relevant_idx) {
+                            relevant(v_idx) = true;
+                        } else if (relevant_u != relevant_v) {
                             relevant(v_idx) = relevant_u;
                             num_relevant += relevant_u ? 1 : -1;
                         }
-- 
2.43.0


From dc183820b0d08a2790cb4e0534d4cb3021026ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 09/12] fix: report earlier failure of initialization

If initialization failed, for example because of a malformed constraint or
because memory ran out, later steps silently lacked constraints.
---
 libclingo-dl/clingo-dl/propagator.hh | 1 +
 libclingo-dl/src/propagator.cc       | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/libclingo-dl/clingo-dl/propagator.hh b/libclingo-dl/clingo-dl/propagator.hh
index b2411cb..26c4b1a 100644
--- a/libclingo-dl/clingo-dl/propagator.hh
+++ b/libclingo-dl/clingo-dl/propagator.hh
@@ -167,6 +167,7 @@ template <typename T> class DLPropagator : public Clingo::Heuristic {
     VertexIndexVec zero_vertices_; //!< Vector holding all zero vertices.
     Statistics &stats_;            //!< Statistics for the propagator.
     PropagatorConfig conf_;        //!< Configuration of the propagator.
+    bool initializing_{false};     //!< Whether initialization is under way or has failed.
     bool disable_edges_{false};    //!< Whether to disable edges.
 };
 
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index ed1e4fc..a47e655 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -158,6 +158,13 @@ template <typename T> void DLPropagator<T>::extend_model(Clingo::Model &model) {
 }
 
 template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
+    // Note: If initialization fails, then some constraints of the current step
+    // have not been added and they cannot be obtained again later.
+    if (initializing_) {
+        throw std::runtime_error("a previous initialization of the difference logic propagator failed");
+    }
+    initializing_ = true;
+
     if (!edges_.empty()) {
         init.set_check_mode(Clingo::PropagatorCheckMode::Partial);
     }
@@ -167,6 +174,7 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
     Timer t{stats_.time_init};
     initialize_threads_(init);
     if (!add_constraints_(init)) {
+        initializing_ = false;
         return;
     }
 
@@ -187,6 +195,7 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
         calculate_mutexes_(init, edge_start, outgoing);
     }
     initialize_states_(init);
+    initializing_ = false;
 }
 
 template <typename T> void DLPropagator<T>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
-- 
2.43.0


From 91f8b181a2caea4f9fb9c744761f714f1b8e1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 10/12] fix: ignore rounding errors of floating point weights

With real numbers, decimal weights without exact binary representation lead to
errors about invalid solutions or spurious conflicts (for example, in cycles
whose weights sum up to zero).
---
 libclingo-dl/clingo-dl/theory.hh | 17 +++++++++++++++++
 libclingo-dl/src/graph.cc        | 26 ++++++++++++++------------
 libclingo-dl/src/propagator.cc   |  4 ++--
 3 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/libclingo-dl/clingo-dl/theory.hh b/libclingo-dl/clingo-dl/theory.hh
index 94b2484..2af9747 100644
--- a/libclingo-dl/clingo-dl/theory.hh
+++ b/libclingo-dl/clingo-dl/theory.hh
@@ -59,6 +59,23 @@ template <typename T> struct EdgeAtom {
 //! Epsilon value depending on number type.
 template <class T> [[nodiscard]] auto epsilon() -> T;
 
+//! Check if the first value is less than the second.
+//!
+//! Differences between floating point numbers stemming from rounding errors
+//! are ignored.
+template <class T> [[nodiscard]] inline auto is_less(T a, T b) -> bool {
+    if constexpr (std::is_floating_point_v<T>) {
+        // must be small compared to the value returned by epsilon()
+        constexpr T tolerance = 1e-9;
+        return a < b - tolerance;
+    } else {
+        return a < b;
+    }
+}
+
+//! Check if a value is negative ignoring rounding errors.
+template <class T> [[nodiscard]] inline auto is_negative(T value) -> bool { return is_less(value, T{0}); }
+
 } // namespace ClingoDL
 
 #endif
diff --git a/libclingo-dl/src/graph.cc b/libclingo-dl/src/graph.cc
index 657b185..0322dfd 100644
--- a/libclingo-dl/src/graph.cc
+++ b/libclingo-dl/src/graph.cc
@@ -389,8 +389,9 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // NOTE: We have to make sure that weights are positive for the
                 // algorithm to run correctly. We can use the potentials to do
                 // this. Explicitely using uv.from and uv.to is intended here.
-                auto c = cost(u_idx) + vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
-                assert(vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential() >= 0);
+                auto w = vertices_[uv.from].potential() + uv.weight - vertices_[uv.to].potential();
+                assert(!is_negative(w));
+                auto c = cost(u_idx) + std::max(w, value_t{0});
                 if (!visited(v_idx) || less(c, relevant_u, v_idx)) {
                     bool relevant_v = relevant(v_idx);
                     cost(v_idx) = c;
@@ -449,7 +450,7 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
         assert(visited_set().empty() && costs_heap_.empty());
         auto v_idx = to(uv_idx);
         auto bound_uv = bound_value(u_idx) + edges_[uv_idx].weight;
-        if (!bound_visited(v_idx) || bound_uv < bound_value(v_idx)) {
+        if (!bound_visited(v_idx) || is_less(bound_uv, bound_value(v_idx))) {
             cost(v_idx) = 0;
             costs_heap_.push(*this, v_idx);
             visited(v_idx) = true;
@@ -471,11 +472,12 @@ template <typename T> template <typename D> struct Graph<T>::Impl : Graph {
                 // NOTE: We have to make sure that weights are positive for the
                 // algorithm to run correctly. We can use the potentials to do
                 // this. Explicitely using st.from and st.to is intended here.
-                auto c = cost(s_idx) + vertices_[st.from].potential() + st.weight - vertices_[st.to].potential();
+                auto w = vertices_[st.from].potential() + st.weight - vertices_[st.to].potential();
+                assert(!is_negative(w));
+                auto c = cost(s_idx) + std::max(w, value_t{0});
                 auto bound_st = bound_value(s_idx) + st.weight;
-                assert(vertices_[st.from].potential() + st.weight - vertices_[st.to].potential() >= 0);
                 if ((!visited(t_idx) || less(c, false, t_idx)) &&
-                    (!bound_visited(t_idx) || bound_st < bound_value(t_idx))) {
+                    (!bound_visited(t_idx) || is_less(bound_st, bound_value(t_idx)))) {
                     cost(t_idx) = c;
                     if (!visited(t_idx)) {
                         visited(t_idx) = true;
@@ -745,7 +747,7 @@ template <typename T> bool Graph<T>::check_cycle_(Clingo::PropagateControl &ctl,
     }
     v.cost_from = u.potential() + uv.weight - v.potential();
     ++stats_.edges_added;
-    if (v.cost_from < 0) {
+    if (is_negative(v.cost_from)) {
         costs_heap_.push(m, uv.to);
         visited_from_.emplace_back(uv.to);
         v.visited_from = 1;
@@ -768,7 +770,7 @@ template <typename T> bool Graph<T>::check_cycle_(Clingo::PropagateControl &ctl,
             auto &st = edges_[st_idx];
             auto &t = vertices_[st.to];
             auto c = s.potential() + st.weight - t.potential();
-            if (c < (t.visited_from ? t.cost_from : 0)) {
+            if (t.visited_from ? c < t.cost_from : is_negative(c)) {
                 assert(c < 0);
                 t.path_from = st_idx;
                 t.cost_from = c;
@@ -824,7 +826,7 @@ template <typename T> bool Graph<T>::propagate_simple_(Clingo::PropagateControl
         if (visited_from_.empty() || propagate_ == PropagationMode::Trivial) {
             return with_incoming_(ctl, uv.from, [&](vertex_t t_idx, edge_t ts_idx) {
                 auto &ts = edges_[ts_idx];
-                if (t_idx == uv.to && uv.weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
+                if (t_idx == uv.to && is_negative(uv.weight + ts.weight) && !ctl.assignment().is_false(ts.lit)) {
                     clause_.emplace_back(-edges_[uv_idx].lit);
                     clause_.emplace_back(-edges_[ts_idx].lit);
                     ++stats_.false_edges_trivial;
@@ -956,7 +958,7 @@ template <typename T>
         auto &ts = edges_[ts_idx];
         if (s.visited_from < t.visited_from) {
             T weight = t.potential() - s.potential();
-            if (weight + ts.weight < 0 && !ctl.assignment().is_false(ts.lit)) {
+            if (is_negative(weight + ts.weight) && !ctl.assignment().is_false(ts.lit)) {
                 T check = 0;
                 auto r_idx = t_idx;
                 while (u_idx != r_idx && s_idx != r_idx) {
@@ -972,7 +974,7 @@ template <typename T>
                     } else {
                         ++stats_.false_edges_weak_plus;
                     }
-                    assert(weight == check);
+                    assert(!is_less(weight, check) && !is_less(check, weight));
                     clause_.emplace_back(-edges_[ts_idx].lit);
                     return true;
                 }
@@ -1174,7 +1176,7 @@ bool Graph<T>::propagate_edge_false_(Clingo::PropagateControl &ctl, edge_t uv_id
             cost_vu = v.bound_upper + u.bound_lower;
         }
 
-        if (cost_vu + uv.weight < 0) {
+        if (is_negative(cost_vu + uv.weight)) {
             ++stats_.false_edges;
             if (!ctl.assignment().is_false(uv.lit)) {
 #ifdef CLINGODL_CROSSCHECK
diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index a47e655..d8b84a3 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -229,7 +229,7 @@ template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl)
         for (auto &x : edges_) {
             if (ctl.assignment().is_true(x.lit)) {
                 if (!state.graph.has_value(x.from) || !state.graph.has_value(x.to) ||
-                    !(state.graph.get_value(x.from) - state.graph.get_value(x.to) <= x.weight)) {
+                    is_less(x.weight, state.graph.get_value(x.from) - state.graph.get_value(x.to))) {
                     throw std::logic_error("not a valid solution");
                 }
             }
@@ -623,7 +623,7 @@ void DLPropagator<T>::calculate_mutexes_(Clingo::PropagateInit &init, edge_t edg
                 if (found == 0 && st_truth == Clingo::TruthValue::Free) {
                     n += 1;
                 }
-                if (st.to == start.from && w < 0) {
+                if (st.to == start.from && is_negative(w)) {
                     ++stats_.mutexes;
                     clause.emplace_back(-st.lit);
                     auto c = queue_offset;
-- 
2.43.0


From 9d78d8ae0b1ebabe08522e74cd1a89e544a2d1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 11/12] fix: set up watches of threads that did not start
 before an interrupt

---
 libclingo-dl/src/propagator.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index d8b84a3..f585e06 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -108,6 +108,7 @@ template <typename T> struct DLPropagator<T>::ThreadState {
 template <typename T> struct DLPropagator<T>::FactState {
     std::vector<literal_t> lits; //!< Literals that are true on level 0.
     size_t limit{0};             //!< Offset until which literals have to be repropagated.
+    bool active{false};          //!< Whether the thread took part in the last step.
 };
 
 template <typename T>
@@ -199,9 +200,10 @@ template <typename T> void DLPropagator<T>::init(Clingo::PropagateInit &init) {
 }
 
 template <typename T> void DLPropagator<T>::propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) {
+    auto &facts = facts_[ctl.thread_id()];
+    facts.active = true;
     // add facts for propagation at the next step
     if (ctl.assignment().decision_level() == 0) {
-        auto &facts = facts_[ctl.thread_id()];
         facts.lits.insert(facts.lits.end(), changes.begin(), changes.end());
     }
     do_propagate(ctl, changes);
@@ -218,6 +220,7 @@ void DLPropagator<T>::undo(Clingo::PropagateControl const &ctl, Clingo::LiteralS
 template <typename T> void DLPropagator<T>::check(Clingo::PropagateControl &ctl) {
     ThreadState &state = states_[ctl.thread_id()];
     auto &facts = facts_[ctl.thread_id()];
+    facts.active = true;
     auto assignment = ctl.assignment();
     // propagate facts from previous step
     if (assignment.decision_level() == 0 && facts.limit > 0) {
@@ -450,16 +453,24 @@ void DLPropagator<T>::add_watches_(Clingo::PropagateInit &init, literal_t lit, C
 template <typename T> void DLPropagator<T>::initialize_threads_(Clingo::PropagateInit &init) {
     // Note: Threads that did not take part in the previous step do not have
     // watches for the edges added so far. They receive their facts again when
-    // watches are added.
+    // watches are added. The same holds for the edges added in the previous
+    // step if it was interrupted before the thread became active. Adding
+    // watches that are present already has no effect.
     auto threads = numeric_cast<Clingo::id_t>(init.number_of_threads());
-    for (auto i = numeric_cast<Clingo::id_t>(states_.size()); i < threads; ++i) {
-        if (i < facts_.size()) {
+    for (Clingo::id_t i = 0; i < threads; ++i) {
+        if (i < states_.size() && facts_[i].active) {
+            continue;
+        }
+        if (i >= states_.size() && i < facts_.size()) {
             facts_[i].lits.clear();
         }
         for (auto const &edge : edges_) {
             add_watches_(init, edge.lit, i);
         }
     }
+    for (auto &facts : facts_) {
+        facts.active = false;
+    }
 }
 
 template <typename T> void DLPropagator<T>::cc_reset_() {
-- 
2.43.0


From b3f9e966281abee3fd41f9efe2b73bea8b17e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 12/12] fix: keep only watches that are not re-added

---
 libclingo-dl/src/propagator.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libclingo-dl/src/propagator.cc b/libclingo-dl/src/propagator.cc
index f585e06..e431c57 100644
--- a/libclingo-dl/src/propagator.cc
+++ b/libclingo-dl/src/propagator.cc
@@ -745,6 +745,7 @@ void DLPropagator<T>::do_propagate(Clingo::PropagateControl &ctl, Clingo::Litera
             }
             if (truth == Clingo::TruthValue::Free || ass.level(*jt) == level) {
                 ctl.add_watch(*jt);
+            } else {
                 if (it != jt) {
                     *it = *jt;
                 }
-- 
2.43.0

