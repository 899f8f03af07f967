From a88a3ddbc8198a68df439e63d166a0162fb9c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 1/8] fix: run the exit action of a state whose transition is
 marked initial

---
 include/hsm/details/has_action.h    | 10 +++++++++-
 include/hsm/details/resolve_state.h |  4 ++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..cdb20ae 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -23,6 +23,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+constexpr auto resolveExitSource = [](auto transition) {
+    if constexpr (is_initial_state(transition.source())) {
+        return get_state(transition.source());
+    } else {
+        return transition.source();
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -33,7 +41,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveExitSource(transition)),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..75fcb50 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveExitSource(transition))) {
+        return get_exit_action(resolveExitSource(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 78d132ec6583cdb6ab08b1f764d812bc5436cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 2/8] fix: set_dependency replaces the previous dependencies
 instead of stacking on them

---
 include/hsm/details/sm.h | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..650f576 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -69,15 +69,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -169,6 +161,9 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+
+        clear_dispatch_table();
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
@@ -361,6 +356,28 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    void clear_dispatch_table()
+    {
+        bh::for_each(collect_event_typeids_recursive(rootState), [this](auto eventTypeid) {
+            for (auto& transitions : m_dispatchTables[eventTypeid]) {
+                transitions.clear();
+            }
+        });
+    }
+
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From 02774b072841cd9c990c1bea73b834092ef2a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 3/8] fix: record the history of a region under the region's
 own parent state

---
 include/hsm/details/sm.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 650f576..c101eb3 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -72,7 +72,7 @@ template <class RootState, class... OptionalParameters> class sm {
         fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
@@ -281,7 +281,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[parentStateOf(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -336,7 +336,22 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto currentParentState()
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return parentStateOf(0);
+    }
+
+    auto parentStateOf(Region region)
+    {
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
+    }
+
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // A submachine can be entered by any region, so each parent needs an entry per region
+        for (auto& history : m_history) {
+            history.resize(maxInitialStates(rootState), history.empty() ? 0 : history.front());
+        }
     }
 
     void init_current_state()
-- 
2.43.0


From c5e19769a3bea132b74d646291788f81c46d28f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:50 +0000
Subject: [PATCH 4/8] fix: is(region, parent, state) compares the parent of the
 requested region

---
 include/hsm/details/sm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index c101eb3..dc35dea 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -112,7 +112,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return parentStateOf(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
-- 
2.43.0


From 27fecfe67758629c576a5819320cdec88d537385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 5/8] fix: regenerate the amalgamated header from the current
 sources

include/hsm/gen/hsm.h was stale: process_event returned void, set() was
missing and none of the later corrections were in it, although the README
tells users to download exactly this file.
---
 include/hsm/gen/hsm.h | 365 ++++++++++++++++++++++++------------------
 1 file changed, 205 insertions(+), 160 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..4489512 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -238,7 +238,6 @@ template <class State> class Initial final : public InitialPseudoState {
 #include <boost/hana/or.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/tuple.hpp>
-#include <boost/hana/type.hpp>
 
 #include <functional>
 #include <memory>
@@ -353,7 +352,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +360,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -385,7 +384,6 @@ const auto get_unexpected_event_handler = [](auto rootState) {
 
 #include <boost/hana/at.hpp>
 #include <boost/hana/transform.hpp>
-#include <boost/hana/type.hpp>
 
 namespace hsm {
 
@@ -408,8 +406,6 @@ const auto collect_guard_typeids_recursive = [](auto state) {
 }
 
 #include <boost/hana/front.hpp>
-#include <boost/hana/transform.hpp>
-#include <boost/hana/type.hpp>
 
 namespace hsm {
 
@@ -448,10 +444,7 @@ template <class Source> struct initial_t;
 
 #include <type_traits>
 
-#include <boost/hana/bool.hpp>
-
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,10 +608,8 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
-#include <boost/hana/type.hpp>
 
 namespace hsm {
 
@@ -653,10 +644,6 @@ struct noneEvent {
 using none = event_t<noneEvent>;
 }
 
-#include <boost/hana/at.hpp>
-#include <boost/hana/pair.hpp>
-#include <boost/hana/transform.hpp>
-
 namespace hsm {
 
 namespace bh {
@@ -669,13 +656,9 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
-#include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
-#include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
-#include <boost/hana/size.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -738,12 +721,9 @@ template <class Typeids> constexpr auto make_index_map(Typeids typeids)
 // };
 }
 
-#include <boost/hana/at.hpp>
 #include <boost/hana/cartesian_product.hpp>
 #include <boost/hana/find.hpp>
 #include <boost/hana/if.hpp>
-#include <boost/hana/size.hpp>
-#include <boost/hana/type.hpp>
 
 #include <cstdint>
 
@@ -802,7 +782,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -824,13 +804,8 @@ constexpr auto getGuardIdx = [](auto rootState, auto guard) {
 };
 }
 
-#include <boost/hana/find.hpp>
 #include <boost/hana/maximum.hpp>
-#include <boost/hana/size.hpp>
-#include <boost/hana/transform.hpp>
-#include <boost/hana/zip.hpp>
 
-#include <iostream>
 #include <vector>
 
 namespace hsm {
@@ -922,6 +897,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -946,11 +939,6 @@ template <class State> constexpr auto maxInitialStates(State rootState)
 }
 }
 
-#include <boost/hana/bool.hpp>
-#include <boost/hana/if.hpp>
-#include <boost/hana/not.hpp>
-#include <boost/hana/or.hpp>
-
 namespace hsm {
 
 namespace bh {
@@ -965,6 +953,14 @@ constexpr auto has_substate_initial_state_entry_action = [](auto target) {
     }
 };
 
+constexpr auto resolveExitSource = [](auto transition) {
+    if constexpr (is_initial_state(transition.source())) {
+        return get_state(transition.source());
+    } else {
+        return transition.source();
+    }
+};
+
 constexpr auto has_pseudo_exit_action = [](auto transition) {
     return bh::and_(
         is_exit_state(transition.source()), has_exit_action(resolveSrcParent(transition)));
@@ -975,11 +971,10 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(resolveExitSource(transition)),
         has_pseudo_exit_action(transition));
 };
 }
-
 #include <boost/hana/functional/apply.hpp>
 
 namespace hsm {
@@ -1093,8 +1088,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(resolveExitSource(transition))) {
+        return get_exit_action(resolveExitSource(transition));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
@@ -1151,9 +1146,6 @@ template <class Transition> constexpr auto resolveHistory(Transition transition)
 #include <boost/hana/find_if.hpp>
 #include <boost/hana/functional/always.hpp>
 #include <boost/hana/lazy.hpp>
-#include <boost/hana/pair.hpp>
-#include <boost/hana/basic_tuple.hpp>
-#include <boost/hana/functional/compose.hpp>
 
 namespace hsm {
     namespace bh {
@@ -1180,11 +1172,8 @@ namespace hsm {
 }
 
 #include <boost/hana/back.hpp>
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
-#include <boost/hana/if.hpp>
 #include <boost/hana/prepend.hpp>
-#include <boost/hana/transform.hpp>
 
 namespace hsm {
 
@@ -1197,6 +1186,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1224,12 +1219,6 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 }
 }
 
-#include <boost/hana/at.hpp>
-#include <boost/hana/basic_tuple.hpp>
-#include <boost/hana/flatten.hpp>
-#include <boost/hana/transform.hpp>
-#include <boost/hana/type.hpp>
-
 namespace hsm {
 
 namespace bh {
@@ -1270,6 +1259,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1276,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,18 +1303,18 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
 #include <boost/hana/append.hpp>
-#include <boost/hana/at.hpp>
-#include <boost/hana/basic_tuple.hpp>
-#include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/functional/capture.hpp>
-#include <boost/hana/not.hpp>
-#include <boost/hana/prepend.hpp>
-#include <boost/hana/size.hpp>
-#include <boost/hana/transform.hpp>
 
 namespace hsm {
 
@@ -1383,29 +1377,57 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
@@ -1417,18 +1439,15 @@ constexpr auto get_internal_transitions = [](auto states) {
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return [](auto stateAndParentStatePairs) {
+        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+    }(collect_state_parentstate_pairs_recursively(rootState));
 }
 
 } // namespace hsm
 
-#include <boost/hana/at.hpp>
 #include <boost/hana/concat.hpp>
-#include <boost/hana/flatten.hpp>
-#include <boost/hana/transform.hpp>
-#include <boost/hana/tuple.hpp>
 
 namespace hsm {
 
@@ -1465,8 +1484,6 @@ template <class State> constexpr auto collect_events_recursive(State state)
 }
 }
 
-#include <memory>
-
 namespace hsm::details::utils {
 
 template <typename T, typename Delete = std::default_delete<T>> struct dunique_ptr;
@@ -1568,8 +1585,6 @@ template <typename T, typename D> void swap(dunique_ptr<T, D>& lhs, dunique_ptr<
 #include <boost/any.hpp>
 
 #include <array>
-#include <functional>
-#include <memory>
 
 namespace hsm {
 
@@ -1725,19 +1740,10 @@ template <class Event> struct NextState {
 }
 
 #include <boost/hana/at_key.hpp>
-#include <boost/hana/equal.hpp>
-#include <boost/hana/filter.hpp>
-#include <boost/hana/find.hpp>
 #include <boost/hana/fold.hpp>
-#include <boost/hana/for_each.hpp>
-#include <boost/hana/functional/apply.hpp>
-#include <boost/hana/functional/capture.hpp>
 #include <boost/hana/greater.hpp>
-#include <boost/hana/if.hpp>
 #include <boost/hana/length.hpp>
 #include <boost/hana/mult.hpp>
-#include <boost/hana/size.hpp>
-#include <boost/hana/type.hpp>
 
 namespace hsm {
 
@@ -1760,7 +1766,7 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
@@ -1840,7 +1846,7 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
         bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
             bh::apply(
@@ -1999,7 +2005,6 @@ constexpr auto fill_dispatch_table_with_internal_transitions(
 }
 }
 
-#include <boost/hana/map.hpp>
 #include <boost/hana/unpack.hpp>
 
 namespace hsm {
@@ -2015,11 +2020,6 @@ constexpr auto to_map = [](auto&& tupleOfPairs) {
 };
 }
 
-#include <boost/hana/pair.hpp>
-#include <boost/hana/transform.hpp>
-
-#include <memory>
-
 namespace hsm {
 
 namespace bh {
@@ -2073,11 +2073,6 @@ template <class RootState> constexpr auto make_unexpected_event_handler_tables(R
 }
 }
 
-#include <boost/hana/pair.hpp>
-#include <boost/hana/transform.hpp>
-
-#include <memory>
-
 namespace hsm {
 
 namespace bh {
@@ -2139,9 +2134,6 @@ constexpr auto fill_unexpected_event_handler_tables(
 }
 }
 
-#include <boost/hana/pair.hpp>
-#include <boost/hana/transform.hpp>
-
 #include <deque>
 
 namespace hsm {
@@ -2164,9 +2156,6 @@ template <class RootState> constexpr auto make_dispatch_tables(RootState rootSta
 }
 }
 
-#include <boost/hana/transform.hpp>
-#include <boost/hana/zip.hpp>
-
 namespace hsm {
 
 namespace bh {
@@ -2187,10 +2176,6 @@ template <class State> constexpr auto make_states_map(State&& parentState)
 }
 }
 
-#include <boost/hana/filter.hpp>
-#include <boost/hana/not_equal.hpp>
-#include <boost/hana/size.hpp>
-
 namespace hsm {
 
 namespace bh {
@@ -2218,9 +2203,6 @@ template <class State> constexpr auto has_history(State rootState)
 }
 }
 
-#include <boost/hana/type.hpp>
-#include <boost/hana/unpack.hpp>
-
 #include <stdexcept>
 #include <queue>
 #include <variant>
@@ -2281,15 +2263,9 @@ public:
 };
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/contains.hpp>
-#include <boost/hana/type.hpp>
 
-#include <array>
-#include <cstdint>
-#include <iostream>
 #include <sstream>
-#include <vector>
 
 namespace hsm {
 
@@ -2329,26 +2305,26 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2332,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2378,7 +2359,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return parentStateOf(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -2387,6 +2368,30 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
@@ -2403,11 +2408,21 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+
+        clear_dispatch_table();
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
@@ -2426,7 +2441,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 if (result.defer) {
                     m_defer_queue.push(event);
-                    return true;
+                    return ProcessEventResult::EventDefered;
                 }
 
                 if (!result.transition->executeGuard(event)) {
@@ -2444,15 +2459,15 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
     }
 
     auto process_deferred_events()
@@ -2464,7 +2479,7 @@ template <class RootState, class... OptionalParameters> class sm {
         }
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
@@ -2472,8 +2487,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 const auto currentRegions = current_regions();
                 for (Region region = 0; region < currentRegions; region++) {
-
-                    auto event = noneEvent {};
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -2515,7 +2528,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         if constexpr (has_history(rootState)) {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            m_history[parentStateOf(region)][region] = m_currentCombinedState[region];
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -2570,7 +2583,22 @@ template <class RootState, class... OptionalParameters> class sm {
 
     auto currentParentState()
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return parentStateOf(0);
+    }
+
+    auto parentStateOf(Region region)
+    {
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
+    }
+
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // A submachine can be entered by any region, so each parent needs an entry per region
+        for (auto& history : m_history) {
+            history.resize(maxInitialStates(rootState), history.empty() ? 0 : history.front());
+        }
     }
 
     void init_current_state()
@@ -2590,6 +2618,28 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    void clear_dispatch_table()
+    {
+        bh::for_each(collect_event_typeids_recursive(rootState), [this](auto eventTypeid) {
+            for (auto& transitions : m_dispatchTables[eventTypeid]) {
+                transitions.clear();
+            }
+        });
+    }
+
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
@@ -2733,8 +2783,6 @@ template <class Parent> struct history_t : public StateBase<History<state_t<Pare
 template <class Parent> const history_t<Parent> history {};
 }
 
-#include <boost/hana/tuple.hpp>
-
 namespace hsm {
 namespace bh {
 using namespace boost::hana;
@@ -2744,9 +2792,6 @@ constexpr auto transition_table = bh::make_basic_tuple;
 template <class... Events> constexpr auto events = bh::tuple_t<Events...>;
 }
 
-#include <boost/hana/bool.hpp>
-#include <boost/hana/tuple.hpp>
-
 namespace hsm {
 
 template <class Event, class Guard, class Action> class TransitionEGA {
@@ -2930,4 +2975,4 @@ template <class Source, class Guard> class TransitionSG {
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 73bbe7d0d6863550412f3ab91eaeb83db047be6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 6/8] fix: a state that defers events does so without an
 outgoing transition of its own

Deferred events were looked up through the rows whose source is the deferring
state, so a state that is only the target of transitions (for example the last
state of a submachine, left by a transition of the submachine) dropped the
events it declares in defer_events().
---
 include/hsm/details/fill_dispatch_table.h | 23 +++++++++++++----------
 include/hsm/gen/hsm.h                     | 23 +++++++++++++----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..9ea9279 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -222,30 +222,33 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+/**
+ * Returns the (parent state, state) pairs of all states that defer events, including states
+ * that are only ever the target of a transition.
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        collect_state_parentstate_pairs_recursively(rootState), stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    bh::for_each(getDeferingStates(rootState), [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 4489512..b00f954 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1943,30 +1943,33 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+/**
+ * Returns the (parent state, state) pairs of all states that defer events, including states
+ * that are only ever the target of a transition.
+ */
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    return bh::filter(
+        collect_state_parentstate_pairs_recursively(rootState), stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    bh::for_each(getDeferingStates(rootState), [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
             const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
             auto& dispatchTable = dispatchTables[event];
             const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+                combinedStateTypeids, bh::first(parentAndState), bh::second(parentAndState));
 
             dispatchTable[from].push_front({});
             dispatchTable[from].front().defer = true;
-- 
2.43.0


From d67fb14a2f114fcfb67881058b36d9611b54b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:14 +0000
Subject: [PATCH 7/8] fix: create_state and reuse_state hand the caller's event
 and the source state to their functors, not copies

Both wrappers took event and source by value, so writes a factory or reuse action
made to the event or to the source state's data were lost.
---
 include/hsm/details/create_state.h | 2 +-
 include/hsm/details/reuse_state.h  | 2 +-
 include/hsm/gen/hsm.h              | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/create_state.h b/include/hsm/details/create_state.h
index 308d6f6..2fe86b4 100644
--- a/include/hsm/details/create_state.h
+++ b/include/hsm/details/create_state.h
@@ -10,7 +10,7 @@ template <class StateFactory> class CreateState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         *target = m_stateFactory(event, source);
     }
diff --git a/include/hsm/details/reuse_state.h b/include/hsm/details/reuse_state.h
index 4276c79..1626130 100644
--- a/include/hsm/details/reuse_state.h
+++ b/include/hsm/details/reuse_state.h
@@ -10,7 +10,7 @@ template <class Action> class ReuseState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         m_action(event, source, **target);
     }
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index b00f954..d844eb5 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -31,7 +31,7 @@ template <class StateFactory> class CreateState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         *target = m_stateFactory(event, source);
     }
@@ -68,7 +68,7 @@ template <class Action> class ReuseState {
     }
 
     template <class Event, class Source, class Target>
-    constexpr auto operator()(Event event, Source source, Target target) const
+    constexpr auto operator()(Event&& event, Source&& source, Target&& target) const
     {
         m_action(event, source, **target);
     }
-- 
2.43.0


From 7f948b20596bec8eecd672c9fe07f3a5b5177142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:32 +0000
Subject: [PATCH 8/8] fix: regions of the root state go on reacting while
 region 0 is inside a submachine

---
 include/hsm/details/sm.h | 7 +++++--
 include/hsm/gen/hsm.h    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index dc35dea..1f44353 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -14,6 +14,7 @@
 #include <boost/hana/contains.hpp>
 #include <boost/hana/type.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <iostream>
@@ -305,8 +306,10 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            // A region that enters a submachine does not suspend the regions of the root state
+            m_currentRegions = std::max(
+                m_initial_states.at(getParentStateIdx(rootState, rootState)).size(),
+                m_initial_states.at(currentParentState()).size());
         }
     }
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index d844eb5..29ba880 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -2268,6 +2268,7 @@ public:
 
 #include <boost/hana/contains.hpp>
 
+#include <algorithm>
 #include <sstream>
 
 namespace hsm {
@@ -2555,8 +2556,10 @@ template <class RootState, class... OptionalParameters> class sm {
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentRegions = m_initial_states[currentParentState()].size();
+            // A region that enters a submachine does not suspend the regions of the root state
+            m_currentRegions = std::max(
+                m_initial_states.at(getParentStateIdx(rootState, rootState)).size(),
+                m_initial_states.at(currentParentState()).size());
         }
     }
 
-- 
2.43.0

