From eaf375f9502d9641e091064d6ea4fbda9362d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:55 +0000
Subject: [PATCH 01/15] fix: set_dependency drops entries bound to the previous
 dependencies

The dispatch table was refilled without clearing it, so a row whose guard
rejected with the new dependency was evaluated again with the old, possibly
destroyed one; the unexpected event handler was never rebound at all.
---
 include/hsm/details/sm.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 0c436ee..e22668a 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -69,15 +69,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
         fill_initial_state_table(rootState, m_history);
@@ -169,6 +161,9 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        // Entries bound to the previous dependencies must not stay behind the new ones
+        m_dispatchTables = DispatchTables {};
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
@@ -361,6 +356,19 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
-- 
2.43.0


From 74cc0a3a6edc56e14e273f95ddf46c20fcb6851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 02/15] fix: is(region, ...) and status() use the parent of the
 asked region

Regions other than the first one were compared with (and printed with) the
parent state of region 0, and status() wrote the region as a raw character.
---
 include/hsm/details/sm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index e22668a..6530530 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -112,7 +112,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -150,9 +150,9 @@ template <class RootState, class... OptionalParameters> class sm {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<int>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -334,9 +334,9 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
     void init_current_state()
-- 
2.43.0


From 2f83390d4a7174a6eb54b4cdc65a58ddc2e96454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:08 +0000
Subject: [PATCH 03/15] fix: set() updates the number of active regions

After set() moved region 0 into another parent state, the number of regions
offered an event was still the one of the parent state left behind.
---
 include/hsm/details/sm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 6530530..8bd4ce0 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -143,6 +143,7 @@ template <class RootState, class... OptionalParameters> class sm {
 
         m_currentCombinedState.at(region)
             = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
     }
 
     auto status() -> std::string
-- 
2.43.0


From 7cbafdddfa2a2b8292cd22edb7828fbf52ba931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:28 +0000
Subject: [PATCH 04/15] fix: states without an outgoing transition defer their
 events

Deferral was only registered for states that are the source of a row, so
defer_events() of a state that is merely a target was silently ignored.
---
 include/hsm/details/fill_dispatch_table.h | 38 ++++++++++++++---------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index c7b3e8f..e7db1b6 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -10,6 +10,7 @@
 #include "hsm/details/to_pairs.h"
 
 #include <boost/hana/at_key.hpp>
+#include <boost/hana/contains.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/find.hpp>
@@ -222,33 +223,40 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto parentsAndStates = collect_state_parentstate_pairs_recursively(rootState);
+    return bh::filter(parentsAndStates, stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto parentsAndStates = getDeferingStates(rootState);
+    bh::for_each(parentsAndStates, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
-            const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
-            auto& dispatchTable = dispatchTables[event];
-            const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
+            constexpr auto isProcessedEvent = decltype(bh::contains(
+                collect_event_typeids_recursive(rootState), event))::value;
 
-            dispatchTable[from].push_front({});
-            dispatchTable[from].front().defer = true;
+            if constexpr (isProcessedEvent) {
+                const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
+                auto& dispatchTable = dispatchTables[event];
+                const auto from = getCombinedStateIdx(
+                    combinedStateTypeids,
+                    bh::first(parentAndState),
+                    bh::second(parentAndState));
+
+                dispatchTable[from].push_front({});
+                dispatchTable[from].front().defer = true;
+            }
         });
     });
 }
-- 
2.43.0


From ed10e9f76a35a2ab2632b19806b2ad86423db6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:40 +0000
Subject: [PATCH 05/15] fix: replay every deferred event, in order of arrival

Only one deferred event was replayed per processed event and an event that
was deferred again moved behind younger ones, so pending events were handled
late, out of order, or after events that arrived later.
---
 include/hsm/details/sm.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 8bd4ce0..af3f6cf 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -227,8 +227,17 @@ template <class RootState, class... OptionalParameters> class sm {
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            // Offer each pending event once, in order of arrival, and start over as long as one of
+            // them was processed, since this might have left the defering state of another one.
+            auto retry = true;
+            while (retry) {
+                retry = false;
+                for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
+                    m_defer_queue.visit([this, &retry](auto event) {
+                        retry |= this->process_event_internal(event)
+                            == ProcessEventResult::EventProcessed;
+                    });
+                }
             }
         }
     }
-- 
2.43.0


From c9667ee83babe284ad523a98dc6bfa925ae056da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 06/15] fix: decide deferral before any region acts on the
 event

An event deferred by the state of a later region was already processed by the
regions before it: process_event returned false although a transition had
fired, and the replay processed the event a second time.
---
 include/hsm/details/sm.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index af3f6cf..6b495e1 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -181,6 +181,10 @@ template <class RootState, class... OptionalParameters> class sm {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
+        if (defer_event(event)) {
+            return ProcessEventResult::EventDefered;
+        }
+
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
 
@@ -193,11 +197,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return ProcessEventResult::EventDefered;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
@@ -224,6 +223,23 @@ template <class RootState, class... OptionalParameters> class sm {
         return ProcessEventResult::EventProcessed;
     }
 
+    template <class Event> auto defer_event(Event& event) -> bool
+    {
+        if constexpr (hasDeferedEvents(rootState)) {
+            // Decided before any region acts on the event, it would be processed twice otherwise
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        m_defer_queue.push(event);
+                        return true;
+                    }
+                }
+            }
+        }
+        return false;
+    }
+
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-- 
2.43.0


From 2f66a536f24377dbcb58b6dec45901001e80101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 07/15] fix: transitions of a sub machine take precedence over
 those of the composite

Rows with a composite source were tried before the rows of its sub machine
whenever they were declared after the row that enters it, so reordering rows
of the outer table changed which transition fired.
---
 include/hsm/details/fill_dispatch_table.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index e7db1b6..1dca394 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -22,6 +22,7 @@
 #include <boost/hana/if.hpp>
 #include <boost/hana/length.hpp>
 #include <boost/hana/mult.hpp>
+#include <boost/hana/reverse.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/type.hpp>
 
@@ -144,12 +145,14 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
                                     // added twice
-                                    dispatchTable[fromIdx].push_front({ toIdx,
-                                                                        history,
-                                                                        defer,
-                                                                        valid,
-                                                                        internal,
-                                                                        std::move(transition2) });
+                                    // Transitions of the sub machine go first, independent of the
+                                    // order of declaration
+                                    dispatchTable[fromIdx].push_back({ toIdx,
+                                                                       history,
+                                                                       defer,
+                                                                       valid,
+                                                                       internal,
+                                                                       std::move(transition2) });
                                 },
                                 dispatchTables[eventTypeid],
                                 make_transition(
@@ -212,6 +215,11 @@ constexpr auto fill_dispatch_table_with_transitions(
                         eventTypeid,
                         statesMap,
                         optionalDependency);
+                });
+            bh::for_each(
+                bh::reverse(filteredTransitions),
+                [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                    auto transition) {
                     addDispatchTableEntryOfSubMachineExits(
                         rootState,
                         dispatchTables,
-- 
2.43.0


From 37f00665fccc4cbc5f5931c2b14054ab80e66625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:39 +0000
Subject: [PATCH 08/15] fix: keep the history of each region under the parent
 state of that region

The history of region 1 and above was written under the parent state of
region 0, beyond the end of its vector if that parent has fewer regions, and
only for the region that happened to make the transition.
---
 include/hsm/details/sm.h | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 6b495e1..9cce7b1 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -72,7 +72,7 @@ template <class RootState, class... OptionalParameters> class sm {
         fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
@@ -306,8 +306,7 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if constexpr (has_history(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+            save_history();
 
             if (dispatchTableEntry.history) {
                 auto parent
@@ -328,6 +327,17 @@ template <class RootState, class... OptionalParameters> class sm {
         update_current_regions();
     }
 
+    void save_history()
+    {
+        if constexpr (has_history(rootState)) {
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_history[currentParentState(region)][region] = m_currentCombinedState[region];
+            }
+        }
+    }
+
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
@@ -365,6 +375,17 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // Each region can enter each parent state
+        for (auto& history : m_history) {
+            history.resize(
+                maxInitialStates(rootState), history.empty() ? StateIdx {} : history.front());
+        }
+    }
+
     void init_current_state()
     {
         const auto initialParentState = getParentStateIdx(rootState, rootState);
-- 
2.43.0


From e9424f2395b094a74f35f61c818e4a372e5d5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:21 +0000
Subject: [PATCH 09/15] fix: enter and leave all regions of a composite state

Regions other than the first one of a composite state kept an uninitialized
or stale state when the composite state was entered, and went on processing
the event that had just made the first region leave it.
---
 include/hsm/details/dispatch_table.h      |  3 ++
 include/hsm/details/fill_dispatch_table.h | 42 +++++++++++++++++-
 include/hsm/details/sm.h                  | 52 ++++++++++++++---------
 3 files changed, 76 insertions(+), 21 deletions(-)

diff --git a/include/hsm/details/dispatch_table.h b/include/hsm/details/dispatch_table.h
index b669455..a566fae 100644
--- a/include/hsm/details/dispatch_table.h
+++ b/include/hsm/details/dispatch_table.h
@@ -155,6 +155,9 @@ constexpr auto make_transition(
 template <class Event> struct NextState {
     StateIdx combinedState {};
     bool history {};
+    // Entering or leaving a composite state concerns all regions of the composite state
+    bool enter {};
+    bool leave {};
     bool defer {};
     bool valid = false;
     bool internal = false;
diff --git a/include/hsm/details/fill_dispatch_table.h b/include/hsm/details/fill_dispatch_table.h
index 1dca394..89a5371 100644
--- a/include/hsm/details/fill_dispatch_table.h
+++ b/include/hsm/details/fill_dispatch_table.h
@@ -52,6 +52,32 @@ template <class State> constexpr auto hasParallelRegions(State rootState) -> dec
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
 
+/**
+ * True if a transition targets a state of a composite state whose regions have to be entered
+ * together. The regions of a parent state with parallel regions itself stay untouched.
+ */
+template <class Transition> constexpr auto entersRegions(Transition transition) -> bool
+{
+    if constexpr (transition.internal()) {
+        return false;
+    } else {
+        return bh::typeid_(resolveDstParent(transition)) != bh::typeid_(transition.parent())
+            && bh::size(collect_initial_states(transition.parent())) == bh::size_c<1>;
+    }
+}
+
+/**
+ * True if a transition of a parent state starts in one of the states of a composite state
+ */
+template <class Transition> constexpr auto leavesRegions(Transition transition) -> bool
+{
+    if constexpr (transition.internal()) {
+        return false;
+    } else {
+        return bh::typeid_(resolveSrcParent(transition)) != bh::typeid_(transition.parent());
+    }
+}
+
 template <
     class State,
     class DispatchTables,
@@ -75,12 +101,20 @@ constexpr auto addDispatchTableEntry(
                     -> void {
                     bh::apply(
                         [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                            const auto enter = entersRegions(transition);
+                            const auto leave = leavesRegions(transition);
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                            dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                            dispatchTable[fromIdx].push_front({ toIdx,
+                                                                history,
+                                                                enter,
+                                                                leave,
+                                                                defer,
+                                                                valid,
+                                                                internal,
+                                                                std::move(transition2) });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -141,6 +175,8 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedTarget) {
                             bh::apply(
                                 [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                    const auto enter = entersRegions(transition);
+                                    const auto leave = true;
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
@@ -149,6 +185,8 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                                     // order of declaration
                                     dispatchTable[fromIdx].push_back({ toIdx,
                                                                        history,
+                                                                       enter,
+                                                                       leave,
                                                                        defer,
                                                                        valid,
                                                                        internal,
diff --git a/include/hsm/details/sm.h b/include/hsm/details/sm.h
index 9cce7b1..69b2e19 100644
--- a/include/hsm/details/sm.h
+++ b/include/hsm/details/sm.h
@@ -34,7 +34,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -185,8 +185,9 @@ template <class RootState, class... OptionalParameters> class sm {
             return ProcessEventResult::EventDefered;
         }
 
+        auto leftRegions = false;
         const auto currentRegions = current_regions();
-        for (Region region = 0; region < currentRegions; region++) {
+        for (Region region = 0; region < currentRegions && !leftRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             auto& results = get_dispatch_table_entry(event, region);
@@ -204,7 +205,8 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                leftRegions = leaves_regions(region, result);
+                update_current_state(leftRegions ? 0 : region, result);
 
                 result.transition->executeAction(event);
                 break;
@@ -264,8 +266,9 @@ template <class RootState, class... OptionalParameters> class sm {
             while (true) {
                 auto allGuardsFailed = true;
 
+                auto leftRegions = false;
                 const auto currentRegions = current_regions();
-                for (Region region = 0; region < currentRegions; region++) {
+                for (Region region = 0; region < currentRegions && !leftRegions; region++) {
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -278,7 +281,8 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        leftRegions = leaves_regions(region, result);
+                        update_current_state(leftRegions ? 0 : region, result);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -298,6 +302,16 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[event][index];
     }
 
+    /**
+     * A transition out of a parent state with parallel regions leaves all of its regions,
+     * independent of the region it starts from
+     */
+    template <class DispatchTableEntry>
+    auto leaves_regions(Region region, const DispatchTableEntry& dispatchTableEntry) -> bool
+    {
+        return dispatchTableEntry.leave && m_initial_states[currentParentState(region)].size() > 1;
+    }
+
     template <class DispatchTableEntry>
     void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
     {
@@ -305,23 +319,23 @@ template <class RootState, class... OptionalParameters> class sm {
             return;
         }
 
-        if constexpr (has_history(rootState)) {
-            save_history();
+        save_history();
 
-            if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
+        const auto parent
+            = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        const auto& entered
+            = dispatchTableEntry.history ? m_history[parent] : m_initial_states[parent];
+
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        m_currentCombinedState[region]
+            = dispatchTableEntry.history ? entered[region] : dispatchTableEntry.combinedState;
+
+        if (dispatchTableEntry.enter && region == 0) {
+            for (Region other = 1; other < m_initial_states[parent].size(); other++) {
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+                m_currentCombinedState[other] = entered[other];
             }
-        } else {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
         update_current_regions();
-- 
2.43.0


From 7f658230a910b82b20fd331091268879d0b107c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:14 +0000
Subject: [PATCH 10/15] fix: regenerate the amalgamation header

include/hsm/gen/hsm.h was generated from an old revision: process_event had
no result, set() was missing, and leaf states had no internal transitions.
---
 include/hsm/gen/hsm.h | 453 +++++++++++++++++++++++++++++++-----------
 1 file changed, 342 insertions(+), 111 deletions(-)

diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 261e64d..55248f3 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -353,7 +353,7 @@ constexpr auto is_initial_state = [](auto typeid_) {
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
-template <class Action> constexpr decltype(auto) is_action()
+template <class Action> constexpr auto is_action() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Action>, bh::typeid_(noAction {}));
 }
@@ -361,7 +361,7 @@ template <class Action> constexpr decltype(auto) is_action()
 constexpr auto is_no_guard
     = [](auto guard) { return bh::equal(bh::typeid_(guard), bh::typeid_(noGuard {})); };
 
-template <class Guard> constexpr decltype(auto) is_guard()
+template <class Guard> constexpr auto is_guard() -> decltype(auto)
 {
     return bh::not_equal(bh::type_c<Guard>, bh::typeid_(noGuard {}));
 }
@@ -450,8 +450,7 @@ template <class Source> struct initial_t;
 
 #include <boost/hana/bool.hpp>
 
-namespace hsm {
-namespace details {
+namespace hsm::details {
 
 namespace bh {
 using namespace boost::hana;
@@ -615,7 +614,6 @@ constexpr auto internal_extended_transition = [](auto parent, auto transition) {
                 transition.target() };
 };
 }
-}
 
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/type.hpp>
@@ -669,13 +667,13 @@ template <class Tuple> constexpr auto to_pairs(const Tuple& tuple)
 }
 }
 
-#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/drop_while.hpp>
 #include <boost/hana/map.hpp>
 #include <boost/hana/minus.hpp>
 #include <boost/hana/not_equal.hpp>
 #include <boost/hana/range.hpp>
 #include <boost/hana/size.hpp>
+#include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/zip.hpp>
 
 namespace {
@@ -802,7 +800,7 @@ constexpr auto calcParentStateIdx
 constexpr auto calcStateIdx
     = [](std::size_t nStates, Idx combinedState) -> Idx { return combinedState % nStates; };
 
-template <class Event> constexpr decltype(auto) resolveEvent(Event event)
+template <class Event> constexpr auto resolveEvent(Event event) -> decltype(auto)
 {
     if constexpr (is_event(event)) {
         return event.typeid_;
@@ -922,6 +920,24 @@ constexpr auto fill_initial_state_table(State rootState, StateTable& initialStat
         });
 }
 
+template <class State>
+constexpr auto at_least_one_initial_state_has_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_transition_table(initialState));
+        });
+}
+
+template <class State>
+constexpr auto at_least_one_initial_state_has_internal_transition_table(State rootState)
+{
+    return bh::fold_left(
+        collect_initial_states(rootState), bh::false_c, [](auto result, auto initialState) {
+            return bh::or_(result, has_internal_transition_table(initialState));
+        });
+}
+
 /**
  * Returns a tuple of initial state sizes
  *
@@ -979,7 +995,6 @@ constexpr auto has_action = [](auto transition) {
         has_pseudo_exit_action(transition));
 };
 }
-
 #include <boost/hana/functional/apply.hpp>
 
 namespace hsm {
@@ -1197,6 +1212,12 @@ template <class State> constexpr auto flatten_sub_transition_table(State state);
 
 }
 
+/**
+ * This function iterates recursively trough the transition table of a state provided by
+ * `make_transition_table()` and collects all transitions.
+ *
+ * @return a list of ExtendedTransition
+ */
 template <class State> constexpr auto flatten_transition_table(State state)
 {
     auto flattenSubTransitionTable = [state](auto transition) {
@@ -1227,6 +1248,7 @@ template <class State> constexpr auto flatten_sub_transition_table(State state)
 #include <boost/hana/at.hpp>
 #include <boost/hana/basic_tuple.hpp>
 #include <boost/hana/flatten.hpp>
+#include <boost/hana/prepend.hpp>
 #include <boost/hana/transform.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1270,6 +1292,12 @@ constexpr auto extractStateTypeids = [](auto transition) {
 };
 }
 
+constexpr auto extractParentAndState = [](auto transition) {
+    return bh::make_basic_tuple(
+        bh::make_pair(transition.parent(), resolveInitialState(transition)),
+        bh::make_pair(transition.parent(), transition.target()));
+};
+
 template <class State> constexpr auto collect_child_state_typeids_recursive(State parentState)
 {
     auto transitions = flatten_transition_table(parentState);
@@ -1281,7 +1309,6 @@ template <class State> constexpr auto collect_child_state_typeids_recursive(Stat
 template <class State> constexpr auto collect_child_states_recursive(State parentState)
 {
     return bh::flatten(bh::transform(flatten_transition_table(parentState), extractExtendedStates));
-    ;
 }
 
 template <class State> constexpr auto collect_state_typeids_recursive(State parentState)
@@ -1309,6 +1336,13 @@ template <class State> constexpr auto collect_child_states(State state)
     return remove_duplicates(
         bh::flatten(bh::transform(make_transition_table2(state), extractStates)));
 }
+
+template <class State> constexpr auto collect_state_parentstate_pairs_recursively(State rootState)
+{
+    return remove_duplicates(bh::prepend(
+        bh::flatten(bh::transform(flatten_transition_table(rootState), extractParentAndState)),
+        bh::make_pair(rootState, rootState)));
+}
 }
 
 #include <boost/hana/append.hpp>
@@ -1383,29 +1417,57 @@ constexpr auto extend_internal_transition(Transition internalTransition, States
 }
 
 /**
- * Returns the internal transitions for each for each state
+ * Extends an internal transitions to all provided states
+ *
+ * @param internalTranstion Internal transition that should be extended
+ * @param states tuple of states
+ */
+template <class Transition, class ParentState, class State>
+constexpr auto
+extend_internal_transition2(Transition internalTransition, ParentState parent, State state)
+{
+    return bh::make_basic_tuple(details::internal_extended_transition(
+        parent,
+        details::transition(
+            state,
+            internalTransition.event(),
+            internalTransition.guard(),
+            internalTransition.action(),
+            state)));
+}
+
+/**
+ * Returns the internal transitions for each state
  * [[transition1, transition2], [transition3, transition4], []]
  *
  * @param states a tuple of states
  */
-constexpr auto get_internal_transitions = [](auto states) {
+constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
     return bh::flatten(bh::filter(
         bh::transform(
-            states,
-            [](auto parentState) {
-                constexpr auto extend
-                    = bh::capture(parentState)([](auto parentState, auto transition) {
-                          // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
-                          (void)transition;
-                          if constexpr (has_transition_table(parentState)) {
-                              return extend_internal_transition(
-                                  transition, collect_child_states(parentState));
-                          } else {
-                              return bh::make_basic_tuple();
-                          }
-                      });
-
-                return bh::transform(get_internal_transition_table(parentState), extend);
+            stateAndParentStatePairs,
+            [](auto stateAndParentStatePair) {
+                constexpr auto extend = bh::capture(stateAndParentStatePair)(
+                    [](auto stateAndParentStatePair, auto internalTransition) {
+                        // Folowing lines satisfies older gcc -Werror=unused-but-set-parameter
+                        (void)internalTransition;
+                        if constexpr (has_transition_table(bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition(
+                                internalTransition,
+                                collect_child_states(bh::second(stateAndParentStatePair)));
+                        } else if constexpr (has_internal_transition_table(
+                                                 bh::second(stateAndParentStatePair))) {
+                            return extend_internal_transition2(
+                                internalTransition,
+                                bh::first(stateAndParentStatePair),
+                                bh::second(stateAndParentStatePair));
+                        } else {
+                            return bh::make_basic_tuple();
+                        }
+                    });
+
+                return bh::transform(
+                    get_internal_transition_table(bh::second(stateAndParentStatePair)), extend);
             }),
         isNotEmpty));
 };
@@ -1417,9 +1479,10 @@ constexpr auto get_internal_transitions = [](auto states) {
  */
 template <class State> constexpr auto flatten_internal_transition_table(State rootState)
 {
-    return [](auto states) {
-        return bh::to<bh::basic_tuple_tag>(bh::flatten(get_internal_transitions(states)));
-    }(collect_states_recursive(rootState));
+    return [](auto stateAndParentStatePairs) {
+        return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
+            bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
+    }(collect_state_parentstate_pairs_recursively(rootState));
 }
 
 } // namespace hsm
@@ -1717,6 +1780,9 @@ constexpr auto make_transition(
 template <class Event> struct NextState {
     StateIdx combinedState {};
     bool history {};
+    // Entering or leaving a composite state concerns all regions of the composite state
+    bool enter {};
+    bool leave {};
     bool defer {};
     bool valid = false;
     bool internal = false;
@@ -1725,6 +1791,7 @@ template <class Event> struct NextState {
 }
 
 #include <boost/hana/at_key.hpp>
+#include <boost/hana/contains.hpp>
 #include <boost/hana/equal.hpp>
 #include <boost/hana/filter.hpp>
 #include <boost/hana/find.hpp>
@@ -1736,6 +1803,7 @@ template <class Event> struct NextState {
 #include <boost/hana/if.hpp>
 #include <boost/hana/length.hpp>
 #include <boost/hana/mult.hpp>
+#include <boost/hana/reverse.hpp>
 #include <boost/hana/size.hpp>
 #include <boost/hana/type.hpp>
 
@@ -1760,11 +1828,37 @@ template <class State> constexpr auto nEvents(State rootState)
     return bh::length(collect_event_typeids_recursive(rootState));
 }
 
-template <class State> constexpr decltype(auto) hasParallelRegions(State rootState)
+template <class State> constexpr auto hasParallelRegions(State rootState) -> decltype(auto)
 {
     return bh::greater(maxInitialStates(rootState), bh::size_c<1>);
 }
 
+/**
+ * True if a transition targets a state of a composite state whose regions have to be entered
+ * together. The regions of a parent state with parallel regions itself stay untouched.
+ */
+template <class Transition> constexpr auto entersRegions(Transition transition) -> bool
+{
+    if constexpr (transition.internal()) {
+        return false;
+    } else {
+        return bh::typeid_(resolveDstParent(transition)) != bh::typeid_(transition.parent())
+            && bh::size(collect_initial_states(transition.parent())) == bh::size_c<1>;
+    }
+}
+
+/**
+ * True if a transition of a parent state starts in one of the states of a composite state
+ */
+template <class Transition> constexpr auto leavesRegions(Transition transition) -> bool
+{
+    if constexpr (transition.internal()) {
+        return false;
+    } else {
+        return bh::typeid_(resolveSrcParent(transition)) != bh::typeid_(transition.parent());
+    }
+}
+
 template <
     class State,
     class DispatchTables,
@@ -1788,12 +1882,20 @@ constexpr auto addDispatchTableEntry(
                     -> void {
                     bh::apply(
                         [=](auto& dispatchTable, auto&& transition2, bool internal) -> void {
+                            const auto enter = entersRegions(transition);
+                            const auto leave = leavesRegions(transition);
                             const auto defer = false;
                             const auto valid = true;
 
                             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                            dispatchTable[fromIdx].push_front(
-                                { toIdx, history, defer, valid, internal, std::move(transition2) });
+                            dispatchTable[fromIdx].push_front({ toIdx,
+                                                                history,
+                                                                enter,
+                                                                leave,
+                                                                defer,
+                                                                valid,
+                                                                internal,
+                                                                std::move(transition2) });
                         },
                         dispatchTables[eventTypeid],
                         make_transition(
@@ -1840,7 +1942,7 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
         return;
     }
 
-    constexpr auto parentState = transition.source();
+    const auto parentState = transition.source();
     if constexpr (has_transition_table(parentState)) {
         bh::for_each(collect_child_state_typeids(parentState), [=, &dispatchTables](auto state) {
             bh::apply(
@@ -1854,16 +1956,22 @@ constexpr auto addDispatchTableEntryOfSubMachineExits(
                             auto mappedTarget) {
                             bh::apply(
                                 [=](auto& dispatchTable, auto&& transition2, bool internal) {
+                                    const auto enter = entersRegions(transition);
+                                    const auto leave = true;
                                     const auto defer = false;
                                     const auto valid = true;
                                     // TODO: Since dispatch table is static, transitions might be
                                     // added twice
-                                    dispatchTable[fromIdx].push_front({ toIdx,
-                                                                        history,
-                                                                        defer,
-                                                                        valid,
-                                                                        internal,
-                                                                        std::move(transition2) });
+                                    // Transitions of the sub machine go first, independent of the
+                                    // order of declaration
+                                    dispatchTable[fromIdx].push_back({ toIdx,
+                                                                       history,
+                                                                       enter,
+                                                                       leave,
+                                                                       defer,
+                                                                       valid,
+                                                                       internal,
+                                                                       std::move(transition2) });
                                 },
                                 dispatchTables[eventTypeid],
                                 make_transition(
@@ -1926,6 +2034,11 @@ constexpr auto fill_dispatch_table_with_transitions(
                         eventTypeid,
                         statesMap,
                         optionalDependency);
+                });
+            bh::for_each(
+                bh::reverse(filteredTransitions),
+                [rootState, &dispatchTables, statesMap, optionalDependency, eventTypeid](
+                    auto transition) {
                     addDispatchTableEntryOfSubMachineExits(
                         rootState,
                         dispatchTables,
@@ -1937,33 +2050,40 @@ constexpr auto fill_dispatch_table_with_transitions(
         });
 }
 
-constexpr auto getDeferingTransitions = [](auto rootState) {
-    constexpr auto transitionHasDeferedEvents
-        = [](auto transition) { return has_deferred_events(resolveExtentedInitialState(transition)); };
+constexpr auto getDeferingStates = [](auto rootState) {
+    constexpr auto stateHasDeferedEvents
+        = [](auto parentAndState) { return has_deferred_events(bh::second(parentAndState)); };
 
-    constexpr auto transitions = flatten_transition_table(rootState);
-    return bh::filter(transitions, transitionHasDeferedEvents);
+    constexpr auto parentsAndStates = collect_state_parentstate_pairs_recursively(rootState);
+    return bh::filter(parentsAndStates, stateHasDeferedEvents);
 };
 
 constexpr auto hasDeferedEvents = [](auto rootState) {
-    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingTransitions(rootState)));
+    return bh::not_equal(bh::size_c<0>, bh::size(getDeferingStates(rootState)));
 };
 
 template <class RootState, class DispatchTables, class OptionalDependency>
 constexpr auto fill_dispatch_table_with_deferred_events(
     RootState rootState, DispatchTables& dispatchTables, OptionalDependency /*optionalDependency*/)
 {
-    const auto transitions = getDeferingTransitions(rootState);
-    bh::for_each(transitions, [=, &dispatchTables](auto transition) {
-        const auto deferredEvents = get_defer_events(resolveExtentedInitialState(transition));
+    const auto parentsAndStates = getDeferingStates(rootState);
+    bh::for_each(parentsAndStates, [=, &dispatchTables](auto parentAndState) {
+        const auto deferredEvents = get_defer_events(bh::second(parentAndState));
         bh::for_each(deferredEvents, [=, &dispatchTables](auto event) {
-            const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
-            auto& dispatchTable = dispatchTables[event];
-            const auto from = getCombinedStateIdx(
-                combinedStateTypeids, resolveSrcParent(transition), resolveSrc(transition));
-
-            dispatchTable[from].push_front({});
-            dispatchTable[from].front().defer = true;
+            constexpr auto isProcessedEvent = decltype(bh::contains(
+                collect_event_typeids_recursive(rootState), event))::value;
+
+            if constexpr (isProcessedEvent) {
+                const auto combinedStateTypeids = getCombinedStateTypeids(rootState);
+                auto& dispatchTable = dispatchTables[event];
+                const auto from = getCombinedStateIdx(
+                    combinedStateTypeids,
+                    bh::first(parentAndState),
+                    bh::second(parentAndState));
+
+                dispatchTable[from].push_front({});
+                dispatchTable[from].front().defer = true;
+            }
         });
     });
 }
@@ -2305,7 +2425,7 @@ template <class RootState, class... OptionalParameters> class sm {
     using StatesMap = decltype(make_states_map(rootState));
     using DispatchTables = decltype(make_dispatch_tables(rootState));
     using UnexpectedEventHandlerTables = decltype(make_unexpected_event_handler_tables(rootState));
-    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState;
+    std::array<StateIdx, maxInitialStates(rootState)> m_currentCombinedState {};
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_initial_states;
     std::array<std::vector<std::size_t>, nParentStates(rootState)> m_history;
     variant_queue<Events> m_defer_queue;
@@ -2329,26 +2449,26 @@ template <class RootState, class... OptionalParameters> class sm {
         static_assert(
             maxInitialStates(rootState),
             "Transition table needs to have at least one initial state");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_transition_table(rootState)),
+            "At least one initial state of the state machine has sub states/transition tables. "
+            "This is not allowed.");
+        static_assert(
+            bh::not_(at_least_one_initial_state_has_internal_transition_table(rootState)),
+            "At least one initial state of the state machine has internal transition tables. This "
+            "is not allowed.");
 
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
 
-        if constexpr (has_unexpected_event_handler(rootState)) {
-            fill_unexpected_event_handler_tables(
-                rootState,
-                m_statesMap,
-                m_unexpectedEventHandlerTables,
-                get_unexpected_event_handler(rootState),
-                optionalDependency);
-        }
-
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
         fill_initial_state_table(rootState, m_initial_states);
-        fill_initial_state_table(rootState, m_history);
+        init_history();
         init_current_state();
         update_current_regions();
     }
 
-    template <class Event> auto process_event(Event&& event)
+    template <class Event> auto process_event(Event&& event) -> bool
     {
         static_assert(
             bh::contains(
@@ -2356,12 +2476,17 @@ template <class RootState, class... OptionalParameters> class sm {
                 bh::type_c<typename std::remove_reference<Event>::type>),
             "Processed event was not found in the transition table");
 
-        if (!process_event_internal(event)) {
+        switch (process_event_internal(event)) {
+        case ProcessEventResult::AllTransitionsInvalid:
             call_unexpected_event_handler(event);
-            return;
+            [[fallthrough]];
+        case ProcessEventResult::EventDefered:
+        case ProcessEventResult::AllGuardsFailed:
+            return false;
+        case ProcessEventResult::EventProcessed:
+            process_deferred_events();
         }
-
-        process_deferred_events();
+        return true;
     }
 
     template <class State> auto is(State state) -> bool
@@ -2378,7 +2503,7 @@ template <class RootState, class... OptionalParameters> class sm {
     template <class ParentState, class State>
     auto is(Region region, ParentState parentState, State state) -> bool
     {
-        return currentParentState() == getParentStateIdx(rootState, parentState)
+        return currentParentState(region) == getParentStateIdx(rootState, parentState)
             && currentState(region) == getStateIdx(rootState, state);
     }
 
@@ -2387,14 +2512,39 @@ template <class RootState, class... OptionalParameters> class sm {
         return currentParentState() == getParentStateIdx(rootState, parentState);
     }
 
+    template <class State> auto set(State state) -> void
+    {
+        set(0, rootState, state);
+    }
+
+    template <class ParentState, class State> auto set(ParentState parentState, State state) -> void
+    {
+        set(0, parentState, state);
+    }
+
+    template <class ParentState, class State>
+    auto set(Region region, ParentState parentState, State state) -> void
+    {
+        static_assert(
+            bh::contains(collect_state_typeids_recursive(rootState), bh::typeid_(state)),
+            "State does not exist in transition table");
+        static_assert(
+            bh::contains(collect_parent_state_typeids(rootState), bh::typeid_(parentState)),
+            "Parent state does not exist in transition table");
+
+        m_currentCombinedState.at(region)
+            = getCombinedStateIdx(getCombinedStateTypeids(rootState), parentState, state);
+        update_current_regions();
+    }
+
     auto status() -> std::string
     {
         std::stringstream statusStream;
         const auto currentRegions = current_regions();
         for (Region region = 0; region < currentRegions; region++) {
-            statusStream << "[" << region << "] "
+            statusStream << "[" << static_cast<int>(region) << "] "
                          << "combined: " << m_currentCombinedState[region] << " "
-                         << "parent: " << currentParentState() << " "
+                         << "parent: " << currentParentState(region) << " "
                          << "state: " << currentState(region);
         }
         return statusStream.str();
@@ -2403,17 +2553,32 @@ template <class RootState, class... OptionalParameters> class sm {
     auto set_dependency(OptionalParameters&... optionalParameters)
     {
         auto optionalDependency = bh::make_basic_tuple(std::ref(optionalParameters)...);
+        // Entries bound to the previous dependencies must not stay behind the new ones
+        m_dispatchTables = DispatchTables {};
+        fill_unexpected_event_handler_table(optionalDependency);
         fill_dispatch_table(optionalDependency);
     }
 
   private:
-    template <class Event> auto process_event_internal(Event&& event) -> bool
+    enum class ProcessEventResult {
+        AllTransitionsInvalid,
+        AllGuardsFailed,
+        EventProcessed,
+        EventDefered
+    };
+
+    template <class Event> auto process_event_internal(Event&& event) -> ProcessEventResult
     {
         bool allGuardsFailed = true;
         bool allTransitionsInvalid = true;
 
+        if (defer_event(event)) {
+            return ProcessEventResult::EventDefered;
+        }
+
+        auto leftRegions = false;
         const auto currentRegions = current_regions();
-        for (Region region = 0; region < currentRegions; region++) {
+        for (Region region = 0; region < currentRegions && !leftRegions; region++) {
 
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
             auto& results = get_dispatch_table_entry(event, region);
@@ -2424,11 +2589,6 @@ template <class RootState, class... OptionalParameters> class sm {
 
             for (auto& result : results) {
 
-                if (result.defer) {
-                    m_defer_queue.push(event);
-                    return true;
-                }
-
                 if (!result.transition->executeGuard(event)) {
                     allTransitionsInvalid = false;
                     continue;
@@ -2436,7 +2596,8 @@ template <class RootState, class... OptionalParameters> class sm {
 
                 allTransitionsInvalid = false;
                 allGuardsFailed = false;
-                update_current_state(region, result);
+                leftRegions = leaves_regions(region, result);
+                update_current_state(leftRegions ? 0 : region, result);
 
                 result.transition->executeAction(event);
                 break;
@@ -2444,36 +2605,61 @@ template <class RootState, class... OptionalParameters> class sm {
         }
 
         if (allTransitionsInvalid) {
-            return false;
+            return ProcessEventResult::AllTransitionsInvalid;
         }
 
         if (allGuardsFailed) {
-            return true;
+            return ProcessEventResult::AllGuardsFailed;
         }
 
-        process_anonymous_transitions();
-        return true;
+        process_anonymous_transitions(noneEvent {});
+        return ProcessEventResult::EventProcessed;
+    }
+
+    template <class Event> auto defer_event(Event& event) -> bool
+    {
+        if constexpr (hasDeferedEvents(rootState)) {
+            // Decided before any region acts on the event, it would be processed twice otherwise
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                for (auto& result : get_dispatch_table_entry(event, region)) {
+                    if (result.defer) {
+                        m_defer_queue.push(event);
+                        return true;
+                    }
+                }
+            }
+        }
+        return false;
     }
 
     auto process_deferred_events()
     {
         if constexpr (hasDeferedEvents(rootState)) {
-            if (!m_defer_queue.empty()) {
-                m_defer_queue.visit([this](auto event) { this->process_event_internal(event); });
+            // Offer each pending event once, in order of arrival, and start over as long as one of
+            // them was processed, since this might have left the defering state of another one.
+            auto retry = true;
+            while (retry) {
+                retry = false;
+                for (auto pending = m_defer_queue.size(); pending > 0; pending--) {
+                    m_defer_queue.visit([this, &retry](auto event) {
+                        retry |= this->process_event_internal(event)
+                            == ProcessEventResult::EventProcessed;
+                    });
+                }
             }
         }
     }
 
-    auto process_anonymous_transitions()
+    template <class Event> auto process_anonymous_transitions(Event&& event)
     {
         if constexpr (has_anonymous_transition(rootState)) {
             while (true) {
                 auto allGuardsFailed = true;
 
+                auto leftRegions = false;
                 const auto currentRegions = current_regions();
-                for (Region region = 0; region < currentRegions; region++) {
-
-                    auto event = noneEvent {};
+                for (Region region = 0; region < currentRegions && !leftRegions; region++) {
                     // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
                     auto& results = get_dispatch_table_entry(event, region);
 
@@ -2486,7 +2672,8 @@ template <class RootState, class... OptionalParameters> class sm {
                             continue;
                         }
 
-                        update_current_state(region, result);
+                        leftRegions = leaves_regions(region, result);
+                        update_current_state(leftRegions ? 0 : region, result);
                         result.transition->executeAction(event);
                         allGuardsFailed = false;
                         break;
@@ -2506,6 +2693,16 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[event][index];
     }
 
+    /**
+     * A transition out of a parent state with parallel regions leaves all of its regions,
+     * independent of the region it starts from
+     */
+    template <class DispatchTableEntry>
+    auto leaves_regions(Region region, const DispatchTableEntry& dispatchTableEntry) -> bool
+    {
+        return dispatchTableEntry.leave && m_initial_states[currentParentState(region)].size() > 1;
+    }
+
     template <class DispatchTableEntry>
     void update_current_state(Region region, const DispatchTableEntry& dispatchTableEntry)
     {
@@ -2513,29 +2710,39 @@ template <class RootState, class... OptionalParameters> class sm {
             return;
         }
 
-        if constexpr (has_history(rootState)) {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_history[currentParentState()][region] = m_currentCombinedState[region];
+        save_history();
 
-            if (dispatchTableEntry.history) {
-                auto parent
-                    = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                auto combined = m_history[parent][region];
-                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = combined;
-            } else {
+        const auto parent
+            = calcParentStateIdx(nStates(rootState), dispatchTableEntry.combinedState);
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        const auto& entered
+            = dispatchTableEntry.history ? m_history[parent] : m_initial_states[parent];
+
+        // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+        m_currentCombinedState[region]
+            = dispatchTableEntry.history ? entered[region] : dispatchTableEntry.combinedState;
+
+        if (dispatchTableEntry.enter && region == 0) {
+            for (Region other = 1; other < m_initial_states[parent].size(); other++) {
                 // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-                m_currentCombinedState[region] = dispatchTableEntry.combinedState;
+                m_currentCombinedState[other] = entered[other];
             }
-        } else {
-            // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
-            m_currentCombinedState[region] = dispatchTableEntry.combinedState;
         }
 
         update_current_regions();
     }
 
+    void save_history()
+    {
+        if constexpr (has_history(rootState)) {
+            const auto currentRegions = current_regions();
+            for (Region region = 0; region < currentRegions; region++) {
+                // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-constant-array-index)
+                m_history[currentParentState(region)][region] = m_currentCombinedState[region];
+            }
+        }
+    }
+
     void update_current_regions()
     {
         if constexpr (hasParallelRegions(rootState)) {
@@ -2568,9 +2775,20 @@ template <class RootState, class... OptionalParameters> class sm {
         return calcStateIdx(nStates(rootState), m_currentCombinedState.at(region));
     }
 
-    auto currentParentState()
+    auto currentParentState(Region region = 0)
     {
-        return calcParentStateIdx(nStates(rootState), m_currentCombinedState[0]);
+        return calcParentStateIdx(nStates(rootState), m_currentCombinedState.at(region));
+    }
+
+    void init_history()
+    {
+        fill_initial_state_table(rootState, m_history);
+
+        // Each region can enter each parent state
+        for (auto& history : m_history) {
+            history.resize(
+                maxInitialStates(rootState), history.empty() ? StateIdx {} : history.front());
+        }
     }
 
     void init_current_state()
@@ -2590,6 +2808,19 @@ template <class RootState, class... OptionalParameters> class sm {
         return m_dispatchTables[bh::typeid_(event)][m_currentCombinedState[region]];
     }
 
+    template <class OptionalDependency>
+    void fill_unexpected_event_handler_table(OptionalDependency& optionalDependency)
+    {
+        if constexpr (has_unexpected_event_handler(rootState)) {
+            fill_unexpected_event_handler_tables(
+                rootState,
+                m_statesMap,
+                m_unexpectedEventHandlerTables,
+                get_unexpected_event_handler(rootState),
+                optionalDependency);
+        }
+    }
+
     template <class OptionalDependency>
     void fill_dispatch_table(OptionalDependency& optionalDependency)
     {
@@ -2930,4 +3161,4 @@ template <class Source, class Guard> class TransitionSG {
 namespace hsm {
 constexpr auto transition = details::transition;
 constexpr auto internal_transition = details::internal_transition;
-}
\ No newline at end of file
+}
-- 
2.43.0


From 8a86cde04cd694aff4249fe8ccc7d8954244c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:05 +0000
Subject: [PATCH 11/15] fix: run the exit action of a state whose row is marked
 initial

on_exit() was looked up on the initial pseudo state instead of the state
itself, so leaving through the row that marks the initial state skipped it.
---
 include/hsm/details/has_action.h    |  2 +-
 include/hsm/details/resolve_state.h |  4 ++--
 include/hsm/details/traits.h        |  8 ++++++++
 include/hsm/gen/hsm.h               | 14 +++++++++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/hsm/details/has_action.h b/include/hsm/details/has_action.h
index eeede7c..aaba9f5 100644
--- a/include/hsm/details/has_action.h
+++ b/include/hsm/details/has_action.h
@@ -33,7 +33,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(unwrap_initial_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
\ No newline at end of file
diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index e46de11..9caccee 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -115,8 +115,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(unwrap_initial_state(transition.source()))) {
+        return get_exit_action(unwrap_initial_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
diff --git a/include/hsm/details/traits.h b/include/hsm/details/traits.h
index c80a728..f043848 100644
--- a/include/hsm/details/traits.h
+++ b/include/hsm/details/traits.h
@@ -122,6 +122,14 @@ constexpr auto is_initial_state = [](auto typeid_) {
         bh::true_c);
 };
 
+constexpr auto unwrap_initial_state = [](auto state) {
+    if constexpr (is_initial_state(state)) {
+        return get_state(state);
+    } else {
+        return state;
+    }
+};
+
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 55248f3..d9c7287 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -350,6 +350,14 @@ constexpr auto is_initial_state = [](auto typeid_) {
         bh::true_c);
 };
 
+constexpr auto unwrap_initial_state = [](auto state) {
+    if constexpr (is_initial_state(state)) {
+        return get_state(state);
+    } else {
+        return state;
+    }
+};
+
 constexpr auto is_no_action
     = [](auto action) { return bh::equal(bh::typeid_(action), bh::typeid_(noAction {})); };
 
@@ -991,7 +999,7 @@ constexpr auto has_action = [](auto transition) {
         bh::not_(is_no_action(transition.action())),
         has_entry_action(transition.target()),
         has_substate_initial_state_entry_action(transition.target()),
-        has_exit_action(transition.source()),
+        has_exit_action(unwrap_initial_state(transition.source())),
         has_pseudo_exit_action(transition));
 };
 }
@@ -1108,8 +1116,8 @@ template <class Transition> constexpr auto resolveExitAction(Transition transiti
 
     if constexpr (transition.internal()) {
         return [](auto&&...) {};
-    } else if constexpr (has_exit_action(transition.source())) {
-        return get_exit_action(transition.source());
+    } else if constexpr (has_exit_action(unwrap_initial_state(transition.source()))) {
+        return get_exit_action(unwrap_initial_state(transition.source()));
     } else if constexpr (hasPseudoExitAction) {
         return get_exit_action(resolveSrcParent(transition));
     } else {
-- 
2.43.0


From 614e345002df45c6400f845969fb858a0c94280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:20 +0000
Subject: [PATCH 12/15] fix: an initial state marked in several spellings is
 one region

---
 include/hsm/details/collect_initial_states.h | 4 +++-
 include/hsm/gen/hsm.h                        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/collect_initial_states.h b/include/hsm/details/collect_initial_states.h
index a3bf800..5c28fc0 100644
--- a/include/hsm/details/collect_initial_states.h
+++ b/include/hsm/details/collect_initial_states.h
@@ -26,7 +26,9 @@ template <class State> constexpr auto collect_initial_states(State parentState)
 {
     constexpr auto childStates = collect_child_states(parentState);
     constexpr auto initialStates = bh::filter(childStates, is_initial_state);
-    return bh::transform(initialStates, [](auto initialState) { return get_state(initialState); });
+    // An initial state can be spelled as state_t<Initial<..>> and as initial_t<..>
+    return remove_duplicates(
+        bh::transform(initialStates, [](auto initialState) { return get_state(initialState); }));
 }
 
 /**
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index d9c7287..5fcf8b9 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -851,7 +851,9 @@ template <class State> constexpr auto collect_initial_states(State parentState)
 {
     constexpr auto childStates = collect_child_states(parentState);
     constexpr auto initialStates = bh::filter(childStates, is_initial_state);
-    return bh::transform(initialStates, [](auto initialState) { return get_state(initialState); });
+    // An initial state can be spelled as state_t<Initial<..>> and as initial_t<..>
+    return remove_duplicates(
+        bh::transform(initialStates, [](auto initialState) { return get_state(initialState); }));
 }
 
 /**
-- 
2.43.0


From 508e170a7f9d0fa740dd6786409882249204b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:10 +0000
Subject: [PATCH 13/15] fix: apply the internal table of a composite state that
 only pseudo states target

---
 .../flatten_internal_transition_table.h       | 22 ++++++++++++++++++-
 include/hsm/gen/hsm.h                         | 22 ++++++++++++++++++-
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/flatten_internal_transition_table.h b/include/hsm/details/flatten_internal_transition_table.h
index 89e7b09..4614c0c 100644
--- a/include/hsm/details/flatten_internal_transition_table.h
+++ b/include/hsm/details/flatten_internal_transition_table.h
@@ -131,6 +131,26 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Returns a tuple of all states together with their parent states, including the states which are
+ * only targeted by pseudo states
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_states_with_internal_transitions(State rootState)
+{
+    constexpr auto extractParentAndResolvedState = [](auto transition) {
+        return bh::make_basic_tuple(
+            bh::make_pair(transition.parent(), resolveInitialState(transition)),
+            bh::make_pair(transition.parent(), resolveSubStateParent(transition)));
+    };
+
+    return remove_duplicates(bh::prepend(
+        bh::flatten(
+            bh::transform(flatten_transition_table(rootState), extractParentAndResolvedState)),
+        bh::make_pair(rootState, rootState)));
+}
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -141,7 +161,7 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(collect_states_with_internal_transitions(rootState));
 }
 
 } // namespace hsm
\ No newline at end of file
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 5fcf8b9..60d0872 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1482,6 +1482,26 @@ constexpr auto get_internal_transitions = [](auto stateAndParentStatePairs) {
         isNotEmpty));
 };
 
+/**
+ * Returns a tuple of all states together with their parent states, including the states which are
+ * only targeted by pseudo states
+ *
+ * @param rootState
+ */
+template <class State> constexpr auto collect_states_with_internal_transitions(State rootState)
+{
+    constexpr auto extractParentAndResolvedState = [](auto transition) {
+        return bh::make_basic_tuple(
+            bh::make_pair(transition.parent(), resolveInitialState(transition)),
+            bh::make_pair(transition.parent(), resolveSubStateParent(transition)));
+    };
+
+    return remove_duplicates(bh::prepend(
+        bh::flatten(
+            bh::transform(flatten_transition_table(rootState), extractParentAndResolvedState)),
+        bh::make_pair(rootState, rootState)));
+}
+
 /**
  * Returns a tuple of extended internal transitions reachable from a given rootState
  *
@@ -1492,7 +1512,7 @@ template <class State> constexpr auto flatten_internal_transition_table(State ro
     return [](auto stateAndParentStatePairs) {
         return remove_duplicate_types(bh::to<bh::basic_tuple_tag>(
             bh::flatten(get_internal_transitions(stateAndParentStatePairs))));
-    }(collect_state_parentstate_pairs_recursively(rootState));
+    }(collect_states_with_internal_transitions(rootState));
 }
 
 } // namespace hsm
-- 
2.43.0


From 602b37934cd2373cf4200f1ba9a612a2e5af1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:46 +0000
Subject: [PATCH 14/15] fix: do not hand a destroyed source to the entry action
 of a recreated state

---
 include/hsm/details/resolve_state.h | 29 ++++++++++++++++++++++++++++-
 include/hsm/gen/hsm.h               | 29 ++++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/resolve_state.h b/include/hsm/details/resolve_state.h
index 9caccee..801ffd6 100644
--- a/include/hsm/details/resolve_state.h
+++ b/include/hsm/details/resolve_state.h
@@ -135,15 +135,42 @@ template <class Transition> constexpr auto resolveNoAction(Transition transition
     }
 }
 
+/**
+ * Calls the entry action of a state that a create_state action might just have replaced. The
+ * source of a self transition would be the destroyed state otherwise.
+ */
+constexpr auto callEntryActionOfRecreatedState
+    = [](auto& entryAction, auto&& event, auto&& /*source*/, auto&& target, auto&&... dependencies) {
+          entryAction(event, **target, target, dependencies...);
+      };
+
+template <class Transition> constexpr auto recreatesSource(Transition transition)
+{
+    if constexpr (transition.internal()) {
+        return bh::false_c;
+    } else {
+        return bh::and_(
+            bh::equal(bh::typeid_(resolveSrc(transition)), bh::typeid_(transition.target())),
+            bh::not_(is_default_constructable(
+                bh::type_c<typename decltype(resolveSrc(transition))::type>)));
+    }
+}
+
 template <class Transition> constexpr auto resolveEntryExitAction(Transition transition)
 {
+    using sourceRecreated = decltype(recreatesSource(transition));
     return [exitAction(resolveExitAction(transition)),
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
         exitAction(std::forward<decltype(params)>(params)...);
         action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
+        if constexpr (sourceRecreated::value) {
+            callEntryActionOfRecreatedState(
+                entryAction, std::forward<decltype(params)>(params)...);
+        } else {
+            entryAction(std::forward<decltype(params)>(params)...);
+        }
         initialStateEntryAction(std::forward<decltype(params)>(params)...);
     };
 }
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 60d0872..0a7f984 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -1138,15 +1138,42 @@ template <class Transition> constexpr auto resolveNoAction(Transition transition
     }
 }
 
+/**
+ * Calls the entry action of a state that a create_state action might just have replaced. The
+ * source of a self transition would be the destroyed state otherwise.
+ */
+constexpr auto callEntryActionOfRecreatedState
+    = [](auto& entryAction, auto&& event, auto&& /*source*/, auto&& target, auto&&... dependencies) {
+          entryAction(event, **target, target, dependencies...);
+      };
+
+template <class Transition> constexpr auto recreatesSource(Transition transition)
+{
+    if constexpr (transition.internal()) {
+        return bh::false_c;
+    } else {
+        return bh::and_(
+            bh::equal(bh::typeid_(resolveSrc(transition)), bh::typeid_(transition.target())),
+            bh::not_(is_default_constructable(
+                bh::type_c<typename decltype(resolveSrc(transition))::type>)));
+    }
+}
+
 template <class Transition> constexpr auto resolveEntryExitAction(Transition transition)
 {
+    using sourceRecreated = decltype(recreatesSource(transition));
     return [exitAction(resolveExitAction(transition)),
             action(resolveNoAction(transition)),
             entryAction(resolveEntryAction(transition)),
             initialStateEntryAction(resolveInitialStateEntryAction(transition))](auto&&... params) {
         exitAction(std::forward<decltype(params)>(params)...);
         action(std::forward<decltype(params)>(params)...);
-        entryAction(std::forward<decltype(params)>(params)...);
+        if constexpr (sourceRecreated::value) {
+            callEntryActionOfRecreatedState(
+                entryAction, std::forward<decltype(params)>(params)...);
+        } else {
+            entryAction(std::forward<decltype(params)>(params)...);
+        }
         initialStateEntryAction(std::forward<decltype(params)>(params)...);
     };
 }
-- 
2.43.0


From 6815d8f366be1dd11511c17250aec3a0e25a569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:37 +0000
Subject: [PATCH 15/15] fix: chain_actions must not call the comma operator of
 what its actions return

---
 include/hsm/details/chain_actions.h | 3 ++-
 include/hsm/gen/hsm.h               | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hsm/details/chain_actions.h b/include/hsm/details/chain_actions.h
index 85592c4..d691d40 100644
--- a/include/hsm/details/chain_actions.h
+++ b/include/hsm/details/chain_actions.h
@@ -11,7 +11,8 @@ namespace hsm {
  */
 constexpr auto chain_actions = [](auto... actions) {
     return [=](auto&&... args) {
-        return std::apply([&](auto... f) { (f(args...), ...); }, std::tie(actions...));
+        return std::apply(
+            [&](auto... f) { (static_cast<void>(f(args...)), ...); }, std::tie(actions...));
     };
 };
 
diff --git a/include/hsm/gen/hsm.h b/include/hsm/gen/hsm.h
index 0a7f984..555cd53 100644
--- a/include/hsm/gen/hsm.h
+++ b/include/hsm/gen/hsm.h
@@ -11,7 +11,8 @@ namespace hsm {
  */
 constexpr auto chain_actions = [](auto... actions) {
     return [=](auto&&... args) {
-        return std::apply([&](auto... f) { (f(args...), ...); }, std::tie(actions...));
+        return std::apply(
+            [&](auto... f) { (static_cast<void>(f(args...)), ...); }, std::tie(actions...));
     };
 };
 
-- 
2.43.0

