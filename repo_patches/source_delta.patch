From 90f10f7f1cbfff3e8a85c12ece152bdd53f484ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 01/41] fix: make the KMP-type skip values sound for late
 beginning and early acceptance

The construction of A_{+n} dropped the lower bounds instead of the upper
bounds of the guards and forgot that the clocks count from the beginning of
the trimming, which is between two events. As a result, too large skip values
were used and matches were missed. The accepting transitions were also added
to the vector being iterated.
---
 libmonaa/kmp_skip_value.hh | 39 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/libmonaa/kmp_skip_value.hh b/libmonaa/kmp_skip_value.hh
index 32f3a3b..e4ba983 100644
--- a/libmonaa/kmp_skip_value.hh
+++ b/libmonaa/kmp_skip_value.hh
@@ -36,18 +36,6 @@ public:
     std::vector<std::shared_ptr<TAState>> extendedInitialStates(m + 1);
     std::generate(extendedInitialStates.begin(), extendedInitialStates.end(), std::make_shared<TAState>);
 
-    for (const auto& initialState : A0.initialStates) {
-      for (auto it = initialState->next.begin(); it != initialState->next.end();
-           it++) {
-        for (TATransition edge : it->second) {
-          // We can modify edge because it is copied
-          const Alphabet c = it->first;
-          widen(edge.guard);
-          extendedInitialStates[0]->next[c].push_back(std::move(edge));
-        }
-      }
-    }
-
     std::vector<ClockVariables> allClocks(TA.clockSize());
     std::iota(allClocks.begin(), allClocks.end(), 0);
     for (int i = 1; i <= m; ++i) {
@@ -64,17 +52,40 @@ public:
     }
     for (auto &state : A0.states) {
       for (auto & it : state->next) {
+        std::vector<TATransition> acceptingTransitions;
         for (TATransition edge : it.second) {
           const auto target = edge.target;
           // We can modify edge because it is copied
           if (target && target->isMatch) {
             edge.target = dummyAcceptingState.get();
-            widen(edge.guard);
-            it.second.emplace_back(std::move(edge));
+            // The accepting transition can be taken before the event. Thus, we
+            // have only lower bounds of the clock values at the event.
+            edge.guard.erase(std::remove_if(edge.guard.begin(), edge.guard.end(),
+                                            [](const Constraint &g) {
+                                              return g.odr == Constraint::Order::lt ||
+                                                     g.odr == Constraint::Order::le;
+                                            }),
+                             edge.guard.end());
+            acceptingTransitions.push_back(std::move(edge));
           }
         }
+        it.second.insert(it.second.end(), acceptingTransitions.begin(),
+                         acceptingTransitions.end());
       }
     }
+    // The trimming begins in [n-th event, (n+1)-th event). If it begins exactly
+    // at the n-th event, the clocks are already reset by the dummy transition.
+    // Otherwise, we have to reset them between these events.
+    for (const auto& initialState : A0.initialStates) {
+      for (const auto &it : initialState->next) {
+        auto &edges = extendedInitialStates[0]->next[it.first];
+        edges.insert(edges.end(), it.second.begin(), it.second.end());
+      }
+    }
+    for (const auto& initialState : A0.initialStates) {
+      extendedInitialStates[0]->next[0].push_back(
+          {initialState.get(), allClocks, {}});
+    }
     A0.states.reserve(A0.states.size() + 1 + (m + 1));
     A0.states.push_back(dummyAcceptingState);
     A0.states.insert(A0.states.end(), extendedInitialStates.begin(),
-- 
2.43.0


From ce2cf614d871ea270fa36b4d37ffab1a696ed06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 02/41] fix: relax large lower bounds in Zone::abstractize

Without it, the zone construction does not terminate for the patterns where a
clock can grow unboundedly, e.g., (((A%(1,20))+)%(3,30))$.
---
 libmonaa/zone.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index e7d80e9..6290d49 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -152,13 +152,19 @@ struct Zone {
   /*
     @brief truncate the constraints compared with a constant greater than or
     equal to M
+
+    @note The lower bounds larger than M are relaxed to "> M". Otherwise, the
+    number of the zones can be infinite.
    */
   void abstractize() {
     static constexpr Bounds infinity =
         Bounds(std::numeric_limits<double>::infinity(), false);
+    const Bounds negM = Bounds(-M.first, false);
     for (auto it = value.data(); it < value.data() + value.size(); it++) {
       if (*it >= M) {
         *it = Bounds(infinity);
+      } else if (*it < negM) {
+        *it = negM;
       }
     }
   }
-- 
2.43.0


From f65ab5b48fd427b7cbbb6ac348785563edccf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 03/41] fix: keep live states in
 ZoneAutomaton::removeDeadStates

States in a loop could be removed though an accepting state is reachable from
them. The Sunday-type skip value was then too large and matches were missed.
---
 libmonaa/zone_automaton.hh | 62 ++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/libmonaa/zone_automaton.hh b/libmonaa/zone_automaton.hh
index 8bf92fe..ea2767e 100644
--- a/libmonaa/zone_automaton.hh
+++ b/libmonaa/zone_automaton.hh
@@ -57,40 +57,50 @@ struct ZoneAutomaton : public Automaton<ZAState> {
 
   //! @brief remove states unreachable to any accepting states
   void removeDeadStates() {
-    // Find states unreachable to any accepting states
-    using Config = std::pair<std::shared_ptr<ZAState>,
-                             std::unordered_set<std::shared_ptr<ZAState>>>;
-    std::stack<Config> States;
-    for (auto state : initialStates) {
-      States.push(Config(state, {}));
-    }
-    std::unordered_set<std::shared_ptr<ZAState>> reachable;
-    while (!States.empty()) {
-      Config conf = States.top();
-      States.pop();
-      if (conf.first->isMatch) {
-        reachable.insert(conf.first);
-        reachable.insert(conf.second.begin(), conf.second.end());
+    // Find the states reachable from the initial states
+    std::unordered_set<std::shared_ptr<ZAState>> visited;
+    std::unordered_map<std::shared_ptr<ZAState>,
+                       std::vector<std::shared_ptr<ZAState>>>
+        predecessors;
+    std::stack<std::shared_ptr<ZAState>> waiting;
+    for (const auto &state : initialStates) {
+      if (visited.insert(state).second) {
+        waiting.push(state);
       }
-      for (const auto &edges : conf.first->next) {
+    }
+    while (!waiting.empty()) {
+      const auto source = waiting.top();
+      waiting.pop();
+      for (const auto &edges : source->next) {
         for (const auto &edge : edges) {
-          if (conf.second.find(conf.first) != conf.second.end()) {
-            // We are in a loop
+          const auto target = edge.lock();
+          if (!target) {
             continue;
           }
-          if (reachable.find(edge.lock()) != reachable.end()) {
-            // The next state is reachable
-            reachable.insert(conf.first);
-            reachable.insert(conf.second.begin(), conf.second.end());
-          } else {
-            // The next state may be unreachable
-            auto parents = conf.second;
-            parents.insert(conf.first);
-            States.push(Config(edge.lock(), parents));
+          predecessors[target].push_back(source);
+          if (visited.insert(target).second) {
+            waiting.push(target);
           }
         }
       }
     }
+    // Find the states reachable to an accepting state
+    std::unordered_set<std::shared_ptr<ZAState>> reachable;
+    for (const auto &state : visited) {
+      if (state->isMatch) {
+        reachable.insert(state);
+        waiting.push(state);
+      }
+    }
+    while (!waiting.empty()) {
+      const auto target = waiting.top();
+      waiting.pop();
+      for (const auto &source : predecessors[target]) {
+        if (reachable.insert(source).second) {
+          waiting.push(source);
+        }
+      }
+    }
 
     // Remove unreachable states
     for (auto it = states.begin(); it != states.end();) {
-- 
2.43.0


From 49750fd2c30cc255b97d33546a3aab6fb81b91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:51 +0000
Subject: [PATCH 04/41] fix: do not assume that the initial states are sorted

The skip values were computed only from some of the initial states because of
a binary search on an unsorted vector.
---
 libmonaa/monaa.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index beb1c73..514cce0 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -709,7 +709,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv.at(s.get()));
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv.at(s.get()));
     }
   }
@@ -1177,7 +1178,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
   for (std::shared_ptr<TAState> s : A.states) {
     ptrConv[s.get()] = std::make_shared<TAState>(*s);
     Ap.states.push_back(ptrConv[s.get()]);
-    if (std::binary_search(A.initialStates.begin(), A.initialStates.end(), s)) {
+    if (std::find(A.initialStates.begin(), A.initialStates.end(), s) !=
+        A.initialStates.end()) {
       Ap.initialStates.push_back(ptrConv[s.get()]);
     }
   }
-- 
2.43.0


From 5d8766f98e11ccd5c8f85d5fe7214d467a49fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 05/41] fix: correct the lower bound of the end of a match in
 monaaNotNecessaryDollar

The cell (0,2) of a DBM is the negated lower bound.
---
 libmonaa/monaa.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 514cce0..cfce576 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -1496,7 +1496,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
               //            std::move(lowerBeginConstraint));
 
               const Bounds upperEndConstraint = {t, true};
-              const Bounds lowerEndConstraint = {t, true};
+              const Bounds lowerEndConstraint = {-t, true};
 
               // value(2, 1) <= value(2, 0) + value(0, 1)
               const Bounds upperDeltaConstraint =
-- 
2.43.0


From 32f1d674fc75922e5f4cbc7e6882ebeec5d9163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 06/41] fix: translate expressions matching the empty word
 correctly

The state of the empty word was merged with the other accepting states while
its zero-duration flag was still used. As a result, e.g., ((A*)&A)$ aborted,
(a*b*)%(1,20) accepted the empty word, and (a*)%[0,5] rejected it.
---
 monaa/tre.cc | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index 5614a20..b180a44 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -56,7 +56,6 @@ void concat2(TimedAutomaton &left, const TimedAutomaton &right) {
             transition.target = initState.get();
             transition.resetVars = rightClocks;
             newTransitions.emplace_back(std::move(transition));
-            transition.target->zeroDuration = false;
           }
         }
       }
@@ -217,7 +216,6 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     out.states[0] = std::make_shared<TAState>();
     out.initialStates = {out.states[0]};
     out.states[0]->isMatch = true;
-    out.states[0]->zeroDuration = true;
     out.maxConstraints.clear();
     break;
   }
@@ -228,11 +226,12 @@ void TRE::toEventTA(TimedAutomaton &out) const {
         std::vector<TATransition> newTransitions;
         for (TATransition edge : edges.second) {
           TAState *target = edge.target;
-          if (target && target->isMatch && !target->zeroDuration) {
+          if (target && target->isMatch) {
             newTransitions.reserve(newTransitions.size() +
                                    out.initialStates.size());
             for (auto initState : out.initialStates) {
-              if (initState->zeroDuration) {
+              // The empty word is already accepted
+              if (initState->isMatch) {
                 continue;
               }
               TATransition transition = edge;
@@ -297,15 +296,13 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     bool isDummyUsed = false;
     std::shared_ptr<TAState> dummyAcceptingState =
         std::make_shared<TAState>(true);
-    // Make all the zero duration states non-initial
-    // Note: this would not work well if we allow constraints >= 0
-    out.initialStates.erase(std::remove_if(
-                              out.initialStates.begin(), out.initialStates.end(),
-                              [](auto &state) {return state->zeroDuration;}),
-                            out.initialStates.end());
-    // Make all the state non-zero duration
-    for (auto state : out.states) {
-      state->zeroDuration = false;
+    // Make the accepting states non-initial if the duration of the empty word,
+    // i.e., zero, is not in the interval
+    if (!regExprWithin.second->contain(0)) {
+      out.initialStates.erase(
+          std::remove_if(out.initialStates.begin(), out.initialStates.end(),
+                         [](auto &state) { return state->isMatch; }),
+          out.initialStates.end());
     }
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-- 
2.43.0


From 42bdc72c813bed5a4142af5b57870425f6992711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 07/41] fix: translate unbounded intervals in TREs to event
 automata

The infinite upper bound of %(>c) and %(>=c) was converted to an integer
guard, which was never satisfiable. The transitions were also added to the
vector being iterated.
---
 monaa/tre.cc | 73 +++++++++++++++++++++++-----------------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index b180a44..d443b94 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -1,3 +1,4 @@
+#include <cmath>
 #include <numeric>
 #include <ostream>
 
@@ -304,61 +305,50 @@ void TRE::toEventTA(TimedAutomaton &out) const {
                          [](auto &state) { return state->isMatch; }),
           out.initialStates.end());
     }
+    const Bounds &lowerBound = regExprWithin.second->lowerBound;
+    const Bounds &upperBound = regExprWithin.second->upperBound;
+    const auto addBounds = [&](std::vector<Constraint> &guard) {
+      guard.reserve(guard.size() + 2);
+      // upper bound
+      if (!std::isinf(upperBound.first)) {
+        if (upperBound.second) {
+          guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
+                             upperBound.first);
+        } else {
+          guard.emplace_back(TimedAutomaton::X(out.clockSize()) <
+                             upperBound.first);
+        }
+      }
+      // lower bound
+      if (lowerBound.second) {
+        guard.emplace_back(TimedAutomaton::X(out.clockSize()) >=
+                           lowerBound.first);
+      } else {
+        guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
+                           lowerBound.first);
+      }
+    };
     for (auto state : out.states) {
       for (auto &edges : state->next) {
+        std::vector<TATransition> newTransitions;
         for (auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
             // we use dummyAcceptingState if there is a transition from the
             // accepting state
             if (target->next.empty()) {
-              edge.guard.reserve(edge.guard.size() + 2);
-              // upper bound
-              if (regExprWithin.second->upperBound.second) {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <=
-                                        regExprWithin.second->upperBound.first);
-              } else {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) <
-                                        regExprWithin.second->upperBound.first);
-              }
-              // lower bound
-              if (regExprWithin.second->lowerBound.second) {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >=
-                                        regExprWithin.second->lowerBound.first);
-              } else {
-                edge.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
-                                        regExprWithin.second->lowerBound.first);
-              }
+              addBounds(edge.guard);
             } else {
               isDummyUsed = true;
               TATransition transition = edge;
               transition.target = dummyAcceptingState.get();
-
-              transition.guard.reserve(transition.guard.size() + 2);
-              // upper bound
-              if (regExprWithin.second->upperBound.second) {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) <=
-                    regExprWithin.second->upperBound.first);
-              } else {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) <
-                    regExprWithin.second->upperBound.first);
-              }
-              // lower bound
-              if (regExprWithin.second->lowerBound.second) {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) >=
-                    regExprWithin.second->lowerBound.first);
-              } else {
-                transition.guard.emplace_back(
-                    TimedAutomaton::X(out.clockSize()) >
-                    regExprWithin.second->lowerBound.first);
-              }
-              edges.second.emplace_back(std::move(transition));
+              addBounds(transition.guard);
+              newTransitions.emplace_back(std::move(transition));
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
@@ -369,7 +359,8 @@ void TRE::toEventTA(TimedAutomaton &out) const {
     if (isDummyUsed) {
       out.states.emplace_back(std::move(dummyAcceptingState));
     }
-    out.maxConstraints.emplace_back(regExprWithin.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(upperBound.first) ? lowerBound.first : upperBound.first);
     break;
   }
   }
-- 
2.43.0


From e42561734480887d763bb2a3ec72ab8e326ac9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 08/41] fix: report the matches without events

When a pattern accepts the empty word, e.g., (A*)$, the matches between two
events were lost by the skipping, and the ones after the last event were never
reported.
---
 libmonaa/monaa.hh | 75 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 22 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index cfce576..047d357 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -28,6 +28,7 @@
 #include <climits>
 #include <cmath>
 #include <iostream>
+#include <memory>
 #include <unordered_set>
 
 #include "ans_vec.hh"
@@ -728,16 +729,26 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
     }
   }
 
+  // When a match can contain no events, there can be a match between any events,
+  // before the first event, and after the last event. Thus, we do not skip.
+  const bool acceptsEmpty =
+      std::any_of(Ap.initialStates.begin(), Ap.initialStates.end(),
+                  [](std::shared_ptr<TAState> s) { return s->isMatch; });
+
   // Sunday's Skip value
   // Char -> Skip Value
-  const SundaySkipValue delta = SundaySkipValue(Ap);
-  const int m = delta.getM();
+  std::unique_ptr<const SundaySkipValue> delta;
+  int m = 1;
   std::unordered_set<Alphabet> endChars;
-  delta.getEndChars(endChars);
-
   // KMP-Type Skip value
   // A.State -> SkipValue
-  const KMPSkipValue beta(Ap, m);
+  std::unique_ptr<const KMPSkipValue> beta;
+  if (!acceptsEmpty) {
+    delta = std::make_unique<const SundaySkipValue>(Ap);
+    m = delta->getM();
+    delta->getEndChars(endChars);
+    beta = std::make_unique<const KMPSkipValue>(Ap, m);
+  }
 
   // main computation
   if (std::all_of(A.states.begin(), A.states.end(),
@@ -778,7 +789,8 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
 
     ans.clear();
     std::size_t j;
-    while (word.fetch(i + m - 1)) {
+    while (word.fetch(i + m - 1) ||
+           (acceptsEmpty && (i <= 0 || word.fetch(i - 1)))) {
       bool tooLarge = false;
       // Sunday Shift
 #if 0
@@ -815,7 +827,7 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
             break;
           }
           // increment i
-          i += delta[word[i + m].first];
+          i += (*delta)[word[i + m].first];
           word.setFront(i - 1);
           if (!word.fetch(i + m - 1)) {
             tooLarge = true;
@@ -831,11 +843,13 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
       CStates.clear();
       CStates.reserve(A.initialStates.size());
       std::vector<double> zeroResetTime(A.clockSize(), 0);
-      if (word.fetch(i)) {
+      if (word.fetch(i) || acceptsEmpty) {
         IntervalInternalState istate = {
             nullptr,
             zeroResetTime,
-            {word[i].second, false},
+            {word.fetch(i) ? word[i].second
+                           : std::numeric_limits<double>::infinity(),
+             false},
             ((i <= 0) ? zeroBounds : Bounds{-word[i - 1].second, true})};
 
         CStates.resize(A.initialStates.size(), istate);
@@ -1146,8 +1160,10 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
       }
       // KMP like skip value
       int greatestN = 1;
-      for (const IntervalInternalState &istate : LastStates) {
-        greatestN = std::max(beta[ptrConv.at(istate.s).get()], greatestN);
+      if (beta) {
+        for (const IntervalInternalState &istate : LastStates) {
+          greatestN = std::max((*beta)[ptrConv.at(istate.s).get()], greatestN);
+        }
       }
       // increment i
       i += greatestN;
@@ -1197,16 +1213,26 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
     }
   }
 
+  // When a match can contain no events, there can be a match between any events,
+  // before the first event, and after the last event. Thus, we do not skip.
+  const bool acceptsEmpty =
+      std::any_of(Ap.initialStates.begin(), Ap.initialStates.end(),
+                  [](std::shared_ptr<TAState> s) { return s->isMatch; });
+
   // Sunday's Skip value
   // Char -> Skip Value
-  const SundaySkipValue delta = SundaySkipValue(Ap);
-  const int m = delta.getM();
+  std::unique_ptr<const SundaySkipValue> delta;
+  int m = 1;
   std::unordered_set<Alphabet> endChars;
-  delta.getEndChars(endChars);
-
   // KMP-Type Skip value
   // A.State -> SkipValue
-  const KMPSkipValue beta(Ap, m);
+  std::unique_ptr<const KMPSkipValue> beta;
+  if (!acceptsEmpty) {
+    delta = std::make_unique<const SundaySkipValue>(Ap);
+    m = delta->getM();
+    delta->getEndChars(endChars);
+    beta = std::make_unique<const KMPSkipValue>(Ap, m);
+  }
 
   // main computation
   if (std::all_of(A.states.begin(), A.states.end(),
@@ -1247,7 +1273,8 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
 
     ans.clear();
     std::size_t j;
-    while (word.fetch(i + m - 1)) {
+    while (word.fetch(i + m - 1) ||
+           (acceptsEmpty && (i <= 0 || word.fetch(i - 1)))) {
       bool tooLarge = false;
       // Sunday Shift
 #if 0
@@ -1284,7 +1311,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
             break;
           }
           // increment i
-          i += delta[word[i + m].first];
+          i += (*delta)[word[i + m].first];
           word.setFront(i - 1);
           if (!word.fetch(i + m - 1)) {
             tooLarge = true;
@@ -1300,11 +1327,13 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
       CStates.clear();
       CStates.reserve(A.initialStates.size());
       std::vector<double> zeroResetTime(A.clockSize(), 0);
-      if (word.fetch(i)) {
+      if (word.fetch(i) || acceptsEmpty) {
         IntervalInternalState istate = {
             nullptr,
             zeroResetTime,
-            {word[i].second, false},
+            {word.fetch(i) ? word[i].second
+                           : std::numeric_limits<double>::infinity(),
+             false},
             ((i <= 0) ? zeroBounds : Bounds{-word[i - 1].second, true})};
 
         CStates.resize(A.initialStates.size(), istate);
@@ -1651,8 +1680,10 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
       }
       // KMP like skip value
       int greatestN = 1;
-      for (const IntervalInternalState &istate : LastStates) {
-        greatestN = std::max(beta[ptrConv[istate.s].get()], greatestN);
+      if (beta) {
+        for (const IntervalInternalState &istate : LastStates) {
+          greatestN = std::max((*beta)[ptrConv[istate.s].get()], greatestN);
+        }
       }
       // increment i
       i += greatestN;
-- 
2.43.0


From 95247ddb7731c85c5f99b79d5ff17abaf0869c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 09/41] fix: do not read out of the table of the Sunday-type
 skip values

The characters in the log can be outside of the ASCII characters.
---
 libmonaa/sunday_skip_value.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmonaa/sunday_skip_value.hh b/libmonaa/sunday_skip_value.hh
index baef837..8bdf1a1 100644
--- a/libmonaa/sunday_skip_value.hh
+++ b/libmonaa/sunday_skip_value.hh
@@ -71,7 +71,10 @@ public:
     endChars = charSet[m - 1];
   }
   unsigned int at(std::size_t n) const { return delta.at(n); }
-  unsigned int operator[](std::size_t n) const { return delta[n]; }
+  //! @note A character out of the table never occurs in the pattern
+  unsigned int operator[](std::size_t n) const {
+    return n < delta.size() ? delta[n] : m + 1;
+  }
   //! @brief Minimum length of the recognized language
   int getM() const { return m; }
   void getEndChars(std::unordered_set<char> &endCharsHolder) const {
-- 
2.43.0


From d3215c83f1bed042bc57e85a680156ab1a4ba310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 10/41] fix: report broken options and unreadable automata by
 the documented exit status

---
 monaa/main.cc   | 37 +++++++++++++++++++++++++------------
 monaa/tre2ta.cc | 20 ++++++++++++--------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index e4b8286..76185b4 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -40,20 +40,24 @@ int main(int argc, char *argv[]) {
     ("automaton,f", value<std::string>(&timedAutomatonFileName)->default_value(""), "input file of Timed Automaton")
     ("expression,e", value<std::string>(&tre)->default_value(""), "pattern Timed Regular Expression");
 
-  command_line_parser parser(argc, argv);
-  parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  try {
+    command_line_parser parser(argc, argv);
+    parser.options(visible);
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
-    if (timedAutomatonFileName.empty() && tre.empty()) {
-      tre = std::move(str);
-    } else if (timedWordFileName == "stdin") {
-      timedWordFileName = std::move(str);
+    for (auto const &str :
+         collect_unrecognized(parseResult.options, include_positional)) {
+      if (timedAutomatonFileName.empty() && tre.empty()) {
+        tre = std::move(str);
+      } else if (timedWordFileName == "stdin") {
+        timedWordFileName = std::move(str);
+      }
     }
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
   }
 
   if (vm.count("version")) {
@@ -118,8 +122,17 @@ int main(int argc, char *argv[]) {
     }
     // parse TA
     std::ifstream taStream(timedAutomatonFileName);
+    if (!taStream) {
+      perror("timed automaton file");
+      return 1;
+    }
     BoostTimedAutomaton BoostTA;
-    parseBoostTA(taStream, BoostTA);
+    try {
+      parseBoostTA(taStream, BoostTA);
+    } catch (const std::exception &e) {
+      std::cerr << errorHeader << e.what() << std::endl;
+      die("Failed to parse TA", 2);
+    }
     convBoostTA(BoostTA, TA);
   }
 
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index e5c21a3..abb9d31 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -31,16 +31,20 @@ int main(int argc, char *argv[]) {
                                    value<std::string>(&tre)->default_value(""),
                                    "Pattern timed regular expression");
 
-  command_line_parser parser(argc, argv);
-  parser.options(visible);
   variables_map vm;
-  const auto parseResult = parser.run();
-  store(parseResult, vm);
-  notify(vm);
+  try {
+    command_line_parser parser(argc, argv);
+    parser.options(visible);
+    const auto parseResult = parser.run();
+    store(parseResult, vm);
+    notify(vm);
 
-  for (auto const &str :
-       collect_unrecognized(parseResult.options, include_positional)) {
-    tre = std::move(str);
+    for (auto const &str :
+         collect_unrecognized(parseResult.options, include_positional)) {
+      tre = std::move(str);
+    }
+  } catch (const boost::program_options::error &e) {
+    die(e.what(), 1);
   }
 
   if (vm.count("version")) {
-- 
2.43.0


From 37c2eb2a5155ce3e61f8f29589f7062f1c33c614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 11/41] fix: count the clocks that are reset but never compared

The number of the clocks was computed only from the guards. A reset of a clock
not used in any guard wrote outside of the vector of the clock values.
---
 monaa/timed_automaton_parser.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 00eab35..0302c07 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -305,6 +305,10 @@ static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
             std::max<std::size_t>(TA.maxConstraints.size(), g.x + 1));
         TA.maxConstraints[g.x] = std::max(TA.maxConstraints[g.x], g.c);
       }
+      for (auto x : transition.resetVars) {
+        TA.maxConstraints.resize(
+            std::max<std::size_t>(TA.maxConstraints.size(), x + 1));
+      }
       stateConvMap[*first]
           ->next[boost::get(&BoostTATransition::c, BoostTA, *firstEdge)]
           .emplace_back(std::move(transition));
-- 
2.43.0


From cceddc871ef51c963c4c8887d0e4f4b3a18bfbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 12/41] fix: do not read uninitialized attributes and aliased
 clocks of a DOT file

A state without init or match is not initial or accepting, and a clock index
that ClockVariables cannot represent is an error instead of another clock.
---
 monaa/timed_automaton_parser.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index 0302c07..e69fc6c 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -43,7 +43,7 @@ static inline std::istream &operator>>(std::istream &is, Constraint &p) {
   int x;
   is >> x;
   p.x = x;
-  if (!is) {
+  if (!is || x != p.x) {
     is.setstate(std::ios_base::failbit);
     return is;
   }
@@ -131,7 +131,7 @@ static inline std::istream &operator>>(std::istream &is,
     int x;
     is >> x;
     resetVars.emplace_back(ClockVariables(x));
-    if (!is) {
+    if (!is || x != resetVars.back()) {
       is.setstate(std::ios_base::failbit);
       return is;
     }
@@ -239,8 +239,8 @@ static inline std::ostream &operator<<(std::ostream &os,
 }
 
 struct BoostTAState {
-  bool isInit;
-  bool isMatch;
+  bool isInit = false;
+  bool isMatch = false;
 };
 
 struct BoostTATransition {
-- 
2.43.0


From 9c606d6303a90879a960869d68f06950436b53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 13/41] fix: stop at the end of the log when a record is
 truncated or discarded

A record without a timestamp was taken with an uninitialized timestamp, and
discarding unread records did not notice the end of the log.
---
 libmonaa/lazy_deque.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index 6606572..ebe13da 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -10,7 +10,8 @@
 #include "common_types.hh"
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
-  return fscanf(file, " %c %lf\n", &p.first, &p.second);
+  // A record without a timestamp is not a part of the timed word
+  return fscanf(file, " %c %lf\n", &p.first, &p.second) == 2 ? 2 : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
@@ -62,13 +63,15 @@ public:
     }
     const std::size_t eraseSize = std::min(
         newFront - front, std::deque<std::pair<Alphabet, double>>::size());
-    const int readTimes = (newFront - front) - eraseSize;
-    front = newFront;
+    const std::size_t readTimes = (newFront - front) - eraseSize;
     this->erase(this->begin(), this->begin() + eraseSize);
-    for (int i = 0; i < readTimes; i++) {
+    for (std::size_t i = 0; i < readTimes && front + eraseSize + i < N; i++) {
       std::pair<Alphabet, double> elem;
-      getElem(file, elem);
+      if (getElem(file, elem) == EOF) {
+        N = front + eraseSize + i;
+      }
     }
+    front = newFront;
   }
   bool fetch(std::size_t n) noexcept {
     if (n < front || n >= N) {
-- 
2.43.0


From fb42c20f6b7af7ac928e89b2161faeabdbf9786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 14/41] fix: prefer the open lower bound in the intersection of
 intervals

---
 libmonaa/interval.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index b9142e2..f517d76 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -98,6 +98,10 @@ struct Interval {
 inline static Interval operator&&(const Interval &left, const Interval &right) {
   Interval ret = Interval{std::max(left.lowerBound, right.lowerBound),
                           std::min(left.upperBound, right.upperBound)};
+  if (left.lowerBound.first == right.lowerBound.first) {
+    // An open lower bound is stronger than a closed one
+    ret.lowerBound.second = left.lowerBound.second && right.lowerBound.second;
+  }
   return ret;
 }
 
-- 
2.43.0


From 4b2c77ab3808c13b50fad3c919ca190062b39573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:33 +0000
Subject: [PATCH 15/41] fix: report the lower bounds in Zone::makeGuard

---
 libmonaa/zone.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 6290d49..6cd397d 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -184,13 +184,13 @@ struct Zone {
     for (int i = 0; i < getNumOfVar(); ++i) {
       // the second element of Bound is true if the constraint is not strict,
       // i.e., LE or GE.
+      // the lower bound is stored negated: 0 - x <= -c
       Bounds lowerBound = value(0, i + 1);
-      if (lowerBound.first > 0 or
-          (lowerBound.first == 0 and lowerBound.second == false)) {
+      if (lowerBound < Bounds(0, true)) {
         if (lowerBound.second) {
-          guard.push_back(ConstraintMaker(i) >= lowerBound.first);
+          guard.push_back(ConstraintMaker(i) >= -lowerBound.first);
         } else {
-          guard.push_back(ConstraintMaker(i) > lowerBound.first);
+          guard.push_back(ConstraintMaker(i) > -lowerBound.first);
         }
       }
       Bounds upperBound = value(i + 1, 0);
-- 
2.43.0


From 79aeae5e315e72e85175beed661697e49842b9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:33 +0000
Subject: [PATCH 16/41] fix: assign the result of Zone::intersectionAssign

---
 libmonaa/zone.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/zone.hh b/libmonaa/zone.hh
index 6cd397d..8f15da6 100644
--- a/libmonaa/zone.hh
+++ b/libmonaa/zone.hh
@@ -212,6 +212,6 @@ struct Zone {
 
   void intersectionAssign(Zone z) {
     assert(value.size() == z.value.size());
-    value.cwiseMin(z.value);
+    value = value.array().min(z.value.array());
   }
 };
-- 
2.43.0


From 0e2d2f09b85c1ec33e9d1856ac800d7ff9995509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:01 +0000
Subject: [PATCH 17/41] fix: record the time of unobservable transitions for
 the clocks they reset

---
 libmonaa/monaa.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 047d357..5262965 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -595,10 +595,10 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                 continue;
               }
               IntermediateZone tmpZ = econfig.z;
-              ClockVariables newClock = 0;
-              tmpZ.alloc({word[j].second, true},
-                         ((j > 0) ? Bounds{-word[j - 1].second, false}
-                                  : Bounds{0, true}));
+              const ClockVariables newClock =
+                  tmpZ.alloc({word[j].second, true},
+                             ((j > 0) ? Bounds{-word[j - 1].second, false}
+                                      : Bounds{0, true}));
               tmpZ.tighten(edge.guard, econfig.resetTime);
               if (tmpZ.isSatisfiableCanonized()) {
                 auto tmpResetTime = econfig.resetTime;
-- 
2.43.0


From 29f2826078f0ec54222cb4ce50a7d7e71a4e2c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:01 +0000
Subject: [PATCH 18/41] fix: initialize as many reset times as the pattern has
 clocks

---
 libmonaa/monaa.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 5262965..58f9598 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -75,12 +75,9 @@ struct InternalState {
       : s(std::move(s)), resetTime(std::move(resetTime)), z(std::move(z)) {}
   InternalState(const std::size_t numOfVar, const TAState *s,
                 const Interval &interval)
-      : s(std::move(s)), z(std::move(interval)) {
-    static const std::vector<boost::variant<double, ClockVariables>>
-        zeroResetTime(numOfVar, ClockVariables(1));
-    // Every clock variables are reset at t1 ( = t)
-    resetTime = zeroResetTime;
-  }
+      : s(std::move(s)),
+        // Every clock variables are reset at t1 ( = t)
+        resetTime(numOfVar, ClockVariables(1)), z(std::move(interval)) {}
 };
 
 struct IntervalInternalState {
-- 
2.43.0


From 9b057eda109f5eead6bc4a405814ff47c3c1aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 19/41] fix: drop empty half-open intervals from the
 intersection of intervals

---
 libmonaa/interval.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index f517d76..00e2ae7 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -126,8 +126,11 @@ inline static void land(std::vector<std::shared_ptr<Interval>> &left,
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
-                              return interval->lowerBound >
-                                     interval->upperBound;
+                              const Bounds &lower = interval->lowerBound;
+                              const Bounds &upper = interval->upperBound;
+                              return lower.first > upper.first ||
+                                     (lower.first == upper.first &&
+                                      !(lower.second && upper.second));
                             }),
              left.end());
 }
-- 
2.43.0


From 2b8ce5adc2a6db9c22d1f18847a107e0fc09efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:58 +0000
Subject: [PATCH 20/41] fix: deliver a record without waiting for the one after
 it

---
 libmonaa/lazy_deque.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmonaa/lazy_deque.hh b/libmonaa/lazy_deque.hh
index ebe13da..88814bb 100644
--- a/libmonaa/lazy_deque.hh
+++ b/libmonaa/lazy_deque.hh
@@ -11,7 +11,7 @@
 
 static inline int getOne(FILE *file, std::pair<Alphabet, double> &p) {
   // A record without a timestamp is not a part of the timed word
-  return fscanf(file, " %c %lf\n", &p.first, &p.second) == 2 ? 2 : EOF;
+  return fscanf(file, " %c %lf", &p.first, &p.second) == 2 ? 2 : EOF;
 }
 
 static inline int getOneBinary(FILE *file, std::pair<Alphabet, double> &p) {
-- 
2.43.0


From aaecbec85d9e0aee0e83201aa5d88675db482095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:56 +0000
Subject: [PATCH 21/41] fix: reject integers that do not fit instead of
 misreading them

---
 monaa/tre_lexer.l | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/monaa/tre_lexer.l b/monaa/tre_lexer.l
index 9ea05b8..0a3d21c 100644
--- a/monaa/tre_lexer.l
+++ b/monaa/tre_lexer.l
@@ -1,4 +1,7 @@
 %{
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <string>
 
 /* Implementation of yyFlexScanner */ 
@@ -48,7 +51,12 @@ using token = MONAA::TREParser::token;
 }
 
 [0-9]+ {
-    yylval->build<int>( atoi(yytext) );
+    errno = 0;
+    const long value = strtol( yytext, nullptr, 10 );
+    if ( errno == ERANGE || value > std::numeric_limits<int>::max() ) {
+        throw MONAA::TREParser::syntax_error( *loc, "too large integer" );
+    }
+    yylval->build<int>( value );
     return token::INT;
 }
 
-- 
2.43.0


From 52fc9c3482dbafadf957072192522a3399b38473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 22/41] fix: reject transitions without a usable label

---
 monaa/timed_automaton_parser.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/monaa/timed_automaton_parser.hh b/monaa/timed_automaton_parser.hh
index e69fc6c..f64cd45 100644
--- a/monaa/timed_automaton_parser.hh
+++ b/monaa/timed_automaton_parser.hh
@@ -3,8 +3,10 @@
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/graphviz.hpp>
 #include <boost/optional.hpp>
+#include <climits>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 
 #include "../libmonaa/timed_automaton.hh"
 
@@ -244,7 +246,7 @@ struct BoostTAState {
 };
 
 struct BoostTATransition {
-  Alphabet c;
+  Alphabet c = 0;
   //! @note this structure is necessary because of some problem in boost graph
   ResetVars resetVars;
   std::vector<Constraint> guard;
@@ -265,6 +267,14 @@ static inline void parseBoostTA(std::istream &file,
   dp.property("guard", boost::get(&BoostTATransition::guard, BoostTA));
 
   boost::read_graphviz(file, BoostTA, dp, "id");
+
+  // The labels must be usable as an index of the transition tables
+  for (auto [first, last] = boost::edges(BoostTA); first != last; ++first) {
+    const int c = BoostTA[*first].c;
+    if (c <= 0 || c >= CHAR_MAX) {
+      throw std::runtime_error("a transition has no valid label");
+    }
+  }
 }
 
 static inline void convBoostTA(const BoostTimedAutomaton &BoostTA,
-- 
2.43.0


From f4f0167b6a140ab8777d8cb32986f6fda6808db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 23/41] fix: tre2ta reports an output file it cannot open

---
 monaa/tre2ta.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index abb9d31..8256095 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -92,6 +92,9 @@ int main(int argc, char *argv[]) {
     std::cout << TA << std::endl;
   } else {
     std::ofstream outputStream(outputFilename);
+    if (!outputStream) {
+      die("cannot open the output file", 1);
+    }
     outputStream << TA << std::endl;
   }
 
-- 
2.43.0


From 3d6549be6b8282af3584e8ac9246a72898c7d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:33 +0000
Subject: [PATCH 24/41] fix: do not keep several copies of a configuration

---
 libmonaa/monaa.hh | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 58f9598..44f951e 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -29,6 +29,8 @@
 #include <cmath>
 #include <iostream>
 #include <memory>
+#include <set>
+#include <tuple>
 #include <unordered_set>
 
 #include "ans_vec.hh"
@@ -94,6 +96,40 @@ struct IntervalInternalState {
         lowerConstraint(std::move(lowerConstraint)) {}
 };
 
+/*!
+  @brief Remove the repeated configurations, keeping the first of each.
+
+  The same configuration can be reached by several runs. Without removing the
+  copies, their number can grow exponentially in the length of the run.
+*/
+inline void
+removeDuplicates(std::vector<IntervalInternalState> &configurations) {
+  if (configurations.size() < 2) {
+    return;
+  }
+  const auto key = [](const IntervalInternalState &c) {
+    return std::tie(c.s, c.resetTime, c.upperConstraint, c.lowerConstraint);
+  };
+  const auto less = [&](std::size_t i, std::size_t j) {
+    return key(configurations[i]) < key(configurations[j]);
+  };
+  std::set<std::size_t, decltype(less)> seen(less);
+  std::vector<bool> repeated(configurations.size());
+  for (std::size_t i = 0; i < configurations.size(); i++) {
+    repeated[i] = !seen.insert(i).second;
+  }
+  std::size_t size = 0;
+  for (std::size_t i = 0; i < configurations.size(); i++) {
+    if (!repeated[i]) {
+      if (size != i) {
+        configurations[size] = std::move(configurations[i]);
+      }
+      size++;
+    }
+  }
+  configurations.erase(configurations.begin() + size, configurations.end());
+}
+
 //! @brief Check if the given constraint is non empty.
 inline bool isValidConstraint(const Bounds &upperConstraint,
                               const Bounds &lowerConstraint) {
@@ -445,6 +481,7 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                                  std::move(lowerBeginConstraint));
           }
         }
+        removeDuplicates(CStates);
         j++;
       }
       if (!word.fetch(j)) {
@@ -1035,6 +1072,7 @@ void monaaDollar(WordContainer<InputContainer> word, TimedAutomaton A,
                                  std::move(lowerBeginConstraint));
           }
         }
+        removeDuplicates(CStates);
         j++;
       }
       if (!word.fetch(j)) {
@@ -1555,6 +1593,7 @@ void monaaNotNecessaryDollar(WordContainer<InputContainer> word,
                                  std::move(lowerBeginConstraint));
           }
         }
+        removeDuplicates(CStates);
         j++;
       }
       if (!word.fetch(j)) {
-- 
2.43.0


From d3d7bd717119b63d8bf837c3832ffc6ae0e07315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:13 +0000
Subject: [PATCH 25/41] fix: reject patterns with too many clock variables

---
 libmonaa/common_types.hh | 9 +++++++++
 monaa/main.cc            | 3 +++
 monaa/tre2ta.cc          | 3 +++
 3 files changed, 15 insertions(+)

diff --git a/libmonaa/common_types.hh b/libmonaa/common_types.hh
index 1bd1825..264ef1d 100644
--- a/libmonaa/common_types.hh
+++ b/libmonaa/common_types.hh
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
 #include <memory>
 #include <vector>
@@ -7,6 +8,14 @@
 typedef char Alphabet;
 typedef uint8_t ClockVariables;
 
+/*!
+  @brief The largest number of clock variables in a pattern
+
+  @note The skip values are computed from the product of the pattern with
+  itself, and the zones have one additional variable.
+*/
+constexpr std::size_t maxClockSize = 127;
+
 /*!
   @brief An automaton
  */
diff --git a/monaa/main.cc b/monaa/main.cc
index 76185b4..9c665dc 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -135,6 +135,9 @@ int main(int argc, char *argv[]) {
     }
     convBoostTA(BoostTA, TA);
   }
+  if (TA.clockSize() > maxClockSize) {
+    die("too many clock variables", 2);
+  }
 
   FILE *file = stdin;
   if (timedWordFileName != "stdin") {
diff --git a/monaa/tre2ta.cc b/monaa/tre2ta.cc
index 8256095..2b29418 100644
--- a/monaa/tre2ta.cc
+++ b/monaa/tre2ta.cc
@@ -87,6 +87,9 @@ int main(int argc, char *argv[]) {
 
   TimedAutomaton TA;
   driver.getResult()->toEventTA(TA);
+  if (TA.clockSize() > maxClockSize) {
+    die("too many clock variables", 2);
+  }
 
   if (outputFilename == "stdout") {
     std::cout << TA << std::endl;
-- 
2.43.0


From 35310e8edba247c31b72972c80bf5d68f9805a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 26/41] fix: do not share intervals and singletons between
 signal expressions

---
 libmonaa/interval.hh      | 5 +++--
 monaa/intermediate_tre.cc | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/libmonaa/interval.hh b/libmonaa/interval.hh
index 00e2ae7..553bbb1 100644
--- a/libmonaa/interval.hh
+++ b/libmonaa/interval.hh
@@ -121,8 +121,9 @@ inline static Interval operator&&(const Interval &left, const Interval &right) {
  */
 inline static void land(std::vector<std::shared_ptr<Interval>> &left,
                         const Interval &right) {
-  for (auto interval : left) {
-    (*interval) = (*interval) && right;
+  for (auto &interval : left) {
+    // The interval can be shared by another set
+    interval = std::make_shared<Interval>((*interval) && right);
   }
   left.erase(std::remove_if(left.begin(), left.end(),
                             [](std::shared_ptr<Interval> interval) {
diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index def2a50..27fa435 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -171,7 +171,10 @@ void AtomicTRE::toNormalForm() {
                  std::next(it) != list.end() &&
                  (*std::next(it))->tag == AtomicTRE::op::singleton &&
                  (*it)->singleton->c == (*std::next(it))->singleton->c) {
-        (*it)->singleton->intervals += (*std::next(it))->singleton->intervals;
+        // (*it) can be shared by another expression
+        auto merged = std::make_shared<SingletonTRE>(*((*it)->singleton));
+        merged->intervals += (*std::next(it))->singleton->intervals;
+        *it = std::make_shared<AtomicTRE>(merged);
         list.erase(std::next(it));
       } else {
         it++;
-- 
2.43.0


From c89a7720ec5c0287dade96e2ea29416eccd3056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 27/41] fix: construct the union members of AtomicTRE before
 use

---
 monaa/intermediate_tre.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index 5b6e041..a998076 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -140,22 +140,24 @@ public:
       list.~list();
       switch (tag) {
       case op::singleton: {
-        singleton = origExpr->singleton;
+        new (&singleton) std::shared_ptr<SingletonTRE>(origExpr->singleton);
         break;
       }
       case op::epsilon: {
         break;
       }
       case op::concat: {
-        list = origExpr->list;
+        new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
       case op::plus: {
-        expr = origExpr->expr;
+        new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
       case op::within: {
-        within = origExpr->within;
+        new (&within)
+            std::pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>(
+                origExpr->within);
         break;
       }
       }
-- 
2.43.0


From 574b17a930e3aea3570937a0691f6048d92a00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 28/41] fix: take the conjunctions of all the signal
 expressions

---
 monaa/intermediate_tre.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 27fa435..310f4ea 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -364,7 +364,7 @@ void DNFTRE::toNormalForm() {
     auto it = conjunctions.begin();
     decisions.push_back(
         std::make_shared<SyntacticDecision>(*((*it)->decision)));
-    for (it++; it != conjunctions.end();) {
+    for (it++; it != conjunctions.end(); it++) {
       decisions.back()->tag =
           (decisions.back()->tag == SyntacticDecision::Decision::Constant ||
            (*it)->decision->tag == SyntacticDecision::Decision::Constant)
@@ -651,6 +651,7 @@ void DNFTRE::toSignalTA(TimedAutomaton &out) const {
       TimedAutomaton tmpTA, TA2;
       (*it)->toSignalTA(tmpTA);
       intersectionSignalTA(another, tmpTA, TA2);
+      another = std::move(TA2);
     }
     out.states.insert(out.states.end(), another.states.begin(),
                       another.states.end());
-- 
2.43.0


From 7a7dc220f08450bf62ca3b8357025c7655f047c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 29/41] fix: the restriction of the duration of signal
 expressions

---
 monaa/intermediate_tre.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 310f4ea..0011c51 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -590,7 +590,6 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
                                            initTransitionsPair.second.size());
         for (auto &edge : initTransitionsPair.second) {
           TATransition transition = edge;
-          transition.resetVars.push_back(out.clockSize());
           dummyInitialState->next[c].emplace_back(std::move(transition));
         }
       }
@@ -600,14 +599,17 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     dummyAcceptingState->isMatch = true;
     for (auto state : out.states) {
       for (auto &edges : state->next) {
-        for (auto &edge : edges.second) {
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
           auto target = edge.target;
           if (target && target->isMatch) {
             TATransition transition = edge;
             transition.target = dummyAcceptingState.get();
             transition.guard.reserve(transition.guard.size() + 2);
             // upper bound
-            if (within.second->upperBound.second) {
+            if (std::isinf(within.second->upperBound.first)) {
+              // There is no upper bound
+            } else if (within.second->upperBound.second) {
               transition.guard.emplace_back(
                   TimedAutomaton::X(out.clockSize()) <=
                   within.second->upperBound.first);
@@ -624,9 +626,11 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
               transition.guard.emplace_back(TimedAutomaton::X(out.clockSize()) >
                                             within.second->lowerBound.first);
             }
-            edges.second.emplace_back(std::move(transition));
+            newTransitions.emplace_back(std::move(transition));
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     for (auto state : out.states) {
@@ -636,7 +640,10 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.states.reserve(out.stateSize() + 2);
     out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
-    out.maxConstraints.emplace_back(within.second->upperBound.first);
+    out.maxConstraints.emplace_back(
+        std::isinf(within.second->upperBound.first)
+            ? within.second->lowerBound.first
+            : within.second->upperBound.first);
     break;
   }
   }
-- 
2.43.0


From 802a2fedc119f49baa604732ddfbb72dcaefb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 30/41] fix: loop in the automata of repeated signal
 expressions

---
 monaa/intermediate_tre.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 0011c51..478a3d7 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -551,20 +551,21 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::plus: {
     expr->toSignalTA(out);
+    std::vector<ClockVariables> allClocks(out.clockSize());
+    std::iota(allClocks.begin(), allClocks.end(), 0);
     for (auto &s : out.states) {
       for (auto &edges : s->next) {
-        for (auto &edge : edges.second) {
-          TAState *target = edge.target;
-          if (target && target->isMatch) {
-            edges.second.reserve(edges.second.size() +
-                                 out.initialStates.size());
-            for (auto initState : out.initialStates) {
-              TATransition transition = edge;
-              edge.target = target;
-              edges.second.emplace_back(std::move(transition));
+        std::vector<TATransition> newTransitions;
+        for (const auto &edge : edges.second) {
+          if (edge.target && edge.target->isMatch) {
+            for (const auto &initState : out.initialStates) {
+              newTransitions.push_back(
+                  {initState.get(), allClocks, edge.guard});
             }
           }
         }
+        edges.second.insert(edges.second.end(), newTransitions.begin(),
+                            newTransitions.end());
       }
     }
     break;
-- 
2.43.0


From 37eaa792a9f96cef63f24b2eecef16b3fbb163b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 31/41] fix: any segment of a signal has a positive length

---
 monaa/intermediate_tre.cc | 4 ++--
 monaa/intermediate_tre.hh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 478a3d7..0c1ca28 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -509,8 +509,8 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     for (const auto &interval : singleton->intervals) {
       std::vector<Constraint> guard;
       guard.reserve(2);
-      if (interval->lowerBound.first != 0 ||
-          interval->lowerBound.second != true) {
+      // The length of any segment is positive
+      if (interval->lowerBound.first != 0) {
         if (interval->lowerBound.second) {
           guard.emplace_back(TimedAutomaton::X(0) >=
                              interval->lowerBound.first);
diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index a998076..e97dc34 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -68,10 +68,10 @@ public:
 
     @param [in] c The signal value
     @param [in] intervals The length of the signals.  If this is omitted, any
-    length is accepted i.e., \f$ \mathtt{intervals} = [0,\infty)\f$.
+    positive length is accepted i.e., \f$ \mathtt{intervals} = (0,\infty)\f$.
   */
   SingletonTRE(Alphabet c, std::vector<std::shared_ptr<Interval>> intervals =
-                               {std::make_shared<Interval>()})
+                               {std::make_shared<Interval>(0)})
       : c(c), intervals(std::move(intervals)) {}
 };
 
-- 
2.43.0


From 884efd3a46cfa4e204da311201f78e29aab071ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 32/41] fix: rename the observable transitions without breaking
 the others

---
 monaa/tre.cc | 96 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 67 insertions(+), 29 deletions(-)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index d443b94..f318815 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -423,43 +423,81 @@ void TRE::toEventTA(TimedAutomaton &out) const {
 //! rename to epsilon transitions
 void renameToEpsilonTransitions(TimedAutomaton &out) {
   std::unordered_map<TAState *, std::shared_ptr<TAState>> toAccepting;
-  const auto haveToChangeToEpsilon = [](const TAState *s, const Alphabet c) {
-    static std::unordered_map<const TAState *, Alphabet> output;
-    if (c != 0) {
-      if (s->next.find(c) != s->next.end()) {
-        output[s] = c;
-        return true;
-      } else {
-        return output[s] == c;
+  // The observable labels of the transitions before the renaming
+  std::unordered_map<const TAState *, std::vector<Alphabet>> labels;
+  for (const auto &s : out.states) {
+    for (const auto &transitionsPair : s->next) {
+      if (transitionsPair.first != 0 && !transitionsPair.second.empty()) {
+        labels[s.get()].push_back(transitionsPair.first);
       }
     }
-    return false;
+  }
+  const auto haveToChangeToEpsilon = [&labels](const TAState *s,
+                                               const Alphabet c) {
+    const auto it = labels.find(s);
+    return it != labels.end() &&
+           std::find(it->second.begin(), it->second.end(), c) !=
+               it->second.end();
+  };
+  const auto getAccepting = [&toAccepting](TAState *s) {
+    auto &accepting = toAccepting[s];
+    if (!accepting) {
+      accepting = std::make_shared<TAState>(true);
+    }
+    return accepting.get();
   };
+
   for (auto s : out.states) {
+    std::vector<TATransition> epsilonTransitions;
     for (auto &transitionsPair : s->next) {
       const Alphabet c = transitionsPair.first;
-      for (auto it = transitionsPair.second.begin();
-           it != transitionsPair.second.end();) {
-        TAState *target = it->target;
-        if (target) {
-          if (haveToChangeToEpsilon(target, c)) {
-            s->next[0].push_back(*it);
-            if (target->isMatch) {
-              auto ret = toAccepting.find(target);
-              if (ret == toAccepting.end()) {
-                toAccepting[target] = std::make_shared<TAState>(true);
-              }
-              it->target = toAccepting[target].get();
-            } else {
-              it = transitionsPair.second.erase(it);
-            }
-          } else {
-            it++;
-          }
-        } else {
-          it = transitionsPair.second.erase(it);
+      std::vector<TATransition> transitions;
+      for (const auto &transition : transitionsPair.second) {
+        TAState *target = transition.target;
+        if (!target) {
+          continue;
+        }
+        if (!haveToChangeToEpsilon(target, c)) {
+          transitions.push_back(transition);
+          continue;
+        }
+        // The next segment can have the same value.
+        epsilonTransitions.push_back(transition);
+        // The next segment can have another value.
+        if (labels.at(target).size() > 1) {
+          transitions.push_back(transition);
+        }
+        if (target->isMatch) {
+          transitions.push_back(transition);
+          transitions.back().target = getAccepting(target);
+        }
+      }
+      transitionsPair.second = std::move(transitions);
+    }
+    if (!epsilonTransitions.empty()) {
+      auto &transitions = s->next[0];
+      transitions.insert(transitions.end(), epsilonTransitions.begin(),
+                         epsilonTransitions.end());
+    }
+  }
+  // The other transitions to the states that are not accepting anymore
+  for (auto s : out.states) {
+    for (auto &transitionsPair : s->next) {
+      const Alphabet c = transitionsPair.first;
+      if (c == 0) {
+        continue;
+      }
+      std::vector<TATransition> newTransitions;
+      for (const auto &transition : transitionsPair.second) {
+        if (toAccepting.find(transition.target) != toAccepting.end() &&
+            !haveToChangeToEpsilon(transition.target, c)) {
+          newTransitions.push_back(transition);
+          newTransitions.back().target = getAccepting(transition.target);
         }
       }
+      transitionsPair.second.insert(transitionsPair.second.end(),
+                                    newTransitions.begin(),
+                                    newTransitions.end());
     }
   }
 
-- 
2.43.0


From 7c574547a5c3a9926d5e521c5cd096e4dfca7c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:33 +0000
Subject: [PATCH 33/41] fix: do not follow a cycle of unobservable transitions
 forever

---
 libmonaa/monaa.hh | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/libmonaa/monaa.hh b/libmonaa/monaa.hh
index 44f951e..1cfb525 100644
--- a/libmonaa/monaa.hh
+++ b/libmonaa/monaa.hh
@@ -82,6 +82,25 @@ struct InternalState {
         resetTime(numOfVar, ClockVariables(1)), z(std::move(interval)) {}
 };
 
+//! @brief Check if the two configurations are the same.
+inline bool isSameConfiguration(const InternalState &a,
+                                const InternalState &b) {
+  if (a.s != b.s || a.resetTime != b.resetTime ||
+      a.z.useInterval != b.z.useInterval ||
+      a.z.newestClock != b.z.newestClock) {
+    return false;
+  }
+  if (a.z.useInterval) {
+    return std::equal(a.z.intervals.begin(), a.z.intervals.end(),
+                      b.z.intervals.begin(), b.z.intervals.end(),
+                      [](const Interval &x, const Interval &y) {
+                        return x.lowerBound == y.lowerBound &&
+                               x.upperBound == y.upperBound;
+                      });
+  }
+  return a.z.value.cols() == b.z.value.cols() && a.z.value == b.z.value;
+}
+
 struct IntervalInternalState {
   using Variables = char;
   const TAState *s;
@@ -640,7 +659,16 @@ void monaa(WordContainer<InputContainer> word, TimedAutomaton A,
                   tmpResetTime[x] = newClock;
                 }
                 tmpZ.update(tmpResetTime);
-                CurrEpsilonConf.emplace_back(target, tmpResetTime, tmpZ);
+                const InternalState next(target, tmpResetTime, tmpZ);
+                const auto isNext = [&next](const InternalState &istate) {
+                  return isSameConfiguration(istate, next);
+                };
+                // Without this check, we may follow a cycle forever.
+                if (std::none_of(CStates.begin(), CStates.end(), isNext) &&
+                    std::none_of(CurrEpsilonConf.begin(),
+                                 CurrEpsilonConf.end(), isNext)) {
+                  CurrEpsilonConf.push_back(next);
+                }
               }
             }
           }
-- 
2.43.0


From 6876df1a829abbb00e46fe96115bb83ea29c4b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 34/41] fix: do not restrict a singleton shared by another
 signal expression

---
 monaa/intermediate_tre.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 0c1ca28..8f74edd 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -291,12 +291,12 @@ void AtomicTRE::toNormalForm() {
         within.first->decision->tag, within.first->decision->chars);
     switch (within.first->tag) {
     case op::singleton: {
-      auto origExpr = within.first;
-      land(origExpr->singleton->intervals, *(within.second));
+      // within.first can be shared by another expression
+      auto restricted = std::make_shared<SingletonTRE>(*within.first->singleton);
+      land(restricted->intervals, *(within.second));
       within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
       tag = op::singleton;
-      new (&singleton)
-          std::shared_ptr<SingletonTRE>(std::move(origExpr->singleton));
+      new (&singleton) std::shared_ptr<SingletonTRE>(std::move(restricted));
       break;
     }
     case op::epsilon: {
@@ -430,7 +430,8 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = expr->list.front().front()->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(
+        *expr->list.front().front()->singleton);
     expr.reset();
     tag = op::singleton;
     new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
@@ -441,7 +442,7 @@ bool AtomicTRE::makeSNF(const char singleC) {
     if (!within.first->makeSNF(singleC)) {
       return false;
     }
-    auto tmpTRE = within.first->singleton;
+    auto tmpTRE = std::make_shared<SingletonTRE>(*within.first->singleton);
     auto tmpInterval = within.second;
     within.~pair<std::shared_ptr<AtomicTRE>, std::shared_ptr<Interval>>();
     tag = op::singleton;
-- 
2.43.0


From 99dd1bdd06f0cf31e5ffadbd8e1b19fbc0b97b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 35/41] fix: restrict also the signals accepted by one
 transition

---
 monaa/intermediate_tre.cc | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 8f74edd..13ca2e5 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -583,18 +583,13 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::within: {
     within.first->toSignalTA(out);
-    // add dummy initial state
-    std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
-    for (auto initialState : out.initialStates) {
-      for (const auto &initTransitionsPair : initialState->next) {
-        const Alphabet c = initTransitionsPair.first;
-        dummyInitialState->next[c].reserve(dummyInitialState->next[c].size() +
-                                           initTransitionsPair.second.size());
-        for (auto &edge : initTransitionsPair.second) {
-          TATransition transition = edge;
-          dummyInitialState->next[c].emplace_back(std::move(transition));
-        }
-      }
+    // add dummy initial states. Any state must be left with only one value.
+    for (auto &initialState : out.initialStates) {
+      std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
+      dummyInitialState->next = initialState->next;
+      initialState = dummyInitialState;
+      // The segment accepted by one transition is also restricted
+      out.states.push_back(std::move(dummyInitialState));
     }
     // add dummy accepting state
     std::shared_ptr<TAState> dummyAcceptingState = std::make_shared<TAState>();
@@ -638,9 +633,6 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     for (auto state : out.states) {
       state->isMatch = false;
     }
-    out.initialStates = {dummyInitialState};
-    out.states.reserve(out.stateSize() + 2);
-    out.states.emplace_back(std::move(dummyInitialState));
     out.states.emplace_back(std::move(dummyAcceptingState));
     out.maxConstraints.emplace_back(
         std::isinf(within.second->upperBound.first)
-- 
2.43.0


From e6d2f2c2842fd616788dcc90e2c7c30d63b2a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 36/41] fix: the empty signal has no positive duration

---
 monaa/intermediate_tre.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 13ca2e5..b125291 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -131,6 +131,20 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   case TRE::op::within: {
     DNFTRE subfml(tre->regExprWithin.first);
     list = std::move(subfml.list);
+    // The duration of the empty signal is zero
+    if (!tre->regExprWithin.second->contain(0)) {
+      list.remove_if([](const std::list<std::shared_ptr<AtomicTRE>> &atomics) {
+        return std::any_of(atomics.begin(), atomics.end(),
+                           [](const std::shared_ptr<AtomicTRE> &atomic) {
+                             return atomic->tag == AtomicTRE::op::epsilon;
+                           });
+      });
+      if (list.empty()) {
+        // The language is empty
+        list = {{std::make_shared<AtomicTRE>(std::make_shared<SingletonTRE>(
+            0, std::vector<std::shared_ptr<Interval>>{}))}};
+      }
+    }
     for (auto &conjunctions : list) {
       for (auto &atomic : conjunctions) {
         atomic = std::make_shared<AtomicTRE>(atomic, tre->regExprWithin.second);
-- 
2.43.0


From 4f7c630874de7d853a64d7d92543e942bf5dd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 37/41] fix: do not distribute the concatenation over the
 conjunction

---
 monaa/intermediate_tre.cc | 43 ++++++++++++++++++++++++++++-----------
 monaa/intermediate_tre.hh | 18 ++++++++++++++--
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index b125291..077ea6f 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -82,17 +82,16 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
     std::shared_ptr<DNFTRE> subfmlRight =
         std::make_shared<DNFTRE>(tre->regExprPair.second);
 
+    const auto toAtomic =
+        [](const std::list<std::shared_ptr<AtomicTRE>> &conjunctions) {
+          return conjunctions.size() == 1
+                     ? conjunctions.front()
+                     : std::make_shared<AtomicTRE>(conjunctions);
+        };
     for (const auto &conjunctionsLeft : subfmlLeft->list) {
       for (const auto &conjunctionsRight : subfmlRight->list) {
-        std::list<std::shared_ptr<AtomicTRE>> conjunctions;
-        for (const std::shared_ptr<AtomicTRE> &left : conjunctionsLeft) {
-          for (const std::shared_ptr<AtomicTRE> &right : conjunctionsRight) {
-            conjunctions.push_back(std::make_shared<AtomicTRE>(left, right));
-          }
-        }
-        if (!conjunctions.empty()) {
-          list.emplace_back(std::move(conjunctions));
-        }
+        list.push_back({std::make_shared<AtomicTRE>(
+            toAtomic(conjunctionsLeft), toAtomic(conjunctionsRight))});
       }
     }
 
@@ -156,6 +155,11 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
   }
 };
 
+std::shared_ptr<DNFTRE> AtomicTRE::makeDNF(
+    const std::list<std::shared_ptr<AtomicTRE>> &conjunctions) {
+  return std::make_shared<DNFTRE>(conjunctions);
+}
+
 void AtomicTRE::toNormalForm() {
   switch (tag) {
   case op::singleton: {
@@ -210,7 +214,8 @@ void AtomicTRE::toNormalForm() {
         new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
-      case op::plus: {
+      case op::plus:
+      case op::conjunction: {
         new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
@@ -299,6 +304,11 @@ void AtomicTRE::toNormalForm() {
     }
     break;
   }
+  case op::conjunction: {
+    expr->toNormalForm();
+    decision = expr->decision;
+    break;
+  }
   case op::within: {
     within.first->toNormalForm();
     decision = std::make_shared<SyntacticDecision>(
@@ -335,6 +345,7 @@ void AtomicTRE::toNormalForm() {
       }
     }
     case op::concat:
+    case op::conjunction:
     case op::within: {
       break;
     }
@@ -440,16 +451,20 @@ bool AtomicTRE::makeSNF(const char singleC) {
       return false;
     }
   }
-  case op::plus: {
+  case op::plus:
+  case op::conjunction: {
     if (!expr->makeSNF(singleC)) {
       return false;
     }
+    const bool isPlus = tag == op::plus;
     auto tmpTRE = std::make_shared<SingletonTRE>(
         *expr->list.front().front()->singleton);
     expr.reset();
     tag = op::singleton;
     new (&singleton) std::shared_ptr<SingletonTRE>(std::move(tmpTRE));
-    plus(singleton->intervals);
+    if (isPlus) {
+      plus(singleton->intervals);
+    }
     return true;
   }
   case op::within: {
@@ -564,6 +579,10 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     out.maxConstraints.clear();
     break;
   }
+  case op::conjunction: {
+    expr->toSignalTA(out);
+    break;
+  }
   case op::plus: {
     expr->toSignalTA(out);
     std::vector<ClockVariables> allClocks(out.clockSize());
diff --git a/monaa/intermediate_tre.hh b/monaa/intermediate_tre.hh
index e97dc34..20ae526 100644
--- a/monaa/intermediate_tre.hh
+++ b/monaa/intermediate_tre.hh
@@ -90,7 +90,7 @@ public:
 class AtomicTRE {
 public:
   //! @brief The top-level operation
-  enum class op { singleton, epsilon, concat, plus, within };
+  enum class op { singleton, epsilon, concat, plus, within, conjunction };
 
   //! @brief The constructor for \f$\varepsilon\f$
   AtomicTRE() : tag(op::epsilon) {}
@@ -150,7 +150,8 @@ public:
         new (&list) std::list<std::shared_ptr<AtomicTRE>>(origExpr->list);
         break;
       }
-      case op::plus: {
+      case op::plus:
+      case op::conjunction: {
         new (&expr) std::shared_ptr<DNFTRE>(origExpr->expr);
         break;
       }
@@ -165,6 +166,13 @@ public:
   }
   //! @brief The constructor for the plus operator
   AtomicTRE(const std::shared_ptr<DNFTRE> expr) : tag(op::plus), expr(expr) {}
+  /*!
+    @brief The constructor for a conjunction in a concatenation
+
+    @note The concatenation does not distribute over the conjunction.
+   */
+  AtomicTRE(const std::list<std::shared_ptr<AtomicTRE>> &conjunctions)
+      : tag(op::conjunction), expr(makeDNF(conjunctions)) {}
   //! @brief The constructor for the witin operator
   AtomicTRE(const std::shared_ptr<AtomicTRE> atomic,
             const std::shared_ptr<Interval> interval)
@@ -189,6 +197,7 @@ public:
       singleton.reset();
       break;
     case op::plus:
+    case op::conjunction:
       expr.reset();
       break;
     case op::within:
@@ -215,6 +224,11 @@ public:
   //! @todo write what is the SNF
   bool makeSNF(const char singleC);
   void toSignalTA(TimedAutomaton &out) const;
+
+private:
+  //! @brief Make a DNFTRE of one conjunction
+  static std::shared_ptr<DNFTRE>
+  makeDNF(const std::list<std::shared_ptr<AtomicTRE>> &conjunctions);
 };
 
 /*!
-- 
2.43.0


From 4ef970623af4bf06229b2c55f71138a7565a12dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:59 +0000
Subject: [PATCH 38/41] fix: any segment split by an unobservable transition
 has a positive length

---
 monaa/tre.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/monaa/tre.cc b/monaa/tre.cc
index f318815..e635ebe 100644
--- a/monaa/tre.cc
+++ b/monaa/tre.cc
@@ -507,6 +507,25 @@ void renameToEpsilonTransitions(TimedAutomaton &out) {
   }
 }
 
+//! Any segment has a positive length also with the epsilon transitions.
+static void requirePositiveLength(TimedAutomaton &out) {
+  if (std::none_of(out.states.begin(), out.states.end(), [](const auto &s) {
+        return s->next.find(0) != s->next.end();
+      })) {
+    return;
+  }
+  const ClockVariables clock = out.clockSize();
+  for (auto s : out.states) {
+    for (auto &transitionsPair : s->next) {
+      for (auto &transition : transitionsPair.second) {
+        transition.guard.push_back(TimedAutomaton::X(clock) > 0);
+        transition.resetVars.push_back(clock);
+      }
+    }
+  }
+  out.maxConstraints.push_back(0);
+}
+
 void toSignalTA(std::shared_ptr<const TRE> tre, TimedAutomaton &out) {
   DNFTRE dnftre(tre);
 
@@ -514,4 +533,5 @@ void toSignalTA(std::shared_ptr<const TRE> tre, TimedAutomaton &out) {
   dnftre.toSignalTA(out);
 
   renameToEpsilonTransitions(out);
+  requirePositiveLength(out);
 }
-- 
2.43.0


From 7dc6b50782d4e154e2678c35bce8982fa20517f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:21 +0000
Subject: [PATCH 39/41] fix: the empty signal in a repetition or a nested
 restriction

---
 monaa/intermediate_tre.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 077ea6f..6015f8e 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -146,6 +146,9 @@ DNFTRE::DNFTRE(const std::shared_ptr<const TRE> tre) {
     }
     for (auto &conjunctions : list) {
       for (auto &atomic : conjunctions) {
+        if (atomic->tag == AtomicTRE::op::epsilon) {
+          continue;
+        }
         atomic = std::make_shared<AtomicTRE>(atomic, tre->regExprWithin.second);
       }
     }
@@ -616,6 +619,11 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
   }
   case op::within: {
     within.first->toSignalTA(out);
+    // The duration of the empty signal is zero
+    const bool acceptEmpty =
+        within.second->contain(0) &&
+        std::any_of(out.initialStates.begin(), out.initialStates.end(),
+                    [](const auto &state) { return state->isMatch; });
     // add dummy initial states. Any state must be left with only one value.
     for (auto &initialState : out.initialStates) {
       std::shared_ptr<TAState> dummyInitialState = std::make_shared<TAState>();
@@ -666,6 +674,10 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
     for (auto state : out.states) {
       state->isMatch = false;
     }
+    if (acceptEmpty) {
+      out.states.push_back(std::make_shared<TAState>(true));
+      out.initialStates.push_back(out.states.back());
+    }
     out.states.emplace_back(std::move(dummyAcceptingState));
     out.maxConstraints.emplace_back(
         std::isinf(within.second->upperBound.first)
-- 
2.43.0


From 544efb91aab7725e3d1a07bf221b0864484fbfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:08 +0000
Subject: [PATCH 40/41] fix: reject sums of constants that do not fit into an
 integer

---
 monaa/intermediate_tre.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/monaa/intermediate_tre.cc b/monaa/intermediate_tre.cc
index 6015f8e..a1acc56 100644
--- a/monaa/intermediate_tre.cc
+++ b/monaa/intermediate_tre.cc
@@ -5,14 +5,24 @@
 #include "intermediate_tre.hh"
 
 #include <algorithm>
+#include <limits>
 #include <list>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
 void concat2(TimedAutomaton &left, const TimedAutomaton &right);
 
+//! @brief The constant of a guard. The sums of the bounds may be too large.
+static int toConstant(const double bound) {
+  if (bound > std::numeric_limits<int>::max()) {
+    throw std::out_of_range("too large constant in the pattern");
+  }
+  return static_cast<int>(bound);
+}
+
 void SyntacticDecision::concat(std::shared_ptr<SyntacticDecision> in) {
   std::vector<Alphabet> ansChars(chars.size() + in->chars.size());
   // chars have epsilon
@@ -544,24 +554,22 @@ void AtomicTRE::toSignalTA(TimedAutomaton &out) const {
       guard.reserve(2);
       // The length of any segment is positive
       if (interval->lowerBound.first != 0) {
+        const int c = toConstant(interval->lowerBound.first);
         if (interval->lowerBound.second) {
-          guard.emplace_back(TimedAutomaton::X(0) >=
-                             interval->lowerBound.first);
+          guard.emplace_back(TimedAutomaton::X(0) >= c);
         } else {
-          guard.emplace_back(TimedAutomaton::X(0) > interval->lowerBound.first);
+          guard.emplace_back(TimedAutomaton::X(0) > c);
         }
-        maxConstraint = std::max(maxConstraint,
-                                 static_cast<int>(interval->lowerBound.first));
+        maxConstraint = std::max(maxConstraint, c);
       }
       if (!std::isinf(interval->upperBound.first)) {
+        const int c = toConstant(interval->upperBound.first);
         if (interval->upperBound.second) {
-          guard.emplace_back(TimedAutomaton::X(0) <=
-                             interval->upperBound.first);
+          guard.emplace_back(TimedAutomaton::X(0) <= c);
         } else {
-          guard.emplace_back(TimedAutomaton::X(0) < interval->upperBound.first);
+          guard.emplace_back(TimedAutomaton::X(0) < c);
         }
-        maxConstraint = std::max(maxConstraint,
-                                 static_cast<int>(interval->upperBound.first));
+        maxConstraint = std::max(maxConstraint, c);
       }
       out.states[0]->next[singleton->c].push_back(
           {out.states[1].get(), {}, guard});
-- 
2.43.0


From 28078f79209600870af5ba5a8bd0960f442f898c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:08 +0000
Subject: [PATCH 41/41] fix: report expressions that cannot be translated by
 the exit status

---
 monaa/main.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/monaa/main.cc b/monaa/main.cc
index 9c665dc..6355df3 100644
--- a/monaa/main.cc
+++ b/monaa/main.cc
@@ -111,10 +111,15 @@ int main(int argc, char *argv[]) {
     if (!driver.parse(treStream)) {
       die("Failed to parse TRE", 2);
     }
-    if (isSignal) {
-      toSignalTA(driver.getResult(), TA);
-    } else {
-      driver.getResult()->toEventTA(TA);
+    try {
+      if (isSignal) {
+        toSignalTA(driver.getResult(), TA);
+      } else {
+        driver.getResult()->toEventTA(TA);
+      }
+    } catch (const std::exception &e) {
+      std::cerr << errorHeader << e.what() << std::endl;
+      die("Failed to translate TRE", 2);
     }
   } else {
     if (isSignal) {
-- 
2.43.0

