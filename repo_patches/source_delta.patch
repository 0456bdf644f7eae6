From 32d8e247b44c6443ed7a28b40f491cab2b25d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 01/11] fix: apply the renamings of Zone::applyResets
 simultaneously

They were applied one after another, so that an update such as x1 := x0, x2 := x1 differed from the simultaneous update performed by the runner.
---
 include/zone.hh | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..b144a5d 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <limits>
 #include <algorithm>
+#include <numeric>
 #include <unordered_map>
 #include <boost/unordered_map.hpp>
 #include <boost/range/adaptor/reversed.hpp>
@@ -130,15 +131,26 @@ namespace learnta {
     }
 
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
+      // We apply renaming first. All the renamings refer to the values before the update.
+      canonize();
+      const auto original = this->value;
+      std::vector<Eigen::Index> sources(original.cols());
+      std::iota(sources.begin(), sources.end(), 0);
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
         }
       }
+      for (Eigen::Index i = 0; i < original.rows(); ++i) {
+        for (Eigen::Index j = 0; j < original.cols(); ++j) {
+          if (sources.at(i) != sources.at(j)) {
+            this->value(i, j) = original(sources.at(i), sources.at(j));
+          } else if (i != j) {
+            this->value(i, j) = Bounds{0.0, true};
+          }
+        }
+      }
+      canonize();
       // Then, assign a value
       for (const auto &[resetVariable, updatedVariable]: resets) {
         if (updatedVariable.index() == 0) {
-- 
2.43.0


From d8fc4d0466c57b721e3dd209234d4da98945c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 02/11] fix: make Zone::revertResets the weakest precondition
 of the update

Identity assignments and clocks that are both renamed from and assigned lost their constraints.
---
 include/zone.hh | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index b144a5d..b2ec336 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -165,27 +165,30 @@ namespace learnta {
     /*!
      * @brief Make it the weakest precondition of the reset
      *
-     * In addition to unconstrain the updated variables, we use the renaming information
+     * The difference of two variables after the reset is the difference of their sources before the reset up to a constant.
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
+      canonize();
+      const auto original = this->value;
+      std::vector<Eigen::Index> sources(original.cols());
+      std::iota(sources.begin(), sources.end(), 0);
+      std::vector<double> offsets(original.cols(), 0);
       for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = std::get<ClockVariables>(updatedVariable) + 1;
+        } else {
+          sources.at(resetVariable + 1) = 0;
+          offsets.at(resetVariable + 1) = std::get<double>(updatedVariable);
         }
       }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      this->value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (Eigen::Index i = 0; i < original.rows(); ++i) {
+        for (Eigen::Index j = 0; j < original.cols(); ++j) {
+          auto &bound = this->value(sources.at(i), sources.at(j));
+          bound = std::min(bound, original(i, j) + Bounds{offsets.at(j) - offsets.at(i), true});
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 4b5ed51181c928dc5bcd7c7341a24c857035c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 03/11] fix: respect the strictness of differences in
 Zone::sample

The strictness of the lower bound was taken from the bound of the clock itself even if a difference with an already sampled clock is the tightest one.
---
 include/zone.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index b2ec336..042b693 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -252,14 +252,21 @@ namespace learnta {
         } else {
           double lower = std::max(0.0, -lowerBound.first);
           double upper = upperBound.first;
+          bool lowerClosed = lowerBound.second;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            const double tmpLower = -tmpLowerBound.first + valuation[j];
+            if (tmpLower > lower) {
+              lowerClosed = lowerBound.second && tmpLowerBound.second;
+            } else if (tmpLower == lower) {
+              lowerClosed = lowerClosed && tmpLowerBound.second;
+            }
+            lower = std::max(lower, tmpLower);
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (lowerClosed) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 2a9d31d54c2da862415f184cff6e30dfd19815d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 04/11] fix: the negation of a disjunction with a tautology is
 empty

---
 include/constraint.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..9aca3f8 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -396,7 +396,8 @@ namespace learnta {
     bool initial = true;
     for (const auto &disjunct: cnfNegated) {
       if (disjunct.empty()) {
-        continue;
+        // The original guard is a tautology
+        return {};
       }
       if (initial) {
         dnfNegated.reserve(disjunct.size());
-- 
2.43.0


From a14a3cfabd70fb639ddb86295baa89edb8a6aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 05/11] fix: order the fractional parts of backward regional
 languages by the distance to the next integer

BackwardRegionalElementaryLanguage::predecessor() elapses the clocks in the first class of the order, which
is the right class only for the order over the fractional parts of -T_{0,i}.
---
 .../backward_regional_elementary_language.hh    | 11 +++++------
 include/forward_regional_elementary_language.hh | 17 +----------------
 2 files changed, 6 insertions(+), 22 deletions(-)

diff --git a/include/backward_regional_elementary_language.hh b/include/backward_regional_elementary_language.hh
index b69e48a..b144d70 100644
--- a/include/backward_regional_elementary_language.hh
+++ b/include/backward_regional_elementary_language.hh
@@ -15,7 +15,7 @@ namespace learnta {
   /*!
    * @brief A back regional elementary language
    *
-   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$\mathbb{T}_{0,0},\mathbb{T}_{0,1},\dots,\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
+   * A back regional elementary language is an elementary language \f$(u, \Lambda)\f$ with an order over the fractional parts of \f$-\mathbb{T}_{0,0},-\mathbb{T}_{0,1},\dots,-\mathbb{T}_{0,N}\f$, where \f$\mathbb{T}_{0,i} = \tau_{0} + \tau_{1} \dots \tau_{i}\f$.
    *
    * @invariant elementary.wordSize() + 1 == fractionalOrder.size()
    */
@@ -37,11 +37,10 @@ namespace learnta {
       fractionalPart.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromFront.front() = timedWord.getDurations().front();
-      fractionalPart.front() = timedWord.getDurations().front() - std::floor(timedWord.getDurations().front());
+      fractionalPart.front() = std::ceil(timedWord.getDurations().front()) - timedWord.getDurations().front();
       for (std::size_t i = 1; i < fractionalPart.size(); ++i) {
         accumulatedDurationFromFront.at(i) = accumulatedDurationFromFront.at(i - 1) + timedWord.getDurations().at(i);
-        fractionalPart.at(i) = accumulatedDurationFromFront.at(i);
-        fractionalPart.at(i) -= std::floor(fractionalPart.at(i));
+        fractionalPart.at(i) = std::ceil(accumulatedDurationFromFront.at(i)) - accumulatedDurationFromFront.at(i);
       }
       accumulatedDurationFromBack.resize(timedWord.wordSize() + 1);
       accumulatedDurationFromBack.back() = timedWord.getDurations().back();
@@ -78,8 +77,8 @@ namespace learnta {
       } else if (this->getTimedCondition().hasSuffix()) {
         // return the continuous prefix
         return std::make_optional(BackwardRegionalElementaryLanguage{
-                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.predecessorVariables())},
-                this->fractionalOrder.predecessor()});
+                {this->getWord(), this->getTimedCondition().suffix(this->fractionalOrder.successorVariables())},
+                this->fractionalOrder.successor()});
       } else {
         // TODO: return the discrete suffix
         auto word = this->getWord();
diff --git a/include/forward_regional_elementary_language.hh b/include/forward_regional_elementary_language.hh
index 1d41277..19827d8 100644
--- a/include/forward_regional_elementary_language.hh
+++ b/include/forward_regional_elementary_language.hh
@@ -158,22 +158,7 @@ namespace learnta {
       suffixDurations.erase(suffixDurations.begin(), suffixDurations.begin() + prefix.wordSize());
       suffixDurations.front() -= prefixWord.getDurations().back();
       // Generate the elementary language containing the suffix
-      const auto forward = fromTimedWord(TimedWord{suffixWord, suffixDurations});
-      // Construct the fractional order
-      std::vector<double> suffixDurationsFractional;
-      suffixDurationsFractional.resize(suffixDurations.size());
-      suffixDurationsFractional.front() = suffixDurations.front() - std::floor(suffixDurations.front());
-      for (std::size_t i = 1; i < suffixDurationsFractional.size(); ++i) {
-        suffixDurationsFractional.at(i) = suffixDurationsFractional.at(i - 1) + suffixDurations.at(i);
-        suffixDurationsFractional.at(i) -= std::floor(suffixDurationsFractional.at(i));
-      }
-      assert(std::all_of(suffixDurationsFractional.begin(), suffixDurationsFractional.end(),
-                         [](const double fractional) {
-                           return 0 <= fractional && fractional < 1;
-                         }));
-
-      return BackwardRegionalElementaryLanguage{ElementaryLanguage{forward.getWord(), forward.getTimedCondition()},
-                                                FractionalOrder(suffixDurationsFractional)};
+      return BackwardRegionalElementaryLanguage::fromTimedWord(TimedWord{suffixWord, suffixDurations});
     }
 
     [[nodiscard]] ForwardRegionalElementaryLanguage applyResets(const TATransition::Resets &resets) const {
-- 
2.43.0


From f91c92b44c2803cdfc833f95e0ff50d287d1aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:18 +0000
Subject: [PATCH 06/11] fix: makeComplete also completes actions without
 transitions next to unobservable transitions

---
 include/timed_automaton.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..b0c5cca 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -299,10 +299,10 @@ namespace learnta {
             // If the transition is empty, we make a transition to the sink state
             state->next[action].emplace_back();
             state->next.at(action).back().target = this->states.back().get();
-          } else if (state->next.find(action) != state->next.end() && !state->next.at(action).empty()) {
+          } else {
             // Take the union of the guards and complement it to obtain the condition to get stuck
             std::vector<std::vector<Constraint>> disjunctiveGuard = disjunctiveGuardOfUnobservable;
-            disjunctiveGuard.reserve(state->next.at(action).size());
+            disjunctiveGuard.reserve(disjunctiveGuard.size() + state->next[action].size());
             for (const auto &transition: state->next.at(action)) {
               if (transition.guard.empty()) {
                 disjunctiveGuard.clear();
-- 
2.43.0


From f441e99f9cc406d45518933ab14e992289e3af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:12 +0000
Subject: [PATCH 07/11] fix: redundant constraints of a guard do not weaken
 unionHull

---
 include/constraint.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 9aca3f8..63bf894 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -441,7 +441,9 @@ namespace learnta {
   static inline auto unionHull(const std::vector<std::vector<Constraint>> &guards) {
     boost::unordered_map<std::pair<ClockVariables, bool>, Bounds> guardsAsBounds;
     bool initial = true;
-    for (const auto &guard: guards) {
+    for (const auto &givenGuard: guards) {
+      // Redundant constraints of one guard must not weaken the hull
+      const auto guard = simplify(givenGuard);
       boost::unordered_set<std::pair<ClockVariables, bool>> boundedKeys;
       for (const auto &constraint: guard) {
         const auto clock = constraint.x;
-- 
2.43.0


From b30381f322b99df1683ef460ed42f9072dcbacd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 08/11] fix: construct zones in the order in which they are
 sampled, so that merged states do not hide words

---
 src/ta2za.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 0ea33f1..56be1e2 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -58,8 +58,15 @@ namespace learnta {
       TAState *taState = zaState->taState;
       Zone nowZone = zaState->zone;
       nowZone.elapse();
-      for (const auto &[c, edges]: taState->next) {
-        for (const auto &edge: edges) {
+      // We follow the order of ZoneAutomaton::sample, so that its first run to a state is the run that created the state
+      std::vector<Alphabet> actions;
+      actions.reserve(taState->next.size());
+      std::transform(taState->next.begin(), taState->next.end(), std::back_inserter(actions), [](const auto &pair) {
+        return pair.first;
+      });
+      std::sort(actions.begin(), actions.end());
+      for (const auto c: actions) {
+        for (const auto &edge: taState->next.at(c)) {
           Zone nextZone = nowZone;
           auto nextState = edge.target;
           if (!nextState) {
-- 
2.43.0


From 1a4f06dcaa5c99e167562099e76c87b40a0f5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 09/11] fix: extrapolate zones by the constants that copied
 clocks are compared with

---
 src/ta2za.cc | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/ta2za.cc b/src/ta2za.cc
index 56be1e2..a121c10 100644
--- a/src/ta2za.cc
+++ b/src/ta2za.cc
@@ -5,6 +5,54 @@
 
 namespace learnta {
 
+  /*!
+   * @brief Make the maximum constants each clock variable may be compared with after reaching each location
+   *
+   * The constants are propagated through clock copies: after x := y, the value of y is observed by the guards on x.
+   */
+  static std::unordered_map<const TAState *, std::vector<double>> makeLocalMaxConstants(const TimedAutomaton &TA) {
+    std::unordered_map<const TAState *, std::vector<double>> result;
+    for (const auto &state: TA.states) {
+      result[state.get()] = std::vector<double>(TA.clockSize(), 0);
+    }
+    bool changed = true;
+    while (changed) {
+      changed = false;
+      for (const auto &state: TA.states) {
+        auto &constants = result.at(state.get());
+        const auto update = [&](ClockVariables clock, double constant) {
+          if (constants.at(clock) < constant) {
+            constants.at(clock) = constant;
+            changed = true;
+          }
+        };
+        for (const auto &[action, edges]: state->next) {
+          for (const auto &edge: edges) {
+            for (const auto &constraint: edge.guard) {
+              update(constraint.x, constraint.c);
+            }
+            const auto it = result.find(edge.target);
+            if (it == result.end()) {
+              continue;
+            }
+            const auto targetConstants = it->second;
+            const auto resets = asMap(edge.resetVars);
+            for (std::size_t clock = 0; clock < targetConstants.size(); ++clock) {
+              const auto resetIt = resets.find(clock);
+              if (resetIt == resets.end()) {
+                update(clock, targetConstants.at(clock));
+              } else if (resetIt->second.index() == 1) {
+                update(std::get<ClockVariables>(resetIt->second), targetConstants.at(clock));
+              }
+            }
+          }
+        }
+      }
+    }
+
+    return result;
+  }
+
 /*!
   @brief Generate a zone automaton from a timed automaton
   @tparam NVar the number of variable in TA
@@ -15,6 +63,7 @@ namespace learnta {
   void ta2za(const TimedAutomaton &TA, ZoneAutomaton &ZA, bool quickReturn) {
     const std::size_t clockSize = TA.clockSize();
     Zone initialZone = Zone::zero(clockSize + 1);
+    const auto localMaxConstants = makeLocalMaxConstants(TA);
 
     //! number of states of ZA
     if (clockSize > 0) {
@@ -81,6 +130,7 @@ namespace learnta {
               continue;
             }
             nextZone.value.diagonal().fill(Bounds{0, true});
+            nextZone.maxConstraints = localMaxConstants.at(nextState);
             if (!quickReturn) {
               nextZone.extrapolate();
               nextZone.value.diagonal().fill(Bounds{0, true});
-- 
2.43.0


From 27a6caaf36b31083df21733c6a2b2cf4b06e10f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 10/11] fix: the delay to satisfy a guard respects its upper
 bounds, and is zero without constraints

---
 include/constraint.hh | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 63bf894..c5efdc1 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <numeric>
 #include <ostream>
 #include <vector>
 #include <unordered_map>
@@ -368,7 +369,25 @@ namespace learnta {
       return constraint.lowerBoundDurationToSatisfy(valuation);
     });
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    // We have to wait until all the constraints bounding from below are satisfied
+    const Bounds result = std::accumulate(lowerBoundDurations.begin(), lowerBoundDurations.end(), Bounds{0.0, true},
+                                          [](const Bounds &a, const Bounds &b) {
+                                            return std::min(a, b);
+                                          });
+    // The constraints bounding from above must still be satisfied after waiting
+    const bool satisfiable = std::all_of(guard.begin(), guard.end(), [&](const auto &constraint) {
+      const auto value = valuation.at(constraint.x) - result.first;
+      switch (constraint.odr) {
+        case Constraint::Order::lt:
+          return value < constraint.c;
+        case Constraint::Order::le:
+          return value < constraint.c || (result.second && value == constraint.c);
+        default:
+          return true;
+      }
+    });
+
+    return satisfiable ? result : Bounds{-std::numeric_limits<double>::infinity(), false};
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
-- 
2.43.0


From cca2f820968400c482fa57e9d7e5287a3ce620ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:07 +0000
Subject: [PATCH 11/11] fix: take the unobservable transition that is enabled
 first

---
 include/timed_automaton_runner.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..dba1d8b 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // The bounds are on the negated durations. Thus, the minimum duration is the maximum bound
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0

