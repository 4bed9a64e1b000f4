From 731cd5be203c268b720acec49e4d8005193a1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:19 +0000
Subject: [PATCH 01/39] fix: cycle-ratio solver confuses its initial bound with
 a cycle ratio

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8bf9fb5..8533c3d 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -188,9 +188,8 @@ namespace boost {
         	VERBOSE_INFO("HOWARD FINSH at iteration " << k << " / " << MAX_ITERATION);
         }
 
-        const float_t eps_ =  -FloatTraits::epsilon() * cmp_props_t::multiplier;
-
-        if (m_cmp(mcr, mcr_bound() + eps_))
+        // no cycle improved on the initial bound
+        if (!m_cmp(mcr_bound(), mcr))
           {
         	VERBOSE_ERROR("UNKNOWN HOWARD ERROR : mcr = " << mcr << " bound = " << m_bound  << " first bound = " << mcr_bound());
         	//VERBOSE_FAILURE();
@@ -231,7 +230,8 @@ namespace boost {
               }
           }
 
-        return  cmp_props_t::multiplier * (s / cz);
+        // Must be strictly worse than any cycle ratio: a graph made of a single cycle can reach s / cz itself.
+        return  cmp_props_t::multiplier * (2 * (s / cz) + 1);
       }
 
 
-- 
2.43.0


From e7d232eb8761db828ca4a2281a930488dbcd0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:21 +0000
Subject: [PATCH 02/39] fix: K-periodic analysis loses the firing order of
 actors without concurrency limit

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 3 +--
 src/libkiter/commons/howard_cycle_ratio.hpp      | 4 ++++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..14c44f8 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -660,8 +660,7 @@ void algorithms::generateKperiodicSelfloop (const models::Dataflow * const dataf
 		lti = timefactor * dataflow->getVertexDuration(t,p);
 	}
 
-	if (dataflow->getReentrancyFactor(t) > 0) // consider only a factor 1
-	{
+	{ // consider only a factor 1, without reentrancy factor only the order of the firings is kept (duration 0)
 
 		// constraintes last_k --> 1
 
diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index 8533c3d..ae51c7a 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -351,6 +351,10 @@ namespace boost {
             v = target(m_policy[v], m_g);
           }
         while (v != sv);
+        if (sums_.second <= 0 && sums_.first >= 0) {
+        	VERBOSE_HOWARD("  a circuit that takes no time never bounds the ratio");
+        	return m_bound;
+        }
         float_t cr = sums_.first / sums_.second;
 
     	VERBOSE_HOWARD("  Compare m_cr and cr " << m_cr << "->" << cr);
-- 
2.43.0


From e12030af83d86b53581802b90b7d3a60b99711f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 03/39] fix: symbolic execution uses the production rates of a
 self-loop as its consumption rates

---
 src/libkiter/algorithms/throughput/actor.cpp  | 56 ++++++++++++-------
 src/libkiter/algorithms/throughput/actor.h    |  5 ++
 .../throughput/symbolic_execution.cpp         |  8 +--
 3 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..b62eaaa 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,24 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, (this->getNumExecutions() % getPhaseCount(e)) + 1);
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  assert(this->consExecRate.find(e) != this->consExecRate.end());
+  return this->consExecRate[e][p];
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e) {
+  return this->getProdRate(e, (this->getNumExecutions() % getPhaseCount(e)) + 1);
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e, PHASE_INDEX p) {
+  assert(this->prodExecRate.find(e) != this->prodExecRate.end());
+  return this->prodExecRate[e][p];
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -125,19 +143,19 @@ bool Actor::isReadyForExec(State s) {
   bool isExecutable = true;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
-                  << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
+                  << s.getTokens(e.first) << "/" << this->getConsRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
   if (s.hasBoundedBuffers()) {
     for (auto const &e : this->prodPhaseCount) {
       VERBOSE_DEBUG("\tSpace in channel (current/required): "
-                    << s.getBufferSpace(e.first) << "/" << this->getExecRate(e.first)
+                    << s.getBufferSpace(e.first) << "/" << this->getProdRate(e.first)
                     << std::endl);
       // if (s.getBufferSize(e.first) - s.getTokens(e.first) < this->getExecRate(e.first)) {
-      if (s.getBufferSpace(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+      if (s.getBufferSpace(e.first) < this->getProdRate(e.first) || this->isExecuting) {
         isExecutable = false;
       }
     }
@@ -163,14 +181,14 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Consuming space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "-" << this->getExecRate(e)
-                      << "=" << s.getBufferSpace(e) - this->getExecRate(e));
-        s.setBufferSpace(e, s.getBufferSpace(e) - this->getExecRate(e));
+                      << ": " << s.getBufferSpace(e) << "-" << this->getProdRate(e)
+                      << "=" << s.getBufferSpace(e) - this->getProdRate(e));
+        s.setBufferSpace(e, s.getBufferSpace(e) - this->getProdRate(e));
       }}
   }
   std::pair<TIME_UNIT, PHASE_INDEX> newExec(dataflow->getVertexDuration(this->actor,
@@ -189,15 +207,15 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
   {ForOutputEdges(dataflow, this->actor, e) {
       VERBOSE_INFO("ending execution for phase "
                 << currentPhase << ", producing "
-                << this->getExecRate(e, currentPhase) << " tokens");
-      s.setTokens(e, s.getTokens(e) + this->getExecRate(e, currentPhase));
+                << this->getProdRate(e, currentPhase) << " tokens");
+      s.setTokens(e, s.getTokens(e) + this->getProdRate(e, currentPhase));
     }}
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
-                      << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << ": " << s.getBufferSpace(e) << "+" << this->getConsRate(e, currentPhase)
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -243,9 +261,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
-                  << this->getExecRate(e.first) << " required (p "
+                  << this->getConsRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
@@ -259,9 +277,9 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\tChannel " << dataflow->getEdgeId(e.first) << " ("
                   << sourceId << "->" << targetId << "):" << std::endl);
     VERBOSE_DEBUG("\t\t " << prevState.getBufferSpace(e.first)
-                  << " spaces available previously, " << this->getExecRate(e.first)
+                  << " spaces available previously, " << this->getProdRate(e.first)
                   << " required (p " << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getBufferSpace(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getBufferSpace(e.first) < this->getProdRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                     << targetId << std::endl);
       absDepGraph.addCausalDep(sourceId, targetId);
@@ -278,12 +296,12 @@ std::string Actor::printStatus(models::Dataflow* const dataflow) {
                << std::endl;
   {ForInputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens consumed from Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getConsRate(e)
                    << std::endl;
     }}
   {ForOutputEdges(dataflow, this->actor, e) {
       outputStream << "\tTokens produced into Channel "
-                   << dataflow->getEdgeName(e) << ": " << this->getExecRate(e)
+                   << dataflow->getEdgeName(e) << ": " << this->getProdRate(e)
                    << std::endl;
     }}
   return outputStream.str();
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..c93b823 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,11 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  // A self-loop is both an input and an output channel: its two rates may differ for a same phase
+  TOKEN_UNIT getConsRate(Edge e);
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getProdRate(Edge e);
+  TOKEN_UNIT getProdRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..3bcfaeb 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -528,18 +528,18 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
                     << sourceId << "->" << targetId
                     << "):" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getTokens(e) << " tokens available, "
-                    << actorMap[targetId].getExecRate(e) << " required (p "
+                    << actorMap[targetId].getConsRate(e) << " required (p "
                     << actorMap[targetId].getPhase(e) << ")" << std::endl);
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
-                    << actorMap[sourceId].getExecRate(e) << " required (p "
+                    << actorMap[sourceId].getProdRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
       }
 
-      if (s.getBufferSpace(e) < actorMap[sourceId].getExecRate(e)) {
+      if (s.getBufferSpace(e) < actorMap[sourceId].getProdRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                       << targetId << std::endl);
         absDepGraph.addCausalDep(sourceId, targetId);
-- 
2.43.0


From d6dc7cf0facd06eaa7d99ec578738d265b685383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:06 +0000
Subject: [PATCH 04/39] fix: LP based scheduling reports an infinite throughput
 when no schedule exists

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..782591e 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -11,6 +11,7 @@
 
 #include <models/EventGraph.h>
 #include <lp/glpsol.h>
+#include <limits>
 
 
 static inline const std::string OMEGA_COL_STR ()  {
@@ -371,6 +372,8 @@ models::Scheduling  algorithms::scheduling::CSDF_KPeriodicScheduling_LP (const m
         	persched = collect_lp_results (g,  dataflow, kvector) ;
         } else {
             VERBOSE_ERROR("No feasible solution");
+            // no schedule of this class exists: infinite period, i.e. a throughput of zero
+            persched = models::Scheduling(dataflow, std::numeric_limits<TIME_UNIT>::infinity(), scheduling_t(), critical_circuit_t());
         }
 
         return persched;
@@ -491,6 +494,8 @@ models::Scheduling  algorithms::scheduling::CSDF_RealPeriodicScheduling_LP (cons
         	persched = collect_lp_results (g,  dataflow, kvector) ;
         } else {
             VERBOSE_ERROR("No feasible solution");
+            // no schedule of this class exists: infinite period, i.e. a throughput of zero
+            persched = models::Scheduling(dataflow, std::numeric_limits<TIME_UNIT>::infinity(), scheduling_t(), critical_circuit_t());
         }
 
         return persched;
-- 
2.43.0


From cf4dc354386566aa78525cc4e1549b5d5e3094d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:42 +0000
Subject: [PATCH 05/39] fix: drawing a schedule with overlapping or unbounded
 executions crashes

---
 src/libkiter/models/Scheduling.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index dadf50f..79bbbee 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -8,6 +8,7 @@
 #include "Scheduling.h"
 #include <models/Dataflow.h>
 #include <numeric>
+#include <algorithm>
 
 void models::Scheduling::verbose_print() const {
 
@@ -51,6 +52,13 @@ std::string models::Scheduling::asText () const{
 
 	}
 
+// `count` times the same character, within one line: overlapping executions leave no gap to draw,
+// and anything beyond the end of the line would be cut anyway
+static std::string repeat (TIME_UNIT count, char c, int line_size) {
+	if (not (count > 0)) return std::string();
+	return std::string((size_t) std::min(count, (TIME_UNIT) line_size), c);
+}
+
 std::string models::Scheduling::asASCIINewNew (int line_size) const{
 
 
@@ -74,15 +82,15 @@ std::string models::Scheduling::asASCIINewNew (int line_size) const{
 		// add to string 1) initial starts 2) trailing spaces (before periodic starts)
 		int exec_idx = 0;
 		for (TIME_UNIT i: starts) {
-			std::string add_space(i-prev-1, ' ');
+			std::string add_space = repeat(i-prev-1, ' ', line_size);
 			start_str += add_space;
-			std::string exec(phases[exec_idx % phase_count]-1, '#');
+			std::string exec = repeat(phases[exec_idx % phase_count]-1, '#', line_size);
 			start_str += '@';
 			start_str += exec;
 			prev = i+exec.size();
 			++exec_idx;
 		}
-		std::string leading_space(pedstarts[0]-prev-1, ' ');
+		std::string leading_space = repeat(pedstarts[0]-prev-1, ' ', line_size);
 		start_str += leading_space; 
 		if (start_str.length() <= linesize) {
 			line += start_str;
@@ -97,16 +105,16 @@ std::string models::Scheduling::asASCIINewNew (int line_size) const{
 		if (!pedstarts.empty()){
 			prev = pedstarts[0]-1;
 			for (TIME_UNIT i: pedstarts) {
-				std::string add_space(i-prev-1, ' ');
+				std::string add_space = repeat(i-prev-1, ' ', line_size);
 				period_str += add_space;
-				std::string exec(phases[exec_idx % phase_count]-1, '#');
+				std::string exec = repeat(phases[exec_idx % phase_count]-1, '#', line_size);
 				period_str += '@';
 				period_str += exec;
 				prev = i+exec.size();
 				++exec_idx ;
 			}
 			// add trailing spaces after period starts (before next period)
-			std::string trailing_space((period+pedstarts[0])-prev-1, ' ');
+			std::string trailing_space = repeat((period+pedstarts[0])-prev-1, ' ', line_size);
 			period_str += trailing_space;
 			// need to complete the period for all phases (by looking ahead)
 			if(phase_count > pedstarts.size()){
@@ -114,14 +122,14 @@ std::string models::Scheduling::asASCIINewNew (int line_size) const{
 				int phase_idx = 0;
 				while (exec_idx % phase_count != 0){
 					TIME_UNIT i = pedstarts[phase_idx % pedstarts.size()];
-					std::string exec(phases[exec_idx % phase_count]-1, '#');
+					std::string exec = repeat(phases[exec_idx % phase_count]-1, '#', line_size);
 					period_str += '@';
 					period_str += exec;
 					if (i == pedstarts.back()){
-						std::string trailing_space((period+pedstarts[0])-(i+exec.size())-1, ' ');
+						std::string trailing_space = repeat((period+pedstarts[0])-(i+exec.size())-1, ' ', line_size);
 						period_str += trailing_space;
 					} else {
-						std::string add_space(pedstarts[phase_idx % pedstarts.size()]-i, ' ');
+						std::string add_space = repeat(pedstarts[phase_idx % pedstarts.size()]-i, ' ', line_size);
 						period_str += add_space;
 					}
 					
-- 
2.43.0


From 1c57fc500facc16ce925af0aa440e1d42af6f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:27 +0000
Subject: [PATCH 06/39] fix: as-soon-as-possible schedules mix the transient
 with the periodic part

The executions before the state that recurs belong to the initial starts, and
a task that starts late must not have its lists shifted against the others.
---
 .../algorithms/throughput/symbolic_execution.cpp    | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 3bcfaeb..a0ba22f 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -594,7 +594,10 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   }}
 
   TIME_UNIT curr_step = 0;
-  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[state 0 starts], [state 1 ...]]}
+  std::map<ARRAY_INDEX, std::vector<std::vector<TIME_UNIT>>> starts; //{task idx : [[starts before state 0], [starts between state 0 and 1], ...]}
+  {ForEachTask(dataflow, t){ // every task has the same number of lists, whether it started already or not
+    starts[dataflow->getVertexId(t)].push_back({});
+  }}
   std::map<ARRAY_INDEX, std::vector<TIME_UNIT>> state_start = {};  //{task idx : [ starts]},
 
   // initialise actors
@@ -685,7 +688,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
                 static_task_schedule_t initials;
                 periodic_task_schedule_t periodics;
                 for(std::size_t i = 0; i < starts[dataflow->getVertexId(task)].size(); ++i){
-                  if (i < periodic_state_idx){ //initials
+                  if (i <= (std::size_t) periodic_state_idx){ //initials: the repeated state ends this list
                     initials.insert(initials.end(),starts[dataflow->getVertexId(task)][i].begin(),starts[dataflow->getVertexId(task)][i].end());
                     continue;
                   } 
@@ -704,11 +707,7 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
             }
 
           } else {
-            if (starts[dataflow->getVertexId(t)].size() == 0){
-              starts[dataflow->getVertexId(t)].push_back({curr_step}); //push into current state's task start list
-            } else {
-              starts[dataflow->getVertexId(t)].back().push_back(curr_step);
-            }
+            starts[dataflow->getVertexId(t)].back().push_back(curr_step); //push into current state's task start list
           }
         }
       }}
-- 
2.43.0


From 30897e7e8f45873c16a517444df9232d7d07e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:33 +0000
Subject: [PATCH 07/39] fix: LP based schedules announce wrong task periods for
 multi-phase actors

Ni counts the executions of all phases, and the start times are listed in
execution order as in every other schedule.
---
 .../scheduling/CSDF_KPeriodicScheduling_LP.cpp           | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 782591e..579ef8c 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -255,7 +255,8 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
         ARRAY_INDEX vid   = dataflow->getVertexId(t);
     	const EXEC_COUNT periodicity_factor = kvector.at(t);
 
-		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA / (TIME_UNIT) ( (TIME_UNIT) dataflow->getNi(t) / (TIME_UNIT) periodicity_factor );
+		// Ni counts phase executions: the period covers periodicity_factor executions of every phase
+		res_schedule[dataflow->getVertexId(t)].periodic_starts.first = OMEGA * (TIME_UNIT) (dataflow->getPhasesQuantity(t) * periodicity_factor) / (TIME_UNIT) dataflow->getNi(t);
 
 		// Collect init starting times
 		for(EXEC_COUNT a = 1; a <= dataflow->getInitPhasesQuantity(t) ; a++) {
@@ -264,9 +265,9 @@ models::Scheduling collect_lp_results (const commons::GLPSol &g, const models::D
 			res_schedule[vid].periodic_starts.second.push_back(starting_time);
 		}
 
-		// Collect periodic starting times
-		for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
-			for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+		// Collect periodic starting times, in execution order
+		for(EXEC_COUNT k = 1; k <= periodicity_factor ; k++) {
+			for(EXEC_COUNT a = 1; a <= dataflow->getPhasesQuantity(t) ; a++) {
 				auto starting_time_col_str = START_COL_STR(vname,a,k);
 				auto starting_time = g.getValue(starting_time_col_str);
 				res_schedule[vid].periodic_starts.second.push_back(starting_time);
-- 
2.43.0


From f8b252af655737ce70aa1736e8708a7c545202c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:04 +0000
Subject: [PATCH 08/39] fix: SDF3 files keep only six digits of fractional
 execution times

---
 src/libkiter/printers/SDF3Wrapper.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..1883363 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -20,6 +20,7 @@
 #include <iostream>
 #include <cstring>
 #include <fstream>
+#include <limits>
 
 using std::vector;
 
@@ -38,6 +39,21 @@ std::string vectorAsStr(const std::vector<T>& t)
 		}
 		return s.str();
 }
+
+// shortest decimal text that reads back as the very same value
+std::string timeAsStr(const TIME_UNIT v)
+{
+	std::string text;
+	for (int precision = 6 ; precision <= std::numeric_limits<TIME_UNIT>::max_digits10 ; precision++) {
+		std::ostringstream s;
+		s.precision(precision);
+		s << v;
+		text = s.str();
+		if (commons::fromString<TIME_UNIT>(text) == v) break;
+	}
+	return text;
+}
+
 template<>
 std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 {
@@ -50,7 +66,7 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				s << timeAsStr(v);
 			}
 		}
 		return s.str();
-- 
2.43.0


From 83c63b44fde9cc388523861e4592b7f4bbee38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:04 +0000
Subject: [PATCH 09/39] fix: reading an SDF3 file with an empty attribute
 crashes

---
 src/libkiter/printers/SDF3Wrapper.cpp | 70 +++++++++++++++------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 1883363..d9bb7ac 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -27,6 +27,12 @@ using std::vector;
 #define TXT_XML_ERROR "TXT_XML_ERROR"
 static const char INIT_PERIODIC_SEPARATOR = ';';
 
+// an empty attribute (name="") has no content node
+static const char* attrValue(const xmlAttrPtr attr)
+{
+	return attr->children ? (const char*)attr->children->content : "";
+}
+
 template<typename T>
 std::string vectorAsStr(const std::vector<T>& t)
 {
@@ -157,7 +163,7 @@ void readSDF3VertexPorts (models::Dataflow *to,xmlNodePtr taskNode) {
 	// get Vertex name
 	for (xmlAttrPtr cur_attr = taskNode->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
-			taskName = (const char*)cur_attr->children->content ;
+			taskName = attrValue(cur_attr) ;
 		}
 	}
 
@@ -174,9 +180,9 @@ void readSDF3VertexPorts (models::Dataflow *to,xmlNodePtr taskNode) {
 				std::string type,rate,name = "";
 
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
-					if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-					if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-					if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+					if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attrValue(cur_attr);}
+					if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attrValue(cur_attr);}
+					if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attrValue(cur_attr);}
 				}
 
 				if (type == "in") {
@@ -218,7 +224,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 	// get Vertex name
 	for (xmlAttrPtr cur_attr = taskNode->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"actor") == 0) {
-			taskName = (const char*)cur_attr->children->content ;
+			taskName = attrValue(cur_attr) ;
 			break;
 		}
 	}
@@ -237,7 +243,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 				// // Get cluster
 				// for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 				// if (strcmp((const char*)cur_attr->name,"type") == 0) {
-				//         std::string cluster_string = (const char*)cur_attr->children->content ;
+				//         std::string cluster_string = attrValue(cur_attr) ;
 				//         if (cluster_string.find('_') != cluster_string.npos) {
 				//             int cluster_id = commons::fromString<int>(cluster_string.substr(cluster_string.find('_')+1,cluster_string.size() - cluster_string.find('_') - 1));
 				//             to->setVertexCuster(pVertex,models::Cluster(cluster_id));
@@ -251,7 +257,7 @@ void readSDF3VertexTimings (models::Dataflow *to,xmlNodePtr taskNode) {
 						if (strcmp((const char*)cur_node2->name,"executionTime") == 0) {
 							for (xmlAttrPtr cur_attr = cur_node2->properties; cur_attr; cur_attr = cur_attr->next) {
 								if (strcmp((const char*)cur_attr->name,"time") == 0) {
-									timings = (const char*)cur_attr->children->content ;
+									timings = attrValue(cur_attr) ;
 									break;
 								}
 							}
@@ -309,23 +315,23 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 
 	for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"srcActor") == 0) {
-			sourceName = (const char*)cur_attr->children->content;
+			sourceName = attrValue(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"dstActor") == 0) {
-			targetName = (const char*)cur_attr->children->content;
+			targetName = attrValue(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"srcPort") == 0) {
-			inPortName = (const char*)cur_attr->children->content;
+			inPortName = attrValue(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"dstPort") == 0) {
-			outPortName = (const char*)cur_attr->children->content;
+			outPortName = attrValue(cur_attr);
 			continue;
 		}
 		if (strcmp((const char*)cur_attr->name,"initialTokens") == 0) {
-			preload = (const char*)cur_attr->children->content;
+			preload = attrValue(cur_attr);
 			continue;
 		}
 
@@ -350,7 +356,7 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 			if (strcmp((const char*)cur_node->name,"actor") == 0) {
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
-						if (strcmp((const char*)cur_attr->children->content,sourceName.c_str()) == 0) {
+						if (strcmp(attrValue(cur_attr),sourceName.c_str()) == 0) {
 							// acteur source
 							for (xmlNodePtr port_node = cur_node->children; port_node; port_node = port_node->next) {
 								if (port_node->type == XML_ELEMENT_NODE) {
@@ -359,9 +365,9 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 										std::string type,rate,name = "";
 
 										for (xmlAttrPtr cur_attr = port_node->properties; cur_attr; cur_attr = cur_attr->next) {
-											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attrValue(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attrValue(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attrValue(cur_attr);}
 										}
 										if ((type == "out") && (name == inPortName)) {
 											//check rate all 1
@@ -377,7 +383,7 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 							}
 
 						}
-						if (strcmp((const char*)cur_attr->children->content,targetName.c_str()) == 0) {
+						if (strcmp(attrValue(cur_attr),targetName.c_str()) == 0) {
 							// acteur target
 							for (xmlNodePtr port_node = cur_node->children; port_node; port_node = port_node->next) {
 								if (port_node->type == XML_ELEMENT_NODE) {
@@ -386,9 +392,9 @@ bool checkReentrancy( xmlNodePtr csdf, xmlNodePtr cur_node) {
 										std::string type,rate,name = "";
 
 										for (xmlAttrPtr cur_attr = port_node->properties; cur_attr; cur_attr = cur_attr->next) {
-											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = (const char*)cur_attr->children->content;}
-											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = (const char*)cur_attr->children->content;}
+											if (strcmp((const char*)cur_attr->name,"type") == 0) { type = attrValue(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"name") == 0) { name = attrValue(cur_attr);}
+											if (strcmp((const char*)cur_attr->name,"rate") == 0) { rate = attrValue(cur_attr);}
 										}
 										if ((type == "in") && (name == outPortName)) {
 											if (!onlyOneRate(rate)) {
@@ -470,7 +476,7 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 	for (xmlAttrPtr cur_attr = AG->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
 
-			to->setAppName((const char*)cur_attr->children->content);
+			to->setAppName(attrValue(cur_attr));
 		}
 	}
 
@@ -495,10 +501,10 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 
 	for (xmlAttrPtr cur_attr = csdf->properties; cur_attr; cur_attr = cur_attr->next) {
 		if (strcmp((const char*)cur_attr->name,"name") == 0) {
-			to->setGraphName((const char*)cur_attr->children->content);
+			to->setGraphName(attrValue(cur_attr));
 		}
 		if (strcmp((const char*)cur_attr->name,"type") == 0) {
-			to->setGraphType((const char*)cur_attr->children->content);
+			to->setGraphType(attrValue(cur_attr));
 		}
 	}
 
@@ -519,11 +525,11 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
 
-						to->setVertexName(newVertex,(const char*)cur_attr->children->content);
+						to->setVertexName(newVertex,attrValue(cur_attr));
 					}
 					if (strcmp((const char*)cur_attr->name,"type") == 0) {
 
-						to->setVertexType(newVertex,(const char*)cur_attr->children->content);
+						to->setVertexType(newVertex,attrValue(cur_attr));
 					}
 				}
 			}
@@ -545,26 +551,26 @@ models::Dataflow* wrapSDF3Dataflow (xmlDocPtr doc) {
 				preload = "0";
 				for (xmlAttrPtr cur_attr = cur_node->properties; cur_attr; cur_attr = cur_attr->next) {
 					if (strcmp((const char*)cur_attr->name,"name") == 0) {
-						bufferName = (const char*)cur_attr->children->content;
+						bufferName = attrValue(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"srcActor") == 0) {
-						sourceName = (const char*)cur_attr->children->content;
+						sourceName = attrValue(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"dstActor") == 0) {
-						targetName = (const char*)cur_attr->children->content;
+						targetName = attrValue(cur_attr);
 					}
 
 					if (strcmp((const char*)cur_attr->name,"srcPort") == 0) {
-						inPortName = (const char*)cur_attr->children->content;
+						inPortName = attrValue(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"dstPort") == 0) {
-						outPortName = (const char*)cur_attr->children->content;
+						outPortName = attrValue(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"initialTokens") == 0) {
-						preload = (const char*)cur_attr->children->content;
+						preload = attrValue(cur_attr);
 					}
 					if (strcmp((const char*)cur_attr->name,"size") == 0) {
-						tokenSize = (const char*)cur_attr->children->content;
+						tokenSize = attrValue(cur_attr);
 					}
 				}
 
-- 
2.43.0


From c4d702730405a7dda2b776ee6b2a6b0890ae194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:50 +0000
Subject: [PATCH 10/39] fix: rate gcd of a channel survives edits of its rates

---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..effab5d 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; channelGCDA.clear(); }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From 408d025b6bfbb29169aafa90757bd86bd36bdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:50 +0000
Subject: [PATCH 11/39] fix: set of feasible storage distributions keeps
 dominated members

addToSat looked for members below the new one (already handled by the early
return) instead of members above it, so non-minimal distributions stayed.
---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..5cd0013 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -1060,7 +1060,7 @@ void StorageDistributionSet::addToSat(StorageDistribution sd) {
     for (auto &storage_dist : dist_sz.second) {
       if (sd.inForConeOf(storage_dist)) {
         return;
-      } else if (storage_dist.inBackConeOf(sd)) {
+      } else if (storage_dist.inForConeOf(sd)) {
         subsumed.addStorageDistribution(storage_dist);
       }
     }
-- 
2.43.0


From 3ad4248b720ef6f38e11c146d2304883fa090350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 12/39] fix: minimum channel size of multi-phase channels is
 over-estimated

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp | 52 +++++++++----------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index 5cd0013..c4bd5e9 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -857,34 +857,32 @@ void findMinimumChannelSz(models::Dataflow *dataflow,
   {ForEachEdge(dataflow, c) {
       // initialise channel size to maximum int size
       minChannelSizes[c].first = dataflow->getPreload(c); // set initial tokens according to dataflow graph TODO look into why I didn't originally do this
-      minChannelSizes[c].second = INT_MAX; // NOTE (should use ULONG_MAX but it's a really large value)
-      TOKEN_UNIT ratePeriod = (TOKEN_UNIT) std::gcd(dataflow->getEdgeInPhasesCount(c),
-                                                            dataflow->getEdgeOutPhasesCount(c));
-
-      for (TOKEN_UNIT i = 0; i < ratePeriod; i++) {
-        // might want to change variables to p, c, and t for legibility
-        TOKEN_UNIT tokensProduced = dataflow->getEdgeInVector(c)[i % dataflow->getEdgeInPhasesCount(c)];
-        TOKEN_UNIT tokensConsumed = dataflow->getEdgeOutVector(c)[i % dataflow->getEdgeOutPhasesCount(c)];
-        TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
-        VERBOSE_DSE("p, c, t: " << tokensProduced << ", "
-                    << tokensConsumed << ", " << tokensInitial << std::endl);
-        TOKEN_UNIT lowerBound;
-
-        if (std::gcd(tokensProduced, tokensConsumed)) {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed) +
-            tokensInitial % std::gcd(tokensProduced, tokensConsumed);
-        } else {
-          lowerBound = tokensProduced + tokensConsumed -
-            std::gcd(tokensProduced, tokensConsumed);
-        }
-        lowerBound = (lowerBound > tokensInitial ? lowerBound : tokensInitial);
-
-        // take the lowest bound amongst phases of prod/cons
-        if (lowerBound < minChannelSizes[c].second) {
-          minChannelSizes[c].second = lowerBound;
-        }
+      TOKEN_UNIT tokensInitial = dataflow->getPreload(c);
+      TOKEN_UNIT maxProduced = 0;
+      TOKEN_UNIT maxConsumed = 0;
+      TOKEN_UNIT stepSz = 0; // the amount of data in the channel only changes by multiples of this
+
+      for (EXEC_COUNT i = 0; i < dataflow->getEdgeInPhasesCount(c); i++) {
+        maxProduced = std::max(maxProduced, dataflow->getEdgeInVector(c)[i]);
+        stepSz = std::gcd(stepSz, dataflow->getEdgeInVector(c)[i]);
+      }
+      for (EXEC_COUNT i = 0; i < dataflow->getEdgeOutPhasesCount(c); i++) {
+        maxConsumed = std::max(maxConsumed, dataflow->getEdgeOutVector(c)[i]);
+        stepSz = std::gcd(stepSz, dataflow->getEdgeOutVector(c)[i]);
+      }
+      VERBOSE_DSE("p, c, t: " << maxProduced << ", "
+                  << maxConsumed << ", " << tokensInitial << std::endl);
+      TOKEN_UNIT lowerBound;
+
+      if (dataflow->getEdgeInPhasesCount(c) == 1 && dataflow->getEdgeOutPhasesCount(c) == 1) {
+        lowerBound = maxProduced + maxConsumed - stepSz;
+      } else { // with several phases, only the largest transfer is known to be necessary
+        lowerBound = std::max(maxProduced, maxConsumed);
+      }
+      if (stepSz) {
+        lowerBound += tokensInitial % stepSz;
       }
+      minChannelSizes[c].second = std::max(lowerBound, tokensInitial);
       VERBOSE_DSE("Minimum channel size for " << dataflow->getEdgeName(c)
                   << ": " << minChannelSizes[c].second << std::endl);
     }}
-- 
2.43.0


From 481793d6056ffa2e737f2013990fba8d800273bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:11 +0000
Subject: [PATCH 13/39] fix: cycle counting reports the cycles of previous
 queries again

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..7de7460 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -49,6 +49,7 @@ void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameter
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
+  simple_cycles.clear(); // forget the cycles of a previous query
   while (start_id <= dataflow->getVerticesCount()) {
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
-- 
2.43.0


From 79a7dfee4750c3968b1cb7662e83fd0124a835b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:25 +0000
Subject: [PATCH 14/39] fix: cycle counting misses self-loops and depends on
 actor identifiers

---
 .../algorithms/analysis/cycle_detection.cpp   | 43 ++++++-------------
 .../algorithms/analysis/cycle_detection.h     |  2 -
 2 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index 7de7460..7541d45 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -46,26 +46,24 @@ void algorithms::cycle_detection       (models::Dataflow* const  dataflow, param
 }
 
 void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t) {
-  ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
   simple_cycles.clear(); // forget the cycles of a previous query
-  while (start_id <= dataflow->getVerticesCount()) {
+  std::set<ARRAY_INDEX> vertex_ids;
+  {ForEachVertex(dataflow, v) {
+      vertex_ids.insert(dataflow->getVertexId(v));
+    }}
+  // each cycle is found from its smallest vertex ID, including those of components made of a single vertex
+  for (ARRAY_INDEX start_id : vertex_ids) {
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
-    // find the SCC that contains the vertex with the smallest ID
-    ARRAY_INDEX min_id = find_smallest_index(subgraph, scc_map);
-    if (min_id != INT_MAX) {
-      models::Dataflow* scc = generate_scc(subgraph, scc_map, min_id);
-      VERBOSE_DEBUG("smallest vertex ID amongst SCCs: " << min_id << std::endl);
-      VERBOSE_DEBUG(print_status(scc) << std::endl);
-      blocked_set.clear();
-      blocked_map.clear();
-      find_simple_cycles_scc(scc, min_id, min_id);
-      start_id = min_id + 1;
-    } else {
-      break;
-    }
+    models::Dataflow* scc = generate_scc(subgraph, scc_map, start_id);
+    VERBOSE_DEBUG(print_status(scc) << std::endl);
+    blocked_set.clear();
+    blocked_map.clear();
+    find_simple_cycles_scc(scc, start_id, start_id);
+    delete scc;
+    delete subgraph;
   }
   // print detected cycles
   std::cout << "Cycles detected:" << std::endl;
@@ -84,21 +82,6 @@ void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameter
   std::cout << "Total number of cycles: " << simple_cycles.size() << std::endl;
 }
 
-// iterate through SCC map, ignore SCC of size == 1, track minimum ID value
-ARRAY_INDEX algorithms::find_smallest_index(models::Dataflow* const dataflow,
-                                            std::map<int, std::vector<ARRAY_INDEX>> scc_map) {
-  ARRAY_INDEX min_id = INT_MAX; // NOTE should be LDBL_MAX but i can't seem to get it to work
-  for (auto const& component : scc_map) {
-    if (component.second.size() > 1) {
-      if (*std::min_element(component.second.begin(), component.second.end()) < min_id) {
-        min_id = *std::min_element(component.second.begin(), component.second.end());
-      }
-    }
-  }
-
-  return min_id;
-}
-
 // generate SCC that contains start_id
 models::Dataflow* algorithms::generate_scc(models::Dataflow* const dataflow,
                                            std::map<int, std::vector<ARRAY_INDEX>> scc_map,
diff --git a/src/libkiter/algorithms/analysis/cycle_detection.h b/src/libkiter/algorithms/analysis/cycle_detection.h
index e2af491..8a838ab 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.h
+++ b/src/libkiter/algorithms/analysis/cycle_detection.h
@@ -22,8 +22,6 @@ bool has_selfloops         (models::Dataflow* const  dataflow);
 bool has_cycles            (models::Dataflow* const  dataflow);
 void cycle_detection       (models::Dataflow* const  dataflow, parameters_list_t);
   void find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t);
-  ARRAY_INDEX find_smallest_index(models::Dataflow* const dataflow,
-                                  std::map<int, std::vector<ARRAY_INDEX>> scc_map);
   models::Dataflow* generate_scc(models::Dataflow* const dataflow,
                                  std::map<int, std::vector<ARRAY_INDEX>> scc_map,
                                  ARRAY_INDEX start_id);
-- 
2.43.0


From c97a112d7370376bdd4c1a233880e2132aa97f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 15/39] fix: extended_euclide returns the opposite solution for
 some negative operands

---
 src/libkiter/commons/commons.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index f5e88ec..2cab380 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -557,7 +557,8 @@ std::pair<entier,entier> extended_euclide (entier _a, entier _b, entier _c) {
     VERBOSE_INFO ( "greatest common divisor:" <<  r.first);
     VERBOSE_INFO ( "quotients by the gcd:" <<  t.second<< "," <<   s.second);
 
-    return std::pair<entier,entier>  ( (c * s.first), (c * t.first));
+    // with negative operands the computed divisor is -1
+    return std::pair<entier,entier>  ( (c * r.first * s.first), (c * r.first * t.first));
 
 }
 
-- 
2.43.0


From 2b303af1523715e9ccfc884c9bbac07fef0201af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 16/39] fix: GroupList loses the value that links two existing
 groups

---
 src/libkiter/commons/GroupList.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/commons/GroupList.h b/src/libkiter/commons/GroupList.h
index 7d36335..4fb8bcf 100644
--- a/src/libkiter/commons/GroupList.h
+++ b/src/libkiter/commons/GroupList.h
@@ -54,9 +54,10 @@ public:
 
 			//We merge them
 			std::set<R>* nvec = _values[l];
-			for (auto v : *_values[r]) {
-				nvec->insert(v);
+			for (auto ov : *_values[r]) {
+				nvec->insert(ov);
 			}
+			nvec->insert(v);
 
 			_bags.erase(_values[r]);
 			delete _values[r];
-- 
2.43.0


From c159b4c42a0f3f551a7724d3448c01df046c4cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:24 +0000
Subject: [PATCH 17/39] fix: moduloMapping allocates tasks to routers instead
 of cores

---
 src/libkiter/algorithms/mapping/moduloMapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/moduloMapping.cpp b/src/libkiter/algorithms/mapping/moduloMapping.cpp
index 4809eef..b47d654 100644
--- a/src/libkiter/algorithms/mapping/moduloMapping.cpp
+++ b/src/libkiter/algorithms/mapping/moduloMapping.cpp
@@ -18,7 +18,7 @@ void algorithms::mapping::moduloMapping (models::Dataflow* const  dataflow, para
 		if (params.find(dataflow->getVertexName(t)) != params.end()) {
 			dataflow->setMapping(t, commons::fromString<node_id_t> (params[dataflow->getVertexName(t)]));
 		} else {
-			node_id_t modulo_id = (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
+			node_id_t modulo_id = dataflow->getNoC().size() + (dataflow->getVertexId(t) - 1) % dataflow->getNoC().size();
 			dataflow->setMapping(t, modulo_id);
 		}
 	}
-- 
2.43.0


From 9ec19429227768b1904e09da0d56ef19ccf279d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:38 +0000
Subject: [PATCH 18/39] fix: bufferless mapping indexes its tables by
 identifier one element past their end

---
 .../algorithms/mapping/BufferlessNoCMapAndRoute.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
index c1c6923..ecbaeff 100644
--- a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
+++ b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
@@ -54,7 +54,7 @@ static std::vector<ARRAY_INDEX> generate_task_order (const models::Dataflow* con
 	VERBOSE_ASSERT(from->has_repetition_vector(),"The graph needs to have a repetition vector.");
 	// Store task to execute by number of execution.
 	EXEC_COUNT total = 0 ;
-	std::vector < EXEC_COUNT >  remained_execution (from->getMaxVertexId());
+	std::vector < EXEC_COUNT >  remained_execution (from->getMaxVertexId() + 1);
 	{ForEachVertex(from,t) {
 		EXEC_COUNT Ni =  from->getNi(t) ;
 		remained_execution[from->getVertexId(t)] = Ni ;
@@ -62,7 +62,7 @@ static std::vector<ARRAY_INDEX> generate_task_order (const models::Dataflow* con
 	}}
 
 	// Store buffer content.
-	std::vector < EXEC_COUNT >  buffer_content (from->getMaxEdgeId());
+	std::vector < EXEC_COUNT >  buffer_content (from->getMaxEdgeId() + 1);
 	{ForEachChannel(from,c) {
 		buffer_content[from->getEdgeId(c)] = from->getPreload(c);
 	}}
@@ -143,7 +143,7 @@ void DFSUtil_PgmOrder (Vertex v, std::vector<bool>& visited, models::Dataflow* t
 
 //Remove the cyclic edges
 static Vertex removeCycleEdges (models::Dataflow* to, const std::vector<ARRAY_INDEX>& prog_order, const std::vector< std::vector<unsigned int> > &cyclen_per_vtxid) {
-	ARRAY_INDEX origV = to->getVerticesCount();
+	ARRAY_INDEX origV = to->getMaxVertexId() + 1;
 	std::vector<bool> visited(origV, false);
 	std::vector<ARRAY_INDEX> removeEdgeId;
 	std::vector<ARRAY_INDEX> vertexId;
-- 
2.43.0


From 7941880b2d2b2489a199523f51038edb0958f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 19/39] fix: a circuit without tokens makes the maximum cycle
 ratio infinite

---
 src/libkiter/commons/howard_cycle_ratio.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/commons/howard_cycle_ratio.hpp b/src/libkiter/commons/howard_cycle_ratio.hpp
index ae51c7a..57cc692 100644
--- a/src/libkiter/commons/howard_cycle_ratio.hpp
+++ b/src/libkiter/commons/howard_cycle_ratio.hpp
@@ -351,11 +351,13 @@ namespace boost {
             v = target(m_policy[v], m_g);
           }
         while (v != sv);
-        if (sums_.second <= 0 && sums_.first >= 0) {
+        bool is_max = cmp_props_t::multiplier < 0;
+        if (sums_.second <= 0 && (sums_.first == 0 || (sums_.first > 0 && !is_max))) {
         	VERBOSE_HOWARD("  a circuit that takes no time never bounds the ratio");
         	return m_bound;
         }
-        float_t cr = sums_.first / sums_.second;
+        // when maximizing, such a circuit makes the ratio infinite
+        float_t cr = (is_max && sums_.second <= 0 && sums_.first > 0) ? -FloatTraits::infinity() : sums_.first / sums_.second;
 
     	VERBOSE_HOWARD("  Compare m_cr and cr " << m_cr << "->" << cr);
         if ( m_cmp(m_cr, cr) )
-- 
2.43.0


From 316d531f8856cb4123edd9332b2e3aebe464cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 20/39] fix: expansion based throughput of an unconstrained
 graph is infinite, not zero

---
 src/libkiter/algorithms/throughput/degroote.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/degroote.cpp b/src/libkiter/algorithms/throughput/degroote.cpp
index e563bf9..091d3ec 100644
--- a/src/libkiter/algorithms/throughput/degroote.cpp
+++ b/src/libkiter/algorithms/throughput/degroote.cpp
@@ -150,6 +150,11 @@ void algorithms::clean_LCG (models::EventGraph* lcg) {
 	lcg->FullConnectionned();
 }
 
+// A graph without any circuit that takes time has no maximum cycle ratio, nothing limits its throughput.
+static TIME_UNIT cycle_ratio_to_throughput (TIME_UNIT ratio) {
+	return (ratio > 0) ? 1 / ratio : std::numeric_limits<TIME_UNIT>::infinity();
+}
+
 void algorithms::compute_deGrooteClean_throughput (models::Dataflow* const  dataflow, parameters_list_t) {
 
 	models::EventGraph* eg = generate_LCG(dataflow);
@@ -160,9 +165,9 @@ void algorithms::compute_deGrooteClean_throughput (models::Dataflow* const  data
 
 	if (VERBOSE_IS_DEBUG()) {
 		std::cout << (eg->printDOT());
-		VERBOSE_INFO( "Maximum throughput is " << 1 / result.first  );
+		VERBOSE_INFO( "Maximum throughput is " << cycle_ratio_to_throughput(result.first)  );
 	} else {
-		std::cout << "Maximum throughput is " << 1 / result.first   << std::endl;
+		std::cout << "Maximum throughput is " << cycle_ratio_to_throughput(result.first)   << std::endl;
 	}
 }
 
@@ -176,8 +181,8 @@ void algorithms::compute_deGroote_throughput (models::Dataflow* const dataflow,
 
     	if (VERBOSE_IS_DEBUG()) {
     		std::cout << (eg->printDOT());
-    		VERBOSE_INFO( "Maximum throughput is " << 1 / result.first  );
+    		VERBOSE_INFO( "Maximum throughput is " << cycle_ratio_to_throughput(result.first)  );
     	} else {
-    		std::cout << "Maximum throughput is " << 1 / result.first   << std::endl;
+    		std::cout << "Maximum throughput is " << cycle_ratio_to_throughput(result.first)   << std::endl;
     	}
     }
-- 
2.43.0


From bd30d96e997e3dde15e2277adb51863857704313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 21/39] fix: partial expansion pairs executions with the wrong
 sign of their offset

---
 src/libkiter/algorithms/experiments/ExpansionGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
index 7a5246f..fb0b44e 100644
--- a/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
+++ b/src/libkiter/algorithms/experiments/ExpansionGraph.cpp
@@ -226,7 +226,7 @@ void ExpansionGraph::generate_E3_Edges(models::Dataflow * const dataflow , const
 
 			TOKEN_UNIT x = ai;
 			TOKEN_UNIT y = aj;
-			double shift = ((double) ( Tx * x - Ty * y ) /  (double) gcdk);
+			double shift = ((double) ( Ty * y - Tx * x ) /  (double) gcdk);
 
 			double fxy =  (double) f0 +  (double) shift;
 			double gxy =  (double) g0 +  (double) shift;
-- 
2.43.0


From 7b1188d19bddc1c373453fcf5aaed3e9f8403d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:51 +0000
Subject: [PATCH 22/39] fix: periodic sizing commands can default to the
 smallest period

---
 src/libkiter/algorithms/buffersizing/periodic.cpp       | 2 +-
 src/libkiter/algorithms/buffersizing/periodic_fixed.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 853fcbb..01c389f 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -34,11 +34,11 @@ void algorithms::compute_csdf_1periodic_memory   (models::Dataflow* const  dataf
 	  	TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
 	  	if (MIN_PERIOD) {
-	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
 	  	   	if (period == 0) {
 	  	   	period = MIN_PERIOD;
 	  	   		VERBOSE_WARNING("PERIOD set to " << period);
 	  	   	}
+	  	   	VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
 	  	} else {
 	  		VERBOSE_ERROR ("Cannot compute the maximum period...");
 	  	}
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 0e757bb..7fe0b0f 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -87,11 +87,11 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         TIME_UNIT MIN_PERIOD = 1 / result.throughput;
 
         if (MIN_PERIOD) {
-            VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
             if (period == 0) {
             period = MIN_PERIOD;
                 VERBOSE_WARNING("PERIOD set to " << period);
             }
+            VERBOSE_ASSERT (MIN_PERIOD <= period, "The period must be possible");
         } else {
             VERBOSE_ERROR ("Cannot compute the maximum period...");
         }
-- 
2.43.0


From fb21946e7075f9242af310845dda7f078f067255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:51 +0000
Subject: [PATCH 23/39] fix: an infeasible period yields no buffer sizes
 instead of a valid total of 0

---
 src/libkiter/algorithms/buffersizing/periodic.cpp       | 4 ++--
 src/libkiter/algorithms/buffersizing/periodic_fixed.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 01c389f..4cf7e15 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -284,7 +284,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 	// bool sol = g.solve(ilp_params);
 	if (gen_only)  {
 		g.writeMPSProblem();
-		return BufferSizingResult(false);
+		return BufferSizingResult();
 	}
 	bool sol = g.solveWith();
 
@@ -388,7 +388,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 		return total_buffer_size;
 	} else {
 		VERBOSE_ERROR("No feasible solution");
-		return 0;
+		return BufferSizingResult();
 	}
 
 
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 7fe0b0f..2348174 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -944,7 +944,7 @@ bool algorithms::generateMinMaxOffsets(models::Dataflow * dataflow, TIME_UNIT OM
 
        if (gen_only)  {
        	g.writeMPSProblem();
-       	return 0;
+       	return BufferSizingResult();
        }
 
 
-- 
2.43.0


From f21e067f1b6fc18b8f922732b0b03c5c3a45d210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:18 +0000
Subject: [PATCH 24/39] fix: back-pressure sizing accounts for initial tokens

---
 src/libkiter/algorithms/buffersizing/backpressure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/backpressure.cpp b/src/libkiter/algorithms/buffersizing/backpressure.cpp
index 825cefe..0708e01 100644
--- a/src/libkiter/algorithms/buffersizing/backpressure.cpp
+++ b/src/libkiter/algorithms/buffersizing/backpressure.cpp
@@ -242,7 +242,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 	{ForEachEdge(dataflow,e) {
 		const TOKEN_UNIT usable_tokens = commons::floor(dataflow->getPreload(e),dataflow->getFineGCD(e));
 		VERBOSE_DEBUG("Preload = " << usable_tokens);
-		beta_ij[e] = commons::division(   beta_cons[e] - beta_prod[e]     , alpha[e] ) - usable_tokens;
+		beta_ij[e] = commons::division(   beta_cons[e] - beta_prod[e] - usable_tokens     , alpha[e] );
 		VERBOSE_DEBUG(dataflow->getEdgeName(e) << " : Beta_ij = " <<  beta_ij[e]);
 
 
@@ -366,7 +366,7 @@ void algorithms::compute_backpressure_memory_sizing (models::Dataflow* const  da
 
 		const TIME_UNIT bsize_beta =   - (beta_f_prod - beta_f_cons);
 		const TOKEN_UNIT bsize = commons::ceil(bsize_beta,dataflow->computeFineGCD(e));
-		total_buffer_size += bsize;
+		total_buffer_size += bsize + dataflow->getPreload(e);
 
         VERBOSE_INFO(dataflow->getEdgeName(e) << " :" << bsize_beta << " => " << bsize );
 		VERBOSE_DEBUG(dataflow->getEdgeName(e) << " : " << std::setw(10) << beta_f_cons << "   -   "  << std::setw(10)<< beta_f_prod<<"   =   "  << std::setw(10)<< bsize_beta << " ceiled by "<< dataflow->computeFineGCD(e) << " ==> "  << std::setw(10)<< bsize );
-- 
2.43.0


From 2791333c5e8162b6728fd2e0052b5621aa79d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:32 +0000
Subject: [PATCH 25/39] fix: periodic analyses report a negative throughput
 when no schedule exists

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling.cpp      | 6 +++---
 .../algorithms/scheduling/CSDF_SPeriodicScheduling.cpp      | 2 +-
 .../algorithms/throughput/csdf_strictly_periodic.cpp        | 4 ++--
 src/libkiter/algorithms/throughput/kperiodic.cpp            | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
index 7a5dad4..070507c 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling.cpp
@@ -57,7 +57,7 @@ models::Scheduling algorithms::scheduling::CSDF_1PeriodicScheduling (const model
 
  	std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
 
- 	TIME_UNIT res = howard_res.first ;
+ 	TIME_UNIT res = std::max<TIME_UNIT>(howard_res.first, 0) ; // negative if no such schedule exists
  	std::vector<models::EventGraphEdge> critical_circuit = howard_res.second;
 
 
@@ -278,7 +278,7 @@ void algorithms::scheduling::CSDF_1PeriodicThroughput (models::Dataflow*  datafl
 
    //STEP 2 - resolve the MCRP on this Event Graph
    std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
-   TIME_UNIT omega = 1/howard_res.first;
+   TIME_UNIT omega = 1/std::max<TIME_UNIT>(howard_res.first, 0); // negative if no such schedule exists
 
    std::cout << "Maximum throughput is "  << std::setw( 11 ) << std::setprecision( 9 ) <<  1.0 / omega << std::endl;
    std::cout << "Maximum period     is " << std::fixed << std::setw( 11 ) << std::setprecision( 6 ) << omega   << std::endl;
@@ -316,7 +316,7 @@ void algorithms::scheduling::CSDF_NPeriodicThroughput (models::Dataflow*  datafl
 
    //STEP 2 - resolve the MCRP on this Event Graph
    std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
-   TIME_UNIT omega = 1/howard_res.first;
+   TIME_UNIT omega = 1/std::max<TIME_UNIT>(howard_res.first, 0); // negative if no such schedule exists
 
    std::cout << "Maximum throughput is "  << std::setw( 11 ) << std::setprecision( 9 ) <<  1.0 / omega << std::endl;
    std::cout << "Maximum period     is " << std::fixed << std::setw( 11 ) << std::setprecision( 6 ) << omega   << std::endl;
diff --git a/src/libkiter/algorithms/scheduling/CSDF_SPeriodicScheduling.cpp b/src/libkiter/algorithms/scheduling/CSDF_SPeriodicScheduling.cpp
index a2fba9b..03e47a6 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_SPeriodicScheduling.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_SPeriodicScheduling.cpp
@@ -26,7 +26,7 @@ models::Scheduling algorithms::scheduling::CSDF_SPeriodicScheduling (const model
 
 	std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
 
-	TIME_UNIT res = howard_res.first ;
+	TIME_UNIT res = std::max<TIME_UNIT>(howard_res.first, 0) ; // negative if no such schedule exists
 	std::vector<models::EventGraphEdge> critical_circuit = howard_res.second;
 
 	// Build critical_edges
diff --git a/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp b/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
index ff19a04..49cb387 100644
--- a/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
+++ b/src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp
@@ -141,7 +141,7 @@ void algorithms::compute_SPeriodic_throughput    (models::Dataflow*  dataflow, p
 	models::EventGraph* eg = algorithms::generate_csdf_strictly_periodic_event_graph(dataflow, false);
 	std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
 
-	TIME_UNIT res = howard_res.first ;
+	TIME_UNIT res = std::max<TIME_UNIT>(howard_res.first, 0) ; // negative if no such schedule exists
 
 	if (params.count("PRINTEG")) {
 		std::cout << eg->printXML() << std::endl;
@@ -164,7 +164,7 @@ void algorithms::compute_ASPeriodic_throughput    (models::Dataflow*  dataflow,
 	models::EventGraph* eg = algorithms::generate_csdf_strictly_periodic_event_graph(dataflow, true);
 	std::pair<TIME_UNIT,std::vector<models::EventGraphEdge> > howard_res = eg->MinCycleRatio();
 
-	TIME_UNIT res = howard_res.first ;
+	TIME_UNIT res = std::max<TIME_UNIT>(howard_res.first, 0) ; // negative if no such schedule exists
 
 	if (params.count("PRINTEG")) {
 		std::cout << eg->printXML() << std::endl;
diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 14c44f8..6c335bb 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -276,7 +276,7 @@ kperiodic_result_t algorithms::KSchedule(models::Dataflow* const dataflow, const
 		}
 	}
 
-	TIME_UNIT frequency = howard_res.first;
+	TIME_UNIT frequency = std::max<TIME_UNIT>(howard_res.first, 0); // negative if no such schedule exists
 
 	// /* return the best omega found in sdf3 way */
 	VERBOSE_INFO("KSchedule function get " << frequency << " from MCRP." );
-- 
2.43.0


From 96ec8d4d871239a63b093e963b1698a59837ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:27 +0000
Subject: [PATCH 26/39] fix: normalisation fails on graphs with an actor
 without channels

---
 src/libkiter/algorithms/normalization.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/normalization.cpp b/src/libkiter/algorithms/normalization.cpp
index 62ba9aa..4c96555 100644
--- a/src/libkiter/algorithms/normalization.cpp
+++ b/src/libkiter/algorithms/normalization.cpp
@@ -430,7 +430,11 @@ std::map<Vertex,TOKEN_UNIT> * algorithms::rationalNormalize(models::Dataflow *fr
                     res->insert(std::pair<Vertex,TOKEN_UNIT>(target,Zj.numerator() / Zj.denominator()));
            }}
 
-           //fail with alone task
+           // a task without any channel moves no token, any weight suits it
+           {ForEachVertex(from,v) {
+                    res->insert(std::pair<Vertex,TOKEN_UNIT>(v,1));
+           }}
+
            VERBOSE_ASSERT_EQUALS(res->size() , from->getVerticesCount());
            return res;
 
-- 
2.43.0


From b99ce9b368271a307801ac9dcb7b6cd740f38b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:27 +0000
Subject: [PATCH 27/39] fix: a seed of the random generator yields different
 graphs from a run to another

---
 src/libkiter/algorithms/throughput/kperiodic.cpp | 16 ++++++++++------
 src/libkiter/generators/RandomGenerator.cpp      |  4 +++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 6c335bb..aa237a8 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -414,11 +414,15 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	}
 
 
+	// The circuit is a set ordered by address, follow the identifiers to always generate the same event graph
+	std::vector<Edge> circuit (cc->begin(), cc->end());
+	std::sort(circuit.begin(), circuit.end(), [dataflow](const Edge& a, const Edge& b) { return dataflow->getEdgeId(a) < dataflow->getEdgeId(b); });
+
 	VERBOSE_INFO("Update event graph - Step 1 - Delete edges and add task");
 	// STEP 1
 	//remove all connected edges
 	EXEC_COUNT current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end(); it++ ) {
+	for (std::vector<Edge>::iterator it = circuit.begin() ; it != circuit.end(); it++ ) {
 		current ++ ;
 
 		Vertex source = dataflow->getEdgeSource(*it);
@@ -446,7 +450,7 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 
 	current = 0;
 
-	for (critical_circuit_t::iterator it = cc->begin(); it != cc->end(); it++ ) {
+	for (std::vector<Edge>::iterator it = circuit.begin(); it != circuit.end(); it++ ) {
 
 		current ++ ;
 		Vertex t = dataflow->getEdgeSource(*it);
@@ -468,12 +472,12 @@ models::EventGraph* algorithms::updateEventGraph(const models::Dataflow * const
 	// add all edges
 
 	current = 0;
-	for (critical_circuit_t::iterator it = cc->begin() ; it != cc->end() ; it++) {
+	for (std::vector<Edge>::iterator it = circuit.begin() ; it != circuit.end() ; it++) {
 
 		current ++ ;
-		critical_circuit_t::iterator it_previous = it;
-		if (it == cc->begin())  {
-			it_previous = cc->end();
+		std::vector<Edge>::iterator it_previous = it;
+		if (it == circuit.begin())  {
+			it_previous = circuit.end();
 		}
 		it_previous--;
 		Edge current = *it;
diff --git a/src/libkiter/generators/RandomGenerator.cpp b/src/libkiter/generators/RandomGenerator.cpp
index 790602d..08b4c51 100644
--- a/src/libkiter/generators/RandomGenerator.cpp
+++ b/src/libkiter/generators/RandomGenerator.cpp
@@ -55,7 +55,9 @@ static bool set_initial_marking (models::Dataflow * dataflow) {
 		if (scheduling_result.getGraphThroughput() <= 0) {
 			critical_circuit_t critical_edges = scheduling_result.getCriticalEdges();
 			VERBOSE_ASSERT(critical_edges.size(), "Scheduling does not provide a valid result");
-			Edge e = *critical_edges.begin();
+			// The set is ordered by address, only the identifiers are the same from a run to another.
+			Edge e = *std::min_element(critical_edges.begin(), critical_edges.end(),
+					[dataflow](const Edge& a, const Edge& b) { return dataflow->getEdgeId(a) < dataflow->getEdgeId(b); });
 			TOKEN_UNIT current_size = dataflow->getPreload(e);
 			dataflow->reset_computation();
 			dataflow->setPreload(e, current_size + dataflow->getFineGCD(e)) ;
-- 
2.43.0


From 43dfe6a2b87c458df6e03695893049491bd44128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:27 +0000
Subject: [PATCH 28/39] fix: generated graphs with initial phases deadlock

---
 src/libkiter/generators/RandomGenerator.cpp | 35 +++++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/generators/RandomGenerator.cpp b/src/libkiter/generators/RandomGenerator.cpp
index 08b4c51..549f403 100644
--- a/src/libkiter/generators/RandomGenerator.cpp
+++ b/src/libkiter/generators/RandomGenerator.cpp
@@ -111,6 +111,11 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 
 		std::map<ARRAY_INDEX,TOKEN_UNIT> normalized_weights;
 
+		// Initial phases are only set once the marking of the periodic part is known (STEP 4)
+		std::map<ARRAY_INDEX,std::vector <TIME_UNIT>> init_durations;
+		std::map<ARRAY_INDEX,std::vector<TOKEN_UNIT>> init_productions;
+		std::map<ARRAY_INDEX,std::vector<TOKEN_UNIT>> init_consumptions;
+
 
 		for (ARRAY_INDEX i = 1 ; i <= vertices_count ; i++) {
 			VERBOSE_INFO("Autogen new task");
@@ -124,7 +129,6 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 			PHASE_INDEX init_phase_count = init_phase_distribution(generator) ;
 			PHASE_INDEX periodic_phase_count = phase_distribution(generator) ;
 
-			dataflow->setInitPhasesQuantity(nv, init_phase_count);
 			dataflow->setPhasesQuantity(nv, periodic_phase_count);
 
 			std::vector <TIME_UNIT> init_phase_duration (init_phase_count);
@@ -140,7 +144,7 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 			VERBOSE_INFO("   init_phase_duration = " << commons::toString(init_phase_duration) << "   periodic_phase_duration = " << commons::toString(periodic_phase_duration));
 
 			dataflow->setVertexDuration(nv,periodic_phase_duration);
-			dataflow->setVertexInitDuration(nv,init_phase_duration);
+			init_durations[i] = init_phase_duration;
 
 			normalized_weights[i] = weight_distribution(generator);
 
@@ -190,8 +194,8 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 
 			PHASE_INDEX periodic_in_phase_count = dataflow->getPhasesQuantity(source) ;
 			PHASE_INDEX periodic_out_phase_count = dataflow->getPhasesQuantity(target);
-			PHASE_INDEX init_in_phase_count = dataflow->getInitPhasesQuantity(source) ;
-			PHASE_INDEX init_out_phase_count = dataflow->getInitPhasesQuantity(target);
+			PHASE_INDEX init_in_phase_count = init_durations[src_id].size();
+			PHASE_INDEX init_out_phase_count = init_durations[dst_id].size();
 
 			for (PHASE_INDEX p = 1 ; p < periodic_in_phase_count ; p++) {
 				in_periodic_sections.push_back(in_periodic_sections_distribution(generator));
@@ -259,8 +263,8 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 			dataflow->setEdgeOutPhases(c,out_periodic_phases);
 
 
-			dataflow->setEdgeInInitPhases(c, in_init_phases);
-			dataflow->setEdgeOutInitPhases(c, out_init_phases);
+			init_productions[i]  = in_init_phases;
+			init_consumptions[i] = out_init_phases;
 
 
 			VERBOSE_INFO("Autogen edge_id=" << i << " nweight_in=" << nweight_in << " nweight_out=" << nweight_out);
@@ -286,6 +290,25 @@ models::Dataflow * RandomGenerator::generate (int seed) {
 
 		VERBOSE_ASSERT(set_initial_marking(dataflow), "Minimal initial computation failed.");
 
+		// STEP 4 - add the initial phases, the tokens they consume come on top of the marking of the periodic part
+
+		dataflow->reset_computation();
+
+		for (ARRAY_INDEX i = 1 ; i <= vertices_count ; i++) {
+			Vertex v = dataflow->getVertexById(i);
+			dataflow->setInitPhasesQuantity(v, init_durations[i].size());
+			dataflow->setVertexInitDuration(v, init_durations[i]);
+		}
+
+		for (ARRAY_INDEX i = 1 ; i <= edges_count ; i++) {
+			Edge c = dataflow->getEdgeById(i);
+			dataflow->setEdgeInInitPhases(c, init_productions[i]);
+			dataflow->setEdgeOutInitPhases(c, init_consumptions[i]);
+			dataflow->setPreload(c, std::accumulate(init_consumptions[i].begin(), init_consumptions[i].end(), dataflow->getPreload(c)));
+		}
+
+		VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
+
 
 		return dataflow;
 	}
-- 
2.43.0


From bf5fba99c9fdc6613ef9bedd6748bfb5031334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 29/39] fix: merging drops the token size of channels

---
 src/libkiter/algorithms/transformation/merging.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..8946d39 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -205,6 +205,7 @@ struct edge_infos {
 	std::vector<TOKEN_UNIT> out_ini_vector;
 
 	TOKEN_UNIT preload;
+	DATA_UNIT token_size;
 
 	EDGE_TYPE type;
 
@@ -218,6 +219,7 @@ struct edge_infos {
 		out_per_vector(to->getEdgeOutVector(e)),
 		out_ini_vector(to->getEdgeInitOutVector(e)),
 		preload(to->getPreload(e)),
+		token_size(to->getTokenSize(e)),
 		type(to->getEdgeType(e)) {
 
 	}
@@ -627,6 +629,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 			to->setEdgeInPhases(new_edge, infos.in_per_vector);
 			to->setEdgeInInitPhases(new_edge, infos.in_ini_vector);
 
@@ -669,6 +672,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 			//to->setEdgeName(new_edge, "merged_" + commons::toString(to->getEdgeId(new_edge)));
 			to->setEdgeType(new_edge,infos.type);
 			to->setPreload(new_edge, infos.preload);
+			to->setTokenSize(new_edge, infos.token_size);
 
 			to->setEdgeOutPhases(new_edge, infos.out_per_vector);
 			to->setEdgeOutInitPhases(new_edge, infos.out_ini_vector);
-- 
2.43.0


From 4099517d83fe790799c411298edd9733742a3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 30/39] fix: merging actors yields patterns that cut cycles,
 deadlock or do not exist

---
 .../algorithms/transformation/merging.cpp     | 130 +++++-------------
 1 file changed, 36 insertions(+), 94 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 8946d39..d8cde86 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -320,7 +320,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 		Vertex v = to->getVertexById(vid);
 
 		EXEC_COUNT ni = to->getNi(v);
-		gcd_value = std::gcd (gcd_value , ni) ;
+		gcd_value = std::gcd (gcd_value , ni / to->getPhasesQuantity(v)) ;
 
 		for (auto it : to->in_edges(v)) {
 			edge_infos ne(to, *it);
@@ -359,54 +359,39 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 
 	VERBOSE_INFO("Schedule original tasks");
 
-	std::map<ARRAY_INDEX,EXEC_COUNT> execution_count;
+	// From the latest first execution every task repeats with the graph period: what comes before is the init part,
+	// and the iteration of the graph that follows (Ni executions of every task) can be repeated forever.
+
+	TIME_UNIT transient_end = 0;
 	for (auto it : original_tasks) {
-		execution_count[it.first] = 0;
+		transient_end = std::max(transient_end, get_next_execution_time(it.second, 0));
 	}
 
+	std::vector<task_execution_t> init_sequence;
+	std::vector<task_execution_t> periodic_sequence;
 
-	std::vector < task_execution_t > execution_sequence;
-
-	bool dontstop = true;
-	while(dontstop) {
-		dontstop = false;
-
-		// Pick the next candidate
-		ARRAY_INDEX next_id   = -1;
-		TIME_UNIT   next_time = std::numeric_limits<TIME_UNIT>::infinity() ;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			TIME_UNIT task_execution_time = get_next_execution_time (infos, execution_count[vid] );
-			VERBOSE_DEBUG("  - Scheduling of task " << vid << " execution count = " << execution_count[vid] << " next execution is " << task_execution_time);
-			if (task_execution_time <= next_time) {
-					next_time = task_execution_time;
-					next_id = vid;
-					VERBOSE_DEBUG("  - New next task!");
-			}
+	for (auto it : original_tasks) {
+		ARRAY_INDEX vid = it.first;
+		const vertex_infos& infos = it.second;
+		EXEC_COUNT iteration = 0;
+		TIME_UNIT  start = get_next_execution_time(infos, 0);
+		// executions of a task never overtake each other, even when rounding errors say so
+		auto next = [&] () { iteration++; start = std::max(start, get_next_execution_time(infos, iteration)); };
+		for (; start < transient_end ; next()) {
+			init_sequence.push_back(task_execution_t(vid, iteration, start));
 		}
-
-		// Execute candidate
-		execution_sequence.push_back(  task_execution_t(next_id, execution_count[next_id], next_time) );
-		execution_count[next_id] ++ ;
-
-		// Stopping condition
-		// NOTE: In theory a valid one should be similar to Symbolic Execution (reach previously seen state)
-		//       I did not implement that yet, it will have to be done until a better solution emerge.
-		//       Currently the solution used is not bullet proof!
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX vid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT threshold = infos.init_phases + (infos.periodic_phases * infos.ni);
-			if (execution_count[vid] < threshold) {
-				dontstop = true;
-				VERBOSE_DEBUG("  - We will continue because " << vid << " needs " << threshold << " and only has " << execution_count[vid]);
-				break;
-			}
+		for (EXEC_COUNT last = iteration + infos.ni ; iteration < last ; next()) {
+			periodic_sequence.push_back(task_execution_t(vid, iteration, start));
 		}
 	}
 
+	auto starts_before = [] (const task_execution_t& a, const task_execution_t& b) { return a.starting_time < b.starting_time; };
+	std::stable_sort(init_sequence.begin(), init_sequence.end(), starts_before);
+	std::stable_sort(periodic_sequence.begin(), periodic_sequence.end(), starts_before);
+
+	std::vector < task_execution_t > execution_sequence (init_sequence);
+	execution_sequence.insert(execution_sequence.end(), periodic_sequence.begin(), periodic_sequence.end());
+
 	VERBOSE_DEBUG("End of scheduling with " << commons::toString(execution_sequence));
 
 	for (auto it : original_tasks) {
@@ -422,69 +407,26 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	}
 
 
-	VERBOSE_INFO("Check there is a valid init phase count");
-
 	VERBOSE_ASSERT(execution_sequence.size()  > 0, "This should never happen");
 
-	ARRAY_INDEX init_phase_count = execution_sequence.size() - 1 ;
-	bool need_to_continue = true;
-	while (init_phase_count >= 0 and need_to_continue) {
-		VERBOSE_DEBUG("Check init phase count = " << init_phase_count);
+	ARRAY_INDEX init_phase_count = init_sequence.size();
 
-		need_to_continue = false;
+	// Keep a shorter periodic part when the iteration is made of identical blocks of complete cycles
+	VERBOSE_INFO("Check if we can reduce the periodic phase");
 
-		std::map<ARRAY_INDEX,EXEC_COUNT> task_periodic_execution_count;
-		for (auto exec_pair : std::vector< task_execution_t > (execution_sequence.begin() + init_phase_count , execution_sequence.end() ) ) {
-			task_periodic_execution_count[exec_pair.task_id] ++ ;
-		}
-
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			VERBOSE_DEBUG("    In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " with expected ratio " << ratio );
-
-		}
-
-		EXEC_COUNT factor = 0;
-		for (auto it : original_tasks) {
-			ARRAY_INDEX tid = it.first;
-			vertex_infos infos = it.second;
-			EXEC_COUNT ratio =   (infos.ni)/gcd_value;
-			if (task_periodic_execution_count[tid] == 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  Every task need to be executed, task " << tid  << " is not.");
-
-			}
-			if (task_periodic_execution_count[tid] %  ratio  != 0) {
-				need_to_continue = true;
-				VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not divisible by ratio " << ratio );
-
-			}
-
-			if (factor == 0) {
-				factor = task_periodic_execution_count[tid] / ratio;
-			}
-			if (task_periodic_execution_count[tid] !=  ratio * factor) {
-							need_to_continue = true;
-							VERBOSE_DEBUG("  In the current periodic pattern the task " << tid << " is executed " << task_periodic_execution_count[tid] << " not equal to expected " << factor * ratio );
-
-			}
-
-		}
-		if (need_to_continue) {
-			init_phase_count--;
+	for (EXEC_COUNT blocks = gcd_value ; blocks > 1 ; blocks--) {
+		if (gcd_value % blocks != 0) continue;
+		size_t block_size = periodic_sequence.size() / blocks;
+		if (std::equal(periodic_sequence.begin() + block_size, periodic_sequence.end(), periodic_sequence.begin())) {
+			periodic_sequence.resize(block_size, periodic_sequence.front());
+			execution_sequence.resize(init_phase_count + block_size, periodic_sequence.front());
+			break;
 		}
 	}
 
-	VERBOSE_ASSERT(init_phase_count >= 0 , "Problem detected.");
-
 	// Optimising when we can to reduce the init phase
 	VERBOSE_INFO("Check if we can reduce the inint phase");
 
-	std::vector<task_execution_t> periodic_sequence (execution_sequence.begin() + init_phase_count , execution_sequence.end() );
-	std::vector<task_execution_t> init_sequence (execution_sequence.begin() , execution_sequence.begin() + init_phase_count  );
-
 	EXEC_COUNT new_init_end;
 	for (ARRAY_INDEX init_end = init_phase_count ;init_end >= 0; init_end -= periodic_sequence.size()) {
 		VERBOSE_DEBUG("test new init_end = " << init_end);
-- 
2.43.0


From a4b0ccb9a68aefb18e06ce3afb32a19d801d0daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 31/39] fix: endless symbolic execution of deadlocked graphs,
 packet sizes and non-square grid distances

---
 .../algorithms/scheduling/TDMAScheduler.cpp   |  4 +--
 .../algorithms/symbolic_execution.cpp         | 33 ++++++++++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
index 84ebc06..f67ea83 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
@@ -19,8 +19,8 @@
 
 	long getDistance(long src, long des, long rows, long cols)
 	{
-		long s_r = src / rows, s_c = src % cols;
-		long d_r = des / rows, d_c = des % cols;
+		long s_r = src / cols, s_c = src % cols;
+		long d_r = des / cols, d_c = des % cols;
 
 		return abs(s_r-d_r) + abs(s_c-d_c) + 1;
 	}
diff --git a/src/libkiter/algorithms/symbolic_execution.cpp b/src/libkiter/algorithms/symbolic_execution.cpp
index 720d7a3..c9ae371 100644
--- a/src/libkiter/algorithms/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/symbolic_execution.cpp
@@ -113,6 +113,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 	while (total > 0) {
 
+		bool progress = false;
+
 		for (Vertex t : graph->vertices()) {
 
 			ARRAY_INDEX vId = graph->getVertexId(t);
@@ -132,6 +134,7 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 				if (can_execute) {
 					VERBOSE_DEBUG("Execute " << vId);
+					progress = true;
 					remained_execution[graph->getVertexId(t)] -= 1 ;
 					total -= 1;
 
@@ -164,21 +167,22 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 
 						TOKEN_UNIT datatotransfert = graph->getEdgeIn(outE);
-						if (psize == 0) psize = datatotransfert;
+						// Without a requested size, a single packet carries everything.
+						const TOKEN_UNIT packet_size = (psize == 0) ? datatotransfert : psize;
 
-						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << psize);
+						VERBOSE_DEBUG(" - Produce " << datatotransfert << " by packet of " << packet_size);
 
 
 						ARRAY_INDEX previous = compute_pid;
 
-						while (datatotransfert) {
+						while (datatotransfert > 0) {
 							packet_ids[outE] = packet_count++;
 							ARRAY_INDEX pid = packet_ids[outE] ;
 							std::vector <ARRAY_INDEX> subdeps = deps ;
 							subdeps.push_back(previous);
 							print_packet_line ( src,  dst,  0,  pid, subdeps ) ;
 							previous = pid;
-							datatotransfert -= psize;
+							datatotransfert -= packet_size;
 						}
 					}}
 
@@ -187,6 +191,8 @@ void algorithms::symbolic_execution_with_packets (models::Dataflow* const graph,
 
 		}
 
+		VERBOSE_ASSERT(progress, "The graph deadlocks, no more task can be executed.");
+
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
@@ -201,8 +207,11 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Store task to execute by number of execution.
 	EXEC_COUNT total = 0 ;
 	std::vector < EXEC_COUNT >  remained_execution (from->getMaxVertexId());
+	// Phase to execute next, the initial phases are numbered 0 and below.
+	std::vector < PHASE_INDEX >  next_phase (from->getMaxVertexId());
 	{ForEachVertex(from,t) {
-		EXEC_COUNT Ni =  from->getNi(t) ;
+		EXEC_COUNT Ni =  from->getInitPhasesQuantity(t) + from->getNi(t) ;
+		next_phase[from->getVertexId(t)] = 1 - from->getInitPhasesQuantity(t);
 		remained_execution[from->getVertexId(t)] = Ni ;
 		total += Ni ;
 	}}
@@ -217,6 +226,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 	// Loop over to execute everyone. Unoptimized, could be much faster if tasks were stacked, and sum of dependences stored.
     // This does not model timings, useless for throughput
 	while (total > 0) {
+		bool progress = false;
 		{ForEachVertex(from,t) {
 			ARRAY_INDEX vId = from->getVertexId(t);
 			bool can_execute = false;
@@ -225,7 +235,7 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 				//VERBOSE_DEBUG("Need to execute " << vId);
 				{ForInputEdges(from,t,inE)	{
 					TOKEN_UNIT inCount  = buffer_content[from->getEdgeId(inE)];
-					TOKEN_UNIT reqCount = from->getEdgeOut(inE);
+					TOKEN_UNIT reqCount = from->getEdgeOutPhase(inE, next_phase[vId]);
 					if (!(inCount >= reqCount)) {
 						can_execute = false;
 						//VERBOSE_DEBUG("Cannot execute " << vId);
@@ -235,21 +245,28 @@ bool algorithms::symbolic_execution (models::Dataflow* const from) {
 
 				if (can_execute) {
 					VERBOSE_DEBUG("Execute " << vId);
+					progress = true;
 					remained_execution[from->getVertexId(t)] -= 1 ;
 					total -= 1;
 
 					{ForInputEdges(from,t,inE)	{
-						buffer_content[from->getEdgeId(inE)] -= from->getEdgeOut(inE);
+						buffer_content[from->getEdgeId(inE)] -= from->getEdgeOutPhase(inE, next_phase[vId]);
 					}}
 
 					{ForOutputEdges(from,t,outE)	{
-						buffer_content[from->getEdgeId(outE)] += from->getEdgeIn(outE);
+						buffer_content[from->getEdgeId(outE)] += from->getEdgeInPhase(outE, next_phase[vId]);
 					}}
 
+					next_phase[vId] = (next_phase[vId] == from->getPhasesQuantity(t)) ? 1 : next_phase[vId] + 1;
+
 				}
 			}
 
 		}}
+		if (not progress) {
+			VERBOSE_INFO("Symbolic execution stopped, no more task can be executed.");
+			return false;
+		}
 	}
 
     VERBOSE_INFO("End of symbolic execution.");
-- 
2.43.0


From 4253ad2323186fc2373faa126dccf7ce9b3785fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 32/39] fix: single-output rewriting loses tokens and rates of
 the rewritten channels

---
 .../transformation/singleOutput.cpp           | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/transformation/singleOutput.cpp b/src/libkiter/algorithms/transformation/singleOutput.cpp
index f6b1ab8..4574c59 100644
--- a/src/libkiter/algorithms/transformation/singleOutput.cpp
+++ b/src/libkiter/algorithms/transformation/singleOutput.cpp
@@ -36,11 +36,6 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		dataflow->setVertexType(newDup, "Dup");
 		//connect one to duplicate from the task
 
-		VERBOSE_INFO("Create new egde from source");
-		Edge ne = dataflow->addEdge(t,  newDup);
-		dataflow->setEdgeInPhases(ne, {1});
-		dataflow->setEdgeOutPhases(ne, {1});
-
 		VERBOSE_INFO("Collect edges");
 		Edge c1;
 		Edge c2;
@@ -53,13 +48,27 @@ void algorithms::transformation::singleOutput    (models::Dataflow* const datafl
 		}}
 
 
+		VERBOSE_ASSERT(dataflow->getEdgeInVector(c1) == dataflow->getEdgeInVector(c2) and dataflow->getEdgeInitInVector(c1) == dataflow->getEdgeInitInVector(c2),
+				"Only outputs with the same production rates can be duplicated.");
+
+		VERBOSE_INFO("Create new egde from source");
+		Edge ne = dataflow->addEdge(t,  newDup);
+		dataflow->setEdgeInPhases(ne, dataflow->getEdgeInVector(c1));
+		dataflow->setEdgeInInitPhases(ne, dataflow->getEdgeInitInVector(c1));
+		dataflow->setEdgeOutPhases(ne, {1});
+		dataflow->setPreload(ne, 0);
+
 		VERBOSE_INFO("Create new egde to targets");
 		Edge nc1 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c1));
 		dataflow->setEdgeInPhases(nc1, {1});
-		dataflow->setEdgeOutPhases(nc1, {1});
+		dataflow->setEdgeOutPhases(nc1, dataflow->getEdgeOutVector(c1));
+		dataflow->setEdgeOutInitPhases(nc1, dataflow->getEdgeInitOutVector(c1));
+		dataflow->setPreload(nc1, dataflow->getPreload(c1));
 		Edge nc2 = dataflow->addEdge(newDup,  dataflow->getEdgeTarget(c2));
 		dataflow->setEdgeInPhases(nc2, {1});
-		dataflow->setEdgeOutPhases(nc2, {1});
+		dataflow->setEdgeOutPhases(nc2, dataflow->getEdgeOutVector(c2));
+		dataflow->setEdgeOutInitPhases(nc2, dataflow->getEdgeInitOutVector(c2));
+		dataflow->setPreload(nc2, dataflow->getPreload(c2));
 
 
 		// remote the two buffer
-- 
2.43.0


From 5ae99a214112e22050e0a6139282f0b470ad727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:34 +0000
Subject: [PATCH 33/39] fix: modelling the network changed the rates of
 channels without route

---
 src/libkiter/algorithms/mapping/modelCommunications.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/mapping/modelCommunications.cpp b/src/libkiter/algorithms/mapping/modelCommunications.cpp
index 1c731d3..91f89d5 100644
--- a/src/libkiter/algorithms/mapping/modelCommunications.cpp
+++ b/src/libkiter/algorithms/mapping/modelCommunications.cpp
@@ -33,7 +33,8 @@ static std::vector<Vertex> addPathNode(models::Dataflow* d, Edge c, route_t list
 {
 	std::vector<Vertex> new_vertices;
 
-	if (list.size() == 0 and d->getEdgeType(c) == EDGE_TYPE::VIRTUAL_EDGE) {
+	// A channel without route does not use the network.
+	if (list.size() == 0) {
 
 		return new_vertices;
 	}
-- 
2.43.0


From b6883f1a01c39fd3e37ab629b3cafe9ad72e66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:51 +0000
Subject: [PATCH 34/39] fix: generated construction code lacks its return
 statement and rounds execution times

---
 src/libkiter/printers/SDF3Wrapper.cpp |  1 -
 src/libkiter/printers/SDF3Wrapper.h   |  3 +++
 src/libkiter/printers/stdout.cpp      | 11 +++++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index d9bb7ac..58c141c 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -46,7 +46,6 @@ std::string vectorAsStr(const std::vector<T>& t)
 		return s.str();
 }
 
-// shortest decimal text that reads back as the very same value
 std::string timeAsStr(const TIME_UNIT v)
 {
 	std::string text;
diff --git a/src/libkiter/printers/SDF3Wrapper.h b/src/libkiter/printers/SDF3Wrapper.h
index ea5a6cc..f34b4b8 100644
--- a/src/libkiter/printers/SDF3Wrapper.h
+++ b/src/libkiter/printers/SDF3Wrapper.h
@@ -24,4 +24,7 @@ void                  writeSDF3File         (const std::string f, const models::
 
 } // end of namespace commons
 
+// shortest decimal text that reads back as the very same value
+std::string timeAsStr(const TIME_UNIT v);
+
 #endif /* SDF3WRAPPER_H_ */
diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..f2bfbda 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -112,6 +112,12 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
   return returnStream.str();
 
 }
+// C++ literal of exactly this execution time
+static std::string timeLiteral (const TIME_UNIT v) {
+	std::string text = timeAsStr(v);
+	return (text.find_first_of(".e") == text.npos) ? text : text + "L";
+}
+
 void  printers::printGraphAsKiterScript (models::Dataflow* const  dataflow, parameters_list_t params) {
 
 	  bool verbose = params.count("verbose");
@@ -151,7 +157,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string init_duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= init_phase_count ; phase++) {
 			  if (phase > 1)  init_duration_string += ",";
-			  init_duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexInitDuration(t,phase));
+			  init_duration_string += timeLiteral(dataflow->getVertexInitDuration(t,phase));
 		  }
 		  init_duration_string = "{" + init_duration_string + "}";
 		  returnStream << " new_graph->setVertexInitDuration(new_vertex," << init_duration_string << ");" << std::endl;
@@ -159,7 +165,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 		  std::string duration_string = "";
 		  for (PHASE_INDEX phase = 1 ; phase <= phase_count ; phase++) {
 			  if (phase > 1)  duration_string += ",";
-			  duration_string += commons::toString<TIME_UNIT>(dataflow->getVertexDuration(t,phase));
+			  duration_string += timeLiteral(dataflow->getVertexDuration(t,phase));
 		  }
 		  duration_string = "{" + duration_string + "}";
 
@@ -244,6 +250,7 @@ std::string  printers::generate_kiter (const models::Dataflow* const  dataflow,
 
 	    }}
 	  returnStream << std::endl;
+	  returnStream << "return new_graph;"   << std::endl;
 	  returnStream << "}"   << std::endl;
 	  return returnStream.str();
 
-- 
2.43.0


From 2af40031c35475f86b2fec1c3066d2d0f392720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 35/39] fix: rate totals above 2^31 overflow

Totals of channel rates were accumulated in an int.
---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp     | 4 ++--
 src/libkiter/models/Dataflow.h                                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 579ef8c..eabea0e 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -116,8 +116,8 @@ bool add_precedences_constraints (commons::GLPSol &g, commons::idx_t OMEGA_COL,
 
 		// These are defined Page 59 of the B.Bodin 2013 (PhD Thesis).
 
-		TOKEN_UNIT NoKPeriodic_O_a_tpkp_1 = std::accumulate(dataflow->getEdgeOutVector(c).begin(), dataflow->getEdgeOutVector(c).begin() + phase_j , 0) ;
-		TOKEN_UNIT NoKPeriodic_I_a_tk_1   = std::accumulate(dataflow->getEdgeInVector(c).begin(),  dataflow->getEdgeInVector(c).begin()  + phase_i , 0) ;
+		TOKEN_UNIT NoKPeriodic_O_a_tpkp_1 = std::accumulate(dataflow->getEdgeOutVector(c).begin(), dataflow->getEdgeOutVector(c).begin() + phase_j , (TOKEN_UNIT) 0) ;
+		TOKEN_UNIT NoKPeriodic_I_a_tk_1   = std::accumulate(dataflow->getEdgeInVector(c).begin(),  dataflow->getEdgeInVector(c).begin()  + phase_i , (TOKEN_UNIT) 0) ;
 
 		TOKEN_UNIT O_a_tpkp_1 = NoKPeriodic_O_a_tpkp_1 + (period_j - 1) * NoKPeriodic_o_a ; // sum of consumption up to k
 		TOKEN_UNIT I_a_tk_1 = NoKPeriodic_I_a_tk_1 + (period_i - 1) * NoKPeriodic_i_a ; // sum of production up to k
diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index effab5d..018849b 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(), (TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(), (TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
-- 
2.43.0


From db709290c671053c14189e65bd40d906c34c8d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 36/39] fix: total execution time of an actor is truncated

Execution times were accumulated in an int, so fractional times were lost
(wrong symbolic execution throughput for actors outside cycles, wrong tables).
---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 018849b..f73b807 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
-- 
2.43.0


From 445b509f2520dfefec19feb874fa5b7d95ead5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 37/39] fix: drawn schedules give every execution its own
 identifier (a0 execution 10 and a01 execution 0 collided)

---
 src/libkiter/printers/stdout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index f2bfbda..e4db7fa 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -80,7 +80,7 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
     	  TIME_UNIT start = starts[init_phase];
 		  auto duration = dataflow->getVertexInitDuration(t,init_phase+1);
 		  returnStream << add_block (
-				  dataflow->getVertexName(t) + std::to_string(execution_index++),
+				  dataflow->getVertexName(t) + "#" + std::to_string(execution_index++),
 				  xscale * (start),
 				  xscale * (duration),  node_height,   current_task_y_pos,  line_width , fill_init ) ;
       }
@@ -95,7 +95,7 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
 
     		  bool fill = iter == 0 ? fill_first : fill_per;
         	  TIME_UNIT start = starts[sidx];
-    		  returnStream << add_block ( dataflow->getVertexName(t) + std::to_string(execution_index++),
+    		  returnStream << add_block ( dataflow->getVertexName(t) + "#" + std::to_string(execution_index++),
     		     				  xscale * (start + period * iter),
     		 					  xscale * (duration),  node_height,   current_task_y_pos,  line_width , fill ) ;
     	  }
-- 
2.43.0


From dfeb20ef07979ec5270652fb4421e0a7848e31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 38/39] fix: drawn schedules show initial starts and take each
 phase from the execution number

---
 src/libkiter/printers/stdout.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index e4db7fa..411f046 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -88,9 +88,18 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
 
       EXEC_COUNT first_start_index = dataflow->getInitPhasesQuantity(t);
 
+      for (TIME_UNIT start : scheduling[tid].initial_starts) {
+    	  auto current_phase = 1 +  (execution_index - first_start_index) % dataflow->getPhasesQuantity(t);
+    	  auto duration = dataflow->getVertexDuration(t,current_phase);
+    	  returnStream << add_block ( dataflow->getVertexName(t) + "#" + std::to_string(execution_index++),
+    			  xscale * (start),
+    			  xscale * (duration),  node_height,   current_task_y_pos,  line_width , fill_init ) ;
+      }
+
       for (EXEC_COUNT iter = 0 ;  ((starts[first_start_index] + period * iter)) < last_execution_end_at ; iter++) {
     	  for (EXEC_COUNT sidx = first_start_index; sidx < (EXEC_COUNT) starts.size() ; sidx++) {
-    		  auto current_phase = 1 +  sidx % dataflow->getPhasesQuantity(t);
+    		  // a schedule may give one start for all the phases, or initial starts before its periodic ones
+    		  auto current_phase = 1 +  (execution_index - first_start_index) % dataflow->getPhasesQuantity(t);
     		  auto duration = dataflow->getVertexDuration(t,current_phase);
 
     		  bool fill = iter == 0 ? fill_first : fill_per;
-- 
2.43.0


From fe3c861b051e92987395e751904ed8f53ca18424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 39/39] fix: schedule validation replays every execution:
 tokens available when their producers end, executions in progress within the
 limit

---
 src/libkiter/models/Scheduling.cpp | 287 ++++++++++-------------------
 1 file changed, 97 insertions(+), 190 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index 79bbbee..f7de3e0 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -274,214 +274,121 @@ std::string models::Scheduling::asASCII (int line_size) const{
 }
 
 
-struct task_catalog {
-	EXEC_COUNT cur_phase;
-	EXEC_COUNT task_Ni;
-	std::vector<TIME_UNIT> phase_durations;
-	std::vector<TIME_UNIT> schedule;
+// Executions of one task as its schedule describes them: initial starts first, then the periodic ones for ever.
+struct task_executions {
+
+	const models::Dataflow* g;
+	Vertex     task;
+	task_schedule_t starts;
+	EXEC_COUNT init_phases, phases;
+
+	task_executions (const models::Dataflow* g, Vertex task, const task_schedule_t& starts) :
+		g(g), task(task), starts(starts), init_phases(g->getInitPhasesQuantity(task)), phases(g->getPhasesQuantity(task)) {}
+
+	EXEC_COUNT initial   () const { return starts.initial_starts.size(); }
+	EXEC_COUNT periodic  () const { return starts.periodic_starts.second.size(); }
+	bool       exists    (EXEC_COUNT n) const { return (periodic() > 0) or (n < initial()); }
+	bool       is_init   (EXEC_COUNT n) const { return n < init_phases; }
+	EXEC_COUNT phase     (EXEC_COUNT n) const { return is_init(n) ? n + 1 : (n - init_phases) % phases + 1; }
+
+	// from this execution on, everything repeats every cycle() executions
+	EXEC_COUNT settled   () const { return std::max(initial(), init_phases); }
+	EXEC_COUNT cycle     () const { return std::lcm(phases, std::max<EXEC_COUNT>(1, periodic())); }
+	TIME_UNIT  cycleTime () const { return (cycle() / std::max<EXEC_COUNT>(1, periodic())) * starts.periodic_starts.first; }
+
+	TIME_UNIT start (EXEC_COUNT n) const {
+		if (n < initial()) return starts.initial_starts[n];
+		n -= initial();
+		return starts.periodic_starts.second[n % periodic()] + (n / periodic()) * starts.periodic_starts.first;
+	}
+	TIME_UNIT end (EXEC_COUNT n) const {
+		return start(n) + (is_init(n) ? g->getVertexInitDuration(task, phase(n)) : g->getVertexDuration(task, phase(n)));
+	}
+	TOKEN_UNIT production (Edge e, EXEC_COUNT n) const {
+		return is_init(n) ? g->getEdgeInInitPhase(e, phase(n)) : g->getEdgeInPhase(e, phase(n));
+	}
+	TOKEN_UNIT consumption (Edge e, EXEC_COUNT n) const {
+		return is_init(n) ? g->getEdgeOutInitPhase(e, phase(n)) : g->getEdgeOutPhase(e, phase(n));
+	}
 };
 
-bool models::Scheduling::is_valid_schedule () const{
+// a <= b, up to the rounding of times
+static bool not_after (TIME_UNIT a, TIME_UNIT b) {
+	const TIME_UNIT precision = 0.000000001L;
+	return a <= b + precision * std::max<TIME_UNIT>(1, std::max(std::abs(a), std::abs(b)));
+}
 
-	// Step 0: Setting up symbolic execution
+/**
+ * A schedule is valid when every execution finds its tokens on every input channel (tokens are available when the
+ * execution that produces them ends) and when no task has more simultaneous executions than its reentrancy factor.
+ * The initial starts and then one common cycle of the periodic ones are checked, the rest repeats them.
+ */
+bool models::Scheduling::is_valid_schedule () const{
 
 	const models::Dataflow* g = this->getDataflow();
 	scheduling_t s = this->getTaskSchedule();
-	
-	std::vector<EXEC_COUNT> buffer_load (g->getMaxEdgeId());
-
-	{ForEachEdge(g,c) {
-		buffer_load[g->getEdgeId(c)] = g->getPreload(c);
-		// ###
-		VERBOSE_INFO("EDGE ID: " << g->getEdgeId(c) << " | EDGE INIT " << buffer_load[g->getEdgeId(c)]);
-		// ###
-	}}
-
-
-	std::map<ARRAY_INDEX, task_catalog> task_log;
 
+	std::map<Vertex, task_executions> tasks;
 	{ForEachVertex(g,t) {
-		ARRAY_INDEX id = g->getVertexId(t); 
-		EXEC_COUNT Ni =  g->getNi(t);
-		task_catalog t;
-		t.cur_phase = 0;
-		t.task_Ni = Ni;
-		t.phase_durations = g->getVertexPhaseDuration((g->getVertexById(id)));
-		task_log[id] = t;
+		tasks.insert({t, task_executions(g, t, s[g->getVertexId(t)])});
 	}}
 
-	// Creating one centralized schedule vector for each task
-
-	std::vector<EXEC_COUNT> exec_left (g->getMaxEdgeId());
-
-	for (std::pair<const ARRAY_INDEX, task_schedule_t> task : s){
-
-		ARRAY_INDEX task_id = task.first;
-
-		task_log[task_id].schedule = task.second.initial_starts;
-		exec_left[task_id] = task.second.initial_starts.size() + task_log[task_id].task_Ni;
-
-		// total += task.second.initial_starts.size(); 
-
-		for (int i = 0; i <= task_log[task_id].task_Ni; i++){
-			TIME_UNIT task_period = s[task_id].periodic_starts.first;
-			TIME_UNIT out_exec_time = s[task_id].periodic_starts.second[0];
-			task_log[task_id].schedule.push_back(out_exec_time);
-			s[task_id].periodic_starts.second.push_back(out_exec_time + task_period);
-			s[task_id].periodic_starts.second.erase(s[task_id].periodic_starts.second.begin());
-		}
-	}
-
-	// Filling out the schedules
-
-	TIME_UNIT max_time = 0;
-	for (auto task : task_log){
-		if (task.second.schedule.back() > max_time){
-			max_time = task.second.schedule.back();
-		}
-	}
-	for (auto task : task_log){
-		ARRAY_INDEX task_id = task.first;
-		TIME_UNIT end_time = task.second.schedule.back();
-		while (end_time < max_time){
-			TIME_UNIT task_period = s[task_id].periodic_starts.first;
-			TIME_UNIT out_exec_time = s[task_id].periodic_starts.second[0];
-			task_log[task_id].schedule.push_back(out_exec_time);
-			s[task_id].periodic_starts.second.push_back(out_exec_time + task_period);
-			s[task_id].periodic_starts.second.erase(s[task_id].periodic_starts.second.begin());
-			end_time = out_exec_time;	
-		}
-	};
-
-	// ###
-	for(auto task : task_log){ VERBOSE_INFO("TASK ID: " << task.first << " | PhaseDur: " << commons::toString(task.second.phase_durations) << " | Schedule: " << commons::toString(task.second.schedule)); }
-	VERBOSE_INFO("REMAINING EXECUTIONS: " << commons::toString(exec_left));
-	// ###
-	
-	// Step 1: Symbolic execution
-
-	std::pair<ARRAY_INDEX, TIME_UNIT> next_task;
-
-	// Tracking most recent next tasks of each task
-	std::vector<TIME_UNIT> task_history (g->getMaxEdgeId()); 
-	
-	// Initializing next task
-	for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-		if (task.second.schedule[0] == 0){
-			next_task.first = task.first;
-			next_task.second = 0;
-		}
-	}
-
-	// ###
-	VERBOSE_INFO("INIT TASK ID: " << next_task.first << " | EXEC TIME: " << next_task.second);
-	// ###
-
-	while(std::accumulate(exec_left.begin(), exec_left.end(), 0) != 0){
-
-		// Finding all tasks that completed execution before next_task is consumed
-
-		std::vector<ARRAY_INDEX> out_tasks;
-
-		for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-			
-			ARRAY_INDEX id = task.first;
-			TIME_UNIT phase_time = (task_log[id].phase_durations)[task_log[id].cur_phase];
-			TIME_UNIT finish_time = phase_time + task_log[id].schedule[0];
-
-			if (finish_time <= next_task.second){
-				out_tasks.push_back(id);
-
-				// ###
-				VERBOSE_INFO("OUT TASK ID: " << id << " | FINISH TIME: " << finish_time << " | PHASE:" << task_log[id].cur_phase);
-				// ###
-			} 
-		}
-
-		// ###
-		VERBOSE_INFO("OUT TASKS: " << commons::toString(out_tasks));
-		// ###
-
-		// Executing symbolic executon
-
-		for (ARRAY_INDEX out_id : out_tasks){
-			Vertex out_v = g->getVertexById(out_id);
-			{ForOutputEdges(g,out_v,inE){
-				TOKEN_UNIT reqCount = (g->getEdgeInVector(inE))[task_log[out_id].cur_phase];
-				TOKEN_UNIT inCount  = buffer_load[g->getEdgeId(inE)];
-				buffer_load[g->getEdgeId(inE)] = inCount + reqCount;
-			}}
-
+	// Reentrancy: the execution n starts when the execution (n - r) is over
+	{ForEachVertex(g,t) {
+		const task_executions& task = tasks.at(t);
+		const EXEC_COUNT r = g->getReentrancyFactor(t);
+		if (r == 0) continue;
+		for (EXEC_COUNT n = r ; n < task.settled() + r + task.cycle() and task.exists(n) ; n++) {
+			if (not not_after(task.end(n - r), task.start(n))) {
+				VERBOSE_INFO("Invalid schedule: execution " << n << " of " << g->getVertexName(t) << " starts too early");
+				return false;
+			}
 		}
+		if (task.periodic() > 0 and not not_after(0, task.starts.periodic_starts.first)) return false;
+	}}
 
-		Vertex in_v = g->getVertexById(next_task.first);
-		{ForInputEdges(g,in_v,inE)	{
-			TOKEN_UNIT reqCount = (g->getEdgeOutVector(inE))[task_log[next_task.first].cur_phase];
-			TOKEN_UNIT inCount  = buffer_load[g->getEdgeId(inE)];
-			buffer_load[g->getEdgeId(inE)] = inCount - reqCount;
-		
-			// Invalid Schedule Conditon - negative buffer load
-			if (buffer_load[g->getEdgeId(inE)] < 0) { return false; }
-		}}
-
-		for (ARRAY_INDEX out_id : out_tasks){
-			task_log[out_id].cur_phase = (task_log[out_id].cur_phase + 1) % task_log[out_id].phase_durations.size();
-			task_log[out_id].schedule.erase(task_log[out_id].schedule.begin());
-			if (exec_left[out_id] > 0){ exec_left[out_id]--; }
+	// Channels: the execution n starts when the execution that brings its last token is over
+	{ForEachEdge(g,c) {
+		const task_executions& from = tasks.at(g->getEdgeSource(c));
+		const task_executions& to   = tasks.at(g->getEdgeTarget(c));
+
+		const TOKEN_UNIT produced = g->getEdgeIn(c)  * (from.cycle() / from.phases);
+		const TOKEN_UNIT consumed = g->getEdgeOut(c) * (to.cycle()   / to.phases);
+
+		EXEC_COUNT last = to.settled();
+		if (to.periodic() > 0 and consumed > 0) {
+			// the consumer cannot be faster than the producer in the long run
+			const bool endless = from.periodic() > 0 and produced > 0;
+			if (not endless) return false;
+			if (not not_after(consumed * from.cycleTime(), produced * to.cycleTime())) {
+				VERBOSE_INFO("Invalid schedule: " << g->getEdgeName(c) << " is read faster than it is filled");
+				return false;
+			}
+			TOKEN_UNIT unsettled = g->getPreload(c);
+			for (EXEC_COUNT n = 0 ; n < from.settled() ; n++) unsettled += from.production(c, n);
+			last += to.cycle() * (unsettled / consumed + 1 + std::lcm(produced, consumed) / consumed);
 		}
 
-		// ###
-		VERBOSE_INFO("PREVIOUS TASK EXECUTION TIMES: " << commons::toString(task_history));
-		// ###
-		
-		// ###
-		VERBOSE_INFO("######## NEW ITERATION ###########");
-		// ###
-
-		// Finding next task in schedule
-		task_history[next_task.first] = next_task.second;
-
-		std::map<TIME_UNIT, ARRAY_INDEX> potential_next_tasks;
-
-		for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-		if (!(task.second.schedule.empty())){
-
-			std::size_t i = 0;
-			while(task.second.schedule[i] < next_task.second || task.second.schedule[i] <= task_history[task.first]){
-				if (i + 1 == task.second.schedule.size()){ break; }
-				i++;			
+		EXEC_COUNT completed = 0;
+		TIME_UNIT  ready     = std::numeric_limits<TIME_UNIT>::lowest();
+		TOKEN_UNIT available = g->getPreload(c);
+		for (EXEC_COUNT n = 0 ; n < last and to.exists(n) ; n++) {
+			const TOKEN_UNIT need = to.consumption(c, n);
+			if (need == 0) continue;
+			while (available < need and from.exists(completed) and (produced > 0 or completed < from.settled())) {
+				const TOKEN_UNIT brought = from.production(c, completed);
+				if (brought > 0) ready = std::max(ready, from.end(completed));
+				available += brought;
+				completed++;
 			}
-
-			if (task.second.schedule[i] > task_history[task.first]){
-			potential_next_tasks[task.second.schedule[i]] = task.first;
+			if (available < need or not not_after(ready, to.start(n))) {
+				VERBOSE_INFO("Invalid schedule: execution " << n << " of " << g->getVertexName(g->getEdgeTarget(c)) << " lacks tokens of " << g->getEdgeName(c));
+				return false;
 			}
-		}}
-
-		next_task.first = (potential_next_tasks.begin())->second;
-		next_task.second = (potential_next_tasks.begin())->first;
-
-		// ###
-		for(auto task : task_log){ VERBOSE_INFO("TASK ID: " << task.first <<" | SCHEDULE " << commons::toString(task.second.schedule)); }
-		VERBOSE_INFO("BUFFER LOAD: " << commons::toString(buffer_load));
-		VERBOSE_INFO("REMAINING EXECUTIONS: " << commons::toString(exec_left));
-		VERBOSE_INFO("NEXT TASK ID: " << next_task.first << " | EXEC TIME: " << next_task.second);
-		// ### 
-
-		// Invalid Schedule Condition - infeasible task execution
-		TIME_UNIT task_duration = task_log[next_task.first].phase_durations[task_log[next_task.first].cur_phase];
-		if (not g->getReentrancyFactor(g->getVertexById(next_task.first))) // only when task has reentrancy loop
-		if (next_task.second < task_history[next_task.first] + task_duration){
-			VERBOSE_ERROR("Invalide scheduling condition: Next task " << next_task.first << " expected t=" << next_task.second << " is lower than t=" << task_history[next_task.first] + task_duration);
-			return false;
+			available -= need;
 		}
-
-	}	
+	}}
 
 	return true;
 
 }
-
-
-
-
-	
-- 
2.43.0

