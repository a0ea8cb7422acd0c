From a8a7f3ae7de3833e3ec2921527b819c2e6884008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 01/16] fix: bqueue::push must not reset the read position when
 the write position wraps

After a pop the oldest element need not be at index 0 when the write
position wraps around; resetting it brought popped values back into the
window and lost newer ones.
---
 src/candy/mtl/BoundedQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/mtl/BoundedQueue.h b/src/candy/mtl/BoundedQueue.h
index 209d338..65cc6a7 100644
--- a/src/candy/mtl/BoundedQueue.h
+++ b/src/candy/mtl/BoundedQueue.h
@@ -66,7 +66,7 @@ public:
         }
         sumofqueue += x;
         elems[first] = x;
-        if ((++first) == elems.size()) { first = 0; last = 0; }
+        if ((++first) == elems.size()) first = 0;
     }
 
     T peek() {
-- 
2.43.0


From 94cdeaa927552f4b5ec35302b4696899ed986bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 02/16] fix: keep implied values of eliminated variables when
 extending a model

---
 src/candy/simplification/VariableElimination.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..7f44b74 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -139,6 +139,7 @@ public:
     void propagate_eliminated_variables() {
         for (auto it = eliminiated_variables.rbegin(); it != eliminiated_variables.rend(); it++) {
             Var var = *it;
+            if (trail.value(var) != l_Undef) continue; // value already implied
             bool value_set = false;
             for (Cl clause : eliminated_clauses[var]) {
                 if (!trail.satisfies(clause.begin(), clause.end())) {
-- 
2.43.0


From e65d5357555b32500001fc2ecf5fd1af4ad544c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 03/16] fix: restoring an eliminated variable also restores the
 variables eliminated after it

---
 src/candy/simplification/VariableElimination.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index 7f44b74..171cad4 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // the restored clauses may contain variables that were eliminated later on
+        std::vector<Cl> restored(correction_set);
+        for (const Cl& clause : restored) {
+            for (Lit lit : clause) {
+                if (is_eliminated(lit.var())) {
+                    std::vector<Cl> cor = undo_elimination(lit.var());
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
@@ -133,7 +143,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return v < (Var)eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 55e6bd4686faefeb5c3361fb838e69b22a074115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 04/16] fix: extra bump of the last decision level read past
 the trail limits

---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..cc87722 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel()-1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..b982d42 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -261,7 +261,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel()-1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From 966b7e3c8e65d9b584aeaeeeb5e5022b560dc931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 05/16] fix: centrality lookup for variables without a graph
 node

---
 src/candy/systems/branching/VSIDSC.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index b982d42..21ffe5b 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -212,7 +212,9 @@ public:
                 double bumpFactor = var_inc;
                 if (use_centrality_bump)
                 {
-                        bumpFactor = var_inc * (1 + (centrality[graph.mapNode(v.id)] * centralityFactor));
+                        unsigned int node = graph.mapNode(v.id); // variables that came up after the last calculation have no centrality
+                        double c = node < centrality.size() ? centrality[node] : 0.0;
+                        bumpFactor = var_inc * (1 + (c * centralityFactor));
                 }
                 varBumpActivity(v, bumpFactor);
         }
-- 
2.43.0


From 5ec5625f78f3c14b3f08c1f0c454cad124f606a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 06/16] fix: computeLBD stamp too small when there are more
 levels than variables

---
 src/candy/core/Trail.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..6542114 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -300,6 +300,7 @@ public:
     inline uint_fast16_t computeLBD(Iterator it, Iterator end) {
         // TODO: exclude selectors from lbd computation
         uint_fast16_t nblevels = 0;
+        stamp.grow(decisionLevel() + 1); // assumptions can open more levels than there are variables
         stamp.clear();
 
         for (; it != end; it++) {
-- 
2.43.0


From fa04f04ea4b937f4bb697c4368f26433e48b07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 07/16] fix: initialize all simulation vectors

---
 src/candy/randomsimulation/SimulationVector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..781ea17 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -85,6 +85,7 @@ namespace Candy {
         for (size_t i = 0; i < m_size; ++i) {
             new(toBeInitialized) SimulationVector;
             toBeInitialized->initialize(0ull);
+            ++toBeInitialized;
         }
         
         m_isInitialized = true;
-- 
2.43.0


From 48f1b295b06667db651caeac89bf1094b107d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:33 +0000
Subject: [PATCH 08/16] fix: partition hash cancelled out the random input
 assignments

---
 src/candy/randomsimulation/Partition.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..b055066 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -250,6 +250,13 @@ namespace Candy {
         m_partitioningNeg.push_back(partitionEntry);
     }
     
+    // The input variables' simulation vectors are themselves sequences of fastNextRand
+    // values, so the assignment must not be xor'ed directly with the fastNextRand state:
+    // the two would cancel out.
+    static inline uint64_t nextGroupId(uint64_t groupId, uint64_t assignment) {
+        return fastNextRand(groupId ^ (assignment * 0x9E3779B97F4A7C15ull));
+    }
+    
     void DefaultPartition::updatePartitioningPos(const SimulationVectors &varAssignments, bool isInitialUpdate) {
         for (size_t peIdx = 0; peIdx < m_partitioningPos.size(); ++peIdx) {
             PartitionEntry &partitionEntry = m_partitioningPos[peIdx];
@@ -260,7 +267,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                  nextGroupId(partitionEntry.groupId, simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -284,7 +291,7 @@ namespace Candy {
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
                 partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                  nextGroupId(partitionEntry.groupId, ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From 8a78215d35de9872a12283a1ff4db7d395de8d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 09/16] fix: subsumption database imported deleted clauses

---
 src/candy/simplification/SubsumptionClauseDatabase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/simplification/SubsumptionClauseDatabase.h b/src/candy/simplification/SubsumptionClauseDatabase.h
index 6d2d3f3..7f996b6 100644
--- a/src/candy/simplification/SubsumptionClauseDatabase.h
+++ b/src/candy/simplification/SubsumptionClauseDatabase.h
@@ -56,6 +56,7 @@ public:
             occurrences.resize(clause_db.nVars());
         }
         for (Clause* clause : clause_db) {
+            if (clause->isDeleted()) continue;
             SubsumptionClause* subsumption_clause = new (subsumption_clauses.allocate()) SubsumptionClause(clause);
             addToOccurenceLists(subsumption_clause);
         }
-- 
2.43.0


From 4daec487e5fba176a320f264cc46d2d13013bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:08 +0000
Subject: [PATCH 10/16] fix: proof checker accessed memory out of bounds for
 literals beyond the problem's variables

---
 src/candy/core/DRATChecker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..a3822f7 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -125,6 +125,9 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    // the input problem does not have this variable
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) return false;
+
     // check if clause is asymmetric tautology
     bool conflict = check_asymm(begin, end, lit_Undef);
         
@@ -158,6 +161,9 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
+    // the input problem does not have this variable
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) return false;
+
     size_t size = std::distance(begin, end);
     if (size > 1) {
         for (Clause* clause : occurences[*begin]) {
-- 
2.43.0


From 8db49662f3c3eb0dcdf194171d19f03a18cdfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 11/16] fix: number reading across buffer ends, without digits
 and out of range

---
 src/candy/utils/StreamBuffer.cc | 20 ++++++++++++++++----
 src/candy/utils/StreamBuffer.h  |  2 +-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..8733cf6 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -54,6 +54,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // strtol() must not skip whitespace beyond the end of the current chunk
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -62,7 +63,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int>::max()/2 || number < -(std::numeric_limits<int>::max()/2)) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
@@ -74,6 +75,9 @@ namespace Candy {
             incPos(static_cast<intptr_t>(end - str));
             return static_cast<int>(number);
         }
+        else {
+            throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
+        }
     }
 
     void StreamBuffer::check_refill_buffer() {
@@ -82,15 +86,23 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int nbytes = gzread(in, buffer + offset, buffer_size - offset);
+            if (nbytes < 0) {
+                throw ParserException(std::string("PARSE ERROR! Could not read from input"));
+            }
+            size = offset + nbytes;
             offset = 0;
+            buffer[size] = '\0';
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) { // no whitespace at all
+                offset = 0;
+            }
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..7c1eaeb 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1];
         check_refill_buffer();
     }
 
-- 
2.43.0


From 6c8e813c62bade9c1c56c6ad72ac440fa1fdb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:21 +0000
Subject: [PATCH 12/16] fix: ipasir value of unassigned variables and
 assumptions over new variables

---
 src/candy/ipasir/ipasircandy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..6390f81 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -80,6 +80,7 @@ public:
     void assume(int lit) {
         drop_analysis();
         nomodel = true;
+        while ((int)problem.nVars() < abs(lit)) problem.newVar();
         assumptions.push_back(import(lit));
     }
 
@@ -97,7 +98,8 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        if (result.satisfies(import(lit))) return lit;
+        return result.satisfies(import(-lit)) ? -lit : 0;
     }
 
     int failed(int lit) {
-- 
2.43.0


From 00be3767c60801657dd1a05515995daba2abc1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:56 +0000
Subject: [PATCH 13/16] fix: gate pattern accepted repeated or partial clauses
 as a full definition

---
 src/candy/gates/GateAnalyzer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..783291d 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -203,7 +203,12 @@ bool GateAnalyzer::patternCheck(Lit o, const For& fwd, const For& bwd) {
     if (fwd.size() == bwd.size() && 2*fwd.size() == pow(2, fwd_inp.size()/2)) {
         std::set<Var> vars;
         for (Lit l : fwd_inp) vars.insert(l.var());
-        return 2*vars.size() == fwd_inp.size();
+        // clauses must be pairwise different and constrain all inputs
+        std::set<Cl> distinct;
+        for (Cl* c : fwd) distinct.insert(*c);
+        for (Cl* c : bwd) distinct.insert(*c);
+        return 2*vars.size() == fwd_inp.size() && distinct.size() == fwd.size() + bwd.size() && 
+            fixedClauseSize(fwd, vars.size()+1) && fixedClauseSize(bwd, vars.size()+1);
     }
     return false;
 }
-- 
2.43.0


From 221495f87bd47b0ee284f4fdf29b1872e570d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:51 +0000
Subject: [PATCH 14/16] fix: simulation used backward clauses over variables
 that are no inputs of the gate

---
 src/candy/randomsimulation/ClauseOrder.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..51d85a7 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -165,8 +165,19 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
+        // gate.inp is collected from the forward clauses, the backward clauses might contain further variables
+        auto isInput = [&gate](Lit lit) {
+            return lit.var() == gate.out.var()
+                || std::binary_search(gate.inp.begin(), gate.inp.end(), lit)
+                || std::binary_search(gate.inp.begin(), gate.inp.end(), ~lit);
+        };
+        bool bwdHasOnlyInputs = std::all_of(gate.bwd.begin(), gate.bwd.end(), [&isInput](const Cl* clause) {
+            return std::all_of(clause->begin(), clause->end(), isInput);
+        });
+        
         if (gate.hasNonMonotonicParent()
-            || gate.fwd.size() <= gate.bwd.size()) {
+            || gate.fwd.size() <= gate.bwd.size()
+            || !bwdHasOnlyInputs) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
         }
-- 
2.43.0


From 76a35d4e072f09397554b63a7fb3757efcbc0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:15 +0000
Subject: [PATCH 15/16] fix: minimal model computation (counter, bound and
 leftover assumptions)

---
 src/candy/minimizer/Minimizer.cc | 2 ++
 src/candy/minimizer/Minimizer.h  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..cd01b6e 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -142,8 +142,10 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
             variables.push_back(Lit(v, false));
         }
+        while (counter.nVars() < problem.nVars()) counter.newVar(); // counter variables must not clash with problem variables
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        solver->getAssignment().setAssumptions({});
         satisfiable = l_True;
         while (satisfiable == l_True) {
             lessthan.clear();
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..c11994b 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -84,7 +84,7 @@ private:
         }
 
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 };
         Lit carry = inputs.back();
         
         Cl a_outputs = genParCounter(out, a_inputs);
@@ -116,7 +116,7 @@ private:
      * Generate less-than constraint for the outputs of the parallel counter
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
-        For lessthan;
+        For lessthan { new Cl() }; // at least one bit of k is not set in the output (strictly less)
         
         // comparator circuit
         for (unsigned int i = 0; i < outputs.size(); i++) {
-- 
2.43.0


From 97452f7248cd632c361c5e02a98a8d234d3245d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:41 +0000
Subject: [PATCH 16/16] fix: md5 dropped buffered bytes when an empty piece was
 processed

---
 src/candy/gbd/md5/md5.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/candy/gbd/md5/md5.cpp b/src/candy/gbd/md5/md5.cpp
index d5c7b16..6ad09c2 100644
--- a/src/candy/gbd/md5/md5.cpp
+++ b/src/candy/gbd/md5/md5.cpp
@@ -114,8 +114,6 @@ namespace md5 {
             if (processed != input_length) {
                 memcpy(stored + stored_size, (char*)input + processed, input_length - processed);
                 stored_size += input_length - processed;
-            } else {
-                stored_size = 0;
             }
         } else {
             // throw error when trying to process after completion?
-- 
2.43.0

