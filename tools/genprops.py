#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['hook_needed'] = None
    P.append(d)
S = 'src/candy/'
p('C01', 'A satisfiable answer comes with a model of everything added and assumed',
  'Whenever a solve call answers "satisfiable", the reported assignment gives every variable of the problem a value, satisfies every clause added so far and every assumption of that call. This holds with and without preprocessing and inprocessing (subsumption, strengthening, variable elimination), for every propagation and branching variant, and again for every later incremental call.',
  ['inputs', 'configurations', 'histories'], 'for every formula, assumption set, solver configuration and sequence of incremental add/assume/solve calls',
  'The tests solve some twenty fixed CNF files plus one fixed random generator, check models only for a few of them, and mostly with default options; they cannot range over formulas or call histories.',
  [S+'core/Solver.h', S+'core/CandySolverResult.h', S+'simplification/VariableElimination.h', S+'core/Trail.h'],
  [('model extraction after search', S+'core/Solver.h: solve, CandySolverResult::setModel'), ('values of eliminated variables', S+'simplification/VariableElimination.h: propagate_eliminated_variables'), ('correction clauses when an eliminated variable comes back', S+'simplification/VariableElimination.h: reset, undo_elimination')],
  ['CandySolverInterface::solve / getCandySolverResult().value', 'ipasir_val'])
p('C02', 'An unsatisfiable answer is right, and the failed assumptions alone explain it',
  'Whenever a solve call answers "unsatisfiable", the clauses added so far together with the assumptions of that call have no model; and the assumptions reported as failed are a subset of those passed in which already is contradictory with the clauses. A call that is not interrupted always answers one of the two.',
  ['inputs', 'configurations', 'histories'], 'for every formula, assumption set, configuration and history of incremental calls',
  'Only a handful of UNSAT instances are exercised and failed-assumption sets are looked at for toy inputs; soundness is a claim about every formula.',
  [S+'core/Solver.h', S+'systems/learning/ConflictAnalysis.h', S+'core/clauses/ClauseDatabase.h'],
  [('search and level-0 conflict', S+'core/Solver.h: search, solve'), ('final conflict analysis', S+'systems/learning/ConflictAnalysis.h: analyzeFinal'), ('empty-clause bookkeeping', S+'core/clauses/ClauseDatabase.h: emptyClause, hasEmptyClause')],
  ['CandySolverInterface::solve / getConflict', 'ipasir_failed'])
p('C03', 'Unit propagation is exact: sound implications, real conflicts, nothing missed',
  'Propagating the pending assignments makes true only literals that occur in some clause whose other literals are all false, and records that clause as the reason, with the implied literal first if the clause has more than two literals. If a conflict is reported, all literals of the reported clause are false; if none is reported, no clause is left with all literals false, or with one unassigned and all others false.',
  ['inputs', 'histories'], 'for every clause set and every sequence of decisions, backtracks, attaches, detaches and propagations',
  'Propagation is only exercised indirectly by solving; a missed or wrong implication that the later search papers over is invisible to the tests.',
  [S+'systems/propagate/Propagate.h', S+'systems/propagate/StaticPropagate.h', S+'core/clauses/ClauseDatabase.h'],
  [('binary watch lists', S+'core/clauses/ClauseDatabase.h: createClause, reinitBinaryWatchers; propagate_binary_clauses'), ('two watched literals with blockers', S+'systems/propagate/Propagate.h: propagate_watched_clauses, attachClause, detachClause')])
p('C04', 'Learned clauses are implied and asserting, with the right backjump level',
  'For every conflict above level 0 the learned clause follows from the clauses of the problem, is falsified by the current assignment, has exactly one literal of the current decision level, and that literal comes first. The level to return to is the highest level among the other literals (0 if there are none), one literal of that level is in second place, and the quality measure recorded is the number of distinct levels in the clause.',
  ['inputs', 'histories'], 'for every clause set and every reachable assignment with a conflict',
  'No test looks at a learned clause; only final answers of a few instances are compared.',
  [S+'systems/learning/ConflictAnalysis.h', S+'core/Trail.h'],
  [('first-UIP resolution', S+'systems/learning/ConflictAnalysis.h: analyze'), ('minimisation', S+'systems/learning/ConflictAnalysis.h: litRedundant, minimization with binary clauses'), ('backjump level', S+'systems/learning/ConflictAnalysis.h: handle_conflict')])
p('C05', 'The trail records assignments exactly and undoes exactly what it should',
  'A variable has a value exactly if its literal is on the trail; the value, level and reason are those given when it was set, and asking to set a literal that is already false is refused without any change. Going back to a level removes exactly the assignments made above that level and changes nothing else, and propagation resumes at a position before which everything was already propagated.',
  ['inputs', 'histories'], 'for every sequence of level openings, decisions, implications, facts and backtracks',
  'Unit tests cover a few short sequences; the claim is an invariant over all histories and sizes.',
  [S+'core/Trail.h'],
  [('assignment', S+'core/Trail.h: set_value, decide, propagate, fact'), ('undo', S+'core/Trail.h: backtrack, reset'), ('levels', S+'core/Trail.h: newDecisionLevel, computeLBD')],
  None, [('trail', 'literals in assignment order', 'Trail::trail'), ('assigns', 'value per variable', 'Trail::assigns'), ('trail_lim', 'trail position at which each level starts', 'Trail::trail_lim')])
p('C06', 'Subsumption removes and shortens clauses only when that loses nothing',
  'A clause is reported as subsumed by another exactly if all literals of the other occur in it, and a literal is reported as removable exactly if the other clause occurs in it up to that one literal being negated; the quick pre-filter never hides such a pair. Simplifying a clause set this way leaves its set of models unchanged and never makes the problem depend on a clause that may later be discarded.',
  ['inputs'], 'for every pair of clauses and every clause set',
  'Tests compare two or three fixed clause pairs; the claim ranges over all clauses, including hash-filter collisions of variables far apart.',
  [S+'simplification/SubsumptionClause.h', S+'simplification/Subsumption.h', S+'simplification/SubsumptionClauseDatabase.h', S+'core/clauses/ClauseDatabase.h'],
  [('pairwise test', S+'simplification/SubsumptionClause.h: subsumes, equals, calc_abstraction'), ('application', S+'simplification/Subsumption.h: subsume, unit_resolution'), ('occurrence lists', S+'simplification/SubsumptionClauseDatabase.h')])
p('C07', 'Variable elimination yields exactly the resolvents, and can be undone',
  'Eliminating a variable replaces its clauses by all non-tautological resolvents on it, each containing precisely the literals of both parents other than the variable, and a variable that is assumed is never eliminated. Any model of the remaining clauses is extended to a model of the removed clauses, and when an eliminated variable is needed again its removed clauses come back in full.',
  ['inputs', 'histories'], 'for every clause pair, clause set, model of the remainder and later history',
  'Only whole-solver runs touch elimination; a wrong resolvent or a wrong extension shows on specific clause shapes the fixed instances do not contain.',
  [S+'simplification/VariableElimination.h'],
  [('resolvent and its size', S+'simplification/VariableElimination.h: merge (both overloads)'), ('elimination', S+'simplification/VariableElimination.h: eliminate'), ('model extension', S+'simplification/VariableElimination.h: propagate_eliminated_variables'), ('undo', S+'simplification/VariableElimination.h: undo_elimination, reset')])
p('C08', 'Stored clauses keep their literals; storage of live clauses never overlaps',
  'A clause created from a list of literals has exactly these literals in this order until it is changed or removed, whatever is created, removed, imported or compacted in between; iterating a store visits exactly the live clauses, and live clauses never share memory. Reordering operations inside a clause permute its literals, and a clause that is neither shortened nor removed keeps its classification as permanent or learnt.',
  ['inputs', 'histories'], 'for every sequence of create, remove, swap, reorganise and import operations and every clause length the format admits',
  'Tests allocate a few hundred small clauses; page boundaries, size-class limits and compaction orders are not swept.',
  [S+'core/clauses/Clause.h', S+'core/clauses/ClauseAllocator.h', S+'core/clauses/ClauseAllocatorMemory.h', S+'mtl/Memory.h'],
  [('layout', S+'core/clauses/Clause.h: constructor, begin/end, swap, contains'), ('pages', S+'core/clauses/ClauseAllocatorMemory.h: allocate, hasMemory, iterator'), ('size classes and compaction', S+'core/clauses/ClauseAllocator.h: allocate, reallocate, import, absorb')])
p('C09', 'Proof output is faithful, and the proof checker accepts only proofs',
  'With proof logging on, each clause that is derived or shortened is written, in full and before anything depends on it, as one zero-terminated line in the usual signed numbering, and each clause given up is written as a deletion line; the resulting file refutes the input whenever the answer is "unsatisfiable". The proof checker accepts a proof only if every added clause follows by unit propagation or is a resolution asymmetric tautology, and the proof ends in the empty clause.',
  ['inputs', 'histories'], 'for every input formula, configuration and proof',
  'One test proof is replayed; proof validity is a statement about all runs, and checker soundness about all proofs.',
  [S+'core/clauses/Certificate.h', S+'core/clauses/ClauseDatabase.h', S+'core/DRATChecker.cc'],
  [('line format', S+'core/clauses/Certificate.h: added, removed, proof'), ('logging at every change', S+'core/clauses/ClauseDatabase.h: createClause, removeClause, strengthenClause, emptyClause'), ('checking', S+'core/DRATChecker.cc: check_proof, check_clause_add, check_clause_remove')])
p('C10', 'Reading DIMACS yields exactly the written formula, normalised',
  'Reading a DIMACS text yields, in order, each written clause with repeated literals removed and literals ordered, drops precisely the clauses that contain a literal and its negation, keeps empty clauses, ignores comments and any layout of blanks and line ends, and reports as number of variables the highest variable used in any written clause (dropped ones included). Malformed text, or numbers beyond what a literal can hold (magnitude above 2^30 - 1), are rejected with an error and never silently altered, and writing a problem and reading it back gives the same problem.',
  ['inputs'], 'for every DIMACS text, including any split of clauses over lines and read-buffer boundaries',
  'The tests parse a few small well-formed files; buffer boundaries, missing final newlines, duplicates and malformed tokens are not covered.',
  [S+'core/CNFProblem.cc', S+'core/CNFProblem.h', S+'utils/StreamBuffer.cc', S+'utils/StreamBuffer.h'],
  [('clause normalisation', S+'core/CNFProblem.cc: readClause'), ('tokenising', S+'utils/StreamBuffer.cc: readInteger, skipWhitespace, skipLine, check_refill_buffer'), ('writing', S+'core/CNFProblem.cc: printDIMACS')])
p('C11', 'The IPASIR interface behaves as the standard says over any call history',
  'Literals added and assumed through the C interface reach the solver with the same variable and sign, clauses end exactly at zero, assumptions hold for exactly one solve call, and the answer is 10, 20 or 0 (0 only when interrupted). After 10 the value query returns for each literal itself, its negation or 0 (no value, as for variables never used), the same answer for both polarities, and the values given satisfy every clause and assumption; after 20 the failed query, asked for assumptions of that call, is true only for a set of them that contradicts the clauses.',
  ['inputs', 'histories'], 'for every sequence of interface calls the standard permits',
  'Tests drive a few fixed call sequences.',
  [S+'ipasir/ipasircandy.cc', S+'ipasir/ipasir.h'],
  [('translation of literals and states', S+'ipasir/ipasircandy.cc: add, assume, solve, val, failed')])
p('C12', 'Literals and three-valued truth values obey their algebra',
  'For every variable and sign, a literal gives back its variable and sign, negation is an involution that changes only the sign, distinct (variable, sign) pairs give distinct literals, and the order of literals groups a variable with its negation. Truth values form the three-valued logic: comparison, exclusive-or with a sign, conjunction and disjunction follow the textbook tables for every internal encoding of "undefined".',
  ['inputs'], 'for every variable below the limit, every sign and every bit pattern of a truth value',
  'Tests sample some values; the claim covers all encodings, including the two different bit patterns of "undefined".',
  [S+'core/SolverTypes.h'],
  [('literal encoding', S+'core/SolverTypes.h: Lit'), ('lifted booleans', S+'core/SolverTypes.h: lbool')])
p('C13', 'The priority queue returns its minimum and tracks membership exactly',
  'After any sequence of insertions, removals, key updates and rebuilds, the queue contains exactly the elements put in and not yet taken out, and each once. Taking the first element yields one that no other contained element precedes in the given order.',
  ['inputs', 'histories'], 'for every strict weak order and every operation sequence',
  'There is no test of the queue itself; it is an invariant over all histories.',
  [S+'mtl/Heap.h'],
  [('sift up / down', S+'mtl/Heap.h: percolateUp, percolateDown'), ('operations', S+'mtl/Heap.h: insert, removeMin, update, decrease, increase, build, clear')])
p('C14', 'Mark sets and sliding averages report exactly what was put in',
  'A mark set answers "marked" exactly for the elements marked and not unmarked since the last clearing, no matter how often it has been cleared, including when its internal counter wraps around. The bounded window used for restart decisions always holds exactly the most recent values up to its capacity, and its sum and average are those of these values.',
  ['inputs', 'histories'], 'for every sequence of mark, unmark, clear, grow and push operations',
  'Tests clear a few times; wrap-around needs as many clears as the counter has values, and window contents depend on the whole history.',
  [S+'mtl/Stamp.h', S+'mtl/BoundedQueue.h'],
  [('stamping', S+'mtl/Stamp.h: set, unset, clear, operator[]'), ('ring buffer', S+'mtl/BoundedQueue.h: push, getavg, fastclear, isvalid')])
p('C15', 'Recognised gates are real definitions, and pruning to them keeps satisfiability',
  'Every gate reported for an output literal is built from clauses of the problem, no clause is used twice (root clauses, gates and the remainder are a partition of the clauses), and its clauses define the output by its inputs: under every assignment of the inputs some value of the output satisfies them, and where pattern or semantic detection reports a full equivalence that value is unique (holistic detection: unique together with the other clauses of the problem). A literal set is reported as blocking exactly if every resolvent with the clauses containing its negation is tautological (below 65535 occurrences), and replacing the problem by the clauses reachable from the roots keeps it equisatisfiable: a model of the pruned problem extends to a model of the whole.',
  ['inputs'], 'for every CNF formula and recognition option',
  'Tests use hand-made Tseitin encodings; arbitrary formulas with near-gates are not swept.',
  [S+'gates/GateAnalyzer.cc', S+'gates/BlockList.h', S+'gates/GateProblem.h'],
  [('blocked-set test', S+'gates/BlockList.h: isBlocked'), ('pattern and semantic tests', S+'gates/GateAnalyzer.cc: isGate, patternCheck, semanticCheck'), ('pruning', S+'gates/GateProblem.h: getPrunedProblem')])
p('C16', 'Bit-parallel simulation computes the gate semantics of every input vector',
  'Simulating a gate structure leaves, in every bit position of the simulation vectors, all clauses of every simulated gate satisfied by the values of its output and inputs in that position (a stored bit of 1 means the variable is false), with the values of the input variables unchanged. Equivalence and backbone conjectures contain only variables that agreed (up to the recorded sign) or were constant in every simulated position, hash collisions of the grouping aside.',
  ['inputs'], 'for every gate structure and every pattern of input bits',
  'Tests simulate small fixed structures with a few patterns.',
  [S+'randomsimulation/Propagation.cc', S+'randomsimulation/SimulationVector.h', S+'randomsimulation/ClauseOrder.cc', S+'randomsimulation/Partition.cc'],
  [('vector operations', S+'randomsimulation/SimulationVector.h'), ('gate propagation', S+'randomsimulation/Propagation.cc'), ('partitioning', S+'randomsimulation/Partition.cc')])
p('C17', 'Model minimisation keeps satisfying the problem, and its counters count',
  "A minimised model is a part of the model found and still satisfies every clause of the problem (in the pruned modes: of the pruned problem; in the projected modes gate outputs are left out); in the minimal mode no model with fewer true literals is left. The parts it is built from mean what they say: an odd number of true inputs forces an adder's sum, two or more force its carry, and counter together with bound k can be satisfied for exactly those inputs of which fewer than k are true.",
  ['inputs'], 'for every problem, model and number of counted literals',
  'Tests minimise a few fixed instances and never look at the generated circuits.',
  [S+'minimizer/Minimizer.cc', S+'minimizer/Minimizer.h'],
  [('circuits', S+'minimizer/Minimizer.cc: genHalfAdder, genFullAdder, genParCounter, genLessThan'), ('minimisation', S+'minimizer/Minimizer.cc: computeMinimalModel, purify')])
p('C18', 'The benchmark hash is MD5 of the normalised clause list, whatever the layout',
  'The instance hash of a problem is the MD5 digest of its normalised clause list in order, each literal written as its internal number (twice the variable index, plus one if negated) and each clause ended by 0, all separated by single blanks; so problems that differ only in layout, comments, header, order or repetition of literals within clauses, or tautological clauses get the same hash. The digest function agrees with RFC 1321 on every byte string however it is fed in pieces, empty pieces included.',
  ['inputs'], 'for every file and every chunking of every byte string',
  'No test computes a hash.',
  [S+'gbd/hash.cpp', S+'gbd/md5/md5.cpp', S+'gbd/md5/md5.h'],
  [('normalisation', S+'gbd/hash.cpp'), ('digest', S+'gbd/md5/md5.cpp')])
p('C19', 'Clause database reduction discards only unprotected learned clauses',
  'Reducing the database of learned clauses removes only learned clauses that are longer than two literals, and not protected by a low quality measure, and never more than half of those; it runs at level 0, where no assignment needs its reason. After the compaction that follows, every kept clause is present unchanged, and exactly the binary clauses are in the binary lists.',
  ['inputs', 'histories'], 'for every database content and trail',
  'The fixed instances rarely reach a reduction; losing one clause does not change most answers.',
  [S+'systems/ReduceDB.h', S+'core/clauses/ClauseDatabase.h', S+'core/clauses/Clause.h'],
  [('selection', S+'systems/ReduceDB.h: reduce'), ('classification', S+'core/clauses/Clause.h: isLearnt, isPersistent, isDeleted, setDeleted'), ('compaction', S+'core/clauses/ClauseDatabase.h: reorganize, reinitBinaryWatchers')])
p('C20', 'Decisions are made on unassigned decision variables until none is left',
  'Every branching strategy returns, whenever some decision variable is unassigned, a literal of an unassigned decision variable, and returns "no decision" only when every decision variable is assigned. It stays so after any conflicts, backtracks, restarts and reductions.',
  ['inputs', 'histories'], 'for every trail state reachable by any history, for each strategy',
  'A lost variable shows only as a model with an unassigned variable in rare histories.',
  [S+'systems/branching/VSIDS.h', S+'systems/branching/LRB.h', S+'systems/branching/VSIDSC.h'],
  [('pick loop', S+'systems/branching/VSIDS.h: pickBranchLit; LRB.h; VSIDSC.h'), ('reinsertion', 'VSIDS/LRB: reset, process_conflict')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
ids = set()
with open(out, 'w') as f:
    for d in P:
        assert d['id'] not in ids and len(d['title']) <= 80, (d['id'], len(d['title']))
        ids.add(d['id'])
        f.write(json.dumps(d) + '\n')
print(len(P))
