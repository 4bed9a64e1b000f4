#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe]))
    if state: d['anchors']['state']=[dict(name=state,meaning=state,where=files[0])]
    P.append(d)
L='src/libkiter/'
p('P01','Repetition vector is exact, minimal, and detects inconsistency',
  'For every (cyclo-static) dataflow graph the computed repetition vector is the smallest vector of positive firing counts (a whole number of phase cycles for every actor attached to a channel) that returns every channel to its initial token count. A graph for which no such vector exists is always reported as inconsistent and never receives a vector. The answer does not depend on initial tokens, durations, or on the order in which actors and channels were declared.',
  ['inputs'],'all graphs: any topology (cycles, parallel channels, self-loops, disconnected parts), any rates including zero-rate phases',
  'Consistency is a global arithmetic condition on all undirected cycles; tests use a handful of fixed graphs, almost all consistent and small-rate.',
  [L+'models/repetition_vector.cpp',L+'models/Dataflow.h'],
  [('computeRepetitionVector','src/libkiter/models/repetition_vector.cpp'),('setEdgeInPhases/setEdgeOutPhases totals','src/libkiter/models/Dataflow.h')],
  'return value of the repetition-vector computation and the per-actor counts stored in the graph')
p('P02','Optimal throughput analyses return the exact maximum throughput',
  'For every consistent graph the optimal (K-periodic, N-periodic) throughput analyses report exactly the largest iteration rate any execution of the graph can sustain (that of self-timed execution). They report zero exactly when the graph deadlocks. Both analyses, and the K-periodic schedule they induce, agree with each other.',
  ['inputs'],'all consistent graphs: SDF and CSDF, cyclic and acyclic, live and deadlocked',
  'The iterative algorithm grows the periodicity vector along critical circuits; stopping one iteration early or mis-building one constraint gives a plausible but wrong number on some graphs only, and the existing benchmark runs check only the exit code.',
  [L+'algorithms/throughput/kperiodic.cpp',L+'models/EventGraph.cpp',L+'algorithms/scheduling/CSDF_KPeriodicScheduling.cpp',L+'algorithms/dse/kperiodic.cpp'],
  [('generateKPeriodicConstraint / updateEventGraph','src/libkiter/algorithms/throughput/kperiodic.cpp'),('MinCycleRatio','src/libkiter/models/EventGraph.h')],
  'throughput printed by the KPeriodicThroughput / NKPeriodicThroughput / EGN commands and returned by the scheduling and exploration entry points')
p('P03','Symbolic execution returns the exact self-timed throughput',
  'For every consistent live graph without auto-concurrency, throughput evaluation by as-soon-as-possible execution reports exactly the iteration rate of the self-timed execution, taking the slowest strongly connected component into account. For graphs that deadlock it reports zero. It always terminates on live graphs with positive execution times.',
  ['inputs','histories'],'all consistent graphs with positive durations, including multi-component graphs whose parts run at different rates',
  'The answer depends on transient length, recurrent-state detection and component scaling; a handful of example graphs cannot exercise all the relative phase offsets of concurrent actors.',
  [L+'algorithms/throughput/symbolic_execution.cpp',L+'algorithms/throughput/state.cpp',L+'algorithms/throughput/actor.cpp',L+'algorithms/scc.cpp'],
  [('computeComponentThroughput','src/libkiter/algorithms/throughput/symbolic_execution.cpp'),('State::operator==','src/libkiter/algorithms/throughput/state.cpp'),('computeSCCKosaraju/generateSCCs','src/libkiter/algorithms/scc.cpp')],
  'throughput printed by the SymbolicExecution-style throughput command')
p('P04','Restricted periodic analyses are exact for their class, never optimistic',
  'For every consistent graph, the 1-periodic throughput analyses report exactly the best throughput among all schedules in which every phase of every actor repeats at a constant period, and the strictly periodic analysis reports a throughput that some schedule with equally spaced firings really reaches. If no schedule of the class exists they report zero throughput. Hence strictly periodic <= 1-periodic <= optimal throughput always holds.',
  ['inputs'],'all consistent graphs, SDF and CSDF',
  'Optimality over a whole class of schedules cannot be observed on examples; an off-by-one in a token lower bound gives a slightly pessimistic or infeasible answer only for certain rate/token residues.',
  [L+'algorithms/throughput/kperiodic.cpp',L+'algorithms/throughput/csdf_strictly_periodic.cpp',L+'algorithms/scheduling/CSDF_KPeriodicScheduling.cpp',L+'algorithms/scheduling/CSDF_SPeriodicScheduling.cpp',L+'algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp'],
  [('compute_1Kperiodic_throughput','src/libkiter/algorithms/throughput/kperiodic.cpp'),('generate_csdf_strictly_periodic_event_graph','src/libkiter/algorithms/throughput/csdf_strictly_periodic.cpp')],
  'throughput printed by the 1PeriodicThroughput / EG1 / 1PeriodicScheduling / SPeriodicScheduling / LP commands')
p('P05','Every produced schedule is executable',
  'Every schedule the tool produces for a live graph (K-periodic, 1-periodic, strictly periodic, as-soon-as-possible, linear-programming based) can be executed forever: no firing ever starts before the tokens it consumes exist, and an actor with limited concurrency never overlaps itself. Each actor fires exactly as often per graph period as balance requires, so the schedule really runs at the throughput announced with it.',
  ['inputs','histories'],'all live consistent graphs and every firing of the infinite execution (initial part and periodic part)',
  'The throughput number may be right while start times are wrong; existing tests check validity with the library\'s own checker on a few graphs.',
  [L+'algorithms/scheduling/CSDF_KPeriodicScheduling.cpp',L+'algorithms/scheduling/CSDF_SPeriodicScheduling.cpp',L+'algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp',L+'algorithms/throughput/kperiodic.cpp',L+'algorithms/throughput/symbolic_execution.cpp',L+'models/Scheduling.cpp'],
  [('computeStartingTimeWithOmega','src/libkiter/models/EventGraph.cpp'),('period2Scheduling','src/libkiter/algorithms/throughput/kperiodic.cpp'),('ASAPScheduling','src/libkiter/algorithms/throughput/symbolic_execution.cpp')],
  'start times and periods of the returned schedule object')
p('P06','Cycle-ratio solver is exact and its critical circuit is real',
  'For every constraint graph the solver returns exactly the minimum over all circuits of (sum of heights / sum of durations), and a circuit of the graph that attains it. For every period at or above the reciprocal of that ratio the computed start times satisfy every constraint. Without any constraining circuit it says so instead of inventing a bound.',
  ['inputs'],'all small constraint graphs: any topology, integer and rational weights, several circuits with equal or nearly equal ratios',
  'Howard iteration may stop in a non-optimal policy only for particular weight combinations and vertex orders; tests include a few instances.',
  [L+'models/EventGraph.h',L+'models/EventGraph.cpp'],
  [('MinCycleRatio / MaxCycleRatio','src/libkiter/models/EventGraph.h'),('computeStartingTimeWithOmega','src/libkiter/models/EventGraph.cpp')],
  'returned ratio, critical circuit and start times')
p('P07','Graph files round-trip without loss',
  'Writing any graph to an SDF3 file and reading it back yields the same graph: same actors, phases, durations, concurrency limits, channels, rates, and initial tokens, hence the same analysis results. Reading a well-formed file yields exactly the graph it describes, including compressed rate lists and initial phases.',
  ['inputs','histories'],'all graphs the model can express with named actors and channels',
  'Serialisation errors show only for specific shapes (self-loops, several ports, initialisation phases, compressed lists, fractional times); tests only check that files can be read.',
  [L+'printers/SDF3Wrapper.cpp',L+'printers/stdout.cpp',L+'commons/commons.h'],
  [('parse_sdf3_xml / readSDF3','src/libkiter/printers/SDF3Wrapper.cpp'),('generateSDF3XML','src/libkiter/printers/SDF3Wrapper.cpp')],
  'graph object obtained after writing and re-reading the file')
p('P08','Graph editing keeps the model coherent',
  'After any sequence of graph edits (add/remove/rename actors and channels, set rates, durations, tokens, copies, analyses in between) the graph contains exactly the elements a plain reference model predicts: identifiers and names stay unique and resolvable, incident channels disappear with their actor, neighbours stay attached. Analysis results never survive an edit that invalidates them. Illegal edits (duplicate or empty names, identifiers in use) are rejected, and edits attempted while analysis results are held are refused and leave the graph unchanged.',
  ['histories','inputs'],'all sequences of editing operations up to the depth bound, on graphs with up to four actors',
  'Stale descriptors, cached values and id counters go wrong only after particular operation orders.',
  [L+'models/Dataflow.h',L+'models/Dataflow.cpp',L+'models/repetition_vector.cpp'],
  [('addVertex/addEdge/removeVertex/removeEdge/setVertexId','src/libkiter/models/Dataflow.h'),('reset_computation','src/libkiter/models/Dataflow.h')],
  'public accessors of the graph after each operation','readonly/repetition-vector/normalisation flags and id counters of the graph')
p('P09','Throughput/buffer exploration returns the true Pareto front',
  'For every consistent live graph the throughput-buffering exploration returns, for every achievable throughput up to the target, a storage distribution of the smallest total size reaching it. Every returned point is achievable: with those channel capacities the graph really sustains the announced throughput. No returned point is dominated by another distribution.',
  ['inputs'],'all small consistent live graphs; all storage distributions up to the bound',
  'Completeness and minimality quantify over all storage distributions; missing one dependency or pruning one direction loses a point only on particular graphs.',
  [L+'algorithms/dse/dse.cpp',L+'algorithms/dse/buffer_sizing.cpp',L+'algorithms/dse/kperiodic.cpp',L+'algorithms/dse/base_monotonic_optimisation.cpp',L+'algorithms/dse/monotonic_optimisation.cpp'],
  [('throughput_buffering_tradeoff_dse','src/libkiter/algorithms/dse/dse.cpp'),('StorageDistributionSet::minimizeStorageDistributions','src/libkiter/algorithms/dse/buffer_sizing.cpp'),('findMinimumStepSz/findMinimumChannelSz','src/libkiter/algorithms/dse/buffer_sizing.cpp')],
  'Pareto points printed by the ThroughputBufferingDSE command')
p('P10','Storage-distribution sets behave as sets with exact dominance',
  'Under any sequence of operations the collection of storage distributions holds exactly the distributions a reference collection predicts: no loss, no duplicates, correct ordering by size. The minimal set keeps exactly the non-dominated distributions for each throughput, and membership in the up-/down-closed cones is exactly component-wise comparison.',
  ['histories','inputs'],'all sequences of insertions and removals up to the depth bound over small distributions',
  'Dominance pruning errors show only for particular insertion orders and ties.',
  [L+'algorithms/dse/buffer_sizing.cpp'],
  [('StorageDistributionSet','src/libkiter/algorithms/dse/buffer_sizing.cpp'),('inBackConeOf/inForConeOf','src/libkiter/algorithms/dse/buffer_sizing.cpp')],
  'public queries of the collection','content of the set keyed by distribution size')
p('P11','Buffer sizes computed for a period are sufficient for it',
  'For every live graph and every reachable target period, the buffer sizes reported by the periodic, strictly periodic, fixed-offset and back-pressure sizing commands suffice: channels bounded to the reported sizes (where only a total is reported, some distribution of it) still sustain that period. With the integer option the periodic and strictly periodic totals are the least with which a schedule of that kind exists, so a larger period never needs a larger total and the exploration over periods prints exactly the trade-off points; an unreachable period yields no sizes. Bounding channels by adding reverse channels reserves exactly the computed capacity (times the requested multiplier) and never changes the repetition vector or the original channels.',
  ['inputs'],'all small live graphs and a range of target periods at or above the minimum',
  'Sufficiency concerns all possible executions under the capacities; the tests only check that the commands run.',
  [L+'algorithms/buffersizing/periodic.cpp',L+'algorithms/buffersizing/periodic_fixed.cpp',L+'algorithms/buffersizing/backpressure.cpp',L+'lp/glpsol.cpp',L+'algorithms/dse/periodic.cpp'],
  [('periodic_memory_sizing_csdf','src/libkiter/algorithms/buffersizing/periodic.cpp'),('speriodic_memory_sizing_csdf / AddVBuffers','src/libkiter/algorithms/buffersizing/periodic_fixed.cpp')],
  'total and per-channel sizes reported by the sizing commands; transformed graph; printed trade-off points')
p('P12','Component and cycle analyses are exact',
  'The strongly-connected-component decomposition equals mutual reachability for every graph, and the extracted component sub-graphs keep exactly the actors and internal channels with their rates and tokens. Cycle detection answers yes exactly when a cycle through several actors exists, and cycle counting enumerates every elementary cycle exactly once. Results do not depend on previous queries or on actor numbering.',
  ['inputs','histories'],'all directed multigraphs up to the bound, including self-loops, parallel channels, disconnected parts',
  'Graph algorithms fail on particular visiting orders; tests use two or three graphs.',
  [L+'algorithms/scc.cpp',L+'algorithms/analysis/cycle_detection.cpp',L+'models/EventGraph.cpp'],
  [('computeSCCKosaraju','src/libkiter/algorithms/scc.cpp'),('find_simple_cycles/has_cycles','src/libkiter/algorithms/analysis/cycle_detection.cpp')],
  'sets of actors returned per component; printed cycle answers')
p('P13','Merging actors preserves the behaviour of the graph',
  'Replacing a set of actors by one composite actor yields a consistent, live graph in which the composite executes each merged actor\'s firings in their required proportion and order, and whose channels to other actors carry the same token flow and keep their tokens and token size. All actors outside the group and channels between them are unchanged. The merged graph never claims a throughput above that of the original.',
  ['inputs'],'all small live graphs and all non-trivial choices of actors to merge',
  'The composite is a sequence of phases derived from a schedule with a transient part; mistakes appear only for particular rates and initial tokens.',
  [L+'algorithms/transformation/merging.cpp'],
  [('merge_tasks','src/libkiter/algorithms/transformation/merging.cpp')],
  'graph after the Merge transformation')
p('P14','Network topology and routing are correct',
  'In a network-on-chip grid of any size every node is connected exactly to its grid neighbours, edge identifiers are unique and resolvable in both directions, and neighbour queries agree with the grid. Every route produced by dimension-ordered routing between any two cores is a connected path from source to destination of minimal length travelling first along one dimension, then the other, and randomised routes are connected and minimal whatever the random choices. Every mapping command places every task on a core (on the requested core when one is given), and the combined mapping-and-routing command gives every task its own core and every channel between different tasks a connected, minimal route between their cores.',
  ['inputs'],'all grid sizes up to the bound and all ordered pairs of nodes',
  'Index arithmetic errors affect only particular rows, columns or non-square grids; the tests use one grid.',
  [L+'models/NoC.h',L+'models/NoC.cpp',L+'algorithms/mapping/xyRouting.cpp',L+'algorithms/mapping/randomRouting.cpp',L+'algorithms/mapping/moduloMapping.cpp',L+'algorithms/mapping/createNoC.cpp'],
  [('NoC::generateEdgesAndNodes','src/libkiter/models/NoC.cpp'),('xyRouting','src/libkiter/algorithms/mapping/xyRouting.cpp')],
  'node/edge accessors of the network and the routes stored in the graph')
p('P15','Generated random graphs honour their configuration',
  'Every graph produced by the random generator is consistent and live, has the requested numbers of actors and channels, and keeps phase counts, total rates per cycle and durations within the requested bounds. The same seed and configuration always yield the same graph.',
  ['inputs','configurations'],'all seeds in the range and all combinations of small configuration values',
  'Liveness repair and rate normalisation go wrong for rare random draws only.',
  [L+'generators/RandomGenerator.cpp',L+'generators/LTEGeneator.cpp'],
  [('RandomGenerator::generate','src/libkiter/generators/RandomGenerator.cpp')],
  'graph returned by the generator')
p('P16','Packet traces are causal and complete, and their replay respects the network',
  'The packet trace of a live single-phase graph lists, for every firing of the requested iterations, one computation packet and, per output channel, as many packets as its tokens need at the requested packet size (one if no size is requested), each following the previous one; identifiers are consecutive, dependencies are earlier packets, a firing follows the previous firing of its actor and its packets follow it, and a firing depends on the packets that carry the tokens it consumes (on the latest one of a channel, since channels are first-in first-out); untimed execution and trace generation succeed exactly for live graphs. The time-division replay of any packet list delivers every packet exactly once: it starts when its dependencies are delivered, sends after its computation time in the first occurrence of the slot of its pair of cores that no other packet of this pair takes, and arrives after the grid distance plus one (at once on the same core).',
  ['inputs','histories'],'all small graphs, packet sizes and iteration counts; all small packet lists, dependency relations, grids and slot tables',
  'Dependencies are wrong only for particular token offsets; the tests only check that the commands run.',
  [L+'algorithms/symbolic_execution.cpp',L+'algorithms/scheduling/TDMAScheduler.cpp',L+'algorithms/scheduling/TDMAScheduler.h'],
  [('symbolic_execution_with_packets','src/libkiter/algorithms/symbolic_execution.cpp'),('TDMAScheduler::write_tdma_schedule','src/libkiter/algorithms/scheduling/TDMAScheduler.cpp')],
  'trace printed by SymbolicExecutionWP, delivery table printed by TDMASchedule')
p('P17','HSDF-based throughput matches the exact throughput on SDF graphs',
  'For every consistent single-phase graph without limited multi-concurrency, the expansion-based throughput methods report exactly the self-timed throughput, equal to the optimal K-periodic result (infinite when nothing constrains the graph). Deadlocked graphs are not reported as live. The constraint graph of a partial expansion has, for every expansion vector, exactly the best period of the schedules with that expansion (ordered starts, unlimited concurrency).',
  ['inputs'],'all small consistent single-phase graphs',
  'Expansion arithmetic depends on residues of rates and tokens; tests check only the exit code.',
  [L+'algorithms/throughput/degroote.cpp',L+'algorithms/experiments/ExpansionGraph.cpp',L+'algorithms/throughput/SDF3Wrapper.cpp'],
  [('generateEventGraph degroote','src/libkiter/algorithms/throughput/degroote.cpp'),('PartialExpansion','src/libkiter/algorithms/experiments/ExpansionGraph.cpp')],
  'throughput printed by the deGroote throughput command')
p('P18','Throughput under bounded buffers is exact and bottlenecks are real',
  'For every live graph and every assignment of capacities to channels, evaluation by as-soon-as-possible execution with bounded buffers reports exactly the throughput of the bounded execution, and zero exactly if it deadlocks. If enlarging buffers can improve the throughput at all, the set of channels reported as limiting contains one whose enlargement is necessary for any improvement (corrected search; the original search keeps the omissions of the published method).',
  ['inputs','histories'],'all small graphs and all capacity assignments in a range around the minimum',
  'Recurrent-state and dependency detection depend on the interleaving of firings in the periodic phase.',
  [L+'algorithms/throughput/symbolic_execution.cpp',L+'algorithms/dse/abstract_dep_graph.cpp',L+'algorithms/throughput/actor.cpp',L+'algorithms/throughput/state.cpp'],
  [('computeComponentThroughputCycles','src/libkiter/algorithms/throughput/symbolic_execution.cpp'),('abstractDepGraph','src/libkiter/algorithms/dse/abstract_dep_graph.cpp')],
  'throughput and channel list returned for a storage distribution')
p('P19','Normalisation preserves token semantics',
  'Normalising a consistent graph assigns positive weights such that every actor moves the same normalised amount per iteration on each of its channels, and for a connected graph the normalised rates have no common divisor. Normalised markings allow exactly the same firing sequences as the original ones, and analyses give the same result whether or not the graph was normalised before.',
  ['inputs'],'all small consistent graphs',
  'Exactness is an arithmetic property of all rate combinations.',
  [L+'algorithms/normalization.cpp',L+'models/Dataflow.h'],
  [('normalize','src/libkiter/algorithms/normalization.cpp'),('normalizeValue/getNormMop','src/libkiter/models/Dataflow.h')],
  'weights stored on actors and channels')
p('P20','Exact arithmetic helpers are exact',
  'Fractions, gcd/lcm over collections, rounding down/up to a multiple, extended Euclid and list parsing helpers return the mathematically exact result for all operands in range, including negative operands and equal bounds.',
  ['inputs'],'all operands in a bounded range',
  'Sign and boundary residues; the analyses are built on these.',
  [L+'commons/commons.h',L+'commons/commons.cpp'],
  [('floor/ceil/division/extended_euclide/split','src/libkiter/commons/commons.h')],
  'returned values')
p('P21','Graph transformations touch only what they announce',
  'Removing concurrency limits clears the limit of exactly the named actors, removing actors removes exactly them and their channels, and both leave everything else (rates, tokens, durations, identifiers) untouched. The single-output rewriting leaves the actor with one output channel whose copies carry, to every former target, the tokens and rates of the original channel, and the explicit network model replaces every routed channel by a chain of exactly the links and routers of its route with the same end rates and tokens; both keep every other element, consistency, relative firing counts and liveness, and never increase the throughput.',
  ['inputs'],'all small graphs, all selections of actors, all placements on small grids',
  'Side effects on neighbouring elements show only in particular topologies.',
  [L+'algorithms/transformation/remove_reentrancy.cpp',L+'algorithms/transformation/bug_explorer.cpp',L+'algorithms/transformation/singleOutput.cpp',L+'algorithms/mapping/modelCommunications.cpp'],
  [('remove_reentrancy','src/libkiter/algorithms/transformation/remove_reentrancy.cpp'),('remove_task','src/libkiter/algorithms/transformation/bug_explorer.cpp'),('singleOutput','src/libkiter/algorithms/transformation/singleOutput.cpp'),('ModelNoCConflictFreeCommunication','src/libkiter/algorithms/mapping/modelCommunications.cpp')],
  'graph after the transformation')
p('P22','The command line runs exactly the requested commands with their own parameters',
  'A command line naming an input file (or a generator) and a list of commands runs these commands, each once, in the given order, on that one graph as left by the previous command. Each command (or generator) receives exactly the parameters written since the previous command or generator, the last value of a repeated name winning and everything after the first equal sign being the value; parameters after the last command are added to every command without replacing its own. The exit status is zero exactly when an input could be read or generated and every command is known; after an unknown command nothing runs.',
  ['inputs','configurations'],'all argument sequences up to the bound',
  'Binding of parameters to commands depends on the whole order of the arguments; the tests use a handful of fixed orders and look at the exit status only.',
  ['src/kiter/main.cpp',L+'commons/KiterRegistry.h'],
  [('main','src/kiter/main.cpp'),('KiterRegistry','src/libkiter/commons/KiterRegistry.h')],
  'calls received by registered commands, exit status')
p('P23','Analyses observe the graph and nothing else',
  'An analysis, scheduling, sizing-analysis, detection or printing command leaves every actor, channel, rate, duration, token, limit, mapping and route of the graph as it was. What a command reports, and what a transformation produces, does not depend on which of these commands ran before it on the same graph; after the graph is edited, every command reports what it would report on a graph built that way from the start.',
  ['inputs','histories'],'all command sequences up to the bound, all single edits in between',
  'Results are cached inside the graph and commands share one object; leftovers show only for particular orders of commands and edits, and the tests run each command on a fresh graph.',
  [L+'models/Dataflow.h',L+'algorithms/algorithms.h',L+'printers/stdout.cpp'],
  [('reset_computation/caches','src/libkiter/models/Dataflow.h'),('registered commands','src/libkiter/algorithms/algorithms.h')],
  'graph before and after, printed results')
p('P24','Reports, drawings and generated construction code show the graph as it is',
  'The information table and the drawings of graphs and mappings show every actor, channel, network node and link exactly once with its own identifiers, rates, tokens, durations, repetition counts, placement and route usage, with correct totals, and announce inconsistent graphs. The generated construction code, when executed, rebuilds a graph with the same actors, channels, rates, tokens, exact execution times and concurrency limits and returns it, and drawn schedules show every execution of a hyper-period at its place. A named output file receives exactly what would be printed.',
  ['inputs'],'all small graphs, placements and schedules',
  'Reports are read by people and other tools; the tests only check that the printing commands end normally.',
  [L+'printers/stdout.cpp',L+'printers/printers.h',L+'models/Scheduling.cpp',L+'algorithms/throughput/SDF3Wrapper.cpp'],
  [('printInfos/GenerateGraphDOT/GenerateNoCDOT/generate_kiter','src/libkiter/printers/stdout.cpp'),('asASCII','src/libkiter/models/Scheduling.cpp')],
  'printed tables, drawings, code and files')
p('P25','Linear programs are built as stated and solved to optimality',
  'A linear or integer program stated through rows, columns, bounds, kinds and coefficients is solved as stated whatever the order in which rows and columns are added and whatever their names: a solution is announced exactly if the program is feasible, the reported values respect every bound, row and integrality requirement, and their objective is the optimum in the requested direction. Names added twice or unknown names are refused, and lookups find exactly what was added.',
  ['inputs','configurations'],'all small programs with bounded optimum and every solver option',
  'Every LP-based analysis rests on this layer; wrong bounds or indices show only for particular combinations of bounds, kinds and insertion order.',
  [L+'lp/glpsol.cpp',L+'lp/glpsol.h'],
  [('GLPSol::generateGLPKProblem/solve','src/libkiter/lp/glpsol.cpp'),('bound_s/addRow/addColumn/addCoef','src/libkiter/lp/glpsol.h')],
  'solver verdict and values returned by the solver object')
p('P26','The validity test of schedules accepts exactly the executable ones',
  'A schedule (initial starts and periodic starts per actor) is reported valid exactly if it can be executed for ever: every execution finds all its input tokens at its start, where tokens become available when the execution that produces them ends, and no actor ever has more executions in progress than its concurrency limit. Touching times (a start at the very moment of an end) are allowed, and the verdict depends only on the graph and the schedule, not on identifiers, on where the first start lies or on the scale of time.',
  ['inputs'],'all small graphs with all small schedules, executable or not',
  'The verdict is what a user (and the tool itself) relies on to trust a schedule; wrong acceptance needs a late violation after the transient, wrong refusal needs simultaneous or unlimited executions.',
  [L+'models/Scheduling.cpp',L+'models/Scheduling.h'],
  [('Scheduling::is_valid_schedule','src/libkiter/models/Scheduling.cpp')],
  'verdict of is_valid_schedule')
import sys,os
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
