T='exhaustive bounded enumeration of the real code against an exact reference model'
NA={}
NOTE['P01']=(T+' (all graphs of bounded families)','Every graph of the listed families (up to 5 actors, 5 channels, 4 phases, rates up to 12) is built through the public API in three declaration orders and the real computation is compared with an independent exact balance-equation solver. Trusts the small solver in kv/graph.hpp.')
NOTE['P02']=(T+' (max-plus dependency graph + explicit token game)','All graphs of bounded families (<=5 actors, SDF/CSDF, cyclic/acyclic, live/deadlocked, unlimited concurrency, disconnected, large/fractional durations, rates and tokens times 2^31): five entry points of the real analysis are compared with an exact rational cycle-ratio oracle, itself cross-checked per case against an explicit-state self-timed execution.')
NOTE['P03']=(T+' (explicit-state self-timed token game)','All graphs of bounded families, in two declaration orders: the throughput printed by the as-soon-as-possible execution command is compared with an explicit-state token game per strongly connected component.')
NOTE['P04']=(T+' (exact difference constraints over all firings of a hyper-period)','All graphs of bounded families: ten analysis commands (event-graph, scheduling, strictly periodic exact/approximate, 2-periodic, three LP variants) against the exact best period of their schedule class; the reference itself is cross-checked (nested classes, optimum of the widest class equals the max-plus optimum).')
NOTE['P05']=(T+' (replay of every produced schedule on an explicit token machine)','All graphs of bounded families: schedules of seven producers (K-, 1-, strictly periodic, three LP variants, as-soon-as-possible) are replayed firing by firing over the whole transient plus at least two further iterations; as-soon-as-possible schedules of graphs with several components are replayed component by component (the missing coordination between components is a known finding).')
NOTE['P06']=(T+' (enumeration of all elementary circuits)','Every constraint graph of the listed families (1..4 events with every ordered pair present or absent, rings with chords up to 40 events), in two insertion orders: ratio, critical circuit, start times and decomposition against the enumeration of all elementary circuits in exact rational arithmetic.')
NOTE['P07']=(T+' (write/read of every graph of bounded families; every presentation variant of a file)','All graphs of bounded families (phases, initial phases, fractional times, special characters, empty names, after edits) written by three routes and read back; all combinations of 8 presentation choices (compressed lists, attribute/port/element order, omitted defaults, white space, extra elements) of generated files are read; the reader/writer result is compared field by field with the enumerated graph. Concurrency limits above 1 are outside the format.')
NOTE['P08']=(T+' (every sequence of editing operations up to the depth bound, judged by a plain reference model after each step)','All sequences of editing operations up to depth 4-5 (quick) on graphs with up to four actors, starting from the empty graph and from several prepared graphs, analyses interleaved: after every step all public accessors are compared with a reference model. Release builds end the process on some refused edits; nothing is claimed about the graph after such a refusal. The refused-edit forms that return (read-only graph) must leave it unchanged.')
NOTE['P09']=(T+' (exact Pareto front by enumerating every storage distribution of every size)','All live connected graphs of bounded families (1-4 actors, SDF and multi-phase, self-loops, rings, trees): for each, every distribution of every total size is evaluated until the best throughput is reached, and the rows written by the exploration (K-periodic and both symbolic-execution variants, default and explicit targets) must be that front exactly, each row achievable. Heuristic COARSE / monotonic options are not judged.')
NOTE['P10']=(T+' (every operation sequence up to the depth bound against plain reference collections)','All insert / remove / minimise / antichain / knee-point operation sequences up to depth 3-5 over all distributions with 1-3 channels and small capacities; after each sequence every public query is compared with a plain set and component-wise comparison.')
NOTE['P11']=(T+'every live graph of bounded families and five periods each: reported sizes are judged on the exact throughput of the bounded graph, minimality and trade-off fronts by enumerating every storage distribution','Minimality only claimed for the integer option; positive execution times; up to 3 actors.')
NOTE['P12']=(T+' (all labelled directed multigraphs of bounded size, complete cycle search as reference)','All labelled directed graphs with up to 4 actors (self-loops, parallel channels, four identifier numberings), 5 actors with up to 7-9 channels, and dense/long families up to 7 actors: components against the reachability relation, component sub-graphs against the original, cycle answers and cycle list (asked twice) against a complete search; also the component split of constraint graphs.')
NOTE['P20']=(T+' (exhaustive bounded operands and operation sequences against 128-bit arithmetic)','Every operand combination of the stated ranges for fractions (comparison, product, quotient, mixed with integers), rounding helpers, extended Euclid, channel rate gcds, list parsing; every operation sequence up to the depth bound for the grouping container.')
NOTE['P14']=(T+' (all grids up to a bound; all outcomes of the random choices through a scripted random source)','Every grid up to 9x9 (12x12): nodes, links, lookups and neighbours; dimension-ordered routes for every pair of cores up to 6x6 (8x8); randomised routes for every coin-toss sequence up to 3x3 (4x4); mappings for every random outcome; combined mapping and routing on all live graphs of bounded families with 2-5 actors on three meshes.')
NOTE['P17']=(T+' (token game, max-plus dependency graph and exact class periods)','All consistent single-phase graphs of the bounded throughput families: both expansion methods and the optimal K-periodic method against an explicit-state token game / exact cycle ratio; partial expansions for several expansion vectors per graph against the exact best period of that class, solved on the printed constraint graph.')
NOTE['P18']=(T+' (explicit bounded token game for every capacity assignment)','All live graphs of bounded families with every capacity assignment in a range around the minimum: reported throughput against an explicit-state bounded token game (cross-checked with the dependency graph with reverse channels); reported limiting channels are checked by lifting every other capacity. The original (uncorrected) channel search is judged on graphs with up to two actors plus one three-actor graph; its known omissions and unconnected graphs are known findings.')
NOTE['P15']=(T+' (every outcome of the random draws explored as a choice tree; every seed of a range)','The generator is compiled with its random draws as choice points: every sequence of draws for configurations of 1..3 actors and 0..2 (3) channels, with weights up to 4, up to 3 phases and 2 initial phases; every seed 0..300 (3000) of six larger configurations, each generated under four memory layouts and through the command; every small stage-width combination of the LTE generator. Oracles: exact balance equations and an untimed execution of two iterations.')
NOTE['P19']=(T,'Every graph of the listed families (1..4 actors, self-loops, disconnected, inconsistent): weights, factors, normalised rates and markings in exact rationals; every reachable firing-count vector of two iterations is walked in parallel on graph and normalised form; repeated after edits; three analyses with and without normalisation.')
NOTE['P13']=(T+' (every subset of actors of every graph merged; every reading of the composite explored)','Every non-empty subset of actors of every live graph of bounded families (2-4 actors, self-loops, 1-3 phases, limited and unlimited concurrency) is merged through the command and through 1-periodic and strictly periodic schedules. A breadth-first search over all readings of the composite phases as firings of merged actors decides flow, order and proportion; liveness through the transient by the untimed token game; throughput exactly on the dependency graph.')
NOTE['P16']=(T+' (every trace and every small packet list judged on its full dependency relation)','All single-phase graphs of bounded families (1-4 actors, self-loops, parallel channels) for packet sizes 0..4 and 1..3 iterations: the trace against the token flow of the graph, then replayed on a 4x4 grid under three mappings and slot tables. Every list of up to 4 packets with every dependency relation, slot table and small grid is replayed and judged. All small multi-phase graphs for the untimed execution. The unused acknowledgement option is not claimed.')
NOTE['P21']=(T+' (every selection of actors, every placement)','Graphs of bounded families (1-4 actors, self-loops, parallel channels, 1-2 phases): complete snapshots of the graph before and after each command, path-by-path comparison of copies and network chains, exact liveness and throughput before and after. Experimental commands that only print (software-controlled network flow) are not judged.')
NOTE['P22']=(T+' (every argument sequence up to the bound through the real main function)','All argument sequences of up to 5 arguments over 16 kinds (files, missing file, generators, known and unknown commands, parameters of five shapes, verbosity, help, stray words), values separate and attached; deeper sequences over smaller alphabets. Recording commands are registered beside the real ones.')
NOTE['P23']=(T+' (every sequence of commands and edits up to the bound)','Every ordered pair of 33 analysis/scheduling/sizing/printing commands plus 5 transformations as second command, on every live graph of bounded families, on one graph object and one output stream, against a fresh graph; every single edit out of 7 kinds between every pair of commands, against the edited graph built from the start; triples in the thorough tier. Whole-graph snapshots after each command.')
NOTE['P24']=(T+' (every graph, placement and schedule of bounded families; the printed text is parsed back, generated code is interpreted)','All graphs of bounded families through the table, graph drawing (brief and full), code and schedule printers, all placements on small meshes through the mapping drawing: the text is parsed back and compared with the graph read through its accessors; the generated code is executed by a small interpreter. Names with quotes or backslashes and empty graphs are not judged.')
NOTE['P25']=(T+' (exact corner and integer-point enumeration)','Every linear / integer program with one or two variables and up to three rows over listed bounds, kinds and coefficients, built in two orders and solved with every solver option, against exact rational corner enumeration and enumeration of all integer points. Unbounded programs and the interior point option are not judged.')
NOTE['P26']=(T+' (every small schedule of every small graph, executed tick by tick)','Grids of schedules (0..3 initial starts, 1..2 periodic starts, periods 1..6) over all graphs of one and two actors (phases, initial phases, limits none/1/2, zero times on acyclic graphs), two numberings and two time scales, against a tick-by-tick execution over the transient and several common periods; schedules computed by the tool as they are and with every start moved. Executions that end out of order are not judged.')
