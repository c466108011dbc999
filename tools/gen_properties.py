#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            observe_at=observe or [], hook_needed=hook)))

prop("G01", "A constructed graph is exactly the data the user supplied",
 "For every distribution of vertices, weighted hyperedges or directed edges, edge types and ghost owners that a user passes in, the graph reports exactly those vertices, weights, coordinates, edges, pins, edge weights and ghost owners, under the ids that were given. The local counts equal what was given on each process, and the global counts count every vertex, edge and pin exactly once over all processes. All ways of building the graph (one call, piecewise with containers, piecewise with plain arrays) give the same graph, and building again over an existing graph leaves nothing of the old one.",
 ["inputs", "configurations"],
 "every hypergraph/traditional graph, id space, distribution over 1..N processes (empty parts, isolated vertices, single-pin and empty hyperedges included), number of edge types and construction path",
 "The construct tests use a handful of fixed rings and lines with unit weights, one path each and consecutive ids; edge weights in particular are never given in anything but the default.",
 ["agi/agiConstruct.cpp", "agi/ngraph.h", "agi/agiVertex.cpp", "agi/agiEdge.cpp", "agi/pngraph.h"],
 [("offset/CSR building per edge type", "agi/agiConstruct.cpp: constructVerts/constructEdges/constructGhosts"), ("global counts by ownership of the lowest resident part", "agi/agiConstruct.cpp: constructGhosts")],
 [("vertex/edge id maps", "global<->local ids", "agi/pngraph.h"), ("degree/edge/pin lists", "CSR of the part", "agi/pngraph.h")],
 ["public query functions of the graph on every process, gathered and compared with the model the graph was built from"])

prop("G02", "Every traversal of the graph agrees with every other one",
 "Walking vertices, ghost vertices, edges of a type, edges of a vertex, pins of an edge or neighbours of a vertex visits each entity that exists exactly once (per incidence), ends, and never yields anything else. Degrees, edge end points, equality, id lookup, the set of parts an edge is resident on, and whether an edge is cut all agree with what those walks show.",
 ["inputs", "configurations"],
 "every valid graph (both modes, any number of edge types, isolated vertices, multi-edges, repeated neighbours) and every entity of it, for complete, abandoned and interleaved walks",
 "Tests walk a few fixed small graphs and mostly count; entities with degree 0, more than two edge types and cut/residence answers are not compared with anything independent.",
 ["agi/agiIterate.cpp", "agi/agiEdge.cpp", "agi/agiVertex.cpp", "agi/Iterators/EdgeIterator.h", "agi/Iterators/PinIterator.h", "agi/Iterators/GraphIterator.h", "agi/Iterators/HyperEdgeIterator.h"],
 [("entity handles encode local id and edge type", "agi/agiIterate.cpp"), ("binary search for the source of an edge", "agi/agiEdge.cpp: u()"), ("residence/cut from owners of pins", "agi/agiEdge.cpp: getResidence/isResidentOn/isCut")])

prop("G03", "Second adjacencies list exactly the true neighbours through an edge type",
 "After building vertex-edge-vertex or edge-vertex-edge adjacency for an edge type, iterating an entity's list yields exactly the entities reached through one intermediate entity of that type: once per path in the uncompressed form, and once per distinct other entity in the compressed form. The answer depends only on that edge type, and rebuilding replaces the previous lists.",
 ["inputs", "configurations"],
 "every valid graph, edge type, compressed or not, first build or rebuild, entities with empty lists",
 "Tests build only edge type 0 of small graphs and compare with the same library's adjacency walk of type 0.",
 ["agi/agiConstruct.cpp", "agi/agiIterate.cpp", "agi/agiVertex.cpp", "agi/agiEdge.cpp"],
 [("two-pass offset and list construction", "agi/agiConstruct.cpp: create_vev_adjacency/create_eve_adjacency"), ("handle encoding of list positions", "agi/agiIterate.cpp; agi/agiVertex.cpp: vev_begin; agi/agiEdge.cpp: eve_begin")])

prop("G04", "Data attached to entities is stored per entity; ghosts show the owner's value",
 "A value stored in a tag for a vertex or edge is what is read back for that entity until it is overwritten, independent of all other entities, tags and types. Ghost data (integer, long and double ghost tags, and the weight of a ghost vertex) equals what the vertex's owner reported for it when the data was last collected - when the ghost tag was created, or for weights when the graph was constructed, migrated or its weights were moved - for every ghost on every process.",
 ["inputs", "histories", "configurations"],
 "every graph, interleaving of tag creation/set/get/destroy over vertices and edges of all types, and every distribution of ghosts over processes",
 "Tests set one tag to a constant or id on small graphs and check ghosts for one fixed callback.",
 ["agi/agiTag.cpp", "agi/agiInfo.h", "agi/agiVertex.cpp", "agi/agiConstruct.cpp"],
 [("dense per-entity storage indexed by local id", "agi/agiInfo.h; agi/agiTag.cpp"), ("request/reply exchange with owners", "agi/agiTag.cpp: create*GhostTag"), ("ghost weights as a ghost tag", "agi/agiConstruct.cpp: constructGhosts")])

prop("G05", "Removing an edge type removes that type and nothing else",
 "After the edges of one type are removed, that type reports no edges, pins or degree anywhere, while the vertices, ghosts, weights and every other edge type are unchanged. The graph stays usable: it can be traversed, checked, partition-queried, migrated, extended with another type and destroyed.",
 ["inputs", "histories"],
 "every graph with up to the maximum number of types, removal of any type in any order, followed by any use of the graph",
 "One test removes the last type of a small graph and does nothing afterwards.",
 ["agi/agiConstruct.cpp", "agi/agiVertex.cpp", "agi/agiMigrate.cpp", "agi/agiValid.cpp"],
 [("release of the per-type arrays", "agi/agiConstruct.cpp: removeEdges")])

prop("G06", "The validity check accepts every valid graph and rejects a broken one",
 "The library's own validity check returns true, on every process, for every graph built or transformed through the public interface from consistent input. It returns false on the process concerned when a count no longer matches what traversal yields, when a vertex and an edge disagree about being connected, or when a ghost is recorded as owned by its own process or by a rank beyond the last one.",
 ["inputs", "histories"],
 "every valid graph and history of operations; every single-field corruption of the counts, incidences and ghost owners that the check is documented to cover",
 "The check is itself what the tests use as an oracle; its verdict is never tested on a corrupted graph, and tests ignore its return value.",
 ["agi/agiValid.cpp"],
 [("recount by traversal and reduction", "agi/agiValid.cpp: checkValidity")])

prop("M01", "Migration sends every vertex where the plan says and changes nothing else",
 "After a migration each vertex lives on exactly one process: the one its plan entry names, or its previous one if it has none. The global graph - vertex ids, weights and coordinates, the edges of every type with their pins and weights - is identical to what it was before, through any sequence of migrations and repartitions. Every process that owns an end of a hyperedge, or the source of a directed edge, holds that edge with all its pins, once.",
 ["inputs", "histories", "schedules"],
 "every graph (both modes, several edge types with different connectivity, coordinates or not), every plan (empty, self moves, swaps, emptying and filling parts, all to one), every sequence of plans, any number of processes and message order",
 "Tests migrate two fixed graphs once with a fixed pattern and compare counts; multiple edge types, weights, coordinates, traditional edges between a moved and an unmoved vertex and repeated migrations are not covered.",
 ["agi/agiMigrate.cpp", "agi/agiMigration.cpp", "agi/agiMigration.h", "agi/agiConstruct.cpp"],
 [("selection of affected entities", "agi/agiMigrate.cpp: getAffected/addVertices/addEdges"), ("exchange and rebuild", "agi/agiMigrate.cpp: sendVertex/sendEdges/recvEdges/migrate")],
 [("plan", "destination of each local vertex", "agi/agiMigration.h")],
 ["graph queries before and after each migration on all processes"])

prop("M02", "After migration every process's view of its surroundings is right",
 "Following any migration or repartition, the ghosts of each process are exactly the off-process ends of its edges, each with its true current owner and weight. Local and global counts, part residence, cut edges and original-owner information equal those of a graph freshly constructed in the new distribution.",
 ["inputs", "histories", "schedules"],
 "every graph and plan sequence; in particular two neighbouring vertices moving at once, ghosts that become local and back, several edge types with different neighbours, directed edges without a reverse edge",
 "Tests only run the (ignored) validity check after a migration; a stale owner is in range and passes it.",
 ["agi/agiMigrate.cpp", "agi/agiConstruct.cpp", "agi/agiTag.cpp"],
 [("update of ghost owners before the exchange", "agi/agiMigrate.cpp: updateGhostOwners"), ("owners travel with the pins of each edge", "agi/agiMigrate.cpp: sendEdges/recvEdges")])

prop("M03", "The returned partition maps original vertices to where they are now",
 "Asking for the partition yields, on each process, exactly the vertices that process owned when ownership was last recorded, each mapped to the process that owns it now. Over all processes every vertex appears exactly once, through any sequence of migrations, repartitions, balances, splits and ownership resets.",
 ["inputs", "histories", "schedules"],
 "every graph, sequence of ownership-changing operations and resets, number of processes (including processes that start or end empty)",
 "Tests request the partition once after one migration and compare sizes.",
 ["agi/agiMigrate.cpp", "agi/agiVertex.cpp", "agi/ngraph.h"],
 [("original owner travels with the vertex", "agi/agiMigrate.cpp: sendVertex/recvVertex/setOriginalOwners"), ("report back to the original owner", "agi/agiMigrate.cpp: getPartition")])

prop("M04", "Weight diffusion conserves weight and its plan explains every change",
 "Moving weight between vertices (directly by plan, or by the weight balancer) changes no vertex, edge or total weight, and no vertex weight becomes negative. Each vertex's new weight is its old weight minus what it sent plus what was sent to it; the recorded weight plan holds exactly those net transfers, only positive ones after balancing, and only between vertices that share an edge. A graph already within tolerance keeps all its weights. On well-connected graphs with weights large enough to be divided that start clearly above tolerance, the weight balancer reduces the imbalance.",
 ["inputs", "histories", "schedules", "configurations"],
 "every graph with integer or fractional weights and several vertices per process, any weight plan, tolerance, step factor and number of processes",
 "The tests run the weight balancer on one family of symmetric graphs and check nothing about the result (a TODO in the source).",
 ["agi/agiWeightMigrate.cpp", "agi/agiWeightMigration.cpp", "agi/agiMigration.h", "partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_weightSelector.cpp"],
 [("debit at the sender, credit at the receiver", "agi/agiWeightMigrate.cpp"), ("plan bookkeeping and simplification", "agi/agiWeightMigrate.cpp; engpar_weightBalancer.cpp: simplifyPlan")])

prop("F01", "Saving and loading a graph gives the same graph",
 "A graph written to files and loaded by the same number of processes is identical: mode, vertices, weights, coordinates, every edge type with ids, weights and pins in order, ghosts, owners and counts. A missing or unwritable file is reported as an error, and nothing is written outside the named location.",
 ["inputs", "histories", "configurations"],
 "every graph whose ids fit the file format's unsigned 32-bit fields, at any number of processes, before or after other operations, any weight and coordinate values",
 "No baseline test writes a graph and reads it back with weights, several types or coordinates and compares.",
 ["agi/agiIO.cpp", "pcu/pcu_io.c"],
 [("file layout writer/reader", "agi/agiIO.cpp: saveToFile/loadFromFile")])

prop("F02", "Loading a binary edge list gives exactly the edges of the file",
 "Loading an edge-list file, with the default block distribution or a given vertex partition, produces a traditional graph with every vertex id from zero to the largest mentioned, owned by the process the partition says, and exactly the directed edges of the file with their multiplicities. Ghosts carry their true global id and owner, and the result does not depend on the number of processes that read it.",
 ["inputs", "configurations"],
 "every edge list (isolated vertices, self loops, repeated edges, unsorted), partition file and number of processes, including more processes than vertices",
 "The graphs needed by these tests are not in the repository here, so no test loads an edge list.",
 ["interfaces/binGraph.cpp", "interfaces/binGraph.h"],
 [("read, exchange by source owner, relabel, build CSR and ghosts", "interfaces/binGraph.cpp: load_edges/exchange_edges/create_dist_csr")])

prop("F03", "Visualisation output is well formed and describes the graph",
 "Writing a graph with coordinates for visualisation gives one well-formed file per process plus an index naming all of them. Array lengths match the declared numbers of points and cells, every cell refers to declared points, vertex positions are the given coordinates, hyperedge positions the mean of their pins, and the part and tag arrays carry the right values.",
 ["inputs", "configurations"],
 "every graph with coordinates in either mode, tag on vertices, edges or none, and any number of processes",
 "One test writes files for tiny graphs and never reads them.",
 ["agi/agiVTK.cpp"],
 [("points, cells, data writers", "agi/agiVTK.cpp"), ("exchange of ghost coordinates", "agi/agiVTK.cpp: writePoints")])

prop("P01", "Diffusive balancing moves vertices legally and never changes the graph",
 "For every graph and setting of the balancer's options the run terminates on all processes within its iteration limits and leaves the same global graph, with a valid distribution and a correct original-to-current map. In every step each moved vertex goes from its owner to a different process that was a neighbour of that part, and the number of steps never exceeds the limits the user set.",
 ["inputs", "configurations", "schedules", "histories"],
 "every distributed graph (disconnected parts, empty parts, heavy vertices, large hyperedges), priority list, tolerance, step factor, iteration limit, queue kind, connectivity and cut-growth option, and number of processes",
 "Without the external graph collection the baseline balances almost nothing; options other than the defaults are never exercised.",
 ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_targets.h", "partition/Diffusive/src/engpar_queue.cpp", "partition/Diffusive/src/engpar_sides.h", "partition/Diffusive/src/engpar_weights.h", "partition/Diffusive/src/engpar_sd.cpp"],
 [("step loop with tolerance, stagnation and iteration limits", "engpar_balancer.cpp: balance/runStep"), ("cavity selection", "engpar_selector.cpp: select/selectDisconnected")])

prop("P02", "Balancing keeps what is balanced and improves what is not",
 "A graph that is already within tolerance for all requested criteria is left untouched. Once a criterion has been processed, later ones never raise its heaviest part above the larger of its heaviest part at that time and tolerance times average (vertex criteria on any graph, edge criteria on hypergraphs). On well-connected graphs that start clearly above tolerance, balancing a single criterion reduces its imbalance.",
 ["inputs", "configurations", "schedules"],
 "every distributed graph and priority list (for the first two clauses); families of mesh-like graphs with random weights and skewed distributions (for the third)",
 "The few graph files the balance tests need are absent here; with them they check one final number for one setting.",
 ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_targets.h", "partition/Metrics/engpar_metrics.cpp"],
 [("negotiation of incoming weight per completed criterion", "engpar_selector.cpp: trim/acceptWeight/cancel"), ("targets from side lengths and weight differences", "engpar_targets.h"), ("completion bound", "engpar_balancer.cpp: completed_weights")])

prop("P03", "Splitting distributes the same graph over the requested parts",
 "Splitting a graph from a small group of processes to a larger one, globally (graph or hypergraph partitioner) or locally, leaves the same global graph on the larger group, every vertex on a process of that group, and the communicator switched to it. A local split keeps each original part's vertices on the processes allotted to that part. The partition map leads from the original owners to the new ones, and parts meet the requested tolerance on graphs where the partitioner can.",
 ["inputs", "configurations", "schedules"],
 "every graph that the small group can hold, split factor, group layout (which ranks are original), method, edge type and tolerance",
 "The split tests need graph files that are absent here, so no test splits anything in the baseline.",
 ["partition/Multilevel/engpar_split.cpp", "partition/Multilevel/engpar_parmetis.cpp", "partition/Multilevel/engpar_zoltan.cpp", "partition/engpar_input.cpp", "agi/agiMigrate.cpp"],
 [("communicator switching, rank renumbering and migration", "engpar_split.cpp: split/expandParts")])

prop("P04", "The external partitioner is given exactly the graph and obeyed exactly",
 "What is handed to the graph or hypergraph partitioner describes exactly the vertices, integer weights and adjacency of the graph in question (for a local split, of the local part alone): consistent numbering over processes, adjacency without self references that is symmetric where the graph's is, weights that add up the shared edges. Each vertex then goes to the part the partitioner returned for it.",
 ["inputs", "configurations"],
 "every graph, edge type, split method and process layout",
 "A wrong adjacency or weight array still yields some partition; no test looks at what is handed over.",
 ["partition/Multilevel/engpar_parmetis.cpp", "partition/Multilevel/engpar_zoltan.cpp", "partition/Multilevel/engpar_split.cpp"],
 [("renumbering and CSR assembly", "engpar_parmetis.cpp: EnGPar_ParMETIS"), ("query callbacks", "engpar_zoltan.cpp")],
 None, ["the partitioner's entry points, interposed at link time"])

prop("P05", "Reported partition metrics are the true ones",
 "Part weights, imbalances and the printed evaluation of a partition (maximum, minimum, average and imbalance of neighbours, vertices with and without ghosts, and edges of each type, parts that are disconnected through edges of the first type, empty parts, edge cut) equal the values computed from the definition, for every graph with at least one edge type and every process count. The imbalances, numbers of steps and numbers of moved vertices that a balancer reports while it runs are those of the graph at that time.",
 ["inputs", "configurations"],
 "every graph with 0 to the maximum number of edge types, any weights, empty parts, prefixes of any length, with or without ghosts counted",
 "Tests call the evaluation for its output only.",
 ["partition/engpar.cpp", "partition/Metrics/engpar_metrics.cpp", "partition/engpar.h"],
 [("local counting and reductions", "partition/engpar.cpp: evaluatePartition"), ("weight and imbalance functions", "engpar_metrics.cpp")])

prop("P06", "The selection order lists every boundary edge exactly once, farthest first",
 "The order in which boundary edges are considered for moving contains every edge (of the type it is built for) shared with another part exactly once and nothing else, for both the plain and the distance-based order and both traversal directions. For a hypergraph the distance-based order never lists an edge nearer to the topological centre of its piece of the part (the edges farthest from the boundary) before one farther away; a part of several disconnected pieces is listed piece by piece, pieces with a shallower centre first and, among those equally deep, pieces of fewer edges first.",
 ["inputs", "configurations"],
 "every part of every distributed hypergraph (disconnected parts, parts with few edges, no boundary, everything boundary); plain and push order also for traditional graphs",
 "One small program prints an order for one graph file that is absent here.",
 ["partition/Diffusive/src/engpar_queue.cpp", "partition/Diffusive/src/engpar_queue.h"],
 [("two breadth-first passes with disjoint sets", "engpar_queue.cpp: createDistanceQueue/bfs_push/bfs_pull"), ("boundary scan", "engpar_queue.cpp: createIterationQueue")])

prop("P08", "Each balancing step moves weight downhill, within limits, and stops for cause",
 "In every step of the diffusive balancer a part moves only vertices that lie on its boundary (an edge of the first type shared with another part). Unless disconnected pieces are being collected (a minimum connectivity above one), it sends them only to parts it shares edges of the chosen type with that are lighter than itself in the dimension being balanced, that have not outgrown what an earlier criterion was completed with and, on hypergraphs with more than two parts, across a side no longer than the average cut; and it plans no more than one cavity beyond the step factor times the weight differences, shared out by the length of the sides. With a limit on the growth of the cut it moves only vertices of which some boundary cavity stays below it. What arrives at a part in a step fits, for every criterion completed before (vertex criteria, and edge criteria of hypergraphs), into the room left below the weight that criterion was completed with. With the part weight balancer switched on, the parts' weights are first diffused over the graph of neighbouring parts by the rules of weight diffusion, and what a part sends to another stays within what is left of that flow instead. Weight diffusion hands weight only to lighter neighbours, at most that allowance per neighbour and never more than a vertex has. No step is taken below the tolerance, beyond the limits on steps (in total or per criterion) or after the imbalance has risen twice running; every criterion has its turn while steps remain; the first criterion does not end early while a boundary edge is left that could be moved; and the reported numbers of steps and causes of ending are the true ones.",
 ["inputs", "configurations", "schedules"],
 "every distributed graph with edges in both directions, priority list, tolerances, step factor, limits, queue kind, sides and ghost setting, any number of processes",
 "The baseline balances almost nothing, and a test sees the graph after all steps, never the weights and boundaries a step was decided on.",
 ["partition/Diffusive/src/engpar_balancer.cpp", "partition/Diffusive/src/engpar_targets.h", "partition/Diffusive/src/engpar_sides.h", "partition/Diffusive/src/engpar_weights.h", "partition/Diffusive/src/engpar_selector.cpp", "partition/Diffusive/src/engpar_sd.cpp", "partition/Diffusive/src/engpar_weightBalancer.cpp", "partition/Diffusive/src/engpar_weightSelector.cpp"],
 [("targets from side lengths and weight differences", "engpar_targets.h: Targets"), ("cavity selection against the targets", "engpar_selector.cpp: select"), ("tolerance, stagnation and limits", "engpar_balancer.cpp: runStep/balance"), ("weight hand-over", "engpar_weightSelector.cpp: select")])

prop("P07", "The C interface does what the C++ interface does",
 "A graph constructed, weighted, balanced, split, repartitioned, queried, saved or loaded through the C interface is the same as when the corresponding C++ calls are made, and the partition returned in caller arrays lists each original vertex exactly once with its current process.",
 ["inputs", "histories", "configurations"],
 "every graph and sequence of C calls, any number of processes",
 "The C interface is reached by the tests only through two Fortran programs on one tiny graph.",
 ["interfaces/cengpar.cpp", "interfaces/cengpar.h", "ftn"],
 [("thin wrappers and array marshalling", "interfaces/cengpar.cpp")])

prop("C01", "Every message of a communication phase arrives exactly once, intact",
 "In each communication phase every process receives, from each peer that packed data for it (itself included), exactly one message with exactly the packed bytes in packed order, attributed to the right sender, and the phase ends on all processes after everything has been received. Nothing leaks from one phase into another, for any sizes, patterns, consecutive phases and message timing.",
 ["inputs", "schedules", "histories"],
 "every send pattern (none, self, all-to-all, sparse, skewed), sizes from 0 bytes to megabytes, any number of back-to-back phases, any arrival order and delay, ordered and unordered receiving",
 "Tests use the layer indirectly with small regular patterns and whatever timing the machine produces.",
 ["pcu/pcu.c", "pcu/pcu_msg.c", "pcu/pcu_aa.c", "pcu/pcu_buffer.c", "pcu/pcu_order.c", "pcu/pcu_pmpi.c", "pcu/pcu_mpi.c", "pcu/pcu_coll.c"],
 [("synchronous sends plus non-blocking barrier for termination", "pcu/pcu_msg.c"), ("per-peer buffers in a balanced tree", "pcu/pcu_aa.c; pcu/pcu_buffer.c"), ("sender ordering", "pcu/pcu_order.c")])

prop("C02", "Collectives give every process the right answer at every process count",
 "Sum, minimum, maximum, prefix-sum, broadcast-like and logical reductions over any length and any number of processes return to every process the result of combining each process's contribution exactly once, and barriers release nobody before everyone has entered.",
 ["inputs", "configurations", "schedules"],
 "every process count (powers of two or not), vector length (0 included), value range, and arrival skew",
 "Tests use scalar sums at 1, 2 and 4 processes.",
 ["pcu/pcu_coll.c", "pcu/pcu.c", "pcu/pcu_coll.h"],
 [("binary-tree and hypercube-like patterns", "pcu/pcu_coll.c")])

prop("C03", "Switching communicators isolates groups and restores correctly",
 "After switching to a sub-communicator, rank, size, messaging and collectives refer to that group only; groups working at the same time never see each other's traffic; and switching back restores the whole, for any sequence of switches and any groups.",
 ["histories", "schedules", "configurations"],
 "every nesting and sequence of communicator switches, with concurrent unequal traffic in disjoint groups and differing numbers of phases",
 "Only the split tests switch, once, and they are idle in the baseline.",
 ["pcu/pcu.c", "pcu/pcu_pmpi.c", "support/engpar_support.cpp"],
 [("duplicate communicators for user and collective traffic", "pcu/pcu_pmpi.c: pcu_pmpi_switch/init"), ("switch with reset of state", "pcu/pcu.c: PCU_Switch_Comm")])

prop("C04", "Results do not depend on message timing",
 "Construction, migration, partition maps, ghost data, loading, splitting and metrics give the same graph-level result whatever the relative speed of the processes and the order in which messages from different senders arrive, and none of them hangs.",
 ["schedules"],
 "every arrival order of the messages in each phase and every relative delay of the processes",
 "A test sees the one order the machine happens to produce, nearly always the same on one node.",
 ["agi/agiMigrate.cpp", "agi/agiTag.cpp", "agi/agiWeightMigrate.cpp", "partition/Multilevel/engpar_parmetis.cpp", "pcu/pcu_msg.c", "pcu/pcu.c", "partition/Diffusive/src/engpar_weights.h"],
 [("receivers index what they unpack by id or by sender", "agi/agiMigrate.cpp; agi/agiTag.cpp; engpar_weights.h")],
 None, ["MPI receive and probe calls, interposed"])

prop("C05", "The portable binary file layer returns what was written",
 "Unsigned integers, doubles and strings written through the file layer, compressed or not, are read back bit for bit in order on this machine, their bytes on disk are in the documented fixed byte order, and a short or missing file is reported rather than read as data.",
 ["inputs", "histories"],
 "every sequence of typed writes of any length and bit pattern (NaN payloads, infinities, zero length), files of any size",
 "One test round-trips a few numbers.",
 ["pcu/pcu_io.c", "pcu/pcu_io.h", "pcu/pcu_byteorder.h", "pcu/reel/reel.c", "pcu/noto/noto_malloc.c"],
 [("byte swapping around block reads/writes", "pcu/pcu_io.c")])

prop("C06", "Misuse of the message layer and of handles is refused, not executed",
 "Calling a communication function at the wrong time (packing or asking for sizes outside a packing stage, sending twice, beginning a phase inside another, listening before sending or, in an unordered phase, before the message was unpacked), for a process that does not exist, reading more than was received, using the layer before it is initialised or after it is freed, and initialising or freeing it twice each stop the program with a message, while the proper form of each works. The position of a ghost and the weight or position of a vertex that does not exist are exceptions and its owner is -1; a hyperedge has no single end; a plan that moves a vertex to a process that does not exist is refused, and so is splitting with an input made for something else or, locally, without naming the processes.",
 ["inputs", "histories"],
 "every misuse after every history of proper phases, every handle on every process of every graph",
 "No test misuses anything: a lost check shows only as silent loss of data in a faulty program.",
 ["pcu/pcu.c", "pcu/pcu_msg.c", "pcu/pcu_buffer.c", "agi/agiVertex.cpp", "agi/agiEdge.cpp", "agi/agiMigration.cpp", "agi/agiMigrate.cpp"],
 [("stage checks of the phase state machine", "pcu/pcu.c; pcu/pcu_msg.c: enter/leave stages"), ("bounds of the read buffer", "pcu/pcu_buffer.c: pcu_walk_buffer"), ("local id checks", "agi/agiVertex.cpp: coord, weight, owner")])

prop("C07", "The library starts and stops cleanly and says exactly what it is asked to",
 "EnGPar can be initialised and finalised any number of times, through C++ or C, before or after its user sets up the message layer: initialising sets the layer up only if it is not there, finalising takes it down only if the matching initialisation set it up, closes the log, and is harmless when repeated. Every process always knows its number and the number of processes of the current communicator; after each start messages are received in sender order unless that is turned off. A message with a level is printed in full exactly if the verbosity is at least that level; status messages and warnings go to the output and errors to the error stream, each with its prefix, and an error is remembered until a test is started. The log exists on the first process only and has exactly the functions logged, indented by their nesting, until it is closed; with debug files each process writes to a file of its own. The start message is printed by the first process only, and only if not quiet.",
 ["histories", "configurations"],
 "every history of starts, stops, communicator switches, verbosity, order and log settings on every process count",
 "A test program starts once, stops once and looks at no output.",
 ["support/engpar_support.cpp", "support/engpar_log.cpp", "support/engpar_message.cpp", "pcu/pcu.c", "pcu/pcu_pmpi.c", "interfaces/cengpar.cpp"],
 [("ownership of the message layer", "support/engpar_support.cpp: handlingPCU"), ("verbosity levels", "support/engpar_support.cpp; support/engpar_message.cpp"), ("nesting depth of the log", "support/engpar_log.cpp")])

prop("S01", "Valid use never touches invalid memory or undefined behaviour",
 "No sequence of valid calls to the library makes it read or write outside its objects, use freed or mismatched memory, overflow a fixed buffer, or otherwise execute undefined behaviour, for any graph size, number of edge types, name length, verbosity or logging setting.",
 ["inputs", "histories", "configurations"],
 "every valid program over the public interfaces: construction, queries, migration, IO, balancing, splitting, evaluation, logging, at all sizes and process counts",
 "Tests run small cases without sanitizers; an overflow by a few bytes passes.",
 ["agi", "interfaces/binGraph.cpp", "interfaces/cengpar.cpp", "partition", "support", "pcu"],
 [("manual arrays and fixed character buffers throughout", "agi/agiConstruct.cpp; partition/engpar.cpp; support/engpar_message.cpp")])

prop("S02", "Everything the library allocates is released",
 "Repeating any complete cycle of building, using and destroying graphs, balancers, splits, queries, maps, iterators and messages leaves no library allocation, open file or communicator behind: memory held does not grow with the number of cycles.",
 ["histories", "inputs"],
 "every complete cycle of public operations, with each error-free path inside them, repeated any number of times",
 "Tests exit right after use, so the operating system hides every leak.",
 ["agi", "interfaces", "partition", "support", "pcu"],
 [("manual new/delete pairing", "throughout")])

prop("S03", "No result depends on uninitialised memory",
 "Running the same program with the same input twice yields the same observable results (graph contents, maps, printed metrics, files, decisions of the balancer) irrespective of what fresh heap and stack memory happened to contain.",
 ["inputs", "configurations"],
 "every valid input; every initial content of uninitialised storage",
 "A fresh process mostly sees zeroed pages, so a test cannot tell a missing initialisation from a zero.",
 ["agi", "interfaces", "partition", "support", "pcu"],
 [("arrays filled after allocation", "throughout")])

prop("S04", "Looking changes nothing, settings only printing, graphs are independent",
 "Walking, querying, measuring, checking, ordering, saving, rendering, printing, asking for maps, collecting ghost data and plans that are thrown away leave a graph and the data attached to it exactly as they were. Verbosity, the log and work on other graphs do not change the result of any operation: a quiet balancer prints nothing, only the first process reports below the highest verbosity, the log nests operations as they were called. Changing or destroying a graph does not affect another one.",
 ["inputs", "histories", "configurations"],
 "every pair of graphs alive at once, any interleaving of operations that look and operations that change, every verbosity with and without a log",
 "A test uses one graph at one verbosity and never looks twice.",
 ["agi", "partition/engpar.cpp", "partition/Metrics/engpar_metrics.cpp", "partition/Diffusive/src/engpar_queue.cpp", "support/engpar_log.cpp", "support/engpar_message.cpp"],
 [("temporary tags and iterators released after use", "engpar_queue.cpp; engpar.cpp: countDisconnected"), ("verbosity and log guarded output", "support/; engpar_balancer.cpp"), ("per graph state only", "agi/ngraph.h")])

prop("N01", "A mesh is turned into the graph its topology defines",
 "Building the graph of a mesh gives one vertex per primary element and one hyperedge of each requested type per bounding entity, with the mesh's weights, coordinates and ownership, and migrating the graph and applying the result to the mesh keeps both consistent.",
 ["inputs", "configurations"],
 "every distributed mesh and choice of primary and secondary dimensions",
 "The mesh library and the meshes are not available, so the code is not even compiled.",
 ["interfaces/apfGraph.cpp", "interfaces/dofGraph.cpp"],
 [("mesh traversal and global numbering", "interfaces/apfGraph.cpp; interfaces/dofGraph.cpp")])

prop("N02", "Parallel colouring gives neighbouring entities different colours",
 "The accelerator colouring assigns every vertex or edge a colour such that entities adjacent in the chosen sense never share one.",
 ["inputs", "schedules"],
 "every graph, colouring kind and thread schedule",
 "The accelerator library is not available, so the code is not compiled.",
 ["partition/Coloring/engpar_kokkosColoring.cpp"],
 [("device-side greedy colouring", "partition/Coloring/engpar_kokkosColoring.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
