"""What each check runs.  jobs: np = processes, q/t = number of cases quick/thorough."""
import fills
COMMON_ASSUMPTIONS = ["MPI, ParMETIS, Zoltan and the compiler's sanitizer run-time behave as documented",
                      "one machine, Open MPI over shared memory, little-endian, 32-bit local ids and 64-bit global ids"]
P = {}


def J(*a, **k):
    """J((np, quick cases, thorough cases), ...)"""
    return [dict(np=x[0], q=x[1], t=x[2], chunks=(x[3] if len(x) > 3 else 1), **k) for x in a]


P["G01"] = dict(mod="g01", jobs=J((1, 120, 1500), (2, 160, 2500), (3, 140, 2500), (4, 160, 2500), (5, 60, 800), (8, 50, 600), (12, 8, 200)),
                require={"state_checks": 200, "edges_compared": 2000},
                rule="a random graph (mode, 1..7 edge types, 10 topologies, 5 weight kinds, 5 id spaces, 6 distributions) built by one of 4 construction paths and compared with the model on every process; non-trivial: at least two vertices")
P["G02"] = dict(mod="g02", jobs=J((1, 120, 1500), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500), (7, 30, 500)),
                require={"interleaved_walks": 500, "handle_checks": 2000}, rule="random graph (both modes, 1..7 types, isolated vertices, parallel edges, self loops); complete, abandoned and interleaved walks compared with the model's incidences, and every handle query with the walks; non-trivial: at least two vertices")
P["G03"] = dict(mod="g03", jobs=J((1, 120, 1500), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500)),
                require={"vev_entries": 2000, "eve_entries": 2000}, rule="random graph, second adjacencies of every type built compressed and not, in random order and rebuilt, every list compared with the model's two-step neighbours; non-trivial: at least two vertices")
P["G04"] = dict(mod="g04", jobs=J((1, 80, 1500), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800), (12, 4, 150)),
                require={"ghost_values": 1000, "tag_values": 5000}, rule="random graph and random interleaving of creating, setting, overwriting, reading and destroying tags of all kinds on vertices and edges against a shadow map, and ghost tags against the owner's values gathered independently; non-trivial: at least two vertices")
P["G05"] = dict(mod="g05", jobs=J((1, 100, 1500), (2, 140, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800), (12, 4, 150)),
                require={"removals": 300, "types_added": 30, "migrations": 100}, rule='random graph, random order of removing types mixed with adding types, queries, migrations and partition queries, each state compared with the model; non-trivial: at least one removal')
P["G06"] = dict(mod="g06", jobs=J((1, 100, 1500), (2, 140, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800)),
                require={"valid_checked": 500}, rule='random graph through random operations (must be accepted everywhere) and one of several single-field corruptions of its counts, incidences or ghost owners (must be rejected where it was made); non-trivial: at least two vertices')
WMIG = "_ZN3agi6Ngraph7migrateEPNS_9MigrationEPNS_15MigrationTimersE"
P["M01"] = dict(mod="m01", jobs=J((1, 60, 1000), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800), (12, 4, 150)),
                require={"state_checks": 500, "vertices_moved": 1000}, rule='random graph and a sequence of random plans (empty, self moves, swaps, all to one, emptying parts) through migration plans and repartition; the whole distributed state compared with the model after each; non-trivial: at least one vertex moved')
P["M02"] = dict(mod="m02", jobs=J((1, 60, 1000), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800), (12, 4, 150)),
                require={"digests_compared": 300, "ghosts_compared": 1000}, rule='as M01, and a graph built from scratch in the new distribution is compared entity by entity with the migrated one; non-trivial: at least one vertex moved')
P["M03"] = dict(mod="m03", src=["work"], wraps=[WMIG], jobs=J((1, 40, 600), (2, 100, 2000), (3, 100, 2000), (4, 100, 2000), (6, 40, 600), (12, 4, 150)),
                require={"maps_judged": 300, "splits": 20, "balances": 50}, rule='random sequence of migrations, repartitions, balances, splits and resets of ownership with the partition map queried along the way and compared with the recorded history; non-trivial: at least one vertex changed owner')
P["P01"] = dict(mod="p01", src=["work"], wraps=[WMIG], jobs=J((1, 10, 100), (2, 120, 2000), (3, 100, 2000), (4, 100, 2000), (6, 40, 800), (8, 20, 400), (12, 10, 150)),
                require={"balances": 200, "steps": 300, "vertices_moved": 1000}, rule='random graph, distribution and balancer options; the plan of every step is observed at the call that migrates it and judged against the part adjacency before it, the final state against the model; non-trivial: at least one vertex moved')
P["M04"] = dict(mod="m04", src=["work"], wraps=[WMIG], jobs=J((1, 40, 500), (2, 140, 2500), (3, 120, 2500), (4, 120, 2500), (6, 40, 800), (12, 5, 150)),
                require={"weight_migrations": 150, "weight_balances": 100, "weights_changed": 20, "improved": 20}, rule='random weight plans applied directly and runs of the weight balancer, all weights, ghost weights and the recorded plan compared with a shadow account; non-trivial: at least one weight moved')
P["P02"] = dict(mod="p02", src=["work"], wraps=[WMIG], jobs=J((2, 120, 2000), (3, 100, 2000), (4, 100, 2000), (6, 40, 800), (8, 20, 400), (12, 8, 150)),
                require={"kept_graphs": 50, "later_steps_judged": 200, "improved": 30}, rule='three kinds of case: graphs within tolerance (must be untouched), several criteria in sequence (metrics recomputed after every step and held to the completed bounds), meshes clearly above tolerance (must improve); non-trivial: several processes')
P["P03"] = dict(mod="p03", src=["work"], wraps=[WMIG], jobs=J((1, 30, 300), (2, 100, 1500), (3, 80, 1500), (4, 100, 2000), (6, 50, 800), (8, 30, 600), (12, 8, 150)),
                require={"splits": 200, "vertices_moved": 2000, "tolerances_judged": 30}, rule='random graph on a random small group of a random layout split globally (graph or hypergraph partitioner) or locally; whole state, residence, map and tolerance judged; non-trivial: at least one vertex moved')
P["P04"] = dict(mod="p04", src=["work"], wraps=[WMIG, "ParMETIS_V3_PartKway", "Zoltan_Set_Fn", "Zoltan_Set_Param", "Zoltan_LB_Partition", "Zoltan_LB_Free_Part"],
                jobs=J((1, 60, 400), (2, 100, 1500), (3, 80, 1500), (4, 100, 2000), (6, 40, 800), (8, 30, 600), (12, 5, 150)),
                require={"inputs_judged": 300, "adjacencies_judged": 5000, "vertices_obeyed": 5000, "answers_substituted": 50}, rule="as P03 with the partitioner's entry points intercepted: every argument compared with one computed from the model, and the answer replaced by random parts that must be obeyed; non-trivial: at least one vertex handed over")
P["P05"] = dict(mod="p05", src=["work"], wraps=[WMIG], jobs=J((1, 80, 600), (2, 120, 2500), (3, 100, 2500), (4, 120, 2500), (6, 40, 800), (12, 4, 150)),
                require={"values_compared": 5000, "weights_compared": 3000, "after_migration": 100, "reports_judged": 500}, rule='random graph and distribution, before and after migrations; every reported and printed metric compared with its definition evaluated on the model; non-trivial: at least two vertices')
P["P06"] = dict(mod="p06", src=["work"], jobs=J((1, 60, 400), (2, 150, 2500), (3, 120, 2500), (4, 120, 2500), (6, 40, 800), (8, 20, 400), (12, 5, 150)),
                require={"edges_listed": 5000, "distance_orders_judged": 300, "orders_with_several_distances": 50, "disconnected_orders_judged": 80, "disconnected_orders_listed": 30}, rule='random graph and distribution; both selection orders in both directions compared with the boundary edges of the model and with topological distances recomputed by breadth first search; non-trivial: several processes')
P["P07"] = dict(mod="p07", src=["work", "fshim.f90"], wraps=[WMIG, "ParMETIS_V3_PartKway"], defs=["-DUSE_CENGPAR"],
                jobs=J((1, 60, 400), (2, 120, 2000), (3, 100, 2000), (4, 120, 2000), (6, 40, 800)),
                require={"maps_judged": 300, "splits_compared": 80, "balances_compared": 80, "files": 100, "evaluations_compared": 100, "fortran_calls": 2000, "c_calls": 2000}, rule='random graph taken through construction, save and load, migration, balancing, evaluation and splits with every call made at random through C or Fortran, next to the same C++ calls; non-trivial: at least two vertices')
P["P08"] = dict(mod="p08", src=["work"], wraps=[WMIG, "_ZN3agi6Ngraph7migrateEPNS_15WeightMigrationEPNS_15MigrationTimersE"], jobs=J((2, 150, 2500), (3, 120, 2500), (4, 120, 2500), (6, 50, 1000), (8, 20, 400), (12, 5, 150)),
                require={"steps_judged": 500, "flows_judged": 1000, "completed_judged": 200, "amounts_judged": 200, "criteria_judged": 300, "stops_judged": 20, "weight_flows_judged": 300, "part_plans_judged": 100, "growths_judged": 200, "arrivals_judged": 1000, "planned_flows_judged": 100, "reports_judged": 300}, rule='random graph, distribution and balancer options; every plan is seen at the call that migrates it and judged against weights, boundaries and targets recomputed from the model in the state before it, the end of every criterion against the documented causes; non-trivial: at least one step')
P["F01"] = dict(mod="f01", jobs=J((1, 100, 1000), (2, 120, 2500), (3, 100, 2500), (4, 100, 2500), (6, 40, 800), (12, 10, 150)) + J((1, 120, 2000), mode="fault") + J((2, 4, 40), (3, 4, 40), mode="fault", abort=True),
                require={"graphs_compared_bitwise": 500, "directories_listed": 200, "faults_load": 40, "faults_save": 20, "aborted_as_expected": 4},
                rule="random graph (ids up to 2^32-1, extreme doubles, names of many forms) saved and loaded, before and after other operations, over other graphs and files; files missing, cut at random bytes, replaced by directories or a full device; non-trivial: at least two vertices")
P["F02"] = dict(mod="f02", src=["work"], wraps=[WMIG], jobs=J((1, 80, 600), (2, 140, 2500), (3, 120, 2500), (4, 120, 2500), (6, 60, 1000), (8, 40, 800), (12, 5, 150)),
                require={"lists_loaded": 400, "ghost_values": 1000, "migrations": 200, "missing_reported": 50},
                rule="random edge list (nine kinds: isolated vertices, self loops, repeated and unsorted edges, fewer edges or vertices than processes) written by the monitor, loaded with default blocks or a random partition file, compared with the model and used further; non-trivial: every case")
P["F03"] = dict(mod="f03", jobs=J((1, 80, 600), (2, 140, 2500), (3, 120, 2500), (4, 120, 2500), (6, 60, 1000), (12, 5, 150)),
                require={"renders": 400, "indices_judged": 200, "points_judged": 5000, "cells_judged": 5000, "ghost_points": 100},
                rule="random graph with coordinates of four magnitudes, tag on vertices, edges or none, before or after migrations, names of several forms, rendered; every file parsed by an XML reader and compared with the model; non-trivial: every case")
P["C01"] = dict(mod="c01", pcu=True, jobs=J((1, 100, 1500), (2, 200, 3000), (3, 200, 3000), (4, 200, 3000), (5, 120, 2000), (8, 120, 2000), (12, 40, 500)),
                require={"messages": 10000, "writes_read": 5000, "objects": 5000, "extracts": 2000, "ordered_phases": 1000, "packed_queries": 2000},
                rule="a sequence of communication phases with random patterns (nine kinds), sizes (0 to 1.5 MB), chunking, order of packing and way of receiving, every byte known to the receiver, arrival order and speed perturbed; non-trivial: every case")
P["C02"] = dict(mod="c02", pcu=True, jobs=J((1, 60, 600), (2, 100, 1500), (3, 100, 1500), (4, 100, 1500), (5, 80, 1000), (6, 80, 1000), (7, 80, 1000), (8, 80, 1000), (9, 30, 400), (11, 20, 300), (13, 20, 300), (16, 20, 300)),
                require={"collectives": 15000, "entries_judged": 1000000, "barriers": 500, "logical": 500, "subgroups": 200},
                rule="a sequence of random collectives (every operation and type, scalar and array, lengths 0 to 20000, extreme values) at 1 to 16 processes and in subgroups numbered otherwise, processes skewed; every entry compared with the combination everybody can compute; non-trivial: every case")
P["C03"] = dict(mod="c03", jobs=J((1, 60, 400), (2, 120, 2000), (3, 120, 2000), (4, 120, 2000), (6, 100, 1500), (8, 80, 1200), (12, 40, 400)),
                require={"switches_judged": 2000, "messages": 10000, "phases": 3000, "collectives": 5000, "graphs": 200, "user_messages": 500, "hops": 500},
                rule="random nested or successive groupings of the processes (renumbered, of size one, whole), each group doing its own random phases, collectives and graph work at the same time with contents that tell groups apart; non-trivial: several processes or groupings")
P["C04"] = dict(mod="c04", src=["work", "scen"], jobs=J((2, 60, 1200), (3, 60, 1200), (4, 60, 1200), (6, 40, 600), (8, 30, 500)), limit=40, wall=60, min_evals=8,
                require={"outcomes_compared": 500, "ordered_variants": 40, "unordered_variants": 12},
                rule="a random program using the library from end to end is run once undisturbed and 2 to 4 times with delays, one slow process or permuted arrivals, sender ordering on or off; everything observable is compared and also judged against the model; non-trivial: every case")
P["C05"] = dict(mod="c05", pcu=True, libdefs=["-DPCU_BZIP"], ldflags=["-lbz2"], jobs=J((1, 150, 2500), (2, 150, 2500), (3, 100, 2000), (4, 100, 2000)) + J((1, 250, 4000), mode="fault") + J((2, 4, 40), (3, 4, 40), mode="fault", abort=True),
                require={"files": 500, "items_read": 5000, "unsigneds": 100000, "doubles": 100000, "strings": 500, "faults_read": 80, "faults_write": 30, "aborted_as_expected": 4},
                rule="random sequences of unsigned integers, doubles of every bit pattern, strings and raw bytes written and read in other chunks, compressed or not, one or two files at once; the bytes on disk compared with an independent big-endian encoder; files missing, cut, damaged, misused or on a full device; non-trivial: every case")
P["C06"] = dict(mod="c06", jobs=J((1, 300, 3000), mode="fault") + J((1, 30, 300), (2, 60, 1000), (3, 60, 1000), (4, 60, 1000)),
                require={"misuses_refused": 200, "proper_uses": 200, "handles_refused": 1000},
                rule="27 kinds of misuse of the message layer and of plans, after random ordinary phases, each tried in a child that must end with a message, and its proper form in a child that must return; positions, weights and owners asked of ghosts and of vertices that do not exist on every process; non-trivial: every case")
P["C07"] = dict(mod="c07", src=["work"], defs=["-DUSE_CENGPAR"], jobs=J((1, 200, 3000), (2, 200, 3000), (3, 120, 2000), (4, 120, 2000), (6, 40, 800), (12, 5, 150)),
                require={"starts": 500, "finished_users_layer": 100, "finished_own_layer": 200, "messages_judged": 3000, "messages": 2000, "log_entries": 300, "debug_files": 60, "graphs": 100},
                rule="random history of starting and finishing through C++, C and the message layer itself, switching communicators, phases, reductions, graphs, verbosities, messages of every level, logs and debug files; what stands, what is printed and what the files have is compared with what the history implies; non-trivial: every case")
P["S01"] = dict(mod="s01", src=["work", "scen"], wraps=["sprintf", "snprintf"], jobs=J((1, 150, 1500), (2, 150, 2000), (3, 120, 2000), (4, 100, 1500), (6, 40, 600), (8, 24, 400), (12, 8, 100)), limit=60,
                require={"operations": 1000, "plans": 50, "weight_plans": 50, "formatted_writes": 40, "logged": 20},
                rule="a random program using the library from end to end at a random verbosity, with or without logging and debug output, with names up to the limit of the file system, up to seven edge types, one to thousands of vertices, plus plans made and thrown away, rebuilt graphs and long labels, under address and undefined behaviour sanitizers; non-trivial: every case")
P["S02"] = dict(mod="s02", src=["work", "scen"], jobs=J((1, 30, 600), (2, 30, 800), (3, 30, 800), (4, 24, 800), (6, 10, 300)), limit=60,
                require={"cycles_judged": 100, "allocations_followed": 100000, "switches": 1000, "phases": 200},
                rule="a complete cycle (a random program from end to end, the C interface, communication and files, initialisation and finalisation, or plans and tags made and thrown away) repeated six times with the same choices; live allocations by place of allocation, open files, communicators, groups, types and unfinished sends counted after each; non-trivial: every case")
P["S04"] = dict(mod="s04", src=["work"], jobs=J((1, 250, 2500), (2, 500, 6000), (3, 400, 5000), (4, 400, 5000), (6, 150, 2000), (12, 20, 300)),
                require={"looks": 3000, "changes": 500, "states_compared": 8000, "settings_compared": 150, "log_entries": 200},
                rule="two random graphs with data attached, alive at the same time, looked at in 18 ways or one of them changed, the full state of both (in the order they report it) compared before and after; or the same operation done twice, quietly and at another verbosity with log and work on another graph in between, results compared, printing and log judged; non-trivial: every case")
P["S03"] = dict(mod="s03", src=["work", "scen"], flavour="fill0", runner=fills.run, jobs=J((1, 80, 800), (2, 80, 1000), (3, 60, 1000), (4, 60, 1000), (6, 24, 400)) + J((1, 16, 150), (2, 16, 150), (3, 10, 100), mode="memcheck"), limit=60, min_evals=60,
                require={"programs": 200, "outcomes_compared": 5000, "fills": 4, "memcheck_programs": 4},
                rule="a random program from end to end run with the same choices under five fillings of fresh stack and heap memory (zero, 0xFE, 0xAA, 0x55, as found); every observable outcome on every process compared; some programs under memcheck, which reports decisions taken on undefined values; non-trivial: every case")

# quick runs: as many times the cases as fit into some twenty seconds
for _k, _m in dict(G01=5, G02=8, G03=10, G04=10, G05=10, G06=10, M01=8, M02=8, M03=8, M04=8, F01=3, F02=6, F03=6, P01=3, P02=3, P03=4, P04=6, P08=6,
                   P05=10, P06=8, P07=8, C01=2, C03=1, C05=2, S01=2).items(): P[_k]["qmul"] = _m

NOTE = ("Held on the executions of the run, nothing more: the workload is random with a fixed seed, bounded in graph size (hundreds of vertices quick, "
        "more thorough) and processes (up to 12); the library is compiled with address and undefined behaviour sanitizers and message arrival order is perturbed through the MPI profiling interface where stated. "
        "Trusts MPI, ParMETIS, Zoltan, the sanitizer run time and the reference model in mon/.")
TECH = {
 "G01": ("runtime monitoring: reference-model comparison of the constructed state on every process, under ASan/UBSan", "An independent model of the distributed graph is compared, entity by entity, with everything the public queries report."),
 "G02": ("runtime monitoring: walks and handle queries checked against the reference model, under ASan/UBSan", "Every walk is counted exactly, every handle query compared with the model; walks are abandoned and interleaved."),
 "G03": ("runtime monitoring: adjacency lists checked against two-step neighbours of the reference model, under ASan/UBSan", "Every list of every entity is compared as a multiset (or set) with the model."),
 "G04": ("runtime monitoring: shadow map of all attached data, ghost values checked against the gathered owner's values, under ASan/UBSan", "All stored values are compared with a shadow after every few operations."),
 "G05": ("runtime monitoring: state after each removal compared with the reference model, under ASan/UBSan", "The whole state is compared after removals, additions and migrations."),
 "G06": ("runtime monitoring: verdicts of the validity check on valid histories and on injected single-field corruptions", "Every verdict is compared with the known truth on every process."),
 "M01": ("runtime monitoring: whole-state reference-model comparison after every migration, under ASan/UBSan and message perturbation", "The plan and the model determine the state after each migration exactly."),
 "M02": ("runtime monitoring: differential comparison of a migrated graph with a freshly constructed one, and ghost/owner audit, under ASan/UBSan", "Ghost sets, owners, weights, residence, counts and original owners are compared exactly."),
 "M03": ("runtime monitoring: offline check of returned maps against the recorded history of ownership", "Every map is compared with owners recorded by the monitor at the points where ownership was recorded."),
 "M04": ("runtime monitoring: shadow account of all weights and transfers, conservation checks, under ASan/UBSan", "All weights, ghost weights and the recorded plan are compared with a shadow account."),
 "P01": ("runtime monitoring: online judge of every balancing step at the interposed migration call plus whole-state comparison", "Every plan is judged against the part adjacency seen before it; a watchdog with re-run decides termination."),
 "P02": ("runtime monitoring: metrics recomputed independently after every balancing step and held to the completed bounds", "Bounds are evaluated on weights recomputed by the monitor from the graph."),
 "P08": ("runtime monitoring: online judge of every balancing step at the interposed migration call against targets, weights and boundaries recomputed from the state before it", "Every plan and every end of a criterion is judged; steps are attributed to criteria by the headings the balancer prints, and runs without them are not judged."),
 "P03": ("runtime monitoring: whole-state comparison before and after splits over random process groups, under ASan/UBSan", "The state on the large group is compared with the model and with the parts allotted."),
 "P04": ("runtime monitoring: interposed partitioner calls, arguments compared with the model's, answers substituted and obedience checked", "Every argument of ParMETIS and every Zoltan callback is compared with values computed from the model."),
 "P05": ("runtime monitoring: reported and printed metrics compared with their definitions evaluated on the reference model", "Printed tables are parsed and compared number by number."),
 "P06": ("runtime monitoring: selection orders compared with the model's boundary edges and recomputed distances", "Orders are compared exactly as sets and pairwise for the order clause."),
 "F01": ("runtime monitoring: bitwise comparison of saved and loaded graphs, directory audit, injected file faults in child processes", "Graphs are compared bit for bit and with the model; each fault must end with an error, a clean return or a sanitizer report is a violation."),
 "F02": ("runtime monitoring: whole-state comparison of loaded edge lists with the file the monitor wrote, under ASan/UBSan", "The graph loaded is compared edge by edge with the file, its distribution with the partition given, then used further."),
 "F03": ("runtime monitoring: the written files are parsed and compared with the reference model, under ASan/UBSan", "Every file and the index are parsed; array lengths, references, positions, lines, parts and tags are compared with the model."),
 "C01": ("runtime monitoring: every phase checked against the pattern all processes know, under ASan/UBSan and message perturbation", "Each delivered message is compared byte by byte with what its sender packed and counted exactly once."),
 "C02": ("runtime monitoring: every collective compared with the combination of known contributions, barrier entries counted in shared memory", "Contributions are a function all processes can evaluate, so each result entry is recomputed on every process."),
 "C03": ("runtime monitoring: identity queries, message contents and reductions of every group checked against what only that group knows, under message perturbation", "Contents encode the group, so any traffic crossing groups or phases is seen; the whole is checked again after switching back."),
 "C04": ("runtime monitoring: differential execution of the same program under different message timings, each also judged against the reference model", "Digests of every graph, map, tag, file, order, decision and printed metric are compared across timings."),
 "C05": ("runtime monitoring: bytes on disk compared with an independent encoder and values read back compared bit for bit, under ASan/UBSan; injected file faults in child processes", "Every file is compared byte by byte and value by value; each fault must end with an error or return the true data."),
 "C06": ("runtime monitoring: injected misuse in child processes, each next to its proper form, under ASan/UBSan", "Every misuse must end with an error message or exception, every proper form must return; a sanitizer report, silence or a hang is a violation."),
 "C07": ("runtime monitoring: random lifecycle histories checked against a state model, output and files compared byte by byte, under ASan/UBSan", "After every step the state the history implies is compared with what is standing, printed and written."),
 "S01": ("runtime monitoring: address and undefined behaviour sanitizers over random end-to-end programs, and an overlap monitor on formatted writes", "Any sanitizer report, abnormal end or overlapping formatted write is a violation."),
 "S02": ("runtime monitoring: every allocation followed through allocator hooks with its call stack, MPI objects and files counted, growth over repeated identical cycles judged", "A place of allocation whose live blocks grow in every one of four measured cycles is a violation."),
 "S03": ("runtime monitoring: differential execution of the same programs with stack and heap memory filled differently, and memcheck on small programs", "Digests of every observable outcome are compared across fillings; a memcheck report of a decision or address computed from undefined values in the library is a violation."),
 "S04": ("runtime monitoring: full recorded state of two live graphs compared before and after every operation, differential runs under other settings, log and output judged", "What a graph reports, in the order it reports it, is hashed per kind before and after each of 18 ways of looking and 7 of changing the other graph."),
 "P07": ("runtime monitoring: differential execution of C, Fortran and C++ interfaces with interposed partitioner", "The same workload goes through both interfaces; graphs, maps, printed evaluations, files and partitioner inputs are compared."),
}
