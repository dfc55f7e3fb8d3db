# per-property harness, builds and case counts (quick tier)
PROPS = {
 "C01": dict(src="c01.cpp", variants={"san": 2400, "vol": 40000}, rule="random states built by vector, bits or product labels; non-trivial = vector with at least two non-zero amplitudes or a distinct basis request; each is read back through every read path and compared with the dense vector"),
 "C02": dict(src="c02.cpp", variants={"san": 2400, "vol": 40000}, rule="random matrices of 12 shapes; non-trivial = at least two non-zero entries; each is read back through every read path and compared"),
 "C03": dict(src="c03.cpp", variants={"san": 2400, "vol": 40000}, rule="random gate requests (kind, parameters, targets, controls, register, offset); distinct by request; compared entry-wise with the textbook unitary"),
}
PROPS["C04"] = dict(src="c04.cpp", variants={"san": 1500, "vol": 15000}, rule="random expression histories over populations of states and matrices with dense twins, and algebraic corner cases (cancelling, proportional, zero, Hermitian operands, offset registers); distinct by operand values")
PROPS["C05"] = dict(src="c05.cpp", variants={"san": 1500, "vol": 15000}, rule="random factors (dense matrices, gates, identities, scaled, offset), products with and without index shift interleaved in one package, extensions, identity ranges; distinct by product values")
PROPS["C06"] = dict(src="c06.cpp", variants={"san": 1500, "vol": 15000}, rule="random (un)normalised, proportional, evolved and zero states; interleaved inner products in both orders, fidelities, expectation values of Hermitian observables, outcome fidelities; distinct by the set of states")
PROPS["C07"] = dict(src="c07.cpp", variants={"san": 1500, "vol": 15000}, rule="random matrices, gates, pure-state projectors, scaled identities with random subsets of traced-out qubits; distinct by (matrix, subset)")
PROPS["C16"] = dict(src="c16.cpp", variants={"san": 800, "vol": 8000}, rule="random unitary circuits (one and two-qubit, controlled) on 1-3 density matrices of 1-4 qubits in full, compact and mixed representation, with collections in between; distinct by operation and resulting matrices")
PROPS["C08"] = dict(src="c08.cpp", variants={"san": 1200, "vol": 12000}, rule="random Clifford+T circuits, linear-algebra expressions over few values, and generic gates; every result is compared as a node with every other route to the same function; distinct by circuit or operand values")
PROPS["C09"] = dict(src="c09.cpp", variants={"san": 1200, "vol": 9000}, rule="random mixed histories over states, matrices and density matrices; all live nodes and numbers of all tables audited between operations, sizes of the whole population compared with an independent count; distinct by results of the history")
PROPS["C10"] = dict(src="c10.cpp", variants={"san": 1200, "vol": 9000}, rule="random mixed histories with forced, unforced and threshold-triggered collections; all referenced diagrams re-evaluated and structurally compared, later results compared with dense twins; distinct by results of the history")
PROPS["C11"] = dict(src="c11.cpp", variants={"san": 900, "vol": 7000}, rule="random mixed histories with repeated references, releases, underflows and saturated counters; all reference counts of all live nodes and numbers recomputed from the referenced roots; exact contents after forced collections; distinct by results of the history")
PROPS["C12"] = dict(src="c12.cpp", variants={"san": 900, "vol": 7000}, rule="random mixed histories, operations with tiny or cancelling results, repeated workloads; loaned temporaries must be zero after every operation, and allocated = stored + available (each exactly once) for nodes, numbers and temporaries; distinct by history")
PROPS["C13"] = dict(src="c13.cpp", variants={"san": 3000, "vol": 30000}, rule="adversarial histories whose operands share nodes but differ in weight, level, order, mode or kind of operation, with node-only, number-only and full collections; results against dense algebra and a fresh package; every cache table against a map model; distinct by results")
PROPS["C14"] = dict(src="c14.cpp", variants={"san": 2400, "vol": 16000}, rule="histories of lookups, references and collections on number tables of eight sizes and several tolerances, clustered at bucket borders, constants and tolerance multiples, against an ordered-map model; complex arithmetic against std::complex; loans of temporaries; distinct by values looked up")
PROPS["C15"] = dict(src="c15.cpp", variants={"san": 8000, "vol": 80000}, rule="random normalised states (dense, sparse, circuits, GHZ, W, nearly basis states); probabilities of every qubit, sampling statistics against Born frequencies, crafted extreme random numbers, collapse of one and all qubits with bystanders, reference counts after every collapse, rejected unnormalised and zero states; distinct by state amplitudes")
PROPS["C17"] = dict(src="c17.cpp", variants={"san": 800, "vol": 6000}, rule="random populations of states and matrices, terminals, scaled roots with all signs, and random layered diagrams of up to 127 levels; each written and read back as text or binary, through streams or files, in the same and in another package; distinct by function written")
PROPS["C18"] = dict(src="c18.cpp", variants={"san": 600, "vol": 3000}, rule="mutated valid files, files generated from the text grammar and binary layout with hostile numbers and indices, random bytes, files of the other kind, every prefix of valid files; each load must fail with an exception or give a well-formed finite diagram, and the package is audited and used afterwards; distinct by bytes loaded")
PROPS["C19"] = dict(src="c19.cpp", variants={"san": 900, "vol": 9000}, rule="random populations of states and matrices, terminals and random layered shared diagrams of up to 127 levels, transferred to fresh and used packages, back, in chains and within a package; source or target destroyed afterwards; both packages audited; distinct by function transferred")
PROPS["C20"] = dict(src="c20.cpp", variants={"san": 1500, "vol": 15000}, rule="random populations of states, matrices and gates with random cuts, ancillary subsets and both orientations; initial matrices of up to 100 qubits; garbage merging on random permutations, reversible circuits and basis states; reference counts recomputed after every move; distinct by history or by merged matrix")
PROPS["C21"] = dict(src="c21.cpp", variants={"san": 800, "vol": 5000}, rule="rounds of random programs in one package separated by resets, each executed in lockstep with a new package and compared diagram by diagram; emptiness audit of every table after each reset with loans, cached and collected objects outstanding; growth of packages with live populations, up to 128 qubits; distinct by history")
PROPS["C22"] = dict(src="c22.cpp", variants={"san": 1200, "vol": 9000}, rule="random sequences of requests around the capacity (0..128 qubits, offsets, all constructors and gates, Kronecker products, extensions, package sizes, resizes), vectors and matrices of all shapes, missing and foreign files, unnormalised states; kind of the exception, acceptance of everything that fits, audit of the population afterwards; distinct by sequence of requests")
PROPS["C23"] = dict(src="c23.cpp", variants={"san": 400, "vol": 2000}, rule="registers of 17..128 qubits (mostly 63..66 and 126..128): product, GHZ, W and graph states, random circuits on qubits spread over the register, gates with up to 127 controls, reversible circuits, density operators; amplitudes, entries, inner products, probabilities, measurement, sizes, round trips, inverses against closed forms; distinct by circuit")
PROPS["C26"] = dict(src="c26.cpp", variants={"san": 1500, "vol": 20000}, rule="numbers on, near and off fractions, multiples of pi and of 1/sqrt2, equal and opposite parts, several tolerances, rendered in every form and parsed back by an independent reader; states and matrices of up to 128 levels exported with all option combinations, parsed by an independent DOT and HTML reader and matched node by node; distinct by text")
PROPS["C27"] = dict(src="c27.cpp", variants={"san": 8000, "vol": 60000}, rule="identities, ancillary-reduced identities, diagonal and permutation matrices, local gates, circuits with right and wrong inverses, each perturbed at random entries by 1e-12..1, asked with three tolerances; gates with up to 127 controls; the flags of every stored matrix node recomputed during mixed histories; distinct by matrix")
PROPS["C25"] = dict(src="c25.cpp", variants={"tsan": 200, "thr": 1500}, rule="2..6 threads released together, each with its own package (three configurations) and random program of states, matrices, measurements, serialisation, exports, transfers, collections and resets with random yields and pauses; run under the race detector and at full speed; every result compared with the dense oracle and with a run of the same program alone; distinct by observed interleaving of the operations")
PROPS["C24"] = dict(src="c24.cpp", variants={"san0": 3000, "vg": 40}, rule="random programs over the whole public interface (states, matrices, density matrices, gates, noise caches, exports, printing, files, transfers, resizes, resets, collections, deep layered diagrams, several packages at once, packages destroyed in every state) on three configurations under address, undefined-behaviour and leak sanitizers with all assertions on, and under a memory checker that reports uses of uninitialised values; distinct by results of the program")
PROPS["C28"] = dict(src="c28.cpp", variants={"san": 3000, "vol": 20000}, rule="histories on node, number, temporary and cache tables against an exact count model; figures of a package before and after every step of a mixed history; the report against the tables; operations repeated with nothing in between; distinct by history")
PROPS["C29"] = dict(src="c29.cpp", variants={"san": 3000, "vol": 20000}, rule="random single diagrams and populations after mixed histories, asked as they are and after one random damage (reference counts of nodes and numbers, levels, skipping successors) that is undone afterwards; distinct by diagram and damage")
PROPS["C30"] = dict(src="c30.cpp", variants={"san": 300, "vol": 3000}, rule="random layered diagrams, product, GHZ and W states, gates with many controls and swaps on 3..64 qubits; number of recursive requests of each operation against the number of distinct parts that meet in it; traversals (probabilities, measuring, cutting, serialisation, transfer, drawing, identity test) of diagrams with two nodes per level and 2^30..2^64 paths; distinct by operands")
PROPS["C31"] = dict(src="c31.cpp", variants={"san": 120, "vol": 800}, rule="packages with small limits whose vector, matrix, density or number table is filled chunk by chunk with live and dead items while collections are only offered, never forced; bounds on stored items, allocated memory and number of searches; verdict, live diagrams and cached results before and after; distinct by history")
PROPS["C32"] = dict(src="c32.cpp", variants={"san": 300, "vol": 3000}, rule="families of 200..30000 different nodes of each kind (few successors, one successor with many weights, one position, equal, neighbouring or common successors, random), operand pairs for every cache (fixed left or right, equal, mirrored, other weights only), noise results, evenly distributed numbers; occupied places, longest list and surviving entries against random placement; distinct by family and outcome")
TECH = {
 "C01": "online monitor comparing every read path of each constructed state with the input vector, under ASan/UBSan and in a release build",
 "C02": "online monitor comparing every read path of each constructed matrix with the input matrix, under ASan/UBSan and in a release build",
 "C03": "online monitor comparing gate diagrams entry-wise with textbook unitaries over random gate sequences, under ASan/UBSan and in a release build",
 "C04": "online monitor: dense-algebra twin of every diagram in random expression histories, under ASan/UBSan and in a release build",
 "C05": "online monitor: dense Kronecker twin over interleaved products, extensions and identities, under ASan/UBSan and in a release build",
 "C06": "online monitor: dense inner products, fidelities and quadratic forms over interleaved queries, under ASan/UBSan and in a release build",
 "C07": "online monitor: dense (partial) traces over random subsets, under ASan/UBSan and in a release build",
 "C08": "online monitor: the same function is reached along different routes in one package and the root nodes are compared",
 "C09": "state monitor: all stored nodes and numbers of all tables are audited between operations of random histories",
 "C10": "state monitor: structural and functional snapshots of referenced diagrams before and after collections in random histories, with ASan/UBSan",
 "C11": "state monitor: all reference counters are recomputed from the referenced roots and compared between operations",
 "C12": "conservation monitor: loans, free lists and chunks of nodes and numbers are accounted exactly after each operation; plateau monitor over repeated workloads",
 "C13": "online monitor: map model of every cache table, and differential runs of adversarial histories against dense algebra and a fresh package",
 "C14": "online monitor: ordered-map model of the number table, std::complex oracle for arithmetic, conservation of loans, under ASan/UBSan",
 "C15": "online monitor: Born oracle for probabilities, sampling statistics, decision thresholds probed with crafted random numbers, collapse and reference audit",
 "C16": "online monitor: dense density-matrix twin over random circuits in both representations, under ASan/UBSan and in a release build",
 "C17": "round-trip monitor: functions, nodes and weights compared after writing and reading back, same and other package",
 "C18": "hostile-input monitor: ASan/UBSan and package audits while loading mutated, truncated and generated files",
 "C19": "online monitor: function, structure and ownership of transferred diagrams, source or target destroyed under ASan",
 "C20": "online monitor: entry-wise definitions of cuts and reductions, reference audit after every move",
 "C21": "lockstep monitor: reset package against a new one, emptiness audit of all tables after a reset",
 "C22": "online monitor: acceptance model of requests around the capacity, kind of exception, package audit after rejections, under ASan/UBSan",
 "C23": "online monitor: closed forms on registers of 17..128 qubits, under ASan/UBSan and in a release build",
 "C24": "sanitizers (address, undefined behaviour, leaks), library assertions and valgrind memcheck over random programs of the whole interface",
 "C25": "race detector (ThreadSanitizer) over threads with own packages, and result monitor against dense algebra and a solo run",
 "C26": "online monitor: independent readers of number texts and of DOT/HTML exports compared with the value or the diagram",
 "C27": "online monitor: entry-wise criterion for the identity test, flags of all stored nodes recomputed",
 "C28": "online monitor: exact count model of every table, conservation between the figures before and after each step of random histories, under ASan/UBSan and in a release build",
 "C29": "fault injection: single damages of diagrams and tables, verdict of the consistency checks compared with the injected truth, under ASan/UBSan and in a release build",
 "C31": "online monitor: stored items, allocations, collection runs and verdicts in long computations with offered collections, live diagrams snapshotted, cached operations against dense algebra",
 "C32": "online monitor: occupancy of every table and survival of cached results counted after each workload and compared with random placement",
 "C30": "online monitor: the package's own request counters before and after each operation, against the exact number of distinct parts computed from the operands; traversals of diagrams with 2^64 paths under a watchdog",
}
