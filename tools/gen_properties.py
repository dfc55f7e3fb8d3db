#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = "include/dd/Package.hpp"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
L = []
L.append(prop("C01", "A quantum state built as a diagram reads back as the same vector",
 "For every amplitude vector of length 2^n, every computational or product basis state and every start offset, the constructed state diagram represents exactly that vector (up to the numeric tolerance), with the requested qubits. Every way of reading a state (single amplitude by index or by path, full vector, the amplitude exports to vector and to stream/file in text and binary form, accumulating export, the printed vector) returns the same amplitudes, in the documented order.",
 ["inputs", "configurations"],
 "all amplitude vectors (dense, sparse, structured, scaled, unnormalised), all basis-state strings over {0,1,+,-,r,l}, start offsets, n = 0..10, default and tiny table configurations",
 "tests read back a handful of 1-3 qubit states through one or two read paths",
 [P, "include/dd/ComplexNumbers.hpp", "include/dd/Edge.hpp"],
 [("makeStateFromVector/makeBasisState/makeZeroState", P), ("vector normalize", P), ("getValueByPath/getVector/exportAmplitudes/addAmplitudes/printVector", P)]))
L.append(prop("C02", "A matrix built as a diagram reads back as the same matrix",
 "For every 2^n x 2^n complex matrix the constructed matrix diagram represents exactly that matrix up to the numeric tolerance. Every way of reading a matrix (single entry by row and column, entry by path, full matrix, the printed matrix) returns the same entries in row-major order with qubit 0 as least significant bit.",
 ["inputs", "configurations"],
 "all matrices (dense, sparse, permutation, block, symmetric, rank-one, scaled, with near-equal entries), n = 0..5, default and tiny configurations",
 "tests convert a few hand-written 1-2 qubit matrices",
 [P], [("makeDDFromMatrix", P), ("matrix normalize", P), ("getValueByPath/getMatrix/printMatrix", P)]))
L.append(prop("C03", "Gate diagrams equal the gate's textbook unitary on the whole register",
 "For every provided gate, parameter value, register size, start offset, target choice and set of positive and negative controls (above, between and below the targets), the gate diagram equals the textbook unitary acting on exactly those qubits and the identity everywhere else. Gates built in any order, with or without other gates built before in the same package, give the same result.",
 ["inputs", "configurations"],
 "all single-qubit matrices and parametrised gates, arbitrary 2x2 and 4x4 matrices, all named two-qubit gates and their controlled versions, all distinct target pairs in both orders, all control subsets and polarities, n = 1..6, start offsets 0..3",
 "tests check a few gates on 2-3 qubits, mostly with start 0 and at most one control",
 [P, "include/dd/GateMatrixDefinitions.hpp", "include/dd/Control.hpp"],
 [("makeGateDD", P), ("makeTwoQubitGateDD", P), ("make*DD two-qubit gates", P), ("gate matrices", "include/dd/GateMatrixDefinitions.hpp"), ("controlled-gate cache", "include/dd/ToffoliTable.hpp")]))
L.append(prop("C04", "Diagram addition, multiplication and transposition match linear algebra",
 "For all states and matrices over the same qubits, adding, multiplying (matrix-vector and matrix-matrix), transposing and conjugate-transposing diagrams gives the diagram of the mathematically corresponding vector or matrix up to numeric tolerance. This holds for any nesting of these operations, including operands that are zero, equal, multiples of each other, identities, symmetric, Hermitian or cancel each other, and for registers starting at a nonzero qubit index.",
 ["programs", "inputs", "configurations"],
 "all expression trees over states and matrices of up to 6 qubits, default and tiny operation caches",
 "tests multiply and add a few fixed gates and compare with one expected value",
 [P, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/ComplexNumbers.hpp"],
 [("add/add2", P), ("multiply/multiply2", P), ("transpose/conjugateTranspose", P)]))
L.append(prop("C05", "Kronecker products and register extension place every factor correctly",
 "The Kronecker product of two states or two matrices equals the mathematical Kronecker product with the second operand on the lower qubits, whether the upper operand is shifted automatically or was already built at the right position. Extending a matrix diagram upwards or downwards equals tensoring with identities, and identity diagrams on any qubit range are identities on exactly that range.",
 ["inputs", "histories", "configurations"],
 "all operand pairs (dense, gates, scaled identities, zero, partial identities, terminal operands), both index modes in any interleaving within a package, extension by 0..3 levels on either side",
 "tests cover four fixed operand pairs and never mix the two index modes in one package",
 [P], [("kronecker/kronecker2", P), ("extend", P), ("makeIdent", P)]))
L.append(prop("C06", "Inner products, fidelities and expectation values are exact",
 "The inner product of two states equals the sum of conjugated left amplitudes times right amplitudes, the fidelity is its squared magnitude, the expectation value of an observable equals the quadratic form of the state with it, and the fidelity between measured outcome frequencies and a state matches its defining sum. The results do not depend on the order or number of previous calls.",
 ["inputs", "histories", "configurations"],
 "all state pairs (dense, sparse, orthogonal, scaled, with complex phases, zero), Hermitian observables, outcome maps over up to 6 qubits, default and tiny caches",
 "tests compare three inner products of basis/GHZ states",
 [P], [("innerProduct", P), ("fidelity/fidelityOfMeasurementOutcomes", P), ("expectationValue", P)]))
L.append(prop("C07", "Traces and partial traces match linear algebra",
 "The trace of a matrix diagram equals the sum of its diagonal entries, and the partial trace over any subset of qubits equals the mathematical partial trace with the remaining qubits renumbered in order. Tracing out no qubit returns the same matrix and tracing out all qubits returns the trace.",
 ["inputs", "configurations"],
 "all matrices up to 5 qubits, all subsets of traced-out qubits",
 "tests trace two fixed matrices",
 [P], [("trace/partialTrace", P)]))
L.append(prop("C08", "Equal functions get the same diagram (canonicity)",
 "Within one package, any two states or matrices that represent the same vector or matrix (up to rounding), no matter which sequence of operations produced them, have the same root node, and root weights that agree within the numeric tolerance; different ones do not. Equality checks between diagrams therefore decide equality of the represented functions.",
 ["programs", "histories", "configurations"],
 "all pairs of construction routes (dense data, gates, products in either association, sums in either order, Kronecker products, transposition twice, serialization, transfer, garbage collection in between) for circuits and states with well-separated values, up to 6 qubits",
 "tests check pointer equality for a few hand-picked identities such as H*H=I",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"],
 [("normalize", P), ("unique table lookup", "include/dd/UniqueTable.hpp"), ("complex number lookup", "include/dd/ComplexTable.hpp")]))
L.append(prop("C09", "Diagrams stay well-formed and reduced, with the reported size",
 "At every point of every history, each stored node sits at its own qubit's level, has successors exactly one level below or terminal ones, is normalised, and every zero weight leads to the terminal; each stored state or matrix node is stored exactly once. The reported size of any diagram is its number of distinct reachable nodes including the terminal.",
 ["programs", "histories", "configurations"],
 "all histories of public operations on states, matrices and density matrices; states of the stored node tables between operations",
 "tests check size() of a few diagrams and never inspect the node tables after long histories",
 [P, "include/dd/UniqueTable.hpp", "include/dd/Edge.hpp"],
 [("makeDDNode", P), ("normalize", P), ("unique table", "include/dd/UniqueTable.hpp"), ("size", P), ("isLocallyConsistent", P)],
 [("unique tables", "all live nodes per level", "include/dd/UniqueTable.hpp")]))
L.append(prop("C10", "Garbage collection never changes a referenced diagram or a later result",
 "After any garbage collection, forced or automatic, at any point between operations, every diagram that the user holds a reference on still represents the same function with the same structure, and every later operation returns the same result as without the collection. Nodes and numbers that are still reachable from a reference are never reused.",
 ["histories", "configurations"],
 "all interleavings of operations, reference increments/decrements and (forced or threshold-triggered) collections on states, matrices and density matrices",
 "tests collect once or twice on a single small diagram",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"],
 [("garbageCollect", P), ("node collection", "include/dd/UniqueTable.hpp"), ("number collection", "include/dd/ComplexTable.hpp"), ("operation caches cleared on collection", P)]))
L.append(prop("C11", "Reference counting balances and unreferenced diagrams are fully reclaimed",
 "The count of active nodes always equals the number of distinct nodes reachable from the currently referenced roots, each reference being released by exactly one release. Once all references are released, a forced collection empties the node tables and the number table keeps only its built-in constants; releasing an unreferenced diagram is reported as an error, and a saturated count is never decremented.",
 ["histories"],
 "all multisets and orders of incRef/decRef on overlapping diagrams, operations with built-in reference handling (measurement, ancilla/garbage reduction, density operations) included",
 "tests check one or two incRef/decRef pairs",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"],
 [("incRef/decRef", "include/dd/UniqueTable.hpp"), ("number reference counts", "include/dd/ComplexTable.hpp"), ("identity table", P)],
 [("active node counts", "nodes with nonzero reference count", "include/dd/UniqueTable.hpp")]))
L.append(prop("C12", "No operation leaks temporary numbers, nodes or memory over long histories",
 "Every completed public operation returns all temporary numbers it borrowed. Repeating a workload any number of times with collection in between does not increase the number of allocated nodes and numbers after the first few rounds.",
 ["histories", "configurations"],
 "all public operations on states, matrices and density matrices including those with zero, tiny or cancelling results; histories of many rounds",
 "tests assert the cache count after a few operations only",
 [P, "include/dd/ComplexCache.hpp", "include/dd/ComplexNumbers.hpp", "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"],
 [("temporary number cache", "include/dd/ComplexCache.hpp"), ("cached/uncached normalisation", P), ("returnNode", "include/dd/UniqueTable.hpp")],
 [("cache count", "temporary numbers on loan", "include/dd/ComplexNumbers.hpp")]))
L.append(prop("C13", "Operation caches never change a result",
 "Every operation returns the same result on a package with an arbitrary history of other operations (any cache content, any cache size, after collections) as on a fresh package. Each cache of computed, controlled-gate and noise results answers a lookup only with a value stored for exactly that key since it was last cleared.",
 ["histories", "configurations"],
 "all interleavings of all cached operations with operands that share nodes but differ in weight, level, kind, mode or argument order; cache sizes from 1 to default",
 "tests run each operation on an almost empty package",
 [P, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/ToffoliTable.hpp", "include/dd/DensityNoiseTable.hpp", "include/dd/StochasticNoiseOperationTable.hpp"],
 [("lookup/insert/clear", "include/dd/ComputeTable.hpp"), ("lookup/insert/clear", "include/dd/UnaryComputeTable.hpp"), ("lookup/insert/clear", "include/dd/ToffoliTable.hpp"), ("lookup/insert/clear", "include/dd/DensityNoiseTable.hpp"), ("lookup/insert/clear", "include/dd/StochasticNoiseOperationTable.hpp")]))
L.append(prop("C14", "The number table returns one value per tolerance neighbourhood",
 "Looking up a number returns a stored number within the tolerance of it, with correct sign, and never inserts a new number when one within tolerance is already stored; exact stored values are found again, also across bucket borders and for very small and very large magnitudes. Collection removes exactly the unreferenced numbers, never the built-in constants, and the table stays sorted and consistent; complex arithmetic on numbers matches complex arithmetic.",
 ["inputs", "histories", "configurations"],
 "all sequences of lookups, reference changes and collections over finite values (clustered around bucket borders, multiples of the tolerance, constants, zero, negative, huge), several table sizes",
 "tests try about ten hand-picked values",
 ["include/dd/ComplexTable.hpp", "include/dd/ComplexNumbers.hpp", "include/dd/ComplexCache.hpp", "include/dd/Complex.hpp", "include/dd/ComplexValue.hpp"],
 [("lookup/findOrInsert", "include/dd/ComplexTable.hpp"), ("garbageCollect", "include/dd/ComplexTable.hpp"), ("complex lookup and arithmetic", "include/dd/ComplexNumbers.hpp"), ("getCachedComplex/returnToCache", "include/dd/ComplexCache.hpp")]))
L.append(prop("C15", "Measurement follows the Born rule and collapses correctly",
 "For every normalised state, reported outcome probabilities of each qubit equal the Born probabilities and sum to one, sampled bit strings occur with their Born frequencies and never with probability zero, and the most significant character belongs to the top qubit. After a collapsing measurement the state is the normalised projection onto the reported outcome, with reference counts moved from the old to the new state, and measuring a qubit of an unnormalised (or zero) state is rejected without changing it.",
 ["inputs", "histories"],
 "all normalised states of up to 7 qubits (dense, sparse, entangled, basis, with tiny amplitudes), all measured qubits and orders, random seeds",
 "tests measure two or three fixed states with a fixed seed",
 [P], [("measureAll", P), ("measureOneCollapsing", P), ("determineMeasurementProbabilities/assignProbabilities", P)]))
L.append(prop("C16", "Density-matrix evolution equals dense density-matrix evolution",
 "Starting from the zero density operator, applying any sequence of unitaries to a density matrix yields the matrix obtained by conjugating with each unitary, in both the full and the compact Hermitian representation. The extracted dense matrix is that Hermitian unit-trace matrix, and the reported outcome probabilities are its diagonal.",
 ["programs", "histories", "configurations"],
 "all circuits of one-qubit, controlled and two-qubit gates on up to 5 qubits, with collections between steps and different table sizes",
 "tests run two short fixed circuits",
 [P, "include/dd/Node.hpp", "include/dd/Edge.hpp"],
 [("applyOperationToDensity", P), ("density multiply2/add2", P), ("density flags", "include/dd/Node.hpp"), ("getDensityMatrix/getProbVectorFromDensityMatrix", P)]))
L.append(prop("C17", "Serialised diagrams load back identically, in text and binary form",
 "Writing any state or matrix diagram to a stream or file, in text or binary form, and reading it back in the same or another package yields a diagram of the same function; in the same package it is the same node with the same weight. This includes zero, terminal and heavily shared diagrams, tiny and huge weights and all signs of real and imaginary parts.",
 ["inputs", "configurations"],
 "all states up to 8 qubits and matrices up to 5 qubits, both formats, same/other package, several diagrams per process",
 "tests round-trip two states and two matrices",
 [P, "include/dd/Export.hpp", "include/dd/ComplexValue.hpp"],
 [("serialize", "include/dd/Export.hpp"), ("deserialize", P), ("number reading/writing", "include/dd/ComplexValue.hpp")]))
L.append(prop("C18", "Loading damaged serialised data fails cleanly",
 "Loading any byte sequence of bounded size (a few kilobytes, text lines up to a thousand characters) as a serialised diagram either succeeds with a well-formed diagram of finite weights, or raises an exception; it never crashes, hangs or accesses invalid memory. A file of another version, a file cut off inside a node record, and a record with a level outside the package, a successor that was not defined before it or (as text) another shape than that of a node of the loaded kind are always reported, and afterwards the package works as before.",
 ["inputs", "fault_sequences"],
 "all mutations (truncation, bit flips, line edits, field edits, splices, random bytes, wrong version, wrong kind) of valid text and binary files up to a few kilobytes, states and matrices",
 "tests try a missing file and a wrong version number",
 [P, "include/dd/ComplexValue.hpp", "include/dd/Export.hpp"],
 [("deserialize/deserializeNode", P), ("fromString/readBinary", "include/dd/ComplexValue.hpp")]))
L.append(prop("C19", "Transferring a diagram to another package preserves it",
 "Copying a state or matrix diagram into another package yields a diagram there that represents the same function and is canonical in that package; the original is unchanged and neither package refers to memory of the other.",
 ["inputs", "histories", "configurations"],
 "all states up to 8 qubits and matrices up to 5 qubits, target packages empty or with history, original package modified or destroyed afterwards",
 "tests transfer one Bell-state sized diagram",
 [P], [("transfer", P)]))
L.append(prop("C20", "Cutting branches and reducing ancillary/garbage qubits match their definition",
 "Deleting an edge index at a qubit zeroes exactly the corresponding entries; reducing ancillary qubits zeroes exactly the columns (or rows) in which an ancillary qubit is one; the initial matrix for given ancillaries is the identity with those columns zeroed. Reducing garbage qubits of a permutation matrix or basis state merges the garbage outcomes into the zero outcome, and references move from the old to the new diagram.",
 ["inputs", "configurations"],
 "all matrices/states up to 5 qubits, all ancilla and garbage subsets, both orientations, all qubits and edge indices; garbage reduction over permutation matrices and basis states",
 "tests reduce one or two fixed circuits on 2-3 qubits",
 [P], [("deleteEdge", P), ("reduceAncillae", P), ("reduceGarbage", P), ("createInitialMatrix", P)]))
L.append(prop("C21", "Reset and growth leave the package as good as new",
 "After a reset, following any history, the package behaves exactly like a new one: the same operations give the same functions, and no number, node, cached result, identity or reference from before is visible. Growing the number of qubits keeps all existing diagrams valid and allows operations on the additional qubits.",
 ["histories", "configurations"],
 "all histories before a reset or resize, any number of resets and growth steps, up to 12 qubits for operations",
 "tests reset once on an almost empty package",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp"],
 [("reset", P), ("resize", P), ("clear", "include/dd/UniqueTable.hpp"), ("clear", "include/dd/ComplexTable.hpp"), ("clear", "include/dd/ComplexCache.hpp"), ("clearIdentityTable/cache clears", P)]))
L.append(prop("C22", "Requests beyond capacity or with inconsistent shapes are rejected",
 "A request that needs more qubits than the package supports, a vector or matrix whose size is not a matching power of two, too few basis-state entries, an observable and a state on different numbers of qubits, measuring a qubit of an unnormalised state, an unreadable file or an oversized package raises an exception of the documented kind and never corrupts the package; every request that fits is accepted.",
 ["inputs", "configurations"],
 "all constructors over register sizes around the capacity (0..capacity+3) with start offsets, vector lengths 0..70, matrix shapes including ragged ones, package sizes up to and beyond the maximum",
 "tests try one or two oversized requests",
 [P], [("capacity checks", P), ("shape checks", P)]))
L.append(prop("C23", "Large registers up to the maximum of 128 qubits behave like small ones",
 "On registers of up to 128 qubits, states, gates, products, amplitudes, inner products, measurement, serialisation and size agree with their closed forms (basis, GHZ, W, graph and product states, Clifford circuits), and a circuit followed by its inverse returns the initial state or the identity. All results at register sizes near the maximum index are as correct as on small registers.",
 ["programs", "inputs", "configurations"],
 "register sizes 17..128 with emphasis on 63..65 and 127/128, random circuits with closed-form or inverse oracle",
 "tests build a few default-size states but verify only small ones",
 [P, "include/dd/Definitions.hpp", "include/dd/UniqueTable.hpp"],
 [("level loops over the qubit index type", P), ("makeIdent", P), ("measureAll", P)]))
L.append(prop("C24", "No memory error, undefined behaviour or failed internal check in valid use",
 "No sequence of valid public calls, on any package configuration, reads or writes memory out of bounds or after release, executes undefined behaviour, leaks memory, or violates an internal consistency assertion of the library.",
 ["programs", "histories", "configurations"],
 "random programs over the whole public interface (states, matrices, density matrices, noise/controlled-gate caches, export, serialisation, measurement, collections, resets), default and tiny tables",
 "the regular test build has assertions and sanitizers off and covers only fixed programs",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp", "include/dd/Export.hpp", "include/dd/Edge.hpp"],
 [("assertions and table invariants", P), ("chunked allocation", "include/dd/UniqueTable.hpp"), ("chunked allocation", "include/dd/ComplexTable.hpp"), ("cache chunks", "include/dd/ComplexCache.hpp")]))
L.append(prop("C25", "Packages in different threads are independent",
 "Threads that each use their own package can run any mix of state, matrix and density matrix operations, measurements, serialisation, exports and collections concurrently without a data race, and each obtains exactly the result it would obtain alone.",
 ["schedules", "programs"],
 "2..8 threads with one package each, random programs over state, matrix and density matrix operations, injected yields, many rounds",
 "tests are single-threaded",
 [P, "include/dd/ComplexNumbers.hpp", "include/dd/ComplexTable.hpp", "include/dd/Node.hpp", "include/dd/Export.hpp"],
 [("no mutable shared state besides terminals and constants", P), ("static constants zero/one and terminal nodes", "include/dd/Node.hpp")]))
L.append(prop("C26", "Text rendering of numbers and diagrams is faithful",
 "The textual form of any number denotes that number: rendered fractions and multiples of pi or square roots of two equal the value within the stated tolerance and plain decimals within the printed precision, with correct signs and imaginary unit, and reading a written number returns it. Every graph export of a diagram (all style options) is a syntactically valid graph whose nodes, edges, zero stubs and edge labels are exactly those of the diagram.",
 ["inputs", "configurations"],
 "all finite values (complex ones up to 1e150), especially multiples of 1/sqrt2, pi and small fractions; all states/matrices up to 5 qubits and all option combinations of the graph export",
 "tests print a few values and only check that export does not crash",
 ["include/dd/ComplexValue.hpp", "include/dd/Complex.hpp", "include/dd/Export.hpp"],
 [("printFormatted/toString/fromString", "include/dd/ComplexValue.hpp"), ("toDot and its node/edge printers", "include/dd/Export.hpp")]))
L.append(prop("C27", "The identity test accepts exactly matrices close to the identity",
 "The closeness-to-identity test returns true for every matrix diagram whose entries all agree, up to the tolerance and a common factor, with the identity (possibly with the columns of ancillary-one outcomes zeroed), and false for every non-zero matrix with an entry clearly away from both (relative to the first entry). Matrices marked internally as identity or symmetric really are the identity or symmetric.",
 ["inputs", "programs"],
 "all unitary products that equal the identity, small and large perturbations at any position, up to 6 qubits",
 "tests check two or three fixed matrices",
 [P], [("isCloseToIdentity", P), ("checkSpecialMatrices", P)]))
L.append(prop("C28", "The figures a package reports about itself are true",
 "At every moment of every history the reported figures agree with what happened: stored, active (per level and in total), peak and maximal active nodes, stored and peak numbers, temporaries on loan and their peak, lookups, hits, insertions, their ratios, collection calls and runs, the number of collected items and whether a collection collected anything. All figures of node and number tables start at zero and do so again after a reset or clearing; the statistics report, the listings of nodes and numbers and the bucket distribution show the same figures. An operation repeated on the same operands with nothing in between is counted as one lookup and one hit of its cache.",
 ["histories", "configurations"],
 "all histories of requests, references, releases, collections, resets and clearings on node, number, temporary and cache tables of several sizes, and on whole packages",
 "tests look at two or three counters after a handful of operations and never at the reports",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComplexCache.hpp", "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/ToffoliTable.hpp", "include/dd/DensityNoiseTable.hpp", "include/dd/StochasticNoiseOperationTable.hpp"],
 [("lookup/incRef/decRef/garbageCollect/clear counters", "include/dd/UniqueTable.hpp"), ("lookup/insert/garbageCollect/clear counters", "include/dd/ComplexTable.hpp"), ("count/peakCount", "include/dd/ComplexCache.hpp"), ("hits/lookups", "include/dd/ComputeTable.hpp"), ("statistics/garbageCollect", P)]))
L.append(prop("C29", "Consistency checks accept intact diagrams and report damaged ones",
 "The local consistency check accepts every referenced, intact diagram and reports one with an unreferenced node, an unreferenced weight or an edge that skips or repeats a level. The global check accepts an intact diagram that is the only referenced one of its package, and reports, by an exception, a node whose reference count differs from its occurrences, a weight with fewer references than occurrences, or a wrong level. Neither check changes the diagram.",
 ["histories", "inputs", "fault_sequences"],
 "all states and matrices of up to 6 qubits after arbitrary histories, with every single damage of a reference count, level or successor",
 "tests damage two fixed diagrams in two ways",
 [P], [("isLocallyConsistent/isGloballyConsistent", P), ("fillConsistencyCounter/checkConsistencyCounter", P), ("debugnode", P)]))
L.append(prop("C30", "Shared parts of diagrams are worked on once per operation",
 "Within one operation, every combination of parts of the operands (pair of nodes in products and inner products, weighted pair in sums, weighted node in transposes and Kronecker products) is expanded only once, apart from few cache conflicts. The recursive requests of an operation, counted by its cache, are therefore bounded by the number of distinct combinations times the number of successors, no matter how many paths lead to them. Counting nodes, measurement probabilities, measuring, cutting branches, the identity test, serialisation, transfer and drawing visit each shared node once and hence return in time proportional to the number of nodes.",
 ["inputs"],
 "all sums, products, inner products, transposes and Kronecker products and all these traversals of diagrams with shared parts on up to 64 qubits (up to 2^64 paths), with the default cache sizes and empty caches",
 "unit tests use at most a few qubits, where missing reuse is invisible",
 [P, "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp"],
 [("add2", P), ("multiply2", P), ("innerProduct", P), ("transpose/conjugateTranspose", P), ("kronecker2", P), ("lookup/insert", "include/dd/ComputeTable.hpp"), ("hash of edges and nodes", "include/dd/Edge.hpp")]))
L.append(prop("C31", "Automatic collection bounds long computations and is not repeated needlessly",
 "An unforced collection leaves everything alone while no table has reached its limit, and otherwise removes every unreferenced item of a table that has reached it, whichever table that is (and the unreferenced nodes of all tables whenever numbers have been removed). A computation that keeps offering collections therefore stores at most about the items in use at its peak plus one limit, in memory proportional to that. A table is searched again only after a substantial number of new items (not on every call once live items fill it). A package that has been reset behaves like a new one. The verdict is true exactly if something was removed, and referenced diagrams and later results are unaffected.",
 ["histories", "configurations"],
 "all histories of requests, references, releases and offered collections, with live shares between none and nearly all of the limit, in node tables of each kind and in the number table",
 "tests never reach a limit; only forced collections are exercised",
 [P, "include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp"],
 [("garbageCollect", P), ("garbageCollect/possiblyNeedsCollection/gcLimit", "include/dd/UniqueTable.hpp"), ("garbageCollect/possiblyNeedsCollection/gcLimit", "include/dd/ComplexTable.hpp")]))
L.append(prop("C32", "Tables and caches spread different items evenly",
 "Different nodes, cached results and evenly distributed numbers are spread over the places of their table about as evenly as random placement would, for every family of items: few successors with many weights, the same weights with different successors, successors at one position only, equal or mirrored operands, operands that differ only in their weights. Occupied places, lengths of lists and the share of cached results that survive stay within a small factor of random placement, so a search stays of constant cost while the contents do not exceed the size of the table. (The small cache of multi-controlled gates is not covered.)",
 ["inputs", "configurations"],
 "all sets of different nodes, operands or numbers up to the size of the table, of every kind of node and cache",
 "no test looks at the placement; a bad placement changes no result, only the cost of everything",
 ["include/dd/UniqueTable.hpp", "include/dd/ComplexTable.hpp", "include/dd/ComputeTable.hpp", "include/dd/UnaryComputeTable.hpp", "include/dd/DensityNoiseTable.hpp", "include/dd/Edge.hpp", "include/dd/Complex.hpp", "include/dd/ComplexValue.hpp", "include/dd/Definitions.hpp"],
 [("hash", "include/dd/UniqueTable.hpp"), ("hash", "include/dd/ComplexTable.hpp"), ("hash", "include/dd/ComputeTable.hpp"), ("hash", "include/dd/UnaryComputeTable.hpp"), ("std::hash of Edge/CachedEdge", "include/dd/Edge.hpp"), ("std::hash of Complex", "include/dd/Complex.hpp"), ("std::hash of ComplexValue", "include/dd/ComplexValue.hpp"), ("murmur64/combineHash", "include/dd/Definitions.hpp")]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
print(len(L), "properties")
