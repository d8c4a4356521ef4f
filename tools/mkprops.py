#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json (the single place where both are maintained)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, oracle=None, observe=None, level_note=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "observe_at": observe or ["PFAEngine.action and the other public engine methods"], "hook_needed": None}),
              oracle or "property-based testing against a reference model", level_note))


G, A, D, S = "titus/genpy.py", "titus/pfaast.py", "titus/datatype.py", "titus/signature.py"
FEW = "The existing tests evaluate a few hand-written documents with a few inputs each; "

prop("C01", "Well-typed programs evaluate to what the language defines",
     "Every well-typed PFA program (literals, variables, let/set, do, if/cond, while/until/for/foreach/forkey-forval, attribute and index access and functional replacement, record/array/map construction, cast cases, null checks, user functions, short-circuit logic) run on any input returns exactly the value the PFA semantics give, or raises exactly the runtime or user error they give. "
     "Lexical scoping, evaluation order and early exit of loops are part of that value.",
     ["programs", "inputs"], "all generated well-typed programs up to a size bound, each on several generated inputs",
     FEW + "they do not compose special forms in nesting and scoping combinations.",
     [A, G, "titus/util.py"], [("code generation for every special form", G), ("AST walk and symbol table", A), ("DynamicScope", "titus/util.py")],
     "differential PBT: generated programs vs an independent reference interpreter")
prop("C02", "Static typing: results have their declared types, ill-typed programs rejected",
     "A document that compiles only ever returns (and emits, and stores) values that conform to its declared types, whatever the input. "
     "A document that violates a typing or scoping rule (wrong result type, unknown variable, assignment to a constant scope, missing field, unmatched cast, duplicated or shadowed name, and so on) is refused when it is loaded, with one of the errors the engine declares (a syntax, semantic, schema or initialization error) and never with an internal Python exception.",
     ["programs", "inputs"], "generated well-typed programs and their systematically broken mutants",
     FEW + "each negative test pins one hand-written mistake.",
     [A, D, "titus/reader.py", S], [("walk/type checking of each form", A), ("FcnType and Sig matching", S), ("reader validation", "titus/reader.py")],
     "PBT with type-directed mutants: every mutant must be rejected, every accepted program's outputs must conform")
prop("C03", "PFA documents survive parsing and serialization unchanged",
     "Reading a PFA document (JSON text, parsed JSON, or YAML) and writing it back as JSON preserves every expression, type, cell, pool, function, option and metadata entry, so that re-reading gives an equal document. "
     "The re-read document behaves identically to the original on all inputs.",
     ["programs", "inputs"], "generated documents using every expression form and every document section",
     "The round-trip tests cover one fixed snippet per AST node; they never check behaviour of a re-read document nor combinations.",
     ["titus/reader.py", A], [("jsonToAst", "titus/reader.py"), ("Ast.toJson / jsonNode / equals", A)],
     "round-trip PBT over generated documents")
prop("C04", "PrettyPFA text compiles to the PFA it denotes",
     "A program printed in PrettyPFA syntax (with any legal spacing, comments, redundant parentheses, operator precedence and associativity) parses to the same PFA document as its JSON form, and so behaves the same. "
     "Substitutions inserted with <<name>> act as if the substituted text or expression had been written there.",
     ["programs"], "generated expressions, types and document sections printed by an independent printer",
     "testParsing checks a few hundred fixed strings; precedence and nesting interact combinatorially.",
     ["titus/prettypfa.py"], [("PLY grammar", "titus/prettypfa.py"), ("subs handling", "titus/prettypfa.py")],
     "differential PBT: independent PrettyPFA printer, parse, compare with the JSON AST")
prop("C05", "Type acceptance and function-signature resolution follow the PFA rules",
     "One type accepts another exactly when every value of the second can stand for a value of the first (numeric widening, unions, arrays and maps by element, named types by name, functions contravariantly), which makes acceptance reflexive, transitive and consistent with what programs are allowed to do. "
     "A library call resolves to a signature exactly when its arguments fit, wildcards bind to the narrowest common type, and a signature is available exactly for the PFA versions of its lifespan.",
     ["inputs", "programs", "configurations"], "generated pairs and triples of types, generated call signatures with wildcards, and PFA versions",
     "testSignature and testDatatype check a few dozen fixed pairs.",
     [D, S, "titus/P.py"], [("accepts", D), ("Sig.accepts / LabelData.determineAssignment / broadestType", S), ("Lifespan, PFAVersion", S)],
     "PBT against an independent acceptance relation plus algebraic laws")
prop("C06", "Input data are validated and JSON encoding/decoding round-trips",
     "Data that satisfy the input type enter the engine unchanged in value (including tagged and untagged unions, NumPy scalars, bytes and records with extra keys), and data that do not satisfy it are refused with a type error before the action runs. "
     "Encoding any value as JSON under its type and decoding it again gives the same value with the same union branch.",
     ["inputs"], "generated types with conforming values and with values corrupted at one position",
     "Tests feed a handful of well-formed records.",
     [D, G], [("checkData", D), ("jsonDecoder / jsonEncoder", D)],
     "round-trip and accept/reject PBT", ["PFAEngine.action", "jsonEncoder, jsonDecoder, PFAEngine.jsonInputIterator"])
prop("C07", "Avro and JSON streams written are read back as the same data",
     "Any sequence of values of the input type written to an Avro container file is read back by the engine's Avro input iterator as the same sequence, which the engine then accepts as input, and anything the engine returns or emits can be written by its Avro output writer and is read by a standard Avro reader as the same values in the same union branches. "
     "Values encoded as lines of JSON and decoded again are the same values.",
     ["inputs"], "generated schemas and value sequences",
     "One fixed Avro file is used by the tests.",
     [G, D], [("avroInputIterator, avroOutputDataFileWriter", G)],
     "round-trip PBT through real files in a scratch directory")
prop("C08", "Comparison, equality, sorting and extrema agree on one total order per type",
     "For values of any comparable type, the comparison operators, cmp, max/min, array sorting, array extrema and distinctness all agree with the Avro sort order of that type (enum symbol order, record field order with descending/ignore, union branch order, NaN largest, bytes and strings lexicographic). "
     "That order is reflexive, antisymmetric, transitive and total, whether values come from inputs, literals, cells or computations.",
     ["inputs"], "generated types with pairs and triples of values from several sources",
     "Tests compare a few primitive pairs.",
     [D, "titus/lib/core.py", "titus/lib/array.py"], [("compare", D), ("cmp and friends, max, min", "titus/lib/core.py"), ("a.sort, a.max, a.min, ...", "titus/lib/array.py")],
     "PBT against an independent Avro ordering plus order laws")
prop("C09", "Map, emit and fold engines process streams as specified",
     "A map engine returns exactly one output per datum, an emit engine calls the emit callback exactly for each executed emit in order, and a fold engine returns a tally that always equals the fold of the data so far. "
     "begin runs once before and end once after with the right action counters and tally, and merging the tallies of two fold engines equals the declared merge.",
     ["programs", "histories"], "generated engines of all three methods with begin/end/merge routines, driven over generated data streams including failing actions",
     "Tests run single fixed streams.",
     [G, A, "titus/reader.py"], [("PFAEngine.action/begin/end/mergeTally and counters", G)],
     "model-based PBT over generated stream histories")
prop("C10", "Cells and pools behave as persistent named state",
     "Over any sequence of actions, reading a cell or pool item returns the value last written through any path (whole replacement, path update, update by function, pool creation, deletion), updates use the value current at that moment, and nothing else changes. "
     "Access along a path of record fields, map keys and array indexes reads and replaces exactly that element, raising the documented errors for missing items.",
     ["histories", "programs"], "generated state types, initial values and operation sequences with paths of all kinds",
     "Tests run short fixed sequences on a few state shapes.",
     [G, A], [("Cell.update, Pool.update, update(), get()", G), ("CellTo, PoolTo, PoolDel", A)],
     "stateful model-based PBT against a dictionary model")
prop("C11", "A snapshot captures the complete state of an engine",
     "At any point between actions, the snapshot of an engine is a valid PFA document whose cells and pools hold the engine's current state; an engine started from it continues with the same outputs as the original on any further input (a fold engine from its zero tally, which is not part of a cell or pool). "
     "Taking a snapshot does not disturb the running engine, and later actions do not alter a snapshot already taken.",
     ["histories", "crash_points"], "generated stateful programs, snapshot at every point of generated histories, then continuation",
     "Only a few fixed snapshots are compared.",
     [G], [("PFAEngine.snapshot, CellsAndPools/EngineConfig", G)],
     "stateful PBT: continuation of the restored engine vs the original")
prop("C12", "Shared state is shared, unshared is private, and updates are atomic",
     "When several engines are made from one document, cells and pool items marked shared are one storage seen by all of them while the others are private to each engine. "
     "Concurrent updates by function to shared state from many threads are never lost or torn, and an update function that fails leaves the state unchanged and later updates by any engine still possible.",
     ["schedules", "histories", "fault_sequences"], "generated interleavings of operations over 2-4 engines, thread schedules forced around update functions, and failing updaters",
     "Concurrency tests run one counter program under whatever schedule the scheduler gives.",
     [G], [("SharedState, Cell.update, Pool.update locking", G), ("multiplicity/sharedState in PFAEngine.fromAst", G)],
     "stateful PBT with harness-controlled schedules and fault injection")
prop("C13", "Values are immutable: no operation changes a value held elsewhere",
     "Once bound to a variable, stored in state, passed to or returned from an engine, a PFA value never changes: any later operation (path replacement, library function, cell or pool update, further action) yields a new value and leaves every earlier reference, the caller's input object and previously returned outputs intact.",
     ["programs", "histories"], "generated sequences of updates over aliased nested values",
     "Tests look only at the new value, not at the old references.",
     [G, A, "titus/lib/array.py", "titus/lib/map.py", "titus/lib/la.py", "titus/lib/stat/sample.py", "titus/lib/model/tree.py"],
     [("update() copy-on-write", G), ("library functions copying their inputs", "titus/lib")],
     "stateful PBT: every old reference is re-read after every step")
prop("C14", "Programs that could deadlock on shared state are refused, all others accepted",
     "A document in which the function used to update a cell or pool item can itself, directly or through any chain of user functions, inline functions or library callbacks, modify cells or pools is refused at load time. "
     "Documents where that is impossible are accepted.",
     ["programs"], "generated call graphs of user functions around cell/pool updates",
     "Two or three fixed call graphs are tested.",
     [A, G], [("checkForDeadlock, calls sets", G), ("AstContext.calls", A)],
     "PBT against reachability in the generated call graph")
prop("C15", "Errors are raised, caught and coded as declared, and leave engines usable",
     "A user error or library error surfaces with its message and code; try returns null exactly when the error matches its filter (or there is no filter) and otherwise lets it pass; nothing after the failing point of an action takes effect. "
     "After a failing action the engine keeps its earlier state changes of completed expressions, processes the next datum normally, and counts actions correctly.",
     ["programs", "fault_sequences"], "generated programs with errors at generated points, filters by message and code, and nested tries",
     "Tests use one error per document.",
     [A, G], [("Error, Try forms", A), ("tryCatch", G)],
     "PBT with injected errors against the reference interpreter")
prop("C16", "Engine options, host overrides and timeouts are honoured",
     "An option given by the host overrides the one in the document, and each of begin, action, end and merge is stopped by a timeout error once its own limit has passed, even inside nested loops, function callbacks or try blocks, while routines within their limit are never stopped. "
     "The engine is usable for the next datum after a timeout.",
     ["configurations", "fault_sequences"], "generated option sources and generated looping programs under a harness-controlled clock",
     "Tests use a single long loop with real time.",
     ["titus/options.py", G], [("EngineOptions", "titus/options.py"), ("ExecutionState.checkTime", G)],
     "PBT with a virtual clock")
prop("C17", "Random results are reproducible from the seed and stay in range",
     "Two engines built from the same document with the same random seed produce identical outputs for identical inputs, and different members of a multi-engine set use independent streams. "
     "Every random library function returns values inside its documented range, of the requested size, drawn from the given population or weights, and sampling without replacement never repeats an item.",
     ["configurations", "inputs"], "seeds, function arguments, populations and stream lengths",
     "Tests fix one seed and a few calls.",
     ["titus/lib/rand.py", G], [("randseed handling", G), ("rand.* functions", "titus/lib/rand.py")],
     "PBT: replay equality and range/support invariants, with wide statistical bounds")
prop("C18", "Pack and unpack are inverse and follow the declared binary format",
     "Packing values with a format string gives exactly the bytes that format prescribes (padding, booleans, signed and unsigned integers of each width and endianness, floats, raw, null-terminated and length-prefixed bytes), and unpacking them gives the values back. "
     "Unpacking bytes that do not have the format's layout takes the else branch, and values that do not fit raise the documented error.",
     ["inputs", "programs"], "generated format lists, values and corrupted byte strings",
     "Each format is tested once or twice alone.",
     [G, A], [("BinaryFormatter", A), ("genericPack/unpack", G)],
     "round-trip PBT and comparison with an independent encoder")
prop("C19", "Function references, partial application and dynamic calls equal direct calls",
     "Passing a user function, a library function, an inline function or a partially applied function to any function-taking library routine gives the same result as writing the call out, and calling a user function by a run-time name gives the same result as a direct call of that function. "
     "Recursion and nested functions see exactly their own parameters and the variables in scope where they were written.",
     ["programs", "inputs"], "generated functions and call styles",
     "Tests use one callback per routine.",
     [A, G, S], [("FcnRef, FcnRefFill, CallUserFcn, FcnDef", A), ("PartialFunction, callfcn", G)],
     "metamorphic PBT: all call styles against the direct call")

LIB = "The library tests check a few fixed argument tuples per function."
prop("C20", "Arithmetic, bitwise and math functions are exact, IEEE or a documented error",
     "For all arguments of all numeric types, the arithmetic operators, bitwise operators and math-library functions return the mathematically defined value (exact for integers, IEEE behaviour including infinities and NaN for floating point) or raise exactly the documented overflow or domain error. "
     "Integer results never leave the range of their type.",
     ["inputs"], "all functions over generated numbers, including boundary and special values", LIB,
     ["titus/lib/core.py", "titus/lib/pfamath.py", "titus/util.py"], [("operator classes", "titus/lib/core.py"), ("m.* classes", "titus/lib/pfamath.py")],
     "differential PBT against exact/IEEE references")
prop("C21", "String functions compute what they document on every string",
     "Every string function (length, substring and replacement by index with negative indexes, search, splitting, joining, trimming, case and character mapping, formatting of numbers) returns the documented value for all strings, including empty and non-ASCII ones, and all index values. "
     "Index arithmetic agrees with the array functions of the same name.",
     ["inputs"], "all string functions over generated strings, indexes and numbers", LIB,
     ["titus/lib/pfastring.py"], [("s.* classes", "titus/lib/pfastring.py")], "differential PBT against independent references")
prop("C22", "Regular-expression functions agree with the pattern's language",
     "For every supported pattern and any string or byte sequence, the regular-expression functions find the leftmost matches, captured groups, counts, splits and replacements that the pattern defines, with positions that index the haystack given. "
     "Invalid patterns raise the documented error.",
     ["inputs"], "generated patterns from a common regex subset with matching and non-matching haystacks", LIB,
     ["titus/lib/regex.py"], [("re.* classes, Regexer", "titus/lib/regex.py")], "differential PBT against an independent regex engine")
prop("C23", "Parsing and casting functions convert exactly or raise the documented error",
     "Number parsing accepts exactly the documented text forms and ranges and returns the exact value, and numeric casts truncate, wrap or round exactly as documented for every input. "
     "Fan-out and signed/unsigned conversions, JSON and Avro conversions preserve the value, and anything outside a conversion's domain raises its documented error.",
     ["inputs"], "all parse and cast functions over generated text and numbers", LIB,
     ["titus/lib/parse.py", "titus/lib/cast.py", "titus/lib/impute.py"], [("parse.* classes", "titus/lib/parse.py"), ("cast.* classes", "titus/lib/cast.py"), ("impute.* classes", "titus/lib/impute.py")],
     "differential PBT against independent references")
prop("C24", "Array functions compute what they document on every array",
     "Every non-functional array function (subsequence and replacement by index, head/tail, search, append/insert/replace/remove, rotate, sort, shuffle-free reordering, extrema and top-n, sums and means, set-like operations, flatten, pairing) returns the documented result for all arrays and indexes or raises its documented error. "
     "Inputs are never modified.",
     ["inputs"], "all such functions over generated arrays of several element types", LIB,
     ["titus/lib/array.py"], [("a.* classes", "titus/lib/array.py")], "differential PBT against list-based references")
prop("C25", "Higher-order array and map functions equal their defining comprehension",
     "Every array and map function that takes a function (mapping, filtering, filter-map, flat-map, zipping, reducing, folding, predicates, grouping, counting, sorting and extrema by comparison) calls it on the right elements in the right order and returns the value of the defining comprehension, for all collections and functions. "
     "Errors raised by the function propagate.",
     ["inputs", "programs"], "all such functions over generated collections and callback functions", LIB,
     ["titus/lib/array.py", "titus/lib/map.py"], [("functional a.* and map.* classes", "titus/lib")], "differential PBT against comprehensions")
prop("C26", "Map and set functions compute what they document on every map",
     "Every non-functional map function (size, keys, values, membership, add, remove, filtering by keys, update, splitting, joining, extrema) and every set function on maps built from items returns the documented result for all maps or raises its documented error. "
     "Set operations satisfy the usual set algebra.",
     ["inputs"], "all such functions over generated maps", LIB,
     ["titus/lib/map.py"], [("map.* classes", "titus/lib/map.py")], "differential PBT against dict/set references plus set algebra")
prop("C27", "Bytes, enum and fixed functions convert exactly",
     "Encoding a string into bytes in any supported encoding and decoding it gives the string back, the encoding predicates hold exactly for the byte sequences of that encoding, and base64 conversion is exact and invertible. "
     "Enum and fixed conversions return the declared symbol, index and bytes, or the documented error.",
     ["inputs"], "generated byte sequences, strings and enum/fixed types", LIB,
     ["titus/lib/bytes.py", "titus/lib/enum.py", "titus/lib/fixed.py"], [("bytes.*, enum.*, fixed.* classes", "titus/lib")], "differential and round-trip PBT")
prop("C28", "Time functions agree with the calendar",
     "For every timestamp and supported time zone, the calendar fields, day/week/month predicates and timestamp construction agree with the proleptic Gregorian calendar in that zone, and building a timestamp from a timestamp's fields gives the timestamp back. "
     "Invalid fields or zones raise the documented error.",
     ["inputs"], "timestamps over several centuries, zones and field tuples", LIB,
     ["titus/lib/pfatime.py"], [("time.* classes", "titus/lib/pfatime.py")], "differential PBT against an independent calendar computation")
prop("C29", "Linear algebra functions satisfy their algebraic definitions",
     "Matrix and vector functions (map, scale, add, subtract, multiply, transpose, inverse, trace, determinant, symmetry test, eigenbasis, truncation) on dense arrays and on sparse maps give results that satisfy their algebraic definition for all matrices, with the dense and sparse forms agreeing and inputs unmodified. "
     "Misaligned or malformed matrices raise the documented error.",
     ["inputs"], "generated matrices, vectors, sparse maps and malformed ones", LIB,
     ["titus/lib/la.py"], [("la.* classes", "titus/lib/la.py")], "PBT against exact rational arithmetic and algebraic identities")
prop("C30", "Metrics, links, kernels and interpolation compute their formulas",
     "The distance and similarity functions (including missing-value handling and weights), link functions over scalars, arrays and maps, kernels and interpolation (bin, nearest, linear; one and several dimensions) return the documented formula for all inputs or the documented error. "
     "Metrics are symmetric and zero on identical vectors.",
     ["inputs"], "all such functions over generated vectors, tables and parameters", LIB,
     ["titus/lib/metric.py", "titus/lib/link.py", "titus/lib/kernel.py", "titus/lib/interp.py"],
     [("metric.*", "titus/lib/metric.py"), ("m.link.*", "titus/lib/link.py"), ("m.kernel.*", "titus/lib/kernel.py"), ("interp.*", "titus/lib/interp.py")],
     "differential PBT against independent formulas")
prop("C31", "Probability distributions: densities, cumulatives and quantiles are consistent",
     "For every distribution and all valid parameters, the density or mass function equals its formula, the cumulative function is its integral or sum, monotone from 0 to 1, and the quantile function inverts it; invalid parameters raise the documented error and degenerate ones follow the documented limit.",
     ["inputs"], "all distributions over generated parameters and points", LIB,
     ["titus/lib/prob/dist.py", "titus/lib/spec.py"], [("prob.dist.* classes", "titus/lib/prob/dist.py")],
     "differential PBT against independent series/quadrature references plus consistency laws")
prop("C32", "Special functions satisfy their definitions and identities",
     "The special functions (logarithms of the gamma and beta functions, error function and its complement, number of combinations) equal their mathematical definitions for all arguments in their domain and raise the documented error outside it.",
     ["inputs"], "all special functions over generated arguments", LIB,
     ["titus/lib/spec.py"], [("m.special.* classes", "titus/lib/spec.py")], "differential PBT against exact combinatorics and numerical references")
prop("C33", "Streaming statistics equal the statistics of the data seen",
     "Feeding any weighted data stream one item at a time into the incremental statistics (moments, covariance, exponentially weighted moments, moving windows, histograms in one and two dimensions, top-n lists) gives, at every point, the value of the corresponding batch formula on the data so far. "
     "Derived quantities computed from the state agree with the same batch formula, and earlier states are not modified.",
     ["inputs", "histories"], "generated weighted streams and state configurations", LIB,
     ["titus/lib/stat/sample.py"], [("stat.sample.* classes", "titus/lib/stat/sample.py")], "model-based PBT against batch formulas")
prop("C34", "Goodness-of-fit tests and change detectors compute their statistics",
     "The statistical tests (two-sample KS, residual, pull, Mahalanobis, chi-squared and its reduced and probability forms) return the documented statistic for all inputs. "
     "The change detectors (trigger bookkeeping, CUSUM, Z-value) evolve exactly as documented over any stream of observations.",
     ["inputs", "histories"], "generated samples, residuals, covariance matrices and streams", LIB,
     ["titus/lib/stat/pfatest.py", "titus/lib/stat/change.py"], [("stat.test.*", "titus/lib/stat/pfatest.py"), ("stat.change.*", "titus/lib/stat/change.py")],
     "differential PBT against independent formulas and replayed streams")
prop("C35", "Decision-tree models score by following exactly the branches the datum satisfies",
     "For any tree or rule list and any datum, simple, compound and surrogate tests evaluate their comparison on the named field, and simple, missing-aware and user-tested tree walks reach exactly the leaf (or null) that the tests select, with trees of any shape, field type and comparison operator. "
     "Mistyped values or unknown operators raise the documented error.",
     ["inputs", "programs"], "generated trees, comparison operators, field types and data", LIB,
     ["titus/lib/model/tree.py"], [("model.tree.* classes", "titus/lib/model/tree.py")], "differential PBT against a reference tree walker")
prop("C36", "Cluster and nearest-neighbour models find the true closest items",
     "The cluster functions (closest, closest n, random seeding, k-means iteration and update of a mean) and the nearest-neighbour functions (nearest k, ball around, mean) return exactly the items that an exhaustive search by the given metric returns, with the documented tie, empty and error behaviour. "
     "Updated cluster centres equal the documented weighted combination.",
     ["inputs", "histories"], "generated point sets, metrics, k and update streams", LIB,
     ["titus/lib/model/cluster.py", "titus/lib/model/neighbor.py"], [("model.cluster.*", "titus/lib/model/cluster.py"), ("model.neighbor.*", "titus/lib/model/neighbor.py")],
     "differential PBT against exhaustive search")
prop("C37", "Naive Bayes, neural-network and SVM scores equal their formulas",
     "The naive Bayes likelihoods (Gaussian, multinomial, Bernoulli; array and map forms), feed-forward networks of any layer shape, and support-vector scores with any kernel return the documented formula for all models and data, and models with inconsistent dimensions or invalid parameters raise the documented error.",
     ["inputs"], "generated models of generated shapes with generated data", LIB,
     ["titus/lib/model/naive.py", "titus/lib/model/neural.py", "titus/lib/model/svm.py"], [("model.naive.*", "titus/lib/model/naive.py"), ("model.neural.*", "titus/lib/model/neural.py"), ("model.svm.*", "titus/lib/model/svm.py")],
     "differential PBT against independent formulas")
prop("C38", "Regression models and residual statistics equal their formulas",
     "Linear regression (scalar and vector, array and map forms), its variance propagation, Gaussian-process regression, and the residual, pull, Mahalanobis and chi-squared helpers return the documented formula for all models and data, the array and map forms agree, and inconsistent dimensions raise the documented error.",
     ["inputs"], "generated coefficient models, covariances, training tables and data", LIB,
     ["titus/lib/model/reg.py"], [("model.reg.* classes", "titus/lib/model/reg.py")], "differential PBT against independent formulas")
TOOL = "The producer and tool tests run one or two fixed datasets or documents."
prop("C40", "CART trees split by maximal gain and score as the producer says",
     "For any dataset, the tree-growing tool splits each node on a predicate that achieves the maximal entropy or variance gain among the candidates it defines, partitions the records exactly by that predicate, and reports correct scores and node statistics. "
     "The PFA document it writes classifies every record exactly as walking the producer's own tree does.",
     ["inputs", "configurations"], "generated mixed numerical/categorical datasets and stopping rules", TOOL,
     ["titus/producer/cart.py"], [("TreeNode.splitOnce, gain terms, pfaValue", "titus/producer/cart.py")], "differential PBT against brute-force split search and the emitted PFA engine",
     ["titus.producer.cart.Dataset, TreeNode"])
prop("C41", "K-means assigns to the nearest centre and never worsens; its PFA agrees",
     "For any dataset, weights and metric, each iteration assigns every point to its nearest centre and moves centres to the weighted mean of their points, so that optimization ends in a fixed point or at the stopping condition. "
     "The PFA document it writes labels every point with the cluster the producer assigns it to.",
     ["inputs", "configurations"], "generated datasets, weights, metrics, stopping conditions", TOOL,
     ["titus/producer/kmeans.py"], [("KMeans.iterate, optimize, closestCluster, pfaDocument", "titus/producer/kmeans.py")], "differential PBT against a naive Lloyd iteration and the emitted PFA engine",
     ["titus.producer.kmeans.KMeans"])
prop("C42", "A chained document behaves as the composition of its engines",
     "Chaining any compatible sequence of map and emit engines (with cells, pools, functions, begin/end routines and clashing names) yields one document whose outputs on any stream equal running the engines one after another. "
     "Sequences whose types do not fit, and fold engines, are refused.",
     ["programs", "histories"], "generated pairs and triples of engines and input streams", TOOL,
     ["titus/producer/chain.py"], [("chain.ast", "titus/producer/chain.py")], "differential PBT: chained engine vs a pipeline of separate engines",
     ["titus.producer.chain"])
prop("C43", "Producer helpers: expressions, transformations and JSON surgery are faithful",
     "A Python formula turned into PFA by the producer computes what the formula computes; a dataset transformation expressed once gives the same values applied to NumPy data and as PFA on each record. "
     "The JSON search and edit helpers find exactly the subexpressions that match a pattern and change only those.",
     ["programs", "inputs"], "generated formulas, datasets, JSON trees and patterns", TOOL,
     ["titus/producer/expression.py", "titus/producer/transformation.py", "titus/producer/tools.py"],
     [("expression.pfa", "titus/producer/expression.py"), ("Transformation", "titus/producer/transformation.py"), ("search/index/get/assign", "titus/producer/tools.py")],
     "differential PBT against Python/NumPy evaluation and a naive tree search",
     ["titus.producer.expression.pfa, Transformation, tools"])
prop("C44", "The inspector parses commands faithfully and edits only what matches",
     "Any command line built from words, quoted strings, numbers, JSON-like extraction paths and patterns is parsed into the values written, and malformed input is reported as a parse error and not as a crash. "
     "Look, count, index, find and change report and modify exactly the parts of the document that the path and pattern denote.",
     ["inputs", "histories"], "generated command lines, documents, paths and patterns", TOOL,
     ["titus/inspector/parser.py", "titus/inspector/jsongadget.py", "titus/inspector/defs.py"],
     [("parser", "titus/inspector/parser.py"), ("json gadget commands", "titus/inspector/jsongadget.py")], "round-trip and differential PBT against a naive tree walker",
     ["titus.inspector.parser.parse, InspectorMode"])
prop("C45", "Command-line scripts preserve the documents they process",
     "Externalizing cells and pools moves their initial values to external files and leaves a document that loads to an engine with the same behaviour; the random-engine script makes a document that loads, carries the given options and only returns values of the output schema, failing with the given probability; the size script counts what the initial values contain, and the chain script writes the document that the library's chain makes of the same steps and options.",
     ["programs", "inputs"], "generated documents and schemas run through the real scripts in a scratch directory", "The scripts have no tests.",
     ["scripts/pfaexternalize", "scripts/pfarandom", "scripts/pfasize", "scripts/pfachain"], [("scripts", "scripts/")], "end-to-end PBT in a scratch directory",
     ["the scripts' files and output"])

prop("C46", "Searching and rewriting syntax trees and call-graph queries are exact",
     "Collecting from the syntax tree of a document visits every node, wherever it is, exactly once, and replacing nodes gives the document with exactly these nodes substituted and everything else, and the original, as it was. The engine reports for every function exactly the functions it calls directly or through others, the depth of its calls (infinite if it can reach a cycle), and whether it can modify cells or pools.",
     ["programs"], "generated documents with markers in every expression position; generated call graphs", "The tests replace a node in one or two small documents and query one call graph.",
     ["titus/pfaast.py", "titus/genpy.py"], [("Ast.collect, Ast.replace", "titus/pfaast.py"), ("calledBy, callDepth, isRecursive, hasRecursive, hasSideEffects", "titus/genpy.py")], "metamorphic and model-based PBT over generated documents",
     ["Ast.collect, Ast.replace, PFAEngine.calledBy and the other queries"])

LEVEL_NOTE = "generated-input search with a fixed number of cases per run; it can find violations and says nothing beyond what it explored"


def main():
    NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
    done = sorted(f[:3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))
    na = {x["property"]: x for x in NA}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p, _, _ in P:
            fp.write(json.dumps(p) + "\n")
    checks = []
    missing = []
    for p, tech, note in P:
        if p["id"] in na:
            continue
        if p["id"] not in done:
            missing.append({"property": p["id"], "reason": "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "exploration", "level_note": note or LEVEL_NOTE})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA + missing}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(m, fp, indent=1)
        fp.write("\n")
    print(len(P), "properties;", len(checks), "checks;", [x["property"] for x in missing])


main()
