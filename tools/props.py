"""Per property: how many cases, the non-triviality rule and what is assumed."""
PROPS = {
    "C27": dict(cases=500000, thorough_cases=3000000, technique="model-based random operation histories",
                rule="random operation histories over 1-3 ring deques (or one ordering queue) compared with an ideal model after every step; non-trivial: more than three pops (so indices wrap) or at least two out-of-order arrivals",
                note="Random histories up to 120 operations and capacity 40 against a reference model; element lifetimes tracked by address, under ASan."),
    "C29": dict(cases=8000000, thorough_cases=40000000, technique="property-based testing against exact arithmetic",
                rule="random values, edge values and powers of two for each element type and number of fractional bits; non-trivial: at least one fractional bit and a non-zero value",
                note="Generated values for 22 type combinations against 128-bit exact arithmetic."),
}
PROPS["C28"] = dict(cases={"asan": 30000, "tsan": 12000}, thorough_cases={"asan": 600000, "tsan": 200000}, variants=["asan", "tsan"], technique="model-based histories and randomized multi-thread/multi-process stress with happens-before checking",
                rule="single-thread lock histories against a lock-state model, generated per-thread scripts on real threads and processes, and lock/release handovers; non-trivial: a refusal with several readers, a guarded write on several threads, or more than one file-lock user",
                note="Schedules are sampled by the OS scheduler; ThreadSanitizer's happens-before analysis of the guarded plain data extends each run to orderings that did not happen. FileLock over threads and forked processes.")
PROPS["C14"] = dict(cases=1200000, thorough_cases=20000000, technique="property-based testing against a table of documented types",
                rule="pairs of types built from names, aliases, markup with white space and case changes, C++ types and other types, and mutated or random descriptions; non-trivial: a dimension other than one or two different types, or any rejection case",
                note="Table of all documented names, aliases and C++ types as oracle, with markup round trips; arbitrary and mutated strings for rejection.")
PROPS["C12"] = dict(cases=250000, thorough_cases=2000000, technique="property-based testing with aliasing and lifetime oracles under ASan",
                rule="generated sizes, offsets and lengths (also around every boundary and with wrapping sums), reference histories and concurrent address-space changes; non-trivial: non-empty memory, or more than three reference operations",
                note="Sizes up to 70 kB; memory validity judged by ASan and by content comparison.")
PROPS["C10"] = dict(cases=150000, thorough_cases=1200000, technique="model-based random histories against an ideal byte queue, under ASan",
                rule="push/pop/require/clear histories over slices of slabs in any order, and over the buffers a generic or circular manager hands out to one or two consumers plus a forwarding consumer; non-trivial: several pushes with a join or a copy-together, or more than one buffer produced",
                note="Reference model is a plain byte deque; buffer return is judged through weak references and manager occupancy.")
PROPS["C11"] = dict(cases=350000, thorough_cases=2000000, technique="model-based random reference histories, multi-thread stress, under ASan",
                rule="hand-out, copy, move, self-assign, drop and manager-destruction histories for both managers with direct and deferred return, consumer threads, and pool histories; non-trivial: a full lap or out-of-order drops, more hand-outs than buffers, or several held and reused pool buffers",
                note="Overlap is judged on physical storage offsets (circular aliases folded), content of every held buffer is compared after every step.")
PROPS["C13"] = dict(cases=400000, thorough_cases=4000000, technique="property-based testing against element-wise reference conversion, under ASan", libs=["-rdynamic"],
                rule="all pairs of the ten real element types and their complex forms, dimensions 1-5, slices and partial counts; append/assign/clear histories over plain, null and wrapped circular chunks; non-trivial: at least one element converted, or two non-empty buffers joined",
                assumptions=["libsimdpp is not installed, so the innermost real-to-real and complex-to-complex loops (simdConvertBuffer) are supplied by the harness; selection, sizes, dtypes, buffers and the other loops are the library's"],
                note="Values are chosen representable in both types so that the expected result is exact.")
PROPS["C01"] = dict(cases={"asan": 3000, "tsan": 600}, thorough_cases={"asan": 60000, "tsan": 20000}, variants=["asan", "tsan"], hang_s=90, soft_tsan=True, technique="randomly generated running flow graphs against an element-exact stream oracle, under ASan and TSan",
                rule="random acyclic graphs of up to 5 blocks with any mix of source, pass-through and sink lanes, fan-out, element types, chunk sizes, reserves, output modes (produce, new buffer, getBuffer, popElements, forward, in place), buffer managers, domains and thread pools, and several producers into one input; non-trivial: at least two flows and more than 20 elements moved",
                note="Every byte at every input is compared with the producer's generated stream; schedules are sampled by the OS scheduler, ThreadSanitizer extends each run to unseen orders of racing accesses.")
PROPS["C02"] = dict(cases={"asan": 5000, "tsan": 600}, thorough_cases={"asan": 100000, "tsan": 20000}, variants=["asan", "tsan"], hang_s=90, soft_tsan=True, technique="randomly generated running flow graphs against a label-position oracle at every input, under ASan and TSan",
                rule="the graphs of C01 with up to 40 labels per source (posted in any order, some removed on the way), and chains in which both ends of a flow have different element sizes; non-trivial: more than three labels seen downstream, or differing element sizes with more than two labels",
                note="Every work call compares the visible labels with exactly the next expected ones: position, order, identifier, payload, width. The order of labels on the same element is not judged.")
PROPS["C03"] = dict(cases=3000, thorough_cases=150000, hang_s=90, technique="randomly generated running message/signal networks against per-sequence delivery oracles, under ASan",
                rule="random acyclic networks of up to 5 blocks with message ports, signals, slots, probes (with and without result), forwarding, fan-out, fan-in, slow consumers, throwing slots, unmet reserves, up to 3000 messages per sequence, plus calls and pushes from outside threads; non-trivial: more than ten items over more than one connection",
                note="Each item carries its sequence and position; every arrival must be exactly the next of its sequence with intact content. At most 1000 items are outstanding per port, where the library drops by design.")
PROPS["C30"] = dict(cases=3000, thorough_cases=80000, hang_s=90, technique="randomly generated running flow graphs; reported totals against counts kept by the blocks themselves",
                rule="the graphs of C01 with labels; statistics polled while running (monotone) and compared at quiescence for every port, plus message networks with left-over messages; every work call's sizes are cross-checked; non-trivial: more than 20 totals compared (5 messages)",
                note="Counts kept inside the generated blocks are the oracle.")
PROPS["C19"] = dict(cases=1200000, thorough_cases=8000000, technique="property-based round trips over generated values of every serializable type, under ASan",
                rule="1-4 generated objects (nested containers, proxies, labels, packets, buffers, dtypes, ...) sharing one stream that is delivered in pieces of any size; typed C++ values sharing one archive, loaded into used targets; user-defined and polymorphic types; non-trivial: a rendered value longer than 12 characters or more than one value",
                note="Oracle: canonical rendering of every value (floats by bit pattern), type identity and exact stream position after each value.")
PROPS["C20"] = dict(cases=60000, thorough_cases=2000000, hang_s=45, technique="property-based truncation and damage injection over generated values and messages, plus cut connections under several client threads, under ASan",
                rule="generated values cut at up to 40 byte positions each, archives of typed values, requests and replies cut or damaged in header, length, trailer or payload length, and connections cut after a generated number of bytes while 2-6 threads use them; non-trivial: more than four cuts, damage that reached a receiver, or a cut with both successful and failed operations",
                note="An error must be raised in every damaged case and the undamaged one must work; hangs are found by time limits and confirmed by replays.")
PROPS["C24"] = dict(cases=8000, thorough_cases=300000, hang_s=60, technique="differential property-based testing (same generated operation history on a local and a remote environment) and multi-thread client stress, under ASan",
                rule="histories of up to 41 operations (make, find, construct, call with good and spoiled arguments, convert, compare, hash, print, copy, drop, refused values) over a socket pair, 2-6 client threads sharing a connection with self-checking answers, and two connections to one server; non-trivial: more than two calls compared, or more than five operations per thread",
                note="The local environment is the oracle; live instance counts on the server are compared after every operation.")
PROPS["C22"] = dict(cases={"asan": 24000, "tsan": 2000}, thorough_cases={"asan": 2000000, "tsan": 20000}, variants=["asan", "tsan"], technique="model-based random add/remove/query histories with event handlers against a tree model, generated path strings, and multi-thread query/change stress under ASan and TSan",
                rule="histories of up to 41 adds, removes, queries and dumps over a small path tree with (also throwing) handlers anywhere, path texts with mutations and all joins of two paths, and readers against writers on shared subtrees; non-trivial: several plugins and a removal in more than five steps, a path beyond the root, or more than two threads",
                note="Events are compared as multisets after every step. Handlers at the root path and paths left empty by removal (in dumps) are not judged.")
PROPS["C15"] = dict(cases={"asan": 120000, "tsan": 1500}, thorough_cases={"asan": 4000000, "tsan": 60000}, variants=["asan", "tsan"], soft_tsan=True, technique="model-based random reference histories against a shared-pointer model, multi-thread copy/drop stress, under ASan and TSan",
                rule="histories of up to 61 operations (create in five ways, copy, move, swap, self-assign, nest in containers and labels, take elements out into their own container, modifiable references, wrong types, null) over 2-7 objects, threads copying and dropping shared objects, and write-after-unique handovers; non-trivial: more than six operations, or more than three rounds",
                note="Model: a std::shared_ptr graph; after every step live instances, uniqueness, identity and values of all objects are compared. TSan judges the held value in handovers.")

PROPS["C16"] = dict(cases=1500000, thorough_cases=20000000, technique="property-based testing against exact extended-precision conversion, under ASan", libs=["-rdynamic"],
                rule="all pairs of the thirteen real types to the fifteen numeric targets, and the seven complex sources, as single values and as vectors; half the values within a few units of an edge of some type's range; non-trivial: the types differ (vectors: at least two elements)",
                assumptions=["libsimdpp is not installed, so the innermost unchecked vector loops (simdConvertBuffer) are supplied by the harness", "infinities and NaN converted to a floating type may be kept or refused"],
                note="The oracle holds every value exactly (64-bit mantissa); in range means lowest <= value <= max of the target.")

PROPS["C18"] = dict(cases=150000, thorough_cases=6000000, technique="property-based testing against exact ordering, under ASan", libs=["-rdynamic"],
                rule="pairs of values over the thirteen real types (two thirds within a few units of each other, many beyond 2^53), strings, null and incomparable types, as objects and as managed proxies; sets, maps and sorting of up to 30 comparable values in two insertion orders; comparators and hash functions registered and removed at run time; non-trivial: comparable pairs of numbers or strings, more than four entries, or a removal in a history of more than five steps",
                assumptions=["NaN has no place in an order and is not generated"],
                note="The oracle compares in a format that holds every value of every type exactly.")

PROPS["C17"] = dict(cases=150000, thorough_cases=2000000, technique="property-based and model-based testing: single conversions as reference for containers, a path model for registered conversions, under ASan", libs=["-rdynamic"],
                rule="vectors, matrices, sets, maps, keyword maps, strings and labels over seventeen element types, native, object and proxy forms, alone and mixed; every generated value against a broad list of target types; histories of adding and removing conversions between four own types, to double, and of proxy environment converters; conversions racing with registrations; non-trivial: at least two elements, differing types, or a removal in a history",
                assumptions=["libsimdpp is not installed, so the innermost unchecked vector loops (simdConvertBuffer) are supplied by the harness", "two conversions registered for the same pair of types at the same time are not generated"],
                note="Map keys converted to keyword names are strings or ints.")
PROPS["C21"] = dict(libs=["-rdynamic"], cases=70000, thorough_cases=4000000, technique="model-based testing of bind/unbind/copy/call histories, under ASan",
                rule="histories of up to 40 operations over three callables and 22 functions and methods of up to seven parameters: bind, unbind, rebind, bind beyond the last parameter, copy, move, reset, call with fitting, convertible, out of range, missing and extra arguments and with functions that throw; descriptions checked after every step; plus the templated interface and factories; non-trivial: at least two calls and one bind",
                assumptions=["surplus arguments may be ignored or refused"],
                note="Each function logs the arguments it saw; the model converts each argument on its own with the object conversion decided by C16/C17.")
PROPS["C23"] = dict(libs=["-rdynamic"], cases=70000, thorough_cases=800000, technique="model-based testing of managed class registrations and call histories, under ASan",
                rule="three classes in an inheritance chain with random sets of constructors, overloaded methods, static methods, opaque and wildcard handlers and fields; histories of up to 50 constructions (value, pointer, shared), method and static calls with fitting, convertible, out of range and unfitting arguments and throwing functions, field accesses, deletions, unloading and registering again; non-trivial: more than four calls",
                assumptions=["among several acceptable overloads any may be chosen", "calls on a class whose base class is not registered are not judged"],
                note="Each function logs class, instance and arguments; instance identity, call counts and lifetime are checked after every step.")
PROPS["C25"] = dict(libs=["-rdynamic"], cases=100000, thorough_cases=3000000, technique="grammar-based generation of expressions together with their values, constant histories and token soup, under ASan",
                rule="histories of up to 14 steps over two environments: evaluate a generated expression (numbers in four bases, operators, conditionals, strings with escapes and brackets, nested lists and maps, list arithmetic, constants, random spacing), define constants by expression or by object, redefine, remove, and malformed expressions made by deleting or inserting one bracket or quote; and random token sequences; non-trivial: an expression with several containers or operators, malformed input or a redefined constant",
                assumptions=["the installed muparserx evaluates scalar operators correctly", "numbers stay within the exact range of double"],
                note="Every generated expression carries its expected value; malformed input must raise a Pothos exception.")
PROPS["C26"] = dict(cases=120000, thorough_cases=3000000, technique="grammar-based generation of source text with block descriptions together with the expected JSON, single mistakes, and garbage, under ASan",
                rule="up to four descriptions per source with random names, categories, keywords, aliases, modes, parameters with all members, factory and calls with positional, keyword, string, list, map and nested arguments and documentation lines, laid out in six comment styles with random indentation, line endings and surrounding code and comments; the same with one of 13 kinds of mistakes; and random fragments; non-trivial: a description with parameters or calls, or a mistake",
                assumptions=["descriptions are separated by a line of code", "brackets in names and descriptions are escaped as documented"],
                note="The parsed JSON must equal the generated one member by member.")
PROPS["C06"] = dict(cases=2500, thorough_cases=60000, technique="model-based testing of edit histories on up to three topologies, under ASan",
                rule="histories of up to 40 connect, disconnect and disconnect-all calls on up to three topologies over up to three blocks, with existing, missing, numbered, signal and outer ports, nested topologies, pass-through, duplicates, connections of other topologies and things that cannot be connected; non-trivial: several accepted and several rejected edits",
                assumptions=["outer ports have a name"],
                note="After each edit the outer port names, the port information and the dumped connections of the topologies are compared with the model.")
PROPS["C05"] = dict(cases=1600, thorough_cases=60000, technique="generated hierarchies compared with an explicit reachability model, and their data, under ASan",
                rule="topology trees up to four levels deep with up to seven blocks, random connections including outer ports and pass-through, chained, fanned out and looping, then up to two rounds of random edits at any level; the flat view is compared, a third of the cases also commit, compare the rendered view and send one message per output; non-trivial: at least two flows in a hierarchy that uses outer ports",
                assumptions=["each topology has one parent"],
                note="The model computes for each block output the block inputs reachable through outer ports.")
PROPS["C09"] = dict(libs=["-rdynamic"], cases=40000, thorough_cases=1500000, technique="model-based testing of registration and call histories on blocks and topologies, under ASan",
                rule="histories of up to 50 steps over two blocks and a topology: register one of ten functions under one of five names as method, as bound callable or with further parameters bound, and call by name directly, through the call operator or through a proxy with fitting, convertible, out of range, missing, surplus and unfitting arguments, unknown names and functions that throw; non-trivial: several calls of which some are invoked and some overloaded",
                assumptions=["among several acceptable overloads any may be chosen", "surplus arguments for the only registration may be ignored or refused"],
                note="Each function logs its instance and arguments; the model converts each argument on its own.")
PROPS["C07"] = dict(libs=["-rdynamic"], cases=6000, thorough_cases=250000, technique="grammar-based generation of descriptions together with the expected graph, single mistakes, and damaged text, under ASan",
                rule="descriptions with up to four blocks from seven factories (block, shared, opaque and topology), globals and locals as arrays and maps with references and shadowing, arguments given as JSON values, expressions and plain words, calls, thread pools and up to five connections including the topology itself; and the same with one of 24 kinds of mistakes; non-trivial: several constructions or calls and a connection, or a rejected description",
                assumptions=["variables in map form do not refer to each other", "block ids are unique"],
                note="Factories and setters log what they were given; rejected descriptions must leave no block alive.")
PROPS["C08"] = dict(cases={"asan": 1100, "tsan": 260}, thorough_cases={"asan": 60000, "tsan": 20000}, variants=["asan", "tsan"], soft_tsan=True, hang_s=120, technique="stress of generated graphs, pools, reassignments and external callers with entry/exit monitors in every callback, under ASan and with ThreadSanitizer judging the block state",
                rule="one or two chains of two to four streaming blocks and up to two blocks with slots only, random signal, slot and probe flows, up to three pools of one to three threads or a thread per block in all yield modes, blocks moved between pools, a block that enters and leaves the graph, stats queries and up to three external callers of up to 60 calls; two busy blocks under up to four callers of up to 850 calls without pause; callbacks linger at random; and pool parameters; non-trivial: more than 20 work calls with several pools or external callers",
                assumptions=["a block does not call its own registered functions from inside its callbacks through the external interface"],
                note="Every callback of a block enters a monitor that reports a second thread inside and more threads inside a pool than its size; everything sent has to arrive eventually.")
PROPS["C04"] = dict(cases=560, thorough_cases=9000, hang_s=90,
    technique="property-based testing (stateful, model-based): random histories of connect, disconnect, disconnectAll, commit and topology destruction over up to 7 sources, relays and sinks (streams, messages, signals; automatic ports; bridged domains; shared pools) that keep running; every value carries its producer and number, and the model of requested flows decides which numbers may and must arrive",
    rule="at least two commits that changed at least three flows, and more than ten values received",
    note="The numbers received over a flow must be one consecutive run per period in which the flow was committed; the start of a run must lie between the producer's counters before and after the commit that made the flow and nothing made after the commit that removed it may arrive. Activation is compared with the model after every commit. Blocks are local: flows between processes need network blocks of another package.")
PROPS["C31"] = dict(libs=["-rdynamic"], cases=20000, thorough_cases=1000000, technique="model-based registration histories and generated trees of configuration files against the described registrations, under ASan",
                rule="histories of up to 15 registrations (all factory kinds, unfit callables, bad and taken paths), makes with fitting and unfitting arguments, removals; and up to 7 configuration files (topologies with 0-4 globals in three forms, descriptions with aliases, a custom loader, 14 kinds of mistakes, conflicting entries) over four search places, loaded by Pothos::init, with topologies made from arguments of six kinds, dumps and deinit; non-trivial: several blocks made, or several files with a valid one",
                assumptions=["which of two files that claim the same path wins is not judged"],
                note="Oracle: the generated files themselves; factories log the arguments they were given.")
PROPS["C32"] = dict(module=True, libs=["-ldl"], cases={"asan": 60000, "tsan": 4000}, thorough_cases={"asan": 2000000, "tsan": 100000}, variants=["asan", "tsan"], technique="model-based histories of loading, copying, assigning and dropping real plugin modules, and multi-thread load/register stress, under ASan and TSan",
                rule="histories of up to 20 steps over three module files whose registrations are generated (callables into module code, values, conflicting paths, versions): load (also twice), copy, assign, drop, keep a plugin's module, host additions and removals at the same paths, unloadable files of six kinds, changed files; and 1-3 threads loading modules against 1-3 threads registering plugins of the program; non-trivial: several loads and an unload in more than four steps, or more than two threads",
                assumptions=["modules are built without GNU unique symbols, so that unloading really unmaps them", "a file that is already loaded registers nothing when it is loaded again"],
                note="After every step registry content, owning module, version, code of the module and whether the library is still mapped are compared with the model.")
PROPS["C33"] = dict(cases=10000, thorough_cases=400000, technique="model-based evaluator histories over generated block descriptions against a second evaluation by the harness, locally and remotely, under ASan",
                rule="descriptions with 0-3 constructor arguments and 0-5 calls (property names, expressions over properties, native JSON values, literals, bad expressions), and histories of up to 15 constants, property evaluations, property assignments, evaluations and single calls; non-trivial: at least two evaluations, one of them successful, after more than three steps",
                note="The recording blocks log every constructor argument and call they receive; the harness computes the same log from its own value of every expression.")
PROPS["C34"] = dict(cases=8000, thorough_cases=1000000, technique="generated topologies drawn and parsed back by an independent DOT and HTML-label reader, compared with the topology's own dump, under ASan",
                rule="topologies of 1-5 members nested up to two levels, with block names and port names that need quoting, numeric ports, signals, slots, aliases and outer ports, drawn in every mode and port selection, before and after a commit; non-trivial: more than one block and more than one connection",
                note="The JSON dump used as reference is itself checked against a model by C04-C07.")
PROPS["C35"] = dict(cases={"asan": 30000, "tsan": 6000}, thorough_cases={"asan": 2000000, "tsan": 200000}, variants=["asan", "tsan"], technique="model-based printing and registration histories and multi-thread print/register stress, under ASan and TSan",
                rule="values of every numeric, complex, text and container type nested up to two levels, and types with registered functions (also by pointer and shared pointer, re-registered and removed, misfit functions, functions that use the registry and print in turn); 1-3 threads printing against 1-2 registering; non-trivial: several prints and changes of registration, or more than two threads",
                note="The text is read back: integers exactly, floating point numbers to the six decimals printed, unordered containers in any order.")
