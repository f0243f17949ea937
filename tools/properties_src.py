#!/usr/bin/env python3
"""Source of truth for properties.jsonl: `python3 tools/properties_src.py > properties.jsonl`."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
FW = "lib/Framework/"
p("C01", "Stream data arrives complete, in order and unaltered",
  "For every running flow graph whose blocks pass streams on unchanged (by copying, by handing received buffers on, or by working in place), every consumer reads exactly the elements its producer wrote: in order, none lost, duplicated or altered. This holds for any fan-out, chunk size, reserve requirement, buffer mode and thread configuration, and once the sources stop everything that was produced is eventually consumed.",
  ["schedules", "inputs", "configurations", "programs"],
  "all acyclic stream graphs, produce/consume amounts per work call, reserves, buffer managers, thread pools and interleavings",
  "The tests run one feeder/collector pair with fixed sizes; loss, duplication or aliasing needs particular chunk sizes, fan-out, buffer reuse and interleavings.",
  [FW+"WorkerActor.cpp", FW+"InputPort.cpp", FW+"OutputPort.cpp", FW+"BufferAccumulator.cpp", FW+"Builtin/GenericBufferManager.cpp", FW+"Builtin/CircularBufferManager.cpp", FW+"TopologyDomainFlows.cpp"],
  [("pre/post work buffer flushing", FW+"WorkerActor.cpp"), ("input accumulation", FW+"InputPort.cpp"), ("buffer produce/post and read-before-write", FW+"OutputPort.cpp")],
  ["elements received by a sink block's work()"])
p("C02", "Stream labels stay attached to their element, in order, exactly once",
  "A label posted on a stream at a given element is seen by each downstream consumer exactly once and at that same element of the stream, with its identifier, payload and width unchanged, including when it is propagated through intermediate blocks and when both ends view the stream with different element sizes (the index and width then scale by the size ratio). Labels are presented in index order and are gone once their element has been consumed.",
  ["schedules", "inputs", "histories"],
  "all label positions, widths, chunk boundaries, propagation chains, element-size ratios and schedules",
  "Tests post a few labels at fixed places; off-by-one or lost labels need specific chunk boundaries and partially consumed buffers.",
  [FW+"WorkerActor.cpp", FW+"OutputPort.cpp", FW+"InputPort.cpp", FW+"Block.cpp", FW+"Label.cpp"],
  [("label index adjustment", FW+"WorkerActor.cpp"), ("default propagation", FW+"Block.cpp"), ("ordering and removal", FW+"InputPort.cpp")],
  ["labels visible in a consumer's work()"])
p("C03", "Messages, signals and slot calls are delivered in order, exactly once",
  "Every message posted to an output reaches every subscribed input exactly once, in posting order and with its content intact, and every emitted signal invokes each connected slot exactly once, in emission order and with the emitted arguments. A probe on a registered call produces exactly one trigger signal carrying that call's return value. Back-pressure on a slow consumer delays messages but never drops or reorders them.",
  ["schedules", "inputs", "configurations"],
  "all message counts, payloads, subscriber sets, emission orders and schedules",
  "Tests send a single burst to one subscriber; loss, duplication and reordering depend on counts, fan-out and interleavings.",
  [FW+"WorkerActor.cpp", FW+"InputPort.cpp", FW+"OutputPort.cpp", FW+"Block.cpp"],
  [("message and slot queues", FW+"InputPort.cpp"), ("token back-pressure", FW+"OutputPort.cpp"), ("signal emission and probes", FW+"Block.cpp")],
  ["messages popped and slot methods invoked in receiving blocks"])
p("C04", "Committing a reconfigured topology yields exactly the requested graph",
  "After any history of connects, disconnects and commits, exactly the currently requested flows carry data: a consumer gets data from every producer connected to it and from no producer that was disconnected, while flows untouched by a commit keep streaming without loss. A block is activated exactly when it enters the committed graph and deactivated exactly when it leaves it or the topology is destroyed, strictly alternating, and no work call happens outside an active period.",
  ["histories", "schedules", "configurations"],
  "all sequences of connect, disconnect, disconnect-all and commit over any set of blocks, while running",
  "Tests build one graph and commit it once or twice; stale flows, missed activation and leaked subscribers need longer histories.",
  [FW+"Topology.cpp", FW+"TopologyCommit.cpp", FW+"TopologyDomainFlows.cpp", FW+"WorkerActor.cpp"],
  [("old/new flow difference on commit", FW+"TopologyCommit.cpp"), ("activation lifecycle", FW+"WorkerActor.cpp")],
  ["activate/deactivate/work callbacks", "data received by sinks"])
p("C05", "Nested topologies are equivalent to the flattened graph",
  "Wrapping any part of a graph into sub-topologies, to any depth and including direct pass-through from an outer input to an outer output, never changes which block port feeds which other block port: the flattened view lists exactly the flows of the equivalent flat graph, and the running graph delivers the same data.",
  ["programs", "configurations"],
  "all graphs and all ways of nesting them in hierarchies with pass-through flows",
  "Tests cover a handful of fixed two-level hierarchies.",
  [FW+"TopologySquashFlows.cpp", FW+"Topology.cpp", FW+"TopologyDumpJSON.cpp", FW+"TopologyCommit.cpp"],
  [("flow squashing", FW+"TopologySquashFlows.cpp"), ("pass-through completion", FW+"TopologySquashFlows.cpp")],
  ["flattened JSON dump", "data received by sinks"])
p("C06", "Topology edits are validated and failed edits change nothing",
  "Connecting accepts exactly existing, not yet connected port pairs and disconnecting exactly existing connections, with the outer ports of the topology itself treated like any other port; anything else is rejected with an error. A rejected edit leaves the topology (its flows and its outer port names) exactly as before, disconnecting undoes connecting, and disconnecting everything leaves a topology with no flows and no outer ports.",
  ["histories", "inputs"],
  "all sequences of valid and invalid connect/disconnect/disconnect-all calls, with and without outer ports",
  "Tests check a few invalid calls in isolation and never the state afterwards.",
  [FW+"Topology.cpp"],
  [("connect/disconnect checks", FW+"Topology.cpp")],
  ["port name lists and the dumped flow list"])
p("C07", "A topology made from a JSON description is the one described",
  "Building a topology from a well-formed JSON description creates exactly the listed blocks with their arguments evaluated under the listed global and local variables, performs the listed calls in order and makes exactly the listed connections, and dumping the result lists that same graph. Descriptions with unknown block ids, missing or wrongly typed fields or invalid JSON are rejected with an error and never crash or build a partial graph.",
  ["inputs", "programs"],
  "all well-formed descriptions and all single-field mutations of them",
  "Tests use one hard-coded description and a few hard-coded mistakes.",
  [FW+"TopologyMakeJSON.cpp", FW+"TopologyDumpJSON.cpp", "lib/Util/EvalEnvironment.cpp"],
  [("description parsing", FW+"TopologyMakeJSON.cpp"), ("dump", FW+"TopologyDumpJSON.cpp")],
  ["constructor/setter calls seen by the blocks", "JSON dump"])
p("C08", "A block is never executed by two threads at once; pools bound threads",
  "For every thread-pool configuration and any mix of streaming, messages, slots, probes and external calls on a block, at most one of its work, activation, slot, propagate and registered-call functions executes at any instant. With a pool limited to N threads at most N of its blocks execute simultaneously, and every block with pending work in any pool eventually runs. Invalid pool parameters are rejected with an error.",
  ["schedules", "configurations"],
  "all pool sizes, yield modes, priorities, pool assignments, topologies and concurrent external callers",
  "Overlap depends on interleavings; tests only run single pools and never check for overlap.",
  [FW+"ActorInterface.hpp", FW+"ThreadEnvironment.cpp", FW+"ThreadPool.cpp", FW+"WorkerActor.cpp", FW+"Block.cpp"],
  [("actor lock with external priority", FW+"ActorInterface.hpp"), ("task scheduling", FW+"ThreadEnvironment.cpp")],
  ["entry/exit counters inside block callbacks"])
p("C09", "Calls on a block dispatch to the registered function with matching arguments",
  "A call made by name on a block invokes exactly one function registered under that name, chosen so that the number of arguments matches and every argument is convertible, passes the converted arguments in order and returns its result. When no registration matches (unknown name, too few arguments, arguments that do not convert or, with several registrations, another number of arguments), an error is reported and nothing is invoked; an exception thrown by the called function reaches the caller with its message. Registering a function that returns nothing also provides a slot of that name, unless the name starts with an underscore or is already an input.",
  ["inputs", "histories"],
  "all sets of registered overloads and all argument lists",
  "Tests call one or two overloads with ideal arguments.",
  [FW+"Block.cpp", FW+"Connectable.cpp", "include/Pothos/Framework/BlockImpl.hpp"],
  [("overload lookup", FW+"Block.cpp")],
  ["return values and a call log inside the block"])
p("C10", "The input buffer queue is a faithful byte queue",
  "For every sequence of pushing buffers, popping bytes and requiring a minimum contiguous amount, the queue's content read from its front equals the pushed bytes minus the popped ones; the reported total is exact; and after a successful requirement the front shows at least that many contiguous bytes when they are available. Joining neighbouring or wrapped buffers never changes content, and each buffer is given back only after its bytes were popped and no one else refers to it, and then exactly once.",
  ["histories", "inputs"],
  "all push/pop/require sequences over slab and circular buffers of all sizes and adjacency patterns",
  "There is no direct test; streams exercise only the common pattern.",
  [FW+"BufferAccumulator.cpp", FW+"BufferPool.cpp", FW+"BufferChunk.cpp"],
  [("amalgamation of contiguous buffers", FW+"BufferAccumulator.cpp")],
  ["front(), totals and manager occupancy"])
p("C11", "Managed buffers are never handed out while still referenced and never lost",
  "A buffer manager never exposes memory for writing that overlaps memory still referenced by anyone else, whatever the sizes popped and the order in which references are dropped. Once all references to its buffers are dropped, all of its buffers are available again, in the order they were handed out, and none is duplicated; the manager's storage outlives every reference even if the manager itself is destroyed first. Buffers from a reuse pool have at least the requested size and are not reused while referenced.",
  ["histories", "schedules", "configurations"],
  "all pop sizes, reference copy/drop orders (also from other threads), buffer counts and sizes, for every manager kind",
  "Tests follow one allocate/release order per manager.",
  [FW+"BufferManager.cpp", FW+"ManagedBuffer.cpp", FW+"BufferPool.cpp", FW+"Builtin/GenericBufferManager.cpp", FW+"Builtin/CircularBufferManager.cpp", "include/Pothos/Util/OrderedQueue.hpp"],
  [("reference counting", FW+"ManagedBuffer.cpp"), ("ordered return", "include/Pothos/Util/OrderedQueue.hpp")],
  ["front(), empty(), buffer contents"])
p("C12", "Shared memory buffers have the promised size, alignment, aliasing and lifetime",
  "A shared buffer provides at least the requested bytes, a circular one presents the same storage twice back to back so that a write through either image is seen through the other, and a file-mapped one shows the file's bytes. A sub-buffer can be created exactly for ranges inside its parent (including a circular alias range) and is rejected otherwise. Memory stays valid while any buffer refers to it and its owner is released exactly once afterwards.",
  ["inputs", "histories"],
  "all sizes, offsets, lengths and reference lifetimes",
  "Tests use a few sizes and one in-range and one out-of-range sub-buffer.",
  [FW+"SharedBuffer.cpp", FW+"SharedBufferUnix.cpp", FW+"MemoryMappedBufferContainer.cpp"],
  [("double mapping", FW+"SharedBufferUnix.cpp"), ("subset check", FW+"SharedBuffer.cpp")],
  ["address, length, alias and memory contents"])
p("C13", "Buffer chunks convert and append element by element",
  "Converting a buffer to another element type gives a buffer of that type with the same number of elements in the same order and each element numerically converted (real to complex puts zero in the imaginary part, splitting complex gives the real and imaginary parts), leaving the source untouched; unsupported conversions are rejected. Appending, slicing and assigning buffers give exactly the concatenated, sliced or shared bytes.",
  ["inputs"],
  "all element types, vector dimensions, lengths and contents",
  "Tests convert one short ramp per pair with dimension one.",
  [FW+"BufferConvert.cpp", FW+"BufferChunk.cpp"],
  [("conversion kernels by type pair", FW+"BufferConvert.cpp")],
  ["length, dtype and contents of the result"])
p("C14", "Data type descriptions parse, print and compare consistently",
  "Every documented spelling of a data type (names, aliases, C type names, dimension suffix) yields the type with the documented kind, size and dimension, and printing a type and parsing it back gives an equal type. Types built from a name, from a C++ type or by copying with another dimension agree on equality exactly when element type and dimension agree, and unknown descriptions are rejected.",
  ["inputs"],
  "all supported names and aliases with all dimensions, plus arbitrary strings",
  "Tests list some names with dimension one.",
  [FW+"DType.cpp", "include/Pothos/Framework/DType.hpp"],
  [("registration table and markup parser", FW+"DType.cpp")],
  ["name/size/dimension/equality/markup"])
p("C15", "Objects keep their held value alive exactly as long as it is referenced",
  "For every sequence of creating, copying, moving, assigning (including to itself), nesting and destroying objects, the held value is readable and unchanged while at least one object refers to it, uniqueness reporting matches the number of references, and the value is destroyed exactly once, right when the last reference goes. Extracting with the wrong type is rejected without effect, and this also holds when references are copied and dropped on several threads.",
  ["histories", "schedules"],
  "all create/copy/move/assign/swap/destroy histories over small sets of objects",
  "Tests copy an object once or twice.",
  ["lib/Object/Object.cpp", "include/Pothos/Object/ObjectImpl.hpp", FW+"ManagedBuffer.cpp"],
  [("intrusive reference count", "lib/Object/Object.cpp")],
  ["instance counters of held values, unique()"])
p("C16", "Numeric conversion of objects is exact or reports out of range",
  "Converting a numeric object to another numeric type yields the value the language's own conversion of that number gives when the number lies in the target type's range, and otherwise fails with a range error instead of silently changing the value. Real to complex puts the value in the real part, complex to real needs a zero imaginary part, and vectors of numbers convert as their elements do.",
  ["inputs"],
  "all values of all pairs of supported numeric types, especially at the edges of each range",
  "Tests check one or two values per pair; the edges of each range are where such checks break.",
  ["lib/Object/Builtin/ConvertCommonImpl.hpp", "lib/Object/Builtin/ConvertIntegers.cpp", "lib/Object/Builtin/ConvertFloats.cpp", "lib/Object/Convert.cpp"],
  [("range-checked conversion", "lib/Object/Builtin/ConvertCommonImpl.hpp")],
  ["converted value or raised error"])
p("C17", "Container and indirect conversions work element-wise; availability is honest",
  "Converting between vectors, sets, maps, strings and object or proxy containers converts each element as a single conversion would, preserving length, order and keys, and converting back restores the original when each element allows it. A conversion reported as possible does not fail for lack of a conversion (elements of generic object and proxy containers aside), one reported as impossible always fails with an error, and registering or removing a conversion at run time takes effect immediately.",
  ["inputs", "histories"],
  "all container shapes, element types and registration histories",
  "Tests convert a few literal containers.",
  ["lib/Object/Convert.cpp", "lib/Object/Builtin/ConvertIntermediate.cpp", "lib/Proxy/Builtin/ConvertContainers.cpp", "lib/Object/Builtin/ConvertString.cpp"],
  [("conversion lookup, direct or through one intermediate", "lib/Object/Convert.cpp")],
  ["converted container or raised error"])
p("C18", "Object comparison is a consistent order and hashing agrees with equality",
  "Comparing two objects holding real numbers of any types, or two strings, agrees with the mathematical (or lexicographic) order of the values: reflexive, antisymmetric, transitive, and the less/greater operators agree with the comparison result. Objects holding equal real numbers, strings or truth values of the same type have equal hash codes, incomparable objects are reported as such without crashing, and object sets and maps of mutually comparable keys contain the same entries whatever the insertion order.",
  ["inputs"],
  "all pairs and triples of values over all supported types",
  "Tests compare a few pairs.",
  ["lib/Object/Compare.cpp", "lib/Object/Hash.cpp", "lib/Object/Builtin/Compare.cpp"],
  [("registered comparators", "lib/Object/Compare.cpp"), ("hash functions", "lib/Object/Hash.cpp")],
  ["compareTo/hashCode results"])
p("C19", "Serialization round-trips every supported value",
  "Serializing any supported value (numbers of every width, complex, strings, nested containers, objects, proxies, labels, packets, buffers, data types) and deserializing it gives a value of the same type that equals the original, and consumes exactly the bytes written so that consecutive values can share one stream.",
  ["inputs"],
  "all values of all serializable types, nested to any depth",
  "Tests serialize small positive numbers and short containers.",
  ["include/Pothos/Archive/Numbers.hpp", "include/Pothos/Archive/StreamArchiver.hpp", "include/Pothos/Archive/Vector.hpp", "include/Pothos/Archive/Map.hpp", "lib/Object/Serialize.cpp", FW+"BufferChunk.cpp", FW+"Packet.cpp", FW+"Label.cpp", FW+"DType.cpp"],
  [("variable-length integer and container codecs", "include/Pothos/Archive/Numbers.hpp")],
  ["deserialized value, stream position"])
p("C20", "Truncated or damaged serialized data is rejected, never accepted or hung on",
  "Deserializing a stream that ends before the value is complete, or a remote message whose framing is damaged or cut short, fails with an error: it never returns a value, hangs, crashes or reads beyond the data. A server handling such a connection ends that connection's handling with an error and keeps serving others.",
  ["inputs", "fault_sequences"],
  "every truncation point of every serialized value, and every byte damage of message framing",
  "No test feeds incomplete or damaged data.",
  ["lib/Archive/StreamArchiver.cpp", "lib/Object/Serialize.cpp", "lib/Remote/RemoteProxyDatagram.cpp", "lib/Remote/ServerHandler.cpp"],
  [("stream checks", "lib/Archive/StreamArchiver.cpp"), ("header/trailer words", "lib/Remote/RemoteProxyDatagram.cpp")],
  ["error or value returned"])
p("C21", "Callables pass bound and given arguments to the right parameters",
  "For every history of binding and unbinding arguments, calling passes each bound value to its parameter and the given arguments, in order, to the remaining ones, each converted to the parameter's type, and returns the function's result. The reported argument count and types describe exactly the unbound parameters, too few or unconvertible arguments are rejected without invoking the function, exceptions of the function propagate, and copies do not affect each other.",
  ["histories", "inputs"],
  "all signatures, bind/unbind histories and argument lists",
  "Tests bind in one or two orders.",
  ["lib/Callable/Callable.cpp", "include/Pothos/Callable/CallableImpl.hpp", "include/Pothos/Callable/CallInterfaceImpl.hpp"],
  [("argument merge", "lib/Callable/Callable.cpp")],
  ["arguments seen by the function, return value, getNumArgs/type"])
p("C22", "The plugin registry behaves as a tree of uniquely named plugins",
  "After any history of adding and removing plugins, lookups, emptiness, existence and listing answers match a simple tree model with children in first-added order; adding to an occupied path or removing or getting an absent one is rejected without effect. Every handler registered on an ancestor is told once of each add and remove below it, and of plugins already present below it when it is added. Paths are accepted exactly when well-formed, joining gives the concatenated path, and concurrent queries and changes are safe.",
  ["histories", "schedules", "inputs"],
  "all add/remove/query histories over path trees, with concurrent queries, and all path strings",
  "Tests add and remove a single path.",
  ["lib/Plugin/Registry.cpp", "lib/Plugin/Path.cpp", "lib/Plugin/Plugin.cpp"],
  [("registry tree under a reader-writer lock", "lib/Plugin/Registry.cpp"), ("path validation", "lib/Plugin/Path.cpp")],
  ["registry query results and handler event log"])
p("C23", "Managed class calls resolve constructors, methods and inheritance faithfully",
  "Calling through a managed proxy invokes the constructor, static method or method registered under that name whose parameters accept the arguments, on the very instance the proxy holds (by value, pointer or shared pointer), falling back to opaque, base class and finally wildcard handlers; results and exceptions come back unchanged. Calls with no acceptable match are reported as call errors without side effects, and unloading a class removes it completely so that it can be registered again.",
  ["inputs", "histories", "programs"],
  "all registered class shapes, argument lists and call histories",
  "Tests exercise a few fixed classes and calls.",
  ["lib/Managed/Class.cpp", "lib/Managed/Registry.cpp", "lib/Managed/Builtin/ManagedHandle.cpp", "lib/Managed/Builtin/ManagedProxy.cpp", "include/Pothos/Managed/ClassImpl.hpp"],
  [("call matching", "lib/Managed/Builtin/ManagedHandle.cpp")],
  ["return values and a call log inside the class"])
p("C24", "A remote environment behaves like a local one",
  "Every operation through a remote proxy environment (creating, calling, converting to and from objects, comparing, hashing, printing, errors and exceptions) gives the same result as the same operation through a local environment, for any sequence of operations and from any number of client threads sharing one connection, each getting its own answer. Handles dropped by the client are released by the server, and live ones are not.",
  ["histories", "schedules", "inputs"],
  "all operation sequences, argument values and client thread interleavings",
  "Tests make a handful of calls from one thread.",
  ["lib/Remote/RemoteProxy.cpp", "lib/Remote/RemoteProxyHandle.cpp", "lib/Remote/ServerHandler.cpp", "lib/Remote/RemoteProxyDatagram.cpp"],
  [("request/reply transaction with reply cache", "lib/Remote/RemoteProxy.cpp"), ("server object table", "lib/Remote/ServerHandler.cpp")],
  ["results of proxy operations, instance counts on the server"])
p("C25", "Expressions evaluate to their mathematical and structural value",
  "Evaluating an expression built from numbers (decimal, hex, octal, binary), arithmetic, comparison and logical operators, strings, nested lists and maps, sums, differences and multiples of lists, and registered constants yields the value given by ordinary evaluation, independent of spaces added between tokens. Redefining or removing a constant affects later evaluations only, and malformed input is reported as an error, never a crash or a wrong value.",
  ["inputs", "histories"],
  "all expressions of the grammar, all constant definition histories, and arbitrary strings",
  "Tests evaluate a few literal expressions.",
  ["lib/Util/EvalEnvironment.cpp", "lib/Util/EvalEnvironmentListParsers.cpp", "lib/Util/Builtin/MupOctalValReader.cpp"],
  [("container splitter", "lib/Util/EvalEnvironmentListParsers.cpp"), ("value conversion", "lib/Util/EvalEnvironment.cpp")],
  ["evaluated object or raised error"])
p("C26", "Block documentation markup parses to exactly what was written",
  "Parsing source text with block description comments yields, for each described block in order, exactly the written name, categories, keywords, aliases, parameters (key, name, description, default, units, options, widget, preview, tab), factory with arguments, calls and documentation lines, regardless of comment style, indentation, line endings and surrounding code. Malformed descriptions are reported as syntax errors.",
  ["inputs"],
  "all block descriptions and comment layouts",
  "Tests parse one fixed description.",
  ["lib/Util/BlockDescription.cpp"],
  [("comment extraction and instruction parser", "lib/Util/BlockDescription.cpp")],
  ["parsed JSON and factory list"])
p("C27", "Queue containers behave like ideal double-ended and reordering queues",
  "For every operation history the ring-buffer deque holds the same sequence as an ideal deque (contents, size, capacity, front, back, indexing, iteration), constructing and destroying each element exactly once. The ordering queue releases items exactly in index order, each exactly once, for any arrival order within its capacity.",
  ["histories"],
  "all push/pop/emplace/clear/resize/copy/move histories across wrap-around and growth",
  "Tests walk through one history per container.",
  ["include/Pothos/Util/RingDeque.hpp", "include/Pothos/Util/OrderedQueue.hpp"],
  [("index masking and growth", "include/Pothos/Util/RingDeque.hpp"), ("slot by index", "include/Pothos/Util/OrderedQueue.hpp")],
  ["container contents, element instance counts"])
p("C28", "Locks exclude: one writer or many readers, one file-lock holder",
  "At no instant does an exclusive holder of the reader-writer spin lock or of the spin lock coexist with any other holder, while readers may coexist; try-operations succeed only when that stays true, and data guarded by the lock is never observed half-written. At most one holder of a file lock on a path exists at a time across threads and processes, releasing (also by destruction) lets another acquire it, and lock and unlock may be repeated.",
  ["schedules", "histories"],
  "all interleavings of lock/try-lock/unlock over threads and processes, and all single-thread histories against a lock-state model",
  "There are no tests of the locks; exclusion failures need interleavings.",
  ["include/Pothos/Util/SpinLock.hpp", "include/Pothos/Util/SpinLockRW.hpp", "lib/Util/FileLockUnix.cpp"],
  [("compare-and-swap lock word", "include/Pothos/Util/SpinLockRW.hpp"), ("flock", "lib/Util/FileLockUnix.cpp")],
  ["try-lock results and guarded data"])
p("C29", "Fixed-point helpers scale exactly",
  "Converting between floating point, integers and fixed-point numbers scales by the exact power of two, for real and complex values and every number of fractional bits that fits: encoding then decoding restores any value that is representable, and decoding an integer product drops exactly the fractional bits.",
  ["inputs"],
  "all values, element types and numbers of fractional bits",
  "There are no tests of these helpers.",
  ["include/Pothos/Util/QFormat.hpp"],
  [("shifts and scaling", "include/Pothos/Util/QFormat.hpp")],
  ["returned values"])
p("C30", "Port and topology statistics equal what actually happened",
  "At any quiescent point the totals reported for every port (elements, buffers, labels, messages) and the topology's statistics equal what the blocks really consumed and produced, and a work call always sees consistent sizes: each port's available elements and buffer, the reported minimums over the ports, and at least one input whose reserve requirement is met.",
  ["schedules", "inputs", "histories"],
  "all consume/produce patterns, reserves, port counts and schedules",
  "Tests never read the counters.",
  [FW+"WorkerActor.cpp", FW+"InputPort.cpp", FW+"OutputPort.cpp", FW+"TopologyStatsJSON.cpp", FW+"WorkInfo.cpp"],
  [("per-port counters", FW+"InputPort.cpp"), ("pre-work accounting", FW+"WorkerActor.cpp")],
  ["port totals, JSON stats, work info"])
p("C31", "Blocks, JSON topologies and descriptions are available as registered",
  "A block factory registered at a valid, unused path is found at exactly that path and makes its block from exactly the arguments given; wrong argument counts or types, invalid or taken paths and callables that are no factory are refused without changing anything. Initialisation registers exactly what the valid configuration files of the search places describe (topologies whose first global variables take the factory arguments, block descriptions at their path and every alias, whatever a custom loader adds), a faulty file registers nothing and affects no other file, repeating the initialisation changes nothing, and deinitialisation removes all of it.",
  ["histories", "inputs", "configurations"],
  "all registration and make histories, argument lists, sets of valid, faulty and conflicting configuration files, topology descriptions and argument values",
  "Tests register one block and never load a configuration file.",
  [FW+"BlockRegistry.cpp", "lib/ConfLoader/ConfLoader.cpp", "lib/ConfLoader/JSONTopologyLoader.cpp", "lib/ConfLoader/BlockDescLoader.cpp", "lib/Init.cpp", "lib/Util/Builtin/DocUtils.cpp"],
  [("factory registration and make", FW+"BlockRegistry.cpp"), ("configuration file search and loaders", "lib/ConfLoader/ConfLoader.cpp"), ("JSON topology factory", "lib/ConfLoader/JSONTopologyLoader.cpp"), ("description registration", "lib/ConfLoader/BlockDescLoader.cpp")],
  ["BlockRegistry::make and doesBlockExist, registry entries under /blocks, description dumps, arguments seen by factories"])
p("C32", "A plugin module provides its plugins exactly while it is referenced",
  "Loading a module registers exactly the plugins its code registers at free paths, attributed to that module, its file and its version; they and the module's code stay usable while any handle of that load exists, however handles are copied, assigned or obtained from plugins, and dropping the last one removes exactly the plugins it still provides and unmaps the library. Loading a file that cannot be loaded raises an error and leaves no trace, and plugins registered by the program or other threads, also during a load, are never attributed to a module or removed with it.",
  ["histories", "schedules", "inputs"],
  "all histories of loading (also repeatedly and of unloadable files), copying, assigning and dropping modules, and of registrations by the program, on any number of threads",
  "Tests load no module at all.",
  ["lib/Plugin/Module.cpp", "lib/Plugin/ModulePaths.cpp", "lib/Plugin/Registry.cpp", "lib/Plugin/Plugin.cpp", "include/Pothos/Plugin/Module.hpp"],
  [("module load and unload", "lib/Plugin/Module.cpp"), ("plugin to module association", "lib/Plugin/ModulePaths.cpp"), ("active module during load", "lib/Plugin/Registry.cpp")],
  ["registry entries with their module, module version and paths, mapped libraries"])
p("C33", "An evaluated block is the block its description describes",
  "A block evaluator makes the block registered at its path from exactly the constructor arguments of the block's description, and applies exactly the described calls in order, each argument being the value of a property, the value of an expression over the properties, or the given JSON value; properties evaluate with the constants defined at that time, later definitions change only later evaluations, and a re-evaluation or single repeated call uses the current properties. A bad expression, argument or call raises an error and leaves no stale block, earlier blocks are never touched, and a remote evaluator behaves the same.",
  ["histories", "inputs", "configurations"],
  "all block descriptions, property and constant histories, argument expressions and values, and sequences of evaluations and calls, locally and through a remote environment",
  "No test evaluates a block from a description.",
  ["lib/Util/Builtin/BlockEval.cpp", "lib/Util/Builtin/BlockEval.hpp", "lib/Util/EvalEnvironment.cpp", "lib/Util/Builtin/DocUtils.cpp", "lib/Remote/ServerHandler.cpp"],
  [("evaluation of arguments and calls", "lib/Util/Builtin/BlockEval.cpp"), ("constants and expressions", "lib/Util/EvalEnvironment.cpp")],
  ["arguments and calls received by the evaluated block, its name, evaluated property values, errors, number of live blocks"])
p("C34", "A topology drawing shows exactly its blocks, ports and connections",
  "The DOT markup of a topology is valid DOT for all block and port names, and shows each block of the requested view once under its name, with each of its ports (all of them, or exactly the connected ones) on the side of its direction, and each connection exactly once between the ports it connects.",
  ["inputs", "configurations"],
  "all topologies (nested, with signals, slots, aliases and outer ports), block and port names, drawing modes and port selections, before and after a commit",
  "No test draws a topology.",
  [FW+"TopologyDotMarkup.cpp", FW+"TopologyDumpJSON.cpp"],
  [("markup generator", FW+"TopologyDotMarkup.cpp"), ("dump that it draws", FW+"TopologyDumpJSON.cpp")],
  ["Topology::toDotMarkup read back by a DOT reader, Topology::dumpJSON"])
p("C35", "An object prints as its value, with its type's registered function",
  "Printing an object never fails: truth values, numbers, text and containers of them print so that the value can be read back (integers exactly, floating point numbers to the printed digits, container elements in order), and a type with a registered printing function prints with exactly the most recently registered function while it is registered, also behind pointers, shared pointers and inside containers; functions of another form are ignored, and registering, removing and printing may happen concurrently and from within printing functions.",
  ["inputs", "histories", "schedules"],
  "all values of printable types, registration and removal histories, and interleavings of printing with registration",
  "Tests print a few values of each type once, with functions that are never removed.",
  ["lib/Object/ToString.cpp", "include/Pothos/Object/RegisterToString.hpp"],
  [("printing and registration", "lib/Object/ToString.cpp"), ("registration helper", "include/Pothos/Object/RegisterToString.hpp")],
  ["Object::toString"])
if __name__ == "__main__":
    for e in P: print(json.dumps(e))
