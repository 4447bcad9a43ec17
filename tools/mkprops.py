#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that entries stay readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if observe: a["observe_at"]=observe
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

prop("C01","Hierarchical identifiers obey their string, order, pack and wildcard algebra",
 "A hierarchical identifier that is formatted to text and parsed back, or packed to bytes and unpacked, is the same identifier; comparison is a strict total order consistent with equality, concatenation and slicing behave as on sequences, and a pattern with single-position and trailing wildcards matches exactly the identifiers (and is a subset of exactly the patterns) that the documented wildcard rules say. Malformed text is refused and never yields some other identifier.",
 ["inputs"],"every identifier and pattern of up to 4 positions over an alphabet with literal, numeric, wildcard and registered atoms, and every pair of them",
 "Tests parse a handful of ids by eye; routing, record lookup and node classes all depend on every pair of ids comparing and matching correctly.",
 ["DMI/src/HIID.cc","DMI/src/HIID.h","DMI/src/AtomicID.cc","DMI/src/AtomicID.h"],
 [("text parsing and formatting","DMI/src/HIID.cc"),("wildcard match and subset","DMI/src/HIID.cc matches()/subsetOf()"),("ordering and equality","DMI/src/HIID.h")],
 ["HIID API results"])

prop("C02","Counted references give copy-on-write isolation and exact lifetime",
 "Whatever sequence of attach, copy, transfer, privatize, write-dereference and detach is applied to references sharing an object, a write made through one reference is never visible through another unless the object was explicitly shared, and writing through a read-only reference leaves the object it was attached to untouched and gives that reference a private copy. The object lives exactly as long as some reference to it does: it is deleted once, when the last owning reference goes, in every interleaving of threads that copy, write and drop their own references to a common object.",
 ["histories","schedules"],"all operation sequences up to a depth bound over three references and two kinds of targets; all preemption-bounded interleavings of threads working on references to one target",
 "Tests run a fixed list of reference operations and only print; isolation must hold for every sequence and every thread interleaving.",
 ["DMI/src/CountedRef.h","DMI/src/CountedRefBase.cc","DMI/src/CountedRefBase.h","DMI/src/CountedRefTarget.cc"],
 [("copy-on-write on write dereference","DMI/src/CountedRefBase.cc privatize()/getTargetWr()"),("owner chain under the target's mutex","DMI/src/CountedRefBase.cc attach()/detach()")],
 ["values read through each reference","construction and destruction counts of the target"])

prop("C03","Containers behave as maps, sequences and arrays under any operation history",
 "Records behave as maps from identifiers to values, lists as sequences, vectors and arrays as fixed-shape typed arrays: after any history of inserting, replacing, reading, converting, removing and merging, every read returns the last value written to that field or element, converted to the requested type, and nothing else changed. A refused operation (missing field, wrong type, out-of-range index) reports an error and leaves the container as it was, and a copy is unaffected by later changes to the original.",
 ["histories","inputs"],"all operation histories up to a depth bound over small key, index, type and value alphabets, from empty and non-empty containers",
 "The container tests are print-only programs over one history; the guarantee is about every history and every type pair.",
 ["DMI/src/Record.cc","DMI/src/List.cc","DMI/src/Vec.cc","DMI/src/NumArray.cc","DMI/src/Container.cc","DMI/src/Container.h"],
 [("field access hooks","DMI/src/Container.cc"),("record field map","DMI/src/Record.cc"),("list item access","DMI/src/List.cc"),("typed vectors","DMI/src/Vec.cc"),("n-dimensional arrays and slicing","DMI/src/NumArray.cc")],
 ["values, sizes, and errors of container calls"])

prop("C04","Any object tree survives serialization to blocks unchanged",
 "Every data object (record, list, vector, array, message, request, result, cells, domain, vells, polynomial, and any nesting of them) that is turned into blocks and rebuilt from them is equal to the original, consumes exactly the blocks it produced, and shares no writable storage with the original. Serializing does not alter the object, and the rebuilt object can be serialized again with the same result, whether or not its contents were accessed in between. The same holds for every field a class reports through its own interface.",
 ["inputs"],"every object tree up to a nesting and width bound over a set of leaf values covering all element types, empty and null contents",
 "Tests serialize one record; the guarantee is needed for every object sent over a gateway or written to a file.",
 ["DMI/src/Record.cc","DMI/src/List.cc","DMI/src/Vec.cc","DMI/src/NumArray.cc","DMI/src/BlockSet.cc","DMI/src/HIID.cc","OCTOPUSSY/src/Message.cc","MEQ/src/Vells.cc","MEQ/src/Result.cc","MEQ/src/VellSet.cc","MEQ/src/Cells.cc"],
 [("toBlock/fromBlock of every object type","DMI/src/*.cc, MEQ/src/*.cc, OCTOPUSSY/src/Message.cc"),("block set cursor","DMI/src/BlockSet.cc")],
 ["rebuilt object compared with the original, block counts and bytes"])

prop("C05","Object files return what was written, and a torn file its intact prefix",
 "Objects written to an object file are read back equal and in order, across any sequence of write, append, close, reopen, read and rewind. If the file was cut at any byte (a crash during a write), reading yields exactly the objects whose bytes are all present, in order, and then reports end of file or an error; it never yields a wrong or partial object.",
 ["histories","crash_points"],"all short write/append/reopen/rewind histories over objects with zero, one and many blocks, and every truncation point of the resulting files",
 "Tests never cut a file nor reopen for append; crash behaviour depends on every byte position.",
 ["DMI/src/BOIO.cc","DMI/src/BOIO.h","DMI/src/BlockSet.cc"],
 [("length-prefixed blocks","DMI/src/BOIO.cc write()/read()"),("end-of-file detection","DMI/src/BOIO.cc nextType()")],
 ["objects returned by reads","file bytes"])

prop("C06","A message reaches exactly the processes its address and subscriptions select",
 "A message sent to an address is delivered once to each process that the address selects (a single process, all instances of a class, everyone), and a published message once to each process holding a subscription whose mask matches the message id and whose scope admits the sender; nobody else receives it. Subscribing, resubscribing and unsubscribing in any order leave exactly the current masks in effect, also after subscriptions have been transported.",
 ["histories","inputs"],"all subscription/unsubscription histories up to a depth bound and all sender, address, scope and id combinations over a small set of processes",
 "The test sends one ping-pong between two processes and checks nothing about who else received it.",
 ["OCTOPUSSY/src/Subscriptions.cc","OCTOPUSSY/src/Dispatcher.cc","OCTOPUSSY/src/WPInterface.cc","OCTOPUSSY/src/MsgAddress.h","OCTOPUSSY/src/Message.cc"],
 [("subscription matching","OCTOPUSSY/src/Subscriptions.cc"),("routing of send and publish","OCTOPUSSY/src/Dispatcher.cc send()"),("scope test","OCTOPUSSY/src/WPInterface.cc subscribe()/publish()")],
 ["messages received by every process"])

prop("C07","Process message queues deliver by priority, first-in first-out, losing nothing",
 "Each process receives every message sent to it exactly once, highest priority first and in sending order within a priority, except that a message it declined is offered again (a held one only after something else changed) and keeps its place. Timeouts and inputs are delivered only while registered, and removing one stops it.",
 ["histories"],"all sequences of sends with priorities and receiver answers (accept, hold, requeue, cancel) up to a depth bound, and all orders of adding and removing timeouts",
 "The test's single ping-pong never has two messages queued, so ordering is never exercised.",
 ["OCTOPUSSY/src/WPInterface.cc","OCTOPUSSY/src/WPInterface.h","OCTOPUSSY/src/Dispatcher.cc"],
 [("prioritised queue","OCTOPUSSY/src/WPInterface.cc enqueue()/dequeue()"),("delivery and hold/requeue","OCTOPUSSY/src/WPInterface.cc do_poll()"),("poll loop","OCTOPUSSY/src/Dispatcher.cc poll()")],
 ["order of messages seen by receivers"])

prop("C08","Locks exclude, condition waits wake, and nothing deadlocks under any schedule",
 "In every interleaving, at most one thread is inside a mutex-protected section (recursive entry by its holder excepted), a try-lock succeeds only if it obtained the lock and never blocks, a reader-writer lock admits either any number of readers or one writer, and releases restore exactly the state before. No thread stays blocked once the condition it waits for has been signalled or its lock released, and a timed wait returns no earlier than its signal or timeout and no later than its timeout.",
 ["schedules","inputs"],"all preemption-bounded interleavings of two or three threads with one to three lock operations each; all timeout values over a boundary set",
 "No test exercises the thread primitives concurrently; mutual exclusion is a statement about all interleavings.",
 ["TimBase/src/Thread/Mutex.h","TimBase/src/Thread/Condition.h","TimBase/src/Thread/SmartLock.h","TimBase/src/Thread/SmartLock.cc","TimBase/src/Thread/Thread.h"],
 [("lock objects","TimBase/src/Thread/Mutex.h"),("timed and untimed waits","TimBase/src/Thread/Condition.h"),("reader/writer bookkeeping","TimBase/src/Thread/SmartLock.cc")],
 ["critical-section occupancy","thread completion"])

prop("C09","The threaded event channel passes every event once, in order, and closes cleanly",
 "Events posted through a threaded queue channel reach the remote channel exactly once and in order, and events produced by the remote reach the caller exactly once and in order, with neither queue exceeding its configured size; an error in the remote is reported once to the caller. Posting, getting, flushing, closing and aborting terminate in every interleaving, and a normal close delivers everything already posted.",
 ["schedules"],"all preemption-bounded interleavings of a caller and the worker thread, for small event counts, queue sizes, and remote error or close points",
 "No stable test drives the channel at all; losses and deadlocks depend on the interleaving.",
 ["AppAgent/AppAgent/src/MTQueueChannel.cc","AppAgent/AppAgent/src/EventFlag.cc","AppAgent/AppAgent/src/EventChannel.cc"],
 [("worker loop and queues","AppAgent/AppAgent/src/MTQueueChannel.cc"),("event flag","AppAgent/AppAgent/src/EventFlag.cc")],
 ["events seen by remote and caller","thread completion"])

prop("C10","Multithreaded evaluation returns the single-threaded answer under any schedule",
 "Polling the children of a node with worker threads returns, in every interleaving, the same child results and the same result code as polling them one after another: every enabled child is executed exactly once per poll, shared children are evaluated consistently, failures and missing data propagate by the configured policy, and aborted polls leave no stale work. Evaluation terminates in every interleaving, and never runs more than the allowed number of workers at one depth.",
 ["schedules","configurations"],"all preemption-bounded interleavings of small trees (wide, deep, shared child) with one to three workers, over child outcomes and failure policies",
 "Stable tests run each tree once with whatever schedule the OS gives and never compare with the serial result.",
 ["MEQ/src/MTPool.cc","MEQ/src/MTPool.h","MEQ/src/NodeNursery.cc","MEQ/src/NodeNursery.h","MEQ/src/Node.cc"],
 [("work-order queue","MEQ/src/MTPool.cc"),("synchronous, asynchronous and background polls","MEQ/src/NodeNursery.cc"),("node execution lock","MEQ/src/Node.cc execute()")],
 ["results and codes of polls","per-child execution counts","thread completion"])

prop("C11","Caching never changes what a node returns",
 "For every sequence of requests, state changes, cache clears and reconfigurations, the result of executing a node is the one it would compute with caching disabled, whatever the cache policy in force at each node; a cached result is reused only when no component of the request (or state) that the result depends on has changed. Requests without derivatives served from a cache with derivatives carry none, and failed results are re-evaluated when something they depend on changes.",
 ["histories","configurations"],"all sequences of requests (changing each request component), parameter changes and cache clears up to a depth bound, on small trees, for every cache policy",
 "Tests execute a tree once or twice with the default policy; staleness only appears for particular histories.",
 ["MEQ/src/Node.cc","MEQ/src/Node.h","MEQ/src/RequestId.cc","MEQ/src/RequestId.h","MEQ/src/Forest.cc","MEQ/src/SymdepMap.cc"],
 [("cache check and storage","MEQ/src/Node.cc getCachedResult()/cacheResult()/holdCache()"),("request id masks","MEQ/src/RequestId.cc"),("state dependency propagation","MEQ/src/Node.cc propagateStateDependency()")],
 ["results of node execution against a cache-disabled twin"])

prop("C12","Array mathematics equals the scalar function applied point by point",
 "For every combination of real and complex operands and of axis shapes (scalar, missing, degenerate and full axes), every element-wise operation, function and reduction on grid values returns, at each grid point, the scalar function of the operands' values there, with a result shape that is the union of the operand axes (or an equivalent smaller one where an operand is the constant zero or one). Flags are combined point by point, flagged points are excluded from reductions, and reusing storage in place never changes an operand that is still referenced.",
 ["inputs"],"all operators over all pairs of operand shapes up to three axes, types, flag patterns and sharing patterns of a small alphabet",
 "Tests run whole trees without asserting a single value; a broadcasting or stride error affects only particular shape pairs.",
 ["MEQ/src/Vells.cc","MEQ/src/Vells.h","MEQ/src/VellsSlicer.h","MEQ/src/VellsSlicerWithFlags.cc","MEQ/src/Axis.cc"],
 [("strided iteration","MEQ/src/Vells.cc"),("in-place storage reuse","MEQ/src/Vells.cc"),("flag handling and reductions","MEQ/src/Vells.cc"),("slicing","MEQ/src/VellsSlicer.h")],
 ["values, flags and shapes of results"])

prop("C13","Function and tensor nodes compute their function on values, perturbations, flags",
 "Every arithmetic, functional, reduction and tensor node (including selection, composition, pasting, transposition, matrix product and inversion) returns for every tuple of child results the mathematical function of their main values; its perturbed values are that function of the correspondingly perturbed inputs for the union of the inputs' parameters, and its flags are the union of contributing flags. A failed input gives a failed output with the same messages, and wrong dimensions are reported as a failure.",
 ["inputs"],"all node classes of a list over all small combinations of child tensor shapes, parameter sets, flags and failures",
 "Tests never check values of node results; wrong pairing of perturbations or indices shows only for particular combinations.",
 ["MEQ/src/Function.cc","MEQ/src/TensorFunction.cc","MEQ/src/TensorFunctionPert.cc","MEQ/src/VellSet.cc","MEQ/src/Result.cc","MeqNodes/src/MatrixMultiply.cc","MeqNodes/src/ReductionFunction.cc","MeqNodes/src/Selector.cc","MeqNodes/src/Composer.cc","MeqNodes/src/Paster.cc","MeqNodes/src/Transpose.cc","MeqNodes/src/MatrixInvert22.cc"],
 [("perturbation set merging","MEQ/src/Function.cc findSpids(), MEQ/src/TensorFunctionPert.cc"),("tensor indexing","MeqNodes/src/MatrixMultiply.cc and others")],
 ["results returned by node execution"])

prop("C14","Cells, domains and resampling preserve grids and values",
 "Domains and cells built from any axis definitions report exactly those axes, ranges, centres and sizes; comparison, projection, envelope and superset tests agree with interval arithmetic, and regular segments are recognised exactly. Integrating resampling of a flagged grid function onto an integer-coarser or finer grid of the same domain returns the averages of the unflagged cells (or repeated values), and flags exactly the cells whose flagged fraction exceeds the configured density; interpolating resampling reproduces constant and linear functions and the values at existing grid points.",
 ["inputs"],"all small grids of up to two axes with up to 6 cells, all integer resampling ratios and flag patterns; all pairs of small intervals",
 "Tests use one fixed time-frequency grid; alignment errors appear at particular sizes and ratios.",
 ["MEQ/src/Cells.cc","MEQ/src/Domain.cc","MEQ/src/Axis.cc","MeqNodes/src/ModRes.cc","MeqNodes/src/Resampler.cc"],
 [("grid construction and comparison","MEQ/src/Cells.cc"),("domain algebra","MEQ/src/Domain.cc"),("resampling maps","MeqNodes/src/Resampler.cc")],
 ["values returned by the grid and resampling API"])

prop("C15","Parameter functions evaluate to their mathematical definition",
 "A polynomial (or composed, logarithmic) parameter function evaluated on any grid gives at every cell the value defined by its coefficients, axes, offsets and scales; its perturbed values are its values with that coefficient changed by the stated perturbation, and an update of solvable coefficients changes exactly these coefficients by the given amounts. Changing the domain of a function does not change the function it represents unless it is defined relative to that domain.",
 ["inputs"],"all coefficient shapes up to degree 2 by 2, axis assignments, offsets and scales, grids and solvable masks of a small alphabet",
 "Tests never compare evaluated parameters with the polynomial they should represent.",
 ["MEQ/src/Funklet.cc","MEQ/src/Polc.cc","MEQ/src/PolcLog.cc","MEQ/src/ComposedPolc.cc"],
 [("polynomial evaluation","MEQ/src/Polc.cc do_evaluate()"),("composition","MEQ/src/ComposedPolc.cc"),("solvables and updates","MEQ/src/Funklet.cc")],
 ["evaluated vells and coefficients"])

prop("C16","The parameter table returns the last stored functions, across reopen and crash",
 "For every history of storing, deleting, flushing, closing and reopening, a lookup of a parameter on a domain returns exactly the last stored functions of that parameter whose domains overlap it, and a listing returns every stored entry once. After a crash, what was flushed before it is still returned, and opening never fails or returns another parameter's function.",
 ["histories","crash_points"],"all operation histories up to a depth bound over two parameters and three overlapping or disjoint domains, with reopen at every point, and a crash after every operation",
 "No stable test stores or reads a parameter table.",
 ["MEQ/src/FastParmTable.cc","MEQ/src/FastParmTable.h","MEQ/src/ParmTable.cc","MEQ/src/ParmTable.h"],
 [("domain index file","MEQ/src/FastParmTable.cc putCoeff()"),("keyed funklet store","MEQ/src/FastParmTable.cc")],
 ["functions returned by lookups"])

prop("C17","The forest stays consistent under any sequence of node operations",
 "Whatever sequence of creating, deleting, reinitialising and clearing nodes is applied, names and indices are unique and map to each other, every node that was created and not deleted can be found with its class, state and children, and parents and children refer to each other and to existing nodes. An operation that fails (duplicate name, unknown class, missing child) reports an error and leaves all other nodes usable, and a forest saved and loaded again has the same nodes, links and states.",
 ["histories"],"all sequences of node operations up to a depth bound over a few names and classes, including failing ones, and save/load after each",
 "Tests build each forest once from scratch and never check the repository afterwards.",
 ["MEQ/src/Forest.cc","MEQ/src/Forest.h","MEQ/src/Node_init.cc","MEQ/src/NodeFace.h","MeqServer/src/MeqServer.cc"],
 [("node repository and name map","MEQ/src/Forest.cc"),("linking of children and parents","MEQ/src/Node_init.cc"),("save and load","MeqServer/src/MeqServer.cc saveForest()/loadForest()")],
 ["forest queries and node states"])

prop("C18","Gateways deliver messages intact however the stream is fragmented",
 "Messages sent through a gateway connection arrive at the peer once, in order and byte-for-byte equal, for every way the transport splits reads and writes or interrupts them; priority may reorder only messages not yet started. A broken or corrupted stream closes the connection and never delivers a damaged message.",
 ["fault_sequences","inputs"],"all sequences of short reads and writes, would-block and interrupt answers up to a bound on deviations, for a few message sequences; every single-byte corruption of headers and truncation of the stream",
 "No test opens a gateway; fragmentation is decided by the network.",
 ["OCTOPUSSY/src/GatewayWP.cc","OCTOPUSSY/src/MTGatewayWP.cc","TimBase/src/Net/Socket.cc"],
 [("packet header and block framing","OCTOPUSSY/src/GatewayWP.cc / MTGatewayWP.cc"),("socket blocking reads and writes","TimBase/src/Net/Socket.cc")],
 ["messages delivered at the far end"])

prop("C19","Script node definitions denote one forest, and conflicts are refused",
 "In a script's node scope, a qualified name always denotes the same node; defining a node twice identically is harmless and differently is an error naming it, whatever the order of definition and first use. Resolving a scope yields exactly the nodes reachable from the roots, each once and with its declared children, step-children and initial values, and undefined or circular uses are reported.",
 ["programs"],"all small definition programs over a few names, qualifiers, classes and child expressions, in every statement order",
 "Tests compile fixed scripts that are correct; conflicts and orderings are never exercised.",
 ["PyApps/src/TDL/TDLimpl.py","PyApps/src/TDL/__init__.py","PyApps/src/TDL/MeqClasses.py"],
 [("node stubs and qualification","PyApps/src/TDL/TDLimpl.py _NodeStub"),("repository resolution","PyApps/src/TDL/TDLimpl.py _NodeRepository.resolve()"),("redefinition check","PyApps/src/TDL/TDLimpl.py")],
 ["resolved node repository and reported errors"])

prop("C20","Values cross the Python boundary unchanged in both directions",
 "Any value built from numbers, strings, booleans, identifiers, arrays, sequences, records and messages that is passed from Python to the native side and back is equal to the original in value, type class, shape and element order, including nested, empty and non-contiguous ones. Unsupported values are refused with an error rather than altered.",
 ["inputs"],"all values up to a nesting bound over an alphabet of scalars, identifiers, arrays of all element types, orders and strides, sequences and records",
 "The python tests convert a few records and do not compare them.",
 ["OCTOPython/src/DataConv.cc","OCTOPython/src/octopython.cc","OCTOPython/src/dmi.py"],
 [("recursive conversion","OCTOPython/src/DataConv.cc"),("python types","OCTOPython/src/dmi.py")],
 ["converted objects"])

prop("C21","Visibility tiles and tables return the cells written to them",
 "In a tile, data cube or cube set, every cell, row flag and column reads back the last value written to it and no other cell changes, through any sequence of row and column access, slicing, appending, copying and format change. Copies are isolated from later writes, and tile identifiers map back to the antenna and time they were made from.",
 ["histories"],"all operation sequences up to a depth bound over tiles of up to 3 rows and two formats",
 "No stable test touches visibility tiles.",
 ["VisCube/src/ColumnarTableTile.cc","VisCube/src/VTile.cc","VisCube/src/VCube.cc","VisCube/src/VCubeSet.cc","VisCube/src/TableFormat.cc"],
 [("columnar storage","VisCube/src/ColumnarTableTile.cc"),("tile row access","VisCube/src/VTile.cc"),("cubes and sets","VisCube/src/VCube.cc")],
 ["cells read back"])

prop("C22","Solving recovers the parameters of a well-posed problem",
 "For every well-posed set of condition equations, a solve iterates to parameters whose residuals are zero to the stated convergence, updates exactly the solvable coefficients, leaves non-solvable ones untouched, and reports the number of unknowns, rank and convergence truthfully; tiled solvables are solved independently per tile. Flagged or missing equations contribute nothing.",
 ["inputs","configurations"],"all small linear systems with up to 3 unknowns, solvable subsets, tilings, flag patterns and solver modes of an alphabet",
 "Solver tests only check that a result came back.",
 ["MeqNodes/src/Solver.cc","MeqNodes/src/Parm.cc","MeqNodes/src/Condeq.cc"],
 [("equation filling and update","MeqNodes/src/Solver.cc"),("solvable parameters","MeqNodes/src/Parm.cc"),("residuals and derivatives","MeqNodes/src/Condeq.cc")],
 ["solved parameter values and metrics"])

prop("C23","The server answers every command once and truthfully",
 "Every command sent to the server, valid or malformed, gets exactly one reply carrying either its result or an error; state queries after any command sequence reflect exactly the effects of the commands that succeeded, and a failing command changes nothing and leaves the server able to serve the next one.",
 ["histories"],"all sequences of commands up to a depth bound over an alphabet of valid and invalid node, forest and execution commands",
 "Tests send each command in one fixed successful order.",
 ["MeqServer/src/MeqServer.cc","MEQ/src/Node_commands.cc","MEQ/src/Forest.cc"],
 [("command dispatch and replies","MeqServer/src/MeqServer.cc"),("node commands","MEQ/src/Node_commands.cc")],
 ["replies and queried states"])

prop("C24","Script options keep, restore and report exactly the values set",
 "A configuration option always holds a legal value: the default, or the last one accepted from the user, a script or a configuration file; setting it updates the bound variable and the saved file so that a later run of the same script sees that value, and illegal values are refused. Options of different scripts, namespaces and menus never affect each other.",
 ["histories"],"all sequences of setting, saving, reloading and namespacing up to a depth bound over the option kinds and a small set of legal and illegal values",
 "Tests compile scripts with default options only.",
 ["PyApps/src/TDL/TDLOptions.py"],
 [("option items and namespaces","PyApps/src/TDL/TDLOptions.py"),("configuration file","PyApps/src/TDL/TDLOptions.py")],
 ["option values, bound variables and saved file"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
print(len(P))
