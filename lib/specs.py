SPECS={}
SPECS["C01"]=dict(src=["checks/C01/harness.cc"],libs=["dmi","timbase"],
  rule="every identifier/pattern/text/operation history of the bounded alphabet is built with the real HIID code and compared with a plain sequence and language model; a state is a distinct identifier, pair or text",
  bounds=dict(quick="patterns up to 3 positions (pairs), ids up to 4, 2-operation histories, texts up to 3 fields",thorough="patterns up to 4 positions, 3-operation histories, ids up to 5, texts up to 4 fields"),
  assumptions=["atoms behave uniformly: the alphabet has one representative per special case in the code (registered, index, any, wildcard, slash, range, empty, literal)",
               "a wildcard '*' only occurs at the end of an identifier, as documented"])
SPECS["C05"]=dict(src=["checks/C05/harness.cc"],libs=["dmi","timbase"],
  rule="every history of open/write/append/close/read/peek/rewind/seek up to the depth bound runs on real BOIO files and is compared with a list model; every file of up to N objects is cut at every byte and read back; a state is a distinct (mode, position, content) or (file, cut, objects read)",
  bounds=dict(quick="histories of 7 operations over 3 objects; files of up to 2 objects out of 6, every truncation point, with and without peeking",thorough="histories of 8 operations over 5 objects; files of up to 3 objects out of 7"),
  assumptions=["a crash leaves a prefix of the bytes written (stdio writes sequentially)","inside one 5000-byte constant block every 977th cut stands for its neighbours"])
SPECS["C04"]=dict(src=["checks/C04/harness.cc"],libs=["meq","octopussy","dmi","timbase"],
  rule="every object tree of the bounded grammar (48 leaves, all placements, trees of depth 2, messages, Meq objects) is serialized, rebuilt from copied, shared and reserialized blocks, mutated, and compared with its canonical text; a state is a distinct tree",
  bounds=dict(quick="48 leaves x 6 placements; trees of depth 2 over 4 leaves; messages 5x4x4x4x2; VellSets up to 2 spids x 2 pert sets",thorough="trees of depth 2 over 8 leaves x 4 placements"),
  assumptions=["two objects are equal when everything their public read interfaces report is equal"])
SPECS["C02"]=dict(technique="stateless model checking of the real code: exhaustive operation histories against a value model, and exhaustive thread interleavings (preemption-bounded) under a controlled scheduler",src=["checks/C02/harness.cc","checks/C02/ops.tsan.cc"],libs=["dmi","timbase"],tsan_src=["DMI/src/CountedRefBase.cc","DMI/src/CountedRefTarget.cc"],
  rule="every history of reference operations up to the depth bound runs on real counted refs and is compared with a value model; every interleaving of small thread programs, with switches at every synchronisation call and every memory access of the reference code, up to the preemption bound; a state is a distinct reference graph or thread program",
  bounds=dict(quick="3 refs, histories of 4 (main operations) and 3 (all operations and flags) operations; 2 threads x 1 operation with 2 preemptions, 2x2 and 3x1 with 1",thorough="histories of 5 and 4; 2x1 with 3 preemptions, 2x2 and 3x1 with 2"),
  assumptions=["sequentially consistent memory","each ref is used by one thread, except that several threads may copy() the same ref, as documented"])
SPECS["C03"]=dict(src=["checks/C03/harness.cc"],libs=["dmi","timbase"],
  rule="every history of container operations (assignment, replacement, nested and indexed writes, insertion, removal, merge, protection, sharing) up to the depth bound runs on real Record/List/Vec/NumArray trees held by two refs and is compared with a value model after every step; every bounded array index expression is compared with plain index arithmetic; a state is a distinct pair of trees or index",
  bounds=dict(quick="6 initial trees x all histories of 3 operations out of 100+, histories of 4 sharing operations; array ranks 1 to 3, axes up to 5, all index/range/stride expressions; 10x10 scalar conversions",thorough="histories of 5 sharing operations; all third-axis selectors"),
  assumptions=["operations whose effect the documentation leaves open (such as assigning a scalar to an existing vector) must either fail without effect or are not followed"])
SPECS["C12"]=dict(src=["checks/C12/harness.cc"],libs=["meq","octopussy","dmi","timbase"],
  rule="every operation of the Vells interface is run on every pair of operand shapes (each axis missing, degenerate or full), types, special values, flag shapes and masks, and compared point by point with the scalar function; every short history of in-place operations over Vells sharing storage; every slice of every axis subset; a state is a distinct operand combination or history result",
  bounds=dict(quick="ranks 1 to 3 (axes 1 or 2,3,2), 17 shapes per operand, real and complex, 4 value patterns; 17 flag shapes per operand; histories of 3 operations on 3 Vells; slices of ranks 1 to 4, all ordered axis subsets",thorough="ranks 1 to 4, histories of 4 operations, all masks"),
  assumptions=["axis extents 2, 3 and 4 stand for all extents above 1","an operation with a scalar zero or one operand may leave out constant axes (shortcut documented in Vells.h)","minimum or maximum of no points, and of two flagged points, is not specified"])
SPECS["C14"]=dict(src=["checks/C14/harness.cc"],libs=["meqnodes","meq","octopussy","dmi","timbase"],
  rule="every domain, every pair of domains, every cells object built by up to three axis definitions, every grid of steps and sizes, and every refinement, coarsening, combination and superset of the bounded alphabet is built with the real classes and compared with interval arithmetic, including its record view; a real Resampler node is executed on every grid pair, data shape and flag pattern of the bounded alphabet and compared with block averages; a state is a distinct domain, grid or resampling problem",
  bounds=dict(quick="8 ranges on 3 axes, pairs of domains over 5 ranges, grids up to 5 cells with 3 steps and 3 sizes, 3 axis maps, resampling of 1,2,4 x 1,2,4,6 cells to any integer multiple or divisor up to 6, all flag patterns up to 4 flags",thorough="7 ranges for pairs, grids up to 6 cells"),
  assumptions=["resampling is specified for the same domain and integer ratios, as documented; interpolation for constant, linear and monotonic functions","superset() of cells whose counts and ranges agree but whose cells differ is not specified (documented limitation)"])
SPECS["C13"]=dict(src=["checks/C13/harness.cc"],libs=["meqnodes","meq","octopussy","dmi","timbase"],
  rule="every node class of the list is created in a real forest and executed over every combination of child tensor shapes, plane kinds (value shapes, types, perturbation sets, flags, null and unity values, failures, missing data) and options of the bounded alphabet, twice, and its result is compared point by point with the function computed by a model; a state is a distinct (node, options, inputs)",
  bounds=dict(quick="14 plane profiles on a 2x3 grid, tensors up to rank 3 and 8 planes, 1 to 3 children, 31 unary, 7 binary, 5 n-ary functions, 8 reductions, 11 tensor and flag nodes",thorough="all mixed planes for binary functions, all profiles for three children"),
  assumptions=["functions of real arguments outside their real domain are not specified","several flagged children of a multi-child reduction are not specified (documented limitation)"])
SPECS["C15"]=dict(src=["checks/C15/harness.cc"],libs=["meqnodes","meq","octopussy","dmi","timbase"],
  rule="every parameter function of the bounded alphabet (coefficient shapes, axis assignments, offsets and scales, domains, log scales, constructors, tilings) is built with the real classes, evaluated on every grid with every solvable mask and number of perturbation sets, copied, updated, reshaped and given new solve domains, and compared point by point with the defining sum; a state is a distinct (function, grid, history)",
  bounds=dict(quick="12 coefficient shapes up to 2x12, 7 axis assignments over 3 axes, 3 offset/scale pairs per axis, 5 grids, 3 domains, 4 masks, 0 to 2 perturbation sets; all updates of two steps with 3 kinds of constraints; all pairs of reshapes among 9 shapes; 5 tilings of up to 4 pieces on 4 grids",thorough="4 offset/scale pairs and domains, all constructors, two successive solve domains, 6 tilings"),
  assumptions=["evaluation of a function outside the domain it is defined for is not specified; a function without a domain is valid everywhere","the logarithm of a grid that reaches zero or below is not specified","a default solvable mask zeroes the lower right triangle of coefficients, as documented"])
SPECS["C16"]=dict(shm=True,src=["checks/C16/harness.cc"],libs=["meq","octopussy","dmi","timbase"],
  rule="every history of storing, deleting, flushing and reopening up to the depth bound runs on a real parameter table and is compared with a map after every step (lookups on every query domain, access by index, listing); for every short history the process is crashed at every system call the table makes in its last operation, with half-written data, and a table opened on what is left; a state is a distinct table content or crash remainder",
  bounds=dict(quick="2 names x 3 domains x 2 functions, histories of 4 operations out of 25; 8 functions x 7 domains replaced by each other; write-back through database ids between two tables; histories of 3 operations crashed at every call, and again at every call of the recovery",thorough="histories of 5 operations, crash histories of 4"),
  assumptions=["a crash is a killed process: what was written to files or mapped memory survives, stdio buffers do not; loss of the page cache is not covered","of a constant polynomial only its value and domain are stored, as documented"])
SPECS["C08"]=dict(technique="stateless model checking of the real lock classes: all programs over the lock operations, all interleavings up to a preemption bound under a controlled scheduler",src=["checks/C08/harness.cc"],libs=["timbase"],tsan_src=["TimBase/src/Thread/SmartLock.cc"],
  rule="every program of two or three threads over the lock operations (lock objects, raw calls, tries, copies, assignments, upgrades, downgrades, waits, signals, timeouts) up to the length bound runs on the real classes under every interleaving of its synchronisation calls up to the preemption bound, and is compared with a model of who holds what; a state is a distinct program",
  bounds=dict(quick="1 thread x 4-5 operations, 2 threads x 2-3, 3 threads x 1-2 operations, 1 or 2 preemptions; 27 timeouts x 8 clock fractions; 3 waiters, 2 signallers",thorough="1 thread x 6, 2 threads x 4, 3 threads x 3 operations, up to 3 preemptions"),
  assumptions=["sequentially consistent memory","programs that deadlock by their own locking order, upgrade from two threads at once or take a write lock while holding a read lock are not explored"])
SPECS["C06"]=dict(src=["checks/C06/harness.cc"],libs=["octopussy","dmi","timbase"],
  rule="every history of subscribing, unsubscribing, clearing, merging and transporting up to the depth bound runs on real Subscriptions and is compared with the set of masks in effect on every probe message; every address (process, instance, wildcards, publish) is sent to in a real dispatcher with and without gateways, and every receiver's queue compared with the model; a state is a distinct history or address",
  bounds=dict(quick="13 masks x 6 scopes, histories of 3 operations, 90 probe messages; 480 addresses x 3 ids x 4 subscriptions x 3 gateways x 3 detached; process histories of 3 operations out of 74",thorough="8 scopes; process histories of 4 operations"),
  assumptions=["masks contain '*' only at the end, as documented","a gateway that is itself addressed may get a forwarded message once or twice"])
SPECS["C07"]=dict(src=["checks/C07/harness.cc"],libs=["octopussy","dmi","timbase"],
  rule="real dispatcher and processes: every history of sends, polls and receiver reactions up to the depth bound is compared step by step with a model of the queue; timeouts, inputs, signals, start/stop and threaded processes run under a controlled scheduler with a virtual clock, select() and signals, over every schedule up to the preemption bound; a state is a distinct history or program",
  bounds=dict(quick="histories of 5 operations with 18 receiver reactions at up to 4 offers; 3024 timeout, 744 input, 64 signal, 24 start/stop and 119 worker programs (polled and threaded) with up to 2 preemptions",thorough="histories of 6 operations and 5 offers; 2 preemptions"),
  assumptions=["threads are switched at synchronisation, signal, select and sleep operations only","select() that finds something ready twice in a row lets another thread run"])
NOT_APPLICABLE={}
