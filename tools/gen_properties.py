#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

S = "ADOL-C/src/"; I = "ADOL-C/include/adolc/"

prop("C01", "First-order derivatives of every recorded program are the true ones",
 "For every program written with active variables (any mix of supported operators, elementary functions, assignments, aliased operands, temporaries and overwritten variables), evaluating the recorded trace reproduces the program's function values, and the first-order forward and reverse modes, scalar and vector, return its exact Jacobian-vector and vector-Jacobian products up to rounding. The values an active variable shows while recording equal those of the same program run on plain doubles.",
 ["programs", "inputs"], "all programs over the operator alphabet up to a bounded length, all operand-aliasing patterns, all points of a grid, all unit and mixed seed directions",
 "Tests exercise each operator once in isolation with fresh operands; overwritten variables, aliased destinations, dead temporaries and operator pairs sharing a location are quantified over programs and cannot be sampled by a handful of expressions.",
 [S+"adouble.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"interfaces.cpp", I+"valuetape/valuetape.h"],
 [("recording of each operator incl. eq-prod / assign-from-temporary peepholes", S+"adouble.cpp"),
  ("forward sweep interpreter", S+"uni5_for.cpp"),
  ("reverse sweep interpreter restoring overwritten values", S+"fo_rev.cpp")],
 [("location/values/operation tapes","the recorded program", I+"valuetape/tapeinfos.h"),
  ("Taylor stack","values overwritten during forward, needed by reverse", I+"valuetape/tapeinfos.h")],
 ["zos_forward","fos_forward","fov_forward","fos_reverse","fov_reverse"])

prop("C02", "Replay at a new point gives the branch's values or reports the switch",
 "When a recorded trace is evaluated at arguments other than those it was recorded at, then either the outcome of every recorded comparison is the same and the results are exactly those of the original program at the new point (including conditional assignments, minimum/maximum, absolute value, rounding and active subscripts, which must follow the new values), or the return code says that a comparison had a different outcome. The return code always tells truthfully whether the trace was analytic, piecewise, at a tie, or switched, and forward and reverse evaluation of the same state agree.",
 ["programs", "inputs"], "all programs with comparisons, conditional assignments, min/max/abs/ceil/floor and active indexing up to a bounded length, all pairs of recording and evaluation points on a grid containing ties and sign changes",
 "Tests re-evaluate mostly at the recording point; the guarantee is about all pairs (recording point, evaluation point) and all combinations of branch operators, especially ties.",
 [S+"adouble.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"advector.cpp"],
 [("comparison and conditional-assignment records with return-code minimum", S+"uni5_for.cpp"),
  ("subscript operators re-evaluated from the index value", S+"uni5_for.cpp")],
 None, ["zos_forward","fos_forward","fos_reverse","function","gradient"])

prop("C03", "Higher-order forward mode returns the exact Taylor coefficients",
 "For every recorded program and every input Taylor polynomial, the higher-order forward modes (scalar and vector, with all arguments in one array or partitioned into blocks) return the Taylor coefficients of the composed function to the requested degree; results of a lower degree are the leading coefficients of those of a higher degree and a vector call equals its scalar calls stacked.",
 ["programs", "inputs"], "all operator/operand-kind/aliasing combinations up to a bounded program length, degrees up to a bound, direction counts, points and coefficient patterns on a grid",
 "Unit tests check single operators at degree 2 or so with distinct operands; the in-place coefficient recurrences depend on aliasing between result and operand and on degree, both universally quantified.",
 [S+"uni5_for.cpp", S+"hos_forward.cpp", S+"hov_forward.cpp", S+"hov_wk_forward.cpp", S+"interfaces.cpp"],
 [("Taylor coefficient recurrences per operator", S+"uni5_for.cpp")], None, ["hos_forward","hov_forward","hov_wk_forward","forward"])

prop("C04", "Higher-order reverse mode returns exact adjoints of Taylor coefficients",
 "After a higher-order forward sweep of degree d that kept d+1 coefficients, the higher-order reverse modes (scalar, vector, with Taylor-polynomial weights, over vector) return the exact adjoint Taylor coefficients of the recorded program, whatever variables the program overwrites or aliases. The reported nonzero pattern never says an entry is identically zero, linear, or less nonlinear than it is.",
 ["programs", "inputs"], "all operator/operand-kind/aliasing combinations up to a bounded program length, degrees, keep values and weight matrices on a grid",
 "Tests compare a few operators to hand formulas; exactness over aliasing, overwriting and degree is a statement about all programs.",
 [S+"ho_rev.cpp", S+"hos_reverse.cpp", S+"hov_reverse.cpp", S+"hos_ov_reverse.cpp", S+"interfaces.cpp", S+"convolut.cpp"],
 [("adjoint polynomial recurrences", S+"ho_rev.cpp"),("Taylor stack restore", S+"ho_rev.cpp")], None, ["hos_reverse","hos_ti_reverse","hov_reverse","hov_ti_reverse","hos_ov_reverse","reverse"])

prop("C05", "Results do not depend on buffer sizes or on spilling traces to disk",
 "For every choice of operation, location, value and Taylor buffer sizes down to the smallest allowed, and whether the trace stays in memory or spills to files, every evaluation of a recorded program returns bit-identical results to those obtained with buffers large enough to hold everything. A trace can be evaluated repeatedly, in any order of modes, and re-recorded, without the spilled state of one use affecting the next. A trace that fits its buffers creates no files, the files of a trace disappear with it unless its owner asked to keep them, and then they are complete.",
 ["configurations", "histories", "programs"], "all combinations of small buffer sizes covering every alignment of block boundaries with record boundaries, all evaluation-mode sequences up to a bounded length, in-memory and on-disk keeps",
 "Tests run with default buffers, which never overflow; every block-boundary alignment is a separate configuration.",
 [S+"valuetape/tapeinfos.cpp", S+"valuetape/valuetape.cpp", I+"valuetape/valuetape.h", I+"valuetape/tapeinfos.h", I+"valuetape/bufferstate.h"],
 [("block writers/readers for the four tapes", S+"valuetape/valuetape.cpp"),
  ("Taylor block writer/reader", S+"valuetape/tapeinfos.cpp"),
  ("record never split across block boundary", I+"valuetape/valuetape.h")],
 [("buffer cursors and file positions","where the next record goes / comes from", I+"valuetape/bufferstate.h")], ["trace_on","forward","reverse","removeTape","tapestats"])

prop("C06", "No two live active variables ever share storage and none is lost",
 "For every sequence of creations, copies, moves, scope exits, array allocations and contiguous-location requests of active variables, simultaneously live variables occupy distinct storage locations, keep their values across any growth of the storage, requested contiguous blocks are contiguous, and released locations become available again. This holds for every storage-manager kind the library offers.",
 ["histories", "configurations"], "all operation sequences over allocate one / allocate block / free / ensure-contiguous up to a bounded depth, for every manager kind and several growth thresholds",
 "Tests perform a handful of allocations; fragmentation patterns and growth at particular free-list shapes need exhaustive histories.",
 [S+"storemanager.cpp", I+"storemanager.h", S+"valuetape/globaltapevarscl.cpp", I+"valuetape/valuetape.h"],
 [("free lists / block lists and growth by moving the store", S+"storemanager.cpp")],
 [("free list","locations not owned by any live variable", I+"storemanager.h")], ["adouble construction and destruction","ensureContiguousLocations"])

prop("C07", "Traces are isolated: using one never changes the results of another",
 "Recording, re-recording, evaluating (in any mode), nesting the recording of one trace inside another, or creating further traces never changes the results of any other trace; each trace always returns the results of its own latest recording. Trace identifiers returned as fresh are never in use, and switching the current trace leaves the others' variables intact.",
 ["histories"], "all interleavings, up to a bounded depth, of record/re-record/evaluate/begin-nested/end-nested/switch operations over two to three traces",
 "Tests use one or two traces in a fixed order; interference appears only in particular histories.",
 [S+"tape_interface.cpp", I+"tape_interface.h", S+"interfaces.cpp", I+"valuetape/valuetape.h", S+"valuetape/valuetape.cpp"],
 [("per-thread registry of traces and current-trace stack", I+"tape_interface.h")],
 [("current tape pointer and tape stack","which trace records", I+"tape_interface.h")], ["trace_on","trace_off","createNewTape","setCurrentTape","all drivers"])

prop("C08", "Reverse sweeps use exactly the latest kept forward state or are refused",
 "For every sequence of recordings, forward sweeps (of any mode, degree and keep request) and reverse sweeps on a trace, a reverse sweep whose degree and number of directions match what the most recent keeping sweep kept returns the derivatives at the point of that sweep, every time it is called, and a reverse sweep with no sufficient kept state is refused with an error rather than returning values. A forward sweep never depends on earlier sweeps.",
 ["histories"], "all sequences of recording/forward/reverse calls with all keep values up to a bounded depth on one trace",
 "Tests always call forward with the right keep immediately followed by the matching reverse.",
 [S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp", S+"valuetape/tapeinfos.cpp", S+"interfaces.cpp"],
 [("keep/degree/dependents bookkeeping checked at start of reverse", S+"valuetape/valuetape.cpp"),
  ("Taylor stack writer and rewinding reader", S+"valuetape/tapeinfos.cpp")],
 [("degree and count saved with kept Taylors","what a reverse may use", I+"valuetape/tapeinfos.h")], ["forward modes","reverse modes"])

prop("C09", "Threads that use their own traces get exactly the sequential results",
 "When several threads record and evaluate traces concurrently, each thread using only traces and active variables it created, every thread obtains exactly the results it would obtain running alone, under every interleaving, and there is no data race. This includes traces with user-supplied external functions, checkpointing and fixed-point iterations.",
 ["schedules"], "all interleavings, at library-call and user-callback granularity, of two to three threads' operation sequences up to a preemption bound, plus unconstrained parallel runs under a race detector",
 "A test runs one schedule per execution; process-global state shared between threads shows only in particular interleavings.",
 [I+"tape_interface.h", S+"tape_interface.cpp", S+"interfaces.cpp", S+"fixpoint.cpp", S+"externfcts.cpp", S+"checkpointing.cpp", S+"adouble_tl.cpp"],
 [("thread-local registry of traces", I+"tape_interface.h")],
 [("process-global and function-static variables","state shared by threads", S+"fixpoint.cpp, "+S+"interfaces.cpp")], ["all drivers from several threads"])

prop("C10", "External functions behave as if their code had been recorded inline",
 "A program that calls user-supplied external functions (single-array or multi-array style, any number of calls, distinct or repeated argument arrays, several registered functions, inside larger programs) has the same values, Jacobians and adjoints, in every mode for which the user supplied callbacks, as the program with the functions' code recorded inline. Callbacks receive the current argument and result values and the right sizes, every evaluation calls each recorded external call exactly once, in program order forward and reversed order backward, and a mode whose callback is missing is reported as an error.",
 ["programs", "histories"], "all programs up to a bounded number of external calls x argument-array choices x inline statements in between, all evaluation-mode sequences up to a bounded length",
 "Tests make one or two calls on a fixed array; reuse of arrays, of registrations and mixed orders are program-quantified.",
 [S+"externfcts.cpp", S+"externfcts2.cpp", I+"edfclasses.h", S+"uni5_for.cpp", S+"fo_rev.cpp"],
 [("recording of external call with locations", S+"externfcts.cpp"),("marshalling of values and Taylors to callbacks", S+"uni5_for.cpp, "+S+"fo_rev.cpp")], None, ["call_ext_fct","forward and reverse modes"])

prop("C11", "Checkpointed time stepping gives the derivatives of the plain loop",
 "A loop recorded with the checkpointing facility has the same values and first-order derivatives as the same loop recorded inline, for every number of steps, every number of checkpoints, with or without re-recording, with other code around it and for repeated evaluation at the same or different points. The checkpoint schedule visits each step's adjoint exactly once in reverse order, never exceeds the number of checkpoints given, only restores states it stored, and uses the minimal number of forward steps.",
 ["configurations", "histories", "inputs"], "all (steps, checkpoints) pairs up to a bound, all small loop bodies, option combinations and evaluation sequences; schedule optimality against exhaustive dynamic programming",
 "Tests run a few (steps, checkpoints) pairs; schedule correctness is a statement about all pairs.",
 [S+"checkpointing.cpp", I+"checkpointing.h", S+"revolve.cpp", I+"revolve.h"],
 [("binomial schedule", S+"revolve.cpp"),("checkpoint stack, inner trace, store/restore", S+"checkpointing.cpp")],
 [("checkpoint stack","stored states", I+"checkpointing.h")], ["checkpointing","forward and reverse modes","revolve"])

prop("C12", "Differentiated fixed-point iterations match the implicit derivative",
 "A fixed-point iteration recorded through the dedicated facility yields the iterated value and, in forward and reverse mode, the implicit-function derivative of the fixed point within the tolerance asked for, for every contraction, every dimension, repeated use within one program, on several traces, and repeated evaluation at changed arguments.",
 ["programs", "inputs", "histories"], "all contractions from a family x dimensions x points x call counts x evaluation sequences up to bounds",
 "Tests run one Newton-like iteration on one trace once.",
 [S+"fixpoint.cpp", I+"fixpoint.h"],
 [("registry of fixed-point iterations and derivative iterations", S+"fixpoint.cpp")],
 [("registry entries","which iteration belongs to which call", S+"fixpoint.cpp")], ["fp_iteration","forward and reverse modes"])

prop("C13", "Sparsity patterns contain every nonzero and are exact where promised",
 "For every recorded program, the Jacobian pattern (forward or reverse propagation, index-domain or bit-pattern method, safe or tight branch handling) contains every entry of the Jacobian that is nonzero at the evaluation point; safe modes contain it at every point reachable by taking other branches. The Hessian pattern likewise contains every nonzero second derivative and is symmetric, and dense ranges larger than one machine word or compressed in block form agree with the elementwise ones.",
 ["programs", "configurations", "inputs"], "all programs up to a bounded length over linear/nonlinear/branching/subscript operators x all option combinations x evaluation points; dimension counts crossing word boundaries",
 "Tests look at a few hand-drawn patterns; missing entries depend on operator sequences and overwritten variables.",
 [S+"uni5_for.cpp", S+"fo_rev.cpp", I+"sparse/sparsedrivers.h", S+"sparse/sparsedrivers.cpp", I+"sparse/sparse_fo_rev.h", S+"forward_partx.cpp"],
 [("index-domain merging", S+"uni5_for.cpp"),("bit-pattern OR", S+"uni5_for.cpp, "+S+"fo_rev.cpp"),("nonlinear interaction domains", S+"uni5_for.cpp")], None, ["jac_pat","hess_pat","indopro_forward","bit_vector_forward"])

prop("C14", "Sparse Jacobians and Hessians equal the dense ones",
 "For every recorded program and every option (compression by rows or columns, direct or indirect recovery, reuse of a previously computed pattern at another point, caller- or library-managed result memory) the compressed sparse drivers return exactly the nonzero entries, at the right row and column, of the dense Jacobian or Hessian.",
 ["programs", "configurations", "histories"], "all sparsity structures of small bipartite/symmetric graphs (programs realising each structure) x all option combinations x repeat/new-point sequences",
 "Tests use one or two fixed structures; colouring and recovery correctness is quantified over all graphs.",
 [I+"sparse/sparsedrivers.h", S+"sparse/sparsedrivers.cpp", S+"sparse/sparsedrivers_c.cpp", S+"valuetape/sparseinfos.cpp", I+"valuetape/sparseinfos.h", I+"sparse/sparsematrix.h"],
 [("seed generation and recovery via colouring", S+"valuetape/sparseinfos.cpp"),("cached pattern and seeds per trace", I+"valuetape/sparseinfos.h")],
 [("cached sparse info","pattern, seed and recovery objects kept for repeat", I+"valuetape/sparseinfos.h")], ["sparse_jac","sparse_hess"])

prop("C15", "Piecewise-linear and abs-normal modes represent the function exactly",
 "For every piecewise-linear composition of absolute values, minima and maxima with smooth operations, the abs-normal form extracted at a point reproduces the function's piecewise linearization at every increment, the directional derivative modes return the true one-sided derivative, directional active gradients are limiting gradients of the piece entered in the given direction, and the reported switching variables and signatures match the program.",
 ["programs", "inputs"], "all programs over {+,-,*,smooth unary,fabs,fmin,fmax} up to a bounded number of switches x base points including kinks x directions from a full sign grid",
 "Tests use a few textbook examples; kink combinations (ties, nested switches) are exponentially many and program-quantified.",
 [S+"drivers/psdrivers.cpp", S+"drivers/absnormalform.cpp", S+"fos_pl_forward.cpp", S+"fos_pl_reverse.cpp", S+"fov_pl_forward.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp"],
 [("switch recording and first-order pl sweeps", S+"uni5_for.cpp, "+S+"fo_rev.cpp")], None, ["zos_pl_forward","fos_pl_forward","fov_pl_forward","fos_pl_reverse","abs_normal","directional_active_gradient"])

prop("C16", "Traceless forward differentiation returns exact derivatives",
 "For every program written with the traceless active type (any mix of operators, functions, assignments, comparisons and conditional assignments, with aliased operands) the values equal those of plain doubles and every directional derivative carried equals the true one, for every number of directions.",
 ["programs", "inputs", "configurations"], "all programs up to a bounded length over the traceless operator set x direction counts x points",
 "Tests cover operators singly; in-place operators with aliased operands need program enumeration.",
 [I+"adtl.h", S+"adouble_tl.cpp"], [("operator-by-operator chain rule on a value plus direction array", I+"adtl.h")], None, ["adtl::adouble"])

prop("C17", "Traceless higher-order and index-domain types agree with the reference",
 "Programs written with the implemented operations of the traceless type that carries several directions and several Taylor coefficients compute the same values as plain doubles, exact directional derivatives and exact Taylor coefficients, for every degree and number of directions. Programs written with the traceless index-domain type compute the same values as plain doubles and dependency sets that contain every true dependence, and the traceless sparse Jacobian driver returns exactly the structurally nonzero entries with their true values, when built and when reused.",
 ["programs", "inputs", "configurations"], "all programs up to a bounded length over the operators of these types x degrees x direction counts x points; all sparsity structures up to a size",
 "Hardly covered by tests at all.",
 [I+"adtl_hov.h", S+"adouble_tl_hov.cpp", I+"adtl_indo.h", S+"adouble_tl_indo.cpp"], [("mode-dependent operator implementations", I+"adtl_hov.h, "+I+"adtl_indo.h")], None, ["adtl_hov::adouble","adtl_indo::adouble"])

prop("C18", "Parameters can be changed without re-recording and act as constants",
 "Declaring constants of a recorded program as changeable parameters yields a trace which, after the parameters are set to any values, evaluates and differentiates exactly like the program recorded with those constants, for every position a parameter can take in an expression, for any number of parameters and after any sequence of changes. Parameters are never counted as independent variables.",
 ["programs", "histories", "inputs"], "all operator/operand-position combinations with a parameter up to a bounded program length x all parameter-change/evaluate sequences up to a bounded length",
 "Tests set one or two parameters once.",
 [S+"adouble.cpp", S+"pdouble.cpp", S+"valuetape/valuetape.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"],
 [("parameter store and parameter operators", S+"adouble.cpp, "+S+"valuetape/valuetape.cpp")],
 [("parameter vector","current parameter values of a trace", I+"valuetape/valuetape.h")], ["mkparam","set_param_vec","forward and reverse modes"])

prop("C19", "Convenience drivers return the matrices and vectors they are named for",
 "For every recorded program the function, gradient, Jacobian, Jacobian-vector, vector-Jacobian, Hessian, Hessian-vector, Hessian-matrix and Lagrangian-Hessian drivers return the mathematically named quantity at the given point, mutually consistent and independent of earlier calls, for every number of dependents and independents and every block size accepted.",
 ["programs", "inputs", "histories"], "all programs of a family covering m,n up to a bound x driver-call sequences up to a bounded length x points",
 "Tests check each driver on one function in isolation; dependence on m,n, block size and previous calls is quantified.",
 [S+"drivers/drivers.cpp", I+"drivers/drivers.h", S+"interfaces.cpp"], [("composition of forward/reverse sweeps", S+"drivers/drivers.cpp")], None, ["function","gradient","jacobian","large_jacobian","vec_jac","jac_vec","hessian","hessian2","hess_vec","hess_mat","lagra_hess_vec"])

prop("C20", "Tensor, inverse-Taylor and ODE drivers match their definitions",
 "Tensor evaluation returns every mixed partial derivative to the requested order at its documented address, inverse and implicit tensors satisfy the defining identities, ODE forward/reverse/accumulation produce the Taylor coefficients and their derivatives of the solution of the recorded right-hand side, and Newton-system solves return solutions of the linear system with the recorded Jacobian.",
 ["programs", "inputs", "configurations"], "all polynomial maps of a bounded family x dimensions x degrees x points x seed matrices",
 "Tests check one function and degree; addressing and recurrences are quantified over degree and dimension.",
 [S+"drivers/taylor.cpp", S+"drivers/odedrivers.cpp", S+"adalloc.cpp", I+"drivers/taylor.h", I+"drivers/odedrivers.h"],
 [("interpolation of tensors from univariate Taylor coefficients", S+"drivers/taylor.cpp"),("ODE recurrences", S+"drivers/odedrivers.cpp")], None, ["tensor_eval","tensor_address","tensor_value","inverse_tensor_eval","inverse_Taylor_prop","forode","reverseode","accode","jac_solv"])

prop("C21", "The C interface computes exactly what the C++ interface computes",
 "Every operation sequence carried out through the C interface (creating, combining, comparing and destroying active values and arrays, recording, drivers) gives the same values, comparison results and derivatives as the same sequence in C++, and no handle operation invalidates another handle.",
 ["programs", "histories"], "all C-interface operation sequences up to a bounded depth for the trace-based and the traceless handles, every exported operation",
 "The test-suite touches a handful of C functions with one operand pattern each; equivalence over operation sequences and handle lifetimes is quantified.",
 ["ADOL-C/c_interface/ADOLC_TB_interface.cpp", "ADOL-C/c_interface/ADOLC_TL_interface.cpp", "ADOL-C/c_interface/array_handler.cpp", "ADOL-C/c_interface/driver_interface.cpp"],
 [("opaque-handle wrappers", "ADOL-C/c_interface/")], None, ["exported C functions"])

prop("C27", "The checkpointing schedule is legal, complete and as cheap as possible",
 "For every number of time steps and of checkpoints the sequence of actions requested by the scheduler reverses every step exactly once in descending order, restores only checkpoints that hold the state asked for, never holds more checkpoints than allowed, ends, and needs the least possible number of forward steps for that many checkpoints; the end may move during the forward sweep; schedules that were abandoned, nested with their state saved, or run in other threads do not influence others; impossible requests are refused with the documented code.",
 ["configurations", "histories"], "all (steps, checkpoints) up to bounds, long forward sweeps at all binomial boundaries up to 2^31-1 steps, all changes during short forward sweeps, all pairs of interleaved schedules of a family",
 "The tests run one or two schedules through checkpointing; legality and optimality are statements over all numbers of steps and checkpoints.",
 [S+"revolve.cpp", I+"revolve.h", S+"checkpointing.cpp"], [("optimal binomial splitting", S+"revolve.cpp")], None, ["revolve","maxrange","CP_Context"])

prop("C28", "Array helpers give every element its own place for every shape",
 "Arrays obtained from the allocation helpers have, for every number of dimensions and every shape, one place for each element, contiguous in the order of the indices; identity arrays read as the identity; arrays stay intact whatever else is obtained or freed, in any order; arrays without elements are null and may be freed; pointer structures built in memory of the caller use exactly the memory they need; conversions from and to Fortran arrays store by columns and invert each other.",
 ["inputs", "histories", "configurations"], "all helpers x shapes up to bounds; all sequences of obtaining, writing and freeing arrays up to a length",
 "Programs rely on these helpers for every driver call; an error in the address arithmetic only shows for particular shapes or orders of freeing, and the tests use a few fixed shapes.",
 [S+"adalloc.cpp", S+"fortutils.cpp", I+"adalloc.h", I+"fortutils.h"], [("address arithmetic of the helpers", S+"adalloc.cpp"), ("column-wise conversion", S+"fortutils.cpp")], None, ["myalloc1","myalloc2","myalloc3","myallocI2","myfree2","pack2","spread3"])

prop("C29", "Repeated use accumulates neither memory nor open files",
 "Repeating recordings, re-recordings on the same or other tags, evaluations by any sweep or driver, and operations of the traceless types, any number of times and in any order, leaves the memory in use and the number of open files bounded: once warmed up, further repetitions of the same sequence raise neither, and drivers, sweeps and type operations release all they obtain. The one exception is documented by use: each recorded checkpointed loop, fixed-point iteration or registered external function keeps a small descriptor for the life of its trace. Calls that are refused with an error are not covered.",
 ["histories", "configurations"], "all programs over the operation alphabet and all sequences of commands up to a length, each repeated until the state is periodic, plus the spaces of the driver checks run with every allocation of each case accounted for",
 "Tests run each call once in a process that ends soon; that nothing accumulates is a statement about unbounded repetition of every history.",
 [S+"adalloc.cpp", S+"uni5_for.cpp", S+"ho_rev.cpp", S+"fo_rev.cpp", S+"drivers/drivers.cpp", S+"sparse/sparsedrivers.cpp", S+"valuetape/valuetape.cpp", I+"adtl_hov.h"], [("work arrays of the sweeps", S+"uni5_for.cpp"), ("cached patterns replaced on repetition", S+"sparse/sparsedrivers.cpp"), ("buffers and files of a tape", S+"valuetape/tapeinfos.cpp")], None, ["myalloc1","myfree1","free_all_taping","read_tape_stats"])

prop("C22", "A failing disk never yields wrong derivatives",
 "If any open, write, seek, read or remove on the trace files fails or transfers less than asked, at any point of recording or evaluation, the library reports an error for the affected operation instead of returning values or derivatives, and other traces as well as later recordings keep working.",
 ["fault_sequences", "crash_points"], "every single stdio operation issued by a recording-and-evaluation history that spills to disk x every fault kind (open failure, short or failed write, failed seek, short read, error at close), one fault per run exhaustively and pairs in the thorough tier",
 "Tests never inject I/O faults.",
 [S+"valuetape/tapeinfos.cpp", S+"valuetape/valuetape.cpp", S+"valuetape/persistanttapeinfos.cpp", S+"adolcerror.cpp"],
 [("checks after each stdio call raising an error", S+"valuetape/valuetape.cpp, "+S+"valuetape/tapeinfos.cpp")], None, ["fopen/fwrite/fread/fseek/fclose boundary"])

prop("C23", "Misuse is refused with an error and leaves the library usable",
 "Calls with a wrong or never recorded trace, wrong numbers of dependents, independents, switches or parameters, a keep flag beyond the mode, reverse sweeps without a matching forward sweep, recording commands out of order or during a recording, arguments of external functions and vector operations without contiguous locations, missing callbacks, and active subscripts out of range are refused with an error that states the problem (or a negative return code) rather than crashing or returning values; after any sequence of such refusals every trace gives bit for bit the results it gave before, a forward sweep kept before is still right or refused, the current trace and the set of live variables are unchanged, and a recording in progress and new recordings are not affected.",
 ["histories", "inputs"], "all misuse calls of a catalogue inserted at every position of valid operation histories up to a bounded length",
 "Tests try a few misuse calls in isolation and never continue to use the library after one.",
 [S+"adolcerror.cpp", I+"adolcerror.h", I+"tape_interface.h", S+"interfaces.cpp", S+"uni5_for.cpp", S+"fo_rev.cpp", S+"ho_rev.cpp"],
 [("argument checks raising errors", S+"uni5_for.cpp, "+S+"fo_rev.cpp")], None, ["all entry points"])

prop("C24", "Trace statistics and printed traces describe the recording truthfully",
 "For every recording, the reported statistics (numbers of independents, dependents, operations, locations, values, maximal live variables, parameters, switches, and comparisons) equal the counts of what the program did, do not change by evaluating the trace, and the human-readable rendering lists exactly the recorded operations with the values of the documented evaluation.",
 ["programs", "histories"], "all programs up to a bounded length over one representative of each record kind x evaluation in between x buffer sizes",
 "Tests do not check the statistics of programs beyond trivial ones nor the rendering at all.",
 [S+"valuetape/valuetape.cpp", I+"valuetape/infotype.h", S+"tapedoc/tapedoc.cpp", S+"interfaces.cpp"],
 [("counters maintained while recording", I+"valuetape/valuetape.h"),("renderer interpreter", S+"tapedoc/tapedoc.cpp")], None, ["tapestats","tape_doc"])

prop("C25", "Lie-derivative drivers match repeated differentiation along the flow",
 "For recorded vector fields and output, covector or field maps, the drivers for Lie derivatives of scalars, their gradients, of covector fields and Lie brackets return the iterated Lie derivatives of the documented definition to the requested order.",
 ["programs", "inputs", "configurations"], "all polynomial fields of a bounded family x dimensions x orders x points",
 "Tests check one example system at one point.",
 [S+"lie/adolc_lie.cpp", S+"lie/adolc_lie_c.cpp", I+"lie/drivers.h"],
 [("recurrences on Taylor coefficients of the flow", S+"lie/adolc_lie_c.cpp")], None, ["lie_scalar","lie_gradient","lie_covector","lie_bracket"])

prop("C26", "All ways to call a sweep compute the same",
 "The overloads of forward and reverse and the Fortran entries return, for every shape they are defined for, exactly the values, Taylor coefficients, adjoints, nonzero patterns and return codes of the plain sweep of that kind, keep the same state for a following reverse sweep, and leave their input arguments as they were; arrays of Fortran entries are stored by columns. Shapes a form is not defined for are refused with an error. The outcome does not depend on the shapes of earlier calls.",
 ["inputs", "histories", "configurations"], "all call forms x shapes x degrees x numbers of directions or rows x keeps x points; all sequences of calls with changing shapes up to a length",
 "Tests use a few overloads with one shape each and no Fortran entry; work space kept between calls and index conventions only show for particular combinations of shapes and orders of calls.",
 [S+"interfaces.cpp", S+"interfacesf.cpp", S+"fortutils.cpp", I+"interfaces.h"],
 [("overloads rearranging coefficients for the plain sweeps", S+"interfaces.cpp"), ("conversion of Fortran arrays", S+"fortutils.cpp")], None, ["forward","reverse","hos_forward_","hov_reverse_"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
