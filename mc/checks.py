"""Registry of checks: property -> how its explorers are built and run."""
MC = "bounded exhaustive state-space exploration of the implementation against an executable reference model"
BASE_ASSUME = [
    "bounds: only programs, operation sequences, points and sizes inside the enumerated spaces (listed under coverage.spaces/rule) are covered",
    "the reference model (mc/ref.h, mc/dsl.h: plain double and truncated Taylor arithmetic) is right",
    "floating point comparison with relative tolerance (1e-9 unless stated); cases near switching points or with values above 1e7 are skipped",
    "library compiled by g++ -O1 with AddressSanitizer, the repository's default configuration with sparse support and boost pool",
]
NOT_APPLICABLE = {}
# a library that transfers blocks in pieces of 32 bytes instead of 1 GiB
CHUNK = {"adolc/internal/usrparms.h": (r"^(#define ADOLC_IO_CHUNK_SIZE).*", r"\1 32")}
LEAK_RUNS = [dict(src=[f], args=["--only", o]) for f, o in (
    ("C19.cpp", "sizes|wide"), ("C20.cpp", "tensor|inverse|ode|flow"), ("C14.cpp", "jac-structures|large|programs"),
    ("C25.cpp", "outputs|fields|wide|flow"), ("C26.cpp", "calls|wide"), ("C15b.cpp", ".*"),
    ("C17.cpp", "hov-len1|indo-len1|sparse-.*"))] + [
    dict(src=["C21.cpp"], cif=True, args=["--only", "seq|drivers|arrays"]),
    dict(src=["C10b.cpp"], flags=["-DWHAT=10"])]
CHECKS = {
    "C01": dict(
        runs=[dict(src=["C01.cpp"])], technique=MC + " (all programs up to a length over an operation alphabet)",
        note="Every program of length <=2 (3/4 with reduced alphabets) over the operation alphabet is recorded and evaluated by the real library; values and every first-order mode are compared with dual-number arithmetic; single operations also on a 12x12 grid of special points (both zeros, borders of domains, 1e-7, 1e6). Nothing outside these bounds is covered.",
        assumptions=BASE_ASSUME),
    "C02": dict(
        runs=[dict(src=["C02.cpp"]), dict(src=["C02b.cpp"])], technique=MC + " (all branching programs x all ordered pairs of recording and evaluation points)",
        note="Every program of 1-2 (thorough 3) branching operations is recorded at one point and evaluated by all forward/reverse modes at another, for all ordered pairs of points incl. ties, and conditional assignments in longer programs; return codes and results are compared with a model that logs every comparison and selection.",
        assumptions=BASE_ASSUME),
    "C03": dict(
        runs=[dict(src=["C03.cpp"]), dict(src=["C03b.cpp"])], technique=MC + " (all programs up to a length x input polynomials x degrees)",
        note="Every program of length <=3 over the alphabet, three input polynomials (generic, vanishing leading coefficients), degrees 1..5, every higher-order forward driver, and wide shapes (up to 70 variables and directions) and degrees up to 9, compared with truncated Taylor arithmetic; single operations also on a 7x7 grid of special points. Powers with whole and broken exponents -4..9 of curves with zeros of order 0..4, and fabs/max/min where curves touch to order 0..4, degrees 1..9.",
        assumptions=BASE_ASSUME),
    "C04": dict(
        runs=[dict(src=["C04.cpp"]), dict(src=["C03b.cpp"], flags=["-DREV"])], technique=MC + " (all programs up to a length x input polynomials x degrees x weights)",
        note="Every program of length <=3 over the alphabet, degrees 0..4, constant and polynomial weights, and wide shapes (up to 70 variables and weights) and degrees up to 9, every higher-order reverse driver incl. nonlinearity pattern, single operations also on a 7x7 grid of special points, compared with truncated Taylor arithmetic over dual numbers. Powers with whole and broken exponents -4..9 of curves with zeros of order 0..4, degrees 1..9.",
        assumptions=BASE_ASSUME),
    "C05": dict(
        runs=[dict(src=["C05.cpp"]), dict(src=["C05.cpp"], edits=CHUNK, flags=["-DMC_CHUNK"])], technique=MC + " (all buffer size combinations x programs x mode sequences, against the same program with large buffers)",
        note="Programs containing every operation are recorded and evaluated in all modes with every single small buffer size, all small combinations, every size up to more than three programs need (so that each buffer is once exactly full), all short sequences of modes and re-recordings; every result must be bit-identical to the large-buffer run. Minimum sizes explored: 3 operations, 56 locations, 6 values, 1 Taylor coefficient; repeated on a library whose file transfers are 32 bytes.",
        assumptions=BASE_ASSUME),
    "C06": dict(
        runs=[dict(src=["C06.cpp"])], technique=MC + " (all histories of storage operations up to a depth x manager configurations)",
        note="Every history of 5-6 (thorough 7) location operations and 4 (thorough 5) object operations on a fresh storage manager of either kind; after each operation all live variables must own distinct locations and hold their values, blocks must be contiguous, and finally every released location must be handed out again before the store grows. Programs of 1-2 operations with the store growing at each point. Stores of hundreds of variables released in every pattern of strides.",
        assumptions=BASE_ASSUME),
    "C07": dict(
        runs=[dict(src=["C07.cpp"])], technique=MC + " (all histories of commands over two and three traces up to a depth, against each trace used alone)",
        note="Every history of 2-3 (thorough 4) commands (record five kinds of programs, nested recordings, evaluations inside recordings, forward, reverse of kept state, drivers, switching, creating) over 2-3 traces; each result must equal that of the trace used alone, the current trace and the variables living on other traces must be unaffected. Histories of creating, recording and closing traces keep the list of traces right.",
        assumptions=BASE_ASSUME),
    "C08": dict(
        runs=[dict(src=["C08.cpp"])], technique=MC + " (all histories of recordings, forward sweeps and reverse sweeps up to a depth, against a model of the kept state)",
        note="Every history of 3 (thorough: 4 reduced) commands on one trace - recording, every forward mode with every keep request, drivers, every reverse mode - is executed; a model of what is kept decides whether each reverse sweep must return the exact adjoints at the kept point or be refused.",
        assumptions=BASE_ASSUME),
    "C09": dict(
        runs=[dict(src=["C09.cpp"]), dict(src=["C09.cpp"], flavour="tsan", flags=["-DC09_RACE"], workers=4)],
        technique=MC + " (all bounded-preemption schedules of thread programs under a controlled scheduler, plus happens-before race detection on every pair so that the explored schedules represent all)",
        note="23 thread programs covering recording, every kind of sweep and driver, active vectors, abs-normal forms, external functions, checkpointing, fixed points, spilled traces; all pairs under all schedules with two switches (three switches on a grid, exhaustive in the thorough tier) and all triples alternating, switching between calls, recorded statements and inside callbacks; all pairs concurrently under the race detector.",
        assumptions=BASE_ASSUME + ["interleavings finer than the scheduling points are covered by the absence of data races reported by ThreadSanitizer on the executed pairs"]),
    "C10": dict(
        runs=[dict(src=["C10.cpp"]), dict(src=["C10b.cpp"], flags=["-DWHAT=10"])],
        technique=MC + " (all sequences up to length 3 of external calls and elementary operations, against the same operations inlined in the reference)",
        note="All call sequences up to length 3 over argument shapes, positions and integer data, for ten interface forms (function structs, nested traces, objects, integer data, v2 with one or several vectors of equal or different lengths) and all flag combinations; values, tangents, vector tangents, adjoints (repeated, vector, right after recording), return codes and the prior arguments and results callbacks see; functions with up to 70 arguments and results and traces with many calls.",
        assumptions=BASE_ASSUME + ["callbacks accumulate adjoints; those that change their arguments say so (dp_x_changes) and their results do not share the place of an argument"]),
    "C11": dict(
        runs=[dict(src=["C11.cpp"]), dict(src=["C10b.cpp"], flags=["-DWHAT=11"])],
        technique=MC + " (all small step counts, checkpoint budgets and configurations; every revolve schedule that arises is executed on the implementation)",
        note="All step counts and checkpoint budgets up to a bound for six kinds of time step, in place or not, with and without retaping, one or two checkpointed loops per trace; values, tangents, adjoints (repeated, vector, straight after recording, after intervening sweeps) against the plain loop; states with up to 70 components and traces with many loops.",
        assumptions=BASE_ASSUME + ["steps that depend on non-active state use save/restore functions and retaping, and the host resets that state before a forward sweep"]),
    "C12": dict(
        runs=[dict(src=["C12.cpp"]), dict(src=["C10b.cpp"], flags=["-DWHAT=12"])],
        technique=MC + " (all histories of forward and reverse sweeps up to length 3 (4) over all contractions of a family, against the fixed point and its implicit derivative computed independently)",
        note="All sweep histories up to length 3 over seven contractions (dimensions 1-3), start values and surrounding programs; pairs of iterations in one trace with separate or shared sub-traces; all iteration limits 1..40 at four tolerances, where exactly the runs missing the tolerance must be reported; up to 70 unknowns or parameters and traces with many iterations. Blocks recorded on one trace and evaluated from another.",
        assumptions=BASE_ASSUME + ["scalar first-order modes, for which fixed-point iterations are supported; the derivative iteration is given enough iterations"]),
    "C13": dict(
        runs=[dict(src=["C13.cpp"])],
        technique=MC + " (all programs up to a length x recording and evaluation points x pattern methods, against first and second derivatives and structural dependence)",
        note="All programs of length <=3 over the alphabet incl. comparisons and selections, eight Jacobian and four Hessian pattern methods; patterns must contain every nonzero (safe: at every explored point following the recorded comparisons) and nothing the entry is not computed from. The C functions under every combination of their options. All numbers of independents 1..70 and around multiples of the word and strip size, up to 2890 rows or columns (four strips), with exact expected patterns; arbitrary bit seeds.",
        assumptions=BASE_ASSUME + ["programs with active subscripts may be refused by the safe and the bit pattern reverse modes (documented)"]),
    "C14": dict(
        runs=[dict(src=["C14.cpp"])],
        technique=MC + " (all sparsity structures up to a size x option combinations x build/reuse histories on two traces, against analytic dense derivatives)",
        note="All Jacobian structures with up to 10 entries positions and all symmetric Hessian structures on up to 4 variables x all options of the C++ and C drivers x build, reuse elsewhere, rebuild; larger stencils; all programs of length <=2 with every option of the C++ and C interface; all histories of 3 driver calls on two traces.",
        assumptions=BASE_ASSUME + ["a cached pattern is only reused for the same structure and compression mode (the documented contract of repeat)"]),
    "C15": dict(
        runs=[dict(src=["C15.cpp"]), dict(src=["C15b.cpp"])],
        technique=MC + " (all programs with absolute values, minima and maxima up to a length x base points x increments x signatures, against an independent piecewise linearization)",
        note="All programs of length <=3 over smooth operations and fabs/fmin/fmax in all forms, at base points on and off the kinks: switching variables, signatures, increments (scalar and vector), one-sided derivatives, extended reverse rows, dense and sparse abs-normal form and its reproduction of every increment, signature gradients for all signatures, directional active gradients; functions given in abs-normal form with up to 65 inputs and outputs and 70 switches, in memory and on disk; nine textbook families with 1-5 inputs at all points and directions of a sign grid.",
        assumptions=BASE_ASSUME + ["minima and maxima are recorded as absolute values (enableMinMaxUsingAbs), as the modes require"]),
    "C16": dict(
        runs=[dict(src=["C16.cpp"])],
        technique=MC + " (all programs up to a length x points x direction counts, and all histories of variable life-cycle operations, against plain doubles, independent dual arithmetic and a record of value and derivatives)",
        note="All programs of length <=3 (4) over the traceless operator set incl. comparisons and selections with one-sided derivatives at ties, for 1 to 65 directions, with poisoned memory; single operations on a 12x12 grid of special points; two-argument functions on a grid with axes and zeros; all life-cycle histories of length 3 (4); all sequences of direction counts; text form round trip.",
        assumptions=BASE_ASSUME + ["the number of directions is only changed while no variable exists (documented)", "powers of active exponents have positive bases"]),
    "C17": dict(
        runs=[dict(src=["C17.cpp"])],
        technique=MC + " (all programs up to a length x points x degrees and direction counts, all sparsity structures up to a size, against plain doubles, dual and Taylor arithmetic and structural dependence)",
        note="All programs of length <=3 over the operations the several-directions-and-degrees type implements (value, directional derivatives, Taylor coefficients for degrees 1,2,4,6 and 1-65 directions), single operations on a 7x7 grid of special points; all programs of length <=3 for the index-domain type (value, every true dependence listed, nothing the value is not computed from); the traceless sparse Jacobian for all structures with up to 9 (12) positions and wide ones up to 150x150, built and reused.",
        assumptions=BASE_ASSUME + ["operations the higher-order type does not implement end the process with a message; they are outside the property"]),
    "C18": dict(
        runs=[dict(src=["C18.cpp"])],
        technique=MC + " (all programs with parameter operations up to a length x sequences of parameter changes, and all histories of changes, sweeps and recordings, against the program recorded with those constants)",
        note="Every operation and position a parameter can take, alone with all aliasing patterns, before and after any operation and in pairs, with 13 evaluation modes after each of several changes; all histories of 3 (4) commands over two traces; numbers of parameters x buffer sizes with parameters in memory or on disk; places of creation.",
        assumptions=BASE_ASSUME + ["parameters are made for the recording in progress (or the one started next on the current trace)", "frexp yields a recorded constant (documented step function)"]),
    "C19": dict(
        runs=[dict(src=["C19.cpp"])],
        technique=MC + " (all numbers of dependents and independents up to bounds x block sizes x function families, all programs up to a length, and all sequences of driver calls, against independent dual and Taylor arithmetic)",
        note="Every convenience driver (C and Fortran-callable) for 1-5 dependents and 1-6 independents, every block size, direction and weight, with guard elements around all arrays; all programs of length <=2 (3) through every driver; all sequences of 3 (4) calls over two traces, among them calls that are refused, that leave the recorded branches, and new recordings; shapes up to 65x65.",
        assumptions=BASE_ASSUME + ["vec_jac with repeat follows a call at the same point (documented)"]),
    "C20": dict(
        runs=[dict(src=["C20.cpp"]), dict(src=["C20b.cpp"])],
        technique=MC + " (all degrees, dimensions, numbers of directions and seeds up to bounds x function families, all programs up to a length, and all sequences of driver calls, against truncated multivariate power series and the defining identities)",
        note="Tensors of degree 0-5 in 1-3 (4) directions for every entry, address and way of access, degree 6-8 in one and two directions; inverse tensors must compose with the function to the identity; Taylor series of differential equations for every degree up to 6, split, scaling and calling convention with the Jacobians of all coefficients, dense, sparse and in place; all sequences of 3 (4) calls of Newton solves (all modes, singular points), tensors, inverse tensors, series, recordings and refused calls on two traces; 1-20 directions for every degree, Newton steps and differential equations with up to 20 unknowns, inverse tensors with up to 12, and recordings of different shapes following each other.",
        assumptions=BASE_ASSUME + ["inverse tensors are asked for at points with a well-conditioned Jacobian"]),
    "C21": dict(
        runs=[dict(src=["C21.cpp"], cif=True)],
        technique=MC + " (every exported operation with all operand handles, all pairs and all sequences of operations and of handle lifetimes up to a length, each carried out through the C interface and in C++ and compared bit by bit)",
        note="Every exported function of the tape-based, traceless, driver and array parts of the C interface: single operations with all operand handles, constants, ties and NaN; all pairs; all sequences of 3 (4) over 29 operations with frees in between; all sequences of 3-4 (4-5) handle operations on one and two tapes with the values of all live handles checked after each; all driver calls (also refused ones) over sizes, degrees and keep; repeated operations must not use up locations or memory; the headers compile as C.",
        assumptions=BASE_ASSUME + ["handles are used while their tape is current"]),
    "C25": dict(
        runs=[dict(src=["C25.cpp"])],
        technique=MC + " (all pairs of functions of a family x dimensions x orders x ways to call, all programs up to a length, and all sequences of driver calls, against the definition evaluated with truncated multivariate power series)",
        note="Lie derivatives of scalars, gradients, covector fields and brackets by the definition (repeated differentiation of multivariate power series) for 49 pairs of functions, 1-3 (4) states, 1-3 outputs, orders 0-4 (5), 4-8 states, orders up to 12, C functions and overloads, points other than the recorded one; linear systems up to order 20 (30) in closed form; all programs of 1 and 2 operations in every role; left branches of either trace; all sequences of 3 (4) calls with changing dimensions, orders, recordings and refused calls.",
        assumptions=BASE_ASSUME),
    "C26": dict(
        runs=[dict(src=["C26.cpp"])],
        technique=MC + " (all call forms x shapes x degrees x directions x keeps x points, and all sequences of calls with changing shapes, against the plain sweeps)",
        note="Sixteen overloads of forward and reverse and ten Fortran entries: values, coefficients, adjoints, nonzero patterns, return codes, what they keep for a following reverse sweep and that the arguments are left as they were, bit for bit (1e-12) as the plain sweep (which C01, C03 and C04 check); shapes a form is not defined for are refused; all sequences of 2 and 3 calls with changing shapes; shapes up to 17.",
        assumptions=BASE_ASSUME + ["the plain sweeps themselves are right (C01, C03, C04)"]),
    "C27": dict(
        runs=[dict(src=["C27.cpp"])],
        technique=MC + " (all schedules of the real scheduler up to bounds carried out by a machine that tracks which state is held where; all changes of the end and of the checkpoints during the forward sweep, all abandoned, nested and concurrent schedules; costs against dynamic programming)",
        note="Every schedule of up to 260 (700) steps and 24 (40) checkpoints, and up to 1000 checkpoints, is legal (a checkpoint that is restored holds that state), complete, within its checkpoints, and needs exactly the least possible number of forward steps; forward sweeps of up to 2147483647 steps split optimally; open-ended sweeps, abandoned and nested schedules, refusals and printed predictions.",
        assumptions=BASE_ASSUME + ["the actions are carried out by this machine; that checkpointing.cpp carries them out rightly is C11"]),
    "C28": dict(
        runs=[dict(src=["C28.cpp"])],
        technique=MC + " (all kinds and shapes of helper arrays up to bounds and all histories of obtaining, writing and freeing them, on the real helpers under the address sanitizer)",
        note="All kinds of arrays with 1..3 dimensions up to 33 (65): contiguous in the order of the indices, every element its own place; identity arrays of orders 1..70; arrays without elements; all histories of 4 (5) operations over 13; pointer structures in memory of the caller and conversions from and to Fortran arrays for all shapes up to 9.",
        assumptions=BASE_ASSUME),
    "C29": dict(
        runs=[dict(src=["C29.cpp"])] + [dict(r, env=dict(r.get("env", {}), MC_LEAKS="1"), asan="detect_leaks=1", libs=list(r.get("libs", [])) + ["-Wl,--wrap=__cxa_throw"]) for r in LEAK_RUNS],
        technique=MC + " (all programs and sequences of operations up to a length, each repeated until its state has become periodic, with the memory in use and the open files as the observed state)",
        note="All programs of the alphabet and all sequences of commands up to a length (recording, re-recording, sweeps, drivers, traceless types, external functions, checkpointing, parameters), repeated 24 times and then 12 more: memory in use and open files must not grow any more. The spaces of the checks of the drivers, tensors, inverse problems, ODE, sparse, piecewise linear, traceless, external-function and Fortran/C interfaces are run again with LeakSanitizer asked after every case that succeeded.",
        assumptions=BASE_ASSUME + ["memory that is never used again but to which a stale pointer is left is seen only by the repetition part", "calls refused with an error may leak and are not judged", "each recorded checkpointed loop or fixed-point iteration may keep its descriptor"]),
    "C22": dict(
        runs=[dict(src=["C22.cpp"], libs=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=remove,--wrap=unlink"]),
              dict(src=["C22.cpp"], libs=["-Wl,--wrap=fopen,--wrap=fopen64,--wrap=remove,--wrap=unlink"], edits=CHUNK, flags=["-DMC_CHUNK"])],
        technique=MC + " (all command histories up to a length x every file-system operation they issue as a fault point x kinds of failure x stdio buffering, on the real library and real stdio over a file system in memory)",
        note="Every open, write, read, seek, close and remove that recordings and evaluations in 15 kinds of commands issue fails once, transfers only a part, or fails from then on; all single commands in three buffering modes, all sequences of 2 (3), all pairs of faults in one command (two), repeated on a library whose file transfers are 32 bytes. No reported success may come with wrong values or derivatives; recordings that failed must not be evaluated; afterwards every other trace, every trace whose recording succeeded, and new recordings on all traces must work.",
        assumptions=BASE_ASSUME + ["trace files are accessed through fopen/remove of the C library (anything else is not subjected to faults)", "an operation that fails while recording is followed by trace_off"]),
    "C24": dict(
        runs=[dict(src=["C24.cpp"], libs=["-Wl,--wrap=fopen,--wrap=fopen64"])],
        technique=MC + " (exhaustive enumeration of programs x buffer configurations on the real library; the printed trace is executed by an interpreter and compared with the reference and with the evaluation, the statistics are counted again from its rows)",
        note="All programs of one operation over the full alphabet at 3 points in 6 buffer configurations, all of two (three) over a smaller one, all features outside of it (parameters, variables alive before or after, external functions, min/max as abs, page breaks). The rows must parse, count up and down correctly, use only locations that hold a value, reproduce the dependents at the recorded and at another point when executed, and be the same for all buffer sizes; all statistics must agree with the rows and must not change by evaluating or printing.",
        assumptions=BASE_ASSUME + ["constants are printed with 7 digits, so results are compared with tolerance 2e-4 and ill-conditioned programs only structurally", "axpy with four printed locations and external functions make the affected results unknown (counted)"]),
    "C23": dict(
        runs=[dict(src=["C23.cpp"])],
        technique=MC + " (all sequences of misuse calls up to a length x positions in valid histories, on the real library, compared bit by bit with the history without misuse)",
        note="About 1200 misuse calls (every driver and overload x every wrong argument, wrong kept sweep, recording commands, external functions, vector operations, subscripts, piecewise linear and sparse drivers, checkpointing), each in 4 positions (idle, between forward and reverse, while recording, in a nested recording), and all pairs of a core (thorough: of all) of them; afterwards all 4 traces, the kept sweeps, the recording around the call and a new recording are compared bit by bit with the history without misuse.",
        assumptions=BASE_ASSUME + ["negative counts, negative degrees and wrongly sized arrays are outside of the documented interface", "error paths may leak memory"]),
}
