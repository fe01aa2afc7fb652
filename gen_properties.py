#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

NEVER = "No test in the repository ever runs a minimisation; "

p("C01", "Accepted steps never raise the free energy; host is left at accepted state",
  "During a minimisation the free energy of the accepted state never increases from one iteration to the next (beyond rounding), for every sequence of energies, including wrong, infinite and NaN ones, that the host returns at trial points. When the call returns, the host's wave functions, occupations and chemical potential are those of the last accepted state and not those of a rejected trial point.",
  ["inputs", "fault_sequences", "histories"],
  "all problems of the bounded family x all sequences of host energy answers with at most k deviations (higher, lower, +inf, NaN) from the honest answer at any evaluation",
  NEVER + "the outcome depends on the whole sequence of energies seen by successive line searches, which no finite sample of runs covers.",
  ["src/linesearch/linesearch.hpp", "src/nlcglib.cpp", "src/free_energy.hpp"],
  [("quadratic line search accepts only F_min <= F0", "src/linesearch/linesearch.hpp qline"),
   ("backtracking accepts only F < F0, else returns to t=0", "src/linesearch/linesearch.hpp bt_search"),
   ("iterate update after the line search", "src/nlcglib.cpp nlcg_us")],
  ["free energy of successive records of nlcg.json", "host state at return"])

p("C02", "Line searches are finite; failure restarts, a second failure stops",
  "Every line search uses finitely many energy evaluations: it tries the minimum of a quadratic model, then step lengths shrinking geometrically by the user's backtracking factor down to about 1e-8, and if no trial lowers the free energy it returns to its starting point and the following direction is a steepest-descent one. If the search along that steepest-descent direction fails too, or a line search fails along a direction that already is a restarted one, the minimisation ends with a result that is not converged. A direction of positive slope is never followed, and a backtracking factor of 1 or more is reported as an error when backtracking is needed.",
  ["inputs", "fault_sequences"],
  "all answer sequences of the energy (lower, equal, higher, very low, inf, NaN) per evaluation up to a depth, all slope signs, restart flags and backtracking factors of a finite set",
  NEVER + "the failure branches need particular sequences of energies; none is exercised.",
  ["src/linesearch/linesearch.hpp", "src/nlcglib.cpp", "src/exceptions.hpp"],
  [("slope check, quadratic search, backtracking", "src/linesearch/linesearch.hpp"),
   ("force_restart handling and catch clauses", "src/nlcglib.cpp nlcg_us")],
  ["sequence of host energy evaluations", "returned result"])

p("C03", "The returned result tells the truth about the minimisation",
  "The returned record is marked converged exactly when the absolute residual (slope) of the last logged iterate is below the user's tolerance; its free energy, entropy term, residual and iteration number are those of the last logged iterate. No more than the requested number of iterations is carried out, an iterate already below tolerance costs no further energy evaluation, and a run with no iterations still returns a well-defined record of the starting state that is not marked converged.",
  ["inputs", "fault_sequences", "configurations"],
  "all problems, tolerances, iteration limits 0..N and host answer sequences of the bounded family",
  NEVER + "whether the report matches the log depends on which of the exits (tolerance, limit, failed search) a history takes.",
  ["src/nlcglib.cpp", "include/interface.hpp"],
  [("print_info builds the result record", "src/nlcglib.cpp print_info"),
   ("convergence test and loop bound", "src/nlcglib.cpp nlcg_us")],
  ["returned record vs nlcg.json and host call trace"])

p("C04", "Occupations always hold exactly the prescribed number of electrons",
  "At every energy evaluation the occupations given to the host are the selected smearing function evaluated at the band energies with one common chemical potential, the one that is then set on the host, and their weighted sum over all k-points and spins equals the number of electrons to 1e-10. For Methfessel-Paxton and cold smearing, whose electron count is not monotone in the chemical potential, the chemical potential is a local minimiser of the electron-count error and the error is below 1e-2; the other smearings also keep each occupation between 0 and the maximum occupancy. Setting NLCGLIB_DISABLE_NEWTON_EFERMI to anything but 0 makes the count exact to 1e-10 for these two as well. If no such chemical potential exists in double precision the call fails with an error.",
  ["inputs", "configurations"],
  "all band-energy patterns (degenerate, gapped, shifted, widely spread), weights, temperatures, electron counts, occupancies and the five smearings of a finite alphabet; all evaluations of all explored runs",
  "test_smearing prints values for one spectrum and checks nothing; correctness depends on the spectrum, temperature and filling.",
  ["src/smearing.hpp", "src/dft/newton_minimization_smearing.hpp", "src/nlcglib.cpp"],
  [("search for the chemical potential", "src/smearing.hpp find_chemical_potential"),
   ("Newton minimisation with fallback", "src/dft/newton_minimization_smearing.hpp"),
   ("Smearing::fn", "src/smearing.hpp")],
  ["occupations and chemical potential set on the host at each evaluation"])

p("C05", "Smearing functions are mutually consistent for every argument",
  "For each of the five smearing schemes and every finite real argument, the occupation rises from 0 at minus infinity to the maximum occupancy at plus infinity, the smeared delta function is its derivative, the derivative-of-delta function is the derivative of the delta function, and the entropy function vanishes at both infinities with derivative minus the argument times the delta function. All four functions are proportional to the maximum occupancy and finite.",
  ["inputs"],
  "all arguments of a fine grid over [-60,60] plus the floating-point neighbours of every branch point and large magnitudes, for every scheme and maximum occupancy 1 and 2",
  "test_smearing prints sums only; an inconsistency shows only at particular arguments, occupancies or schemes.",
  ["src/smearing.hpp"],
  [("fn, delta, dxdelta, entropy of the five schemes", "src/smearing.hpp")],
  ["values of the four functions; derivative of the free energy seen by the host"])

p("C06", "The reported slope is the true derivative of the free energy",
  "At every iteration the logged slope equals the derivative, at step length zero, of the free energy along the curve on which the following line search evaluates the host (for Methfessel-Paxton and cold smearing: wherever the chemical potential reproduces the number of electrons), for steepest-descent and conjugate directions, every smearing, overlap operator, preconditioner, k-point weighting and spectrum including degenerate band energies.",
  ["inputs", "configurations", "histories"],
  "all problems of the bounded family and every iteration of their runs; the derivative is extrapolated from the free energies at the geometrically shrinking trial points provoked by a host that rejects all of them",
  NEVER + "the gradient formulas must be right for every state and smearing.",
  ["src/pseudo_hamiltonian/grad_eta.hpp", "src/mvp2/descent_direction.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/mvp2.hpp", "src/smearing.hpp"],
  [("gradient of the pseudo-Hamiltonian", "src/pseudo_hamiltonian/grad_eta.hpp"),
   ("gradient in X, Lagrange multipliers", "src/mvp2/mvp2.hpp"),
   ("slope assembly", "src/mvp2/descent_direction.hpp")],
  ["slope_x of nlcg.json vs host evaluations at trial steps"])

p("C07", "Wave functions handed to the host are always S-orthonormal",
  "At every energy evaluation, at whatever step length and direction, the wave functions the host receives for each k-point and spin are finite and orthonormal with respect to the host's overlap operator up to rounding (which grows with the step length), provided the initial ones were.",
  ["inputs", "histories", "fault_sequences"],
  "every evaluation of every run of the bounded family, including the very long and very short steps provoked by host answers",
  NEVER + "orthonormality must survive every step length, overlap operator and number of bands.",
  ["src/geodesic.hpp", "src/la/lapack.hpp", "src/la/lapack_cpu.hpp", "src/overlap.hpp"],
  [("Loewdin orthogonalisation with the overlap", "src/la/lapack.hpp loewdin"),
   ("geodesic step", "src/geodesic.hpp")],
  ["host coefficient buffers at each energy evaluation"])

p("C08", "Result is independent of k-point distribution and rank scheduling",
  "For every way of distributing the k-points over the ranks of the k-point communicator, ranks without any k-point included, and for every interleaving of the ranks, the minimisation terminates without deadlock or mismatched collective calls, all ranks return the same result, and this result, the sequence of host evaluations and the step log equal those of the single-rank run up to rounding.",
  ["schedules", "configurations"],
  "all distributions of up to 4 k-points over up to 4 ranks; for each, all interleavings of the ranks' shared-file operations between collectives (exhaustive, or up to a stated preemption bound), communicator equal to or smaller than the world",
  "The only multi-rank tests print gathered integers and smearing sums on two ranks under one uncontrolled schedule; no minimisation is run.",
  ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/mpi/mpi_type.hpp", "src/smearing.hpp", "src/nlcglib.cpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/mvp2/descent_direction.hpp", "src/utils/step_logger.hpp"],
  [("allgather / allreduce over the k communicator", "src/mpi/communicator.hpp, src/la/mvector.hpp"),
   ("sum(..., commk) of slopes", "src/mvp2/descent_direction.hpp"),
   ("rank-0 step log, remove of the old log", "src/nlcglib.cpp, src/utils/step_logger.hpp")],
  ["per-rank results, host traces, nlcg.json"])

p("C09", "Gathers and reductions deliver every rank's data unchanged",
  "Gathering values, lists, keyed scalars or keyed arrays over a communicator gives every rank exactly the union of all ranks' contributions, bit for bit and under the right key, for every distribution including empty contributions and arrays of different or zero length, and for every supported element type (char, int, double, complex, pairs of these); sum, minimum and maximum reductions give every rank the reduction over all ranks. A communicator smaller than the one the data lives on is rejected with an error.",
  ["inputs", "configurations", "schedules"],
  "all assignments of up to 4 keys to up to 4 ranks, block lengths 0..3, all supported element types and reductions, all rank arrival orders",
  "test_mpi_wrapper prints results for one layout on two ranks and checks nothing.",
  ["src/mpi/communicator.hpp", "src/mpi/mpi_type.hpp", "src/la/mvector.hpp"],
  [("Communicator::allgather, allreduce", "src/mpi/communicator.hpp"),
   ("mpi_type<pair>", "src/mpi/mpi_type.hpp"),
   ("mvector::allgather, sum", "src/la/mvector.hpp")],
  ["buffers on all ranks after the call"])

p("C10", "Matrix products compute what they say for every shape and stride",
  "The host-memory products used by the minimiser (A^H B, A B^H, A B, scaled addition, scaling by a number or a per-column vector, trace inner product) return the mathematical result for every matrix shape, leading dimension and scalar factor; with a zero factor on the destination its previous contents, NaN included, have no influence. Inputs and memory outside the destination's elements are left unchanged, and row-strided or distributed operands are either handled correctly or rejected with an error.",
  ["inputs"],
  "all shapes m,n,k in a small range, leading dimensions with and without padding, all alpha/beta of a finite set including 0 and complex values, entries of a finite alphabet",
  "The unit tests compare two products for one shape each.",
  ["src/la/lapack_cpu.hpp", "src/la/lapack.hpp", "src/la/cblas.hpp"],
  [("inner, outer, transform, add", "src/la/lapack_cpu.hpp"),
   ("scale, innerh_tr, inner_, transform_alloc", "src/la/lapack.hpp"),
   ("geam", "src/la/cblas.hpp")],
  ["destination, inputs and padding after each call"])

p("C11", "Eigen-, Cholesky and Loewdin solvers are exact or report failure",
  "For every Hermitian matrix the eigensolver returns ascending eigenvalues and a unitary matrix of eigenvectors that reproduce the matrix and leaves its input unchanged; for every Hermitian positive-definite matrix and any number of right-hand sides the symmetric solver returns the solution; orthogonalisation returns the symmetric (Loewdin) orthonormalisation of its input with respect to the given overlap. Matrices these cannot handle (not positive definite, not finite) are reported by an error and never turned into a silent wrong answer; matrices that are singular within rounding may be solved or reported.",
  ["inputs"],
  "all Hermitian matrices of order 1..3 with entries of a small alphabet (singular, indefinite, degenerate, NaN ones included), plus structured families of larger order, with and without padding",
  "One random positive-definite system is solved by the tests; eigensolver and orthogonalisation are not tested on the CPU.",
  ["src/la/lapack_cpu.hpp", "src/la/lapack.hpp", "src/la/cblas.hpp"],
  [("eigh, solve_sym", "src/la/lapack_cpu.hpp"), ("loewdin", "src/la/lapack.hpp")],
  ["outputs, residuals, exceptions"])

p("C12", "Host buffers are accessed exactly as described, in the agreed order",
  "Every element the library reads from or writes to a host buffer is the one described by that buffer's pointer, sizes and strides, for the k-point it belongs to; padding and buffers the library only reads are never modified, and no padding value influences any result. Before each energy evaluation the new wave functions and the occupations of every local k-point have been transferred to the host, results are read only after it, and the operator callbacks are called only with existing k-points, correct sizes and disjoint host-memory input and output.",
  ["inputs", "configurations", "histories"],
  "all buffer layouts of a finite set (contiguous, padded columns, strided rows, row-major, strided vectors) for each host buffer, all problems and answer sequences of the bounded family; padding filled with NaN canaries",
  NEVER + "test_stride_dvector copies one strided matrix.",
  ["src/free_energy.hpp", "src/la/mvector.hpp", "src/la/dvector.hpp", "src/operator.hpp", "include/interface.hpp"],
  [("make_mmatrix, make_mmvector, make_mmscalar", "src/la/mvector.hpp"),
   ("as_buffer_protocol", "src/la/dvector.hpp"),
   ("FreeEnergy::compute", "src/free_energy.hpp"), ("applicator", "src/operator.hpp")],
  ["host callbacks and buffers"])

p("C13", "A minimisation does not depend on earlier calls in the same process",
  "The outcome of a minimisation (host evaluations, result and step log) is a function of its own arguments and host only: it is the same, bit for bit, whether it is the first call in the process or follows any sequence of earlier minimisations with other smearings, sizes, temperatures or parameters, converged, failed or ended by an exception.",
  ["histories"],
  "all sequences of up to 3 calls over an alphabet of minimisations with different outcomes",
  NEVER + "the property is about histories of calls.",
  ["src/nlcglib.cpp", "src/utils/logger.hpp", "src/csingleton.hpp", "src/utils/env.hpp", "src/utils/step_logger.hpp", "src/smearing.hpp"],
  [("state is local to the call; singletons only for logging and environment", "src/nlcglib.cpp, src/utils/logger.hpp"),
   ("old step log removed at start", "src/nlcglib.cpp")],
  ["traces, results and nlcg.json of each call compared with a fresh process"])

p("C14", "Search directions follow preconditioned conjugate gradients with restarts",
  "The sequence of states the host is asked to evaluate is that of the published algorithm: preconditioned steepest descent at the start, after every iteration whose index is a multiple of the user's restart interval, after a failed line search and when a conjugate direction is not a descent direction; otherwise Fletcher-Reeves conjugation of the wave-function and pseudo-Hamiltonian directions, rotated into the new eigenbasis and projected, with step lengths from the quadratic model with trial step 0.2.",
  ["inputs", "configurations", "histories", "fault_sequences"],
  "every evaluation of every run of the bounded family, compared in lock step with an independent reference implementation; all restart intervals 1..N and host answer deviations up to the bound",
  NEVER + "the direction update depends on the full history of the run.",
  ["src/nlcglib.cpp", "src/mvp2/descent_direction.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/mvp2.hpp", "src/geodesic.hpp", "src/linesearch/linesearch.hpp"],
  [("restarted / conjugated", "src/mvp2/descent_direction.hpp"),
   ("restart policy", "src/nlcglib.cpp nlcg_us"), ("rotation and projection", "src/mvp2/mvp2.hpp")],
  ["density matrices, occupations and slopes at each evaluation"])

p("C15", "The step log is complete, correct and belongs to this run only",
  "After a run the file nlcg.json holds exactly one JSON record per iteration reached, in order and numbered from 0, carrying that iterate's free energy, host energy and components, entropy term, slope and Fermi energy, and in every tenth record also the band energies and occupations of all k-points of all ranks under their k-point and spin index. The file never contains records of an earlier run, each record is complete in the file before the next line search evaluates the host, and only one rank writes it.",
  ["inputs", "histories", "crash_points", "schedules"],
  "all runs of the bounded family (0..35 iterations, all exits), every host evaluation taken as a point where the host may stop the process, consecutive runs, all k-point distributions",
  NEVER + "nothing reads the log.",
  ["src/utils/step_logger.hpp", "src/nlcglib.cpp"],
  [("StepLogger", "src/utils/step_logger.hpp"), ("cg_write_step_json, remove", "src/nlcglib.cpp")],
  ["nlcg.json at every host evaluation and at return"])

p("C16", "Each entry point runs the selected scheme or fails with a clear error",
  "The CPU entry points run the minimisation with exactly the smearing scheme, temperature, tolerance, preconditioning factor, step factor, iteration limit and restart interval they are given. Entry points that are unavailable in this build, unknown smearing values, non-positive temperatures, restart intervals below 1, electron numbers that do not fit the bands and buffers in device memory raise a C++ exception, never a crash or a silent result.",
  ["inputs", "configurations"],
  "all entry points x all smearing values incl. invalid ones x each parameter varied on its own and each invalid argument",
  NEVER + "no entry point is called by any test.",
  ["src/nlcglib.cpp", "include/nlcglib.hpp", "src/smearing.hpp", "src/la/mvector.hpp"],
  [("switch over smearing types", "src/nlcglib.cpp"), ("argument checks", "src/smearing.hpp, src/la/mvector.hpp")],
  ["return value, exception, host trace"])

p("C17", "Free energy is host energy plus the smearing entropy term",
  "Every free energy that is compared, logged or returned equals the total energy the host reports for that evaluation plus the entropy term, and the entropy term equals minus kT times the weighted sum over all k-points, spins and bands of the selected scheme's entropy function at (chemical potential - band energy)/kT; the logged host energy, energy components and Fermi energy are those the host reports for the same state.",
  ["inputs", "configurations", "fault_sequences"],
  "every evaluation and log record of every run of the bounded family; all smearings, occupancies, weights",
  NEVER + "a wrong weight, factor or stale value shows only for particular weights, spins or histories.",
  ["src/free_energy.hpp", "src/smearing.hpp", "src/nlcglib.cpp"],
  [("FreeEnergy::compute", "src/free_energy.hpp"), ("Smearing::entropy", "src/smearing.hpp")],
  ["nlcg.json, returned record, accept/reject decisions"])

p("C18", "A converged run has reached the minimum of the free energy",
  "With an honest host and positive-definite overlap and preconditioner, a run that reports convergence ends in a self-consistent minimum: the final wave functions span the lowest eigenstates of the host's Hamiltonian, occupations and chemical potential are those of the smeared spectrum, and for a fixed Hamiltonian the free energy equals the exact minimum, to an accuracy set by the tolerance. For well-conditioned problems (level spacings comparable to kT, so that no occupation saturates at a wrong filling) the run does converge within the iteration limit.",
  ["inputs", "configurations"],
  "all problems of a bounded family: sizes, k-points, weights, spins, overlaps, preconditioners, smearings with exact entropy, temperatures, metals and insulators, energy shifts",
  NEVER + "convergence to the right point depends on every ingredient for every problem.",
  ["src/nlcglib.cpp", "src/mvp2/mvp2.hpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/geodesic.hpp"],
  [("CG loop and convergence test", "src/nlcglib.cpp")],
  ["final host state vs exact diagonalisation"])

p("C19", "Multi-k expressions evaluate each k-point with its own operands",
  "An expression over collections of per-k-point values evaluates the given function exactly once per evaluation for each key of the first operand, with the values stored under the same key in the other operands, whatever keys those hold in addition; missing keys raise an error. Results, products, sums, copies, element-wise splits and lookups carry the right value under the right key, copies share no memory with their source, assigning one collection to another replaces the values key by key, and deferred evaluation gives the same values as immediate evaluation.",
  ["inputs", "programs"],
  "all key sets over a small key alphabet for up to 3 operands, all orders of insertion, immediate and deferred evaluation",
  "test.cpp and test_threaded evaluate one expression and print it.",
  ["src/la/mvector.hpp", "src/la/utils.hpp", "src/traits.hpp"],
  [("tapply, tapply_async, tapply_op", "src/la/utils.hpp"), ("eval_threaded, unzip, copy, sum, operator*", "src/la/mvector.hpp")],
  ["values under each key"])

p("C20", "Order and labels of the host's k-points do not matter",
  "Permuting the order in which the host enumerates its k-points and spins, independently for each buffer, or relabelling them with other index pairs (negative, large or sparse ones included) leaves the minimisation unchanged up to rounding, with results transferred and logged under the corresponding labels. Splitting a k-point into two copies with half the weight each leaves all energies, slopes and occupations unchanged.",
  ["inputs", "configurations"],
  "all permutations of up to 4 k-points per buffer, all labellings of a finite set, all single splits",
  NEVER + "symmetry under relabelling has to hold for every permutation.",
  ["src/la/mvector.hpp", "src/free_energy.hpp", "src/la/utils.hpp", "src/smearing.hpp"],
  [("keyed containers", "src/la/mvector.hpp"), ("set_fn with explicit keys", "src/free_energy.hpp")],
  ["host trace and nlcg.json"])

p("C21", "The progress report agrees with the minimisation",
  "When a run returns, nlcg.out is complete and belongs to this run only: it starts with the parameters the run uses (temperature, smearing, iteration limit, tolerance, kappa, tau, restart interval, number of electrons), has one line per iteration reached, in order, with its free energy and slope followed by entropy term, Fermi energy and host energy, and ends with NLCG SUCCESS and the final energies exactly when the result is converged, and with an error line when the run gave up before the iteration limit. The iteration lines and the closing lines of a converged run also go to standard output, once and with the same values; the host is asked to print its own information once per reported iteration. Only the first rank of the world communicator prints.",
  ["inputs", "histories", "schedules", "fault_sequences"],
  "all runs of the bounded family (all exits, limits, tolerances, parameter values, deviating hosts, old reports present), all k-point distributions, positions of the k-point communicator in the world communicator and interleavings of the ranks' file operations",
  NEVER + "nothing reads the report; errors show only for particular exits, ranks or earlier calls.",
  ["src/nlcglib.cpp", "src/utils/logger.hpp"],
  [("print_info, closing messages", "src/nlcglib.cpp"), ("Logger", "src/utils/logger.hpp")],
  ["nlcg.out and standard output at return, calls of the host's print_info"])

p("C22", "No run touches memory it does not own or depends on fresh memory",
  "No minimisation, whatever the sizes, layouts, k-point distribution, host answers, exit or error path and earlier calls, reads or writes outside allocated objects, uses freed memory or expired locals, dereferences null or executes other undefined integer or index operations; and the contents that freshly allocated heap or stack memory happens to have never influence an evaluation, the result or the log.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all runs of the bounded family incl. error paths, host exceptions at every evaluation, buffer layouts, square and single-band problems, pairs of calls, distributions over 2..7 ranks; four different contents of fresh memory",
  NEVER + "a stray access is usually silent and depends on sizes, layouts and history.",
  ["src/la/mvector.hpp", "src/la/dvector.hpp", "src/la/lapack_cpu.hpp", "src/mpi/communicator.hpp", "src/smearing.hpp", "src/mvp2/mvp2.hpp", "src/nlcglib.cpp"],
  [("views allocated WithoutInitializing", "src/la, src/mvp2, src/smearing.hpp"), ("deferred per-k expressions", "src/la/mvector.hpp"), ("packed gathers", "src/la/mvector.hpp allgather")],
  ["address and undefined-behaviour monitor on every execution; digest of evaluations, result and log"])

p("C23", "A call leaves no resources behind",
  "Repeating a minimisation does not accumulate anything: however it ends (converged, iteration limit, failed search, rejected argument, exception from the library or from the host at any evaluation), the heap memory, open files, MPI datatypes and communicators it acquired are released, apart from caches of bounded size, on every rank; communicators and predefined datatypes that belong to the host are never freed, and no MPI datatype is used uncommitted or after it was freed.",
  ["histories", "inputs", "fault_sequences"],
  "all runs of the bounded family, host exception at every evaluation, alternating pairs of calls, all distributions over 2..3 ranks, each repeated five times in one process",
  NEVER + "a leak is invisible in a single call and fatal only after many.",
  ["src/mpi/mpi_type.hpp", "src/mpi/communicator.hpp", "src/utils/logger.hpp", "src/utils/step_logger.hpp", "src/nlcglib.cpp"],
  [("mpi_type of pairs", "src/mpi/mpi_type.hpp"), ("Logger::attach_file_master", "src/utils/logger.hpp")],
  ["live heap, descriptors and MPI objects after each repetition"])

p("C24", "Operators and the Teter preconditioner act per k-point on exactly the operand",
  "Applying the overlap operator or the ultrasoft preconditioner of a k-point to a matrix of any shape, stride and memory layout calls the host's operator exactly once per evaluation, for that k-point, with buffers that describe the operand and a separate result in host memory, leaves the operand unchanged and returns exactly what the host wrote; iterating over an operator visits each of the host's k-points once, in the host's order, and none if it has none. The Teter preconditioner multiplies every row by 1/(1+16x^4/(27+18x+12x^2+8x^3)) of that row's and k-point's kinetic energy x, a finite falling number in (0,1], out of place or in place, touching nothing else.",
  ["inputs", "configurations"],
  "all shapes up to 4x4, 9 memory layouts, 0..5 k-points with 3 label sets, 5 ways of application, 2 ways of iteration; kinetic energies on a dense grid and all powers of two up to 2^160",
  NEVER + "no test applies an operator or the preconditioner; errors show only for particular strides or k-point lists.",
  ["src/operator.hpp", "src/overlap.hpp", "src/ultrasoft_precond.hpp", "src/preconditioner.hpp"],
  [("applicator, op_iterator", "src/operator.hpp"), ("PreconditionerTeter", "src/preconditioner.hpp")],
  ["calls received by a recording host operator, results, memory around operands"])

p("C25", "Host adaptors, matrix copies, layouts and helpers preserve contents",
  "Matrices made from host buffers refer to exactly the described elements, for every size, stride, order and label of the k-points, in both directions; vectors and scalars are copied with their strides; buffers that are not in host memory are rejected. Copies, mirrors and copied collections have the shape and values of their source and share no memory with it, new and zeros-like matrices are zero, handles share memory, buffer descriptions of a matrix address its elements. Slab layouts add up their blocks' rows and reject blocks that do not fit. The helpers for equidistant points, flattening and text formatting return what they say for every length.",
  ["inputs", "configurations"],
  "all shapes up to 4x4 (5 rows), 9 layouts, up to 3 k-points in all orders with 3 label sets; all lists of up to 3 blocks; text lengths 0..299",
  NEVER + "the existing tests look at single contiguous matrices.",
  ["src/la/dvector.hpp", "src/la/mvector.hpp", "src/la/layout.hpp", "src/la/map.hpp", "src/la/utils.hpp", "src/helper/funcs.hpp", "src/utils/format.hpp"],
  [("make_mmatrix, make_mmvector, make_mmscalar", "src/la/mvector.hpp"), ("KokkosDVector, deep_copy, as_buffer_protocol", "src/la/dvector.hpp"), ("SlabLayoutV", "src/la/layout.hpp")],
  ["element values, addresses and memory around the elements"])

p("C26", "Process state of the host is untouched, and the process can end cleanly",
  "Between initialize() and finalize() a host may call the library any number of times, with calls ending in any way; neither these two nor any minimisation changes process-wide state that belongs to the host: locale, floating-point rounding and traps, signal handlers and mask, working directory, file-mode mask, environment, formatting and buffers of the standard streams, terminate and new handlers, resource limits, threads, child processes, priority, sequences of random numbers, and files of the working directory other than nlcg.json and nlcg.out. After finalize() the process ends normally: no crash, abort, non-zero status or message on standard error.",
  ["histories", "inputs", "fault_sequences"],
  "one process per case: all exits of the bounded family, the entry points, pairs and triples of calls of different kinds, no call at all",
  NEVER + "tests end with the process of the test runner and do not look at its state.",
  ["src/nlcglib.cpp", "src/utils/logger.hpp", "src/utils/step_logger.hpp", "src/csingleton.hpp", "src/smearing.hpp"],
  [("initialize, finalize", "src/nlcglib.cpp"), ("static objects", "src/csingleton.hpp, src/utils/logger.hpp")],
  ["snapshots of the process state around every library call, exit status and standard error of the process"])

p("C27", "The self-check of the overlap operators reports true numbers",
  "nlcheck_overlap(E, S, Sinv) reports on standard output the norm of the wave functions X, the norm of S X, the trace of X^H S X and the norm of Sinv S X - X, each over all k-points (or all k-points of the rank), for any pair of operators: the last is zero up to rounding exactly if the second operator inverts the first on X. It makes no energy evaluation and leaves wave functions, occupations and chemical potential as they are, for every size, k-point list, memory layout and distribution.",
  ["inputs", "configurations", "schedules"],
  "8 sizes and 9 larger ones, 6 layouts, 6 kinds of second operator (inverse, identity, twice the inverse, zero, inverse of another operator, the first operator), all distributions of up to 4 points over 2..4 ranks",
  NEVER + "it is meant to reveal wrong operators, so it must not report zero for one of them.",
  ["src/nlcglib.cpp", "src/overlap.hpp", "src/operator.hpp", "src/la/lapack.hpp"],
  [("check_overlap, nlcheck_overlap", "src/nlcglib.cpp"), ("l2norm, innerh_reduce", "src/la/lapack.hpp")],
  ["printed numbers against exact matrix products, host calls"])

p("C28", "The log writers put exactly what was logged where it was asked for",
  "Whatever the sequence of operations: the text logger writes every item, once, in order and preceded by the current prefixes, to the attached file (of every rank, or of the first rank only) and on the first rank to standard output exactly while this is not detached, items sent after TO_STDOUT in any case; attaching another or the same file starts it empty and leaves no earlier text in it, the earlier file keeps its text; after flush() the file holds everything. The step logger appends, when it ends, one JSON record to the file it was given, with type, step number and every logged value (scalars, maps, arrays per k-point whatever their memory layout, numbers unchanged, last value of a key, arrays of one key collected), leaves earlier records as they are, and writes nothing if it is inactive.",
  ["histories", "inputs"],
  "all sequences of up to 4 of 19 operations of the text logger on 3 ranks (longer for smaller alphabets, thorough up to 5 and 7); all sequences of up to 3 of 18 operations of the step logger x 4 file names x 3 ways of activation; up to 3 records in all combinations of files",
  NEVER + "no test writes a log.",
  ["src/utils/logger.hpp", "src/utils/step_logger.hpp", "src/csingleton.hpp"],
  [("Logger", "src/utils/logger.hpp"), ("StepLogger", "src/utils/step_logger.hpp")],
  ["contents of all files and of standard output against a model of the writers"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
