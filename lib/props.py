"""The properties; gen.py writes properties.jsonl and MANIFEST.json from this and registry.py."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique=None, note=None, na=None):
    P.append(dict(
        d=dict(id=id, title=title, statement=statement,
               quantifier=dict(over=list(over), text=text),
               why_tests_cant=why,
               anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                            mechanism=[dict(name=a, where=b) for a, b in mech],
                            observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note, na=na))


T_STATELESS = "stateless exhaustive exploration (DFS over every choice sequence) of the real code against a reference model"
N_BASE = ("Every execution in the stated finite space is run on the code compiled from the working tree "
          "(with AddressSanitizer and libstdc++ assertions unless noted); nothing is sampled. Trusted: the reference "
          "model in the harness, the explorer, the compiler, MFEM/hypre/MPI as installed. Values outside the "
          "enumerated alphabets and bounds are not covered.")

prop("C01", "Saved states are read back exactly",
     "A state saved by the ASCII or the binary logger for a (field, timestep, rank) is read back with the same number of entries and with every entry and the time equal to what was saved, for all finite and non-finite doubles and all sizes including zero; ParaView output accepts every saved step. The value read is the last one saved under that key, whatever other fields, timesteps and ranks were saved before or after, and saving never changes the vector that is saved.",
     ["inputs", "histories"], "all histories of saves and reads over a key/payload alphabet up to a depth; all special doubles; all sizes up to a bound",
     "The unit tests write and read one vector under one key; collisions between keys, overwrites by longer or shorter data and unusual doubles need every history.",
     ["src/common/data_logging.hpp"], [("one file per (field, timestep, rank) key, written in full on each save", "src/common/data_logging.hpp")],
     ["ASCIILogger::saveState/readState", "BinaryLogger::saveState/readState", "ParaViewLogger"])

prop("C02", "The backtracking line search keeps its contract for every merit function",
     "The backtracking line search first evaluates the given step, returns the step it evaluated last and only if the sufficient-decrease condition phi(a) <= phi(0) + mu*a*phi'(0) holds there, and returns zero exactly when all max_iter+1 trials failed; a NaN or infinite merit value is never accepted. Every later trial lies in [rho_lo, rho_hi] times the previous trial, and for a descent direction it is the minimiser of the quadratic (first backtrack, or interpolation order 2) or cubic model through phi(0), phi'(0) and the last one or two trials, clamped to that range.",
     ["inputs", "histories"], "every sequence of merit-function answers (acceptable, marginal, failing, huge, infinite, NaN) up to a depth, for every option setting of an alphabet; polynomial merit functions of degree up to 4",
     "The existing test evaluates the slope of one function; acceptance and safeguarding depend on the whole sequence of answers.",
     ["src/common/linesearch.cpp", "src/common/linesearch.hpp"], [("BacktrackingLineSearch::search", "src/common/linesearch.cpp"), ("quadratic_interp/cubic_interp", "src/common/linesearch.cpp")],
     ["BacktrackingLineSearch::search"])

prop("C03", "Line-search Newton steps, options and convergence reports are right",
     "The merit function used by line-search Newton is the norm of the residual along the search line, with the exact value and slope at zero, and evaluating it changes neither the state nor the direction. Newton with a line search obeys the configured line-search options (type, mu, rholo, rhohi, interp-order, maxiter, defaults when absent) and refuses unknown types; it only accepts steps that satisfy the sufficient-decrease condition, reports convergence exactly when the residual (with right-hand side) is below the tolerance, and keeps the last accepted iterate when the line search fails.",
     ["inputs", "histories", "configurations"], "nonlinear systems of 1-3 unknowns x option settings x exact, scaled, rotated and reversed directions x starting points x right-hand sides x tolerances",
     "The test checks one Rosenbrock slope; option mapping and acceptance show only over complete solves with imperfect directions.",
     ["src/common/linesearch.cpp", "src/common/relaxed_newton.cpp"], [("Phi", "src/common/linesearch.cpp"), ("RelaxedNewton::ComputeScalingFactor", "src/common/relaxed_newton.cpp"), ("createLineSearch", "src/common/relaxed_newton.cpp")],
     ["Phi", "RelaxedNewton::Mult"])

prop("C04", "Inexact Newton only accepts steps with sufficient residual reduction",
     "Inexact Newton first tries the full step, accepts a step only if the residual norm drops by at least the factor 1 - t/2 (and always accepts a step that drops it by 1 - t), never accepts a NaN residual, and shortens rejected steps by factors between 0.1 and 0.5, the first of which minimises the quadratic model built from the residual norms and the true slope of the merit function. It reports convergence exactly when the residual (with right-hand side) meets max(rel*initial, abs), reports the true final norm and iteration count, and fails loudly when more than max_iter backtracks would be needed.",
     ["inputs", "histories", "configurations"], "nonlinear systems of 1-3 unknowns x directions x starting points x right-hand sides x tolerances x iteration limits",
     "No test of this solver is part of the build; the globalisation only shows with directions that need backtracking.",
     ["src/common/inexact_newton.cpp", "src/common/inexact_newton.hpp", "src/utils/utils.cpp"], [("ComputeStepSize", "src/common/inexact_newton.cpp"), ("quadInterp", "src/utils/utils.cpp")],
     ["InexactNewton::Mult"])

prop("C05", "The k-d tree always returns a nearest point",
     "For every non-empty point set and every query, the k-d tree reports the Euclidean distance to a nearest stored point and the index that was given with such a point, independently of insertion order, duplicates, collinear or coincident coordinates and of earlier queries. A query on an empty tree throws.",
     ["inputs", "histories"], "all sequences of up to 7 points on coordinate grids in 1-3 dimensions, three ways of construction, every query of a grid; structured sets of up to 257 points",
     "No test exercises the tree; pruning errors show only for particular arrangements of points and query.",
     ["src/utils/kdtree.hpp"], [("kdtree::nearest branch-and-bound", "src/utils/kdtree.hpp"), ("make_tree", "src/utils/kdtree.hpp")],
     ["kdtree::nearest", "kdtree::distance"])

prop("C06", "SBP elements satisfy the summation-by-parts conditions",
     "Every SBP element (segments and triangles of degree 0-4, tetrahedra of degree 0-1) has a positive norm that integrates polynomials up to twice its degree, difference operators exact for polynomials up to its degree, and weak operators with Q+Q^T equal to the exact (for all but the 3-node triangle: diagonal) boundary operator; the local projection removes exactly those polynomials, and every accessor, matrix-free product, transpose, metric-weighted entry and reverse derivative agrees with the matrices. Basis functions are nodal at the nodes and reproduce polynomials up to the degree at every point of the element; gradients at nodes are rows of the difference operator; asking for the gradient or index of a point that is not a node is refused.",
     ["inputs", "configurations"], "all 12 elements x all directions x all monomials up to the degree x all node pairs x metric terms x a grid of evaluation points",
     "These are identities over all entries of large tables; the test for them is not built here and samples degree and direction.",
     ["src/common/sbp_fe.cpp", "src/common/sbp_fe.hpp", "src/common/data/sbp_operators.hpp"], [("operator tables", "src/common/data/sbp_operators.hpp"), ("SBPFiniteElement", "src/common/sbp_fe.cpp")],
     ["SBPFiniteElement accessors", "CalcShape/CalcDShape"])

prop("C07", "SBP collections give conforming spaces for every mesh orientation",
     "On every segment, triangle or tetrahedral mesh, whatever its vertex numbering and element and boundary orientations, a continuous SBP space gives each degree of freedom one physical location: the same from every element, boundary element and face that contains it, with no two degrees of freedom at the same location. A discontinuous SBP space shares none, and unsupported degrees or dimensions are refused.",
     ["inputs", "configurations"], "all vertex and element numberings of two-element meshes, all flips of segment chains, structured and refined meshes, all degrees",
     "Orientation errors appear only for particular relative orientations and degrees of neighbouring elements.",
     ["src/common/sbp_fe.cpp", "src/common/sbp_fe.hpp"], [("SBPCollection/DSBPCollection DofOrderForOrientation", "src/common/sbp_fe.cpp"), ("node ordering of the elements", "src/common/sbp_fe.cpp")],
     ["mfem::FiniteElementSpace over SBPCollection"])

prop("C08", "Orthogonal polynomials and Lobatto rules are exact",
     "Jacobi polynomials are the orthonormal ones for every degree and every alpha, beta > -1 with alpha+beta != -1; the Vandermonde matrices of the segment, triangle and tetrahedron have orthonormal columns that span the polynomials of the given degree, also at the vertices and edges where collapsed coordinates are singular. Legendre-Gauss-Lobatto rules are increasing, symmetric, positive, contain the end points and integrate degree 2n-3 exactly.",
     ["inputs"], "alpha and beta alphabets x degrees up to 12; degrees up to 8 in 1-3 dimensions; 2-41 Lobatto nodes",
     "No test covers them; errors at particular degrees, parameters or singular points stay invisible otherwise.",
     ["src/common/orthopoly.cpp", "src/common/orthopoly.hpp"], [("three-term recurrences", "src/common/orthopoly.cpp")],
     ["jacobiPoly", "prorioPoly", "getVandermonde*", "getLobattoQuadrature"])

prop("C17", "Euler states and fluxes are consistent, conservative and entropy conservative",
     "For admissible states in 1D-3D: entropy and conservative variables are the gradient of the entropy -rho s/(gamma-1) and its inverse map; pressure, its derivative, spectral radius, entropy, the affine entropy (zero exactly at its reference state, otherwise positive) and dq/dw (symmetric positive definite, the derivative of that map) are those of a perfect gas. Every two-point flux equals the Euler flux for equal states. The Roe flux is the mean flux plus half the absolute Roe matrix (eigenvalues limited to 2.5% of the spectral radius) times the jump, and cancels with the flux seen from the other side. The Ismail-Roe flux is symmetric, linear in the direction and satisfies Tadmor's condition; with dissipation it never produces entropy of the wrong sign. Boundary and far-field fluxes are upwinded with the Jacobian at the boundary state, the entropy-constrained one attains the given entropy flux by a change along A0 w, a slip wall passes only pressure, wall projection removes just the normal momentum. Versions for entropy variables agree with those for conservative ones, derivatives from the AD wrappers with the functions. The free stream has the requested Mach number, the vortex is an exact steady solution, and the manufactured source is the flux divergence of the manufactured solution. Inputs are never changed.",
     ["inputs"], "a product grid of densities, pressures and velocities (sub- to supersonic, near-equal and far states), paired with a second state, directions of several lengths, dissipation/entropy-flux/control values; grids of points for the exact solutions",
     "No test in the build reaches these templates; an error often shows only for one dimension, wave direction, sign, non-unit normal or set of variables.",
     ["src/physics/fluidflow/euler_fluxes.hpp"],
     [("flux functions", "src/physics/fluidflow/euler_fluxes.hpp")],
     ["calcRoeFaceFlux", "calcIsmailRoeFlux", "calcBoundaryFlux", "calcdQdWProduct", "calcInviscidMMS", "convertVarsJac"])

prop("C19", "Root finders return a root or fail loudly",
     "For every function, bisection evaluates only inside the given bracket, refuses end values that do not bracket a root (or are NaN), and returns a point where |f| <= ftol or that lies within xtol of a sign change; it throws when maxiter subdivisions are not enough, and returns a root that lies at an end point. The secant method starts from its two approximations, follows the secant iteration, stops as soon as |f| <= ftol or the increment is at most xtol, never returns a point where neither holds, and throws after maxiter iterations. The quadratic interpolant's stationary point is exact.",
     ["inputs", "histories"], "every sequence of function values from an alphabet (including NaN and infinity) for every bracket, tolerance and iteration limit of an alphabet; families of analytic functions",
     "Failures appear only for particular sequences of function values, such as a root at an end point or slow convergence; no test covers them.",
     ["src/utils/utils.cpp", "src/utils/utils.hpp"], [("bisection", "src/utils/utils.cpp"), ("secant", "src/utils/utils.cpp"), ("quadInterp", "src/utils/utils.cpp")],
     ["bisection", "secant", "quadInterp"])

prop("C20", "Reconstruction operators reproduce polynomials optimally",
     "For every stencil whose points determine the polynomials of the requested degree, the minimum-norm (1D, 2D) and the least-squares (1D-3D) reconstruction operators reproduce every polynomial up to that degree at every evaluation point and equal the minimum-norm solution of the reproduction conditions (which is also the least-squares fit); the operator has one row per evaluation point and one column per stencil point. The minimum-norm operator refuses other dimensions.",
     ["inputs"], "all enumerated stencils, centres, degrees, evaluation points and offsets",
     "An error in one monomial or one offset only shows on stencils and points that excite it; no test in the build covers them.",
     ["src/utils/utils.cpp", "src/utils/utils.hpp"], [("buildInterpolation / buildLSInterpolation", "src/utils/utils.cpp")],
     ["buildLSInterpolation", "buildInterpolation"])

prop("C21", "Boundary markers and the annulus mesh match their description",
     "A boundary specification (\"all\", \"none\" or a list of attributes, in any order and with repetitions) yields a marker with exactly those attributes set, whatever the marker held before; any other value and any attribute outside of the mesh is refused and no other memory is touched. The quarter-annulus mesh has 2*num_rad*num_ang valid (positively oriented) triangles with a continuous mapping of the requested degree whose nodes are exactly the polar images of the lattice points on r in [1,3], theta in [0,pi/2]; its four sides carry their own attributes, and a perturbation moves interior vertices only, by at most the given fraction of a cell, for every outcome of the random source.",
     ["inputs", "histories", "configurations"], "all attribute lists up to length 4 over in- and out-of-range values for up to 4 attributes, all JSON kinds, sequences of three calls; degree x num_rad x num_ang x perturbation x values of the random device",
     "A marker that is wrong for one list or size silently moves a boundary condition; mesh errors appear only for certain sizes.",
     ["src/utils/utils.cpp", "src/utils/utils.hpp"], [("getMFEMBoundaryArray/attrVecToArray", "src/utils/utils.cpp"), ("buildQuarterAnnulusMesh", "src/utils/utils.cpp")],
     ["getMFEMBoundaryArray", "attrVecToArray", "buildQuarterAnnulusMesh"],
     note="std::random_device is replaced by the explorer.")

prop("C10", "Time integrators advance M du/dt + R(u,t) = 0 as their name promises",
     "A step of a FirstOrderODE with integrator RK1, RK4, MIDPOINT, PTC (backward Euler), RRK/RRKMIDPOINT or RRK6 advances the state of M du/dt + R(u,t) = 0 exactly as the named scheme prescribes, for every mass matrix kind (none, diagonal or full parallel matrix, block operator with Jacobian-free Newton) and either Newton solver, evaluating the residual only at its stage times. The plain schemes advance time by dt and the relaxation schemes by gamma*dt, where gamma is the root near one of the discrete entropy balance, which the accepted step satisfies; dt itself is not changed. A steady step starts from the given state and returns the nonlinear solver's solution. Unsupported mass matrix and Jacobian combinations, deprecated options and unknown integrator names are refused, the latter with a message that names them.",
     ["inputs", "histories", "configurations"], "integrators x systems of 1-3 unknowns (linear, quadratic, forced) x 5 mass kinds x sparsity patterns x Newton solvers x entropies x start times x initial states x sequences of steps with different dt",
     "The time integration tests are not part of the build and check one scalar or small system; stage times, mass handling, relaxation and the order show only over products of scheme, mass and system.",
     ["src/common/ode.cpp", "src/common/ode.hpp", "src/common/mfem_extensions.cpp"],
     [("FirstOrderODE::solve / TimeDependentResidual", "src/common/ode.cpp"), ("RRKImplicitMidpointSolver, ExplicitRRKSolver, PseudoTransientSolver, SteadyODESolver", "src/common/mfem_extensions.cpp")],
     ["FirstOrderODE::step"])

prop("C11", "The space-time residual and its wrappers evaluate M du/dt + R(u + dt du/dt, t)",
     "After any sequence of setting state, slope, dt and time, a TimeDependentResidual evaluates M k + R(u + dt k, t), where k is the given slope, the unknown handed in by the nonlinear solver, or the last slope that was set, and returns the Jacobian M + dt dR/du at that point (the mass matrix if dt is zero) for every supported mass matrix kind (for block mass operators as a Jacobian-free operator); unsupported combinations are refused. Inputs, options, entropy, entropy change, supply rate and preconditioner requests reach the spatial residual with the values given. FirstOrderODE's explicit and implicit slopes solve these equations and depend on nothing but state, time and dt; ODESystemOperator evaluates its residual and Jacobian at (x + dt k, k). Input vectors are never modified.",
     ["inputs", "histories", "configurations"], "all operation sequences up to a depth over a 9-operation alphabet x systems x mass kinds x sparsity patterns",
     "The order of setInputs, evaluate and getJacobian calls is decided by the Newton solver and the integrator at run time; tests cover one order.",
     ["src/common/ode.cpp", "src/common/ode.hpp", "src/common/evolver.cpp", "src/common/evolver.hpp"],
     [("TimeDependentResidual", "src/common/ode.cpp"), ("ODESystemOperator", "src/common/evolver.cpp")],
     ["TimeDependentResidual", "FirstOrderODE::Mult/ImplicitSolve", "ODESystemOperator"])

prop("C12", "The abstract solver drives options, time loop, solves and logging correctly",
     "A solver's options are the defaults overwritten (merge patch) by the user's, later updates merge deeply, and neither the defaults nor another solver's options change. An unsteady solve starts at t-initial, takes steps of the size calcStepSize gives (cut to hit t-final exactly unless exact-t-final is false), stops when t-final is reached or after max-iter steps, and runs each hook once with the step count, time and state that belong together; loggers that asked for it save under timestep k the state after k steps and its time. A steady solve starts Newton from the given state; residuals and their l2 norm, state error, state setting and the adjoint solve are those of the spatial residual with the given inputs, and the caller's right-hand side is not modified; unsteady adjoints are refused.",
     ["inputs", "histories", "configurations"], "pairs of option documents x updates; time grids x integrators x step-size rules x iteration limits x logger flags; systems x starting points x inputs x adjoint solvers",
     "The driver has no test in the build; early exits, partial last steps and flag combinations show only over the product.",
     ["src/common/abstract_solver.cpp", "src/common/abstract_solver.hpp", "src/common/default_options.cpp"],
     [("solveForState, hooks, calcStepSize, iterationExit", "src/common/abstract_solver.cpp"), ("solveForAdjoint", "src/common/abstract_solver.cpp")],
     ["AbstractSolver2::solveForState", "AbstractSolver2::solveForAdjoint", "AbstractSolver2::setOptions", "AbstractSolver2::calcResidualNorm"])

prop("C13", "Outputs, derivative products and the residual/output wrappers do what was asked of them",
     "After any history of creating outputs, changing options and requesting values, partials and Jacobian products, each request is answered by the output of that name with the last options and inputs it was given: scalar and vector values are returned, derivative contributions are added to what the caller passed; unknown names, duplicates and derivatives an output does not provide are refused without touching the result or any other output. Products with the residual's Jacobian reach the spatial residual and are refused for unsteady problems. A MISOResidual or MISOOutput passes every operation, with its arguments, to the object it wraps, survives moves, and refuses to be unwrapped as another type.",
     ["inputs", "histories"], "all histories of 10 operations on 4 kinds of outputs up to a depth, from 4 starting registries; all sequences of derivative products; all sequences of wrapper operations",
     "Accumulation and name lookup errors depend on the history of calls; there is no test of the registry.",
     ["src/common/abstract_solver.cpp", "src/common/miso_residual.hpp", "src/common/miso_output.hpp"],
     [("createOutput, calcOutput, calcOutputPartial, output*Product", "src/common/abstract_solver.cpp"), ("type erasure", "src/common/miso_residual.hpp, src/common/miso_output.hpp")],
     ["AbstractSolver2::calcOutput*", "AbstractSolver2::*Product", "MISOResidual", "MISOOutput"])

prop("C14", "Named inputs and the small vector helpers deliver exactly what was given",
     "Reading a named input sets the value or vector to what was stored under that name - shallow reads refer to the caller's data, deep reads to an independent copy - and leaves the target unchanged when the name is absent, unless an error was asked for; a name that holds the other kind of input is refused. The inputs themselves never change. Elementwise products, quotients and inverses are those of IEEE arithmetic for all entries, in place or not; fixed-size dot products and the squared exponential are exact up to rounding; type dispatch calls exactly the first function that takes the stored type; only an unsilenced root rank prints; wrapped buffers share their memory.",
     ["inputs", "histories"], "all histories of reads over 4 names up to a depth, for 3 ways of building the inputs, sizes 0-3 and initial targets; all pairs of special values; all stored types x function orders",
     "Aliasing versus copying and stale targets only show over histories; no test covers these helpers.",
     ["src/physics/miso_input.cpp", "src/physics/miso_input.hpp", "src/utils/utils.cpp", "src/utils/utils.hpp"],
     [("setValueFromInputs/setVectorFromInputs", "src/physics/miso_input.cpp"), ("useAny", "src/utils/utils.hpp")],
     ["setValueFromInputs", "setVectorFromInputs", "multiplyElementwise", "useAny", "getOutStream"])

prop("C16", "Operators, preconditioners and solvers do what they are configured for",
     "A sum of operators applies a A + b B for all coefficients (zero included) and shapes, whatever its result vector held before, and refuses operators of different sizes. A Jacobian-free operator applies scale*J(u) x plus its explicit part to finite-difference accuracy at the state it was given last, keeps its own copy of that state, and its diagonal blocks are scale*J_ii plus the explicit block, or are refused when the types do not fit. The block-Jacobi preconditioner applies (or applies the transpose of) each block's solver, the identity for unset blocks, hands each block its diagonal operator, and deletes its blocks exactly if it owns them. Linear and nonlinear solvers constructed from options behave bit for bit like the named MFEM or hypre solver with these tolerances, limits, subspace size, preconditioner and forcing parameters; unknown types and unusable preconditioners are refused.",
     ["inputs", "histories", "configurations"], "all operation histories up to a depth over coefficient, shape, block-structure and state alphabets; the product of all solver options",
     "No test covers these classes; stale results, zero coefficients and option combinations need the product of histories and configurations.",
     ["src/common/matrix_operators.cpp", "src/common/matrix_operators.hpp", "src/common/mfem_extensions.cpp"],
     [("SumOfOperators, JacobianFree", "src/common/matrix_operators.cpp"), ("BlockJacobiPreconditioner, constructLinearSolver, constructNonlinearSolver", "src/common/mfem_extensions.cpp")],
     ["SumOfOperators::Mult", "JacobianFree::Mult/getDiagonalBlock", "BlockJacobiPreconditioner", "constructLinearSolver", "constructNonlinearSolver"])

prop("C18", "Viscous fluxes, boundary penalties and viscous exact solutions agree with the Navier-Stokes equations",
     "For every admissible state, direction and derivative in 2D and 3D, the viscous flux obtained by applying the viscous scaling matrices to the entropy-variable derivatives is the Newtonian stress and Fourier heat flux of the corresponding velocity and temperature gradients; the wall adjoint flux, the adiabatic and isothermal no-slip penalties and dual fluxes are the ones the flux and the wall condition imply; Sutherland's law, the viscous shock, the viscous manufactured solutions and their source terms satisfy the equations they are exact solutions of, and derivatives the code provides are the derivatives of these functions. Nothing reads or writes outside of the vectors handed in.",
     ["inputs"], "grids of states x derivatives x directions x parameters for each dimension; points for exact solutions",
     "Tensor formulas with swapped indices, viscosity or conductivity factors agree on the symmetric points a test would choose; there is no viscous test in the build.",
     ["src/physics/fluidflow/navier_stokes_fluxes.hpp", "src/physics/fluidflow/euler_fluxes.hpp"],
     [("applyViscousScaling, applyCijMatrix", "src/physics/fluidflow/navier_stokes_fluxes.hpp"), ("calcViscousMMS, viscousMMSExact, shockExact", "src/physics/fluidflow/navier_stokes_fluxes.hpp")],
     ["applyViscousScaling", "calcNoSlip*", "calcViscousMMS", "viscousMMSExact"])

prop("C22", "Finite element fields live on the requested space, keep their contents, and measure errors correctly",
     "A state or dual built from options, from an Options structure or by copying a space lives on the mesh it was given with the named basis (all spellings), degree, number of components, ordering and name, starts at zero, owns its copy of the space, and carries all of this, with its values, through any sequence of move constructions and assignments. A state distributes true dofs with the prolongation (continuous across hanging nodes) and extracts them with the restriction; a dual uses their transposes, and each extraction undoes its distribution. Projection interpolates the function or coefficient, scalar or vector, reproduces polynomials up to the degree, and returns the field's true dofs. Lp and L2 errors and norms are those of the field minus the exact solution - of the pointwise vector norm, or of one component's absolute value - for every p including infinity, and leave the field alone.",
     ["inputs", "histories", "configurations"], "mesh shapes (also with hanging nodes) x basis spellings x degrees x components x constructors; all move histories up to a depth; every basis vector of both transfer maps; error sign patterns per element and component x p x entry",
     "Most combinations of basis, mesh and constructor are never built by a test; transposes differ from the primal maps only with hanging or shared nodes; norms go wrong only for some signs of the error.",
     ["src/physics/finite_element_vector.cpp", "src/physics/finite_element_vector.hpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_state.hpp", "src/physics/finite_element_dual.hpp"],
     [("constructors, copyFEColl, moves", "src/physics/finite_element_vector.cpp"), ("distributeSharedDofs / setTrueVec", "src/physics/finite_element_state.hpp, src/physics/finite_element_dual.hpp"), ("calcLpError / calcL2Error / calcLpNorm", "src/physics/finite_element_state.cpp")],
     ["FiniteElementVector constructors", "calcLpError", "calcL2Error", "distributeSharedDofs", "setTrueVec"])

prop("C23", "A PDE solver sets up meshes, fields, states, hooks and materials as its options say",
     "A mesh is read from the named file (or taken over when one is passed in), refused when its format cannot be handled, always gets nodes, and keeps geometry, attributes and boundary. A PDE solver owns one field each for state, adjoint, Dirichlet data, coordinates and every external field, with the options' basis and component counts, plus the residual dual; sizes by name are the true sizes, and the coordinate field and the mesh are one. Setting a state interpolates functions or coefficients of every kind into the named field and hands back its true dofs without touching other fields; errors are those of the state passed in. The initial hook refuses inverted meshes and forwards; other hooks forward their arguments. The components' materials are merged onto the library for every constructor.",
     ["inputs", "configurations", "histories"], "meshes (also curved, periodic, hanging nodes) x file names x spaces x external fields x constructors; fields x kinds of function; hook sequences; component material lists",
     "Constructors of PDESolver are not exercised by any test; most combinations of mesh, field and kind of function are never built.",
     ["src/physics/pde_solver.cpp", "src/physics/pde_solver.hpp", "src/common/material_library.hpp"],
     [("constructMesh, PDESolver constructors, setState, calcStateError, hooks", "src/physics/pde_solver.cpp"), ("setState_/getFieldSize", "src/physics/pde_solver.cpp")],
     ["constructMesh", "PDESolver::PDESolver", "PDESolver::setState_", "PDESolver::calcStateError_", "getFieldSize"])

prop("C09", "The material library, the default options and the material models built from them are consistent and differentiated correctly",
     "The default options name solvers and preconditioners that exist and solve the systems they are meant for. Every material of the library, named by string or by object, on one attribute or several, gives each attribute exactly the property value listed for it (attributes of other components get none); composites are the average or Hashin-Shtrikman mixture of constituents that exist, weighted by the named input at any fill factor, pure at 0 and 1, and their fill-factor derivatives are the derivatives of the very same mixture. Reluctivity (linear, log-nu and B-H spline data from the library or the component), conductivity, remnant flux, demagnetization knee and constraint, and CAL2 hysteresis and eddy loss coefficients are the documented functions of the state on the component's attributes, the library's value where no model is given, and each first and second state derivative (mixed ones too) is the derivative of the value; unknown models are refused.",
     ["inputs", "configurations"], "all materials x properties x ways to name and attribute them x fill factors; all models x overrides of every subset of parameters x states",
     "The material library test only samples a handful of models at one state; missing references between materials, swapped data, and derivatives wrong on some branch need every material, model and override.",
     ["src/common/coefficient.cpp", "src/common/material_library.cpp", "src/common/default_options.cpp", "src/physics/electromagnetics/reluctivity_coefficient.cpp", "src/physics/electromagnetics/conductivity_coefficient.cpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/pm_demag_constraint_coeff.cpp"],
     [("constructMaterialCoefficient, weighted coefficients", "src/common/coefficient.cpp"), ("material_library", "src/common/material_library.cpp"), ("ReluctivityCoefficient, ConductivityCoefficient, RemnantFluxCoefficient, DemagFluxCoefficient, PMDemagConstraintCoefficient, CAL2kh/keCoefficient", "src/physics/electromagnetics")],
     ["constructMaterialCoefficient", "material_library", "ReluctivityCoefficient", "CAL2khCoefficient", "PMDemagConstraintCoefficient"])

prop("C26", "Coefficients that depend on attributes, states and inputs answer as the coefficient in charge would",
     "A mesh-dependent scalar coefficient of one, two or three states, or vector coefficient with or without state, evaluates on each element exactly the coefficient attached to its attribute, else the default, else zero: values with and without states, every first, second and mixed state derivative, and the mesh sensitivity (which is added to, never overwritten) are those of that coefficient with the arguments in the order given; coefficients without states have zero state derivatives. Inputs reach every coefficient that takes them, nested ones and the default too. An attribute has at most one coefficient. The product of scalar and vector coefficients obeys the product rule in value, state derivative and mesh sensitivity for every mix of state-dependent factors; the continuation coefficient blends its parts by lambda; element functions see the point, element and time.",
     ["inputs", "configurations"], "all assignments of coefficient kinds (none, plain, one/two/three-state) to three attributes and the default x insertion orders x states x methods",
     "Dozens of near-identical dispatch methods; one with a swapped argument or a neighbour's name is exact for symmetric or constant coefficients, which is all tests use.",
     ["src/common/coefficient.cpp", "src/common/coefficient.hpp"],
     [("MeshDependentCoefficient, MeshDependentTwoStateCoefficient, MeshDependentThreeStateCoefficient", "src/common/coefficient.cpp"), ("VectorMeshDependentCoefficient, VectorMeshDependentStateCoefficient, ScalarVectorProductCoefficient", "src/common/coefficient.cpp")],
     ["MeshDependentCoefficient", "MeshDependentThreeStateCoefficient::Eval2ndDerivS2S3", "ScalarVectorProductCoefficient::EvalStateDeriv"])

prop("C31", "Integrated outputs and forms equal their integrals and their sensitivities differentiate them",
     "Volume, mass, state, state-average, state- and curl-magnitude, induced-exponential (IE) aggregate and boundary-normal outputs equal the integral of what their name says over exactly the attributes given (all when none are): with physical measure, any mesh (also curved), any basis the integrand makes sense for, a density where one is given, and the field they were asked for, also when that is not the state; IE aggregates stay finite for large values. For each output, each bilinear or linear form and each load of the common integrators, the state derivative, and the forward and reverse products for every input they advertise - mesh coordinates, fields, scalars such as fill factor - are the derivatives of the very value they return: Jacobian-vector products match differences, reverse products are their transposes, and parts over disjoint attributes add up.",
     ["inputs", "configurations"], "integrators and functionals x element shapes x mesh order x degree x attribute sets x options x parameters; every input's forward and reverse product",
     "No test covers the mesh sensitivities or named-field outputs; errors show up only on curved meshes, certain element shapes, or for one input.",
     ["src/physics/mfem_common_integ.cpp", "src/physics/mfem_common_integ.hpp", "src/physics/common_outputs.cpp", "src/common/functional_output.cpp", "src/common/functional_output.hpp"],
     [("VolumeIntegrator, StateIntegrator, MagnitudeCurlStateIntegrator, IEAggregateIntegrator*, and their MeshRevSens", "src/physics/mfem_common_integ.cpp"), ("MassFunctional, StateAverageFunctional, IEAggregateFunctional", "src/physics/common_outputs.cpp"), ("calcOutput, calcOutputPartial, jacobianVectorProduct, vectorJacobianProduct", "src/common/functional_output.cpp")],
     ["VolumeIntegrator", "IEAggregateFunctional", "FunctionalOutput", "VectorFEMassIntegratorMeshSens"])

prop("C32", "The terms of the heat equation are their flux formulas and differentiate exactly",
     "Thermal contact resistance gives each side of an interface h times the temperature jump, with opposite signs; internal convection cools both sides by h times the difference to the fluid; convection and outflux boundary conditions apply their flux on exactly the boundary attributes given (never inside the domain); the L2 projection term is the mass-weighted difference to the desired function, all scaled by alpha. They read h, fluid_temp and outflux from the inputs of their own name (with suffix for named interfaces), or keep the constructor's values. On any element shape, straight or curved, with continuous or discontinuous states, the Jacobian, its transpose, and the reverse products wrt state, mesh coordinates, h and fluid_temp are the derivatives of the residual they return.",
     ["inputs", "configurations"], "integrators x element shapes x mesh order x degree x basis x attributes / interior faces x named or not x constructors x alpha; every residual entry and every derivative entry",
     "No existing test covers these; wrong side, wrong interface name or a derivative that is only right on straight faces or certain vertex numberings passes a single-mesh test.",
     ["src/physics/thermal/thermal_integ.cpp", "src/physics/thermal/thermal_integ.hpp", "src/utils/utils.cpp"],
     [("ThermalContactResistanceIntegrator, InternalConvectionInterfaceIntegrator, ConvectionBCIntegrator, OutfluxBCIntegrator, L2ProjectionIntegrator and their sensitivities", "src/physics/thermal/thermal_integ.cpp"), ("add*SensitivityIntegrator", "src/physics/thermal/thermal_integ.hpp")],
     ["ThermalContactResistanceIntegrator", "InternalConvectionInterfaceIntegrator", "ConvectionBCIntegrator", "OutfluxBCIntegratorMeshRevSens"])
prop("C27", "Nonlinear and linear forms assemble, linearize and differentiate the equations they were given",
     "Over every history of adding terms (domain, boundary, interior faces, internal boundaries; with or without attributes), setting inputs and options, evaluating, linearizing, multiplying and solving adjoints, a nonlinear form's residual on a free dof is the sum of its terms over exactly their attributes at the latest inputs, and on an essential dof the state minus the boundary value given; its energy is the sum of the terms' energies; its Jacobian is that of the latest linearization point; forward and reverse products wrt the state, fields and scalars are the derivatives of the residual rows (rows of essential dofs do not depend on fields and scalars), accumulate, and are zero for what the form does not depend on; setUpAdjointSystem followed by finalizeAdjointSystem gives the adjoint of the constrained system for any right-hand side and essential set. A linear form adds its load, and subtracts nothing twice, whatever was evaluated before; forms that share fields do not disturb each other; a Jacobian or adjoint asked for before a linearization is refused or computed, never stale.",
     ["inputs", "schedules", "configurations"], "term placements x attributes x essential sets x operation sequences up to a depth x query; every entry of every vector and matrix",
     "A stale Jacobian, an attribute marker applied to the wrong operator or an essential row counted in an adjoint shows only after particular sequences of calls with particular term placements.",
     ["src/physics/miso_nonlinearform.cpp", "src/physics/miso_nonlinearform.hpp", "src/common/miso_linearform.cpp", "src/common/miso_linearform.hpp"],
     [("MISONonlinearForm: evaluate, linearize, getJacobian, setUpAdjointSystem, finalizeAdjointSystem, products", "src/physics/miso_nonlinearform.cpp"), ("add*Integrator", "src/physics/miso_nonlinearform.hpp"), ("MISOLinearForm: addLoad and products", "src/common/miso_linearform.cpp")],
     ["MISONonlinearForm", "MISOLinearForm"])
prop("C33", "The terms of the magnetostatic equations are their formulas and differentiate exactly",
     "Nonlinear diffusion is alpha times reluctivity(|grad u|) grad u . grad v over exactly the attributes given; its strong boundary form and the interior-penalty form on interfaces add the consistency and penalty terms with both elements' traces; curl-curl (2D and 3D edge elements, with the orientation of their dofs) uses reluctivity at |curl u|; the 2D magnetization source is the rotated flux at the local temperature. On any element shape, straight or curved, with continuous, discontinuous or edge bases, at any state including the zero field, the Jacobian, its transpose, and the reverse products wrt state, mesh coordinates and temperature are the derivatives of the residual or load they return, including the scaling alpha and the attributes of the term.",
     ["inputs", "configurations"], "integrators x element shapes x mesh order x degree x basis x attributes x reluctivity (constant, field dependent) x alpha x zero or generic state x adjoint name; every residual entry and every derivative entry",
     "No existing test in the stable set covers these; a sensitivity that drops alpha, ignores attributes or is only right in 3D passes one-mesh tests.",
     ["src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_integ.hpp"],
     [("NonlinearDiffusionIntegrator, NonlinearDGDiffusionIntegrator, DGInteriorFaceDiffusionIntegrator, MagnetizationSource2DIntegrator, CurlCurlNLFIntegrator and their sensitivities", "src/physics/electromagnetics/electromag_integ.cpp"), ("add*SensitivityIntegrator", "src/physics/electromagnetics/electromag_integ.hpp")],
     ["NonlinearDiffusionIntegrator", "NonlinearDGDiffusionIntegrator", "DGInteriorFaceDiffusionIntegrator", "CurlCurlNLFIntegrator", "MagnetizationSource2DIntegrator"])
prop("C28", "Magnetic energy, forces, losses and heat sources are what they are named for, with exact derivatives",
     "The magnetic energy is the integral of the energy of the B-H curve at |curl A| over exactly the attributes given. Force and torque use the rigid displacement of the body (zero away from it) and equal minus the change of the energy outside the body when it is displaced so; without a field they are zero and so are all derivatives - never NaN. DC, AC, core (CAL2) and Steinmetz losses are their formulas: resistance, strand and frequency powers, densities, coefficients at the local temperature, frequency and peak flux, divided by the volume of their region where the loss is a density; the heat source distributions test the same densities with the temperature basis and the combined heat source is their sum. Demagnetisation measures are the (negated) integral of the constraint, and the two parts of the aggregate of knee point minus flux along the magnetisation. On any element shape, straight or curved, forward and reverse products wrt state, mesh coordinates, temperature, peak flux and each scalar parameter (wire length, currents, strand radius, strands, turns, slots, stack length, frequency, largest flux) are the derivatives of the value returned, and reverse products accumulate.",
     ["inputs", "configurations"], "outputs x element shapes x mesh order x degree x attributes x material and coefficient kinds x flux basis x named or not x zero or generic field; every entry of every derivative",
     "The stable tests run none of these; a product that is NaN without a field, uses the wrong power of a radius or forgets the volume's own sensitivity passes a value comparison on one mesh.",
     ["src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_integ.hpp"],
     [("ForceFunctional, TorqueFunctional, DCLossFunctional, ACLossFunctional, CoreLossFunctional, DC/AC/CAL2CoreLossDistribution, EMHeatSourceOutput, PMDemagOutput", "src/physics/electromagnetics/electromag_outputs.cpp"), ("MagneticEnergyIntegrator, ForceIntegrator3, *Loss*Integrator, PMDemagIntegrator, IEAggregateDemagIntegrator*", "src/physics/electromagnetics/electromag_integ.cpp")],
     ["MagneticEnergyIntegrator", "ForceIntegrator3", "ACLossFunctional", "DCLossDistribution", "EMHeatSourceOutput", "SteinmetzLossIntegrator"])
prop("C34", "Current and magnetisation sources are the formulas they are named for, per attribute, scaled by what was set last",
     "In every attribute the current density is the direction function listed for it (clockwise and counter-clockwise stator windings, coordinate directions, ring, the box and team problems) times the current density last set for its group, and zero elsewhere; stator windings also scale with the slot count and stack length last set. Caching, zeroing and resetting the current densities reproduces exactly the values cached, whichever inputs were set in between and including the stator's. Magnets magnetise in the direction listed for their attribute (north radially outwards, south inwards, clockwise and counter-clockwise, coordinate axes) with the remnant flux of their material at the local temperature (zero temperature where none is given). Derivatives wrt the nodes of the element and wrt the temperature are those of the value wherever it is smooth.",
     ["inputs", "sequences"], "sources x places around and on the region limits x element shapes x mesh order x values; every sequence of up to four (thorough: five) set, cache, zero and reset operations against a model of them",
     "The stable tests run none of these; a source that reads an input through a dangling reference, or a reset that fails only if a stator input was cached too, needs the sequence.",
     ["src/physics/electromagnetics/current_source_functions.cpp", "src/physics/electromagnetics/current_source_functions.hpp", "src/physics/electromagnetics/magnetic_source_functions.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp"],
     [("CurrentDensityCoefficient, CurrentDensityCoefficient2D", "src/physics/electromagnetics/current_source_functions.cpp"), ("MagnetizationCoefficient", "src/physics/electromagnetics/magnetic_source_functions.cpp"), ("RemnantFluxCoefficient", "src/physics/electromagnetics/remnant_flux_coefficient.cpp")],
     ["CurrentDensityCoefficient", "CurrentDensityCoefficient2D", "MagnetizationCoefficient", "RemnantFluxCoefficient"])
prop("C24", "Irrotational and divergence free projections and the divergence free current load",
     "On every mesh, degree and field the irrotational projector returns the gradient of the potential that vanishes on the boundary and has the same weak divergence as the field, and the divergence free projector what is left: exact projections (applying one twice changes nothing), one curl free, the other weakly divergence free, neither touching its input. Their reverse products, which accumulate, are the transposed derivatives wrt the field and wrt every mesh coordinate. The current load is minus the moments of the divergence free part of the current density projected onto the Nedelec space, zero on essential unknowns, and its products are the derivatives of that wrt each current density and each mesh coordinate. Whatever was set, moved, assembled or differentiated before, once told of the mesh and the inputs each gives what a newly built one gives.",
     ["inputs", "configurations", "histories"], "projector x element shape x mesh order x degree x every basis field x every basis adjoint; sequences of set/move/apply/differentiate operations",
     "The projections are solves with cached matrices and dirty flags; a stale matrix, a sign or a wrong rule shows only for some mesh or order of calls.",
     ["src/utils/irrotational_projector.cpp", "src/utils/irrotational_projector.hpp", "src/utils/div_free_projector.cpp", "src/utils/div_free_projector.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/current_load.hpp"],
     [("IrrotationalProjector::Mult", "src/utils/irrotational_projector.cpp"), ("DivergenceFreeProjector::vectorJacobianProduct", "src/utils/div_free_projector.cpp"), ("CurrentLoad::assembleLoad", "src/physics/electromagnetics/current_load.cpp")],
     ["IrrotationalProjector", "DivergenceFreeProjector", "CurrentLoad"])
prop("C29", "Inviscid flow terms are their SBP discretisations: conservative, entropy balanced, exactly linearised",
     "For every state, dimension, SBP degree, straight or curved mesh, state variable set (conservative or entropy) and scaling alpha: the Euler, Ismail-Roe, stabilisation and mass terms are the nodal sums over the SBP operators and the metric terms they stand for; each boundary term (vortex, slip wall, far field, entropy conserving, control) adds alpha times weight times its flux in the outward scaled normal at the right node, and the interface term adds it left and subtracts it right; the element Jacobians are the derivatives of these vectors, and the flux derivatives in the direction and the mesh sensitivities those of the fluxes and of adjoint times residual. Element and face energies are entropy variables times residual, or the named functional (pressure force, entropy, boundary entropy, supply). Put together, the sum of the residual is what crosses the boundary, a free stream gives zero, the entropy changes exactly by the prescribed boundary flux without dissipation and never increases with it. Inputs (time, control, actuator) act until replaced and an integrator carries nothing from one call to the next.",
     ["inputs", "configurations", "histories"], "term x dimension x state variables x degree x mesh order x element or face x state x alpha x coefficients, whole Jacobians column by column; sequences of input settings and of calls of one integrator on elements of different sizes",
     "The defining identities are algebraic properties of whole operators that hold or fail for all states at once; tests use one degree, alpha = 1 and straight elements.",
     ["src/physics/fluidflow/inviscid_integ.hpp", "src/physics/fluidflow/inviscid_integ_def.hpp", "src/physics/fluidflow/euler_integ.hpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/physics/fluidflow/mesh_sens_integ_def.hpp", "src/physics/fluidflow/euler_sens_integ_def.hpp"],
     [("InviscidIntegrator::AssembleElementVector", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("InviscidFaceIntegrator::AssembleFaceGrad", "src/physics/fluidflow/inviscid_integ_def.hpp"), ("EntropyConserveBC::calcFlux", "src/physics/fluidflow/euler_integ_def.hpp"), ("DyadicMeshSensIntegrator::AssembleRHSElementVect", "src/physics/fluidflow/mesh_sens_integ_def.hpp")],
     ["EulerIntegrator", "IsmailRoeIntegrator", "EntStableLPSIntegrator", "InterfaceIntegrator", "SlipWallBC", "FarFieldBC", "EntropyConserveBC", "ControlBC"])
prop("C35", "Viscous flow terms are their SBP discretisations: dissipative, conservative, exactly linearised",
     "For every state, dimension, SBP degree, straight or curved mesh, viscosity (constant or Sutherland) and scaling alpha: the viscous volume term is alpha times D^T H C D w at the nodes, moves nothing in or out of a straight element, vanishes for uniform flow and never produces entropy; every viscous boundary term (no-slip adiabatic, slip, inflow, outflow, far field, exact, control) adds alpha times weight times its flux, with the derivatives and the mapping Jacobian of that node, and the actuator acts only where its profile is not negligible, elsewhere being a no-slip wall. The surface force is that flux along the force direction. All Jacobians (and the derivative of the force) are the derivatives of these vectors, energies are entropy variables times residual; manufactured sources are added with the nodal weights and do not depend on the state. Between adiabatic walls mass is conserved and the entropy balance has its sign. Inputs act until replaced and an integrator carries nothing from one call to the next.",
     ["inputs", "configurations", "histories"], "term x dimension x degree x mesh order x element or face x state x viscosity x alpha, whole Jacobians column by column; sequences of actuator inputs and of calls of one integrator",
     "The identities hold for all states or not at all; no stable test builds a viscous term.",
     ["src/physics/fluidflow/viscous_integ.hpp", "src/physics/fluidflow/viscous_integ_def.hpp", "src/physics/fluidflow/navier_stokes_integ.hpp", "src/physics/fluidflow/navier_stokes_integ_def.hpp", "src/physics/fluidflow/mms_integ.hpp", "src/physics/fluidflow/mms_integ_def.hpp", "src/physics/fluidflow/euler_integ_mms.hpp"],
     [("SymmetricViscousIntegrator::AssembleElementVector", "src/physics/fluidflow/viscous_integ_def.hpp"), ("ViscousBoundaryIntegrator::AssembleFaceGrad", "src/physics/fluidflow/viscous_integ_def.hpp"), ("ViscousControlBC::calcFlux", "src/physics/fluidflow/navier_stokes_integ_def.hpp"), ("SurfaceForce::AssembleFaceVector", "src/physics/fluidflow/navier_stokes_integ_def.hpp"), ("MMSIntegrator::AssembleElementVector", "src/physics/fluidflow/mms_integ_def.hpp")],
     ["ESViscousIntegrator", "NoSlipAdiabaticWallBC", "ViscousSlipWallBC", "ViscousControlBC", "SurfaceForce", "MMSIntegrator"])
prop("C30", "Thermal and magnetostatic residuals are the sum of the terms their options ask for, with exact derivatives",
     "For every combination of basis, degree, penalty, materials, boundary conditions, interfaces and sources the residual equals the sum of exactly the integrators these options name, each with its own parameters, on exactly its attributes, with the documented defaults; the load (the caller's thermal load; currents and magnets at the local temperature) enters with the documented sign, leaves essential rows alone, is used as last set and is never modified. The preconditioner is the one asked for. The Jacobian, its transpose, forward and reverse products and the adjoint solve agree with the derivatives of that residual wrt the state, mesh coordinates, load, temperature and each scalar input; wrt a current density they are those of that current alone, with or without magnets, and computing them leaves the residual as it was.",
     ["inputs", "configurations", "histories"], "basis x element shape x mesh order x degree x penalty x materials x boundary conditions x interfaces x sources x load; every entry of the residual and of every derivative",
     "The stable tests build no residual; a term dropped, doubled or put on the wrong attributes for one combination of options, or a product that overwrites instead of accumulates, is invisible to them.",
     ["src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_residual.hpp", "src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetostatic_residual.hpp", "src/physics/miso_nonlinearform.cpp", "src/physics/miso_linearform.cpp"],
     [("ThermalResidual", "src/physics/thermal/thermal_residual.cpp"), ("MagnetostaticResidual", "src/physics/electromagnetics/magnetostatic_residual.cpp")],
     ["ThermalResidual", "MagnetostaticResidual"])
prop("C36", "The flow residual is the sum of the terms its options ask for, and its outputs and norms are what they are named for",
     "For every combination of dimension, state variables, degree, dissipation, viscosity and boundary conditions, the residual is the sum of exactly the volume, interface and boundary terms the options name, each with its own parameters on exactly its attributes, with the documented defaults; time, control and actuator inputs act from when they are set until replaced, whatever was evaluated before; the Jacobian is that of the current state and inputs, the mass matrix that of the nodes. Lift, drag, entropy, boundary entropy and L2 errors are the named functional in the named direction on the named boundaries; entropy is the integral of the mathematical entropy and its change is the entropy variables times the time derivative's residual at the time of the state. The CFL step is cfl times the smallest node spacing over wave speed. Options that name what the mesh, state variables or options do not have are refused with an exception, never read out of bounds or ignored.",
     ["inputs", "configurations", "histories"], "dimension x entropy/conservative x degree x dissipation x viscous terms x boundary condition sets x states; outputs x boundaries x angles; missing or inconsistent options; sequences of set/evaluate/linearize/entropy operations",
     "No stable test builds a flow residual; a term dropped or put on the wrong attributes, an input that is lost after a call, or a value at the wrong time shows for one combination only.",
     ["src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/flow_residual.hpp"],
     [("FlowResidual<dim,entvar>::setUpBoundaryConditions, addFlowDomainIntegrators, addFlowInterfaceIntegrators", "src/physics/fluidflow/flow_residual.cpp"), ("calcEntropyChange_, minCFLTimeStep, constructOutput", "src/physics/fluidflow/flow_residual.cpp")],
     ["FlowResidual"])
prop("C37", "The flow solver marches the flow residual it was asked for and stops, steps, logs and saves as its options say",
     "A solver is made only of parts that fit (mesh dimension, state variables, steadiness, known types); otherwise it is refused with an exception. The step is the constant one, the constant CFL step of the current state, or for steady runs dt times (initial over current residual norm) to the exponent but never smaller than the last; unsteady steps end at t-final unless asked otherwise; steady runs end at the first state whose residual norm meets either tolerance. These decisions depend on the state given, never on what was evaluated before. A march is its time method applied to M du/dt = -R(u): on periodic meshes the integral of every conservative variable is constant, and relaxation methods keep the entropy without dissipation, never raise it with it. After a run the solver's field, L2 errors and outputs are those of the returned state; the entropy log lists time and entropy before every step and at the end, a second run starts it over; fields are saved at exactly the moments asked for.",
     ["inputs", "configurations", "histories"], "constructor faults x templates x meshes; decision calls after every sequence of other calls; method x degree x dissipation x boundary x step control x logging x few or all steps; tolerances on either side of every norm; subsets of saving moments",
     "No stable test builds a solver; a step based on the last Runge-Kutta stage, an ignored option or an overshoot of the final time shows only for some method, option or sequence of calls.",
     ["src/physics/fluidflow/flow_solver.cpp", "src/physics/fluidflow/flow_solver.hpp", "src/physics/pde_solver.cpp"],
     [("FlowSolver::calcStepSize, iterationExit, derivedPDE*Hook, constructor", "src/physics/fluidflow/flow_solver.cpp"), ("PDESolver::terminalHook", "src/physics/pde_solver.cpp")],
     ["FlowSolver"])
prop("C38", "Boundary control couples the flow to its controller as the control law says, in the residual and in the solver",
     "The controller's residual, Jacobian, preconditioner, control velocity, entropy and entropy change are those of its law (PID or conservative test law) for the gains, targets, loop setting and entropy matrix last set, whatever was set or asked in between; a matrix that is not symmetric is refused. The coupled residual is the flow residual at the control velocity of its own state, and the controller residual at the boundary entropy of its own state, both with the actuator last set; entropy and entropy change are sums over both, mass and Jacobian blocks are the parts' own. A solver made of parts or options that do not fit (mesh, mesh file, missing or inconsistent control boundary, missing outputs, entropy state, unknown types) or asked for a steady run is refused with an exception. A march is its time method applied to the coupled equation; the relaxed step has the entropy balance of the coupled residual; steps are the constant or constant-CFL ones and end at t-final; every output asked for is written to its own file (name and sample) before each step and at the end, in every run, and no file is written unasked.",
     ["inputs", "configurations", "histories"], "all sequences of controller inputs; coupled evaluations after sequences of inputs x dimension x variables x basis x viscosity x law; constructor faults x templates x meshes; decision calls; method x law x loop x walls x dissipation x actuator x sample x step control x steps",
     "The only tests of the controller are not among those that run here and use one input; an ignored loop setting, an actuator that was never set, or a file that stays empty in the second run shows only after some sequence of inputs.",
     ["src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_residual.hpp", "src/physics/fluidflow/flow_control_solver.cpp", "src/physics/fluidflow/flow_control_solver.hpp"],
     [("ControlResidual: setInputs, evaluate, getControlVelocity, calcEntropyChange", "src/physics/fluidflow/flow_control_residual.cpp"), ("FlowControlResidual::evaluate_, calcEntropyChange_, getJacobianBlock_", "src/physics/fluidflow/flow_control_residual.cpp"), ("FlowControlSolver::constructMesh, initialHook, iterationHook, terminalHook, calcStepSize", "src/physics/fluidflow/flow_control_solver.cpp")],
     ["FlowControlResidual", "FlowControlSolver"])
