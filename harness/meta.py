"""The properties, and what is said of them in properties.jsonl and
MANIFEST.json: python3 harness/meta.py rewrites both."""

import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "code/cpp/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique,
         note, variants=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files,
                  mech=mech, observe=observe, technique=technique,
                  note=" ".join(note.split())))


TOL = ("Exploration: no proof of absence. Trusted: numpy, the harness's own model "
       "and generators, g++ -O2 code standing for the release build. Floating "
       "point is compared with tolerances scaled to the rounding of the "
       "quantities involved.")

prop("C01", "Pressure, temperature and energy are one consistent closure",
     """For every Mie-Gruneisen equation of state (stiffened gas, shock, Godunov-Romenski,
     JWL, Cochran-Chan) and every physical state, the pressure and temperature read from a
     conserved state are those whose internal, elastic, thermal-impulse, kinetic and chemical
     energies add up to its total energy, the density derivative of that energy is its true
     derivative, and neither pressure nor temperature depends on the frame of the observer.""",
     ["inputs", "configurations"],
     """every material (5 equations of state, 5 rheologies, with and without heat conduction
     and reactions) and every state with positive density, temperature and sound speed""",
     """The tests evaluate a handful of parameter sets; the closures have branches by equation
     of state and by compression, and parameters (reference temperature, shear exponent) that
     are zero in the tests.""",
     [S + "system/energy/mg.cpp", S + "system/energy/eos.cpp",
      S + "system/variables/state.cpp", S + "system/energy/derivatives.cpp",
      S + "system/waves/shear.cpp"],
     [("E_1, p_ref, e_ref, pressure_mg", S + "system/energy/mg.cpp"),
      ("internal_energy", S + "system/energy/eos.cpp")],
     ["GPRpy.system.variables.pressure, temperature, temperature_mg, dEdρ"],
     "property-based testing against an independent model of the closures",
     "Differential against a numpy model written from the equations; three builds "
     "(default, heat conduction, reactive). " + TOL)

prop("C02", "The system matrix is the Jacobian of the equations",
     """For every material, physical state and direction, the quasilinear system matrix equals
     the derivative of the flux with respect to the conserved variables plus the
     non-conservative matrix; its two factors are the derivative of the flux by the primitive
     variables and of the primitive by the conserved variables.""",
     ["inputs", "configurations"],
     "every material, state and direction, with and without heat conduction and reactions",
     """Each of some 300 entries depends on the state; the tests compare one material's matrix
     at a few random states, none with a reference temperature, a shear exponent or
     a reaction.""",
     [S + "system/jacobians.cpp", S + "system/equations.cpp",
      S + "system/energy/derivatives.cpp", S + "system/variables/state.cpp",
      S + "system/energy/mg.cpp"],
     [("dFdP, dPdQ", S + "system/jacobians.cpp"),
      ("system_matrix, block", S + "system/equations.cpp")],
     ["GPRpy.system.system_matrix, dFdP, dPdQ, flux, Bdot"],
     "property-based testing: complex-step Jacobian of an independent model, and "
     "finite differences of the code's own flux",
     "Every entry is compared, nondimensionalised, to 2e-9 of the largest. " + TOL)

prop("C06", "Wave speeds bound and equal the spectrum of the equations",
     """The wave speed used for time steps and Rusanov dissipation is, in every direction and
     for every hyperbolic state, the largest absolute eigenvalue of the system matrix in that
     direction; it transforms with the frame (relabelled or mirrored axes, boosts along the
     direction) and does not depend on the level sets.""",
     ["inputs", "configurations"],
     "every material and every hyperbolic state, moving either way, strained or not, in x, y, z",
     """The tests check x-direction states of one fluid; an underestimate only shows as an
     instability for some flows, an overestimate only as extra diffusion.""",
     [S + "system/eig.cpp", S + "system/waves/speeds.cpp", S + "system/waves/shear.cpp",
      S + "system/variables/state.cpp"],
     [("max_abs_eigs, thermo_acoustic_tensor", S + "system/eig.cpp"),
      ("c_0, c_h", S + "system/waves/speeds.cpp")],
     ["GPRpy.system.max_abs_eigs, thermo_acoustic_tensor"],
     "property-based testing: eigenvalues of an independent model's system matrix",
     "Non-hyperbolic states (complex eigenvalues of the model) are skipped and counted. " + TOL)

prop("C03", "The physical flux and non-conservative terms are the model's",
     """In every direction, for every material and state, the flux and the non-conservative
     product are those of the GPR equations, accumulate onto their output without disturbing
     anything else, and transform with the frame: relabelled and mirrored axes and moving
     observers see the same physics.""",
     ["inputs", "configurations"],
     "every material, state, gradient and direction, with and without heat and reactions",
     """Tests evaluate the flux at a few random states of one material; a wrong component in
     the y or z direction, or with heat or a reactant, shows in none of them.""",
     [S + "system/equations.cpp", S + "system/variables/state.cpp",
      S + "system/energy/derivatives.cpp"],
     [("flux, block, Bdot", S + "system/equations.cpp"),
      ("temperature, heat_flux, Sigma", S + "system/variables/state.cpp")],
     ["GPRpy.system.flux, block, Bdot"],
     "property-based testing: independent model, linearity and frame-change relations",
     TOL)

prop("C05", "Sources follow the rheology and obey the second law",
     """For every material and state the source term is that of its rheology (Newtonian,
     power-law and Bingham fluids, elastic and plastic solids), body force, heat impulse
     relaxation and reaction law; relaxation only removes mesoscale energy, keeps the volume,
     leaves unstressed and unyielded material alone, and reactions only consume reactant.""",
     ["inputs", "configurations"],
     "every material of the five rheologies and three reaction laws, every physical state, "
     "stressed or not, reactant fraction beyond [0, 1] included",
     """The tests compare one Newtonian source; each rheology and reaction law is a branch with
     its own exponents and thresholds, and its limit cases (no stress, yield) divide 0 by 0.""",
     [S + "system/equations.cpp", S + "system/functions/vectors.cpp",
      S + "system/variables/sources.cpp", S + "system/functions/matrices.cpp"],
     [("source", S + "system/equations.cpp"), ("theta1inv, theta2inv", S + "system/variables/sources.cpp"),
      ("reaction_rate", S + "system/variables/sources.cpp")],
     ["GPRpy.system.source, reaction_rate"],
     "property-based testing: independent model of the sources and entropy inequalities",
     TOL)

prop("C07", "Analytic relaxation solves its ODE over any time step",
     """Over any time step, stiff or not, the analytic source solvers of the split scheme carry
     the distortion and thermal impulse along their relaxation equations: density, volume and
     all other variables are kept, the shear energy never grows, rotated states relax alike,
     two steps compose to one, long steps reach equilibrium, and every cell is updated by its
     own state alone.""",
     ["inputs", "configurations"],
     """every fluid and solid, distortions from 1e-3 to 30 percent strain (isotropic ones
     included) in any frame, time steps from 1e-3 to 30 relaxation times""",
     """Tests run one fluid at a few states; the solver branches on the sign of cubic and
     invariant discriminants, the rheology exponent and degenerate stretches.""",
     [S + "system/relaxation/analytic.cpp", S + "solvers/split/ode.cpp"],
     [("analyticSolver_distortion", S + "system/relaxation/analytic.cpp"),
      ("analyticSolver_thermal", S + "system/relaxation/analytic.cpp"),
      ("ode_launcher", S + "solvers/split/ode.cpp")],
     ["GPRpy.solvers.split.analyticSolver_distortion, analyticSolver_thermal, ode_launcher"],
     "property-based testing: reference ODE integration, conservation, composition and frame "
     "relations",
     "The distortion solver linearises about equilibrium by design; it is held to the ODE to "
     "the order of that approximation and exactly in what the approximation keeps. " + TOL)

prop("C10", "WENO reconstruction is conservative, exact, local and unbiased",
     """At every order, in one and two dimensions and for any data, the reconstruction keeps
     each cell's average, reproduces polynomials of its degree, is the nonlinear weighting of
     its left, right and central stencils, depends on cells within its radius only (never on the
     cells beyond two boundaries at once), and has no preferred direction or variable.""",
     ["inputs", "configurations"],
     "every grid size, order 2 to 5, smooth, constant, rough and discontinuous data",
     """The tests reconstruct random data of one size at one order and compare with a second
     implementation that is not run at other orders; weights and stencils near boundaries
     are only wrong for some data.""",
     [S + "solvers/weno/weno.cpp", S + "solvers/weno/weno_matrices.cpp"],
     [("weno1, weno2, coeffs, weight", S + "solvers/weno/weno.cpp")],
     ["GPRpy.solvers.weno.weno_launcher"],
     "property-based testing: conservation, polynomial exactness, reference reconstruction, "
     "mirror, permutation and locality relations",
     "Five builds (orders 2 to 5, primitive reconstruction). " + TOL)

prop("C11", "Quadrature and interpolation are exact to their degree",
     """At every order the quadrature nodes and weights integrate polynomials up to twice the
     order exactly, the nodal basis interpolates, differentiates and extrapolates polynomials
     exactly, and the reconstruction systems and oscillation indicator are the exact integrals
     they stand for.""",
     ["inputs", "configurations"],
     "orders 2 to 5 and every polynomial up to the degree of exactness",
     """The tests compare the tables of one order with stored values; every order is a separate
     build, and the polynomial helpers are evaluated at few points.""",
     [S + "solvers/poly/basis.cpp", S + "solvers/weno/weno_matrices.cpp", S + "etc/globals.cpp",
      S + "scipy/poly.cpp"],
     [("scaled_nodes, scaled_weights, basis_polys", S + "solvers/poly/basis.cpp"),
      ("coefficient_matrices, oscillation_indicator", S + "solvers/weno/weno_matrices.cpp")],
     ["GPRpy.solvers.common, GPRpy.solvers.weno, GPRpy.classes.poly"],
     "property-based testing: exactness on generated polynomials against numpy",
     TOL)

prop("C09", "Interface fluxes are consistent, conservative and dissipative",
     """For every material and pair of physical states the numerical flux between them agrees
     with the physical flux when they coincide, gives both sides equal and opposite flux
     (mirrored or swapped states and other directions included), has the path integral of the
     non-conservative product, and its dissipation is that of its definition: the largest wave
     speed (Rusanov), the matrix absolute value at the mean (Roe) or along the path (Osher).""",
     ["inputs", "configurations"],
     """every pair of physical states, close or far apart, at rest or moving either way, in each
     direction, with the three fluxes, orders 2 and 3, with and without heat and reactions""",
     """The tests compare one flux at a few states of one fluid; the dissipation is a matrix
     function of the state that degenerates where eigenvalues coincide, as at rest.""",
     [S + "solvers/fv/fluxes.cpp", S + "solvers/fv/fv.cpp", S + "system/eig.cpp"],
     [("Bint, D_RUS, D_ROE, D_OSH", S + "solvers/fv/fluxes.cpp")],
     ["GPRpy.solvers.fv.Bint, D_RUS, D_ROE, D_OSH"],
     "property-based testing: matrix functions of an independent model's system matrix, "
     "consistency, mirror and permutation relations",
     "Roe's and Osher's fluxes are held to their definition where the eigenvectors of the "
     "model's matrix are well conditioned (others are skipped and counted). " + TOL)

prop("C12", "Predictor, ADER and split steps are the schemes they are named for",
     """For every material, grid and stable time step the ADER step is the finite volume update
     of the solution of the weak space-time problem in each cell, however that is found; the
     half step advances each node by half a time step; the split step is half a step of the
     ODEs, a step of the homogeneous scheme and half a step of the ODEs; and nothing outside the
     mask is touched or used.""",
     ["inputs", "configurations"],
     """every material, 1D and 2D grids, smooth and rough states, any mask, stiff and
     iterative predictors, orders 2 and 3, with and without heat and reactions""",
     """The tests only check that the problems can be set up; a predictor that does not converge
     or drops a term lowers the order of accuracy, which no comparison of one run shows.""",
     [S + "solvers/dg/dg1.cpp", S + "solvers/dg/dg2.cpp", S + "solvers/dg/initial_guess.cpp",
      S + "solvers/steppers.cpp", S + "solvers/split/homogeneous.cpp", S + "scipy/newton_krylov.cpp"],
     [("predictor1, predictor2", S + "solvers/dg/dg1.cpp"),
      ("ader_stepper, split_stepper", S + "solvers/steppers.cpp"),
      ("midstepper", S + "solvers/split/homogeneous.cpp")],
     ["GPRpy.solvers.ader_stepper, split_stepper, solvers.split.midstepper"],
     "property-based testing against an independent assembly of the schemes",
     "The predictor is compared where Picard iteration contracts, to the convergence tolerance "
     "of the code. " + TOL)

prop("C13", "The finite volume update is conservative, free-stream preserving and symmetric",
     """For every grid, reconstruction and material the update of a cell is the sum over its
     faces and interior of fluxes, non-conservative products and sources; what leaves a cell
     through a face enters its neighbour, so totals of conserved quantities only change through
     the boundary; uniform states do not change; mirrored and transposed grids are updated to
     mirrored and transposed results; masked cells are left alone.""",
     ["inputs", "configurations"],
     """every 1D and 2D grid, mask, time and space reconstruction and material, with each flux,
     orders 2 and 3, with and without heat and reactions""",
     """The tests have no run of the update; errors of one face, axis or time node keep a
     simulation plausible.""",
     [S + "solvers/fv/fv.cpp", S + "solvers/fv/fluxes.cpp", S + "system/equations.cpp"],
     [("fv_launcher", S + "solvers/fv/fv.cpp"),
      ("centers1, centers2, interfs1, interfs2", S + "solvers/fv/fv.cpp")],
     ["GPRpy.solvers.fv.fv_launcher"],
     "property-based testing: independent assembly of the update, conservation, free-stream and "
     "symmetry relations",
     TOL)

prop("C15", "Boundary conditions fill every ghost cell as their kind says",
     """On every side of every 1D or 2D grid the ghost cells are those of the kind of boundary
     (transitive, periodic, slip, stick or no-slip, symmetric, moving walls), so that walls pass no mass
     nor do work, reflections reflect every tensor component and periodic grids wrap; the mask
     is extended in step, and interior cells are copied unchanged.""",
     ["inputs", "configurations"],
     """every pair of kinds on every side, 1D and 2D grids down to the smallest, any states and
     masks, with and without heat, reactions and destressing walls""",
     """The tests do not run the boundaries; each kind, side and variable is a separate
     assignment, and corners depend on two sides.""",
     [S + "etc/grid.cpp", S + "solvers/utils.cpp"],
     [("boundaries, extend_mask", S + "etc/grid.cpp")],
     ["GPRpy.boundaries, GPRpy.extend_mask"],
     "property-based testing: independent model of the extended grid, wall flux relations",
     TOL)

prop("C20", "A run is the sequence of steps its scheme, CFL number and frames define",
     """A run of the solver takes, from the initial grid to exactly the final time, steps of the
     chosen scheme of the largest length the CFL number allows (a fifth of it in the first
     six), each followed by the upkeep of concentrations and distortions; its frames are the first
     states at or after each hundredth of the time, the last being the final state; a run that
     becomes undefined ends in its last two states; on periodic lines the totals of mass,
     momentum and energy are kept.""",
     ["inputs", "histories", "configurations"],
     """runs of 1 to 600 steps on 1D and 2D grids of any material, boundary kinds, schemes,
     fluxes and CFL numbers, stable or not""",
     """The tests run no simulation; the loop combines time, step count, frame count, upkeep
     every tenth step and the end of the run, which interact only over whole histories.""",
     [S + "solvers/iterator.cpp", S + "solvers/steppers.cpp", S + "solvers/utils.cpp"],
     [("iterator, timestep, limit_concentration", S + "solvers/iterator.cpp"),
      ("ader_stepper_para, split_stepper_para", S + "solvers/steppers.cpp")],
     ["GPRpy.solvers.iterator, timestep"],
     "property-based testing of whole histories: stepwise model of the run, conservation over it",
     "The model composes the code's own steps, boundaries and upkeep, which have properties of "
     "their own. " + TOL)

prop("C26", "Upkeep of the distortion changes no physics",
     """Renormalising distortions gives every cell with matter the multiple of its distortion
     whose determinant is the density over its own material's reference density; rotating them keeps
     strains, volumes and fluxes; cells count as contorted just if their volume-free strain is
     beyond the tolerance; a reset leaves isotropic distortions of the same volume
     and takes the shear energy with it, keeping density, momentum and pressure.""",
     ["inputs", "configurations"],
     "all grids of all distortions, of one or several materials, with vacuum",
     """None of the four routines has a test; what they must not change shows only in
     energies and fluxes of strained states.""",
     [S + "solvers/utils.cpp"],
     [("renorm_distortion, rotate_distortion, contorted, reset_distortion",
       S + "solvers/utils.cpp")],
     ["GPRpy.solvers.renorm_distortion, rotate_distortion, contorted; iterator for resets"],
     "property-based testing: invariants of the polar decomposition, energies from an independent "
     "model",
     TOL)

prop("C14", "Steps and runs do not depend on the number of threads",
     """A step of either scheme, shared among any number of threads (more or fewer than the grid
     has rows), gives every cell, on 1D and 2D grids, bit for bit what the step of the whole
     grid gives it; a run gives the same frames for any number of threads, time after time.""",
     ["inputs", "schedules", "configurations"],
     """every number of threads from 1 to 9 and grid of 2 to 16 rows, both schemes, all fluxes,
     masks, orders and options""",
     """The tests never call the parallel steppers; each thread steps its own share with its own
     copy of the rows beside it, and the shares of small grids can be empty.""",
     [S + "solvers/steppers.cpp", S + "solvers/weno/weno.cpp", S + "solvers/iterator.cpp"],
     [("ader_stepper_para, split_stepper_para", S + "solvers/steppers.cpp")],
     ["GPRpy.solvers.ader_stepper_para, split_stepper_para, iterator"],
     "property-based testing, differential: parallel against serial, repeated runs",
     "Schedules are those the system produces, not enumerated. " + TOL)

prop("C16", "Level sets are signed distances, and tell materials and interfaces apart",
     """Renormalised level sets keep their sign and interface: by it, they are the distance
     along the grid, and further off that of fast marching (in 1D, the true distance);
     they flip sign, scale, reflect and transpose with their data; a level set without an
     interface is kept. Gradients are central differences, exact on planes. The cells found to lie on
     an interface are those with a neighbour across it, lone cells apart; the indicator of each of
     up to four materials is negative in just its own cells.""",
     ["inputs", "configurations"],
     "all level sets on 1D and 2D grids, random, of bodies, or of whole numbers; 1 to 3 level sets",
     """Tests look at a few circles; thin bodies, edges of the domain, exact zeros and
     sets without an interface need all kinds of fields.""",
     [S + "multi/pfmm.cpp", S + "multi/functions.cpp", S + "multi/fill.cpp",
      "code/cpp/include/skfmm"],
     [("distance", S + "multi/pfmm.cpp"),
      ("renormalize_levelsets, finite_difference, material_indicator", S + "multi/functions.cpp"),
      ("find_interface_cells", S + "multi/fill.cpp")],
     ["GPRpy.multi.*, system.multi.distance"],
     "property-based testing: fast marching model, exact distances, metamorphic relations",
     TOL)

prop("C17", "Ghost cells extend each material by the star states of its interfaces",
     """Filling ghost cells leaves a material's own cells and the level sets alone; each ghost
     beside it has the star state of the Riemann problem between the material at the
     interface and the state a cell beyond, along the interface's normal; those further off
     copy nearer ones; masks hold just the own cells and the ghosts beside them; vacuums have
     neither. Plane interfaces along the grid in 2D give the ghosts of 1D. Nothing depends on the
     number of threads. The grid made of its materials has the mean level sets of those that
     were stepped and one material's state in each cell.""",
     ["inputs", "schedules", "configurations"],
     """all layouts of up to four materials, of all equations of state and rheologies and vacuum,
     on 1D and 2D grids with interfaces anywhere, also at the edges of the domain""",
     """Tests compare one layout to the Python code. Interfaces by the domain's edge, thin
     bodies, equal distances and vacuum take paths of their own.""",
     [S + "multi/fill.cpp", S + "solvers/iterator.cpp", S + "multi/functions.cpp"],
     [("fill_ghost_cells", S + "multi/fill.cpp"), ("make_u", S + "solvers/iterator.cpp")],
     ["GPRpy.multi.fill_ghost_cells, solvers.make_u"],
     "property-based testing: layout model, reduction of 2D to 1D, repeated runs on threads",
     "Star states themselves are taken from the code. " + TOL)

prop("C18", "Star states satisfy the interface's conditions and differ by outgoing waves",
     """The star states of both sides of an interface meet: normal tractions, normal velocities,
     temperatures and heat fluxes are equal; at stick interfaces all tractions and velocities
     are, at slip interfaces tangential tractions vanish. Next to a vacuum there is no traction
     and no heat flux. For small jumps each star state differs from its state by the
     eigenvectors of the waves that leave the interface. States that meet are unchanged. Star
     states turn, are mirrored and move with the interface. Level sets and mass fractions are
     unchanged. Whatever the states, results are a function of them, and star states that come
     to nothing are the state itself. Columns of eigen() are eigenvectors of the system: forward waves, then backward,
     then (without heat conduction) those that move with the material.""",
     ["inputs", "configurations"],
     """all pairs of materials of any equation of state, shear modulus law and rheology whose
     tractions, velocities and temperatures differ by a few per cent of their scales at most,
     all normals in 3D, slip and stick interfaces, with and without heat conduction""",
     """Tests compare one pair of states with the Python code, which has the same formulas (and
     the same mistakes).""",
     [S + "system/multi/riemann.cpp", S + "system/multi/conditions.cpp",
      S + "system/multi/eigenvecs.cpp", S + "system/multi/rotations.cpp"],
     [("left_star_state", S + "system/multi/riemann.cpp"),
      ("stick_bcs, slip_bcs", S + "system/multi/conditions.cpp"),
      ("eigen", S + "system/multi/eigenvecs.cpp")],
     ["GPRpy.system.multi.left_star_state, eigen"],
     "property-based testing: interface conditions of an independent model, its eigenvectors, "
     "metamorphic relations",
     "Larger jumps, for which the iteration of the code may not converge, are not claimed. " + TOL)

prop("C21", "Runs of materials are put together from theirs, and share the model's symmetries",
     """A run of several materials is, bit for bit, the sequence of ghost cells, common time step,
     steps of each material but vacuum and reassembly of the grid. Materials that occur nowhere do
     not matter, nor which one it is that fills the domain. Contacts between unstressed materials
     of one pressure and velocity are carried along: pressure, velocity and states are
     kept, interfaces end where the velocity takes them. Runs of mirrored data are mirrored;
     symmetric boundaries act as the mirror image of the domain; 2D runs of data varying along one
     axis are 1D runs; shifts of periodic grids and changes of the units of length and time
     commute with runs.""",
     ["inputs", "histories", "configurations"],
     """runs of up to 60 steps of up to four materials and vacuum on 1D and 2D grids, any boundary
     kinds, materials, schemes and slip or stick interfaces""",
     """The tests run no simulation. Symmetries of whole runs tie boundaries, reconstruction,
     fluxes, sources and time steps together without a reference solution.""",
     [S + "solvers/iterator.cpp", S + "multi/fill.cpp", S + "solvers/steppers.cpp",
      S + "solvers/utils.cpp", S + "etc/grid.cpp"],
     [("iterator, make_u", S + "solvers/iterator.cpp"),
      ("fill_ghost_cells", S + "multi/fill.cpp")],
     ["GPRpy.solvers.iterator"],
     "property-based testing of whole histories: stepwise model, metamorphic relations of runs",
     "Steps and ghost cells of the stepwise model are the code's own. " + TOL)

prop("C08", "Integrators have their order, and reactions burn by their rate",
     """The explicit integrator has the error of a fourth order Runge-Kutta method of as many steps,
     and seeks a solution that comes to nothing again in more steps; the implicit integrator is the
     discontinuous Galerkin method in time, of linear equations its Padé approximant however
     stiff. A reaction step solves the rate equation of the reactant to the same error, keeps its
     fraction between zero and what it was, and changes nothing else; materials that do not
     react are unchanged.""",
     ["inputs", "configurations"],
     """all equations with smooth rates, time steps and numbers of steps; all reactive materials and
     states, from steps in which hardly anything burns to those in which all of it does""",
     """The tests take no reaction step, and integrate one equation.""",
     [S + "solvers/split/rk.cpp", S + "solvers/split/numeric.cpp",
      S + "system/relaxation/numerical.cpp"],
     [("runge_kutta_launcher", S + "solvers/split/rk.cpp"),
      ("ode_stepper_numerical", S + "system/relaxation/numerical.cpp")],
     ["GPRpy.solvers.split.runge_kutta_launcher, stiff_ode_solve",
      "GPRpy.system.ode_stepper_numerical"],
     "property-based testing: exact solutions, Padé approximants, a reference integrator of the "
     "reference rate",
     "Thresholds of a rate within a step are only bounded. " + TOL)

prop("C23", "Iterative solvers solve, whatever was solved before",
     """Well-conditioned linear systems of any size, scale and right side are solved to the
     tolerance asked for, from any first guess, with any sensible preconditioner and any number of
     vectors kept; nonlinear systems near to linear ones are solved to theirs. A guess
     that is good enough is returned as it is, the residual never grows, and solutions
     are functions of what is passed and not of systems solved before.""",
     ["inputs", "histories"],
     """systems of up to 40 unknowns whose symmetric part is positive definite, of condition up to
     some tens, in any order""",
     """The test of the linear solver compares one random system with scipy; none solves two of
     different sizes.""",
     [S + "scipy/lgmres.cpp", S + "scipy/newton_krylov.cpp"],
     [("lgmres", S + "scipy/lgmres.cpp"), ("nonlin_solve", S + "scipy/newton_krylov.cpp")],
     ["GPRpy.scipy.lgmres_wrapper, newton_krylov"],
     "property-based testing: residuals of exactly known systems, sequences of calls",
     "Singular and ill-conditioned systems are not claimed. " + TOL)

prop("C24", "Materials and states made in Python are those that were asked for",
     """The parameters that the Python package makes for a material are those that were
     asked for, squared, scaled and defaulted as the model means them, with the rheology that they
     imply, and the solver's pressure, temperature, flux and sources are the model's for
     that material, whatever was made before. The second material of a mixture has its own
     equation of state and parameters. The conserved variables made of a primitive state
     hold that state, and the solver finds it in them.""",
     ["inputs", "configurations"],
     """all combinations of equation of state, rheology, heat conduction and reaction, parameters of
     any scale, with and without shear, heat and reactant""",
     """The tests build the same two materials by the code that would be wrong, and compare
     two solvers on them.""",
     ["code/python/gpr/misc/objects.py", "code/python/gpr/misc/structures.py",
      "code/python/gpr/vars/eos.py", S + "etc/types.h"],
     [("material_params", "code/python/gpr/misc/objects.py"),
      ("Cvec", "code/python/gpr/misc/structures.py")],
     ["gpr.misc.objects.material_params", "gpr.misc.structures.Cvec"],
     "property-based testing: parameters and states against an independent model, round trips "
     "through both languages",
     "Temperatures and pressures of mixtures are not claimed, only their parameters. " + TOL)

prop("C25", "The Python package's closures are the model's",
     """Every quantity that the Python package derives of a state (primitive variables,
     strain, stress and its derivatives, heat flux, energies and their derivatives, relaxation
     and reaction rates, wave speeds) is that of the model, for every equation of state,
     rheology and reaction; reading a state does not change it. Energies add up and invert to
     pressures. Hyperelastic states of deformation and entropy are those of the solver's material
     of the same parameters.""",
     ["inputs", "configurations"],
     "every material and physical state, with and without heat conduction and reactions",
     """The tests compare the Python with the C++ code for two materials, where most branches are
     not taken; four of these raised errors as soon as they were.""",
     ["code/python/gpr/misc/structures.py", "code/python/gpr/misc/functions.py",
      "code/python/gpr/vars/mg.py", "code/python/gpr/vars/eos.py",
      "code/python/gpr/vars/shear.py", "code/python/gpr/vars/state.py",
      "code/python/gpr/vars/sources.py", "code/python/gpr/vars/derivatives.py",
      "code/python/gpr/vars/wavespeeds.py", "code/python/gpr/vars/hyp.py"],
     [("State", "code/python/gpr/misc/structures.py"),
      ("e_ref, p_ref", "code/python/gpr/vars/mg.py")],
     ["gpr.misc.structures.State", "gpr.vars"],
     "property-based testing against an independent model and its complex-step derivatives",
     "Prototypes in gpr.sys and gpr.multi are not claimed. " + TOL)

prop("C28", "Operations keep to their arguments and are functions of them",
     """No operation of the solver, from closures to whole runs of several materials, reads or
     writes memory that is not its own or has undefined arithmetic; and what each
     returns and leaves in its arguments is, bit for bit, a function of these: it does not depend
     on what memory, registers or stack held before.""",
     ["inputs", "histories", "configurations"],
     """all operations that the other properties cover, on their inputs""",
     """The tests run one build on a few inputs without a sanitizer; reads of uninitialised memory
     show only when that memory happens to hold something else.""",
     [S + "solvers", S + "multi", S + "system"],
     [("all operations", S)],
     ["GPRpy"],
     "property-based fuzzing of all operations under sanitizers, and twice with the heap and stack "
     "filled with different bytes",
     "Driven by the generators of the other properties. Reads of uninitialised memory that both "
     "fillings happen to hide are missed. " + TOL)

NOT_APPLICABLE = []


def main():
    with open(f"{VERIF}/properties.jsonl", "w", encoding="utf8") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}},
                ensure_ascii=False) + "\n")
    checks = []
    variants = []
    for p in sorted(P, key=lambda p: p["id"]):
        src = open(f"{VERIF}/harness/props/{p['id'].lower()}.py", encoding="utf8").read()
        checks.append({
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"]})
    with open(f"{VERIF}/MANIFEST.json", "w", encoding="utf8") as f:
        json.dump({"version": 1,
                   "setup_cmd": "python3 harness/setup.py",
                   "checks": checks, "not_applicable": NOT_APPLICABLE,
                   "notes": "All checks: ./check ID [--replay FILE]; see DESIGN.md. "
                            "No hooks in /repo are needed."},
                  f, ensure_ascii=False, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
