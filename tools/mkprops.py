"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
S2 = "sopht/numeric/eulerian_grid_ops/stencil_ops_2d/"
S3 = "sopht/numeric/eulerian_grid_ops/stencil_ops_3d/"
P2 = "sopht/numeric/eulerian_grid_ops/poisson_solver_2d/"
P3 = "sopht/numeric/eulerian_grid_ops/poisson_solver_3d/"
IB = "sopht/numeric/immersed_boundary_ops/"
EB = IB + "experimental/"
U = "sopht/utils/"
COMMON = "The shipped tests run one random cubic/square grid of 16 points per kernel, one thread count, dynamic grid size, contiguous arrays and compare within 1000 eps, once per kernel; "
props = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook, **({"state": state} if state else {}))))

CFG = "every dtype (single/double), thread setting, fixed or dynamic grid size, grid shape (square or not, odd, tiny, larger), scalar/vector variant, finite field contents and prefactor (negative, zero, large, tiny)"

P("C01", "Diffusion is the discrete Laplacian, conservative inside, zero on ghosts",
  "For any grid shape, precision and field, the diffusion flux at every interior point is prefactor times the 5-point (2D) or 7-point (3D) sum of neighbours minus centre; on the one-cell ghost ring it is exactly zero when ghost reset is on and left as it was when reset is off. The Euler diffusion step adds exactly that flux to the field, so the ghost ring of the field never changes, constant fields never change, and the result does not depend on what the flux buffer held before; vector variants do this for each component.",
  ["inputs", "configurations", "histories"], CFG + "; and repeated steps with arbitrary stale flux buffers.",
  COMMON + "so per-axis mix-ups, boundary-only errors, stale-flux dependence and shape- or option-specific errors are not reached.",
  [S2+"diffusion_flux_2d.py", S2+"diffusion_timestep_2d.py", S3+"diffusion_flux_3d.py", S3+"diffusion_timestep_3d.py"],
  [("stencil + ghost ring reset", S2+"diffusion_flux_2d.py gen_diffusion_flux_pyst_kernel_2d"), ("in-place Euler update", S3+"diffusion_timestep_3d.py")],
  ["arrays passed to the generated kernels, before and after each call"])

P("C02", "Advection is conservative upwind ENO3 with one shared flux per cell face",
  "The advection flux adds, to every point at least two cells from all boundaries, inverse-spacing times the difference of its two face fluxes along each axis, each face flux being the third-order ENO combination (1/3, 5/6, -1/6) biased to the upwind side chosen by the sign of the sum of the two adjacent velocities of that axis; both cells sharing a face use the same flux, so the sum telescopes. It accumulates into the flux array and touches nothing closer than two cells to a boundary. The Euler advection step clears the flux and subtracts dt/dx times the flux difference from the field; the vector variant advects each component with the same velocity.",
  ["inputs", "configurations", "histories"], CFG + ", and every sign pattern of neighbouring velocities including ties and zeros.",
  COMMON + "with random velocities in [0,1) style fields the downwind branch, ties and per-axis branch selection are barely or never reached, and accumulation into a non-zero flux is not checked.",
  [S2+"advection_flux_2d.py", S2+"advection_timestep_2d.py", S3+"advection_flux_3d.py", S3+"advection_timestep_3d.py"],
  [("front/back face kernels per axis", S3+"advection_flux_3d.py"), ("flux clear, accumulate, in-place add", S3+"advection_timestep_3d.py")],
  ["flux and field arrays before and after each call"])

P("C03", "Curl and divergence are the centred operators and compose to zero",
  "The 2D in-plane curl, 2D out-of-plane curl, 3D curl and 3D divergence equal the centred-difference operators with x on the last axis, y on the second last and z on the third last, with the sign convention curl_x = d f_z/dy - d f_y/dz and cyclic, times the given prefactor (one half of the inverse spacing for the divergence). The ghost ring of the output is zero when ghost reset is on and untouched otherwise (always untouched for the 2D in-plane curl). Two cells away from the boundary the divergence of a curl is zero.",
  ["inputs", "configurations"], CFG + ", ghost reset on and off.",
  COMMON + "and each operator is only compared with a re-implementation on one cubic grid; compositions and untouched ghost rings are never checked.",
  [S2+"inplane_field_curl_2d.py", S2+"outplane_field_curl_2d.py", S3+"curl_3d.py", S3+"divergence_3d.py"],
  [("component stencils", S3+"curl_3d.py"), ("ghost reset", S2+"outplane_field_curl_2d.py")],
  ["output arrays of the kernels"])

P("C04", "Velocity forcing enters vorticity as an accumulated curl, in both forms",
  "Updating vorticity from a velocity forcing adds prefactor times the centred curl of the forcing at every interior point and leaves the one-cell boundary ring of the vorticity unchanged. Updating from a penalised velocity gives the same result as updating from the forcing (penalised velocity minus velocity). In both forms the previous vorticity is kept and only incremented, and neither velocity array is modified.",
  ["inputs", "configurations", "histories"], CFG + "; any sequence of forcing updates.",
  COMMON + "the equivalence of the two forms and repeated accumulation are never exercised.",
  [S2+"update_vorticity_from_velocity_forcing_2d.py", S3+"update_vorticity_from_velocity_forcing_3d.py"],
  [("fused curl of difference", S3+"update_vorticity_from_velocity_forcing_3d.py gen_update_vorticity_from_penalised_velocity_pyst_kernel_3d")],
  ["vorticity array before and after"])

P("C05", "Vortex stretching uses the full velocity gradient; steps are consistent in time",
  "The 3D stretching flux of each component is prefactor times the local vorticity dotted with the centred gradient of that velocity component, and zero on the one-cell boundary ring. The forward Euler step adds exactly this flux to the vorticity, all components using the vorticity from before the step; the three-stage SSP-RK3 step is the convex combination 3/4-1/4 and 1/3-2/3 of three full Euler stages. Boundary vorticity never changes and results do not depend on prior contents of the flux or mid-step buffers.",
  ["inputs", "configurations", "histories"], CFG + "; repeated steps with stale buffers.",
  COMMON + "the reference in the tests repeats the implementation's stage coefficients, and stale buffers and repeated steps are not exercised.",
  [S3+"vorticity_stretching_flux_3d.py", S3+"vorticity_stretching_timestep_3d.py"],
  [("single component flux kernel applied three times", S3+"vorticity_stretching_flux_3d.py"), ("stage buffers and saxpby combination", S3+"vorticity_stretching_timestep_3d.py")],
  ["vorticity and flux arrays before and after"])

P("C06", "Brinkmann penalisation on the grid is the implicit blend towards the target",
  "At every grid point the penalised field equals (field + factor*indicator*target)/(1 + factor*indicator), with the target read from a field or given as a fixed value per component. Hence it is the unchanged field where the indicator or the factor is zero, lies between field and target for non-negative factor and indicator, and keeps any field already equal to its target. It holds at every point including the boundary, also when the output array is one of the inputs.",
  ["inputs", "configurations"], CFG + "; any non-negative factor and indicator, in place or out of place.",
  COMMON + "extreme factors, zero indicators, in-place use and per-component target values are not covered.",
  [S2+"brinkmann_penalise_2d.py", S3+"brinkmann_penalise_3d.py"],
  [("pointwise implicit penalisation kernel", S2+"brinkmann_penalise_2d.py")], ["penalised field array"])

P("C07", "The characteristic function is the sine Heaviside of the level set",
  "For every level set value the characteristic function is 0 below minus the blend width, 1 above the blend width, and (1 + phi/w + sin(pi phi/w)/pi)/2 in between including both ends, so it is monotone, continuous, within [0,1], equal to one half at zero, and complementary under change of sign of the level set. This holds pointwise for any blend width, grid shape and precision, independent of grid position.",
  ["inputs", "configurations"], "every blend width > 0, every level set value inside, outside and exactly at the blend zone ends, every configuration.",
  "The tests use one blend width and a level set whose values rarely fall at or beyond the blend limits on both sides.",
  [S2+"char_func_from_level_set_2d.py", S3+"char_func_from_level_set_3d.py"],
  [("piecewise sine Heaviside kernel", S2+"char_func_from_level_set_2d.py")], ["char_func_field array"])

P("C08", "Boundary penalisation damps the outer zone by a sine ramp and nothing else",
  "With zone width w > 0 every point at least w cells from all boundaries is unchanged, and every point of the zone becomes the value of the nearest point of the inner edge of the zone times, for each axis along which it lies in the zone, sin(pi/2 * distance to that boundary / (w*dx)); the outermost layer becomes zero. Width zero changes nothing. This holds for all widths that fit twice in the grid (including width one), all grid shapes, grid origins and spacings, symmetrically at both ends of each axis and for each component of a vector field, and the coordinate arrays are never modified.",
  ["inputs", "configurations"], "every zone width from 0 up to half the smallest grid extent, every grid shape, origin, spacing and configuration.",
  "The tests use a single width on one cubic grid with origin at half a cell.",
  [S2+"penalise_field_boundary_2d.py", S3+"penalise_field_boundary_3d.py"],
  [("edge value broadcast followed by sine kernels per side", S3+"penalise_field_boundary_3d.py")], ["field array before and after"])

P("C09", "Elementwise kernels compute exactly their formula at exactly their points",
  "Sum, copy, fixed-value set, fixed-value add, saxpby, complex product and cross product produce at every point exactly the value of their formula from the operands of that same point, including when the output is also an operand for the kernels that are used in place (sum, saxpby, add). Setting a fixed value at boundaries changes exactly the points within the given width of some boundary and leaves all inner points untouched, with one value per component for vector fields. Copying moves infinities and NaN like any other value.",
  ["inputs", "configurations"], CFG + "; every boundary width that fits the grid; in place and out of place; strided sub-array views.",
  COMMON + "in-place use, sub-array views, boundary widths other than the tested one and non-square shapes are not covered.",
  [S2+"elementwise_ops_2d.py", S3+"elementwise_ops_3d.py"],
  [("pointwise kernels", S2+"elementwise_ops_2d.py"), ("four/six slabs", S3+"elementwise_ops_3d.py gen_set_fixed_val_at_boundaries_pyst_kernel_3d")],
  ["output arrays, including views into larger buffers"])

P("C10", "The Laplacian filter removes only high wavenumbers, for any order and buffers",
  "The order-p filter subtracts from the field the p-fold second-difference (one quarter of 2 centre minus neighbours, zero on the boundary ring): in multiplicative form along x, y and z applied together, in convolution form one axis after the other. Fields that are linear along an axis lose nothing inside, and the result does not depend on what the two scratch buffers held before the call. Order zero leaves the field unchanged, and the boundary ring of the field never changes.",
  ["inputs", "configurations", "histories"], "every filter order >= 0, both filter types, scalar and vector fields, any grid shape, any stale scratch contents, repeated application.",
  "The tests use orders 1 and 2 with zeroed scratch buffers, one application on one cubic grid.",
  [S3+"laplacian_filter_3d.py"], [("x, y, z second-difference kernels through two scratch buffers", S3+"laplacian_filter_3d.py")],
  ["field array before and after"])

P("C11", "Vector kernels act componentwise and never mix or skip components",
  "Every kernel generated for a vector field gives, for each component, bitwise or to rounding the result of the scalar kernel on that component with the matching per-component parameter, for any contents of the other components. Permuting the components of the input (and parameters) permutes the output the same way. Sharing one scratch buffer between components never leaks data from one component to the next.",
  ["inputs", "configurations"], "every kernel with scalar and vector variants in 2D and 3D, all contents of other components, all configurations.",
  "Tests compare one random vector field per kernel, usually with the same statistics and parameters in all components; relations between variants are never checked.",
  [S2+"elementwise_ops_2d.py", S3+"elementwise_ops_3d.py", S3+"diffusion_timestep_3d.py", S3+"advection_timestep_3d.py", S2+"brinkmann_penalise_2d.py", S3+"brinkmann_penalise_3d.py", S3+"laplacian_filter_3d.py", S3+"penalise_field_boundary_3d.py"],
  [("component loops written out by hand around scalar kernels", S3+"diffusion_flux_3d.py")], ["vector arrays before and after, against scalar runs"])

P("C12", "Results do not depend on the number of threads or on their schedule",
  "Every generated kernel and solver yields the same result for every number of threads, including more threads than rows and no threading. No parallel loop lets one point write memory that another point of the same loop reads or writes, so every interleaving of its iterations ends in the same memory.",
  ["schedules", "configurations"], "every interleaving of the parallel loop iterations of every kernel launch and every thread count from none to more than the number of rows.",
  "Tests run with one thread count and see one interleaving per run; a race would show only now and then.",
  [S2+"elementwise_ops_2d.py", S3+"elementwise_ops_3d.py", S3+"vorticity_stretching_timestep_3d.py", S3+"laplacian_filter_3d.py", P2+"UnboundedPoissonSolverPYFFTW2D.py", P3+"UnboundedPoissonSolverPYFFTW3D.py", U+"pyst_kernel_config.py"],
  [("independent iterations, separate flux/scratch buffers", S3+"laplacian_filter_3d.py"), ("OpenMP configuration", U+"pyst_kernel_config.py get_pyst_kernel_config")],
  ["addresses, shapes and access offsets of the arrays of each kernel launch; final arrays per thread count"])

P("C13", "Kernels write only their declared outputs, and only inside their region",
  "No kernel, solver or interpolation changes any array passed as a pure input (fields, velocities, coordinates, indicator, right-hand side, weights), nor any memory outside the arrays it is given, including the rest of a buffer of which it received a view. Points of an output outside the documented region of the operation (the untouched ghost ring when reset is off, the inner points for boundary setters) keep their value.",
  ["inputs", "configurations", "histories"], "every public kernel and solver, any array contents, contiguous arrays and views embedded in larger buffers.",
  "Tests only look at the output array; changes to inputs or neighbours go unnoticed.",
  [S2+"__init__.py", S3+"__init__.py", P2+"UnboundedPoissonSolverPYFFTW2D.py", P2+"FastDiagPoissonSolver2D.py", IB+"EulerianLagrangianGridCommunicator2D.py"],
  [("ghost layers of the generated loops", S3+"diffusion_flux_3d.py"), ("separate solver buffers", P2+"UnboundedPoissonSolverPYFFTW2D.py")],
  ["all arrays in the process, before and after each call"])

P("C14", "Results do not depend on compile options, precision choice or memory layout",
  "A kernel generated for a fixed grid size, for a dynamic grid size, for single or for double precision, and applied to contiguous arrays or to strided views, computes the same function: same inputs give the same outputs up to the rounding of the chosen precision. Double precision kernels keep double precision accuracy in all constants and intermediates. Scaling all fields by a power of two scales the result accordingly, so there are no hidden absolute thresholds.",
  ["configurations", "inputs"], "every combination of dtype, fixed/dynamic size, strides and field scale for every kernel generator.",
  "Tests fix the grid size option and use O(1) values and tolerances of 1000 eps, and never compare configurations.",
  [U+"pyst_kernel_config.py", U+"precision.py", S2+"advection_flux_2d.py", S3+"advection_flux_3d.py", S2+"diffusion_flux_2d.py"],
  [("dtype and default float configuration", U+"pyst_kernel_config.py"), ("grid_info strings", S2+"diffusion_flux_2d.py")], ["output arrays per configuration"])

P("C15", "Any history of calls is the composition of its calls; no hidden state leaks",
  "For every sequence of kernel and solver calls on shared arrays, with several kernel instances alive and scratch buffers shared between them, the arrays end up exactly as if each call had been applied in order as a pure function of its declared inputs. Calling a generated kernel or solver again with the same inputs gives the same result, whatever was computed in between, also by another instance.",
  ["histories", "configurations"], "every finite history of public kernel and solver calls over a shared pool of arrays and scratch buffers.",
  "Every test builds fresh objects and calls each kernel once; no test runs two operations in sequence on the same arrays.",
  [S3+"vorticity_stretching_timestep_3d.py", S3+"laplacian_filter_3d.py", P2+"UnboundedPoissonSolverPYFFTW2D.py", P3+"UnboundedPoissonSolverPYFFTW3D.py", P2+"FastDiagPoissonSolver2D.py", P3+"FastDiagPoissonSolver3D.py"],
  [("buffers overwritten before use", P2+"UnboundedPoissonSolverPYFFTW2D.py solve"), ("mid-step buffer views", S3+"vorticity_stretching_timestep_3d.py")],
  ["all pool arrays after each call"])

P("C16", "The unbounded Poisson solver is the free-space convolution, without images",
  "The solution at every cell equals the cell volume times the sum over all cells of the right-hand side times the free-space Green's function of their distance (-log r / 2pi in 2D, 1/(4 pi r) in 3D, with the documented regularised value at zero distance). Hence it is linear, shift-equivariant, symmetric between source and target, free of periodic images for sources anywhere including corners, for any non-square even or odd grid, domain size, precision and thread count, and each solve is independent of earlier ones; vector solves act per component. The solution may be written over its own right-hand side array.",
  ["inputs", "configurations", "histories"], "every right-hand side, grid shape, domain length, precision, thread count and sequence of solves.",
  "Tests solve one smooth or random right-hand side on one grid with one domain length, once per solver object.",
  [P2+"UnboundedPoissonSolverPYFFTW2D.py", P3+"UnboundedPoissonSolverPYFFTW3D.py"],
  [("domain doubling and reflected Green's function", P2+"UnboundedPoissonSolverPYFFTW2D.py construct_fourier_greens_function_field")], ["solution_field"])

P("C17", "The fast-diagonalisation solver inverts the Neumann Laplacian with zero mean",
  "The solution has zero mean and its discrete negative Laplacian with homogeneous Neumann boundaries (half-cell shifted) equals the right-hand side minus its mean, for any grid shape (not only cubic, at least two cells along each axis), spacing and right-hand side, at the accuracy of the chosen precision. The mean of the right-hand side has no influence, the right-hand side is not modified (unless it is passed as the solution array too, which is allowed), and repeated or interleaved solves (scalar or vector) are independent.",
  ["inputs", "configurations", "histories"], "every right-hand side (zero mean or not), grid shape, spacing, precision, sequence of solves.",
  "Tests use one manufactured right-hand side on a cubic grid, one solve per object.",
  [P2+"FastDiagPoissonSolver2D.py", P3+"FastDiagPoissonSolver3D.py"],
  [("per-axis eigen-decomposition, mean mode removed", P2+"FastDiagPoissonSolver2D.py compute_spectral_decomp_of_poisson_matrices")], ["solution_field"])

P("C18", "FFT wrappers transform exactly and invert, for every grid and repeated use",
  "The forward plan gives the unnormalised discrete Fourier transform over all grid axes with the half spectrum on the last axis, and the inverse plan returns the normalised inverse, so forward then inverse reproduces the field; the scipy reference wrapper computes the same pair. The field given to the forward transform is not changed, results are independent of earlier transforms, of thread count and of array values, in both precisions.",
  ["inputs", "configurations", "histories"], "every field, grid shape, precision, thread count and sequence of transforms.",
  "Tests do one round trip on one cubic grid, so an error that cancels between forward and inverse transform is invisible.",
  [P2+"FFTPyFFTW2D.py", P3+"FFTPyFFTW3D.py", P2+"scipy_fft_2d.py", P3+"scipy_fft_3d.py"],
  [("pyfftw plans", P2+"FFTPyFFTW2D.py _create_fftw_plan")], ["fourier_field, inv_fourier_field"])

P("C19", "Lagrangian supports and delta weights are the tensor-product kernel",
  "For every Lagrangian node away from the domain boundary the base index is the floor of its shifted position over the spacing on every axis, and the support distances are the positions of the surrounding 4^d grid points relative to the node, x first. Cosine and Peskin weights are the tensor product of the one-dimensional kernel at those distances divided by the spacing, non-negative, and sum to one times the inverse cell volume (Peskin also has zero first moment). This holds for any spacing, coordinate shift, node count and precision.",
  ["inputs", "configurations"], "every node position inside the domain, spacing, shift, number of nodes, precision and kernel type, 2D and 3D.",
  "These modules need numba and their tests place a few nodes on one regular pattern.",
  [IB+"EulerianLagrangianGridCommunicator2D.py", IB+"EulerianLagrangianGridCommunicator3D.py"],
  [("floor division and tiled offsets", IB+"EulerianLagrangianGridCommunicator2D.py generate_local_eulerian_grid_support_of_lagrangian_grid_kernel_2d"), ("delta kernels", IB+"EulerianLagrangianGridCommunicator3D.py")],
  ["support, index and weight arrays"])

P("C20", "Interpolation and spreading are local, exact transposes, and conserve totals",
  "Interpolation gives each node the weighted sum of the 4^d grid values of its support times the cell volume; spreading adds each node's value times its weights to exactly those grid points, accumulating over nodes with overlapping support and onto prior contents, and touches nothing else. With the same weights the two are transposes of each other and spreading conserves the total, for scalar and vector fields in 2D and 3D, in any node order.",
  ["inputs", "configurations"], "every weights array, node arrangement (overlapping, coincident, permuted), component count, grid shape.",
  "The tests need numba, use non-overlapping or single patterns, and never check adjointness or accumulation.",
  [IB+"EulerianLagrangianGridCommunicator2D.py", IB+"EulerianLagrangianGridCommunicator3D.py"],
  [("slice gather / slice accumulate", IB+"EulerianLagrangianGridCommunicator2D.py")], ["lag_grid_field and eul_grid_field arrays"])

P("C21", "Virtual boundary forcing is the PI controller of the velocity mismatch",
  "After each interaction call the Lagrangian force is stiffness times accumulated position mismatch plus damping times (interpolated flow velocity minus body velocity), and the Eulerian force is its spread, replacing the previous force when reset is enabled and added to it otherwise. Only a time step advances the accumulated mismatch, by dt (of any sign) times the latest velocity mismatch, and the clock by dt from the start time; interaction calls alone never do. Flow, body position and body velocity arrays are never modified and separate forcing objects never influence each other.",
  ["histories", "inputs", "configurations"], "every interleaving of interaction calls and time steps with moving bodies and changing flow, 2D and 3D, reset on or off.",
  "The tests (which need numba) call each method once from a fresh object.",
  [IB+"VirtualBoundaryForcing.py"],
  [("mismatch integrators", IB+"VirtualBoundaryForcing.py time_step"), ("reset wrapper", IB+"VirtualBoundaryForcing.py")],
  ["lag_grid_forcing_field, lag_grid_position_mismatch_field, eul_grid_forcing_field, time"])

P("C22", "Lagrangian Brinkmann forcing is the implicit penalty of the interpolated flow",
  "Each interaction call sets the Lagrangian penalised velocity to (flow + coeff*dt*body)/(1 + coeff*dt) with flow the interpolated velocity, the flux to penalised minus flow, and the forcing to flux times cell volume over dt; the Eulerian flux is the flux spread with weights times cell volume, replacing earlier contents when reset is enabled and accumulating otherwise. No call depends on earlier calls and no input array is modified.",
  ["histories", "inputs", "configurations"], "every sequence of calls with different dt, coefficients and node positions, 2D and 3D, reset on or off.",
  "The tests need numba and make one call from a fresh object.",
  [EB+"BrinkmannBoundaryForcing.py"], [("implicit update", EB+"BrinkmannBoundaryForcing.py brinkmann_penalise_lag_grid_velocity_field")],
  ["lag_grid_* fields and eul_grid_penalisation_flux"])

P("C23", "Save then load restores every registered array, time and nothing else",
  "After any sequence of registrations, array changes, saves and loads, loading a file returns the time given to the save that last wrote it and puts into every registered Eulerian and Lagrangian array and Lagrangian grid exactly the values (bit for bit, including signs, infinities and NaN) it held at that save, into the same arrays in place. This holds for several grids and fields, the same field name on different grids, grids without fields, node counts equal to the dimension, several IO objects and files, overwritten files and partial registrations in the loading object. Saving changes no array.",
  ["histories", "inputs", "configurations"], "every history of define/add/mutate/save/load over several IO objects, files, grids and fields in 2D and 3D.",
  "Tests do one save and one load with one or two grids, distinct field names and generic node counts.",
  [U+"IO.py"], [("registries keyed by names", U+"IO.py add_as_lagrangian_fields_for_io"), ("dataset per component / transposed Lagrangian data", U+"IO.py _save, load")],
  ["arrays and returned time after load"],
  [dict(name="registry", meaning="which arrays are saved and loaded under which name", where=U+"IO.py"), dict(name="file", meaning="contents of the HDF5 file", where="disk")])

P("C24", "Mismatched registrations and loads are refused, never silently accepted",
  "Registering an Eulerian field before the grid is defined, or any field or grid whose shape is neither scalar nor vector for its grid, raises an error. Loading raises an error when the file lacks a registered grid or field (or holds it as the other kind), when a registered Lagrangian grid has another number of nodes, or, with Eulerian fields registered, when the Eulerian origin, spacing or grid size of the file differ from the registered ones. It never returns normally with an array left unrestored.",
  ["histories", "fault_sequences", "configurations"], "every combination of registered set and file contents that do not match in one or more names, kinds, shapes or parameters.",
  "Tests only follow the matching path.",
  [U+"IO.py"], [("assertions on keys and parameters", U+"IO.py load"), ("shape classification", U+"IO.py add_as_eulerian_fields_for_io")], ["exceptions and arrays after a refused call"])

P("C25", "The saved file set is complete and self-describing for visualisation",
  "Every save writes one HDF5 file holding each registered scalar and vector component in the documented group layout (2D data with a leading unit axis, Lagrangian data with nodes first, grid, optional connection, parameters, time), plus one XDMF file for the Eulerian grid (when it has fields) and one per Lagrangian grid next to it. Every data reference in these XDMF files names an existing dataset of that HDF5 file whose shape (up to leading unit axes), element size and kind agree with the description, and origin, spacing, topology, node count, time and field list agree with the HDF5 contents. No save damages its own HDF5 file or files of another name.",
  ["histories", "configurations"], "every set of registered grids and fields, file name (with or without extension, with directories), dimension and precision.",
  "No test opens an XDMF file or inspects the HDF5 layout.",
  [U+"IO.py"], [("XDMF templates", U+"IO.py generate_xdmf_eulerian, generate_xdmf_lagrangian")], ["files on disk after save"])

P("C26", "Invalid configurations are rejected when a kernel or solver is built or called",
  "Every kernel generator, forcing or communicator class, saver and solver rejects, with an error, an invalid value of each option it validates: field type, filter type or order, non-positive or non-integer boundary width, negative or non-integer penalisation width, wrong grid dimension, component count, interpolation kernel type or width, and (stencil generators, unbounded solvers, transforms, forcing with force reset) a real type other than single or double; valid values are accepted. A generated kernel rejects arrays of the wrong precision, of mutually different grid shapes or of a grid shape other than its fixed size, leaving its outputs (not its scratch buffers) unchanged, and vectors with too few components; matching arrays are accepted. Precision names map to exactly single and double precision and their test tolerance.",
  ["configurations", "inputs"], "every generator and every invalid value of each validated option; valid values are all accepted.",
  "Tests only use valid options except for the precision name.",
  [U+"precision.py", U+"pyst_kernel_config.py", S2+"elementwise_ops_2d.py", S3+"laplacian_filter_3d.py", IB+"VirtualBoundaryForcing.py"],
  [("assertions in generators", S2+"elementwise_ops_2d.py"), ("dtype mapping", U+"pyst_kernel_config.py get_pyst_dtype")], ["exceptions raised by generators and kernels"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(props))
