"""Writes /verif/properties.jsonl (kept as code: easier to review than one-line JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(qtext.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

PY = "pypeec/"
T6 = "The existing tests compare six scalars (voxel counts, frequency, convergence flag, total loss, total energy) of 24 fixed examples with stored values; "

prop("C01", "Solver fields solve the discretised PEEC equations",
 """For every accepted voxel geometry, material, source and frequency, the converged per-voxel potentials, current, flux, loss and divergence densities,
 the terminal quantities and the integral quantities returned by the solver are those of the documented voxel PEEC system: per-face Ohm/Faraday law with partial
 inductances and magnetic coupling, per-voxel current and flux balance, magnetic potential from bound charges, and the source equations.
 They agree, to solver tolerance, with a direct dense solution of these equations assembled independently.""",
 ["inputs", "configurations"], "all geometries (electric, magnetic, mixed, electromagnetic voxels), voxel sizes, materials, source mixes and frequencies (DC and AC)",
 T6 + "no test looks at a field, a terminal quantity, or a geometry outside the examples.",
 [PY+"run/solver.py", PY+"lib_solver/equation_system.py", PY+"lib_solver/system_matrix.py", PY+"lib_solver/system_tensor.py", PY+"lib_solver/extract_solution.py", PY+"lib_solver/problem_geometry.py", PY+"lib_solver/voxel_geometry.py"],
 [("system, preconditioner and coupling operators", PY+"lib_solver/equation_system.py"), ("incidence matrix and face indexing", PY+"lib_solver/voxel_geometry.py:get_incidence_matrix"), ("field extraction", PY+"lib_solver/extract_solution.py")],
 ["pypeec.run_solver_data output: data_sweep[*].var/source/material/integral"])

prop("C02", "Complex power delivered by the sources equals losses and stored energy",
 """For every converged sweep the active power delivered by all the sources equals the total electric plus magnetic losses; with purely real resistivities the reactive power equals twice
 the angular frequency times the total stored energy, and an imaginary resistivity adds exactly its own reactive contribution.
 At zero frequency the magnetic losses are zero and, with real resistivities, so is the reactive power.""",
 ["inputs", "configurations"], "all accepted problems, DC and AC, lossless and lossy electric and magnetic materials, any number and type of sources",
 T6 + "total power and energy are pinned separately for a few problems, their relation to the source power is never checked.",
 [PY+"lib_solver/extract_solution.py", PY+"lib_solver/problem_geometry.py", PY+"run/solver.py"],
 [("losses, energy, source power extraction", PY+"lib_solver/extract_solution.py:get_losses,get_energy,get_source,get_integral"), ("pairing of source voltages and currents", PY+"lib_solver/problem_geometry.py:get_source_pos")],
 ["data_sweep[*].integral", "data_sweep[*].source"])

prop("C03", "Every source obeys its terminal equation and reports consistent V, I, S",
 """A lumped current source delivers I = I_src - Y*V and a lumped voltage source imposes V + Z*I = V_src, V being the mean potential over the source voxels and I the total injected current,
 independently of how many voxels and domains compose the source; a distributed source obeys the same relation voxel by voxel with the values given in the order of its domain voxels.
 The reported S is the complex power summed over the source voxels (half factor in AC, none in DC), the injected currents of all sources sum to zero per connected conductor, and S_total is the sum over the sources.""",
 ["inputs", "configurations"], "all mixes of lumped/distributed current/voltage sources with complex values and internal admittance/impedance over any domain lists, listed in any order",
 T6 + "terminal values are never compared.",
 [PY+"lib_solver/problem_value.py", PY+"lib_solver/problem_geometry.py", PY+"lib_solver/equation_system.py", PY+"lib_solver/extract_solution.py"],
 [("lumped scaling of value and element", PY+"lib_solver/problem_value.py:get_source_vector"), ("source matrix", PY+"lib_solver/equation_system.py:get_source_matrix"), ("source extraction", PY+"lib_solver/extract_solution.py:get_source")],
 ["data_sweep[*].source", "data_sweep[*].var.V_c", "data_sweep[*].var.S_c"])

prop("C04", "Numerical options do not change the converged solution",
 """For the same problem, the converged solution does not depend (beyond the requested tolerances) on the dense-operator method (fft or direct), tensor splitting, FFT library, FFT workers, Krylov solver, direct or segregated
 electric-magnetic coupling, relaxation, early power stop, initial guess, or serial versus parallel sweeps.
 The direct and FFT operators agree to rounding.""",
 ["inputs", "configurations", "histories"], "all accepted problems crossed with all combinations of numerical options and initial-guess chains",
 T6 + "each example is solved with a single tolerance file.",
 [PY+"lib_matrix/multiply_fft.py", PY+"lib_matrix/multiply_direct.py", PY+"lib_matrix/matrix_multiply.py", PY+"lib_matrix/fourier_transform.py", PY+"lib_solver/equation_solver.py", PY+"lib_matrix/matrix_iterative.py"],
 [("circulant tensor multiplication", PY+"lib_matrix/multiply_fft.py"), ("explicit dense multiplication", PY+"lib_matrix/multiply_direct.py"), ("direct and segregated solvers", PY+"lib_solver/equation_solver.py:get_solver")],
 ["run_solver_data outputs for pairs of tolerance options"])

prop("C05", "Partial inductance, potential and coupling integrals are exact",
 """The self and mutual partial inductances, the magnetic potential coefficients and the magnetic-electric coupling coefficients used by the solver equal the double volume integrals of the free-space Green function
 (and its gradient) over the two voxels, for any voxel aspect ratio and any relative position, with symmetry between the two voxels.
 Beyond the configured simplification distance, the far-field approximation error decreases with distance and vanishes when the threshold is raised.""",
 ["inputs", "configurations"], "all voxel dimensions (aspect ratios), voxel offsets and simplification thresholds",
 T6 + "no coefficient is compared with an integral.",
 [PY+"lib_matrix/green_function.py", PY+"lib_solver/system_tensor.py", PY+"lib_solver/system_matrix.py"],
 [("analytical 6D and 5D integrals", PY+"lib_matrix/green_function.py"), ("self/mutual/coupling tensors", PY+"lib_solver/system_tensor.py")],
 ["terminal impedances of elementary voxel pairs through run_solver_data"])

prop("C06", "Each sweep runs exactly once, after and from the sweep it depends on",
 """Every sweep of the sweep definition is solved exactly once with its own parameters, a sweep with an init is solved after that sweep and starts from its solution vector, a sweep without init starts without a guess, and the results
 are returned under the right name, for serial and parallel execution alike.
 Cyclic, self-referencing or unknown dependencies are rejected before anything is solved, and a failing sweep makes the whole call fail.""",
 ["schedules", "histories", "inputs"], "all dependency forests and orders of definition, all job counts, failures in any sweep",
 "The examples use at most a two-node chain, run serially, and never an invalid dependency.",
 [PY+"lib_solver/sweep_joblib.py", PY+"run/solver.py"],
 [("dependency tree and execution", PY+"lib_solver/sweep_joblib.py:get_run_sweep")],
 ["calls of the compute function handed to get_run_sweep (event log)", "data_solution.data_sweep"])

prop("C07", "Results are invariant under relabelling and geometric transformations",
 """Translating the structure centre, adding or removing empty voxels around it, permuting or mirroring the axes, renumbering voxels, or reordering and splitting domains, materials and sources changes no scalar
 result and maps fields as scalars or vectors of the transformed geometry.
 Scaling all lengths by k at frequency f/k**2 (same resistivity) scales resistances by 1/k and inductances by k.""",
 ["inputs"], "all accepted problems and all such transformations of them",
 T6 + "no example is a transformed copy of another.",
 [PY+"lib_solver/voxel_geometry.py", PY+"lib_solver/system_tensor.py", PY+"lib_matrix/multiply_fft.py", PY+"lib_solver/problem_geometry.py"],
 [("direction-wise face blocks", PY+"lib_solver/system_matrix.py"), ("tensor signs and permutations", PY+"lib_solver/system_tensor.py")],
 ["pairs of run_mesher_data/run_solver_data outputs"])

prop("C08", "The solution is linear in the sources and reciprocal between ports",
 """Scaling all source excitations by a complex factor scales fields, voltages and currents by it and powers, losses and energies by its squared magnitude; the response to several excitations is the sum of the individual responses.
 The impedance matrix between any two ports is symmetric, and with passive materials its real part is positive semi-definite.""",
 ["inputs"], "all accepted problems, excitations and port pairs",
 T6 + "no example varies the excitation of one problem.",
 [PY+"lib_solver/equation_system.py", PY+"lib_solver/extract_solution.py", PY+"lib_solver/problem_value.py"],
 [("linear system", PY+"lib_solver/equation_system.py"), ("extraction", PY+"lib_solver/extract_solution.py")],
 ["groups of data_sweep entries with different excitations"])

prop("C09", "Losses and energies are non-negative and add up over parts",
 """The loss densities integrated over the voxels equal the electric and magnetic totals, the material losses are the integrals over the voxels of that material and sum to the totals, and all total quantities are the sum of their
 electric and magnetic parts.
 With passive materials losses and energy are non-negative, and AC quantities use RMS-consistent factors (half for power, a quarter for energy) while DC uses one and a half.""",
 ["inputs", "configurations"], "all accepted problems, with any number of electric, magnetic and electromagnetic materials",
 T6 + "densities and per-material values are never read.",
 [PY+"lib_solver/extract_solution.py", PY+"run/solver.py"],
 [("density and material extraction", PY+"lib_solver/extract_solution.py:get_scalar_density,get_material,get_integral")],
 ["data_sweep[*].material/integral/var.P_c/var.P_m"])

prop("C10", "The point-cloud magnetic field follows from the solved currents and fluxes",
 """At each cloud point the returned field is the Biot-Savart field of the solved currents (taken per face or per voxel as configured) plus the field of the solved magnetic charges, in the order of the cloud points.
 It is zero-free of spurious contributions: empty without points, additive between the electric and magnetic parts, and transforms as a vector field.""",
 ["inputs", "configurations"], "all accepted problems and all sets of points outside active voxels, for both field methods",
 T6 + "the cloud field is never read.",
 [PY+"lib_solver/extract_solution.py"],
 [("Biot-Savart and magnetic charge sums", PY+"lib_solver/extract_solution.py:get_magnetic_field_electric,get_magnetic_field_magnetic")],
 ["data_sweep[*].var.H_p", "J_c, Q_m"])

prop("C11", "Connected components and integrity rules are decided exactly",
 """The component list of a mesh is the partition of all non-empty voxels into maximal face-connected sets.
 Meshing succeeds only if every connected/adjacent rule holds: a rule requiring connection needs one component (or, for adjacency, one group) reaching (touching) every non-empty group, and a rule forbidding it fails as soon as
 one component reaches two groups (two groups touch); a satisfied rule never causes a rejection.""",
 ["inputs"], "all voxel patterns, domain groupings and rules",
 "The examples only contain rules that hold, and the component list is not compared.",
 [PY+"lib_mesher/voxel_integrity.py"],
 [("graph creation and rule checks", PY+"lib_mesher/voxel_integrity.py")],
 ["run_mesher_data result data_geom.graph_def or exception"])

prop("C12", "Index meshes reproduce exactly the given voxels",
 """Meshing an index-based geometry returns the given size, dimension and centre and, per domain, exactly the given voxels in the given order; size, index and dimension violations (out of range, negative, duplicated index, non-positive dimension) are rejected.
 The extent equals count times dimension.""",
 ["inputs"], "all grid sizes, voxel sizes, centres and domain index arrays",
 "Six hand-written index geometries are tested by voxel count only.",
 [PY+"lib_mesher/mesher_voxel.py", PY+"run/mesher.py"],
 [("index checks", PY+"lib_mesher/mesher_voxel.py"), ("mesher flow", PY+"run/mesher.py")],
 ["run_mesher_data result"])

prop("C13", "Image meshes place each pixel in the right voxel and layer",
 """For an image-based geometry, a voxel belongs to a domain exactly if the pixel at its position, in one of the images of its layer, has exactly one of the RGBA colours of that domain: image columns run along x, image rows from top to bottom run along decreasing y,
 and layers stack along z in the given order with the given thickness.
 Images whose size differs from the declared one are rejected.""",
 ["inputs"], "all images, colour maps, layer stacks and sizes",
 "Six image examples are tested by voxel count only; a mirrored or reordered stack keeps the count.",
 [PY+"lib_mesher/mesher_png.py"],
 [("image to index conversion", PY+"lib_mesher/mesher_png.py")],
 ["run_mesher_data result domain_def"])

prop("C14", "Shape meshes rasterise the composed 2D shapes layer by layer",
 """For a shape-based geometry, a voxel belongs to a domain exactly if its centre lies (up to boundary ambiguity) inside the union of the domain's added shapes minus the union of its subtracted shapes on that layer; pads, traces, polygons with holes and buffers
 are the documented shapes, layers stack along z in order, and the grid covers the given or computed bounds.
 Repeated layer names, ill-formed shapes and degenerate sizes are rejected; shapes on layers absent from the stack contribute nothing.""",
 ["inputs"], "all shape lists, operations, layers, voxel sizes and bounds",
 "Six shape examples are tested by voxel count only.",
 [PY+"lib_mesher/mesher_shape.py"],
 [("shape composition and rasterisation", PY+"lib_mesher/mesher_shape.py")],
 ["run_mesher_data result domain_def, n, d, c, reference"])

prop("C15", "STL meshes voxelise each solid at the right place",
 """For an STL-based geometry the voxels well inside a scaled and offset solid belong to its domain and the voxels entirely outside do not; the grid covers the given or computed bounds with the given voxel size, several files of one domain are united,
 and a domain or structure without voxels is rejected or empty rather than misplaced.
 Scaling or translating the file content is equivalent to the scale and offset options.""",
 ["inputs"], "all closed solids, scales, offsets, bounds and voxel sizes",
 "Four STL examples are tested by voxel count only.",
 [PY+"lib_mesher/mesher_stl.py"],
 [("mesh loading and voxelisation", PY+"lib_mesher/mesher_stl.py")],
 ["run_mesher_data result domain_def, n, d, c, reference"])

prop("C16", "Resampling and reduction preserve the physical geometry",
 """Resampling replaces each voxel by the given number of sub-voxels per direction occupying the same region, and reduction crops empty borders; for every domain the occupied region in absolute coordinates (and hence the volume) is unchanged
 by either or both, voxel sizes and centre are updated consistently, and reduction leaves no empty border.
 Disabled options change nothing.""",
 ["inputs", "configurations"], "all geometries, resampling factors and option combinations",
 "The examples almost never enable reduction or resampling with unequal factors.",
 [PY+"lib_mesher/voxel_resampling.py"],
 [("resample and reduce", PY+"lib_mesher/voxel_resampling.py")],
 ["run_mesher_data result with and without the options"])

prop("C17", "Domain conflicts are resolved as specified and never left over",
 """After a successful meshing every voxel belongs to at most one domain.
 Each rule, applied in order, removes from the domains to resolve exactly the voxels shared with the domains to keep and touches nothing else; random resolution leaves each remaining shared voxel in exactly one of the domains that claimed it;
 shared voxels left over make the meshing fail.""",
 ["inputs", "configurations"], "all overlapping domain definitions, rule lists and option combinations",
 "Only a few examples overlap, and the distribution between domains is not compared.",
 [PY+"lib_mesher/voxel_conflict.py", PY+"run/mesher.py"],
 [("rules, random assignment, duplicate check", PY+"lib_mesher/voxel_conflict.py")],
 ["run_mesher_data result domain_def"])

prop("C18", "Cloud points inside active voxels are removed, all others kept in order",
 """With the point check enabled, the returned cloud holds exactly the given points not lying within one voxel dimension (of the voxelised structure, before resampling) of the centre of a non-empty voxel in all three directions, in their given order; with the check
 disabled all points are returned unchanged.
 Requiring a full cloud turns any removal into an error.""",
 ["inputs", "configurations"], "all geometries, point sets and option combinations",
 "The cloud is never compared by the tests.",
 [PY+"lib_mesher/voxel_point.py"],
 [("point filter", PY+"lib_mesher/voxel_point.py")],
 ["run_mesher_data result pts_cloud"])

prop("C19", "Reported mesh and problem summaries match the returned data",
 """All numbers of the mesh summary (sizes, dimensions, extents, total, used and per-domain voxel counts, volumes, ratios, point and component counts) and of the problem summary (voxels, faces, sources, ratios) equal what can be
 recounted from the returned index sets and geometry.""",
 ["inputs"], "all meshes and problems",
 "Only total and used voxel counts of 24 examples are pinned.",
 [PY+"lib_mesher/voxel_summary.py", PY+"lib_solver/problem_geometry.py"],
 [("summaries", PY+"lib_mesher/voxel_summary.py; "+PY+"lib_solver/problem_geometry.py:get_status")],
 ["data_geom.voxel_status", "data_init.problem_status"])

prop("C20", "Invalid input is rejected with an error, never solved silently",
 """Input violating the documented format or rules (wrong types, missing fields, unknown domain, material, source, variable or tag names, empty lists, no conductor or no source at all, wrong array lengths, sources outside conductors, conductors without a source, voxels in
 two materials or sources, non-positive sizes, unknown option values) raises an exception instead of returning a result; accepted variations of valid input are not rejected.
 The command line returns a failure code and the file functions write no output file in that case.""",
 ["inputs", "fault_sequences"], "all single violations injected into valid mesher, solver, viewer and plotter input",
 "The tests contain no invalid input.",
 [PY+"lib_check/check_data_format.py", PY+"lib_check/check_data_options.py", PY+"lib_solver/problem_geometry.py", PY+"lib_solver/problem_value.py", PY+"lib_mesher/mesher_voxel.py", PY+"data/schema_problem.yaml"],
 [("schemas", PY+"data/schema_*.yaml"), ("semantic checks", PY+"lib_solver/problem_geometry.py:get_problem_type; "+PY+"lib_mesher/*")],
 ["exceptions of run_mesher_data/run_solver_data/run_viewer_data/run_plotter_data; exit codes"])

prop("C21", "Calls do not modify their inputs and do not depend on earlier calls",
 """No API call modifies the dictionaries and arrays passed to it.
 The result of a call (apart from timing and from the documented random choices of condition estimates and random conflict resolution) depends on its arguments only: repeating it, or running any other calls, with any other options or failing ones, in between in the same process gives the same result.""",
 ["histories"], "all sequences of API calls in one process, including failing ones and option changes between them",
 "Each test runs one example once in sequence with identical options.",
 [PY+"run/mesher.py", PY+"run/solver.py", PY+"lib_matrix/fourier_transform.py", PY+"lib_matrix/multiply_fft.py", PY+"lib_matrix/matrix_factorization.py"],
 [("deep copies of the inputs", PY+"run/*.py"), ("module-level option state", PY+"lib_matrix/*:set_options")],
 ["arguments before/after; outputs of repeated calls"])

prop("C22", "Command line, file and data interfaces are equivalent",
 """The command line and the file functions produce the same mesh and solution as the data functions on the loaded content, for input in JSON or YAML and output in JSON, gzip JSON or pickle form; written files load back to the
 returned data.
 The command line returns zero exactly if the command succeeded and a non-zero code for any failure or invalid usage.""",
 ["inputs", "configurations", "fault_sequences"], "all valid and failing invocations over all file formats and commands",
 "The tests call the data functions and the shell entry with fixed files, without comparing the paths with each other.",
 [PY+"main.py", PY+"script.py"],
 [("file wrappers", PY+"main.py"), ("argument parser", PY+"script.py:run_arguments")],
 ["files written; return values; exit codes"])

prop("C23", "Convergence flags, residuals and iteration limits are truthful",
 """The reported residual is the difference between the right-hand side and the system applied to the returned solution; a sweep is flagged as converged only if the configured solver status and residual criteria are met, and the overall status only if every sweep is.
 The recorded power history starts before and ends at the final solution, the early power stop only triggers when the last values agree within tolerance and the minimum count is reached, and configured maximum iteration counts are not exceeded.""",
 ["inputs", "configurations"], "all problems and tolerance options, including too few iterations and unreachable tolerances",
 T6 + "every example converges with default options.",
 [PY+"lib_solver/equation_solver.py", PY+"lib_solver/extract_convergence.py", PY+"run/solver.py", PY+"lib_matrix/matrix_iterative.py"],
 [("convergence monitor and status", PY+"lib_solver/equation_solver.py")],
 ["data_sweep[*].solver_status/conv/res/has_converged", "data_solution.status"])

prop("C24", "The condition check flags exactly the matrices above the limit",
 """With the check enabled, the reported electric and magnetic condition numbers are one-norm condition estimates of the electric and magnetic preconditioner matrices (never above the exact value and of its magnitude; zero without magnetic voxels), and the condition flag is true
 exactly if each is within its own limit; a flagged sweep is never reported as converged.
 With the check disabled nothing is computed and the flag is true.""",
 ["inputs", "configurations"], "all problems and limits, with and without magnetic domains",
 "The limit of the examples is never reached.",
 [PY+"lib_matrix/matrix_condition.py", PY+"lib_solver/equation_solver.py"],
 [("one-norm estimate", PY+"lib_matrix/matrix_condition.py"), ("limit check", PY+"lib_solver/equation_solver.py:get_condition")],
 ["data_sweep[*].condition_status/condition_ok/has_converged"])

prop("C25", "Impedance matrices are recovered exactly from terminal data",
 """For terminal voltages and currents generated by any symmetric impedance matrix, the extraction returns that matrix from any sufficient set of operating points (currents that span all terminals), in the order of the terminals, and rejects insufficient or inconsistently sized data.
 The resistance, inductance, quality-factor and coupling values satisfy their definitions at the given frequency.
 The terminal extraction returns the lumped currents and voltages of the named sources and sweeps, and the symmetry expansion adds exactly the permuted operating points.""",
 ["inputs"], "all terminal counts, symmetric matrices, operating-point sets and frequencies",
 "The function is used in no test.",
 [PY+"utils/matrix.py"],
 [("least-squares extraction", PY+"utils/matrix.py")],
 ["return values of pypeec.utils.matrix functions"])

prop("C26", "Fourier helpers are exact inverses and respect real-signal convention",
 """Transforming a real periodic signal to harmonics and back with the sample count of the signal returns the signal, harmonic amplitudes and phases (below half the sample count) match the analytical Fourier series (DC term not doubled), truncation keeps the leading harmonics, and RMS/Parseval relations hold.
 Arguments are not modified.""",
 ["inputs"], "all real signals, lengths (odd and even), sampling and harmonic counts",
 "The function is used in no test.",
 [PY+"utils/fourier.py"],
 [("fft/ifft helpers", PY+"utils/fourier.py")],
 ["return values and arguments of pypeec.utils.fourier functions"])

prop("C27", "Voxel index helpers agree with the mesher numbering",
 """Conversions between linear indices and tensor indices are mutual inverses for single values and arrays, follow the numbering used by the mesher and solver (first index fastest), and reject any index outside the grid in any direction.""",
 ["inputs"], "all grid sizes (unequal in the three directions) and all indices inside and outside the grid",
 "The functions are used in one example with equal sizes at most.",
 [PY+"utils/voxel.py", PY+"lib_solver/voxel_geometry.py"],
 [("index conversion", PY+"utils/voxel.py")],
 ["return values of pypeec.utils.voxel functions"])

prop("C28", "Viewer and plotter show each value on the voxel it belongs to",
 """The grids built for viewing and plotting contain exactly the non-empty voxels at their physical position and size, and every cell, point or arrow carries the domain, component, material/source kind and field values of that voxel; norm, phasor and arrow values
 derive from the same complex solution, with the requested variable, scale, phase and filter and clamp limits.
 Voxels without a quantity (for example electric values of a magnetic voxel) are left undefined rather than filled from elsewhere; the convergence and residual plots show the recorded solver data.""",
 ["inputs"], "all meshes and solutions",
 "The tests only check that plotting does not raise.",
 [PY+"lib_plot/parse_voxel.py", PY+"lib_plot/parse_viewer.py", PY+"lib_plot/parse_plotter.py", PY+"lib_plot/manage_pyvista.py"],
 [("grid construction and field scattering", PY+"lib_plot/parse_*.py")],
 ["pyvista grids handed to the plotters"])

prop("C29", "Plot selection and saving produce exactly the requested plots",
 """Viewing and plotting create exactly the plots requested by tag and sweep (all when none is given, each once), unknown tags are rejected before anything is shown, and in save mode exactly one non-empty image per plot, showing that plot and named after the prefix, sweep and plot, is
 written in the given folder and nothing else.
 In debug mode nothing is written and the inputs are untouched.""",
 ["inputs", "configurations"], "all tag selections, sweeps, modes, folders and names",
 "The tests use the debug mode with all tags.",
 [PY+"run/viewer.py", PY+"run/plotter.py", PY+"lib_plot/manage_plotgui.py"],
 [("plot dispatch", PY+"run/viewer.py; "+PY+"run/plotter.py"), ("saving", PY+"lib_plot/manage_plotgui.py")],
 ["files in the output folder", "plotters created"])

prop("C30", "Gerber conversion runs the tools on the right layers and leaves no debris",
 """Converting Gerber stacks invokes the renderer once per image with the layers, colours, resolution and window of that image, converts each result to the requested image file, and removes its temporary files.
 A failing tool makes the conversion fail instead of leaving a missing or stale image reported as success.""",
 ["inputs", "fault_sequences"], "all stack definitions and tool failures",
 "External tools are not available to the tests; the module is never run.",
 [PY+"utils/gerber.py"],
 [("project file and tool calls", PY+"utils/gerber.py")],
 ["commands received by stand-in tools in a scratch PATH; files left"])

prop("C31", "Equivalent material and source definitions give identical results",
 """A lumped definition equals the distributed one with the same value everywhere (sources: split values), an isotropic one equals the anisotropic one with three equal components, an electromagnetic material at overlapping domains equals its electric and magnetic
 parts, and splitting a material or source domain into several with the same total definition changes nothing.
 Distributed values apply to the voxels in the order of the listed domains, and each anisotropic component acts only along its own axis.""",
 ["inputs", "configurations"], "all materials, sources and their equivalent rewritings",
 T6 + "no example compares two definitions.",
 [PY+"lib_solver/problem_value.py", PY+"lib_solver/problem_geometry.py"],
 [("casting of values", PY+"lib_solver/problem_value.py"), ("index maps", PY+"lib_solver/problem_geometry.py")],
 ["pairs of run_solver_data outputs"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
