"""Writes properties.jsonl and MANIFEST.json from the table below.

Run after a property or a check is added: python3 tools/mk.py
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "reservoirflow/grids/regular_cartesian.py"
M = "reservoirflow/models/black_oil.py"
MM = "reservoirflow/models/model.py"
F = "reservoirflow/solutions/numerical/fdm.py"
S = "reservoirflow/solutions/solution.py"
SV = "reservoirflow/solutions/numerical/solvers.py"
C = "reservoirflow/solutions/compiler.py"
A = "reservoirflow/solutions/analytical/d1p1.py"
B = "reservoirflow/base.py"
FL = "reservoirflow/fluids/single_phase.py"
H = "reservoirflow/utils/helpers.py"
W = "reservoirflow/wells/single_cell.py"
SC = "reservoirflow/scalers/minmax.py"
PV = "reservoirflow/utils/pyvista.py"
PR = "reservoirflow/utils/profme.py"

P = []


def prop(id, title, statement, over, q, why, files, state, mech, observe, tech, note,
         level="exploration"):
    P.append(dict(
        id=id, title=title, statement=statement, over=over, q=q, why=why, files=files,
        state=state, mech=mech, observe=observe, tech=tech, note=note, level=level,
    ))


prop(
    "C01", "Cell numbering is one consistent bijection",
    "For every grid shape, ids, active-cell indices, (i,j,k) coordinates and array "
    "coordinates of cells are bijections of each other in natural order (x fastest, then "
    "y, then z), with and without boundary cells. Listings in any container or shape "
    "enumerate exactly the same cells in the same order.",
    ["inputs", "configurations"],
    "all grid shapes and flow directions, unified or not, with or without boundaries, "
    "every container format, any order of calls",
    "Tests pin listings of a few fixed small grids; a wrong offset for one flow direction, "
    "a larger shape, or after another (cached) call is not reached.",
    [G],
    [("cells_id", "ids of interior cells in natural order", G)],
    [("get_order / get_cells_id / get_cell_coords / get_cell_icoords", G)],
    ["grid.get_cells_id", "grid.get_cell_coords", "grid.get_cell_id", "grid.get_cells_icoords"],
    "runtime monitor: every enumeration and conversion API called in random order on random "
    "grids, compared online with an explicit enumeration",
    "grids up to ~60 cells per direction / several hundred cells",
)
prop(
    "C02", "Neighbors and boundaries follow face adjacency",
    "The neighbors reported for a cell are exactly the cells which share a face with it "
    "along the flow directions, symmetric between cells and the same by id or by "
    "coordinates. Boundary cells are exactly the outer layer added in the flow "
    "directions, and splitting any array into interior and boundary parts neither loses, "
    "duplicates nor reorders values.",
    ["inputs", "configurations"],
    "all cells of all grid shapes and flow directions, every container format, flat or "
    "shaped arrays of scalars or points",
    "Tests list neighbors of a few cells of a few grids; symmetry and completeness for "
    "every cell of every shape is a universal statement.",
    [G],
    [("boundaries_id", "ids of boundary cells", M)],
    [("get_cell_neighbors / get_cell_boundaries / remove_boundaries / extract_boundaries", G)],
    ["grid.get_cell_neighbors", "grid.get_boundaries", "grid.remove_boundaries"],
    "runtime monitor: adjacency queries of all cells and array splits compared with face "
    "adjacency of explicit coordinates",
    "grids up to several hundred cells",
)
prop(
    "C03", "Cell geometry is exact and consistent everywhere",
    "Sizes, face areas, volumes and centers of every cell follow from the given sizes: "
    "area is the product of the two other sizes, volume of the three, centers are at the "
    "cumulative midpoint, and totals are the sums. Every way to ask (one cell by id or "
    "coordinates, listings, flow shape, with or without boundaries, exported 3D mesh) "
    "returns the same values.",
    ["inputs", "configurations"],
    "all shapes, flow directions and constant or per-cell sizes, all query forms in any order",
    "Tests check a few grids with equal sizes; variable sizes combined with flow "
    "directions and query forms are not enumerable by examples.",
    [G],
    [("d / A / V", "sizes, areas and volumes of all cells", G)],
    [("get_cells_d / get_cells_A / get_cells_V / get_cells_center / get_pyvista_grid", G)],
    ["grid.get_cells_d", "grid.get_cells_V", "grid.get_cell_center", "grid.get_pyvista_grid"],
    "runtime monitor: all geometry queries and the exported mesh compared with explicit "
    "enumeration",
    "mesh coordinates are single precision: compared within 1e-5 of the grid length",
)
prop(
    "C07", "Every timestep satisfies the flow equation of every cell",
    "In every completed timestep the pressures of every cell satisfy the discretized "
    "flow equation: flow from neighbors by transmissibility times the difference of "
    "pressure and hydrostatic head, plus boundary and well flow, equals the accumulation "
    "from the previous timestep. This holds for every geometry, rock, fluid, unit system, "
    "source and history of changes made between timesteps.",
    ["inputs", "configurations", "histories"],
    "all models, schedules, and sequences of well and boundary changes between timesteps",
    "Tests compare final pressures of a few textbook cases, mostly horizontal, with "
    "constant sources; no test evaluates cell balances on general models.",
    [F, M, G],
    [("pressures / rates", "history of pressures and rates, one row for each timestep", S)],
    [("get_matrices_vect / get_matrices_symb / solve", F), ("get_boundary_rate / set_well", M)],
    ["model.solution.pressures", "model.solution.rates"],
    "online residual monitor: independent discretization evaluated for each cell at each "
    "timestep of random simulation histories",
    "up to 120 (quick) / 400 (thorough) cells and ~120 timesteps per run",
)
prop(
    "C08", "Mass is conserved and the balance report is truthful",
    "Over every timestep, the change of fluid stored in the cells equals the sum of all "
    "well and boundary rates, and no other cell has a rate. The material balance error "
    "which is reported equals the error recomputed from the recorded history, and a "
    "warning is raised if and only if it exceeds the threshold.",
    ["inputs", "histories", "fault_sequences"],
    "all models and schedules, including histories with a corrupted row",
    "Tests assert a small error for a few cases, never that the report would notice an "
    "imbalance.",
    [F, M],
    [("error", "material balance error of the last timestep", F)],
    [("check_MB", F)],
    ["model.solution.error", "warnings"],
    "conservation monitor over recorded histories, and fault injection (corrupted rows) "
    "against the balance report",
    "same bounds as C07",
)
prop(
    "C09", "Boundary conditions are honoured in every timestep",
    "A constant pressure boundary keeps its pressure and exchanges exactly the rate that "
    "follows from the adjacent cell; constant rate and gradient boundaries exchange the "
    "specified or implied rate; boundaries without a condition exchange nothing. This "
    "holds in every row of the history for all accepted names, corner cells, and "
    "conditions set in bulk or one by one, before or after compilation, or replaced "
    "between timesteps.",
    ["inputs", "histories", "configurations"],
    "all assignments and reassignments of conditions to boundary cells at any point",
    "Tests set a few conditions once before compilation on 1D grids.",
    [M, F],
    [("bdict", "condition of each boundary cell", M)],
    [("set_boundary / set_boundaries / set_all_boundaries / get_boundary_rate", M)],
    ["model.solution.pressures", "model.solution.rates"],
    "online monitor of every boundary cell in every row of random histories",
    "same bounds as C07",
)
prop(
    "C10", "Wells obey their controls in every timestep",
    "In every timestep each well satisfies the inflow relation between cell pressure, "
    "bottom hole pressure and rate. A rate-controlled well delivers its rate as long as "
    "its bottom hole pressure limit allows, otherwise it operates exactly at the limit "
    "and returns to its rate when possible; pressure-controlled wells hold their "
    "pressure.",
    ["inputs", "histories", "configurations"],
    "all wells, definitions (arguments or objects), skins, schedules, and changes or "
    "additions between timesteps",
    "Tests use one well with fixed control; switching in both directions and changed "
    "wells are not reached.",
    [F, M, W],
    [("wells / w_pressures", "controls and bottom hole pressures of wells", M)],
    [("__update_wells", F), ("set_well / __calc_well_G", M)],
    ["model.w_pressures", "model.solution.rates", "model.wells"],
    "online monitor of inflow performance and control of every well in every timestep of "
    "random histories",
    "up to 5 wells; wells in grids with flow along x, xy or xyz (others are rejected)",
)

prop(
    "C04", "The latest rock and fluid values set are the ones in effect",
    "After any sequence of property updates (for all cells by a number or an array, or "
    "for one cell by id or coordinates), every later query, geometric factor, "
    "transmissibility and model defined later uses exactly the latest value of each cell. A query "
    "in between never freezes an old value, and cells or properties which were not "
    "addressed keep theirs. "
    "Compressibility set for a model is in effect from its next timestep.",
    ["inputs", "histories"],
    "all interleavings of property updates and queries of grids and fluids",
    "Tests set properties once at construction; a stale cached value needs a query before "
    "an update.",
    [G, FL],
    [("__props__ / k / phi / z", "properties of cells", G)],
    [("set_prop / set_props / set_cell_value / get_cells_k / get_cells_G", G), ("set_props", FL)],
    ["grid.get_prop", "grid.get_cells_k", "grid.get_cells_G", "grid.kx", "fluid.mu"],
    "runtime monitor: a shadow copy of all properties checked against every query form "
    "after random sequences of updates and queries",
    "updates are made before a model is compiled (changes of rock in a run are out of scope)",
)
prop(
    "C05", "Transmissibilities are exact, symmetric and form-independent",
    "The transmissibility between two cells is the flow-distance weighted harmonic mean of "
    "permeability times face area over viscosity and formation volume factor, zero exactly "
    "for cells which share no face in a flow direction, and symmetric. Each form of it "
    "(single cell, dense or sparse matrix, vectorized or not, diagonals) holds the same "
    "values for uniform, anisotropic and heterogeneous rock.",
    ["inputs", "configurations"],
    "all grid shapes, sizes, rock distributions, unit systems, and query forms",
    "Tests pin a few values of homogeneous or 1D grids; wrong entries between layers or "
    "rows of 2D and 3D grids with other shapes stay unseen.",
    [G, M],
    [("get_cells_G", "geometric factors at interfaces", G)],
    [("get_cells_G / get_cells_G_diag / is_homogeneous", G), ("get_cell_trans / get_cells_trans", M)],
    ["model.get_cell_trans", "model.get_cells_trans", "model.get_cells_trans_diag"],
    "runtime monitor: all pairs of cells in every form compared with an explicit face "
    "enumeration",
    "grids up to 60 cells (some of 200); entries between boundary cells are not specified",
)
prop(
    "C06", "Every way to assemble and store the equations agrees",
    "At every timestep the linear system assembled by the vectorized and the symbolic "
    "path, threaded or not, dense or sparse, is the same system up to the sign of rows, "
    "and simulations by any of these paths have the same pressures, rates and bottom hole "
    "pressures, also after wells or boundaries were changed between timesteps. Recorded "
    "systems are satisfied by the recorded pressures.",
    ["inputs", "histories", "configurations"],
    "all models, schedules of changes, and combinations of solution options",
    "Tests compare the two paths for the first timestep of few models; terms cached at "
    "the first timestep go wrong only in later ones after a change.",
    [F, M],
    [("A / A_ / d / d_", "matrix and right hand side of both paths", F)],
    [("get_matrices_vect / get_matrices_symb / get_cell_eq", F)],
    ["solution.get_matrices_vect", "solution.get_matrices_symb", "solution.As", "solution.ds"],
    "runtime monitor: every row of systems of all paths compared with an independent "
    "assembly during random histories, and twin simulations",
    "up to 48 cells (symbolic assembly is slow)",
)
prop(
    "C11", "Simulations respect the invariances of the physics",
    "Mirroring or relabeling axes, moving the depth datum, shifting or scaling pressures "
    "with their sources, superposing sources, scaling permeability with viscosity or "
    "compressibility with time, and reordering definitions transform results exactly as "
    "the flow equations demand. Reservoirs at equilibrium stay at rest, pressures without "
    "sources stay within their initial and boundary range, and more injection never "
    "lowers a pressure.",
    ["inputs", "configurations"],
    "all models and schedules, all transformations",
    "A relation between two runs holds for all models; tests contain no second run.",
    [F, M, G],
    [("pressures / rates", "histories of pressures and rates", S)],
    [("get_matrices_vect / solve", F), ("get_cells_trans / get_boundary_rate", M)],
    ["model.solution.pressures", "model.solution.rates", "model.w_pressures"],
    "metamorphic runtime monitor over pairs of complete simulation histories",
    "up to 120 cells; relations compared within round-off times condition",
)
prop(
    "C12", "Accepted pressures solve the system with the selected solver",
    "The linear solver which was selected (direct, or any supported iterative one) is the "
    "one used in every timestep, including when a timestep is solved again after a well "
    "changes control. A timestep is completed only with finite, converged pressures which "
    "satisfy the system within the solver's tolerance; otherwise an error is raised.",
    ["inputs", "fault_sequences", "configurations"],
    "all solvers and models, solver failures at any call",
    "Tests run with solvers which always succeed; failures and repeated solutions do not "
    "occur.",
    [F, SV],
    [("pressures", "history of accepted pressures", F)],
    [("solve", F), ("get_isolver", SV)],
    ["scipy solver calls", "solution.pressures", "raised exceptions"],
    "runtime monitor with recording and fault injecting stand-ins of the solvers, residual "
    "oracle on every accepted timestep",
    "solver faults: wrong exit codes, NaN or Inf results",
    "fault_enumeration",
)
prop(
    "C13", "Histories are append-only and independent of run splitting",
    "Each timestep appends exactly one row of pressures, rates and bottom hole pressures, "
    "never changes earlier rows, and counters agree. The same timesteps give the same "
    "history whether they are driven by one run, several runs, or single solves, and "
    "read-only operations between them (tables, equations, balance, trial solutions "
    "without update) leave no trace.",
    ["histories", "schedules"],
    "all splits of a schedule into calls and read-only operations between them",
    "Tests call run once and look at the last rows.",
    [F, S, M],
    [("tstep / nsteps / pressures / rates", "recorded history", S)],
    [("solve / run", F)],
    ["solution.pressures", "solution.rates", "solution.tstep", "model.w_pressures"],
    "history monitor: snapshots before and after every call, twin with another split",
    "up to 12 timesteps in most runs, some of 40+",
)
prop(
    "C14", "Models are independent, deterministic and keep inputs intact",
    "Models in one process never influence each other, also when they share grid, fluid, "
    "well objects or condition dictionaries and their operations are interleaved; equal "
    "inputs give bit-identical histories. Lists, arrays, dictionaries and objects given by "
    "the user are never modified, and changing them later does not reach models. No operation "
    "leaves settings of the process (printing, warnings, float errors, random states) changed.",
    ["inputs", "histories"],
    "all sharings and interleavings of several models",
    "Tests create one model at a time; aliasing shows only with a second one.",
    [M, G, S],
    [("__get_arrays / bdict / wells", "state of a model", M)],
    [("__get_arrays / get_init_arrays / set_boundaries / set_well", M)],
    ["solution.pressures", "solution.rates", "input objects before and after"],
    "runtime monitor: interleaved models compared bit by bit with solo runs, inputs "
    "compared with snapshots",
    "2 to 4 models per process",
)
prop(
    "C15", "The analytical 1D solution solves the diffusion problem",
    "For a homogeneous horizontal 1D compressible reservoir with constant boundary "
    "pressures, D1P1 gives in every timestep and cell the solution of the diffusivity "
    "equation with the model's own data, for every direction, cell sizes, unit system and "
    "pressures. It starts at the initial pressure, keeps the boundary pressures, "
    "approaches the linear steady state, and agrees with refined numerical solutions.",
    ["inputs", "configurations"],
    "all homogeneous 1D models with two constant pressure boundaries",
    "No test runs the analytical solution.",
    [A, M],
    [("pressures", "history of analytical pressures", A)],
    [("solve / run / calc_solution", A), ("get_alpha / get_domain", M)],
    ["solution.pressures", "solution.calc_solution"],
    "runtime monitor: every value compared with an independently computed exact solution",
    "the truncated series is compared within 2% of the pressure range at the first row",
)
prop(
    "C16", "Results do not depend on the unit system",
    "The same physical problem stated in field, metric or lab units gives the same "
    "physical pressures, rates, transmissibilities and hydrostatic heads, and tables are "
    "labeled with the units of the model.",
    ["inputs", "configurations"],
    "all models and schedules converted between the three unit systems",
    "Tests use field units only.",
    [B, M, F],
    [("units / factors", "unit labels and conversion factors", B)],
    [("set_units", B), ("get_cells_trans / __calc_RHS", M)],
    ["solution.pressures", "solution.rates", "model.get_df"],
    "metamorphic runtime monitor over simulations of the converted problem",
    "conversion factors of the package are rounded: compared within 1e-3",
)
prop(
    "C17", "Tables report exactly the recorded history",
    "Tables have one row for each timestep (and cell, if melted) with the times, dates, "
    "pressures and rates of the recorded history under the right names, for every "
    "selection of columns, units, boundary, melting and dropping of empty columns, at any "
    "point of a simulation. Scaled tables are the exact affine images, and saved files "
    "hold the same table.",
    ["inputs", "histories", "configurations"],
    "all histories and combinations of options",
    "Tests compare one csv for default options on few models.",
    [M, H],
    [("get_df", "tables", M)],
    [("get_df / get_domain / set_scalers / update_scalers", M)],
    ["model.get_df", "csv files", "model.get_domain", "model.get_time"],
    "offline monitor: every table rebuilt from the recorded arrays",
    "time column scaled tables use default or user-defined MinMax/Dummy scalers",
)
prop(
    "C18", "Scalers are exact, invertible and independent of each other",
    "A fitted MinMax scaler maps its input range affinely onto its output range, transform "
    "and inverse undo each other for any data of any shape, order is preserved, and new "
    "data do not change the fit. Inputs are not modified, scalers do not influence each "
    "other, and a dummy scaler returns values unchanged.",
    ["inputs", "histories"],
    "all arrays, ranges and sequences of operations",
    "Tests fit two arrays; round trips for all shapes and ranges are universal.",
    [SC, "reservoirflow/scalers/dummy.py", "reservoirflow/scalers/scaler.py"],
    [("vmin / vmax / input_scale", "fitted range", SC)],
    [("fit / transform / inverse_transform", SC)],
    ["scaler.transform", "scaler.inverse_transform"],
    "runtime monitor: sequences of operations compared with exact rational arithmetic",
    "constant data (zero range) is out of scope: the result is not defined",
)
prop(
    "C19", "Solutions of one model are kept separate and selectable",
    "Several solutions compiled for one model advance independently: timesteps change only "
    "the selected solution, and each has the history which it would have alone under the "
    "same changes of wells and boundaries. Every documented name of a method selects it, "
    "and unavailable or unknown methods are refused without changing the model.",
    ["histories", "configurations"],
    "all interleavings of compilation, selection, timesteps and changes",
    "Tests compile one solution per model.",
    [MM, C, F],
    [("solutions / compilers / solution", "compiled and selected solutions", MM)],
    [("compile / set_solution / get_solutions", MM), ("Compiler", C)],
    ["model.solutions", "solution.pressures", "model.w_pressures"],
    "runtime monitor: interleaved solutions compared with models which have one solution",
    "solutions: FDM dense/sparse and D1P1",
)
prop(
    "C20", "Invalid input is refused and leaves no trace",
    "Input which cannot be part of a model (conditions at interior or missing cells, "
    "unknown conditions or properties, wells outside the reservoir or incomplete, wrong "
    "lengths, ids out of range, negative compressibility, unknown units, solvers, columns "
    "or scalers, mixed precision) raises an error. A refused operation leaves grid, fluid, "
    "model and history exactly as they were, also when only one entry of a bulk "
    "definition is invalid.",
    ["inputs", "histories", "fault_sequences"],
    "all invalid operations at any point of a simulation",
    "Tests hardly contain invalid input, and never check what is left behind.",
    [M, G, MM, B, SV],
    [("bdict / wells / __props__", "definitions of a model", M)],
    [("set_boundary / set_boundaries / set_well", M), ("set_prop", G), ("set_comp", MM)],
    ["raised exceptions", "state before and after", "history of a twin"],
    "fault injection: invalid operations in random histories, state monitor and a twin "
    "which never saw them",
    "37 kinds of invalid operations; numeric plausibility (e.g. porosity above 1) is not validated",
    "fault_enumeration",
)
prop(
    "C21", "A failed timestep leaves the last completed state",
    "If the solution of a timestep fails (the solver raises, does not converge, or returns "
    "non-finite values), the error reaches the caller and the history holds exactly the "
    "completed timesteps, with consistent counters, tables and balance. Continuing "
    "afterwards gives the same history as without the failure.",
    ["fault_sequences", "crash_points", "histories"],
    "a failure at any solver call of any schedule, also inside run and repeated solutions",
    "Tests never make a solver fail.",
    [F, M],
    [("tstep / nsteps / pressures / rates / w_pressures", "recorded history", F)],
    [("solve / run / __update_wells", F)],
    ["solution.pressures", "solution.rates", "solution.nsteps", "model.w_pressures"],
    "fault injection at enumerated solver calls, history monitor and an unfailed twin",
    "points of failure are the calls of linear solvers",
    "fault_enumeration",
)
prop(
    "C22", "Threads never change results",
    "Threaded assembly gives the same systems and histories as one thread. Models driven "
    "in different threads, also of one shared grid, and queries of a grid from several "
    "threads give the same results as alone, for every interleaving. An exception inside a "
    "worker thread reaches the caller and the history stays as it was.",
    ["schedules", "inputs"],
    "all interleavings of threads at the level of lines of the package",
    "Tests see few interleavings, and races of state kept on shared grids need a switch at "
    "particular lines.",
    [F, G, M],
    [("cells_terms / A / d", "state shared by worker threads", F)],
    [("get_cells_eq / get_matrices_symb", F), ("get_order / get_shape / get_cells_id", G)],
    ["solution.As", "solution.pressures", "grid queries", "raised exceptions"],
    "concurrency stress: preemptions injected at random lines (sys.monitoring), recorded "
    "thread switches, comparison with one thread",
    "2 to 5 user threads, up to n worker threads; models of a shared grid are defined one by one",
)
prop(
    "C23", "Diagnostics observe and change nothing",
    "Verbose output, printed arrays, reports, balance reports with any threshold, and "
    "profiled calls never change results or state, and reports show current values. "
    "Profiling decorators call the function once with its arguments, pass on its result or "
    "exception, leave no profiler active, and write files only when and where requested.",
    ["inputs", "configurations"],
    "all combinations of diagnostics with all models, and all profiled functions",
    "Tests run quietly, without diagnostics.",
    [F, B, PR],
    [("verbose", "flag of each object", B)],
    [("check_MB / __print_arrays", F), ("report / __str__ / __repr__", B), ("cProfiler / lProfiler / profile / timeit", PR)],
    ["twin histories", "printed text", "created files", "sys.getprofile"],
    "runtime monitor: twins with and without diagnostics, instrumented functions under "
    "every profiler",
    "profilers are not nested",
)
prop(
    "C24", "Displays show the recorded history on the true geometry",
    "3D scenes, animations and plots show each cell at its place with the value of the "
    "selected property and timestep, one frame or slider position for each timestep, with "
    "true texts, labels, color limits and well positions, with or without boundary cells. "
    "Displaying changes nothing, and unknown properties or labels are refused.",
    ["inputs", "configurations"],
    "all grids, histories, and display options",
    "Nothing is displayed in tests.",
    [PV, M, G],
    [("get_model_values", "displayed values", PV)],
    [("show_grid / show_model / save_gif", PV), ("plot / plot_grid", M)],
    ["scene actors and cell data", "slider callback", "frames", "lines and images"],
    "runtime monitor inside the display calls: the scene to be drawn is compared with the "
    "history and reference geometry",
    "drawing itself is replaced (no display available): pixels are not observed",
)
prop(
    "C25", "Single and double precision agree within rounding",
    "Histories have the declared precision in every row. Single precision satisfies the "
    "same flow and well equations within its rounding and agrees with double precision "
    "within rounding times conditioning, double precision is never degraded, and mixed "
    "precision is refused.",
    ["inputs", "configurations"],
    "all models and schedules in both precisions",
    "Tests compare with loose tolerances in double precision only.",
    [F, M, G],
    [("dtype", "declared precision", B)],
    [("get_matrices_vect / solve", F), ("__get_arrays / get_init_arrays", M)],
    ["solution.pressures.dtype", "solution.rates.dtype", "residuals"],
    "runtime monitor: residual and precision of every row, comparison of both precisions",
    "comparison of values only when rounding times condition is below 5%",
)

P.sort(key=lambda p: p["id"])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["q"]),
                why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    state=[dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                    mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                    observe_at=p["observe"],
                    hook_needed=None,
                ),
            )) + "\n")
    checks = []
    for p in P:
        c = p["id"]
        assert len(p["title"]) <= 80, p["title"]
        assert os.path.exists(os.path.join(ROOT, "rfv", "checks", c.lower() + ".py")), c
        checks.append(dict(
            property=c,
            quick_cmd=f"python3 check.py {c} --tier quick",
            thorough_cmd=f"python3 check.py {c} --tier thorough",
            technique=p["tech"], level=p["level"], level_note=p["note"],
        ))
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=checks, not_applicable=[])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
