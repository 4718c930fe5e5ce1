"""Single source of properties.jsonl and MANIFEST.json:
    python3 tools/props.py         (rewrites both from the table below)
"""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
K = "cosipy/cpkernel/"
M = "cosipy/modules/"
U = "cosipy/utilities/"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, tech=tech, note=note, observe=observe, state=state))


prop("C01", "Restarting from a restart file continues the run exactly",
     "Splitting a simulation at any time step and continuing it from the restart file written at the split gives, "
     "for every later step and every cell, the same results and the same final restart file as the uninterrupted "
     "run.  The restart file holds the complete column (every layer's height, density, temperature, liquid water "
     "and ice fraction) and the snow-age state of every glacier cell, and the continued run starts at the first "
     "step after it.",
     ["histories", "inputs"],
     "every split point (several in a row), every forcing and option combination, one or more cells",
     "The tests build restart datasets by hand and never run, stop, and resume a simulation through the files.",
     [K + "init.py", K + "io.py", K + "cosipy_core.py", "COSIPY.py"],
     [("load_snowpack rebuilds the column", K + "init.py:load_snowpack"),
      ("restart dataset and file", K + "io.py:copy_local_restart_to_global, create_data_file"),
      ("local restart built at the last step", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: recorded end-to-end runs, split vs uninterrupted (differential trace oracle)",
     "Bitwise comparison of all outputs after the split, through real netCDF files and main(); exploration only.")

prop("C02", "Results do not depend on scheduling; cells are independent",
     "For every order in which cells are executed and complete, and every number of workers, the output and the "
     "restart file are identical.  Each glacier cell's results are those of running the model on that cell's own "
     "forcing alone and are stored at that cell's own coordinates; cells outside the glacier mask stay empty.",
     ["schedules", "inputs", "configurations"],
     "every execution/completion order, every domain shape and mask, latitude/longitude and WRF layouts",
     "No test runs more than one cell; the scheduler is never exercised.",
     ["COSIPY.py", K + "io.py", K + "cosipy_core.py"],
     [("results are placed by the indices they carry", "COSIPY.py:run_cosipy; " + K + "io.py:copy_local_to_global")],
     "runtime monitoring: controlled in-process scheduler with recorded execution/completion orders + real Dask runs",
     "Compares whole result datasets between schedules and with single-cell runs of the same code; interleavings are "
     "task-level (cells are separate processes), sampled not enumerated.")

prop("C03", "Percolation conserves water, drains fully and goes only down",
     "Percolation neither creates nor destroys water: water in the column before plus the added surface water equals "
     "water in the column after plus runoff.  Afterwards no layer holds more than its retention capacity, the bottom "
     "layer is drained, and water has moved only downwards; ice, heights, temperatures and snow age are untouched.",
     ["inputs", "histories"], "every column state and every non-negative amount of surface water",
     "The unit tests percolate a handful of fixed two/three layer columns.",
     [M + "percolation.py", K + "node.py"],
     [("bucket scheme", M + "percolation.py:percolation"), ("retention", K + "node.py:get_layer_irreducible_water_content")],
     "runtime monitoring: assertions on hooked stage state + reference bucket model, over hostile columns and traces",
     "Runs the real stage and whole-model steps interpreted; exploration.")

prop("C04", "Refreezing conserves mass and respects its limits",
     "Refreezing turns liquid water into exactly as much ice, never freezes more than the water present, the cold "
     "content or the pore space allow, and never warms a layer above the melting point.  The amount reported is the "
     "sum over layers of the water that froze.",
     ["inputs", "histories"], "every column state",
     "Unit tests check single layers with fixed values.",
     [M + "refreezing.py"], [("per-layer refreezing", M + "refreezing.py:refreezing")],
     "runtime monitoring: assertions on hooked stage state + reference stage, over hostile columns and traces",
     "Exploration over generated columns and whole-model traces.")

prop("C05", "Heat conduction obeys the maximum principle",
     "Heat conduction leaves surface and bottom temperature fixed, creates no new temperature extremes or "
     "oscillations for any layer thickness and any time step, and changes nothing but temperatures.  The result is "
     "that of the documented explicit scheme with stable sub-steps.",
     ["inputs", "histories"], "every column (millimetre layers included) and every time step length",
     "Unit tests use one column and one time step.",
     [M + "heatEquation.py", K + "node.py"], [("stability-limited substeps", M + "heatEquation.py:solveHeatEquation")],
     "runtime monitoring: assertions on hooked stage state + reference scheme", "Exploration.")

prop("C06", "Densification compacts snow without losing mass",
     "Densification leaves every layer's ice mass and liquid water mass unchanged, never makes a layer thicker or "
     "denser than its limits, and leaves ice and too thin layers alone.  The rate is that of the selected "
     "parametrisation; temperatures and snow age are untouched.",
     ["inputs", "histories", "configurations"], "every column, slope, time step and each densification method",
     "Unit tests check that densities rise for a fixed grid.",
     [M + "densification.py"], [("Boone/Vionnet/empirical laws", M + "densification.py")],
     "runtime monitoring: assertions on hooked stage state + reference laws", "Exploration.")

prop("C07", "Remeshing only redistributes the column",
     "Remeshing (merging, splitting, profile correction) conserves column ice mass, water mass, height and heat, "
     "except for whole layers below the minimum thickness that it drops; it never creates layers of zero or negative "
     "thickness or new extremes.  The resulting layer structure is the configured one, and the snow age is unchanged.",
     ["inputs", "histories", "configurations"], "every column, both remeshing methods and their settings",
     "Unit tests merge and split fixed grids and mostly check layer counts.",
     [K + "grid.py"], [("log profile", K + "grid.py:log_profile"), ("adaptive", K + "grid.py:adaptive_profile"),
                       ("merge/split/correct", K + "grid.py:merge_nodes, split_node, correct_layer")],
     "runtime monitoring: conservation monitors on the real grid before/after remeshing + reference mesh", "Exploration.")

prop("C08", "Melt is removed exactly, from the top down",
     "Removing melt takes exactly the melted mass from the top of the column, layer by layer, leaves everything below "
     "unchanged, and hands the liquid water of removed layers on; non-positive melt changes nothing.",
     ["inputs", "histories"], "every column and melt amount (exact layer masses and multi-layer melts included)",
     "Unit tests remove a few fixed amounts.",
     [K + "grid.py"], [("top-down removal", K + "grid.py:remove_melt_weq")],
     "runtime monitoring: mass monitors on the real grid + reference removal", "Exploration.")

prop("C09", "Penetrating radiation: energy split and melt ledger",
     "The absorbed part of the net shortwave radiation heats layers to at most the melting point and melts the rest: "
     "the water produced equals the ice lost and the reported subsurface melt, and the energy stored never exceeds the "
     "energy absorbed.  Without sunshine nothing happens.",
     ["inputs", "histories"], "every column, radiation flux and time step",
     "Unit tests check two fixed cases for type and sign.",
     [M + "penetratingRadiation.py"], [("absorption profile", M + "penetratingRadiation.py:method_Bintanja")],
     "runtime monitoring: energy and mass ledgers on hooked stage state + reference stage", "Exploration.")

prop("C10", "The surface energy balance closes",
     "The surface temperature found is at most the melting point and, within the solver tolerance, is the one at which "
     "the surface energy fluxes sum to zero, or the melting point when they stay positive there.  The melt energy is "
     "exactly the surplus at the melting point and is zero below it.",
     ["inputs", "histories", "configurations"], "all weather in the accepted input range, all columns, both robust solvers",
     "Unit tests run one fixed case per solver and check the range of the result.",
     [M + "surfaceTemperature.py", K + "cosipy_core.py"], [("root search with fallback", M + "surfaceTemperature.py:update_surface_temperature")],
     "runtime monitoring: independent evaluation of the balance around every reported surface temperature",
     "Tolerance 0.3 K; the L-BFGS-B and SLSQP minimisers are not claimed.")

prop("C11", "Surface energy fluxes follow the documented formulas",
     "Every reported radiative, turbulent, ground and rain heat flux equals the documented formula evaluated for the "
     "step's forcing and surface state, has the physically required direction, and is finite for every input in range.  "
     "The subsurface temperatures behind the ground flux never leave the range of the column.",
     ["inputs", "configurations"], "all weather (calm, stable, unstable), both stability corrections, both longwave options",
     "Unit tests evaluate a single state per correction.",
     [M + "surfaceTemperature.py"], [("flux formulas", M + "surfaceTemperature.py:eb_fluxes")],
     "runtime monitoring: every reported flux against an independently written formula", "Exploration.")

prop("C12", "Mass-balance bookkeeping of every step is consistent",
     "In every reported step the mass balance is the sum of surface and internal balance, these are the sums of their "
     "documented terms, melt amounts correspond to melt energy, and at most one vapour exchange term is non-zero and "
     "corresponds to the latent heat flux and the surface state.",
     ["inputs", "histories", "configurations"], "every step of every run",
     "Tests run one short simulation and check a few values.",
     [K + "cosipy_core.py"], [("per-step ledger", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: online identity checker over recorded output traces", "Exploration over whole-model traces.")

prop("C13", "Precipitation is partitioned into rain and snow consistently",
     "Each step's precipitation appears exactly once, as snowfall or as rain, according to the forcing variables "
     "supplied and the configured transfer function, multiplied by the configured factor; only snowfall below the "
     "minimum amount is dropped and neither part is negative.",
     ["inputs", "configurations"], "every forcing set (total precipitation, snowfall, both) and amount",
     "Tests use a single forcing file.",
     [K + "cosipy_core.py"], [("partition", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: conservation checker over recorded output traces", "Exploration.")

prop("C14", "Albedo stays in bounds and follows the ageing law",
     "The surface albedo lies between the configured ice and fresh snow albedo, equals the selected parametrisation "
     "for the current snow age and depth, never decreases with snow depth, and is the ice albedo on bare ice.",
     ["inputs", "histories", "configurations"], "every column, snow age and both albedo methods",
     "Unit tests evaluate one grid.",
     [M + "albedo.py"], [("Oerlemans98 / Bougamont05", M + "albedo.py")],
     "runtime monitoring: assertions on hooked stage state + reference law", "Exploration.")

prop("C15", "Surface roughness stays in bounds and ages",
     "The surface roughness length grows with snow age from the fresh snow value, is capped at the firn value, and is "
     "the ice value on bare ice, in every step.",
     ["inputs", "histories"], "every column and snow age", "Unit tests evaluate one grid.",
     [M + "roughness.py"], [("ageing", M + "roughness.py:roughness_Moelg")],
     "runtime monitoring: assertions on hooked stage state + reference law", "Exploration.")

prop("C16", "Fresh snow and the snow-age clock",
     "Snowfall adds exactly its mass as a dry layer on top and restarts the snow-age clock; in every other step the "
     "clock advances by the time step.  The tracked fresh snow height never grows without snowfall, and the older snow "
     "takes over when the fresh snow has melted.",
     ["inputs", "histories"], "every column and snowfall/melt history",
     "Unit tests add one snow layer.",
     [K + "grid.py", K + "cosipy_core.py"], [("fresh snow layer", K + "grid.py:add_fresh_snow"), ("clock", K + "grid.py:update_albedo")],
     "runtime monitoring: clock and mass monitors over stage calls and traces",
     "Exploration.  One genuine defect is recorded as a known finding (melting never consumes the tracked fresh snow).",
     )

prop("C17", "Mass conservation of the column, step by step",
     "In every step the change of the column's ice and liquid water mass equals snowfall plus rain plus condensation and "
     "deposition minus evaporation, sublimation, and runoff, apart from layers dropped below the minimum thickness.",
     ["histories", "inputs", "configurations"], "every step of every run",
     "No test closes a mass balance; it involves all stages in sequence over a history.",
     [K + "cosipy_core.py", K + "grid.py", M + "percolation.py"], [("the time step", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: conservation ledger over recorded traces (state change vs reported fluxes)",
     "Exploration.  Two genuine defects (deposition not added, evaporation not removed) are known findings.")

prop("C18", "State bounds and consistency of reported profiles",
     "At every step every reported layer has positive thickness, non-negative water, an ice fraction in (0, 1], ice and "
     "water within the pore space, and a temperature not above melting; unused layer slots are empty.  Density, porosity, "
     "cold content, retention, snow height and total height are those of the reported layers.",
     ["histories", "inputs", "configurations"], "every layer of every step, hostile forcing included",
     "Tests look at a few steps of benign forcing.",
     [K + "grid.py", K + "node.py", K + "cosipy_core.py"], [("layer quantities", K + "node.py")],
     "runtime monitoring: invariant checker over every reported layer of recorded traces", "Exploration.")

prop("C19", "The initial column and the reloaded column are the specified ones",
     "A cold start builds, for every cell, exactly the configured initial snow and ice column (snow height from the "
     "input field when given, else from the configuration; total ice depth; density and temperature profiles).  A "
     "column written to and read back from a restart dataset is the same column, layer by layer, with its snow-age state.",
     ["inputs", "configurations", "histories"], "every initial snow height, layer setting and every restart column",
     "Tests build the default initial grid only and compare types/sizes.",
     [K + "init.py"], [("initial profile", K + "init.py:init_snowpack"), ("reload", K + "init.py:load_snowpack")],
     "runtime monitoring: construction/round-trip monitors on the real grid + reference profile", "Exploration.")

prop("C20", "The output file reports the simulation faithfully",
     "The output holds, at each cell and time, exactly the values the column model produced, the forcing and static "
     "fields of the input unchanged, the requested variables and no others (layer profiles only when full fields are "
     "on), each with its documented unit and name, and the settings of the run as attributes.",
     ["inputs", "configurations"], "every selection of output variables, option set and domain",
     "Tests create empty datasets with one configuration.",
     [K + "io.py", "COSIPY.py"], [("result dataset", K + "io.py:init_result_dataset, copy_local_to_global, write_results_to_file")],
     "runtime monitoring: recorded column-model calls vs. the file read back after end-to-end runs", "Exploration.")

prop("C21", "The selected period and tile are the ones simulated",
     "A run covers exactly the input time steps inside the configured period in chronological order, whatever the order "
     "in the input file, and exactly the configured tile; every output cell and time carries the forcing of that cell and "
     "time.  Periods outside the input are rejected and partial overlap is warned about.",
     ["inputs", "configurations"], "every period, tile and input ordering",
     "Tests use one sorted file and one period.",
     [K + "io.py"], [("selection", K + "io.py:init_data_dataset, create_data_file")],
     "runtime monitoring: recorded inputs of every column-model call in end-to-end runs vs. the source file", "Exploration.")

prop("C22", "Bad input is reported and never silently simulated",
     "A run refuses input with missing values in a glacier cell, a missing input or restart file, or a period without new "
     "data, before anything is written; missing values outside the glacier do no harm.  Every variable outside its "
     "accepted range is reported and no variable inside it is.",
     ["inputs", "fault_sequences", "configurations"], "every placement of missing/out-of-range values and missing files",
     "Tests check single values through one function.",
     ["COSIPY.py", K + "io.py", K + "cosipy_core.py"], [("NaN guard", "COSIPY.py:check_for_nan"), ("range check", K + "io.py:check_input_data")],
     "runtime monitoring with fault injection: corrupted inputs/files, exit status, messages and files written observed",
     "Exploration over injected faults.")

prop("C23", "Configuration files take effect completely and by their rules",
     "Every value in the configuration and constants files, and every cluster setting that reaches the job submission, given "
     "on the command line is the one the model uses; "
     "the documented overrides (WRF dimension names, coupled mode, worker count, memory per process) and only these "
     "differ from the files.  Unknown arguments do not disturb this.",
     ["configurations"], "every table/key/value of the three configuration files, every option order",
     "Tests load the shipped files.",
     ["cosipy/config.py", "cosipy/constants.py"], [("loading", "cosipy/config.py:TomlLoader")],
     "runtime monitoring: random configuration files loaded in fresh processes, resulting settings and model effects observed",
     "Exploration.")

prop("C24", "Runs are reproducible and leave their inputs alone",
     "Running the column model on a cell gives bitwise the same result every time, whatever was simulated before in the "
     "same process, and never changes the input dataset, the restart dataset or the settings.",
     ["histories", "inputs"], "every sequence of simulations in one process",
     "Tests never repeat a simulation.",
     [K + "cosipy_core.py", K + "grid.py", M + "albedo.py"], [("no state outlives a call", K + "cosipy_core.py")],
     "runtime monitoring: replay of recorded runs after unrelated runs in one process, input fingerprints",
     "Exploration over histories of runs.")

prop("C25", "Compiled execution equals interpreted execution and is memory-safe",
     "The just-in-time compiled model gives the results of the same code interpreted, and never reads or writes outside "
     "its layer arrays, whatever was run before it on the same tree.",
     ["inputs", "configurations", "histories"], "all columns and forcings, all method options",
     "Tests run compiled code only, with bounds checks off.",
     [K + "grid.py", K + "node.py"] + [M + f for f in ("albedo.py", "densification.py", "evaluation.py", "heatEquation.py",
                                                       "penetratingRadiation.py", "percolation.py", "refreezing.py",
                                                       "roughness.py", "secant.py", "surfaceTemperature.py")],
     [("numba compiled classes and functions", K + "grid.py, node.py")],
     "sanitizer: numba bounds checking + differential trace against the interpreted build",
     "Bounds checking covers array indexing in the compiled code; exploration.")

prop("C26", "Stake evaluation uses the right cell, times and error",
     "Each stake is evaluated against the grid cell nearest to it; the simulated series is the cumulated mass balance "
     "(or the snow height) of that cell sampled at the measurement times, and the reported error is the root mean "
     "square difference to the measurements.  Evaluation does not alter the simulation.",
     ["inputs", "configurations", "schedules"], "every stake layout, observation times and both observation types",
     "Tests evaluate the formula on a short series.",
     ["COSIPY.py", K + "cosipy_core.py", M + "evaluation.py"], [("nearest cell, sampling, rmse", "COSIPY.py:run_cosipy; " + M + "evaluation.py:evaluate")],
     "runtime monitoring: end-to-end runs with stakes; written tables vs. values recomputed from the output file", "Exploration.")

prop("C27", "Coupled stepping equals the stand-alone run",
     "Advancing the model one step at a time through the coupling interface, handing the returned state back in at each "
     "step, gives the same results as the stand-alone run with the same settings.",
     ["histories", "inputs"], "every forcing and number of coupled steps",
     "No test exercises the coupling interface.",
     [K + "cosipy_core.py", K + "init.py", K + "io.py"], [("WRF_X_CSPY path", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: recorded stand-alone trace vs. stepwise coupled trace", "Exploration.")

prop("C28", "Station data are converted to model input faithfully",
     "Converting weather station data gives, for every time step and grid cell, the station value in model units with the "
     "configured elevation corrections and nothing else; the period, the grid and the static fields are those given; "
     "humidity, precipitation and radiation stay within physical limits, at the height of the station nothing is "
     "corrected, and repeated conversion gives the same file.",
     ["inputs", "configurations"], "every station record, period, grid, layout and correction setting",
     "Tests call single helpers with one value; no conversion is ever run.",
     [U + "aws2cosipy/aws2cosipy.py"], [("conversion", U + "aws2cosipy/aws2cosipy.py:create_1D_input, create_2D_input")],
     "runtime monitoring: end-to-end conversions of generated stations vs. independently computed fields", "Exploration.")

prop("C29", "WRF output is converted to model input faithfully",
     "Converting WRF output gives, for every time and cell inside the period, air temperature, humidity, wind at the "
     "model's height, pressure, radiation, cloud cover and the static fields (slope and aspect included) in model units, "
     "with real times, and per-step rather than accumulated precipitation and snowfall.",
     ["inputs", "configurations"], "every WRF record, period and setting of the conversion", "The converter has no tests.",
     [U + "wrf2cosipy/wrf2cosipy.py"], [("conversion", U + "wrf2cosipy/wrf2cosipy.py:create_input")],
     "runtime monitoring: end-to-end conversions of generated WRF files vs. independently computed fields", "Exploration.")

prop("C30", "Slope correction of measured radiation is geometrically sound",
     "Correcting measured shortwave radiation for slope and aspect uses the sun's true position for every place and time, "
     "returns the measured value on flat ground, leaves it unchanged where there is no direct sunshine to correct (low sun "
     "or overcast), and otherwise favours slopes facing the sun over averted ones without leaving the range "
     "between the two.",
     ["inputs"], "every latitude, longitude, day, time, slope and aspect",
     "Tests evaluate two dates at one place and accept any plausible number.",
     [M + "radCor.py"], [("solar geometry and correction", M + "radCor.py:correctRadiation, solarFParallel")],
     "runtime monitoring: metamorphic and reference monitors on the real radiation module", "Exploration.")

prop("C31", "Setup never destroys a user's configuration",
     "Generating the sample configuration creates every missing configuration file identical to its template and replaces "
     "an existing file only with the user's consent; at any place, after any repetition, refusal, interruption or failed "
     "write, every other file stays byte for byte as it was.  The generated files are complete and the model and its "
     "utilities can run from them.",
     ["crash_points", "histories", "configurations"], "every subset of existing files, answers given, and points of failure",
     "The entry point has no tests that run it over existing files.",
     [U + "setup_cosipy/setup_cosipy.py"], [("generation", U + "setup_cosipy/setup_cosipy.py")],
     "runtime monitoring with fault injection: file-system state before/after real runs in scratch directories",
     "Exploration over injected faults.")

prop("C34", "The modelled radiation knows sun, slope, sky and shadow",
     "The radiation modelled for a grid follows the true position of the sun for every place, day and time: nothing at "
     "night, never negative, direct radiation exactly where the sun is above the cell's horizon and slope, the diffuse "
     "part according to the visible sky.  A cell is in shadow exactly when terrain blocks the sun, and the stored shading "
     "and sky-view tables give the same radiation as fresh ones.",
     ["inputs", "configurations"], "every latitude (poles included), day, time, slope, aspect, terrain and grid shape",
     "Tests call single helpers once; the module could not even run with the installed libraries.",
     [M + "radCor.py", U + "aws2cosipy/aws2cosipy.py"],
     [("terrain shadow", M + "radCor.py:relshad, LUTshad"), ("sky view", M + "radCor.py:LUTsvf"),
      ("sun and radiation", M + "radCor.py:solpars, calcRad")],
     "runtime monitoring: reference sun/shadow/sky monitors on the real radiation module over generated terrain",
     "Shadow tests stay away from grazing rays; exploration.")

prop("C32", "Post-processing shows the selected cell and data",
     "The post-processing tools present the data of the selected grid cell and period exactly as stored in the output file, "
     "with times and units unchanged.",
     ["inputs"], "every output file, coordinate and period",
     "Field-plot helpers are tested on a mock dataset; the profile plots and the export are not.",
     ["cosipy/postprocessing/"], [("selection", "cosipy/postprocessing")],
     "runtime monitoring: arguments reaching the plotting backend vs. the file", "Exploration.")

prop("C35", "The column's layer store is faithful",
     "After any sequence of operations on the column (adding, removing, merging, splitting, resizing or updating layers, setting "
     "single or whole profiles, melting, ageing) every accessor returns exactly what the operations left in the addressed layers, "
     "derived quantities follow from the same layers, other layers are untouched, and the layer count, snow height, depths and "
     "totals always agree with the layers.",
     ["inputs", "histories", "configurations"], "every sequence of operations and every column, compiled and interpreted",
     "Tests apply single operations to one small grid.",
     [K + "grid.py", K + "node.py"], [("layer operations", K + "grid.py:Grid"), ("derived quantities", K + "node.py:Node")],
     "runtime monitoring: random operation histories on the real grid against a shadow model, all accessors read after every operation",
     "Exploration; one job runs the compiled classes.")

prop("C33", "The future does not influence the past; time is uniform",
     "The results up to any time step do not depend on forcing after it, and starting the same weather at another calendar "
     "date changes nothing.",
     ["inputs", "histories"], "every forcing and every truncation point",
     "Tests run one period.", [K + "cosipy_core.py"], [("the time loop", K + "cosipy_core.py:cosipy_core")],
     "runtime monitoring: prefix/shift metamorphic comparison of recorded traces", "Exploration.")

prop("C36", "Static files describe every grid cell of the study area",
     "The static file made from an elevation model and a glacier outline holds, at the coordinates of every cell of the (cut and "
     "aggregated, as configured) elevation model, that cell's height, slope and aspect, and marks as glacier exactly the cells inside the "
     "outline.  Missing values on the glacier are refused; when this or any step fails no static file is written and an earlier one "
     "stays; inputs and other files are never touched and no intermediate file is left after success.",
     ["inputs", "configurations", "crash_points"], "every elevation model, outline, window, aggregation, and failing step",
     "The test suite cannot import the module's dependencies and tests none of this.",
     [U + "createStatic/create_static_file.py"], [("creation", U + "createStatic/create_static_file.py:main, check_for_nan")],
     "runtime monitoring with fault injection: the real program over working stand-ins of its external programs, file and folder judged after every run",
     "gdal and richdem are absent: stand-ins do what the real programs do with the options used.  Exploration.")

prop("C37", "Converting an old configuration carries every setting over",
     "Converting a source tree of the old layout writes configuration files in which every setting of the old modules (run, constants, "
     "utilities and the selection of output variables) has the same value and type, the output prefix is the old result's name without its "
     "dates, nothing the user did not set is invented, and what cannot be carried over is announced and left empty; the current model loads them and no other file changes.",
     ["inputs", "configurations"], "every old configuration",
     "The test suite does not run the converter.",
     ["convert_config.py"], [("conversion", "convert_config.py")],
     "runtime monitoring: the real converter run on generated old source trees, files read back and compared setting by setting", "Exploration; the absent toml package is replaced by a writer.")


NOT_APPLICABLE = {}


def main():
    with open(HERE / "properties.jsonl", "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=" ".join(p["statement"].split()),
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  hook_needed=None))
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
        elif (HERE / "checks" / f"{i.lower()}.py").exists():
            checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
                               evidence_file=f"evidence/{i}.json", technique=p["tech"], level="exploration",
                               level_note=p["note"]))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
             notes="No hooks in /repo: the monitors drive and observe the unmodified code from outside "
                   "(harness/). known_findings.txt lists recorded and repaired defects.")
    (HERE / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(checks), "checks;", [x["property"] for x in na])


if __name__ == "__main__":
    main()
