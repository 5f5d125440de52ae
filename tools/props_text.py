# Texts of the properties (executed by mkmeta.py).

S = ["histories", "inputs", "fault_sequences", "configurations"]
CORE = "openamundsen/model.py"

prop(
    "P01", "Snow water is conserved at every pixel and time step",
    "For every pixel of the region of interest and every time step, the snowpack's ice plus liquid "
    "water changes by exactly snowfall + rainfall - snow runoff - sublimation as reported for that "
    "step, and its ice alone by snowfall - melt + refreezing - sublimation; the reported SWE equals "
    "the sum of the layers. Melt, refreezing and runoff are never negative and never exceed the "
    "water that was there. This holds for both snow models, all their options, and while station "
    "data is missing.",
    S, "all worlds, weather histories, sensor outage sequences and snow configurations",
    "Tests run a few short reference periods and compare single functions; they never sum up the "
    "fluxes of a history, and no test drops sensors while snow is on the ground.",
    ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py",
     "openamundsen/modules/snow/snow.py", "openamundsen/surface.py"],
    [("melt, sublimation, runoff, refreezing and relayering of the layer stores",
      "openamundsen/modules/snow"), ("order of the snow sub-steps", CORE)],
    "seeded weather/sensor-outage histories, conservation invariant per pixel and step",
    "Sampled: conservation checked on every pixel and step of the simulated worlds; trusts the "
    "reported snowfall/rainfall of the step (checked by P16).",
)
prop(
    "P02", "The snowpack state is always physically valid and self-consistent",
    "After every time step each snow layer has finite, non-negative ice, liquid water and thickness; "
    "layers hold water exactly where they have thickness, the layer count, depth, density and SWE "
    "agree with the layer contents, liquid water stays within the configured holding capacity, snow "
    "is never warmer than the melting point, and albedo stays in its configured range and snow "
    "cover fraction in [0, 1]. In the multilayer model the layers are filled from the top without "
    "gaps and all but the lowest have their configured thickness.",
    S, "all worlds, weather histories, sensor outage sequences and snow configurations",
    "Unit tests check the layering routine on a handful of hand-made stacks; the combinations of "
    "melt, rain, collapse of thin layers and outages that occur along a season are not reached.",
    ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py",
     "openamundsen/modules/snow/snow.py"],
    [("relayering and property update after every step", "openamundsen/modules/snow"),
     ("albedo aging with configured bounds", "openamundsen/modules/snow/snow.py")],
    "seeded weather/sensor-outage histories, state invariant after every step",
    "Sampled: the invariant is evaluated on every pixel and step of the simulated worlds.",
)
prop(
    "P03", "Missing station data never crashes, poisons or outlives the outage",
    "If any subset of stations or sensors is missing for any number of time steps (including the "
    "first), the run continues, no retained state variable becomes missing, a variable no station "
    "reports is missing (not invented) in that step's fields, and a variable that some station does "
    "report is available. Snow water equivalent, depth, runoff and sublimation always have a value. Once "
    "temperature, humidity and wind data are back, all meteorological fields are available in the same "
    "step and radiation and surface fields one step later.",
    ["fault_sequences", "histories", "configurations"],
    "all sequences of sensor, station and network outages on all station networks and configurations",
    "The tests contain single-step NaN samples for interpolation only; outages of arbitrary length "
    "and position combined with snow, canopy and evapotranspiration state are never run.",
    ["openamundsen/meteo/interpolation.py", "openamundsen/modules/radiation", CORE,
     "openamundsen/surface.py", "openamundsen/modules/canopy", "openamundsen/modules/evapotranspiration"],
    [("NaN-aware interpolation and masks of valid pixels", "openamundsen/meteo/interpolation.py"),
     ("cloudiness fallback chain", "openamundsen/modules/radiation")],
    "seeded outage schedules (sensor gap, station outage, network blackout, flapping), progress and "
    "bounded-recovery checks",
    "Sampled outage schedules; recovery bound is one time step.",
)
prop(
    "P04", "Only the region of interest is simulated",
    "The region of interest is exactly the ROI file's pixels with a valid elevation (plus the "
    "station pixels if configured) and stays the same for the whole run. In no time step does any "
    "submodel modify a state variable outside of it (apart from constant background fields such as "
    "the bare-ground surface albedo), whatever the data availability and configuration.",
    S, "all ROI shapes, terrains, station networks, outage sequences, submodel combinations",
    "Most submodels index through several nested masks (ROI, forest pixels, snow pixels, pixels with "
    "data); tests use full-grid ROIs and check values only inside.",
    [CORE, "openamundsen/util.py", "openamundsen/modules/canopy/canopy.py",
     "openamundsen/modules/snow", "openamundsen/surface.py",
     "openamundsen/modules/evapotranspiration/evapotranspiration.py"],
    [("translation of local masks to grid positions (global_mask)", CORE)],
    "seeded terrain/ROI/outage histories, invariant over all state variables after each step",
    "Sampled: every state variable and step of the simulated worlds, background fields excluded.",
)
prop(
    "P05", "Model instances are isolated from each other and from the caller",
    "Several model instances in one process, initialised and stepped in any interleaving (also when "
    "they share the configuration object or forcing dataset, use different thread counts, or when "
    "another instance fails), each produce exactly the states and outputs they produce alone. No "
    "call modifies the objects passed by the caller or process-wide settings (numba thread count, "
    "environment, working directory, numpy error state, random state); default logging installs "
    "exactly one handler however many instances exist.",
    ["schedules", "configurations", "inputs"],
    "all interleavings of the public calls of several instances",
    "Tests run one instance at a time and never compare with a solo run.",
    [CORE, "openamundsen/conf.py", "openamundsen/landcover.py", "openamundsen/statevars.py"],
    [("per-instance state, deep copy of forcing, thread count set and restored around each step", CORE),
     ("merging of land cover defaults", "openamundsen/conf.py")],
    "seeded interleaving of several real instances, bit-exact comparison with solo runs in separate "
    "processes",
    "Sampled interleavings of 2-3 instances.",
)
prop(
    "P06", "The run loop processes every date exactly once and deterministically",
    "run() and repeated run_single() give bit-identical states and outputs; step k processes exactly "
    "start + k * timestep and reports the correct first/last-of-day/month/year flags; a state never "
    "depends on where the run ends or on the weather of later steps. Calls beyond the end, a second "
    "run() or run() after run_single() are refused and change nothing; a step that fails propagates "
    "its exception, keeps earlier outputs and restores the numba thread count.",
    ["schedules", "histories", "configurations"],
    "all call sequences, periods, time steps and forcing futures",
    "Tests check single call orders on one period and cannot compare a run with its own prefixes and "
    "alternative futures.",
    [CORE],
    [("date index, lifecycle guard, thread count handling", CORE)],
    "seeded call sequences with injected misuse and callback failures; refinement against an "
    "uninterrupted run in another process",
    "Sampled call sequences and histories.",
)
prop(
    "P07", "Gridded output equals the history of the model state",
    "Every configured gridded output field is written exactly at its configured dates (frequency, "
    "month/year ends or starts, or date list in any order) with the model state of that date, or with the sum or "
    "mean over exactly the time steps since its previous output date, on the right grid or pixel "
    "positions, with correct time bounds. This holds for NetCDF (pre-allocated and appended), "
    "GeoTIFF, ASCII and in-memory output, both layouts, 2-D and 3-D, float and integer variables, "
    "and everything due so far can be read back at any point of the run.",
    ["histories", "configurations", "fault_sequences"],
    "all output configurations, time step/frequency combinations, simulation periods and state "
    "histories, at any step of the run",
    "The tests compare a few variables for a few frequencies of one period; interactions of several "
    "fields with different dates, aggregations, layouts and append mode, and reads while the run is "
    "in progress are not covered.",
    ["openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/raster.py"],
    [("write-date computation, running aggregation, per-format writers",
      "openamundsen/fileio/griddedoutput.py")],
    "recorded state history against an independent reference model of the output, files re-read at "
    "seeded steps",
    "Sampled output configurations; values compared at storage precision (float32).",
    observe=["output files / dataset, re-read during and after the run"],
)
prop(
    "P08", "Time series output equals the history of the model state at the points",
    "The time series output holds, for every point (stations in the region of interest and "
    "configured points), every configured variable and every time step exactly once and in order, "
    "the model state at the pixel containing the point; CSV, NetCDF and in-memory output agree with "
    "it. After each write date the file holds all steps up to that date and nothing else, for every "
    "write frequency and time step.",
    ["histories", "configurations", "fault_sequences"],
    "all point/variable/write-frequency configurations, time steps and periods, at any step of the run",
    "The tests check a few write frequencies with one time step; chunk boundaries that do not "
    "coincide with time steps, months or the end of the run are not enumerated.",
    ["openamundsen/fileio/pointoutput.py"],
    [("chunking by write dates, overwrite on first chunk and append afterwards",
      "openamundsen/fileio/pointoutput.py")],
    "recorded state history against an independent reference model of the output, files re-read at "
    "seeded steps",
    "Sampled output configurations; values compared at storage precision (float32).",
    observe=["output files / dataset, re-read during and after the run"],
)
prop(
    "P15", "The retained state alone determines the future",
    "A run is unaffected if, between any two time steps, the instance is pickled, deep-copied or "
    "moved to another process, or if all variables declared transient are reset to no-data (as with "
    "reset_state_variables): every later state inside the region of interest and all outputs are "
    "bit-identical to the uninterrupted run, and a copied original is unaffected by its copy.",
    ["schedules", "fault_sequences", "histories", "configurations"],
    "all positions of the event in all histories and configurations",
    "Which variables carry memory between steps shows only along a history; tests do not reset or "
    "move a running model.",
    ["openamundsen/statevars.py", CORE, "openamundsen/modules/snow",
     "openamundsen/modules/evapotranspiration/evapotranspiration.py",
     "openamundsen/modules/canopy/canopy.py", "openamundsen/modules/glacier/glaciermodel.py"],
    [("retain flag of state variables and reset()", "openamundsen/statevars.py"),
     ("re-configuration in another process", CORE)],
    "seeded migration/transient-loss events between steps, bit-exact comparison with the "
    "uninterrupted run",
    "Sampled event positions and histories.",
)

NOT_APPLICABLE = {
    "N01": "Pure functions of their arguments (unit conversions, humidity and pressure formulas, sun "
           "position, slope/aspect, tridiagonal solver): no schedule, clock, fault or history enters, "
           "so deterministic simulation decides nothing here.",
    "N02": "Parsing and validating a configuration is a pure function of the input text; there is "
           "no fault or interleaving for a simulator to decide.",
}
NA_RECORDS = [
    {
        "id": "N01", "title": "Meteorological and terrain formulas are accurate",
        "statement": "Humidity, pressure, sun position, slope, aspect and unit conversion formulas "
                     "agree with their published definitions for every valid argument.",
        "quantifier": {"over": ["inputs"], "text": "all valid arguments"},
        "why_tests_cant": "Tests sample a few arguments per formula.",
        "anchors": {"files": ["openamundsen/meteo", "openamundsen/terrain.py",
                              "openamundsen/tridiag.py"], "mechanism": []},
    },
    {
        "id": "N02", "title": "Invalid configurations are rejected before anything runs",
        "statement": "Every configuration that violates the schema or its cross-field rules is "
                     "rejected with a configuration error, every valid one is accepted.",
        "quantifier": {"over": ["inputs"], "text": "all configuration documents"},
        "why_tests_cant": "Tests sample a few invalid documents.",
        "anchors": {"files": ["openamundsen/conf.py", "openamundsen/data/configschema.yml"],
                    "mechanism": []},
    },
]
OUT = ["openamundsen/fileio/pointoutput.py", "openamundsen/fileio/griddedoutput.py",
       "openamundsen/fileio/raster.py"]
prop(
    "P09", "Output written before a crash survives the crash",
    "If the process is killed at any point (also in the middle of any file operation), every time "
    "series row of a completed write interval, every raster file of a completed time step and, unless "
    "the process was just writing to it, the gridded NetCDF file are still there, readable and equal to "
    "what an undisturbed run wrote; no row is duplicated, reordered or half-written before the last "
    "line of a CSV file.",
    ["crash_points", "histories", "configurations"],
    "all crash points (before, inside and after every file operation, and between time steps) of all "
    "output configurations",
    "No test interrupts a run, and a crash can hit thousands of file operations.",
    OUT, [("chunked time series writing and atomic replacement", "openamundsen/fileio/pointoutput.py"),
          ("per-step opening and closing of the NetCDF file", "openamundsen/fileio/griddedoutput.py")],
    "process killed at seeded file operations (preloaded file-system seam, torn writes), durability "
    "check against the fault-free history",
    "Sampled crash points; failure model is process death, not power loss.",
    observe=["files in the results directory after the crash"],
)
prop(
    "P10", "Output errors are reported and leave earlier output intact",
    "If any file operation on the results directory fails (I/O error, full disk, short write), the run "
    "either stops with an error or all output is nevertheless complete and right - it never ends "
    "normally with missing or wrong output. Output of the completed time steps stays intact, and after "
    "the fault is gone a new run in the same process, or in the same directory, succeeds with complete "
    "output.",
    ["fault_sequences", "histories", "configurations"],
    "all positions and kinds of file-system faults in all output configurations",
    "Tests never see a failing file system.",
    OUT, [("error propagation of the output writers", "openamundsen/fileio"),
          ("replacement of the time series file", "openamundsen/fileio/pointoutput.py")],
    "EIO, ENOSPC and short writes injected at seeded file operations (preloaded file-system seam), "
    "completeness / durability / recovery checks",
    "Sampled fault positions; crashes of the HDF5 library on failing closes count as reported.",
    observe=["result of run() and files in the results directory"],
)
prop(
    "P11", "Leftovers of interrupted or concurrent runs never change results",
    "A run into a results directory that contains the files of a crashed, finished or differently "
    "configured run produces exactly the output of a run into an empty directory. The sky view factor "
    "cache in the grids directory never changes a result: the run that creates it, later runs, runs "
    "after a crash at any point of its creation and runs that overlap with its creation by another "
    "process all get bit-identical results.",
    ["crash_points", "schedules", "fault_sequences", "configurations"],
    "all crash points and overlaps of two processes at file operations, all sequences of runs",
    "Tests start from empty directories with one process.",
    [*OUT, CORE], [("overwriting of earlier output", "openamundsen/fileio"),
                   ("sky view factor cache", CORE)],
    "crash loops and stalled/overlapping processes scheduled at seeded file operations, comparison with "
    "solo runs in fresh directories",
    "Sampled crash points and overlaps of two processes.",
    observe=["output files and complete model state"],
)
prop(
    "P12", "The model is driven by exactly what the stations recorded",
    "Whatever outages, spikes, gaps, late starts and early ends the station feeds have, each forcing "
    "value (station, variable, time step) is the documented reduction of exactly the raw records of its "
    "interval: precipitation sums, gust maxima, vector-mean wind directions, means or instantaneous "
    "values, with out-of-range values discarded, units converted and missing data left missing. "
    "Stations are selected by bounds/include/exclude alone; unusable input (irregular records, no "
    "station, uncovered period under strict checks) is rejected before the run and usable input never.",
    ["inputs", "fault_sequences", "configurations"],
    "all station files, native and model time steps, sensor fault sequences and station selection rules",
    "Tests read a few clean station files; alignment errors of one record are plausible-looking.",
    ["openamundsen/meteo", "openamundsen/forcing.py", "openamundsen/fileio/meteo.py"],
    [("station data resampling", "openamundsen/fileio/meteo.py"),
     ("unit conversions", "openamundsen/forcing.py")],
    "seeded station feeds with sensor faults read by the real readers, compared with a naive "
    "per-interval reduction of the raw records",
    "Sampled feeds of at most 14 model steps; daily steps start at 00:00.",
    observe=["model forcing dataset after initialize()"],
)
prop(
    "P13", "Inputs are read completely and correctly, or the run does not start",
    "If any open or read of an input file fails or is cut short, or an input file is missing, empty, "
    "torn or belongs to another grid (shape, position, resolution), initialisation fails with an error; "
    "otherwise the run is bit-identical with an undisturbed one. After the fault is gone a new run, also "
    "in the same process, gives the undisturbed result. The same records passed in memory or as NetCDF "
    "files give bit-identical results.",
    ["fault_sequences", "inputs", "configurations"],
    "all read/open operations of all input configurations and all damages of input files",
    "Tests never see failing reads or damaged inputs.",
    ["openamundsen/fileio/raster.py", "openamundsen/fileio/meteo.py", CORE],
    [("raster metadata checks", "openamundsen/fileio/raster.py"),
     ("station file readers", "openamundsen/fileio/meteo.py")],
    "open errors, read errors and short reads injected at seeded operations (preloaded file-system "
    "seam) plus torn and wrong files, comparison with the undisturbed run",
    "Sampled fault positions; no EIO inside ASCII grids (GDAL never returns from those).",
    observe=["result of initialize() and complete model state"],
)
prop(
    "P14", "Results do not depend on the number of threads or their interleaving",
    "For every grid, configuration and weather history, the complete model state after every time step "
    "and the results of the parallel terrain and interpolation routines are bit-identical for any number "
    "of worker threads, any distribution of the loop iterations over them and any interleaving of their "
    "memory accesses.",
    ["schedules", "inputs", "configurations"],
    "all thread counts, work distributions and interleavings at statement / array-access granularity",
    "A data race shows up rarely, on some machines, and tests compare with tolerances on one thread count.",
    ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/snow.py",
     "openamundsen/surface.py", "openamundsen/interpolation.py", "openamundsen/terrain.py",
     "openamundsen/modules/radiation/shadows.py"],
    [("parallel snow layer kernels", "openamundsen/modules/snow"),
     ("parallel terrain routines", "openamundsen/terrain.py"),
     ("parallel interpolation", "openamundsen/interpolation.py")],
    "seeded cooperative scheduler interleaving simulated worker threads of all prange loops, comparison "
    "with in-order execution",
    "Sampled interleavings of 2-8 threads on small grids; sequentially consistent memory; interpreted "
    "kernels.",
    observe=["complete model state after run_single()", "terrain.openness, terrain.sky_view_factor, "
             "interpolation.idw return values"],
)
prop(
    "P16", "Meteorological fields are the documented function of the available records",
    "At every time step, under any pattern of station outages, the temperature, humidity, wind and "
    "precipitation fields are the configured detrended inverse-distance interpolation of exactly the "
    "records available at that step, limited to physical (and, without extrapolation, observed) ranges; "
    "they are missing (precipitation: zero) only if no station has data. Gauge corrections apply to the "
    "records, with gaps filled from the other stations; precipitation is split into rain and snow "
    "according to the configured phase rule and rain plus snow is the total.",
    ["inputs", "fault_sequences", "configurations"],
    "all station layouts, outage patterns, terrain and interpolation / correction / phase settings",
    "Tests check single functions or single stations; wrong weights or stale stations look plausible.",
    ["openamundsen/interpolation.py", "openamundsen/meteo",
     CORE],
    [("interpolation of station data", "openamundsen/interpolation.py"),
     ("precipitation corrections and phase", "openamundsen/meteo")],
    "seeded station networks with outages and sensor faults run through the real model, every field "
    "compared with a naive reference model",
    "Sampled networks of up to 6 stations; piecewise regressions only checked for availability and range; "
    "near the phase thresholds (0.05 K wet bulb) only the balance is checked.",
    observe=["state.meteo fields after run_single()"],
)
prop(
    "P17", "Irradiance follows sun, terrain and the best available cloudiness source",
    "At every time step the clear-sky radiation is that of the sun position of the local time, zero at "
    "night, with direct radiation only on pixels that the terrain (including the extended grid) does not "
    "shade. Under any outage pattern the cloudiness comes from the documented chain - prescribed, "
    "radiation-based, humidity-based, previous step, constant - using exactly the stations usable at that "
    "step, the cloud factor stays within 0..1 and shortwave irradiance is clear-sky times cloud factor. "
    "Longwave irradiance is the sum of the clear-sky, cloud and slope components.",
    ["inputs", "fault_sequences", "configurations"],
    "all dates, positions, terrain, station layouts and outage patterns, cloudiness and radiation settings",
    "Tests check single sun positions; fallbacks, margins and stale cloudiness need outage sequences.",
    ["openamundsen/modules/radiation", "openamundsen/terrain.py", CORE],
    [("irradiance and cloudiness", "openamundsen/modules/radiation/irradiance.py"),
     ("clear-sky radiation", "openamundsen/modules/radiation/clearsky.py"),
     ("terrain shadows", "openamundsen/modules/radiation/shadows.py"),
     ("solar position", "openamundsen/modules/radiation/sunparams.py")],
    "seeded station networks with radiation, humidity and cloudiness sensor outages run through the real "
    "model, every radiation field compared with a naive reference model",
    "Sampled runs of at most 14 steps without canopy; floating-point ties of the shadow scan are skipped.",
    observe=["state.meteo radiation fields after run_single()", "state.base terrain parameters"],
)
prop(
    "P18", "Forest canopies neither create nor lose snow, and shelter as documented",
    "In every forest pixel and time step, whatever sensors fail and however the leaf area changes, snow "
    "stored in the canopy changes by interception minus sublimation minus melt unload, none of which is "
    "negative or exceeds its source, and snowfall reaching the ground is the snowfall above minus "
    "interception plus unload. Temperature (24 h mean of the available values), humidity, wind and radiation "
    "below the canopy are the documented functions of the values above and of the seasonal leaf area. "
    "Pixels outside forests are not affected.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "all weather histories, outage patterns, time steps, land cover classes and growing seasons",
    "Tests run a few clean days; stores leak only after outages or season changes.",
    ["openamundsen/modules/canopy/canopy.py", "openamundsen/landcover.py"],
    [("canopy snow and meteorology", "openamundsen/modules/canopy/canopy.py"),
     ("seasonal leaf area index", "openamundsen/landcover.py")],
    "seeded weather with outages run through the real model, every canopy variable compared with a naive "
    "reference model and a canopy-free twin",
    "Sampled runs of at most 30 steps; effective leaf area index > 0.",
    observe=["state.meteo, state.snow canopy variables and state.land_cover after run_single()"],
)
prop(
    "P19", "Evapotranspiration and soil water accounts follow FAO-56 in every history",
    "In every pixel and time step the soil water accounts (surface layer, root zone, interception of sealed "
    "surfaces) change by exactly rainfall, evaporation, transpiration and percolation within their capacity "
    "limits, also while forcing is missing or snow covers the ground, when evapotranspiration is zero. "
    "Reference ET, crop coefficients over the growth stages, water stress and sealed-surface evaporation are "
    "the documented functions of the forcing and of these accounts; no flux is negative.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "all weather histories, outage patterns, land cover and soil classes, growing seasons",
    "Tests check single functions; accounts drift only over histories with rain, drought, snow and outages.",
    ["openamundsen/modules/evapotranspiration/evapotranspiration.py", "openamundsen/landcover.py"],
    [("evapotranspiration model", "openamundsen/modules/evapotranspiration/evapotranspiration.py")],
    "seeded weather with outages run through the real model, every ET variable compared with a naive "
    "per-pixel FAO-56 reference model with its own water accounts",
    "Sampled runs of at most 40 steps; forcing of the pixel taken from the model.",
    observe=["state.evapotranspiration and state.land_cover variables after run_single()"],
)
prop(
    "P20", "The snowpack evolves by the documented processes in every history",
    "In every pixel and time step, for both snow models and all methods and parameters, the complete snow "
    "state after the step (per-layer thickness, ice, liquid water, temperature or cold content, density and "
    "albedo; SWE, depth, cover fraction, albedo, melt, refreezing, sublimation, runoff) is what the documented "
    "sequence of albedo aging, compaction, accumulation, canopy unload, melt, sublimation or frost, liquid "
    "water retention, refreezing, heat conduction and layer transition or relayering makes of the state "
    "before and of the forcing, also when forcing is missing.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "all weather histories, outage patterns, time steps, snow model options and initial firn and ice",
    "Tests check coarse bounds over one season; a wrong process shows only in particular layer configurations "
    "and weather sequences.",
    ["openamundsen/modules/snow/multilayermodel.py", "openamundsen/modules/snow/cryolayermodel.py",
     "openamundsen/modules/snow/snow.py"],
    [("layered snow model", "openamundsen/modules/snow/multilayermodel.py"),
     ("cryospheric layers", "openamundsen/modules/snow/cryolayermodel.py"),
     ("albedo, compaction, fresh snow", "openamundsen/modules/snow/snow.py")],
    "seeded weather with outages run through the real model, the snow state of every pixel predicted from the "
    "state before by a naive scalar reference model",
    "Sampled runs of at most 40 steps; floating-point ties of branch conditions are skipped; forcing of a pixel "
    "taken from the model.",
    observe=["state.snow after run_single()"],
)
prop(
    "P21", "The surface energy balance closes and drives melt and sublimation",
    "In every pixel and time step with an energy balance, net radiation, sensible, latent and advective heat "
    "minus the heat flux into the ground and the energy spent on melt add up to zero at the new surface "
    "temperature (within the linearisation or iteration tolerance); every flux, the exchange coefficient, melt, "
    "sublimation, surface and soil temperatures are the documented functions of forcing and previous state; "
    "snow surfaces are never warmer than the melting point. Missing forcing leaves the documented fallback.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "all weather histories, outage patterns, time steps, snow and soil parameters, both snow models",
    "Sign and consistency errors of the fluxes show only under particular weather; tests have no energy account.",
    ["openamundsen/surface.py", "openamundsen/modules/soil/soil.py",
     "openamundsen/modules/snow/cryolayermodel.py"],
    [("surface energy balance", "openamundsen/surface.py"),
     ("soil heat", "openamundsen/modules/soil/soil.py")],
    "seeded weather with outages run through the real model, every flux compared with a naive scalar reference "
    "model and the energy balance summed up independently",
    "Sampled runs of at most 40 steps; closure with the tolerance of the documented linearisation/iteration.",
    observe=["state.surface, state.soil, state.meteo and state.snow.melt after run_single()"],
)
prop(
    "P22", "Glacier geometry updates move ice within a glacier without creating any",
    "At the last step of every mass balance year that was started, the ice and firn mass change of the thick "
    "pixels of a glacier is redistributed by the documented delta-h shape (by area class, limited to the mass "
    "loss at the terminus), conserving the glacier's total unless a pixel runs out of ice. All other pixels and "
    "all other time steps are untouched, no ice becomes negative or undefined, and SWE, depth, density and "
    "layer count agree with the new ice, for any glacier shape, mass balance and number of years.",
    ["inputs", "histories", "fault_sequences", "configurations"],
    "all glacier maps, terrains, ice and firn distributions, year start months, weather and multi-year histories",
    "Tests check one glacier and one year; flat, thin, vanishing or growing glaciers and second years are not.",
    ["openamundsen/modules/glacier/glaciermodel.py"],
    [("delta-h model", "openamundsen/modules/glacier/glaciermodel.py")],
    "seeded multi-year simulations (the simulated clock jumps over quiet stretches) with ice changes injected "
    "between steps, every update compared with a naive per-glacier reference model",
    "Daily and 12-hourly steps; most runs visit only part of the days of a year.",
    observe=["state.snow ice and firn layers after run_single()"],
)
prop(
    "P23", "Results do not depend on how configuration and forcing reach the model",
    "The same configuration and station records give the same state in every time step and the same output "
    "files whether they come as objects in memory, as NetCDF or CSV station files, as YAML file through the command "
    "line program, or (for the interpolated fields) through the meteorology callback of a coupled program; "
    "spelling out defaults, using deprecated spellings, giving only dates, or interrupting and resuming a callback-driven run changes "
    "nothing. A command line run that fails ends with a nonzero exit status and an error message, and a failing "
    "callback's exception reaches the caller.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "all worlds, outage patterns, configurations, dates and time steps, and every failure of the entry points",
    "Tests use one channel per test and never compare two; the command line program is not tested at all.",
    ["openamundsen/cli.py", "openamundsen/fileio/meteo.py", "openamundsen/model.py", "openamundsen/conf.py"],
    [("command line program", "openamundsen/cli.py"),
     ("station readers", "openamundsen/fileio/meteo.py"),
     ("callback interface, date handling", "openamundsen/model.py")],
    "the same seeded world with sensor outages run through two channels (in separate processes) and the histories "
    "compared step by step; failures injected into the entry points",
    "Sampled runs of at most 48 steps; meteorological fields of CSV runs to 1e-6, the rest bit for bit.",
    observe=["complete state after run_single()", "output files", "exit status and stderr of openamundsen CONFIG"],
)
prop(
    "P24", "The live view observes the run without influencing it and shows the current state",
    "A run with live view enabled has, after every time step, bit-identical states and outputs to the same run "
    "without it, whatever fields, ROI and options are configured. After each step the window of the instance "
    "shows, for every configured field, the current state inside the region of interest (nothing outside), under "
    "its own label and limits, and the current date, with and without blitting, for any number of fields and "
    "columns, with several windows open and while window events force redraws at arbitrary moments.",
    ["histories", "configurations", "schedules"],
    "all runs, live view configurations and sequences of window events",
    "There is no test of the live view.",
    ["openamundsen/liveview.py", CORE],
    [("window set-up and update", "openamundsen/liveview.py"), ("update at the end of a step", CORE)],
    "the real live view on a simulated window system that fires redraw events at seeded moments; screen contents "
    "compared with the state, state with a run without live view",
    "Sampled runs of at most 14 steps; the window system is a stub which models drawing, blitting and copying of "
    "image data.",
    observe=["simulated screen", "complete state after run_single()", "outputs"],
)
prop(
    "P25", "Long runs need constant resources and leave nothing behind",
    "However long a run is, whatever data is missing and whichever file operations fail: the state an instance "
    "retains after each completed time series write interval does not grow with the number of steps (in-memory "
    "output excepted); after initialisation, every time step, a failed initialisation or step, and after the "
    "instance is discarded, no input or output file stays open or mapped, and no thread, child process, "
    "module-level cache entry or temporary file stays behind; a discarded instance is freed.",
    ["histories", "fault_sequences", "configurations"],
    "all run lengths, configurations, data outages and failing file operations",
    "Tests run a few days in a fresh process and never look at what is left after a step or after a failure.",
    [CORE, "openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/pointoutput.py",
     "openamundsen/fileio/meteo.py"],
    [("buffers and files of the output writers", "openamundsen/fileio"),
     ("sky view factor cache, input readers", CORE)],
    "seeded runs with sensor outages and file operation errors at seeded positions (LD_PRELOAD shim); descriptors, "
    "mappings, threads, children, temporary files, module-level containers and everything reachable from the "
    "instance measured after the calls",
    "Sampled runs of at most some hundred steps; what a C library retains without a descriptor or mapping is not "
    "seen. The HDF5 library keeps a file open whose write failed; this is not counted.",
    observe=["/proc/self/fd, maps, task", "objects reachable from the instance", "directory contents"],
)
prop(
    "P26", "The environment of the process never influences a result",
    "The same configuration, inputs and forcing give bit-identical states and output files whatever the wall clock "
    "(also when it jumps), time zone, locale, hash seed, interpreter optimisation level, working directory, umask, "
    "order in which directories are listed, file times, unrelated files in the directories, location of the "
    "directories (relative, absolute, unusual names), standard streams, log level, garbage collection schedule and "
    "global random state are, and whenever these change during the run.",
    ["configurations", "histories", "schedules"],
    "all environments of the process, changes of the environment during a run and simulated worlds",
    "All tests run in the same environment.",
    [CORE, "openamundsen/fileio", "openamundsen/conf.py", "openamundsen/forcing.py"],
    [("date handling and sun position", CORE), ("listing of input directories", "openamundsen/fileio/meteo.py"),
     ("paths of inputs and results", "openamundsen/fileio")],
    "the same seeded world run twice, the second time in an environment whose clock, time zone, directory order, "
    "working directory, streams etc. are simulated and changed at seeded steps; complete histories and files "
    "compared bit for bit",
    "Sampled environments and worlds of at most some tens of steps.",
    observe=["complete state after run_single()", "output files"],
)
