"""The properties: what is claimed, where it lives, what decides it."""

CORE = "cosipy/cpkernel/cosipy_core.py"
GRID = "cosipy/cpkernel/grid.py"
NODE = "cosipy/cpkernel/node.py"
IO = "cosipy/cpkernel/io.py"
SFC = "cosipy/modules/surfaceTemperature.py"
TRUST = "Random search with shrinking, no proof. Trusts numpy, numba, xarray and the reference written in pbt/ref.py. "

P = []


def add(id, title, statement, over, quant, why, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech,
                  observe=observe, technique=technique, note=TRUST + note))


add("C01", "The surface energy balance closes at every step and sets the melt",
    "At every step the reported surface fluxes, the net shortwave radiation left at the surface and the surface temperature agree: below the melting point they sum to "
    "zero within the tolerance of the root finder; at the melting point the surplus is exactly the melt energy, and the melt is that energy divided by the latent heat "
    "of melting. The surface is never above melting, and outgoing longwave and rain heat follow from the surface temperature.",
    ["inputs", "histories", "configurations"], "every weather sequence, starting column, slope and choice of constants",
    "The tests call the flux solver for single states; whether the driver's reported numbers add up depends on every step of every run.",
    [("driver", CORE + ":cosipy_core"), ("surface temperature", SFC + ":update_surface_temperature"), ("balance", SFC + ":eb_fluxes")],
    ["LWin, LWout, H, LE, B, QRR, TS, ALBEDO, ME and surfM of a run"],
    "generated weather sequences, energy-budget invariant on whole runs (Hypothesis)",
    "Closure below melting is judged to what 0.02 K may leave; states at a jump of the stability function are not judged for closure.")

add("C02", "The surface temperature balances the surface energy and is at most melting",
    "For every state and weather the surface temperature returned is the one at which all surface fluxes and the absorbed shortwave radiation sum to zero, within the solver's "
    "tolerance; where that would be above melting it is the melting point, and where it would be below the lower bound it is the lower bound. It is stored in the top layer, and nothing else of "
    "the column changes.",
    ["inputs", "configurations"], "every column, weather, roughness, time step, stability correction and solver",
    "The tests solve a few states; whether an iteration converges depends on the start and on how the stability correction bends the balance.",
    [("solver", SFC + ":update_surface_temperature"), ("secant", "cosipy/modules/secant.py:secant"), ("balance", SFC + ":eb_optim")],
    ["returned surface temperature, fluxes, top layer temperature"],
    "generated states, residual sign change against a reference balance (Hypothesis)",
    "Known findings: the two minimising solvers, which the authors do not recommend, may get stuck.")

add("C03", "Surface fluxes follow the documented formulas and their physical signs",
    "Longwave radiation from input or cloud cover, sensible and latent heat with the bulk Richardson or the Monin-Obukhov stability correction, ground heat flux, rain heat flux, air density, humidity and "
    "transfer coefficients returned for a surface are those of the documented formulas at the returned surface temperature. Heat flows from warm to cold, vapour from moist to dry, no wind means no turbulent "
    "flux, and a slope scales turbulent fluxes by its cosine.",
    ["inputs", "configurations"], "every column, weather, roughness, measuring height, slope and stability correction",
    "The tests check a handful of values or only types.",
    [("fluxes", SFC + ":eb_fluxes"), ("ground heat", SFC + ":interp_subT"), ("stability", SFC + ":phi_m")],
    ["everything update_surface_temperature returns"],
    "generated states against a reference implementation (Hypothesis)", "")

add("C04", "The mass balance ledger adds up at every step",
    "At every step surface, internal and total mass balance are the sums of their reported parts; vapour exchange is the latent heat flux divided by the latent heat of the phase "
    "change and is sublimation or deposition below melting, evaporation or condensation at melting; refreezing reported for the column is the sum over layers; all components "
    "have their documented sign; and liquid water is neither created nor lost between melt, rain, condensation, storage, refreezing and runoff.",
    ["inputs", "histories", "configurations"], "every weather sequence, starting column, time step and slope",
    "No test runs the driver; a balance is a statement about every step of every run.",
    [("ledger", CORE + ":cosipy_core"), ("percolation", "cosipy/modules/percolation.py:percolation"), ("refreezing", "cosipy/modules/refreezing.py:refreezing")],
    ["mass balance components, runoff and layer profiles of a run"],
    "generated weather sequences, ledger invariants on whole runs (Hypothesis)",
    "The water inside a layer part that melts away counts as melted mass in the model, so the water ledger is closed up to that amount.")

add("C05", "Precipitation is split into snow and rain without gain or loss",
    "Every step's precipitation becomes snow and rain by the documented rule: snow and rain together never exceed what fell, what is above the thresholds is kept, the snow share "
    "falls from one to zero with rising air temperature, given snowfall is used instead where present and not overridden, the precipitation factor scales all of it, and snowfall "
    "resets the snow age.",
    ["inputs", "configurations"], "every sequence of temperature, wind and precipitation, the three kinds of precipitation input, both ways of the override",
    "No test covers the partition in the driver.",
    [("partition", CORE + ":cosipy_core"), ("snow on top", GRID + ":add_fresh_snow")], ["SNOWFALL, RAIN and snow age of a run"],
    "generated precipitation sequences against a reference partition, metamorphic in temperature (Hypothesis)", "")

add("C06", "Each step applies the processes in the documented order to one column",
    "A run of the point model equals the documented sequence - precipitation, remeshing, albedo, roughness, radiation, surface temperature and fluxes, melt, percolation, refreezing, "
    "conduction, densification - applied step by step to one column: every output series, every layer profile and the final restart state.",
    ["inputs", "histories", "configurations"], "every weather sequence, starting column and kind of forcing",
    "No test runs the driver at all.",
    [("driver", CORE + ":cosipy_core"), ("initial state", "cosipy/cpkernel/init.py:init_snowpack")], ["all outputs of a run"],
    "differential testing of the compiled driver against an independent composition (Hypothesis)",
    "The process functions themselves are judged by the other properties. Comparison ends where the last digit of the root finder's 0.01 K tolerance matters.")

add("C07", "Every reachable model state and every output is physical",
    "Whatever the weather, every output of a run is finite and within its physical bounds: surface and layers never above melting, albedo and roughness between their limits, "
    "non-negative water, porosity and cold content, positive layer heights, ice fraction at most one, snow height within total height, layer profiles of exactly the reported length.",
    ["inputs", "histories", "configurations"], "every weather sequence and starting state in the documented input ranges",
    "Long histories reach states that hand-made columns do not.",
    [("driver", CORE + ":cosipy_core"), ("column", GRID + ":Grid")], ["all outputs of a run"],
    "generated weather histories, state invariants (Hypothesis)", "Up to 200 steps.")

add("C08", "Runs are causal and repeatable and leave their inputs alone",
    "What a run reports for a time depends only on the start state and the weather up to that time. Repeating a run, also after other runs in the same process, gives "
    "the same numbers to the last bit. Forcing and start state handed in are not modified, except that negative shortwave radiation is set to zero.",
    ["inputs", "histories"], "every weather sequence, continuation and order of runs",
    "A single expected value cannot show that the future, or an earlier run, has no influence.",
    [("driver", CORE + ":cosipy_core"), ("compiled classes", GRID + ":Grid")], ["all outputs of a run"],
    "metamorphic testing: prefixes, exchanged continuations, repetition (Hypothesis)", "")

add("C09", "A restarted simulation continues as if it had never stopped",
    "Splitting a simulation at any times and continuing each part from the restart file of the previous one gives the output, on the time axis and in every variable, and the final "
    "restart file of the uninterrupted simulation.",
    ["inputs", "histories", "configurations"], "every weather sequence, domain, and set of restart times",
    "No test restarts; the state that must survive depends on the history before the cut.",
    [("restart state", CORE + ":cosipy_core"), ("restart files", IO + ":create_restart_file"), ("reading", "cosipy/cpkernel/init.py:load_snowpack"), ("main program", "COSIPY.py:main")],
    ["output and restart files of the main program"],
    "metamorphic testing of the whole program: cut runs against uncut run (Hypothesis)",
    "The cluster is replaced by a stand-in in this process. Known finding: Bougamont05 albedo.")

add("C10", "Editing the layer stack conserves mass and heat and touches nothing else",
    "Any history of edits of the layer stack (snowfall, removing, merging, splitting, resizing, updating and melting layers) leaves the stack exactly as a "
    "simple list of layers would be left. Merging, splitting and resizing keep the column's ice, liquid water, depth and heat unchanged. "
    "The number of layers reported always matches the layers that exist.",
    ["inputs", "histories"], "every column of snow and ice layers and every sequence of edits",
    "The tests apply single edits to one or two hand-made columns; conservation has to hold for every column and after every sequence.",
    [("merge", GRID + ":merge_nodes"), ("split", GRID + ":split_node"), ("resize", GRID + ":correct_layer"), ("remove", GRID + ":remove_node"),
     ("snow into ice", GRID + ":merge_snow_with_glacier")],
    ["layer profiles read through the public getters after every edit"],
    "model-based stateful property testing (Hypothesis) against a list-of-layers model",
    "Histories of up to 14 edits on columns of up to 7 layers.")

add("C11", "Remeshing conserves the column and yields the documented mesh",
    "Regridding the column keeps its total ice, liquid water, depth and heat, apart from layers thinner than the minimum layer height that may be dropped, and "
    "never creates temperatures or densities outside the range present before. The resulting mesh is the one the chosen method (logarithmic or adaptive) "
    "defines. The record of fresh snow is not affected.",
    ["inputs", "histories", "configurations"], "every column of dry or wet snow over ice, both mesh methods and mesh settings, also after snowfall and melt",
    "The tests remesh one column; merging and resizing decisions depend on every layer height, density and temperature.",
    [("logarithmic mesh", GRID + ":log_profile"), ("adaptive mesh", GRID + ":adaptive_profile"), ("dispatch", GRID + ":update_grid")],
    ["layer profiles before and after"],
    "generated columns, conservation invariants and a reference mesh builder (Hypothesis)",
    "Columns of up to 7 snow and 4 ice layers; comparisons too close to call for rounding are skipped for the reference mesh, never for conservation.")

add("C12", "Derived layer and column quantities follow from the layer state",
    "Density, porosity, cold content, heat capacity, conductivity, diffusivity, irreducible water, layer depths, snow and ice layer lists and total heights "
    "always follow from the layers' height, temperature, water and ice content by the documented formulas. Reading them changes nothing, and setting one "
    "quantity of one layer changes that quantity of that layer only.",
    ["inputs"], "every layer and column state, and every sequence of sets",
    "The tests check a few states, mostly with snow strictly above ice, and never the fraction thresholds.",
    [("layer quantities", NODE + ":Node"), ("column quantities", GRID + ":Grid")],
    ["every public getter of layers and columns"],
    "generated columns against reference formulas (Hypothesis)", "Ice fractions 0.05-1, up to 8 layers.")

add("C13", "Percolation conserves water and respects each layer's holding capacity",
    "Water poured on the surface is either held in the layers or leaves as runoff, to the last drop. Afterwards no layer but the lowest holds more than its irreducible "
    "water content, the lowest holds none, and nothing but the water content has changed.",
    ["inputs"], "every column and every amount of water",
    "The tests use one column and look at single layers; the balance must close for every column and amount.",
    [("percolation", "cosipy/modules/percolation.py:percolation")], ["runoff and layer profiles"],
    "generated columns, conservation invariant and bucket reference model (Hypothesis)", "Up to 10 layers.")

add("C14", "Refreezing conserves mass and is limited by cold content, pores and water",
    "Refreezing turns liquid water into ice layer by layer without gaining or losing mass, never beyond the layer's cold content, its pore space below close-off or "
    "the water present, and the latent heat released warms the layer but never above melting. The refrozen amount reported is the amount that became ice.",
    ["inputs"], "every column of cold or temperate, dry or wet layers",
    "The tests refreeze a few layers; which of three limits binds depends on the state.",
    [("refreezing", "cosipy/modules/refreezing.py:refreezing")], ["reported refreezing and layer profiles"],
    "generated columns, conservation invariants and reference model (Hypothesis)", "Up to 10 layers.")

add("C15", "Heat conduction conserves heat, obeys the maximum principle and is stable",
    "Conducting heat through the column for any time span keeps the top and bottom temperatures, keeps every layer between the extremes present before, leaves an "
    "isothermal or linear profile alone, and matches the documented explicit scheme. Nothing but temperatures changes.",
    ["inputs"], "every column, temperature profile and time span",
    "The tests use fixed profiles; stability depends on the thinnest layers and on the time step.",
    [("heat equation", "cosipy/modules/heatEquation.py:solveHeatEquation")], ["layer profiles"],
    "generated columns, maximum principle and reference integrator (Hypothesis)", "Layers of 2 mm to 1 m, spans of 60 s to 3 h.")

add("C16", "Penetrating radiation closes the energy budget of every layer",
    "The share of the net shortwave radiation that penetrates is absorbed with depth by the documented exponential law; each layer's absorbed energy either warms it up to melting "
    "or melts ice, and the subsurface melt reported is the ice that became water. Mass of the layers that do not melt away is kept.",
    ["inputs"], "every column and radiation input",
    "The tests check one column; warming and melting must balance in every layer of every column.",
    [("penetrating radiation", "cosipy/modules/penetratingRadiation.py:penetrating_radiation")], ["reported melt and absorbed flux, layer profiles"],
    "generated columns, energy-budget invariant and reference model (Hypothesis)", "The mass of a layer that melts away completely is not claimed.")

add("C17", "Densification compacts snow only, conserves mass and never exceeds ice",
    "Densification never thickens a layer or makes snow lighter, never touches ice, temperatures or thin layers, and follows the documented law of the chosen method. Where the method "
    "compacts by strain, dry layers keep their mass.",
    ["inputs", "configurations"], "every column, slope, time step and densification method",
    "The tests check that some density grows; the law depends on overburden, temperature and water of every layer.",
    [("densification", "cosipy/modules/densification.py:densification")], ["layer profiles"],
    "generated columns, invariants and reference model (Hypothesis)",
    "The Vionnet method, marked as erroneous by the authors, is checked for dry snow only. Known findings list the methods that do not keep mass.")

add("C18", "Surface albedo stays physical, ages with the snow and resets on snowfall",
    "The albedo is the ice albedo on ice and otherwise lies between ice and fresh snow, as given by the documented ageing and depth laws. Without snowfall it never rises "
    "from step to step, and snowfall resets the snow to fresh.",
    ["inputs", "histories", "configurations"], "every column, snow age, surface temperature, albedo method and time step",
    "The tests check a handful of ages; monotone ageing is a statement over histories.",
    [("albedo", "cosipy/modules/albedo.py:updateAlbedo")], ["returned albedo and snow albedo, record of fresh snow"],
    "generated states and ageing histories, reference model (Hypothesis)", "Methods Oerlemans98 and Bougamont05.")

add("C19", "Surface roughness grows with snow age between its documented limits",
    "The roughness length is the ice value on ice and otherwise grows linearly with the age of the snow from the fresh snow value up to the firn value, never beyond. "
    "Computing it changes nothing.",
    ["inputs", "configurations"], "every column, snow age and set of roughness constants",
    "The tests check one age.",
    [("roughness", "cosipy/modules/roughness.py:updateRoughness")], ["returned roughness length"],
    "generated states against the reference formula (Hypothesis)", "")

add("C21", "Melting removes exactly the melted mass from the top and releases its water",
    "Removing melt takes exactly the requested mass from the top of the column, melting layers one after the other and shortening at most one. The liquid water "
    "released is that of the layers that vanished, all other layers stay as they were, and the fresh snow record shrinks by the melted height.",
    ["inputs"], "every column and amount of melt, from none to almost the whole column",
    "The tests remove one amount from one column; layer boundaries and wet layers make the difference.",
    [("remove melt", GRID + ":remove_melt_weq")], ["returned water, layer profiles, fresh snow record"],
    "generated columns, conservation invariant and reference model (Hypothesis)", "Counts bulk mass (ice, water and air) as the model does.")

add("C20", "The age of the surface snow follows snowfall, time and melt through a run",
    "Throughout a run the recorded age of the surface snow is zero at snowfall, otherwise grows by the length of the step, and falls back to the age of the snow underneath once the fresh snow is gone; "
    "the height of the fresh snow is what fell, less what melted and sublimated since.",
    ["inputs", "histories"], "every weather sequence and starting state, different time steps and memory of the albedo",
    "The age is a function of the whole history; the tests set it by hand.",
    [("record", GRID + ":add_fresh_snow"), ("melt", GRID + ":remove_melt_weq"), ("fall back", "cosipy/modules/albedo.py:get_surface_properties")],
    ["new_snow_height, new_snow_timestamp, old_snow_timestamp, SNOWFALL, surfM of a run"],
    "generated weather histories against a three-number reference model (Hypothesis)", "")

add("C22", "The initial column is the documented profile; stored columns load unchanged",
    "Without a stored state the column is built from the snow height given or the constant one, with equal snow layers between the top and bottom densities over glacier ice, dry, with a linear temperature profile "
    "from the air (at most melting) to the bottom temperature, and no record of fresh snow; a missing snow height means none. A stored column is loaded layer by layer exactly as stored, with its snow ages, "
    "under the names of the restart file and of the coupled model alike, and the stored state is not modified.",
    ["inputs", "configurations"], "every snow height, air temperature and set of initial constants, every stored column",
    "No test covers the initialisation.",
    [("initial profile", "cosipy/cpkernel/init.py:init_snowpack"), ("stored state", "cosipy/cpkernel/init.py:load_snowpack")],
    ["layer profiles and fresh snow record of the new grid"],
    "generated starts against a reference profile, round trip of stored columns (Hypothesis)", "Glacier height a multiple of the layer height.")

add("C23", "The model is driven by exactly the configured period and tile, in time order",
    "The data handed to the model are the stored values of every variable at the stamps from start to end (after a restart: from one step past the restart date), in ascending time whatever the order "
    "in the file, cut to the configured tile. A period without data, a missing restart file or nothing left to continue is refused; a period reaching beyond the data is warned about, and only then; a variable is reported as out of range exactly "
    "when a value lies outside its bounds.",
    ["inputs", "configurations"], "every stored order of stamps, period, tile, time step, restart date, and both grid layouts",
    "The tests open one file over its whole period.",
    [("reading", IO + ":create_data_file"), ("selecting", IO + ":init_data_dataset")], ["the data set returned, refusals and warnings"],
    "generated files and settings against a reference selection (Hypothesis)", "Whole-minute stamps, each at most once.")

add("C24", "Each result lands in its own cell, variable, unit and file",
    "Whatever the order in which the cells finish, every requested output variable holds at each cell, time and layer the value the model returned for it, NaN outside the glacier, and nothing else "
    "is written; dimensions, coordinates, units, names, the settings recorded as attributes and the names of the output and restart files are right, and the restart file holds the last state of every cell.",
    ["inputs", "schedules", "configurations"], "every domain shape and mask, order of completion, choice of variables, period, time step, layout and compression",
    "The tests check that files are created; misplaced values need asymmetric domains, orders and selections to show.",
    [("collecting", "COSIPY.py:run_cosipy"), ("copying", IO + ":copy_local_to_global"), ("restart", IO + ":copy_local_restart_to_global"), ("attributes", IO + ":init_result_dataset")],
    ["output and restart files of the main program"],
    "generated runs of the main program with a point model whose results identify their place (Hypothesis)", "The point model is replaced by a stand-in; C25 uses the real one.")

add("C25", "A distributed simulation equals its cells simulated alone; gaps are refused",
    "Every glacier cell of a simulation, masked, tiled or windowed in any way and finishing in any order, has the results and final state of a simulation of that cell alone, and cells outside the glacier have none. "
    "A missing value of a forcing variable within the simulated cells and steps stops the simulation before files are written; one elsewhere changes nothing.",
    ["inputs", "schedules", "configurations"], "every domain, mask, tile, period, order of completion and place of a gap",
    "The tests run one point.",
    [("distribution", "COSIPY.py:run_cosipy"), ("gaps", "COSIPY.py:check_for_nan"), ("point model", CORE + ":cosipy_core")], ["output and restart files of the main program"],
    "metamorphic testing of the whole program: domain against single cells, injected gaps (Hypothesis)", "The cluster is replaced by a stand-in in this process.")

add("C26", "Stakes are compared with the simulation of their nearest glacier cell",
    "Every stake is compared with the grid cell nearest to it on the ellipsoid. The simulated series is the cumulated mass balance, or the snow height, of that cell at the times of the "
    "observations, and the error reported is the root mean square of the differences over the observations there are, none of them meaning no error. A stake whose cell lies outside the glacier is left out of the statistics.",
    ["inputs", "configurations"], "every domain, stake position, observation table with gaps and times between model steps, in both layouts",
    "The tests evaluate one table; the choice of cell depends on the geometry.",
    [("matching", "COSIPY.py:run_cosipy"), ("statistics", "cosipy/modules/evaluation.py:evaluate"), ("series", CORE + ":cosipy_core")], ["stake_simulations.csv and stake_statistics.csv, returned errors"],
    "generated stakes, tables and domains against a reference geometry and statistic (Hypothesis)", "Stakes with two equally near cells are not judged.")

add("C27", "Settings mean what the files and the command line say, in every module",
    "After loading, every setting of the configuration, the constants, the cluster and the tools has the value and kind given in the file named on the command line, however often and in "
    "whatever order files were loaded before; tables added for the coupled model or WRF only count when asked for.",
    ["inputs", "configurations", "histories"], "every set of values in the shipped tables, every combination of file options, repeated loading",
    "The tests load the shipped files.",
    [("configuration", "cosipy/config.py:Config"), ("cluster", "cosipy/config.py:SlurmConfig"), ("constants", "cosipy/constants.py:Constants"), ("tools", "cosipy/utilities/config_utils.py:UtilitiesConfig"),
     ("command line", "cosipy/config.py:get_user_arguments")], ["attributes of the settings classes"],
    "generated settings files and command lines, round trip (Hypothesis)", "")

add("C28", "A step coupled to an atmospheric model is the same physics as standalone",
    "A step called by the atmospheric model, with its own time step, measuring height and room for layers, returns the fluxes, melt, balance and profiles of the documented sequence of processes from the handed state, "
    "and a chain of such steps over the returned states equals one standalone run over the same weather.",
    ["inputs", "histories", "configurations"], "every weather sequence, state, time step and measuring height",
    "The tests do not run the coupled mode.",
    [("coupled driver", CORE + ":cosipy_core"), ("stored state", "cosipy/cpkernel/init.py:load_snowpack")], ["the returned values and profiles of every step"],
    "generated chains of coupled steps, differential against the composition of the processes and against a standalone run (Hypothesis)",
    "The atmospheric model is represented by the arguments it hands over.")

add("C29", "The sun stands where it should and slopes receive their corrected share",
    "The sun's elevation and azimuth follow from latitude, longitude, zone, day and hour, whatever the zone meridian chosen. The corrected radiation on a slope is the diffuse part plus the direct part scaled by the "
    "angle to the sun: unchanged on flat ground and at low sun, never below the diffuse part, zero at night.",
    ["inputs"], "every place, day, hour, slope, aspect, radiation and zenith limit",
    "No test covers the radiation correction.",
    [("position", "cosipy/modules/radCor.py:solarFParallel"), ("slope", "cosipy/modules/radCor.py:radCor2D"), ("diffuse part", "cosipy/modules/radCor.py:Fdif_Neustift"), ("both", "cosipy/modules/radCor.py:correctRadiation")],
    ["returned angles and radiation"],
    "generated places and times against an independent solar series and reference formula, metamorphic relations (Hypothesis)", "Sun compared to 1.2 degrees.")

add("C30", "Terrain shades a cell, narrows its sky and modelled radiation follows",
    "A glacier cell is shaded when the terrain in the sun's direction stands above the sun, and lit when nothing does; a higher sun or lower terrain never darkens. The sky view factor lies in (0, 1], is the open sky's on a plane, "
    "and falls when walls rise. The look-up tables hold shading for the sun position of their day and step, night as night, and the modelled radiation is the documented clear sky, "
    "cloud, shade and sky view composition.",
    ["inputs"], "every terrain of walls and roughness, mask, sun position, day, step and sky",
    "No test covers the modelled radiation.",
    [("shading", "cosipy/modules/radCor.py:relshad"), ("tables", "cosipy/modules/radCor.py:LUTshad"), ("sky view", "cosipy/modules/radCor.py:LUTsvf"), ("radiation", "cosipy/modules/radCor.py:calcRad"),
     ("solar parameters", "cosipy/modules/radCor.py:solpars")], ["shade, tables, sky view factors and radiation fields"],
    "generated terrain against geometric horizon bounds and reference formulas, metamorphic relations (Hypothesis)", "Glacier cells at least three cells from the edge of the terrain, within 50 degrees of the equator.")

AWS = "cosipy/utilities/aws2cosipy/aws2cosipy.py"
add("C31", "Station data spread over a grid follow the configured lapse rates and cuts",
    "The input made for a grid has, at every step of the configured period and cell of the configured box, the station's values shifted by the lapse rates times the height difference: temperature, humidity within bounds, "
    "precipitation never negative, barometric pressure, clouds, snow; radiation passed on, corrected for slope, or modelled, as configured, on glacier cells. Aggregation takes means and sums. Values out of bounds, gaps, "
    "or neither longwave nor clouds are refused.",
    ["inputs", "configurations"], "every station series, terrain, lapse rate, radiation module, aggregation, period, box and layout",
    "The tests check single helpers.",
    [("grid input", AWS + ":create_2D_input"), ("pressure", AWS + ":get_pressure_bias"), ("bounds", AWS + ":check_temperature_bounds"), ("gaps", AWS + ":check_for_nan")], ["the input file written"],
    "generated station and static files against a reference conversion (Hypothesis)", "Stamps in order at equal steps.")

add("C32", "Station data at a point keep their means and sums and follow the height",
    "The input made for a point holds hourly means, sums of precipitation and snow, of the station's values in the configured period, with gaps interpolated as documented, shifted to the height of the point by the lapse rates, with the place and "
    "terrain of the configured point or its cell in the static file. Values out of bounds, gaps that remain, or neither longwave nor clouds are refused.",
    ["inputs", "configurations"], "every station series, step, gap, point, period and layout",
    "The tests check single helpers.",
    [("point input", AWS + ":create_1D_input"), ("order", AWS + ":set_order_and_type"), ("bias", AWS + ":set_bias")], ["the input file written"],
    "generated station files against a reference conversion (Hypothesis)", "Stamps in order at equal steps up to an hour.")

add("C33", "Input made from WRF keeps its fields, precipitation and terrain",
    "The input made from WRF output holds, at its stamps in the configured period, its temperature, pressure, radiation, humidity from mixing ratio (at most 100), wind reduced to the configured height, "
    "and precipitation per step from the accumulated fields, whose sum is kept and which is never negative; slope and aspect are those of the terrain.",
    ["inputs", "configurations"], "every WRF file, period, wind height and terrain",
    "No test covers the conversion.",
    [("conversion", "cosipy/utilities/wrf2cosipy/wrf2cosipy.py:create_input"), ("humidity", "cosipy/utilities/wrf2cosipy/wrf2cosipy.py:wrf_rh")], ["the input file written"],
    "generated WRF files against a reference conversion (Hypothesis)", "Rows from south to north; terrain compared away from its border.")

add("C34", "The static file holds the terrain and glacier mask of the configured box",
    "The static file has, on the grid of the elevation model, cut and aggregated as configured, its elevation, slope and aspect, all with the same orientation, ascending latitudes, units, and a mask that is one exactly on the glacier. "
    "A gap in a field on the glacier is refused and one elsewhere is not; intermediate files are removed and no others.",
    ["inputs", "configurations"], "every elevation model, glacier shape, box, aggregation and gap",
    "No test covers the tool; its programs are not even installed.",
    [("static file", "cosipy/utilities/createStatic/create_static_file.py:main"), ("gaps", "cosipy/utilities/createStatic/create_static_file.py:check_for_nan")], ["the static file written, files left"],
    "generated elevation models through stand-ins of the GDAL programs and richdem against a reference (Hypothesis)", "The stand-ins do what GDAL documents; GDAL itself is not installed.")

add("C35", "The setup tool hands out the settings and never overwrites without consent",
    "Setting up puts unaltered samples of all four settings files into the chosen directory, made if needed. A file already there is replaced only after a yes (in any case and spacing) or with the option to overwrite, asks again after an unclear answer, and "
    "otherwise stays as it is; nothing else changes. The samples have every setting the shipped configuration has.",
    ["inputs", "configurations", "histories"], "every set of files there, directory, option and sequence of answers",
    "No test covers the tool; losing edited settings depends on the answers.",
    [("setup", "cosipy/utilities/setup_cosipy/setup_cosipy.py:main"), ("copy", "cosipy/utilities/setup_cosipy/setup_cosipy.py:copy_file_to_target"), ("answers", "cosipy/utilities/setup_cosipy/setup_cosipy.py:get_user_confirmation")],
    ["all files in the directory before and after, questions asked"],
    "generated directories, options and answers against a reference model (Hypothesis)", "")

PLOT = "cosipy/postprocessing/field_plots/plot_cosipy_fields.py"
add("C36", "Field plots show the requested variable, time or daily mean, in its place",
    "A field plot shows, for the requested variable or each of the overview, the values of the requested time step, or the mean of the requested day over the values there are, at their latitudes and longitudes under the right title. "
    "A whole day without asking for the mean, and results that are not two-dimensional, are refused. Saving makes one file named after date, variable and kind; data stay unchanged.",
    ["inputs", "configurations"], "every result file, time, day, variable, kind of plot and option",
    "The tests plot one file and look at the types of the objects.",
    [("selection", PLOT + ":get_selection"), ("drawing", PLOT + ":plot_axes"), ("program", PLOT + ":main")], ["selected arrays, drawn meshes and fields, titles, files"],
    "generated result files and command lines against the expected field (Hypothesis)", "Contours are compared by the field handed to the drawing.")

NOT_APPLICABLE = []
NOTES = ("Every check runs generated cases against /repo's current tree in processes of its own with generated configuration files; "
         "nothing is written below /repo. See DESIGN.md.")
