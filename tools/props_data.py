DST = "deterministic simulation with fault injection: "
COMMON = "Seeded search, not exhaustive. Trusts the simulator runtime (harness/rt/simrt.c), the compiler and std. "
prop("R01", "Results are complete, or the failure is reported",
 "When a simulation run reports success, its output holds the complete result table, byte for byte what an undisturbed run writes, however the sink splits, interrupts or buffers the writes. When the output cannot be written (full disk, I/O error, failing flush) the run reports an error instead of panicking or succeeding. After such a failure or a crash, what is left is a prefix of that table, and running again produces the complete table.",
 ["fault_sequences", "crash_points", "inputs"],
 "every building, control mode (none, people, script), timestep and every sequence of short writes, interruptions, zero writes, errors, full disks, failing flushes and crashes of the sink or output file",
 "The tests write small tables to healthy files or vectors; no test has a sink that accepts part of a write, fails, fills up, or a process that dies while writing.",
 ["src/run_simulation.rs", "bin/simple.rs"],
 [("write every byte, propagate errors, flush before returning", "src/run_simulation.rs run, run_rhai"), ("exit code 1 on error", "bin/simple.rs main")],
 state=[("output sink", "header line plus one line per timestep", "src/run_simulation.rs")],
 observe=["return value of run / run_rhai", "bytes accepted by the sink", "exit status, output file and standard output of the simple tool"],
 tech=DST + "scripted sinks, planned file faults, crash and rerun; byte comparison with the fault-free execution",
 note=COMMON + "The oracle for the content is the fault-free execution of the same code (R02 checks the content itself).")
prop("R02", "The result table is the simulated timeline, step by step",
 "The table has a date column and exactly the requested outputs that exist in the building, in the requested order (every recorded quantity when none is requested). It has one row for every timestep after the first weather record up to the end of the weather data, each labelled with its own date, whatever month, midnight or year boundary the period crosses. Every value is the state reached by advancing the building one timestep at a time from its initial state, under the weather interpolated at each instant.",
 ["inputs", "configurations", "histories"],
 "every building, output list, timesteps per hour, weather period (any start, record spacing, crossing midnights, months and new year) and command history",
 "The tests compare a few fixed buildings and whole-year weather files; periods that end at midnight or cross the new year, requested outputs that do not exist and sub-hourly steps are not sampled.",
 ["src/run_simulation.rs", "src/multiphysics_model.rs", "weather/src/lib.rs", "weather/src/current_weather.rs", "calendar/src/period.rs", "calendar/src/date.rs"],
 [("simulated period and reported columns", "src/run_simulation.rs pre_process"), ("weather at an instant", "weather/src/lib.rs find_weather_line"), ("sequence of dates", "calendar/src/period.rs Period::next")],
 state=[("simulation state", "one value per element of the header", "model/src/simulation_state.rs")],
 observe=["the written table"],
 tech=DST + "simulated time (weather histories, date boundaries), refinement against an independent reference loop",
 note=COMMON + "The physics step itself is shared with the reference; rows after the point where a 1e-13 perturbation of the weather changes the trajectory are compared by date only. A row within 0.1 h of the last record may be present or absent.")
prop("R03", "Control acts once per step, on fresh state, before the physics",
 "In every timestep the controller (built-in, custom or script) is called exactly once, sees exactly the state the previous step left (the initial state the first time), and its commands are what the physics of that same step uses and what that step's row reports. A command stays in force until it is changed. When the controller or script fails, the run stops with an error at that step, after reporting precisely the steps completed before it.",
 ["inputs", "histories", "fault_sequences"],
 "every building, sequence of commands to luminaires, heaters and windows, and every step at which the controller fails",
 "The tests use controllers that do nothing or follow one schedule and never compare what the controller saw with what was reported, nor fail mid-run.",
 ["src/run_simulation.rs", "src/control_trait.rs", "src/multiphysics_model.rs"],
 [("control, then march, then report, in each iteration", "src/run_simulation.rs run, run_rhai")],
 observe=["calls received by the controller", "the written table"],
 tech=DST + "injected controller failures and command histories, refinement against an independent reference loop",
 note=COMMON + "The physics step is shared with the reference loop.")

prop("R05", "Stored optical data is complete or absent, and never changes the results",
 "When a building names a file for its optical data, the first run computes and stores it and later runs read it, and every run gives the same results as a run without such a file. The file is always complete: whatever error, full disk, crash or power loss interrupts storing it, later runs succeed with the right results. Several simulations may share the file at the same time. A file that is cut short, damaged or made for a building with other surfaces or windows is reported as an error (or computed again), never used and never a panic; a run that cannot store the data either still gives the right results or reports an error.",
 ["fault_sequences", "crash_points", "interleavings", "histories"],
 "every building, every sequence of faults, crash point and loss of unsynchronised data while the file is written or read, every schedule of simulations sharing it, and every cut of the file",
 "The tests store and read the file once, undisturbed; none crashes while it is written, shares it, or finds a damaged one.",
 ["light/src/solar_model.rs", "light/src/optical_info.rs"],
 [("read or compute and store", "light/src/solar_model.rs SolarModel::new"), ("temporary file, synchronise, rename", "light/src/solar_model.rs store_optical_info")],
 state=[("optical data file", "JSON document named by optical_data_path", "light/src/solar_model.rs")],
 observe=["exit status, messages and result table of the simple tool", "content of the stored file"],
 tech=DST + "planned file faults, crashes with loss of unsynchronised data, reruns, seeded thread schedules; comparison with a reference loop that stores nothing",
 note=COMMON + "Assumes atomic, ordered renames. Data of a different building with the same number of surfaces and windows cannot be told apart.")
prop("R07", "Parallel results do not depend on the schedule",
 "Daylight coefficients, rendered images, matrix products, optical data and whole simulations give, with any number of worker threads and under any schedule, exactly the result of a single worker for the same random numbers. Each row, pixel or surface holds its own result: a sensor in the open receives exactly pi from a uniform sky, each patch of which it sees where that patch lies, and sky contributions are never negative; a pixel shows the nearest emitter on its viewing ray; a matrix product is the mathematical one; the shares of sky, ground and air seen by a surface add up to one.",
 ["interleavings", "inputs", "configurations"],
 "every schedule and number of workers, scene, set of sensors, camera, matrix size, building and seed of the random numbers",
 "The tests run whatever schedule the operating system gives on small inputs, mostly with one worker, and cannot control the random numbers.",
 ["rendering/src/daylight_coefficients.rs", "rendering/src/ray_tracer.rs", "matrix/src/generic_matrix.rs", "light/src/optical_info.rs", "light/src/solar_surface.rs"],
 [("work distribution over rows, pixels and surfaces", "rendering/src/daylight_coefficients.rs calc_dc, rendering/src/ray_tracer.rs render, light/src/optical_info.rs")],
 observe=["returned matrices and images", "result tables"],
 tech=DST + "seeded thread schedules (preemption at basic blocks), fixed entropy, comparison with one worker and with independent oracles",
 note=COMMON + "Sequentially consistent memory. Random numbers are made equal, so the statistical quality of the samples is not judged.")
prop("R08", "The tools finish and keep their output clean under any schedule",
 "The tools simple, spict and sfluxmtx end with exit status 0 on valid inputs in bounded time under any schedule, number of workers, slow thread or clock jump: no deadlock and no endless loop. Standard output carries only the results requested there (nothing when they go to a file), never progress text, and the results are byte for byte those of a run with one worker.",
 ["interleavings", "fault_sequences", "configurations"],
 "every schedule, number of workers, stall and clock jump, and every valid building, scene and option set",
 "The tests call the library, not the tools, under one schedule, and cannot see progress text mixed with results or a deadlock that needs a particular interleaving.",
 ["bin/simple.rs", "bin/spict.rs", "bin/sfluxmtx.rs", "utils/src/progress_bar.rs", "rendering/src/ray_tracer.rs"],
 [("progress goes to the standard error", "utils/src/progress_bar.rs"), ("bounded sampling loops", "rendering/src/ray_tracer.rs")],
 observe=["exit status, standard output, result files", "number of scheduler steps, threads waiting for each other"],
 tech=DST + "seeded thread schedules, stalls, clock jumps and spurious wake-ups; progress within a bounded number of steps; comparison with the one-worker run",
 note=COMMON + "No progress means 50 times the steps of the undisturbed run, or every thread waiting.")
prop("R11", "Stored images and matrices are what was computed, or the failure is reported",
 "An image, matrix or false-colour picture that the library or a tool (spict, sfluxmtx, scompare, sfalsecolor) reports as saved is complete and holds what was computed: images within 1/128 of the largest component of each pixel and never brighter, matrices exactly, colour matrices to five decimals, all with their size, and the comparison of two images holds their absolute difference. Short, interrupted or buffered writes and reads change nothing; an error, full disk or unreadable input is reported by an error or exit status 1, without a panic. A file that misses pixels or values, or has more of them than its size says, is rejected when it is read, never taken for another one, and saving again after a fault or crash replaces what was left.",
 ["fault_sequences", "crash_points", "inputs"],
 "every image and matrix size and content, every sequence of file faults, crash point and cut of a file",
 "The tests save and read healthy files; no test fills the disk, interrupts a write, or reads a truncated file.",
 ["rendering/src/image.rs", "rendering/src/colour_matrix.rs", "bin/scompare.rs", "bin/sfalsecolor.rs", "bin/spict.rs", "bin/sfluxmtx.rs"],
 [("pixel encoding and size check", "rendering/src/image.rs save_hdre, from_file"), ("matrix text format", "rendering/src/colour_matrix.rs"), ("JPEG output", "rendering/src/image.rs save_jpeg")],
 observe=["return values and exit status", "file content", "what reading the file back gives"],
 tech=DST + "planned file faults, crashes, cuts; round trip against the generated content and the undisturbed file",
 note=COMMON + "A matrix file cut inside or after its last value may be accepted.")

prop("R06", "A building saved and loaded again is the same building",
 "Whatever sequence of translations between the .json and .spl formats a building goes through, every object, field, reference and order the original states is still there, and simulating the copy gives the results of simulating the original (to rounding). When writing the translation fails (error, full disk) that is reported with exit status 1 and a message; short or interrupted writes change nothing; after a crash, or over an older and longer file, translating again gives the complete file.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "every building, every sequence of translations, and every fault or crash while the file is written",
 "The tests translate a few fixed models once, undisturbed, and do not simulate the copy or compare it field by field.",
 ["bin/simple.rs", "model/src/model.rs", "derive/src", "geometry/src/polygon3d.rs"],
 [("read and write of every object", "derive/src/object_struct.rs, model/src/model.rs"), ("polygons with holes", "geometry/src/polygon3d.rs")],
 state=[("model file", ".json or .spl document", "model/src/model.rs")],
 observe=["exit status and messages of the simple tool", "the translated file", "result tables of both buildings"],
 tech=DST + "histories of translations with planned file faults, crashes and reruns; field-by-field comparison with the generated building and comparison of the simulations",
 note=COMMON + "The name of a model is not part of the .spl format. Where a change of 1e-14 of the coordinates of the original already changes its results, results are not compared.")
prop("R13", "Inputs that cannot be read completely are reported, never replaced by something else",
 "A run of simple, spict or sfluxmtx whose model, weather, script or scene file is missing, cannot be opened or read, or is cut short, zeroed in part, not text, or followed by the remains of an older file ends with an error (exit status 1 and a message) and no result rows, in bounded time. Short or interrupted reads change nothing. Only where what is left is itself a complete file (it ends between complete blocks, weather records or objects) does the run succeed, with precisely the results of that file.",
 ["fault_sequences", "inputs"],
 "every input file, every read fault, and every position where the file is cut or damaged",
 "The tests read healthy files and a few missing ones; no test cuts a file, and none has a read that fails or is split.",
 ["bin/simple.rs", "model/src/model.rs", "weather/src/epw/weather.rs", "weather/src/lib.rs", "rendering/src/from_radiance.rs", "src/rhai_script_controller.rs"],
 [("model parsing", "model/src/model.rs, model/src/scanner.rs"), ("EPW parsing", "weather/src/epw/weather.rs"), ("errors to exit status", "bin/simple.rs main")],
 observe=["exit status, messages, output file", "number of scheduler steps"],
 tech=DST + "planned read faults and damaged files; comparison with the undisturbed run or with the run on the complete part",
 note=COMMON + "A malformed scene may end the rendering tools with status 101 and a message.")

prop("R14", "Every step is the heat balance of the building",
 "In every timestep, whatever the history, command, sudden change of state or jump of the weather, each room's air follows the exact solution of its heat balance: every heater and luminaire aimed at it, infiltration of outdoor air with the flow of its rule, and convection at every wall and window side that faces it. Each wall and window follows the heat balance of its layers, whichever of its sides is called front. Each side receives the sun, and exchanges the infrared radiation, due to it (sunlight is never negative, and zero at night). Nothing is counted twice, left out or given to the wrong room, and each step starts from the state the previous one left.",
 ["histories", "inputs", "fault_sequences"],
 "every building, weather (including implausible jumps), history of commands and state from which a step is taken",
 "The tests compare a few buildings with simplified solutions within some tenths of a degree, from smooth states under smooth weather; none combines several rooms, shared walls, flipped sides, devices and jumps, and none compares a step exactly.",
 ["heat/src/heat_model.rs", "heat/src/surface.rs", "heat/src/zone.rs", "heat/src/discretization.rs", "heat/src/convection.rs", "heat/src/glazing.rs", "air/src/air_model.rs", "light/src/solar_model.rs", "src/multiphysics_model.rs"],
 [("rooms", "heat/src/heat_model.rs ThermalModel::march"), ("walls and windows", "heat/src/surface.rs march, calc_border_conditions"), ("infiltration", "air/src/air_model.rs"), ("sun and infrared", "light/src/solar_model.rs")],
 observe=["every element of the simulation state after every step"],
 tech=DST + "refinement, step by step, of the coupled model against a reference heat balance written from its documented equations, along histories with state kicks and weather sensor faults",
 note=COMMON + "Quantities that change by more than 1e-8 when the state before changes by 1e-12 are not compared.")

prop("R04", "Control scripts read and write the building's state faithfully",
 "A control script sees, for every space, surface, window, luminaire and heater, addressed by name or by index, the value the simulation state holds at that instant, and a value it sets is the value the state and the physics of that step then hold, for that object and no other, in every control mode and model format. A name that is unknown, an index out of range or negative, a value of the wrong type, a property the object does not have, a thrown error or a script that does not compile ends the run with an error, never a panic and never silently ignored, after precisely the rows of the steps completed before.",
 ["inputs", "histories", "fault_sequences"],
 "every building, weather and script that reads and sets properties, and every step at which the script fails",
 "The tests run a few fixed scripts on one building and never check which object a value came from or went to, nor a script that fails mid-run.",
 ["src/rhai_script_controller.rs", "derive/src", "src/run_simulation.rs", "model/src/simulation_state.rs"],
 [("script call in each step", "src/run_simulation.rs run_rhai, src/rhai_script_controller.rs"), ("derived getters, setters and lookups", "derive/src/object_struct.rs, derive/src/field.rs")],
 state=[("simulation state", "one value per element of the header", "model/src/simulation_state.rs")],
 observe=["the written table", "return value, exit status and messages"],
 tech=DST + "seeded control histories with injected script failures, refinement against a native interpreter of the same program",
 note=COMMON + "The physics step is shared with the reference loop. Scripts are generated from a small language (reads, arithmetic, conditions, assignments).")
prop("R09", "The simulation state is all there is: a run can be stopped, restarted and branched",
 "Whatever happened before depends only on the simulation state and the date: advancing with newly allocated working memory, after a detour with a copy of the state, or in a new process that resumes from a stored copy of the state after a crash at any point gives bit by bit the same history as the uninterrupted run.",
 ["histories", "crash_points", "inputs"],
 "every building, weather and command history, every step at which memory is renewed, the state is branched, or the process crashes and resumes",
 "The tests run one simulation from start to end in one process.",
 ["src/multiphysics_model.rs", "heat/src/heat_model.rs", "light/src/solar_model.rs", "air/src/air_model.rs", "model/src/simulation_state.rs"],
 [("all state in SimulationState; memory is scratch", "communication/src/lib.rs SimulationModel, heat/src/heat_model.rs")],
 state=[("simulation state", "vector of values", "model/src/simulation_state.rs")],
 observe=["the state vector after every step"],
 tech=DST + "simulated crashes with loss of unsynchronised data, resume from checkpoint, branched histories; bitwise comparison with the uninterrupted run",
 note=COMMON + "The checkpoint file and stepping loop belong to the harness; the models and the step are real.")
prop("R10", "Independent simulations do not influence each other",
 "Simulations of different or equal buildings, weather, timesteps and controls, sharing one process and its worker threads, concurrently under any schedule or one after the other, and even when some of them fail, each give byte for byte the result (or the error) they give alone.",
 ["interleavings", "histories", "inputs"],
 "every set of simulations, schedule and order",
 "The tests run in parallel by accident of the test runner, and never compare a shared run with a run alone.",
 ["src/run_simulation.rs", "src/multiphysics_model.rs", "src/rhai_script_controller.rs", "model/src/model.rs"],
 [("no state shared between simulations", "src/run_simulation.rs run, run_rhai")],
 observe=["result tables, return values"],
 tech=DST + "seeded thread schedules of several simulations in one process; comparison with each one alone",
 note=COMMON + "Sequentially consistent memory.")
prop("R12", "Thermostats act exactly by their setpoints",
 "With the occupants' control, in every step a heater delivers its full power when its space was colder than the heating setpoint at the end of the previous step and nothing otherwise; an ideal heater-cooler heats below the heating setpoint, cools above the cooling setpoint and is off between them; each device looks at its own space; a device without space, setpoint or power keeps its output; and nothing but these outputs is touched by the control. The reported outputs are these.",
 ["histories", "inputs"],
 "every building, number and kind of devices, weather and history of temperatures and disturbances",
 "The tests run the occupants' control on one building with one heater for fixed temperatures and never over a history.",
 ["src/occupant_behaviour.rs", "src/multiphysics_model.rs", "src/run_simulation.rs"],
 [("thermostat rule", "src/occupant_behaviour.rs control")],
 observe=["state before and after every call of the controller", "the written table"],
 tech=DST + "simulated weather and command histories with disturbances; invariant checked at every step against the thermostat rule",
 note=COMMON + "The physics is real but not judged here.")

NA = [
 dict(id="N01", title="Numbers: matrices, polynomials and solvers", statement="Matrix sums, products and inversion-free solvers, and polynomial arithmetic, satisfy the algebraic laws to rounding for every well-conditioned operand.",
  qtext="every operand", why="The tests use a few small operands.", files=["matrix/src/generic_matrix.rs", "polynomial/src/lib.rs"], mech=[("algebra", "matrix/src/generic_matrix.rs")],
  reason="Pure functions of their arguments: no schedule, clock, I/O, fault or history for a simulation to vary (the parallel product is in R07)."),
 dict(id="N02", title="Solar position and sky models", statement="The position of the sun, and the Perez and Reinhart sky models, agree with their published equations for every date, place and radiation.",
  qtext="every date, latitude, longitude and radiation", why="The tests compare a few published values.", files=["weather/src/solar/mod.rs", "weather/src/solar/perez.rs"], mech=[("sun position", "weather/src/solar/mod.rs")],
  reason="Pure functions; what a simulation uses of them (sun position, sky of a step, patches seen) is compared with an independent reference in R14, R02 and R07, but the rest (illuminance, DISC, cloud models) has nothing to schedule or to fail."),
 dict(id="N03", title="Optical properties of glazing", statement="Angular transmittance and absorptance of multi-layer glazing conserve energy for every combination of layers.",
  qtext="every stack of layers and angle", why="The tests check one or two stacks.", files=["heat/src/glazing.rs"], mech=[("glazing combination", "heat/src/glazing.rs")],
  reason="A pure function evaluated once per construction; no concurrency, time, I/O or history is involved."),
 dict(id="N04", title="Schedules and calendar arithmetic", statement="Schedules return the value defined for a date, and date arithmetic is consistent with the calendar.",
  qtext="every date and schedule", why="The tests use a few dates.", files=["schedule/src/schedule_trait.rs", "calendar/src/date.rs"], mech=[("schedule lookup", "schedule/src/lib.rs")],
  reason="Pure functions; where the calendar matters to a run (period boundaries, step dates) it is decided in R02."),
 dict(id="N05", title="Geometric predicates", statement="Ray intersection, point-in-polygon and area computations of the primitives are right for every non-degenerate shape.",
  qtext="every shape and ray", why="The tests use hand-made shapes.", files=["geometry/src/ray3d.rs", "geometry/src/triangulation3d.rs"], mech=[("intersections", "geometry/src/intersection.rs")],
  reason="Pure functions; what a user sees of them (nearest emitter, triangulated walls, shares of sky) is in R07, R08 and R14."),
]
