#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

FSA = "src/cosim/algorithm/fixed_step_algorithm.cpp"
EXE = "src/cosim/execution.cpp"
SIM = "src/cosim/slave_simulator.cpp"

prop("C01", "Sub-simulators are driven through a contiguous, non-overlapping lifecycle",
 "Every sub-simulator in a co-simulation is set up exactly once with the simulation start time, exchanges values only after that, is started exactly once, and from then on is asked to advance through consecutive time steps that start at the start time, leave no gaps or overlaps, and each last its own whole multiple of the base step (the requested step size rounded down to a multiple, at least one). "
 "No two calls are ever in progress on the same sub-simulator, and each step's inputs are delivered before the step while outputs are read only after it has returned.",
 ["schedules","configurations","histories"],
 "all numbers of sub-simulators, step-size hints, base steps, start times, worker-thread counts, thread schedules and numbers of steps",
 "Tests run a handful of fixed systems with equal or 2-3 step sizes and look at final values; they never observe the call sequence per sub-simulator under varying thread schedules.",
 [FSA, SIM, EXE, "src/cosim/utility/thread_pool.hpp"],
 [("phase barrier: wait for all submitted tasks", FSA+": initialize, do_step"),
  ("per-simulator decimation factor", FSA+": calculate_decimation_factor"),
  ("slave state machine preconditions", SIM+": setup/start_simulation/do_step")],
 [("decimation factor", "base steps per simulator step", FSA), ("step counter", "base steps done", FSA)],
 ["cosim::slave interface calls (timestamps, thread, arguments)"])

prop("C02", "Connected variables receive exactly the source's synchronised value",
 "At every communication point where a connected source and target are both at the end of one of their own time steps, the target's input becomes exactly the source output's current value for use in the target's next step, for real, integer, boolean and string variables, directly or through functions evaluated on their current inputs; at other points, and for unconnected variables, inputs keep their last set value and are not overwritten (a function counts as being at the end of a step when all the sub-simulators it feeds are). "
 "Values also propagate through chains of connections during initialisation, before the first step.",
 ["configurations","inputs","histories"],
 "all connection graphs (fan-out, chains, loops, through functions), variable types, values, and step-size combinations",
 "Tests check a few fixed graphs with constant or monotone values; wrong timing or routing for particular step-size ratios, types or fan-out shapes is invisible to them.",
 [FSA, SIM],
 [("decimated transfer (least common multiple of the two factors)", FSA+": transfer_variables, calculate_and_transfer"),
  ("function decimation factor", FSA+": update_function_decimation_factor"),
  ("set/get value caches", SIM+": set_variable_cache, get_variable_cache")],
 [("pending input values", "values to be sent at next step", SIM)],
 ["values received in slave set_variables", "function inputs at calculate()"])

prop("C03", "Results do not depend on worker threads or scheduling",
 "For a given system and inputs, every value delivered to or read from every sub-simulator at every step, every step result and every observer notification is identical regardless of the number of worker threads (including none) and of the order in which concurrently running sub-simulators happen to finish. "
 "Running with several worker threads involves no data race.",
 ["schedules","configurations"],
 "all thread counts and interleavings of the worker threads for generated co-simulation systems",
 "Existing tests run one schedule with the default thread count and never compare executions or look for races.",
 [FSA, "src/cosim/utility/thread_pool.hpp", SIM],
 [("task queue, pending counter and condition variables", "src/cosim/utility/thread_pool.hpp"),
  ("transfer only after the barrier", FSA+": do_step")],
 [], ["slave call traces for 0..N workers under injected delays", "ThreadSanitizer reports"])

prop("C04", "Observers see every event once, in order, with consistent numbers and times",
 "Every observer is told of every sub-simulator (whether added before or after the observer) before the simulation is initialised, is notified of initialisation exactly once before any step, and then for each step receives a notification for exactly those sub-simulators that just finished a step of their own, followed by one step-complete notification. "
 "Step numbers increase by one per step from zero, reported step size and time always agree with the execution's current time, and the values readable in a notification, of variables selected before the sub-simulator's last step began, are those the sub-simulator has at that time.",
 ["configurations","histories"],
 "all systems, numbers of observers, points at which observers and sub-simulators are added before the run (observers also during the run), and numbers of steps",
 "Tests look at final recorded values of the built-in observers; no test checks the notification stream itself, the finished set for mixed step sizes, or late-added observers.",
 [EXE, FSA, "include/cosim/observer/observer.hpp"],
 [("notification loop", EXE+": step, add_observer, add_slave"), ("finished set", FSA+": do_step")],
 [("lastStep_/currentTime_", "step number and simulation time", EXE)],
 ["cosim::observer callbacks"])

prop("C05", "Simulate-until stops at the right step; stop requests and status are honoured",
 "Simulating until a time point advances the simulation by whole steps until the first communication point that has reached that time (to within a hundredth of a step), and reports success; simulating without an end time continues until stopped. "
 "A stop request made while a simulation call is in progress, including an asynchronous one from the moment it has been requested, makes that call return with at most one more step begun and report that it was stopped, the simulation can be resumed from there, and the running status is true exactly while such a call is in progress and has not been asked to stop, also when it ends with an error.",
 ["schedules","inputs","histories","fault_sequences"],
 "all end times and step sizes, all points at which another thread requests a stop, and sequences of simulate, stop, step and resume calls, with or without failing sub-simulators",
 "Tests stop a run at one coarse wall-clock moment; they do not control where the stop lands or check the status after errors.",
 [EXE],
 [("stop flag", EXE+": simulate_until, stop_simulation, is_running"), ("timed_out tolerance", EXE+": timed_out")],
 [("stopped_", "whether a simulation call is in progress/should stop", EXE)],
 ["simulate_until result, current_time, is_running, slave step trace"])

prop("C06", "A failing sub-simulator stops the simulation with an error naming it",
 "If a sub-simulator throws from any of its operations, or reports that a time step was not completed, in any phase of the simulation and with any number of worker threads, the call that was advancing the simulation ends with an exception to the caller; it never crashes, hangs or reports success. "
 "For failures during time stepping the exception carries the simulation-error code and its message names each failing sub-simulator with its cause; the other sub-simulators' calls in that round have all completed before the exception reaches the caller, no value is transferred afterwards, simulation time does not advance and no completion notification is made.",
 ["fault_sequences","schedules","configurations"],
 "every operation of every sub-simulator as the failure point, singly and several at once, in each phase, for all worker-thread counts",
 "No existing test makes a slave fail in setup, initial exchange or start; only a single happy-path system is stepped.",
 [FSA, EXE, SIM, "src/cosim/utility/thread_pool.hpp"],
 [("exception capture in worker tasks", FSA+": do_step, initialize"), ("state guard", SIM+": state_guard")],
 [], ["exception at execution::step/simulate_until, slave call trace, observer callbacks, process exit"])

prop("C07", "Invalid connections are rejected and leave the system unchanged",
 "A connection is accepted only if it goes from an existing output (or calculated parameter) to an existing input of the same data type, and the input does not already have a connection from any other output, be it of a sub-simulator or a function; anything else is reported as an exception at the time of the call. "
 "A rejected connection has no effect on the rest of the simulation.",
 ["inputs","configurations","histories"],
 "all combinations of source and target (sub-simulator and function variables, indices in and out of range, causalities, types) in any order of attempts",
 "Tests make one or two invalid attempts; the space of mismatched types, function ports and mixed source kinds is not covered.",
 [EXE, FSA],
 [("validate_variable and the connection maps", EXE+": connect_variables_impl, validate_variable")],
 [("ssConnections_/sfConnections_/fsConnections_", "accepted connections by target", EXE)],
 ["execution::connect_variables results; subsequent data flow"])

prop("C08", "Initial values reach the sub-simulator before it starts",
 "An initial value set on a variable before the first step is delivered to its sub-simulator during initialisation, after setup and before the sub-simulator is started, with the last value set winning; inputs for which nothing was set are not written. "
 "Attempts after initialisation, or for variables that do not exist, are rejected with an exception and have no effect.",
 ["inputs","configurations","histories"],
 "all variable types, values, orders of setting, combinations with connections and overrides, and points in the simulation's life",
 "Tests set a couple of parameters once on fixed systems.",
 [EXE, SIM],
 [("set_*_initial_value", EXE), ("set cache", SIM+": set_variable_cache")],
 [], ["slave set_variables trace before start_simulation"])

prop("C09", "Overrides take effect from the next step and are fully undone by reset",
 "From the sub-simulator's next step after an override of an input or output is requested until it is reset, every value the sub-simulator receives for that input (or that the rest of the system and observers see for that output) is the overriding value, with requests from any thread applied in the order they were made; after a reset the variable's genuine value is used again from the following step, including the last value set on the input while it was overridden. "
 "The reported set of modified variables is exactly the set of variables under an override, and other variables are unaffected.",
 ["histories","inputs","schedules"],
 "all sequences of override and reset requests over variables of all types and causalities, interleaved with steps and connections, from one or more threads",
 "Tests override one or two variables once each and reset them; no interleavings with value transfers, several overrides per step or concurrent requests.",
 ["src/cosim/manipulator/override_manipulator.cpp", SIM, EXE],
 [("action queue under a lock", "src/cosim/manipulator/override_manipulator.cpp"), ("input/output modifiers", SIM)],
 [("modified reference sets", "variables with an active modifier", SIM)],
 ["slave set_variables trace, observed outputs, get_modified_variables"])

prop("C10", "Scenario events fire once, on time, in time order, and are cleaned up at the end",
 "Each event of a loaded scenario takes effect exactly once, at the first step that starts at or after the event's time relative to when the scenario was loaded, and events affecting the same variable take effect in order of their times even when they fall in the same step. "
 "A scenario finishes at the first step that starts no earlier than its end time (if it has one) and later than the step at which its last event fired, or earlier when it is aborted or replaced by another; then all modifications it made are removed so that the variables' genuine values are used again, no further event fires, and the running status reports it as finished.",
 ["inputs","histories","configurations"],
 "all scenarios (event times, variables of all types and causalities, modifiers, with or without end), load times and step sizes, aborts and reloads at any step",
 "Tests run three fixed scenarios whose events are well separated in time.",
 ["src/cosim/manipulator/scenario_manager.cpp"],
 [("event execution and cleanup", "src/cosim/manipulator/scenario_manager.cpp: step, execute_event, cleanup")],
 [("remainingEvents/executedEvents", "events to fire / fired", "src/cosim/manipulator/scenario_manager.cpp")],
 ["slave set_variables trace, observed outputs, is_scenario_running, get_modified_variables"])

prop("C11", "Scenario files load as exactly the scenario they describe, or are rejected",
 "Loading a scenario file in either supported format yields exactly the events (time, variable, kind of action, value, in- or output) and end time that the file describes, with defaults applied where specified; equivalent files in the two formats yield the same scenario. "
 "Files that refer to unknown models or variables, or that are malformed, are rejected with an exception and never crash or silently drop events.",
 ["inputs"],
 "all well-formed scenario files over the supported keys, types and actions, and malformed variations of them",
 "One example file per format is loaded, and only the resulting number of events is checked.",
 ["src/cosim/scenario_parser.cpp"],
 [("parse_scenario", "src/cosim/scenario_parser.cpp")],
 [], ["cosim::parse_scenario result, applied to probe values"])

prop("C12", "The last-value observer always shows a consistent snapshot of the last step",
 "A variable that is being observed reads as the value it had at the end of the sub-simulator's most recently completed step (or initialisation), for all four data types and any selection and order of variables. "
 "Reads from other threads while the simulation runs never see a mixture of values from different steps of the same sub-simulator within one call, and never race with the simulation.",
 ["schedules","inputs","histories"],
 "all selections of variables, step-size combinations, moments of reading and thread interleavings of readers and simulation",
 "Tests read single variables between steps from one thread.",
 ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp"],
 [("observe under lock", "src/cosim/observer/slave_value_provider.cpp: observe, get_*")],
 [], ["last_value_observer::get_* from driver and reader threads"])

prop("C13", "Time series hold the most recent samples, complete and in order",
 "For an observed variable the recorded series is exactly its values at the consecutive completed steps of its sub-simulator since observation started, each with the right step number and time, limited to the configured number of most recent samples; queries from a given step return, in order, the samples whose step numbers lie within as many steps from there as room is given, and report how many were returned. "
 "Step-number queries for a time interval return the tightest recorded steps that enclose it as far as the record reaches, and synchronised series pair up values of two sub-simulators at equal steps only.",
 ["histories","inputs","schedules"],
 "all buffer sizes, run lengths, starting steps, output capacities, intervals, step-size combinations and start/stop of observation at any step",
 "Tests check one or two buffer sizes and aligned queries; wrap-around combined with fromStep, capacity and decimation is not enumerated.",
 ["src/cosim/observer/time_series_observer.cpp"],
 [("bounded buffers per variable", "src/cosim/observer/time_series_observer.cpp")],
 [], ["time_series_observer queries against an independent record of slave outputs"])

prop("C14", "CSV logs contain every recorded step exactly once with the observed values",
 "For each logged sub-simulator the log contains a header naming the time, step count and each selected variable in order (grouped by type), followed by exactly one row for the initial state (or the state at which the observer was added) and for each later completed step of the sub-simulator, if the decimation factor divides its step number, in order, whose time, step number and values are those at that step (reals as far as the number of digits written tells), for all four data types. "
 "Sub-simulators or variables not selected are not logged, and configurations naming unknown variables or an invalid decimation factor are rejected with an exception.",
 ["inputs","configurations","histories"],
 "all selections of sub-simulators and variables, decimation factors, step-size combinations, precisions, times of adding the observer, run lengths and values",
 "Tests only count the generated files.",
 ["src/cosim/observer/file_observer.cpp", "include/cosim/observer/file_observer.hpp"],
 [("slave_value_writer buffering and flushing", "src/cosim/observer/file_observer.cpp: observe, persist, write_header"),
  ("config parsing", "src/cosim/observer/file_observer.cpp: file_observer_config::parse, parse_config")],
 [], ["parsed CSV and metadata files against an independent record of slave outputs"])

prop("C15", "Recording can be toggled any time from any thread without losing or mixing rows",
 "Each interval between starting and stopping recording, toggled at any time and from any thread, is logged with exactly the rows of the steps completed within that interval, once each and in order, and nothing outside it; after stopping, everything recorded so far is in the file. "
 "Starting while recording or stopping while not recording raises an exception and changes nothing, and the reported recording status is accurate.",
 ["schedules","histories"],
 "all sequences of start and stop requests relative to steps, from the simulation thread or others, with several concurrent togglers",
 "One test toggles twice around a running simulation and counts files.",
 ["src/cosim/observer/file_observer.cpp"],
 [("recording flag and per-writer mutex", "src/cosim/observer/file_observer.cpp: start_recording, stop_recording")],
 [("recording_", "whether recording is on", "include/cosim/observer/file_observer.hpp")],
 ["parsed CSV files per interval; exceptions; is_recording"])

prop("C16", "URIs parse into and compose from exactly their components",
 "Parsing a string as a URI reference gives the scheme, authority, path, query and fragment that the generic syntax of RFC 3986 delimits (its appendix B), each exactly the corresponding substring and present or absent as written, so that composing them again gives the same string; a string that starts with a colon, or whose part before the first delimiter is followed by a colon but doesn't start with a letter, is rejected. "
 "Composing a URI from components that the grammar allows together gives a URI with exactly those components, a component with a character that would end it, an ill-formed scheme, or an authority followed by a relative path is rejected, and copies, assignments, moves and comparisons preserve all this.",
 ["inputs"],
 "all strings and component combinations over the URI alphabet and beyond",
 "Tests parse a dozen example strings.",
 ["src/cosim/uri.cpp", "include/cosim/uri.hpp"],
 [("component parser and character classes", "src/cosim/uri.cpp")],
 [], ["cosim::uri accessors against an independent RFC 3986 parser"])

prop("C17", "Relative references resolve as RFC 3986 prescribes",
 "Resolving any valid URI reference against any valid absolute base URI gives exactly the target URI defined by the strict algorithm of RFC 3986, section 5.2, including removal of dot segments, merging of paths and the treatment of empty and absent components. "
 "Resolving against a base that is not absolute is rejected.",
 ["inputs"],
 "all pairs of base URIs and references",
 "Tests use the RFC's own examples for a single base URI only.",
 ["src/cosim/uri.cpp"],
 [("resolve_reference, merge and remove_dot_segments", "src/cosim/uri.cpp")],
 [], ["cosim::resolve_reference against an independent implementation"])

prop("C18", "Percent-encoding and file-URI conversion round-trip",
 "Decoding the percent-encoding of any byte string gives the original back; encoding leaves exactly the unreserved and explicitly exempted characters unencoded, decoding replaces exactly the complete percent triplets (a triplet cut off by the end of the string is kept as it is) and rejects ones with something else than hexadecimal digits with an exception. "
 "Composing a URI from unencoded components encodes each of them so that they can be recovered, converting any absolute path to a file URI and that back to a path gives the same path, and URIs of other schemes, of remote hosts or without an authority are rejected as file URIs.",
 ["inputs"],
 "all byte strings, exemption sets and paths, including very short strings and non-ASCII bytes",
 "Tests encode one string and convert three paths.",
 ["src/cosim/uri.cpp"],
 [("percent_encode, percent_decode, path_to_file_uri, file_uri_to_path", "src/cosim/uri.cpp")],
 [], ["the four functions against independent definitions, under AddressSanitizer"])

prop("C19", "File locks exclude conflicting holders among threads and processes",
 "At any moment a file lock is held either by any number of shared holders or by one exclusive holder, never both, across all threads of all processes using the same file, whether obtained by waiting or by trying; trying to get a lock that is free succeeds, and one that conflicts fails without waiting. "
 "A waiting acquisition succeeds once conflicting holders have let go, and the lock of a process that dies is released.",
 ["schedules","crash_points","histories"],
 "all sequences and interleavings of lock, try, unlock, and (re)creation of lock objects by several threads in several processes, on one or more files, including a process being killed",
 "The existing test uses two processes or threads and a single hand-over.",
 ["src/cosim/utility/concurrency.cpp", "src/cosim/utility/concurrency.hpp"],
 [("per-path shared mutex plus fcntl lock", "src/cosim/utility/concurrency.cpp: file_lock, file_mutex")],
 [("file_mutex map", "per-process lock objects by file", "src/cosim/utility/concurrency.cpp")],
 ["occupancy counters in shared memory while holding locks"],
 )

prop("C20", "The persistent file cache gives exclusive writers and stable readers",
 "For each key, a persistent cache gives out either any number of read-only handles or a single read-write handle at a time, across threads and processes; different keys give different directories inside the cache, and the same key the same directory and contents over time. "
 "A reader of a key that does not exist gets an exception, waiting for one entry never holds up requests for others, and cleaning up removes entries that are not in use and never one that is.",
 ["schedules","histories","inputs"],
 "all keys, and all interleavings of opening, writing, reading, closing and cleaning up by several threads and processes",
 "There is no test for the file cache at all.",
 ["src/cosim/file_cache.cpp", "include/cosim/file_cache.hpp"],
 [("per-entry and root file locks", "src/cosim/file_cache.cpp: persistent_file_cache")],
 [], ["directory contents and shared-memory occupancy counters while handles are held"])

prop("C21", "The temporary file cache gives exclusive writers and leaves nothing behind",
 "For each key, a temporary cache gives out either any number of read-only handles or one read-write handle at a time, refusing conflicting or unknown requests with an exception; distinct keys get distinct directories below the cache's own root, with their contents kept while the cache exists. "
 "Once the cache and all handles to its entries are gone so is its directory, and no request can create or touch anything outside it.",
 ["histories","inputs"],
 "all keys (including unusual characters) and all sequences of opening and closing handles",
 "There is no test for the file cache at all.",
 ["src/cosim/file_cache.cpp"],
 [("ownership tracking by weak references", "src/cosim/file_cache.cpp: temporary_file_cache")],
 [("owns", "outstanding ro/rw handles per subdirectory", "src/cosim/file_cache.cpp")],
 ["handle acquisition results and directory listings"])

prop("C22", "Archives extract faithfully and only inside the target directory",
 "Extracting a zip archive, whole or by entry, produces exactly the archive's files and directories with their contents, byte for byte, at the corresponding places under the target directory, and lookups by name or index agree with the archive's directory. "
 "Nothing is ever created or modified outside the target directory whatever the entry names are, and corrupted archives give an exception and never a crash.",
 ["inputs","fault_sequences"],
 "all archives (sizes, nesting, compression, entry names including absolute ones and ones with parent-directory steps), and corrupted ones",
 "One small well-formed archive is used.",
 ["src/cosim/utility/zip.cpp", "src/cosim/utility/zip.hpp"],
 [("archive::extract_all, extract_file_to, entry lookup", "src/cosim/utility/zip.cpp")],
 [], ["resulting file tree against the archive description written by an independent zip writer"])

prop("C23", "A system structure accepts exactly the valid systems",
 "Entities are accepted exactly if their name is non-empty and not yet in use, their step size hint is not negative and, for functions, their parameters satisfy the declared types and limits; connections are accepted exactly if both ends exist, the data types are the same, the source is an output or calculated parameter and the target an input that can be modified and is not already connected. "
 "Everything accepted can be enumerated and looked up again unchanged, and anything rejected is reported as an invalid-system-structure error and leaves the structure as it was.",
 ["inputs","histories"],
 "all sequences of adding entities and connections over models and functions with arbitrary variables, parameters and instances",
 "One test covers basic use with a handful of calls.",
 ["src/cosim/system_structure.cpp", "include/cosim/system_structure.hpp"],
 [("add_entity, connect_variables, is_valid_connection, is_valid_variable_value", "src/cosim/system_structure.cpp")],
 [], ["system_structure API against a reference model"])

prop("C24", "Injecting a system structure reproduces it in the execution",
 "Injecting a system structure into an execution creates one sub-simulator or function for each entity with its name, requested step size and parameters, makes exactly its connections, and sets exactly the given initial values, and the returned index maps identify each entity; running it behaves as the same system set up by hand. "
 "Initial values for anything that is not an existing sub-simulator variable are reported as errors.",
 ["configurations","inputs"],
 "all system structures over generated models and functions, and initial value sets",
 "Only exercised indirectly through example configurations that cannot be loaded without an FMI library.",
 [EXE+"", "include/cosim/execution.hpp"],
 [("inject_system_structure", EXE)],
 [], ["slave call traces and data flow of the injected system"])

prop("C25", "OSP system configuration files load as exactly the system they describe",
 "Loading a valid OSP system description (file or directory) yields exactly its simulators with their models, step size hints and initial values, its functions with their parameters, all its connections of variables, variable groups and signals in the right direction, and its simulation settings with documented defaults; variable groups and bonds connect their members pairwise as described by the models' descriptions. "
 "Descriptions that are malformed, refer to anything that does not exist or connect incompatible things are rejected with an exception and never crash.",
 ["inputs","configurations"],
 "all documents valid under the schema, and invalid variations of them",
 "The existing tests need an FMI library and are not run here; upstream they load a few example files.",
 ["src/cosim/osp_config_parser.cpp", "data/xsd/OspSystemStructure.xsd"],
 [("osp_config_parser and load_osp_config", "src/cosim/osp_config_parser.cpp")],
 [], ["cosim::load_osp_config result against the generating model"])

prop("C26", "SSP system structure files load as exactly the system they describe",
 "Loading a valid SSP system structure description yields exactly its components with their models and step size hints, its connections (with linear transformations where given) in the right direction, its parameter sets' values under the name of each parameter set, and its default experiment; overrides of the SSD file name are honoured. "
 "Malformed files, and ones with connectors or parameters of unsupported types or referring to anything that does not exist, are rejected with an exception and never crash; parameters that a component has no use for are skipped, as SSP permits.",
 ["inputs","configurations"],
 "all descriptions over the supported elements, and invalid variations of them",
 "The existing tests need an FMI library and are not run here; upstream they load a few example files.",
 ["src/cosim/ssp/ssp_parser.cpp", "src/cosim/ssp/ssp_loader.cpp"],
 [("ssp_parser and ssp_loader::load", "src/cosim/ssp")],
 [], ["cosim::ssp_loader::load result against the generating model"])

prop("C27", "Built-in functions compute their definition and validate their parameters",
 "A linear transformation's output is offset plus factor times its input, and a vector sum's outputs are the elementwise sums of its inputs, for every supported numeric type, dimension and input count, at every evaluation; their descriptions list exactly the ports that exist with the right type and causality. "
 "Parameters of the wrong type, out of range or inconsistent are rejected when the function is created, and access to ports that do not exist or have another type is rejected with an exception. The helpers for authors of function types return the given or default value of a parameter, refuse unknown parameters and values of the wrong type or out of bounds, and describe a function with every placeholder replaced.",
 ["inputs","configurations"],
 "all parameter sets, numeric types, dimensions, port references and input values",
 "Tests instantiate each function once with one set of values.",
 ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "include/cosim/function/vector_sum.hpp", "src/cosim/function/utility.cpp"],
 [("instantiate, calculate, set/get", "src/cosim/function")],
 [], ["function outputs against exact arithmetic"])

prop("C28", "Real-time pacing and metrics follow the configured factor",
 "With real-time pacing enabled, no step begins while simulated time is more than a tenth of a millisecond ahead of the target factor times elapsed wall-clock time, counted from when the simulation was (re)started or the settings last changed (as noticed between steps), and the simulation never waits longer than that requires; if it is behind it doesn't wait at all. Changes of the settings apply to what follows only, without a jump, and restart the metrics. With pacing disabled, and for single steps, the simulation never waits. "
 "The reported total real-time factor equals simulated time over wall-clock time since the (re)start or change, and the rolling average that of the configured number of most recent steps; setting changes from other threads at any moment are safe.",
 ["schedules","histories","configurations"],
 "all target factors, step sizes, computation delays, and changes of the settings during the run",
 "Tests compare a single run's wall time with a wide tolerance.",
 ["src/cosim/timer.cpp", "include/cosim/timer.hpp"],
 [("real_time_timer::sleep and metrics", "src/cosim/timer.cpp")],
 [], ["virtual clock: recorded clock reads and sleeps; metrics values"])

prop("C29", "Time conversions preserve addition",
 "For any start time and duration within the range of simulation time, converting them with the given functions satisfies the documented law that adding a duration to a time point commutes with conversion, exactly for sums in simulation time and up to the rounding of the floating-point sum for sums in seconds, without undefined behaviour. "
 "Conversions are exact to within one nanosecond tick as far as floating-point numbers can represent them, and values that simulation time cannot represent (too large, infinite, NaN) are rejected with an exception.",
 ["inputs"],
 "all floating-point start times and durations, representable as simulation time or not",
 "Tests check two hand-picked values.",
 ["include/cosim/time.hpp"],
 [("to_duration(d, t), to_double_duration(d, t)", "include/cosim/time.hpp")],
 [], ["conversion results over random and boundary values"])

prop("C30", "FMI model units are driven as the co-simulation requests",
 "Model units imported through the FMI standards receive exactly the calls, arguments and values that the co-simulation requests, in the order the FMI standard requires and never two at a time for one instance, and their descriptions, results and failures (with the unit's own message) are reported back faithfully, in-process or through a proxy; a lost connection or a failing unit ends in an exception, not in the end of the program. "
 "Importing the same unit again shares it while it is in use, a unit that allows one instance per process never has two, unsupported, malformed or only partly unpacked model units are rejected or unpacked again, and no instance, binary, description or context is leaked, released twice or used after its release.",
 ["inputs","histories","schedules","fault_sequences","crash_points"],
 "all model units, import histories, sequences of calls, schedules of steps, failures at any call, and moments at which an unpacking process is killed",
 "No unit test runs an adapter without the FMI Library, and those that exist upstream use a handful of well-behaved units.",
 ["src/cosim/fmi/importer.cpp", "src/cosim/fmi/glue.cpp", "src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp", "src/cosim/proxy/remote_slave.cpp", "src/cosim/proxy/remote_fmu.cpp", "src/cosim/proxy/proxy_uri_sub_resolver.cpp"],
 [("fmu and slave_instance classes", "src/cosim/fmi"), ("importer::import and import_unpacked", "src/cosim/fmi/importer.cpp"), ("remote_slave, remote_fmu", "src/cosim/proxy")],
 [], ["calls and arguments received by the stand-in for the FMI Library and proxyfmu; exceptions; live handles, instances and contexts; unpacked files"])

prop("C31", "Temporary directories and identifiers are unique, and directories are removed",
 "Every temporary directory object owns a freshly created directory of its own, below the requested parent or the system's temporary location, which exists and is not shared with any other object in any thread or process, and which is removed with all contents when its owner is destroyed or overwritten, with ownership transferred on move. "
 "Generated random identifiers are well-formed version-4 UUIDs and never repeat.",
 ["histories","schedules"],
 "all sequences of creating, moving, overwriting and destroying temporary directories, in concurrent threads and processes",
 "One test creates and moves a single directory.",
 ["src/cosim/utility/filesystem.cpp", "src/cosim/utility/uuid.cpp"],
 [("temp_dir and random_uuid", "src/cosim/utility")],
 [], ["file system state after each operation"])

prop("C32", "Untrusted input never causes memory errors or abnormal termination",
 "Whatever bytes are given as a URI, scenario file, system description, SSP description, log configuration or archive, loading either succeeds or ends with an exception derived from std::exception: no out-of-bounds or use-after-free access, no undefined behaviour, no abort and no endless loop, as long as the input's size, nesting depth and the counts it declares are moderate. What was loaded can then be used with the same guarantee.",
 ["inputs","fault_sequences"],
 "all byte strings given to any of the parsers, with emphasis on mutations of valid inputs",
 "Tests only parse valid examples and run without sanitizers.",
 ["src/cosim/uri.cpp", "src/cosim/scenario_parser.cpp", "src/cosim/osp_config_parser.cpp", "src/cosim/ssp/ssp_parser.cpp", "src/cosim/utility/zip.cpp", "src/cosim/observer/file_observer.cpp"],
 [("input validation and exceptions", "the parsers")],
 [], ["AddressSanitizer/UBSan reports, terminate and signals, watchdog"])

prop("C33", "Documented cross-thread use is free of data races and deadlocks",
 "Everything that is documented as usable from other threads while a simulation runs (stopping it and asking whether it runs, reading last values and time series, toggling recording, requesting overrides, changing real-time settings and reading metrics) can be used concurrently in any combination without data races, deadlocks or torn values, and without affecting the simulation's results beyond what was requested.",
 ["schedules"],
 "all interleavings of a running simulation with threads performing those operations in random combinations",
 "Tests are single threaded in this respect and run without race detection.",
 [EXE, "src/cosim/observer", "src/cosim/manipulator/override_manipulator.cpp", "src/cosim/timer.cpp"],
 [("mutexes and atomics in the observers, manipulator and timer", "src/cosim")],
 [], ["ThreadSanitizer reports, watchdog, slave traces"])

prop("C34", "Stepping algorithms honour reconfiguration at any time",
 "After a variable is disconnected, or a sub-simulator removed, from a stepping algorithm, no value reaches that input, and nothing is asked of a removed sub-simulator, while every other connection, including those through functions, keeps working; disconnected inputs can be connected again. "
 "Changing a sub-simulator's step multiple makes its subsequent steps and all transfers to and from it, directly or through functions, follow the new multiple.",
 ["histories","configurations"],
 "all sequences of connecting, disconnecting, removing and changing step multiples, interleaved with steps",
 "Only the happy path of fixed systems is tested; disconnect and remove are never called by any test.",
 [FSA, "include/cosim/algorithm/algorithm.hpp"],
 [("disconnect_variable, remove_simulator, set_stepsize_decimation_factor", FSA)],
 [], ["calls made through the cosim::simulator and cosim::function interfaces"])

prop("C35", "Models are looked up through the registered resolvers, in order",
 "Looking up a model by URI asks the registered sub-resolvers in the order they were added and returns the first model found, resolving a relative reference against the given base first; an exception is raised if none knows it or the reference cannot be made absolute. "
 "File-based lookup gives the model for the file that the URI designates.",
 ["inputs","configurations","histories"],
 "all base URIs, references and sequences of resolvers with arbitrary answers",
 "Tests need an FMI library and are not run here.",
 ["src/cosim/orchestration.cpp", "include/cosim/orchestration.hpp"],
 [("model_uri_resolver::lookup_model", "src/cosim/orchestration.cpp")],
 [], ["calls received by recording sub-resolvers"])

prop("C36", "Errors are reported as the documented types, with code and explanation",
 "Whatever fails, the exception that the caller sees says what is wrong: a cosim::error's code, category and condition are those of the kind of failure (bad files, unsupported features, invalid system structures, bad variable values, failed simulations, input/output and archive errors), its text contains both the message of the code and the specific explanation, and copying, moving, catching by base class or passing it to another thread keeps all of them. "
 "Error codes compare equal only to themselves, and library errors of different kinds are distinguishable by code. What a slave's own exception said, and which slaves failed, is not lost from the error of the failed step.",
 ["inputs","fault_sequences"],
 "all codes and messages, and all failures that can be provoked through the interface",
 "Tests check at most that some exception is thrown.",
 ["include/cosim/exception.hpp", "src/cosim/exception.cpp", "src/cosim/error.hpp", "src/cosim/error.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/utility/zip.cpp"],
 [("error, errc, error_category and the throwing sites", "src/cosim")],
 [], ["type, code and what() of every exception caught"])

prop("C37", "Log messages appear exactly once, whole, and only at the chosen level",
 "With simple console logging set up, every message logged by the library or through its logger with at least the global output level's severity appears exactly once as one uninterrupted piece of output, labelled with its severity, and messages of one thread appear in the order they were logged; messages below the level do not appear, and changes of the level take effect for all messages logged after them, from any thread. "
 "What model units and the FMI Library report is logged with the severity that corresponds to the status or level they gave.",
 ["inputs","schedules"],
 "all messages, severities and levels, and all interleavings of threads that log and change the level",
 "No test looks at the log.",
 ["include/cosim/log/logger.hpp", "include/cosim/log/simple.hpp", "src/cosim/log/logger.cpp", "src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp", "src/cosim/fmi/importer.cpp"],
 [("setup_simple_console_logging, set_global_output_level, logger()", "src/cosim/log")],
 [], ["the console stream"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
