"""What each check runs: harness, build variant, case counts and descriptions."""

def R(variant, harness, mode, quick, thorough=None, **kw):
    d = dict(variant=variant, harness=harness, mode=mode, quick=quick)
    d["thorough"] = thorough if thorough is not None else quick * 25
    d.update(kw)
    return d

COMMON_ASSUME = [
    "held on the executions listed under coverage; nothing is claimed about paths they did not reach",
    "the instrumented slaves/functions and the reference model of the harness are trusted",
]

SPECS = {}

def S(id, runs, rule, technique, note, require=None, assumptions=None, **kw):
    SPECS[id] = dict(runs=runs, rule=rule, technique=technique, level_note=note,
                     require=require or {}, assumptions=COMMON_ASSUME + (assumptions or []), **kw)

S("C01", [R("asan", "exec", "C01", 6000)],
  "random system, step sizes, worker count, artificial delays and bursts of steps; the call log of every slave is run through a lifecycle automaton; distinct = different system shapes",
  "online call monitors + lifecycle automaton over recorded call logs, ASan/UBSan",
  "monitored on generated systems and thread schedules perturbed by random delays",
  require={"calls_monitored": 1000})
S("C02", [R("asan", "exec", "C02", 12000)],
  "random connection graph over random variables, types and step multiples; inputs in effect at every step are compared with an independent reference model; distinct = system shapes with at least one connection",
  "differential monitoring of slave inputs against a reference model, ASan/UBSan",
  "exploration of random graphs", require={"values_delivered": 1000, "connections_from_functions": 100})
S("C03", [R("asan", "exec", "C03", 800), R("tsan", "exec", "C03", 300)],
  "each random system is run with 0, 1, 2 and 7 workers under random delays and the complete call traces compared; distinct = distinct observed interleavings of concurrent steps",
  "trace comparison across thread counts under injected delays; ThreadSanitizer",
  "exploration of schedules by delays, TSan for races",
  require={"concurrent_runs": 50}, parallel=4)
S("C04", [R("asan", "exec", "C04", 8000)],
  "random system with recording observers added at random points; notification streams and the values readable inside them are compared with the expected ones; distinct = system shapes and observer counts",
  "trace checking of observer notifications against a reference model, ASan/UBSan",
  "exploration", require={"notifications_checked": 1000, "late_observers": 10})
S("C05", [R("asan", "exec", "C05", 3000), R("tsan", "exec", "C05", 800)],
  "random sequences of step, simulate_until (sync/async), stop requests from inside steps, from other threads and right after an asynchronous request, and failures; distinct = action sequences",
  "monitored run-control histories with stop injection; ThreadSanitizer",
  "exploration of stop points; a stop request is allowed one step begun after it (the check and the request race)",
  require={"immediate_stops": 20, "cross_thread_stops": 20, "failed_runs": 20})
S("C06", [R("asan", "exec", "C06", 8000), R("tsan", "exec", "C06", 800)],
  "a random operation of one or more slaves fails (six ways) in a random phase, with 0-7 workers; distinct = systems x failure plans that fired",
  "fault injection at every slave operation with monitors on exception, traces and notifications; ASan/UBSan, TSan",
  "exploration of fault points", require={"failed_in_do_step_stepping": 20, "failed_in_setup_init": 20})
S("C07", [R("asan", "exec", "C07", 10000)],
  "random sequences of connection attempts over valid and spoiled end points; acceptance is compared with a predicate and the resulting data flow with the reference model; distinct = attempt sequences",
  "predicate oracle over connection attempts plus differential data-flow monitoring, ASan/UBSan",
  "exploration", require={"accepted": 100, "rejected_source": 20, "rejected_target": 20, "rejected_type": 20, "rejected_duplicate": 20})
S("C08", [R("asan", "exec", "C08", 10000)],
  "random initial values (also repeated, unknown and late ones) on random systems; slave call logs are checked; distinct = sets of initial values",
  "call-log monitor against the expected initial values, ASan/UBSan",
  "exploration", require={"initial_values_delivered": 100, "rejected_unknown": 20, "rejected_late": 20})

S("C09", [R("asan", "manip", "C09", 4000), R("tsan", "manip", "C09T", 250)],
  "random systems with random override/reset requests between steps (compared exactly with a reference model) or from several threads during steps (offline check that each variable's values are explained by its requests in order); distinct = request histories",
  "differential monitoring against a reference model; offline ordering check of concurrent request histories; ASan/UBSan, TSan",
  "exploration of request sequences and thread schedules",
  require={"requests": 1000, "threaded_effects": 100, "rejected_requests": 100})
S("C10", [R("asan", "manip", "C10", 6000)],
  "random systems and scenarios (several events per variable and step, exact and off-grid times, end times, aborts, reloads); every input in effect and every visible value at each step is compared with a reference model; distinct = scenario histories that fired events",
  "differential monitoring against a reference model of scenarios; ASan/UBSan",
  "exploration", require={"events_fired": 1000, "same_step_events": 100, "cleanups": 100, "aborts": 20})
S("C11", [R("asan", "manip", "C11", 4000)],
  "random scenarios rendered as JSON and as YAML in random styles, and spoilt variants; parsed events are compared field by field and their modifiers evaluated; distinct = documents",
  "round-trip oracle over generated files, rejection oracle over spoilt ones; ASan/UBSan",
  "exploration", require={"events_compared": 1000, "rejected_files": 500})

S("C12", [R("asan", "obs", "C12", 5000), R("tsan", "obs", "C12T", 250)],
  "random systems; last values read in random selections between steps are compared with a reference model, and tuples read by other threads during steps must match a single step within the bounds given by notifications; distinct = system shapes",
  "differential monitoring; snapshot-consistency checker over concurrent reads; ASan/UBSan, TSan",
  "exploration", require={"values_compared": 10000, "concurrent_reads": 1000, "reads_overlapping_a_step": 20})
S("C13", [R("asan", "obs", "C13", 6000)],
  "random systems, buffer sizes and starts/stops of observation; random queries are compared with the recorded history of a reference model; distinct = observation histories that returned samples",
  "differential monitoring of queries against a reference history; ASan/UBSan",
  "exploration", require={"added_late": 200, "samples_compared": 10000, "samples_dropped_by_buffer": 1000, "synchronized_pairs": 500})
S("C14", [R("asan", "obs", "C14", 5000)],
  "random systems and log configurations (built or from XML); each log file is parsed and compared row by row with a reference model; distinct = systems x configurations with rows",
  "offline checker over the log files against a reference model; ASan/UBSan",
  "exploration; reals are compared to the written precision", require={"rows_compared": 5000, "bad_configs_rejected": 100, "added_late": 200})
S("C15", [R("asan", "obs", "C15", 3000), R("tsan", "obs", "C15T", 300), R("asan", "obs", "C15T", 600)],
  "random start/stop histories, between steps (exact comparison of all rows) or from 1-4 threads during steps (linearizability of the toggles; rows certain to be in or out by a counting argument over the recorded history); distinct = toggle histories",
  "offline checker over log files and toggle histories (linearizability, exactly-once rows); ASan/UBSan, TSan",
  "exploration of histories and schedules", require={"toggles": 1000, "toggles_with_nothing_to_log": 200, "rejected_toggles": 500, "thread_toggles": 500, "thread_toggles_rejected": 100, "steps_decided": 1000})

S("C16", [R("asan", "uri", "C16", 3000)],
  "all strings of up to 6 (thorough: 8) characters over 8 delimiters and others, plus random grammar-conforming and arbitrary strings, and component combinations with forbidden characters inserted; distinct = component shapes",
  "differential monitoring against an independent splitter written from RFC 3986 appendix B; ASan/UBSan",
  "exhaustive for short strings, exploration beyond",
  require={"parsed": 10000, "rejected_strings": 1000, "composed": 10000, "compose_rejected": 1000, "exhaustive_slices": 64})
S("C17", [R("asan", "uri", "C17", 2000)],
  "all references of up to 5 (thorough: 7) pieces against a set of bases, and random pairs rich in dot and empty segments; distinct = shapes of base and reference",
  "differential monitoring against an independent segment-list implementation of RFC 3986 section 5.2 (itself checked on the RFC's examples); ASan/UBSan",
  "exhaustive for short references, exploration beyond",
  require={"resolved": 10000, "resolved_with_dots": 1000, "resolved_by_merging": 1000, "relative_bases_rejected": 500, "exhaustive_slices": 32})
S("C18", [R("asan", "uri", "C18", 3000)],
  "all byte pairs after a percent sign, all short strings over a few characters, random byte strings with random exemptions, component combinations and paths; distinct = strings",
  "round-trip and model oracles on exactly sized heap buffers; ASan/UBSan",
  "exhaustive for single triplets and short strings, exploration beyond",
  require={"round_trips": 10000, "bad_triplets_rejected": 1000, "paths": 1000, "non_file_uris": 1000, "uris_encoded": 1000})

LOCK_TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:detect_deadlocks=0"}
S("C19", [R("asan", "lock", "C19", 1200, timeout=20), R("asan", "lock", "C19L", 300, timeout=20), R("asan", "lock", "C19S", 1000, timeout=30),
          R("tsan", "lock", "C19L", 200, timeout=30, env=LOCK_TSAN), R("tsan", "lock", "C19T", 200, timeout=30, env=LOCK_TSAN)],
  "scripted: one operation at a time by agents in several threads of up to 3 processes, with kills, moves, overwriting, re-creation and aliases of the lock files, against a model of who holds what; free-running: occupancy counters in shared memory while up to 4 processes lock with slowed-down close(), one of them possibly killed; distinct = operation histories",
  "online exclusion/progress monitor over scripted multi-process histories, shared-memory occupancy monitor under stress with injected delays and kills; ASan/UBSan, TSan",
  "exploration of histories and schedules",
  require={"waits": 500, "waits_ended": 500, "tries_refused": 500, "tries_succeeded": 500, "processes_killed_holding": 20, "acquired": 20000, "handovers": 5000})
S("C20", [R("asan", "lock", "C20", 1200, timeout=20), R("asan", "lock", "C20L", 300, timeout=20), R("asan", "lock", "C20S", 400, timeout=30),
          R("tsan", "lock", "C20L", 150, timeout=30, env=LOCK_TSAN), R("tsan", "lock", "C20T", 100, timeout=30, env=LOCK_TSAN)],
  "scripted requests, writes, releases and cleanups by agents in several threads of up to 3 processes with unusual keys, against a model of the entries; free-running workers with occupancy counters and content tokens; distinct = request histories",
  "online model-based monitor over scripted multi-process histories, occupancy and content monitors under stress; ASan/UBSan, TSan",
  "exploration of histories and schedules",
  require={"waits": 300, "rw_granted": 1000, "ro_granted": 500, "unknown_keys_refused": 200, "kept_by_cleanup": 200, "removed_by_cleanup": 500, "granted_while_others_wait": 200, "stress_granted": 5000})

S("C21", [R("asan", "fs", "C21", 4000)],
  "random histories of opening and closing handles to several caches with unusual keys, against a model of keys and handles; the surroundings of the caches are compared with what they were; distinct = histories",
  "online model-based monitor, sentinel monitor on the surrounding directory tree; ASan/UBSan",
  "exploration", require={"conflicts_refused": 1000, "ro_granted": 1000, "rw_granted": 5000, "shared_readers": 200, "caches_destroyed": 500})
S("C22", [R("asan", "fs", "C22", 2500)],
  "random archives (several libraries' layouts, sizes, compression, names that escape, odd names, damage), extracted whole and by entry and compared with what was put in; unwritable targets; the surroundings are compared with what they were; distinct = archives",
  "round-trip oracle, sentinel monitor on the surrounding directory tree, fault injection; ASan/UBSan",
  "exploration", require={"extracted_entries": 2000, "escaping_names": 300, "damage_reported": 50, "io_errors": 50, "single_files": 1000})
S("C31", [R("asan", "fs", "C31", 3000), R("asan", "fs", "C31M", 300), R("tsan", "fs", "C31M", 150)],
  "random histories of creating, moving, overwriting and destroying temporary directories with several parents against a model of the directory tree; concurrent creation in threads and processes with an offline uniqueness check; distinct = histories",
  "online model-based monitor; offline uniqueness check over concurrent histories; ASan/UBSan, TSan",
  "exploration of histories and schedules", require={"created": 10000, "assigned": 2000, "concurrent_creations": 10000, "forked_processes": 200, "fresh_processes": 50, "uuids": 100000})

S("C23", [R("asan", "structure", "C23", 10000)],
  "random sequences of adding entities (simulators, built-in and generated function types with valid and spoilt parameters), connecting existing, non-existing and incompatible variables, initial values and lookups; acceptance, error codes, and the complete contents after each operation are compared with a reference model; distinct = operation histories",
  "online model-based monitor of the structure after every operation; ASan/UBSan",
  "exploration of operation histories",
  require={"entities_accepted": 2000, "entities_rejected": 500, "bad_parameters": 300, "connections_accepted": 2000, "connections_rejected:already connected": 100, "connections_rejected:types": 100, "values_accepted": 300, "lookups": 1000, "predicates_true": 5000, "predicates_false": 5000})
S("C24", [R("asan", "structure", "C24", 6000)],
  "random system structures (several entities per model or function type, functions with parameters, connections, initial values, also unacceptable ones) injected into executions with instrumented slaves and functions; instances, index maps, names and parameters are checked, and the inputs in effect at every step compared with the reference model of the same system; distinct = structures",
  "differential monitoring of the injected system against a reference model; ASan/UBSan",
  "exploration of structures",
  require={"steps_compared": 10000, "connections": 3000, "functions": 500, "initial_values": 3000, "bad_values_rejected": 300})
S("C27", [R("asan", "structure", "C27", 4000)],
  "random parameter sets (valid, wrong types, out of range) and inputs; outputs are compared with extended-precision sums, descriptions with the parameters, and accesses to all ports near the valid ones in all types with what exists; distinct = parameter sets x inputs",
  "value and description oracles on every evaluation, access monitors; ASan/UBSan",
  "exploration; sums of reals are compared up to rounding in any order, integer sums only where no partial sum overflows",
  require={"evaluations_linear": 10000, "evaluations_vector": 5000, "bad_accesses_rejected": 10000, "bad_parameters_rejected": 1000, "bad_constructions_rejected": 1000,
           "parameter_lookups": 10000, "parameter_lookups_refused": 3000, "substitutions": 5000, "substitutions_refused": 500})

S("C34", [R("asan", "algo", "C34", 10000)],
  "random sequences of connecting, disconnecting, removing simulators (and reusing indices) and changing step multiples (where old and new steps meet), before and between steps of the algorithm, which drives recording simulators and functions; every value set and every step is compared with a model; distinct = reconfiguration histories",
  "model-based monitor of all calls through the simulator and function interfaces; ASan/UBSan",
  "exploration of histories",
  require={"values_transferred": 50000, "disconnects_ss": 500, "disconnects_sf": 500, "disconnects_fs": 500, "removals": 500, "factor_changes": 1000, "runs_with_factor": 200, "runs_with_remove": 200, "runs_with_disconnect_fs": 200})

S("C25", [R("asan", "config", "C25", 2000, timeout=30)],
  "random OSP system structures (simulators with generated descriptions and OspModelDescription files with nested groups, functions, variable/signal/group/bond connections, initial values, settings) written as XML in many spellings (file or directory, relative and absolute sources, entities, prefixes, element orders), and spoilt versions of them; the loaded configuration is compared field by field with the generating model; distinct = documents",
  "differential oracle: loaded configuration against the model that generated the document; ASan/UBSan",
  "exploration of documents",
  require={"loaded": 800, "rejected_files": 400, "connections": 10000, "group_members": 5000, "bond_connections": 500, "functions": 1000, "initial_values": 3000, "fan_out": 200})
S("C26", [R("asan", "config", "C26", 5000, timeout=30)],
  "random SSP systems (components with connectors, connections with linear transformations, inline and external parameter sets, default experiment, algorithm annotations; directories and archives; custom SSD names) and spoilt versions; the loaded configuration is compared with the generating model; distinct = documents",
  "differential oracle: loaded configuration against the model that generated the files; ASan/UBSan",
  "exploration of files",
  require={"loaded": 1000, "rejected_files": 500, "archives": 300, "connections": 2500, "transformations": 1200, "parameters": 4000, "algorithms": 400})
S("C35", [R("asan", "config", "C35", 8000)],
  "random resolvers (with default and overridden relative look-up) with arbitrary answers (none, model, failure), added and moved between look-ups with arbitrary bases and references; the calls received and the outcome are compared with the documented order; FMU file URIs in many spellings against the path imported by a stand-in FMI importer; distinct = look-ups",
  "recording monitor of all resolver calls against the documented order; ASan/UBSan",
  "exploration; the FMI importer is replaced by a recording stand-in",
  require={"resolved": 3000, "resolved_by_later": 1500, "resolved_with_base": 1500, "failures": 1000, "unresolved": 3000, "relative_rejected": 1000, "fmus": 2000, "not_fmus": 3000})

S("C28", [R("asan", "timing", "C28", 2000, timeout=60), R("asan", "timing", "C28T", 60, timeout=60), R("tsan", "timing", "C28T", 20, timeout=120)],
  "random runs of executions with random step sizes, target factors, computation delays, pauses, restarts, setting changes and monitored step counts on a virtual clock (clock_gettime and the sleep functions are interposed): every step's start, every wait and every metric is compared with what the settings demand; setting changes from other threads at any moment; distinct = configurations and histories",
  "virtual-clock monitor of every clock read and sleep against the documented pacing law, metric oracle; ASan/UBSan, TSan",
  "exploration; sums are compared with the tolerance of the implementation's documented resolution (a tenth of a millisecond)",
  require={"paced_steps": 5000, "unpaced_steps": 2000, "waits": 2000, "late_steps": 500, "rolling_by_steps": 500, "rolling_by_time": 100, "totals_checked": 2000, "changes": 500, "steps_with_concurrent_changes": 1000})
S("C29", [R("asan", "timing", "C29", 10000)],
  "random and boundary start times and durations over all magnitudes, incl. infinities, NaN and values just in and out of range; distinct = values",
  "algebraic oracle in extended precision; ASan/UBSan (float-cast-overflow, signed overflow)",
  "exploration of the input space",
  require={"additions_to_simulation_time": 10000, "additions_in_seconds_exact": 1000, "to_seconds": 5000, "to_time_point": 5000, "unrepresentable_rejected": 1000})

S("C32", [R("asan", "config", "C32O", 4000, timeout=30), R("asan", "config", "C32P", 4000, timeout=30), R("asan", "manip", "C32S", 2500, timeout=30),
          R("asan", "obs", "C32L", 1500, timeout=30), R("asan", "uri", "C32U", 1500, timeout=30), R("asan", "fs", "C32Z", 2500, timeout=30)],
  "valid documents of every kind (OSP system structures and model descriptions, SSP files and archives, scenarios in JSON and YAML, log configurations, URIs) mutated at byte, token, value, attribute and element level and spliced with others; what is accepted is then used (injected and stepped, applied, logged with, extracted); distinct = mutated inputs",
  "structure-aware mutation fuzzing of the real parsers under ASan/UBSan with a monitor for the kind of exception and a watchdog",
  "exploration; inputs that declare more than 999 function inputs or dimensions are left out, and so are steps of unreasonable length",
  require={"rejected:OSP system structure": 1000, "accepted:OSP system structure": 60, "model_descriptions": 1000, "rejected:SSP system structure": 1000, "accepted:SSP system structure": 500, "parameter_files": 500,
           "rejected:scenario": 5000, "accepted:scenario": 2000, "rejected:log configuration": 1000, "accepted:log configuration": 1000, "accepted:URI": 50000, "rejected:URI": 1000, "rejected:archive": 3000, "accepted:archive": 500})

S("C33", [R("asan", "obs", "C33", 2500, timeout=60), R("tsan", "obs", "C33", 1000, timeout=120)],
  "random systems run by simulate_until, simulate_until_async and step in random alternation (0-3 workers), while 2-5 other threads read last values and time series, override and reset variables of a simulator nobody depends on, toggle recording, stop the simulation and ask whether it runs, change the real-time settings and read the metrics in random mixes; distinct = systems x operations performed",
  "ThreadSanitizer and ASan/UBSan under random concurrent workloads; offline comparison of every value read, row logged and step made with a reference model of the undisturbed run; linearizability of the recording requests; watchdog for deadlocks",
  "exploration of schedules",
  require={"results_checked": 10000, "reads_of_last_values": 2000, "reads_of_time_series": 2000, "override_requests": 500, "recording_requests": 1000, "stop_requests": 500, "runs_stopped": 200, "seen_running": 200, "setting_changes": 2000, "metric_reads": 2000, "rows_checked": 3000, "recording_histories_checked": 100})

S("C30", [R("asan", "fmi", "C30", 2500), R("asan", "fmi", "C30I", 1500), R("asan", "fmi", "C30K", 200, timeout=60), R("asan", "fmi", "C30S", 1500, timeout=60), R("asan", "fmi", "C30P", 2500), R("tsan", "fmi", "C30S", 300, timeout=120)],
  "random model units of both FMI versions (kinds, variables, start values, one-instance restrictions, flaws) as archives or directories: direct driving through random operation sequences, random import histories with rewriting of files and shared caches, processes killed while they unpack into a persistent cache, whole systems of units in an execution with connections and 0-4 workers, units behind proxies (local, remote by URI); errors, discards and lost connections injected at random calls; distinct = units and histories",
  "recording and fault-injecting stand-in for the FMI Library, proxyfmu and the model units: state machine of the FMI standards, argument and value oracle, resource accounting; ASan/UBSan and TSan",
  "exploration; the units and both libraries behind the adapters are stand-ins written from the standards' documentation, since neither library is installed",
  require={"descriptions_checked": 8000, "faults_injected": 1500, "messages_checked": 300, "operations": 30000, "values_passed": 25000, "bad_units_rejected": 200, "failed_instantiations": 300, "singletons_protected": 80, "shared_imports": 3000, "fresh_imports": 2000, "bad_files_rejected": 400,
           "killed_while_unpacking": 150, "systems_failed": 300, "systems_completed": 600, "transfers_checked": 25000, "steps_checked": 10000, "systems_with_concurrent_steps": 300, "models_found": 1200, "missing_files_rejected": 200, "instances": 3000})

S("C36", [R("asan", "misc", "C36", 2500)],
  "random error codes, messages and nested errors constructed, copied, moved, thrown and caught; errors of every documented kind provoked through the interface (unsupported features, failed steps of slaves, structure errors, bad values, broken archives, missing files); type, code, category, condition and text are compared with what is documented; distinct = errors",
  "oracle for type, code and text of every exception observed; ASan/UBSan",
  "exploration of errors",
  require={"error_objects": 1000, "failed_together": 500, "errors:Invalid system structure": 500, "errors:Simulation error": 500, "errors:Unsupported feature": 300, "errors:ZIP file error": 300, "errors:input/output": 300, "errors:Variable value is invalid or out of range": 200})
S("C37", [R("asan", "misc", "C37", 4000, timeout=60), R("tsan", "misc", "C37", 800, timeout=120),
          R("asan", "fmi", "C37F", 500, timeout=60), R("tsan", "fmi", "C37F", 150, timeout=120)],
  "1-6 threads log numbered messages (long, empty and with odd characters) through the library's logger at random severities while the level is changed, and simulations run and log; the console stream is captured; model units of both FMI versions on threads of their own and the (stand-in) FMI Library log at all statuses and levels; distinct = message histories",
  "offline checker over the captured stream: each message exactly once, whole, in its thread's order, present if and only if its severity reaches the level; ThreadSanitizer and ASan/UBSan",
  "exploration of schedules; messages that are concurrent with a change of the level may appear or not",
  require={"messages_sent": 20000, "lines_checked": 5000, "lines_of_the_library": 300, "level_changes": 500, "simulations": 100, "unit_messages": 15000, "library_messages": 1000})

NOT_APPLICABLE = {}
NOTES = "Every check rebuilds the library from /repo's working tree with sanitizers and runs instrumented workloads; see DESIGN.md. No hooks in /repo are needed."
