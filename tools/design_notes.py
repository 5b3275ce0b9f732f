INTRO = """
# How the properties of libcosim are decided

(This file is generated by `tools/mkdesign.py` from `bin/specs.py`, `properties.jsonl`, `known_findings.txt`, the planted
bugs and `tools/design_notes.py`; the text lives in the last of these.)

## Method

Every property is decided by **runtime monitoring**: the real code of /repo's working tree is compiled, with sanitizers, by
`bin/vbuild.py` (a build of its own; object files are cached under `/verif/build`, which git ignores, by content of all
inputs), linked with harnesses in `/verif/harness`, and driven through large numbers of generated workloads. Oracles that
share no code with libcosim watch the executions. No hooks are compiled into libcosim: everything the monitors need can be
observed through its interfaces (a `cosim::slave` is an interface, so an instrumented slave sees every call the
co-simulation makes; the same goes for observers, manipulators, functions, resolvers, files on disk and locks).

The parts:

- `harness/vh.hpp`: the case driver. A *case* is a 64-bit number from which everything random in it derives. Each case runs
  in one of a pool of worker processes; violations, crashes, sanitizer reports, unexpected exceptions, calls to
  `std::terminate` and hangs all become violations with the case number, so `bin/check.py <id> --replay <file>` repeats
  exactly that case. A suspected hang is run again with a far longer time limit before it is reported, so a loaded
  machine doesn't raise an alarm.
- `harness/world.hpp`: the instrumented slave. It records every call (with arguments and a global sequence number), checks
  online that calls don't overlap and come in a legal order, produces outputs that are a deterministic function of its
  inputs and history (so that two traces are equal only when the whole data flow was), and can delay, fail in six ways, or
  return other results at any operation.
- The *reference model* of a co-simulation (`exec.cpp`, `manip.cpp`): an independent and sequential re-implementation of the
  documented semantics: which simulators step when, what is transferred when, what observers see. Every case compares the
  recorded trace with the model's.
- Concurrency: worker-thread counts from 0 to 7, random sleeps and yields inside slaves, observers and functions, several
  threads issuing requests, forked processes for locks and caches. The TSan variants run the same
  workloads in builds with `-fsanitize=thread`. Distinct interleavings are counted from the recorded order of events.
- The oracle for histories of concurrent requests is offline: every effect must be explained by the
  requests in some order that respects real time.
- `bin/check.py`: builds, runs, merges the counters of the workers, requires that certain things were really observed (e.g.
  "20 requests were rejected for reason X": a workload that silently stops exercising the property is *not* a
  pass, but an error), writes `evidence/<id>.json`, and prints VIOLATION lines. The thorough tier runs the same
  workloads with many more cases (column below) and different seeds.

Sanitizers: `asan` = clang `-fsanitize=address,undefined` (and float-cast-overflow) without recovery, `tsan` = clang
`-fsanitize=thread`; both with asserts on, so internal assertions of libcosim are monitors as well.

Why this reaches what the tests cannot: each property quantifies over systems, values, schedules or histories. The repository's
tests contain about fifty fixed systems with one schedule each; a quick run here monitors thousands of generated systems with
perturbed schedules, and each of them is checked completely against the model, not for a few sampled values.
"""

NOTES = {
"C02": "Enumeration variables are left out: libcosim's own connection code refuses them by assertion. Sums in `vector_sum` whose int result overflows are left out (undefined in the documented definition, too).",
"C04": "An early version of the harness ignored generated initial values when it predicted what an observer reads at step 0; that was a false alarm of the harness and was corrected.",
"C05": "A stop request from another thread may be seen one step late when the step had begun before the request returned. `steps_to_monitor` of zero or less is unspecified and not generated.",
"C06": "Stepping again after a failed step is outside the contract (it terminates) and not generated. `slave` status codes are exceptions at this interface.",
"C09": "Integer modifications that overflow `int` are not generated. Modifying a variable through a function whose variable is not observed is visible only when exposed; outputs are observed.",
"C10": "A scenario ends, and cleans up, at the first step that starts no earlier than its end time and after the step in which its last event fired. Boolean bias is undocumented and not checked. Aborting after a normal end cleans up a second time; harmless and accepted.",
"C12": "Observers added while running are only required to be right after the simulator's next own step. Enumeration variables are refused by assertion and not generated.",
"C13": "A fifth of the observers are added during the simulation; the step numbers and samples they report must be of steps they have seen.",
"C14": "Reals are written with six significant digits by default or with a fixed number of decimals if configured; the oracle compares the text exactly. Strings are written unescaped. `timeStampedFileNames` is read by nobody in libcosim's configuration parser, so file names are recognised by pattern. A restart without time-stamped names writes a second header; accepted.",
"C15": "Toggling includes runs in which there is nothing to log (added after planted bug c15-restart-flag was missed).",
"C18": "File URIs with hosts other than empty and localhost are expected to be refused.",
"C19": "`try_lock_shared()` may fail spuriously, but only when another thread of the process was active on the same file at the same time.",
"C20": "The handle model: handles aren't passed between threads, a thread that waits holds nothing, one handle per key and thread. (An early version of the model deduced state from late refusals and raised false alarms; it was corrected to use only refusals whose request began after the state was established.) A thread that calls `cleanup()` while it holds a handle another one waits for is left out.",
"C22": "The message of the error for a file that isn't an archive is truncated; cosmetic.",
"C25": "All documents are generated by a grammar-based generator with an independent model of the documented format; one kind of mistake is then injected and must be refused. An early version shared a scratch directory between cases (false alarm of the harness, corrected); \"parameter\" variables are not valid connection targets in libcosim, and an early version of the model thought they were. Full variable names with group fields on simulator variables are not normalised by libcosim and not generated. Start and step times are limited to what simulation time can represent.",
"C26": "Only what the loader documents: linear transformations on connections, parameter sets, OSP annotations. Parameter mappings and other transformations are ignored by it and not generated. Functions made for transformations have 32-bit random names; a collision is not considered.",
"C28": "Sleeps are measured: too-short ones are violations always, too-long ones only when they repeat in a run on their own.",
"C29": "Values that don't fit simulation time must be refused; `remote_slave.cpp` passes `startTime` to a duration conversion, which C30's proxy part covers.",
"C30": "The FMI Library and proxyfmu aren't installed, and this sandbox's build doesn't compile the adapters. The check compiles them itself, against headers and a stand-in in harness/mock, which plays both the libraries and the model units, records every call, checks it against the state machines of FMI 1.0 and 2.0 and injects failures. What the real libraries do beyond their documented interfaces is therefore assumed, not observed. Left out: the Windows code; FMI 1.0's rule that values may not be read before initialisation (the execution reads them to connect variables; most units allow it); the causality string for calculated parameters in proxyfmu, whose spelling can't be checked here.",
"C32": "Scoped to documents of moderate size, nesting and declared counts (a declared vector of 2^30 elements is simply a lot of memory). Leaks of the XML parser when it throws are not looked at.",
"C33": "Uses only what is documented as safe to call from other threads.",
"C34": "When factors are changed, only points at which old and new steps meet are used: what happens elsewhere is not specified.",
"C35": "File URIs without an authority are not generated (accepted by some resolvers, not by others; undocumented).",
"C36": "Texts are only required to contain the code's message, the name of what failed and the reason that a slave gave; wording is free. The error codes of a sub-simulator's own exceptions are not preserved through a failed step (they become text), and that is not required.",
"C37": "The output format is only relied on for the parts that users see: time, severity in brackets, message. Messages that are concurrent with a change of the level may appear or not. Under TSan, the one-time table initialisation inside Boost.Log is suppressed (harness/tsan.supp): its guard is in an uninstrumented library. In the other checks, logging is enabled (to nowhere) in every sixth case outside TSan, so that the code that makes the messages is executed, too.",
}

TAIL = """
## False alarms met on the way and what was done

- C04: harness predicted step-0 values without initial values; harness corrected.
- C20: model deduced from late refusals; model corrected.
- C25: shared scratch directory; `parameter` targets; both corrected in the harness.
- C26: the statement promised more than the loader documents (parameter mappings); statement narrowed.
- C05: a stop request racing with the loop's own check may take one more step; the statement says so.
- C28: the machine's load showed up as long sleeps; only repeated ones count now.

## Suspected minor defects that were left alone

Not violations of a property above, or not safe to change without the maintainers' opinion:

- `file_observer` checks the wrong stream after writing metadata.
- A step status of "non-fatal bad value" is treated as fatal.
- The constructor of the thread pool doesn't join the threads it has started when starting the next one fails.
- A moved-from `uri` keeps offsets into a string that is empty.
- Variables exposed after the start read as default values until the simulator's next step.
- Function parameters with unknown indexes are ignored; models that share a UUID are assumed to be identical.

## What runtime monitoring cannot decide here

Absence of deadlocks and races in schedules that were not met; this is stated as an assumption in every evidence file. The
Windows code (`src/cosim/fmi/windows.cpp`, LockFileEx and so on) cannot run here. proxyfmu and the FMI Library are not
installed; see C30.
"""
