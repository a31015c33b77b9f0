#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
S = "mbqc_scheduling/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith(("python_lib","results")) else S+f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n,m,w in (state or [])],
            mechanism=[dict(name=n, where=w) for n,w in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Every returned schedule is executable and complete",
 "For every well-formed input and every mode (time-optimal only, exhaustive, probabilistic, multi-threaded, interrupted by a timeout), each returned schedule measures every node exactly once, in non-empty steps. No node is measured in the same step as, or before, a node it depends on in the partial time ordering. No valid input makes the call panic.",
 ["inputs","configurations","schedules"],
 "all spatial graphs x all partial time orderings x every search mode, thread count, task bound, timeout instant and accept decision",
 "The existing tests compare searches with each other on 256 sampled inputs of the low-level scheduler and never call the user-facing entry points; they contain no independent notion of a valid schedule.",
 ["interface.rs","search.rs","search/threaded.rs","scheduler/time.rs","scheduler/combinatoric.rs"],
 [("dependency counters release a node when its last dependency is measured","scheduler/time.rs update_unchecked"),
  ("current path pushed on forward, popped on backward","search.rs forward/backward"),
  ("initial step seeded into the per-task path","search/threaded.rs task")],
 ["Vec<Path> returned by interface::run","steps of each Path"])

prop("C02", "Reported time and space are the true costs of the schedule",
 "For every returned schedule, in every mode, the reported time is the number of its steps. The reported space is the largest number of simultaneously initialised, not yet measured qubits over its execution, where executing a step initialises the measured nodes and all their neighbours first and frees the measured ones afterwards.",
 ["inputs","configurations","schedules"],
 "all spatial graphs x all partial time orderings x every search mode and thread interleaving",
 "The proptest compares the scheduler's memory number only with the same scheduler's memory number, so a consistent accounting error is invisible (BUILD.json notes one such change that all 9 tests miss).",
 ["scheduler/space.rs","search.rs","search/threaded.rs","scheduler.rs"],
 [("peak is taken before measured qubits are released","scheduler/space.rs update_memory"),
  ("neighbours initialised when a node is measured","scheduler/space.rs measure"),
  ("leaf reports the peak of the focused state","scheduler.rs at_leaf")],
 ["Path.time","Path.space","Path.steps"],
 [("current_memory/max_memory","qubits in memory now / peak so far","scheduler/space.rs Graph")])

prop("C03", "Exhaustive search returns exactly the optimal space-time trade-off",
 "For every well-formed non-empty input, the deterministic single-threaded search without a timeout returns, for each number of steps at which a smaller peak space becomes possible than with fewer steps, one schedule that attains that minimum, and nothing else. Skipping schedules early never changes this set of (time, space) pairs.",
 ["inputs"],
 "all spatial graphs x all partial time orderings",
 "Optimality quantifies over all schedules of every input; the proptest samples 256 small inputs, uses a copy of the skip logic in the test file instead of the search code, and never runs the real search.",
 ["search.rs","scheduler/tree.rs","scheduler/combinatoric.rs","scheduler/time.rs","scheduler/space.rs"],
 [("branch-and-bound against best memory per path length","search.rs forward"),
  ("lower bound on the final path length","search.rs minimum_path_length"),
  ("final Pareto filter","search.rs search"),
  ("depth-first traversal with an explicit stack","scheduler/tree.rs Sweep")],
 ["(time, space) pairs of the returned list"])

prop("C04", "Multi-threaded search returns the same optimum under every interleaving",
 "For every well-formed non-empty input, every thread count and every task bound, the deterministic multi-threaded search without a timeout returns the same set of (time, space) pairs as an exhaustive optimum, whatever the thread interleaving. It always terminates: no interleaving deadlocks or panics.",
 ["schedules","inputs","configurations"],
 "all interleavings of the worker threads at their synchronisation points, for all small inputs, thread counts and task bounds",
 "No existing test starts the multi-threaded search; a lost or overwritten best result needs two workers to exchange intermediate bounds in a particular order.",
 ["search/threaded.rs","search.rs"],
 [("shared best-memory table, periodically synchronised","search/threaded.rs update"),
  ("merge of a finished task's results","search/threaded.rs task"),
  ("search tree split at the first step, rest in one last task","search/threaded.rs search")],
 ["(time, space) pairs of the returned list","termination of the call"],
 [("best_memory","shared lower envelope of found results","search/threaded.rs search"),("results","shared best schedule per length","search/threaded.rs search")],
 "cfg(mbqc_mc) shortens the synchronisation interval so that small inputs reach it")

prop("C05", "Results form a strictly improving staircase in every mode",
 "In every mode, the returned list is sorted by strictly increasing time and strictly decreasing space, so no returned schedule is dominated by another one and no time occurs twice. This also holds when the search is interrupted by a timeout, filtered probabilistically, or run on several threads.",
 ["inputs","configurations","schedules"],
 "all inputs x all modes x all interleavings, timeout instants and accept decisions",
 "No test looks at the list that the user-facing call returns; dominated entries only appear for particular discovery orders.",
 ["search.rs","search/threaded.rs","interface.rs"],
 [("final filter over best memory per time","search.rs search"),("sort by time","search.rs search")],
 ["order and (time, space) pairs of the returned list"])

prop("C06", "Without search, the single time-optimal schedule is returned",
 "For every well-formed input, a run that does not search returns exactly one schedule. Each of its steps measures every node whose dependencies were all measured in earlier steps, so its length is the length of the longest dependency chain, which no valid schedule can beat.",
 ["inputs","configurations"],
 "all spatial graphs x all partial time orderings, whatever the other options are",
 "The time-optimal entry point is not called by any test.",
 ["search.rs","interface.rs","scheduler/time.rs"],
 [("greedy loop over the measurable set","search.rs get_time_optimal"),("dispatch on the search flag","interface.rs run")],
 ["Vec<Path> returned by interface::run with do_search=false"])

prop("C07", "A timeout ends the search promptly and keeps what was found",
 "If the timeout expires at any point of a search, the call returns normally after boundedly many further steps per worker, and what it returns is at least as good as every complete schedule the search had recorded before; tasks that were still waiting for a thread are not searched any more. A timeout that expires before anything was found gives an empty list instead of an error, and one that expires after the search finished, or is never reached, changes nothing.",
 ["schedules","inputs","configurations"],
 "every instant (scheduling point) at which the timer can expire, for single- and multi-threaded, deterministic and probabilistic searches",
 "The timer tests depend on wall-clock time and are excluded; no test runs a search with a timeout.",
 ["search.rs","search/threaded.rs","timer.rs"],
 [("timer polled after each step","search.rs do_search"),("timer polled at each synchronisation","search/threaded.rs update"),("results merged also after a timeout","search/threaded.rs task")],
 ["returned list as a function of the expiry instant","number of accept-function calls after expiry"],
 None, "cfg(mbqc_mc) shortens the synchronisation interval so that small inputs reach it")

prop("C08", "Probabilistic search omits exactly what the accept function rejects",
 "With an accept function that answers every question about a step with certainty, the probabilistic search returns the optimal trade-off among exactly those schedules of which no step was rejected; in a multi-threaded search the first step is exempt, as it may be taken unconditionally. In particular an always-accepting function gives the result of the deterministic search, and an always-rejecting one gives no result on a single thread.",
 ["inputs","configurations","schedules"],
 "all small inputs x accept functions that reject any single step situation, any pair, or all but one, and all accept/reject answer sequences up to a length",
 "No test runs the probabilistic search at all.",
 ["search.rs","search/threaded.rs","probabilistic.rs"],
 [("accept test in the forward step","search.rs probabilistic_forward"),("skip of a rejected state","scheduler/tree.rs skip_current")],
 ["(time, space) pairs of the returned list as a function of the accept answers"])

prop("C09", "The accept function is asked with the documented quantities",
 "Every time the accept function is consulted about a step, it is told the total number of nodes, how many nodes are left to measure after the step, the qubits in memory after the step and before it, the peak before it, the lowest space of any complete schedule already found, and the lowest space of the schedules found that are not longer than the current one must at least become (its steps so far; one more if nodes remain; two more if some of them are still blocked). Before anything has been found the latter two are the largest representable value.",
 ["inputs","histories"],
 "every call of the accept function in every search of every small input and accept/reject history",
 "The accept function's arguments are not observed by any test; a wrong count only bends the search heuristic.",
 ["search.rs","search/threaded.rs","probabilistic.rs","scheduler/time.rs"],
 [("argument assembly","search.rs probabilistic_forward"),("remaining node count","scheduler/time.rs num_remaining_nodes"),("memory before the step read before advancing","search.rs do_probabilistic_search")],
 ["arguments received by a custom accept function"])

prop("C10", "Single-threaded runs are reproducible and honour accept probabilities",
 "A single-threaded probabilistic search with a fixed seed makes the same sequence of decisions and returns the same result every time it is run. A step with accept probability of at least 1 is always taken, one with probability 0 never, and one with probability p in between is taken with frequency p over seeds. Without a seed, the decisions are not the same in every call. With fewer than two threads the accept function is only ever called on the caller's thread.",
 ["inputs","configurations","histories"],
 "all small inputs x seeds x accept probabilities, each run repeatedly",
 "No test uses the seeded search.",
 ["search.rs","interface.rs","probabilistic.rs"],
 [("generator seeded once per search","search.rs do_probabilistic_search"),("comparison with a uniform sample","search.rs probabilistic_forward"),("single-threaded branch below two threads","search.rs search")],
 ["returned list and trace of accept-function calls for equal seeds"])

prop("C11", "Built-in accept functions compute their documented formulas",
 "The default accept function and its parametrised variant return, for all argument values and parameters, exactly the value of the formula given in their documentation, in particular 0 when the memory needed already exceeds the lowest space found. The default function equals the parametrised one with parameters (0, 2, 1, 1, 3, 1), and a custom function is passed through unchanged.",
 ["inputs","configurations"],
 "a complete grid of argument values x a complete grid of parameter values",
 "The formulas are documented in doc-tests marked ignore and are never evaluated by a test.",
 ["probabilistic.rs"],
 [("builtin formula","probabilistic.rs builtin_heavyside"),("parametrised formula","probabilistic.rs create_parametrized_heavyside"),("dispatch","probabilistic.rs get_accept_func")],
 ["return value of the accept function"])

prop("C12", "Iterating the scheduler visits every valid schedule exactly once",
 "Iterating over a scheduler, or over the time ordering alone, visits every valid schedule exactly once, reports the correct peak space at its end, and nothing else is reported as complete. Forward and backward moves are balanced, and the schedules reachable from the successive first steps partition the set of all schedules. The same holds for an iteration that starts at a state reached by explicit steps: it visits exactly the completions of those steps.",
 ["inputs"],
 "all spatial graphs x all partial time orderings up to a size",
 "The unit tests count paths for seven fixed orderings; the proptest compares the iterator with a re-split copy of itself.",
 ["scheduler.rs","scheduler/tree.rs","scheduler/time.rs","scheduler/combinatoric.rs"],
 [("powerset partition of the measurable set","scheduler/combinatoric.rs Partition::next"),("stack of previous states","scheduler/tree.rs Sweep::next"),("leaf detection","scheduler.rs at_leaf")],
 ["sequence of forward/backward items of the iterator"])

prop("C13", "Manual scheduling accepts exactly the legal measurement sets",
 "In every reachable state of a manually driven schedule, the reported measurable set is exactly the unmeasured nodes all of whose dependencies have been measured, and an instruction is accepted if and only if it is a duplicate-free subset of it. A rejected instruction is reported as an error naming the offending nodes, never as a panic, and leaves the state unchanged; a non-in-place instruction never changes the state it starts from. The reported completeness, remaining-node count and existence of blocked nodes agree with the state.",
 ["inputs","histories"],
 "all reachable states of all small inputs x all instruction lists over the nodes, legal and illegal",
 "One unit test tries four single-node instructions on one ordering.",
 ["scheduler/time.rs","scheduler.rs"],
 [("partition check of the instruction against the measurable set","scheduler/time.rs partition"),("dependency counter update","scheduler/time.rs update_unchecked"),("time checked before space is touched","scheduler.rs focus_inplace")],
 ["results and accessor values of the manual scheduling interface"],
 [("deps_counter","open dependencies of blocked nodes","scheduler/time.rs"),("measurable","currently legal nodes","scheduler/time.rs")])

prop("C14", "Memory accounting follows the initialise/measure state machine",
 "For every sequence of measurement steps applied to the spatial structure alone, each node's state (uninitialised, initialised, measured), the current memory and the peak memory equal those of the documented life cycle: measuring initialises the node and its neighbours, frees the node, never re-initialises a measured node, and never lowers the peak. Measuring a measured node is reported as an error naming it, and a non-in-place step leaves the original unchanged.",
 ["inputs","histories"],
 "all reachable node-state configurations of all small graphs x all measurement steps from each of them",
 "One unit test performs two steps on one graph with hand-written expectations.",
 ["scheduler/space.rs"],
 [("state transitions","scheduler/space.rs measure/initialize"),("peak and release","scheduler/space.rs update_memory")],
 ["nodes(), current_memory(), max_memory() after each step"],
 [("nodes","life-cycle state per qubit","scheduler/space.rs Graph")])

prop("C15", "Input graphs are built faithfully from edge lists and renamings",
 "Building the spatial structure from an edge list with checking enabled yields exactly the undirected simple graph of those edges under the given renaming: symmetric neighbour lists without loops or duplicates, whatever the order, direction and multiplicity of the edges; without checking, the same holds for lists without loops and duplicates. Building a schedule from a partial ordering with a renaming equals building it from the renamed ordering, and a dependency buffer can be reused for another ordering without leaking information from the first.",
 ["inputs"],
 "all edge lists up to a length over up to four nodes x renamings; all ordered pairs of small orderings sharing a buffer",
 "One unit test builds one four-node graph in four ways.",
 ["scheduler/space.rs","scheduler/time.rs","scheduler.rs"],
 [("loop and multi-edge check","scheduler/space.rs new_body"),("renaming","scheduler.rs update macro"),("dependents overwritten per node","scheduler/time.rs from_dependency_graph")],
 ["neighbour lists; behaviour of the resulting schedule"])

prop("C16", "Command line and file interface give the library's result",
 "For every input, format combination and option combination, the command-line program and the file-based call write to the requested output file, creating missing directories and replacing previous content completely, exactly what the in-memory call returns for the same inputs and options, and the file can be read back in the chosen format. If the result cannot be written completely, this is reported as an error. Flags for searching, timeout, thread count, task bound and probabilistic mode each have exactly their documented effect.",
 ["inputs","configurations"],
 "all small inputs x all combinations of the two formats on three files x all flag combinations",
 "No test touches the file interface or the binary.",
 ["interface.rs","cli.rs","main.rs"],
 [("format dispatch","interface.rs serialize_to_file/deserialize_from_file"),("argument mapping","cli.rs parse, main.rs main")],
 ["content of the output file; exit status of the program"])

prop("C17", "The timer fires only after its duration and never blocks its owner",
 "For every interleaving of starting, polling, expiring, spurious wake-ups and dropping, the timer reports finished only if it was started and its duration has elapsed, does report it once the expiry has been processed, and never takes it back. Dropping it at any time, before, while or after it runs, returns without waiting for the remaining duration and without deadlock.",
 ["schedules","histories"],
 "all interleavings of the owner, pollers and the timer thread at their synchronisation points, with the expiry and spurious wake-ups at every possible instant",
 "The two timer tests rely on 10 ms wall-clock margins, are flaky, and are excluded from the stable set.",
 ["timer.rs"],
 [("condition wait with timeout and a dropping flag","timer.rs start"),("notify and join on drop","timer.rs drop"),("finished flag","timer.rs finished")],
 ["return values of finished(); termination of drop"],
 [("pair","dropping flag and condition variable","timer.rs Timer"),("finished","lock-free expiry flag","timer.rs Timer")])

prop("C18", "The task bound limits the number of parallel tasks",
 "A multi-threaded search splits off at most as many tasks as the given bound, plus one task for all the rest, for every bound including zero, and creates at most the requested number of worker threads. Below the bound, and without one, every first step is a task of its own, and tasks can really run at the same time on different threads. Every first step is explored by exactly one task, so the result does not depend on the bound.",
 ["inputs","configurations"],
 "all small inputs x all task bounds from zero to beyond the number of first steps x thread counts, deterministic and probabilistic",
 "No test starts the multi-threaded search.",
 ["search/threaded.rs","interface.rs"],
 [("task counter compared with the bound","search/threaded.rs search"),("remaining-search task","search/threaded.rs search")],
 ["number of jobs given to the pool; accept-function calls per first step; returned list"])

prop("C19", "Unreadable inputs fail cleanly and leave the output file alone",
 "If an input file is missing, truncated at any byte, not a value of the expected kind, or the input format name is unknown, the file-based call returns an error (and the program exits with a failure status), and an existing output file keeps its content byte for byte. An unknown output format is reported as an error without creating or changing the output file.",
 ["fault_sequences","inputs","configurations"],
 "every truncation point of every input file in both formats, missing files, swapped files and unknown format names",
 "No test touches the file interface.",
 ["interface.rs","main.rs"],
 [("inputs are read before the output is created","interface.rs run_serialized"),("unknown format error before opening","interface.rs serialize_to_file")],
 ["returned error / exit status; bytes of the output file"])

prop("C20", "Skipping during traversal removes exactly the skipped subtree",
 "If the traversal is told to skip the state it has just moved to, every schedule that starts with the steps leading to that state is left out and every other schedule is still visited exactly once, in the same order, for any combination of skips. Skipping at the root reports an error and ends nothing else.",
 ["inputs","histories"],
 "all subsets of skipped states for all small inputs (all single skips and all pairs for the larger ones)",
 "The tests skip only where branch-and-bound happens to skip and compare with a copy of the same traversal.",
 ["scheduler/tree.rs","scheduler.rs","scheduler/time.rs"],
 [("stack pop on skip","scheduler/tree.rs skip_current"),("parent keeps its own position among the alternatives","scheduler/tree.rs next")],
 ["visited schedules; current state and stack of the traversal"])
prop("C21", "More parallel steps are tried first",
 "At every state of the search, measuring everything that can be measured is tried first, and never a larger step after a smaller one. So the first complete schedule that is visited is a time-optimal one, and a single-threaded search that is interrupted at any point, if it returns anything, returns a schedule with the smallest possible number of steps.",
 ["inputs","schedules","configurations"],
 "all spatial graphs x all partial time orderings x every instant of interruption",
 "The documentation of interface::run promises the order of the search and with it what a timeout leaves, but the tests compare only complete searches, whose result does not depend on the order.",
 ["scheduler/combinatoric.rs","scheduler/tree.rs","search.rs","search/threaded.rs"],
 [("subsets in order of decreasing size","scheduler/combinatoric.rs Partition"),("depth-first traversal","scheduler/tree.rs Sweep")],
 ["order of the visited states; questions to the accept function; list returned after a timeout"])

prop("C22", "Logging does not influence the search",
 "Whether log output is enabled, at which level, and whether it can be written, never changes what a call returns or writes, and never makes it block or fail, in any mode and under any thread interleaving.",
 ["configurations","inputs","schedules"],
 "all small inputs x all modes x all log levels and destinations x all interleavings",
 "The tests run without a subscriber, so the arguments of the log statements, some of which take locks, are never evaluated.",
 ["search.rs","search/threaded.rs","main.rs","interface.rs"],
 [("log statements inside the search, some lock the shared table","search/threaded.rs task, update"),("installation of the subscriber","main.rs main")],
 ["returned list; output file; termination of the call with a subscriber installed"])

prop("C23", "Calls are independent of each other",
 "What a call returns does not depend on which calls were made before it in the same process, how they ended (completely, by a timeout, or by a panic of the accept function), which other calls run at the same time in other threads, or which calls the accept function itself makes while it is asked.",
 ["histories","schedules","inputs","configurations"],
 "all sequences of calls up to a length, and all interleavings of concurrent calls, over a set of inputs and modes",
 "Every test makes its calls on its own scheduler in an otherwise idle process and never repeats one after an interrupted or failed call.",
 ["interface.rs","search.rs","search/threaded.rs","timer.rs","scheduler.rs"],
 [("all state of a search is created by the call","interface.rs run, search/threaded.rs search"),("a timer per search","timer.rs Timer")],
 ["returned lists of a sequence of calls, and of concurrent calls"])

prop("C24", "Nothing is left behind when a call ends",
 "When a call ends, normally, by its timeout, or by a panic of the accept function, the accept function is not asked any more and is dropped, and every thread that the call has started ends by itself, at once: it neither waits for the remaining timeout nor for anything else.",
 ["schedules","configurations","histories"],
 "all interleavings of the worker threads, the timer thread and the caller, for all small inputs, thread counts, task bounds and timeouts",
 "No test looks at threads or at owned resources after a call.",
 ["timer.rs","search/threaded.rs","interface.rs","search.rs"],
 [("timer dropped with the search","timer.rs drop"),("pool joined at the end of the search","search/threaded.rs search"),("accept function owned by the call","interface.rs run")],
 ["threads of the process, drops and calls of the accept function after the call has returned"])
prop("C25", "Tree traversal and set partition work for everything that fits them",
 "The traversal works for every tree that implements its trait, not only for the schedulers: it visits every node exactly once, in depth-first order, returns the item of each node on the way down and its leaf item on the way up, always knows the current node and the path to it, and after skipping at any point it continues with the parent. The partition iterator yields every division of a set into two parts exactly once, keeps the elements of any kind of collection, also repeated ones, and a copy made in the middle continues like the original.",
 ["inputs","histories"],
 "all ordered trees up to a size x all reachable states of the traversal x moving on or skipping; all sets up to a size, all vectors with repetitions up to a length",
 "The tests use the traversal only with the library's own schedulers, and the partition only inside them.",
 ["scheduler/tree.rs","scheduler/combinatoric.rs"],
 [("current node and stack","scheduler/tree.rs Sweep"),("power set over positions","scheduler/combinatoric.rs Partition")],
 ["items of Sweep, current(), stack(), skip_current(); items of Partition"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
