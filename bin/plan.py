"""Which engines decide which property, and how the engines are built."""
import glob, hashlib, os


def seq(profile):
    def f(verif, target):
        d = os.path.join(target, "seq-" + profile)
        prof = ["--release"] if profile == "release" else ["--profile", profile]
        return ([(["cargo", "build", "--offline", "--locked", "--manifest-path", verif + "/seq/Cargo.toml",
                   "--target-dir", d] + prof, {})],
                os.path.join(d, profile, "mcseq"),
                {"MC_CLI": os.path.join(d, profile, "mbqc_cli"), "MC_PROFILE": profile})
    return f


def conc(interval):
    """the crate linked to the standard library with the controlled scheduler; threads
    synchronise after that many steps; "real": as many as without the cfg"""
    def f(verif, target):
        d = os.path.join(target, f"conc-{interval}")
        h = hashlib.sha256()
        for p in sorted(glob.glob(verif + "/conc/mc*/src/*.rs")) + [verif + "/conc/wrap.sh"]:
            h.update(open(p, "rb").read())
        e = {"MC_OUT": os.path.join(d, "release"),
             "RUSTC_WRAPPER": verif + "/conc/wrap.sh",
             # makes cargo notice a change of the controlled library
             "RUSTFLAGS": f'--cfg mc_v="{h.hexdigest()[:12]}"'}
        if interval == "real":
            e["MC_REAL"] = "1"
        else:
            e["MBQC_MC_UPDATE_INTERVAL"] = str(interval)
            e["RUSTFLAGS"] += " --cfg mbqc_mc"
        base = ["cargo", "build", "--offline", "--locked", "--release", "--manifest-path",
                verif + "/conc/Cargo.toml", "--target-dir", d]
        return ([(base + ["-p", "mcstd", "-p", "mcstdq"], e), (base, e)],
                os.path.join(d, "release", "mcconc"), {})
    return f


ENGINES = {
    "seq-release": seq("release"),
    "seq-checked": seq("checked"),
    "conc-1": conc(1),
    "conc-3": conc(3),
    "conc-real": conc("real"),
}
SEQ = ["seq-release", "seq-checked"]
CONC = ["conc-1", "conc-3"]
# searches large enough for the real interval of synchronisation
REAL = ["conc-real"]

A_SMALL = ("small-scope hypothesis: the bounds listed per section (number of nodes, deviations, "
           "preemptions); larger instances only as structured families")
A_MODEL = ("the reference model (crate model, written from the definitions and checked against its own "
           "brute force) says what a schedule is and what it costs")

A_CONC = ("interleavings at the granularity of synchronisation operations and atomic accesses, sequentially "
          "consistent memory; the thread pool's own operations block, but are not preempted; threads synchronise "
          "after 1 or 3 steps instead of 1000 (cfg mbqc_mc), so that small searches communicate; conc-real, where it is "
          "listed, is the code without that cfg on searches of several thousand steps")
T_SEQ = "exhaustive enumeration of small inputs on the real code against an explicit-state reference model"
T_CONC = ("stateless model checking: all interleavings of the real code within bounds, under a controlled "
          "scheduler with virtual time, judged by an explicit-state reference model")
T_BOTH = T_SEQ + "; " + T_CONC

PLAN = {}


def plan(pid, engines, rule, assumptions=(), **kw):
    PLAN[pid] = dict(engines=engines, rule=rule, assumptions=[A_SMALL, A_MODEL] + list(assumptions), **kw)


plan("C01", SEQ + CONC + REAL, "every instance of the listed families in every mode of the call; every returned schedule is "
     "replayed on the model; nontrivial: calls that returned several schedules; several threads: every interleaving within the bounds of each section",
     [A_CONC], technique=T_BOTH)
plan("C02", SEQ + CONC + REAL, "as C01; the costs of every returned schedule are recomputed node by node; several threads: every interleaving within the bounds of each section",
     [A_CONC], technique=T_BOTH)
plan("C03", SEQ, "every instance of the listed families; the returned pairs are compared with the frontier found by "
     "exploring all reachable sets of measured nodes; nontrivial: frontiers with several points")
plan("C05", SEQ + CONC + REAL, "as C01, plus all accept/reject answer sequences up to the listed number of deviations; the "
     "list must be strictly monotone; several threads: every interleaving within the bounds of each section",
     [A_CONC], technique=T_BOTH)
plan("C06", SEQ, "every instance of the listed families with search off and every combination of the other options; "
     "compared with the as-soon-as-possible schedule of the model")

plan("C08", SEQ + CONC, "every instance of the listed families x accept functions that reject one step situation, any pair of "
     "them, or all but one; compared with the optimum over the schedules of the model that avoid the rejected ones; several threads: every interleaving within the bounds of each section",
     [A_CONC], technique=T_BOTH)
plan("C09", SEQ + CONC, "all accept/reject answer sequences up to the listed number of deviations; every question is compared "
     "with the set of situations of the model that the answers given so far allow; several threads: every interleaving within the bounds of each section",
     [A_CONC], technique=T_BOTH)
plan("C10", SEQ, "every instance of the listed families x seeds, each run twice with the decisions logged; probabilities at "
     "and around 0 and 1; frequency of acceptance over a fixed, complete range of seeds; the calling thread of "
     "every question")
plan("C11", SEQ, "complete grids of arguments x parameters, each value compared with the documented formula",
     ["grid: the values listed in the section rules"])
plan("C12", SEQ, "every instance of the listed families; the complete event stream of the iterator is compared with all "
     "paths of the model")
plan("C13", SEQ, "every reachable state of every instance of the listed families x every instruction up to a length (duplicates, "
     "unknown and foreign nodes included)")
plan("C14", SEQ, "every graph x every sequence of measurement steps, compared with the life cycle of the model")
plan("C15", SEQ, "every edge list up to a length x every renaming; every ordering x every renaming; every pair of orderings for "
     "a reused buffer")
plan("C16", SEQ, "every instance of the listed families x all format combinations x flag combinations x states of the output "
     "path, by the file based call and by the program; what is written is read back and compared with the call in memory; a full "
     "disk after every number of bytes; timeout, threads and task bound of the program as seen from the outside",
     ["the accept function of the program cannot be replaced: -p is compared with the built-in filter's distribution over seeds"])
plan("C19", SEQ, "every instance of the listed families x every truncation, missing file, unknown format and value of another kind, "
     "for either input, by the file based call and by the program; the bytes of an existing output are compared",
     technique="exhaustive fault enumeration on the real code (every truncation point, every kind of unreadable input)")
plan("C20", SEQ, "every instance of the listed families x every set of skips up to the listed size, compared with the pruned "
     "event stream of the model")

plan("C04", CONC + REAL, "every instance of the listed families x thread counts x task bounds, every interleaving within the bounds; "
     "each must end, without a panic, with the frontier of the model; nontrivial: cases with several interleavings",
     [A_CONC], technique=T_CONC)
plan("C07", ["seq-release"] + CONC + REAL, "expiry of the timeout at every point of every interleaving within the bounds; immediate, unreachable and "
     "extreme timeouts; one worker: results must improve monotonically with the point of expiry",
     [A_CONC, "virtual time: the timeout expires at any point, whatever the speed of the machine"], technique=T_CONC)
plan("C17", CONC[:1], "every sequence of operations on a timer up to the listed length x durations, every interleaving "
     "with the timer's thread, time jumps and spurious wake-ups within the bounds",
     [A_CONC], technique=T_CONC)
plan("C18", CONC, "every instance of the listed families x thread counts x task bounds, every interleaving within the bounds; "
     "first steps that the accept function is not asked about, and the threads that are started, are counted",
     [A_CONC], technique=T_CONC)

plan("C21", SEQ + CONC, "every instance of the listed families: sizes of the steps tried at every state, the first complete "
     "schedule, and the result when interrupted after every number of questions; one worker: expiry of the timeout at every point "
     "of every interleaving within the bounds", [A_CONC], technique=T_BOTH)
plan("C22", SEQ + CONC, "every instance of the listed families in every mode, with and without log output at every level, in memory, "
     "by the file based call and by the program; several threads: every interleaving within the bounds of each section, with "
     "a subscriber that evaluates every field", [A_CONC], technique=T_BOTH)
plan("C23", SEQ + CONC, "every sequence of calls of the listed kinds up to the listed length, each compared with the same call alone; "
     "concurrent calls: every interleaving within the bounds of each section", [A_CONC], technique=T_BOTH)
plan("C24", SEQ + CONC, "every instance of the listed families x modes x ends of the call (complete, timeout, panic), looking at "
     "threads, files and owners of the accept function afterwards; several threads: every interleaving within the "
     "bounds of each section", [A_CONC], technique=T_BOTH)

plan("C25", SEQ, "every ordered tree of the listed sizes (user-defined, not a scheduler): every reachable state of the traversal x moving on and "
     "skipping, compared with a reference state machine; every set of the listed sizes in several kinds of collections; nontrivial: trees with "
     "several branches, sets with several elements",
     technique="explicit-state exploration of the real traversal over all user-defined trees up to a size, in lockstep with a reference state machine")

HOOKS = dict(guard="cfg mbqc_mc",
             enable='RUSTFLAGS="--cfg mbqc_mc" MBQC_MC_UPDATE_INTERVAL=1 (or 3), see conc() in bin/plan.py',
             source_commits=["c50d388954f49c425181f067dfdd92a5b8698b11"])
NOT_APPLICABLE = {}
NOTES = "See DESIGN.md. Replay a violation with: python3 bin/check.py --replay FILE"
