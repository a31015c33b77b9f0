#!/usr/bin/env python3
"""check.py PROP            run the check of one property (VERIF_TIER=quick|thorough)
check.py --build           build all engines
check.py --replay FILE     judge a recorded violation again

Builds the engines from /repo's working tree, runs those that decide PROP, and writes
evidence/PROP.json. Exit 0: held. Exit 1 and a VIOLATION line: broken. 2: the check broke.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN, ENGINES  # noqa: E402


def env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET",
              "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(name):
    """returns (name, path of the engine's executable, extra env) or raises"""
    cmds, exe, extra = ENGINES[name](VERIF, TARGET)
    for argv, e2 in cmds:
        e = env()
        e.update(e2)
        p = subprocess.run(argv, cwd=VERIF, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise RuntimeError(f"building {name} failed ({' '.join(argv)}):\n" + p.stdout[-6000:])
    if not os.path.exists(exe):
        raise RuntimeError(f"{exe} was not built")
    return name, exe, extra


def build_all(names):
    out = {}
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(build, n) for n in names]:
            try:
                n, exe, extra = f.result()
            except RuntimeError as e:
                die(str(e))
            out[n] = (exe, extra)
    print(f"built {', '.join(names)} in {time.time() - t:.0f} s", flush=True)
    return out


def run_one(exe, e, prop, tier, section, index, cwd):
    """judge a single case in its own process: (reproduced, text)"""
    try:
        p = subprocess.run([exe, "one", prop, tier, section, str(index)], env=e, cwd=cwd,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=400, errors="replace")
    except subprocess.TimeoutExpired:
        return True, "the case does not return"
    if p.returncode == 0:
        return False, p.stdout[-2000:]
    if p.returncode == 1:
        return True, p.stdout[-4000:]
    if p.returncode < 0 or p.returncode in (101, 134, 137, 139):
        return True, f"the process was killed ({p.returncode}) " + p.stdout[-4000:]
    return False, f"exit status {p.returncode}: " + p.stdout[-4000:]


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        build_all(sorted(ENGINES))
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        exe, extra = build_all([r["engine"]])[r["engine"]]
        e = env()
        e.update(extra)
        with tempfile.TemporaryDirectory(prefix="mbqcmc") as tmp:
            e["MC_TMP"] = tmp
            bad, text = run_one(exe, e, r["property"], r["tier"], r["section"], r["index"], tmp)
        print(text)
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    if len(sys.argv) != 2 or sys.argv[1] not in PLAN:
        die("usage: check.py PROP, PROP one of " + " ".join(sorted(PLAN)))
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = PLAN[prop]
    engines = [n for n in plan["engines"] if tier == "thorough" or n not in plan.get("thorough_only", [])]
    built = build_all(engines)
    sections, violations = [], []

    def broke(msg):
        """the engine gave no answer; what others have found counts all the same"""
        if not violations:
            die(msg)
        print(f"{msg}; reporting what was found before", flush=True)
    # time in which the engines explore; what is left then is reported as not explored
    explore = 540 if tier == "quick" else int(os.environ.get("MC_THOROUGH_S", "3600"))
    limit = 840 if tier == "quick" else 6 * 3600
    tmp = tempfile.mkdtemp(prefix="mbqcmc")
    try:
        for n in engines:
            exe, extra = built[n]
            e = env()
            e.update(extra)
            e["MC_TMP"] = tmp
            e["MC_SEED"] = str(seed)
            left = explore - (time.time() - t0)
            e["MC_BUDGET"] = str(int(max(20, left / (len(engines) - engines.index(n)))))
            e["MC_CASE_BUDGET"] = "60" if tier == "quick" else "600"
            out, slots = os.path.join(tmp, n + ".json"), os.path.join(tmp, n + ".slots")
            try:
                p = subprocess.run([exe, "run", prop, tier, out, slots], env=e, cwd=tmp,
                                   timeout=max(60, limit - (time.time() - t0)))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                broke(f"engine {n} ran out of time")
                break
            if rc in (0, 1):
                rep = json.load(open(out))
                for f in rep["failures"]:
                    violations.append(dict(f, engine=n, property=prop))
                for s in rep["sections"]:
                    s["engine"] = n
                    sections.append(s)
                continue
            # the engine itself died: did one of the cases it was judging kill it?
            cases = []
            if os.path.exists(slots) and rc not in (2, 3):
                raw = open(slots, "rb").read()
                for i in range(0, len(raw), 256):
                    s = raw[i:i + 256].split(b"\0")[0].decode(errors="replace")
                    if "\t" in s:
                        cases.append(s.split("\t"))
            found = False
            for section, index in cases:
                bad, text = run_one(exe, e, prop, tier, section, index, tmp)
                if bad:
                    violations.append(dict(engine=n, property=prop, section=section,
                                           index=int(index), tier=tier, why=text))
                    found = True
                    break
            if not found:
                broke(f"engine {n} ended with status {rc}")
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    tot = lambda k: sum(s[k] for s in sections)  # noqa: E731
    samples = [x for s in sections for x in s["samples"][:1]][:12]
    coverage = dict(
        states=tot("states"), transitions=tot("transitions"),
        traces_validated_against_impl=tot("validated"),
        evaluations=tot("cases_done"), distinct_nontrivial=tot("nontrivial"),
        rule=plan["rule"], samples=samples,
        exhaustive=tot("capped") == 0 and all(s["cases"] == s["cases_done"] for s in sections),
        capped=tot("capped"),
        sections=[{k: s[k] for k in ("engine", "section", "rule", "cases", "cases_done", "states",
                                     "transitions", "validated", "nontrivial", "capped", "wall_s")}
                  for s in sections])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=plan["assumptions"], wall_s=round(time.time() - t0, 1),
              violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {coverage['states']} states, {coverage['transitions']} transitions, "
          f"{coverage['traces_validated_against_impl']} executions compared, "
          f"{len(violations)} violations, {ev['wall_s']} s", flush=True)
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(VERIF, "replays", f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  " + str(v["why"])[:1500])
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
