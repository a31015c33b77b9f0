#!/usr/bin/env python3
"""seed.py ID...: (re)build a planted bug from /verif/seeded/ID/spec.py-like files in /tmp/seed/specs,
confirm it in a scratch copy of /repo, and keep it in /verif/seeded/ID.

A spec defines: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (main.rs), optional PROFILE."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
WT = "/tmp/seed/wt"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.exists(WT):
        sh(f"cp -a /repo {WT}")
    sh(f"git -C {WT} fetch -q /repo HEAD && git -C {WT} checkout -q -f FETCH_HEAD && git -C {WT} clean -fdq")
    os.makedirs("/tmp/seed/vp", exist_ok=True)
    for f in ("env.sh", "test.sh", "build.sh"):
        s = open("/opt/vp/" + f).read().replace("/repo", WT).replace("/opt/vp/env.sh", "/tmp/seed/vp/env.sh")
        s = s.replace(WT + "/results", "/repo/results")
        open("/tmp/seed/vp/" + f, "w").write(s)


def tests():
    p = sh("bash /tmp/seed/vp/test.sh /tmp/seed/t.json")
    try:
        r = json.load(open("/tmp/seed/t.json"))
    except Exception:
        return ["no result: " + p.stdout[-1500:]]
    txt = json.dumps(r)
    passed = r.get("passed") or r.get("pass") or []
    return [t for t in STABLE if t not in passed]


def one(i):
    spec = {}
    exec(open(f"/tmp/seed/specs/{i}.py").read(), spec)
    fresh()
    d = f"/tmp/seed/out/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/main.rs", "w").write("#![allow(unused)]\nmod util;\nuse util::*;\n" + spec["MAIN"])
    shutil.copy(HERE + "/demo/util.rs", d)
    demo = open(HERE + "/demo/demo.sh").read().replace("PROFILE", spec.get("PROFILE", "debug"))
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    r0 = sh(f"bash {d}/demo.sh", cwd=WT)
    if r0.returncode != 0:
        print(i, "demo fails on the clean tree", r0.returncode, r0.stdout[-2500:])
        return False
    for f, old, new in spec["EDITS"]:
        p = f"{WT}/mbqc_scheduling/src/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(i, f, "matches", s.count(old), "times:", old)
            return False
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {WT} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    b = sh("bash /tmp/seed/vp/build.sh")
    if b.returncode != 0:
        print(i, "does not build", b.stdout[-2500:])
        return False
    missing = tests()
    if missing:
        print(i, "breaks the tests", missing)
        return False
    r1 = sh(f"bash {d}/demo.sh", cwd=WT)
    if r1.returncode == 0:
        print(i, "demo passes with the patch", r1.stdout[-800:])
        return False
    print(i, "ok:", r1.returncode, r1.stdout.strip()[-300:].replace("\n", " | "))
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]),
              open(d + "/meta.json", "w"), indent=1)
    t = f"/verif/seeded/{i}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t)
    return True


if __name__ == "__main__":
    bad = [i for i in sys.argv[1:] if not one(i)]
    print("not kept:", bad)
