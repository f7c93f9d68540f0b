#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: builds what the check needs from /repo and runs it.

Exit 0: the property held on everything explored.  Exit 1: a VIOLATION line was printed.
Anything else is an error of the check itself (for example the library does not compile).
"""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402

ENGINE = ["ref.cpp", "scene.cpp", "valid.cpp", "oracle.cpp", "pbt_main.cpp"]
# property -> variant
VARIANT = {"C17": "san", "C18": "san"}
# further sources of a harness
EXTRA = {"C18": ["req.cpp", "repo:python/bezier_com_traj.cpp"], "C21": ["req.cpp"], "C14": ["req.cpp"], "C16": ["req.cpp"], "C17": ["req.cpp"] + ["c17_c%d.cpp" % i for i in (11, 12, 13, 19, 20)]}


# a second binary of the same property: variant, its families
SECOND = {"C14": ("tsan", ["races"])}
# link flags
LINK = {"C18": ["-lboost_python312", "-leigenpy", "-lpython3.12"]}


def sources(pid):
    return [pid.lower() + ".cpp"] + EXTRA.get(pid, []) + ENGINE


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    extra = sys.argv[3:]
    try:
        seed = str(int(seed))
    except ValueError:
        seed = str(abs(hash(seed)) % (1 << 31))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev) and not any(a == "--replay" for a in extra):
        os.remove(ev)
    second = SECOND.get(pid)
    targets = [(pid, VARIANT.get(pid, "fast"), sources(pid), LINK.get(pid, []))]
    if second:
        targets.append((pid + "-" + second[0], second[0], sources(pid), LINK.get(pid, [])))
    try:
        bins = build.build_many(targets)
    except RuntimeError as e:
        print("check %s cannot be built: %s" % (pid, e))
        return 2
    sys.stdout.flush()
    args = ["--tier", tier, "--seed", seed, "--replay-dir", os.path.join(VERIF, "replays")] + extra
    if second and "--replay" in extra:
        with open(extra[extra.index("--replay") + 1]) as f:
            if json.load(f).get("family") in second[1]:
                return subprocess.call([bins[targets[1][0]]] + args, env=build.env(), cwd=VERIF)
    rc = subprocess.call([bins[pid]] + args + ["--evidence", ev], env=build.env(), cwd=VERIF)
    if second and rc == 0 and "--replay" not in extra:
        ev2 = ev + ".second"
        rc = subprocess.call([bins[targets[1][0]]] + args + ["--evidence", ev2], env=build.env(), cwd=VERIF)
        if rc not in (0, 1):  # the sanitizer cannot run here
            print("note: the %s binary does not run here (status %d)" % (second[0], rc))
            rc = 0
        if os.path.exists(ev2):
            merge(ev, ev2)
            os.remove(ev2)
    return rc


def merge(ev, ev2):
    """Adds what the second binary covered to the evidence of the first one."""
    with open(ev) as f:
        a = json.load(f)
    with open(ev2) as f:
        b = json.load(f)
    ca, cb = a["coverage"], b["coverage"]
    for k in ("evaluations", "discarded", "nontrivial", "distinct_nontrivial"):
        ca[k] += cb[k]
    for k, v in cb["labels"].items():
        ca["labels"][k] = ca["labels"].get(k, 0) + v
    ca["samples"] = ca["samples"][:8] + cb["samples"][:4]
    a["assumptions"] += [x for x in b["assumptions"] if x not in a["assumptions"]]
    a["wall_s"] += b["wall_s"]
    a["violations"] += b["violations"]
    with open(ev, "w") as f:
        json.dump(a, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
