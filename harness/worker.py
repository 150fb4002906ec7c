"""Runs cases of one property against one variant of the build.

worker.py run PROP VARIANT K M TIER SEED OUT PROGRESS   every law, cases i = K mod M
worker.py shrink PROP LAW FILE SECONDS                   shrinks FILE's case in place
worker.py replay PROP LAW FILE                           exit 0: holds, 1: fails
"""

import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import numpy as np

import pbt


def load(prop):
    return importlib.import_module(f"props.{prop.lower()}").L


def module():
    import GPRpy
    return GPRpy


def quiet():
    """The solvers print; keep stdout for nobody."""
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    os.dup2(devnull, 1)
    return keep


def run(prop, variant, k, m, tier, seed, out, progress):
    L = load(prop)
    G = module()
    quiet()
    np.seterr(all="ignore")
    res = {"laws": {}}
    pfd = os.open(progress, os.O_RDWR | os.O_CREAT)
    for law in L.laws:
        if law.variant != variant or \
                not law.name.startswith(os.environ.get("VERIF_LAW", "")):
            continue
        n = law.thorough if tier == "thorough" else law.quick
        st = {"evaluations": 0, "nontrivial": [], "labels": {}, "samples": [],
              "skipped": 0, "failure": None}
        res["laws"][law.name] = st
        t0 = time.time()
        for i in range(k, n, m):
            os.pwrite(pfd, f"{law.name} {i} {time.time():.3f}\n".ljust(120).encode(), 0)
            src = pbt.Src(rng=pbt.seeded(seed, law.name, i))
            msg = pbt.run_case(law, src, G)
            st["evaluations"] += 1
            for lab in src.labels:
                st["labels"][lab] = st["labels"].get(lab, 0) + 1
            if src.nontriv:
                st["nontrivial"].append(pbt.digest(src.rec))
            if len(st["samples"]) < 1 and src.nontriv and msg is None:
                st["samples"].append(pbt.plain(
                    dict(src.notes) or {"choices": [c[1] for c in src.rec][:12]}))
            if msg is not None:
                st["failure"] = {"index": i, "message": msg, "choices": src.rec,
                                 "notes": pbt.plain(src.notes)}
                break
        st["seconds"] = time.time() - t0
    os.pwrite(pfd, b"done".ljust(120), 0)
    with open(out, "w") as f:
        json.dump(res, f)


def replay(prop, name, path):
    L = load(prop)
    G = module()
    keep = quiet()
    np.seterr(all="ignore")
    law = L.get(name)
    with open(path) as f:
        case = json.load(f)
    src = source(case, name)
    msg = pbt.run_case(law, src, G)
    os.dup2(keep, 1)
    if msg is not None:
        print(msg)
        print(json.dumps(pbt.plain(src.notes), ensure_ascii=False))
        return 1
    return 0


def source(case, name):
    if case.get("choices") is None:
        return pbt.Src(rng=pbt.seeded(case["seed"], name, case["index"]))
    return pbt.Src(replay=[tuple(c) for c in case["choices"]])


def do_shrink(prop, name, path, seconds):
    L = load(prop)
    G = module()
    quiet()
    np.seterr(all="ignore")
    law = L.get(name)
    with open(path) as f:
        case = json.load(f)
    src = source(case, name)
    if pbt.run_case(law, src, G) is None:
        return 1
    end = time.time() + seconds
    last = {}

    def fails(rec):
        s = pbt.Src(replay=rec)
        msg = pbt.run_case(law, s, G)
        if msg is None:
            return None
        last[pbt.digest(s.rec)] = (msg, pbt.plain(s.notes))
        return s.rec

    best = pbt.shrink(fails, list(src.rec), lambda: time.time() < end)
    s = pbt.Src(replay=best)
    msg = pbt.run_case(law, s, G)
    if msg is None:
        return 1
    case.update(choices=best, message=msg, notes=pbt.plain(s.notes),
                shrunk=True)
    with open(path, "w") as f:
        json.dump(case, f, ensure_ascii=False, indent=1)
    return 0


if __name__ == "__main__":
    cmd, prop, *rest = sys.argv[1:]
    if cmd == "run":
        variant, k, m, tier, seed, out, progress = rest
        run(prop, variant, int(k), int(m), tier, seed, out, progress)
    elif cmd == "shrink":
        sys.exit(do_shrink(prop, rest[0], rest[1], float(rest[2])))
    elif cmd == "replay":
        sys.exit(replay(prop, rest[0], rest[1]))
