"""check PROP [--replay FILE]: builds, searches, shrinks, reports."""

import importlib
import atexit
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import build as B

VERIF = B.VERIF
WORKERS = 8
STALL = 150       # seconds without progress on one case before it is stopped
SHRINK = 25       # seconds


def env(variant, dirs):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("OMP_", "OPENBLAS_", "KMP_", "GOMP_")):
            e.pop(k)
    e.update(PYTHONPATH=f"{dirs[variant]}:{B.REPO}/code/python",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_VARIANT=variant,
             MPLCONFIGDIR=f"{B.BUILD}/mpl", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    if variant.startswith("asan"):
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"],
                             capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(["gcc", "-print-file-name=libstdc++.so"],
                             capture_output=True, text=True).stdout.strip()
        e.update(LD_PRELOAD=f"{lib} {cxx}",
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:"
                              "allocator_may_return_null=1",
                 UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:"
                               "print_stacktrace=1")
    return e


def spawn(args, e, **kw):
    return subprocess.Popen([B.PY, "-X", "faulthandler", f"{HERE}/worker.py"] + args,
                            env=e, stdin=subprocess.DEVNULL,
                            cwd=f"{B.BUILD}/run", start_new_session=True, **kw)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def replay_once(prop, law, path, e, limit):
    """('holds'|'fails'|'crash'|'hang', text)"""
    p = spawn(["replay", prop, law, path], e, stdout=subprocess.PIPE,
              stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        stop(p)
        return "hang", f"no result within {limit} s"
    if p.returncode == 0:
        return "holds", ""
    if p.returncode == 1 and "Traceback (most recent call last)" not in out:
        return "fails", out
    if p.returncode < 0 or "ERROR: AddressSanitizer" in out or \
            "runtime error" in out:
        return "crash", f"signal {-p.returncode}: " + out[-3000:]
    return "error", out[-3000:]


def search(prop, laws, tier, seed, dirs):
    """Runs every law; returns (stats by law, failures)."""
    rundir = f"{B.BUILD}/run/{prop}.{os.getpid()}"
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    atexit.register(shutil.rmtree, rundir, True)
    os.makedirs(f"{B.BUILD}/mpl", exist_ok=True)
    stats, failures = {}, []
    for variant in dict.fromkeys(law.variant for law in laws):
        ncase = max((law.thorough if tier == "thorough" else law.quick)
                    for law in laws if law.variant == variant)
        m = min(WORKERS, max(1, ncase))
        e = env(variant, dirs)
        procs = []
        for k in range(m):
            out, prog = f"{rundir}/{variant}.{k}.json", f"{rundir}/{variant}.{k}.p"
            err = open(f"{rundir}/{variant}.{k}.err", "w+")
            procs.append([spawn(["run", prop, variant, str(k), str(m), tier, seed,
                                 out, prog], e, stdout=err,
                                stderr=err), out, prog, err, None])
        live = list(procs)
        while live:
            time.sleep(0.05)
            for p in list(live):
                if p[0].poll() is not None:
                    live.remove(p)
                    continue
                try:
                    with open(p[2], "rb") as f:
                        line = f.read().decode().split()
                    if len(line) == 3 and time.time() - float(line[2]) > STALL:
                        stop(p[0])
                        p[4] = "hang"
                        live.remove(p)
                except (OSError, ValueError):
                    pass
        for p, out, prog, err, why in procs:
            if p.returncode == 0 and os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
                for name, st in res["laws"].items():
                    agg = stats.setdefault(name, {
                        "evaluations": 0, "nontrivial": set(), "labels": {},
                        "samples": [], "seconds": 0.0})
                    agg["evaluations"] += st["evaluations"]
                    agg["nontrivial"].update(st["nontrivial"])
                    agg["seconds"] = max(agg["seconds"], st["seconds"])
                    for lab, c in st["labels"].items():
                        agg["labels"][lab] = agg["labels"].get(lab, 0) + c
                    agg["samples"] += st["samples"]
                    if st["failure"]:
                        failures.append(dict(st["failure"], law=name,
                                             variant=variant, kind="fails"))
            else:
                # the process died, or was stopped, in some case
                err.seek(0)
                text = err.read()[-4000:]
                try:
                    with open(prog, "rb") as f:
                        line = f.read().decode().split()
                except OSError:
                    line = []
                if len(line) != 3:
                    raise RuntimeError(f"worker for {variant} did not start: "
                                       f"{p.returncode}\n{text}")
                failures.append({"law": line[0], "index": int(line[1]),
                                 "variant": variant, "choices": None,
                                 "kind": why or "crash",
                                 "message": f"{why or 'crash'}: exit status "
                                            f"{p.returncode}: {text}"})
            err.close()
    return stats, failures


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    sys.path.insert(0, HERE)
    L = importlib.import_module(f"props.{prop.lower()}").L
    laws = L.laws
    only = os.environ.get("VERIF_LAW")
    if only:
        laws = [x for x in laws if x.name.startswith(only)]
        L.laws = laws

    if "--replay" in sys.argv:
        path = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        with open(path) as f:
            case = json.load(f)
        dirs = B.build([case["variant"]])
        os.makedirs(f"{B.BUILD}/run", exist_ok=True)
        what, text = replay_once(prop, case["law"], path,
                                 env(case["variant"], dirs), 300)
        print(what, text)
        if what in ("fails", "crash", "hang"):
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 0

    variants = list(dict.fromkeys(law.variant for law in laws))
    try:
        dirs = B.build(variants)
    except B.BuildError as exc:
        print(f"build of /repo failed:\n{exc}", file=sys.stderr)
        return 2
    tb = time.time()
    stats, failures = search(prop, laws, tier, seed, dirs)

    # known findings: a probe of each listed input, never a filter on the laws
    known = 0
    for line in getattr(L, "known", lambda d, e, s: [])(dirs, env, spawn):
        known += 1
        print(f"KNOWN-FINDING: property={prop} {line}")

    violations = []
    rdir = f"{VERIF}/replays"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    done = set()
    unconfirmed = []
    for f in sorted(failures, key=lambda f: (f["law"], f["index"])):
        if f["law"] in done:
            continue
        path = f"{rdir}/{prop}-{f['law'].replace('@', '.')}-{f['index']}.json"
        case = {"property": prop, "law": f["law"], "variant": f["variant"],
                "seed": seed, "index": f["index"], "choices": f["choices"],
                "message": f["message"], "notes": f.get("notes")}
        with open(path, "w") as h:
            json.dump(case, h, ensure_ascii=False, indent=1)
        e = env(f["variant"], dirs)
        limit = 100 if f["kind"] == "hang" else 200
        got = [replay_once(prop, f["law"], path, e, limit)
               for _ in range(2 if f["kind"] == "hang" else 3)]
        retries = getattr(L, "retries", 0)
        if retries and f["kind"] != "hang":
            # races need not show every time: any repeat confirms
            while retries and not any(g[0] in ("fails", "crash") for g in got):
                got.append(replay_once(prop, f["law"], path, e, limit))
                retries -= 1
            got = [g for g in got if g[0] in ("fails", "crash")] or got
        if not all(g[0] in ("fails", "crash", "hang") for g in got):
            unconfirmed.append((f["law"], [g[0] for g in got], got[-1][1]))
            os.remove(path)
            continue
        done.add(f["law"])
        if f["kind"] == "fails" and len(violations) < 3:
            keep = open(path).read()
            p = spawn(["shrink", prop, f["law"], path, str(SHRINK)], e,
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                p.wait(timeout=SHRINK + 120)
            except subprocess.TimeoutExpired:
                stop(p)
            ok = p.returncode == 0 and replay_once(
                prop, f["law"], path, e, 200)[0] != "holds"
            if not ok:
                with open(path, "w") as h:
                    h.write(keep)
        with open(path) as h:
            case = json.load(h)
        violations.append((f["law"], path, case["message"]))
        print(f"{f['law']}: {case['message'][:1500]}")
        if case.get("notes"):
            print("  case:", json.dumps(case["notes"], ensure_ascii=False)[:1500])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    for law, kinds, text in unconfirmed:
        print(f"note: a failure of {law} did not repeat ({kinds}) {text[:500]}")

    rules = "; ".join(f"{law.name}: {' '.join(law.rule.split())}" for law in laws)
    samples = []
    for name, st in stats.items():
        samples += [{"law": name, "case": c} for c in st["samples"][:2]]
    ev = {
        "property": prop, "tier": tier,
        "seed": int(seed) if seed.lstrip("-").isdigit() else 0,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats.values()),
            "distinct_nontrivial": sum(len(s["nontrivial"]) for s in stats.values()),
            "rule": "A case is one run of one law on generated choices; it is "
                    "non-trivial unless the law marks it so (outside the domain, or "
                    "a degenerate input on which the law says nothing); distinct by "
                    "the digest of its choices. " + rules,
            "samples": samples or [{"note": "every law failed at once"}],
            "laws": {n: {"evaluations": s["evaluations"],
                         "distinct_nontrivial": len(s["nontrivial"]),
                         "labels": dict(sorted(s["labels"].items())),
                         "seconds": round(s["seconds"], 2)}
                     for n, s in stats.items()},
            "variants": variants,
            "known_findings": known,
        },
        "assumptions": getattr(L, "assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as h:
        json.dump(ev, h, ensure_ascii=False, indent=1)
    c = ev["coverage"]
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} cases, "
          f"{c['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations; build {tb - t0:.1f} s, "
          f"total {ev['wall_s']:.1f} s")
    if violations:
        return 1
    if unconfirmed and not violations:
        return 0
    return 0


if __name__ == "__main__":
    sys.exit(main())
