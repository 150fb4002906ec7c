#!/usr/bin/env python3
"""seed.py ID: confirms /verif/seeded/ID (patch, build, stable tests, demo) and
runs its property's check against it.  seed.py ID --edit FILE makes patch.diff
first from FILE: a json list of [path, old, new]."""
import json, os, subprocess, sys
R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    sid = sys.argv[1]
    d = f"/verif/seeded/{sid}"
    assert not sh(f"git -C {R} status --porcelain").stdout.strip(), "repo not clean"
    meta = json.load(open(f"{d}/meta.json"))
    if "--edit" in sys.argv:
        for path, old, new in json.load(open(sys.argv[sys.argv.index("--edit") + 1])):
            p = f"{R}/{path}"
            s = open(p, encoding="utf8").read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w", encoding="utf8").write(s.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        sh(f"git -C {R} checkout -- .")
    b = json.load(open("/opt/vp/BASELINE.json"))
    out = []
    try:
        sh("bash /opt/vp/build.sh")
        r = sh(f"bash {d}/demo.sh", cwd=R)
        out.append(f"demo clean {r.returncode}")
        if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
        a = sh(f"git -C {R} apply {d}/patch.diff"); assert a.returncode == 0, a.stderr
        r = sh("bash /opt/vp/build.sh"); out.append(f"build {r.returncode}")
        if r.returncode: print(r.stdout[-1500:])
        if "--notest" not in sys.argv:
            sh("bash /opt/vp/test.sh /tmp/seed.json")
            o = json.load(open("/tmp/seed.json"))
            out.append(f"missing {sorted(set(b['stable']) - set(o['passed']))}")
        r = sh(f"bash {d}/demo.sh", cwd=R, timeout=300)
        out.append(f"demo patched {r.returncode}: {(r.stdout + r.stderr)[-200:].strip()}")
        if "--nocheck" not in sys.argv:
            r = sh(f"VERIF_TIER=quick VERIF_SEED=1 ./check {meta['property']}", cwd="/verif")
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            out.append(f"check {meta['property']} rc {r.returncode} {v[:2]} {r.stdout[-160:].strip()} {r.stderr[-300:]}")
    finally:
        sh(f"git -C {R} checkout -- ."); sh("bash /opt/vp/build.sh")
    print(sid, "\n  ".join([""] + out), flush=True)
main()
