"""Builds GPRpy from /repo's working tree, once per option variant.

A variant is a set of values for the compile-time constants of
code/cpp/src/options.h (and, optionally, sanitizers).  The sources are copied
to /verif/build/<variant>/cpp, options.h is rewritten there, and everything is
compiled with g++ through ccache (cache: /verif/build/ccache).  Nothing is
written under /repo."""

import fcntl
import os
import re
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CPP = f"{REPO}/code/cpp"
BUILD = f"{VERIF}/build"
PY = "/opt/phd-venv/bin/python"

# name -> (options.h overrides, extra flags)
VARIANTS = {
    "default": ({}, []),
    "n3": ({"N": "3"}, []),
    "n4": ({"N": "4"}, []),
    "n5": ({"N": "5"}, []),
    "thermal": ({"THERMAL": "true", "LSET": "1"}, []),
    "thermal3": ({"THERMAL": "true", "LSET": "0", "N": "3"}, []),
    "multi": ({"MULTI": "true", "LSET": "1"}, []),
    "multi3": ({"MULTI": "true", "THERMAL": "true", "LSET": "0", "N": "3"},
               []),
    "lset0": ({"LSET": "0"}, []),
    "lset1": ({"LSET": "1"}, []),
    "lset3": ({"LSET": "3"}, []),
    "stick": ({"RIEMANN_STICK": "true"}, []),
    "tstick": ({"RIEMANN_STICK": "true", "THERMAL": "true", "LSET": "1"}, []),
    "rotate": ({"ROTATE_DISTORTION": "true", "LSET": "0"}, []),
    "destress": ({"DESTRESS": "true", "LSET": "1"}, []),
    "prim": ({"PRIM_RECONSTRUCT": "true", "LSET": "1"}, []),
    "corners": ({"NO_CORNERS": "false"}, []),
}
ASAN = ["-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-fno-sanitize=vptr,alignment"]
for _name, _of in (("asan", "default"), ("asanm", "multi3")):
    VARIANTS[_name] = (VARIANTS[_of][0], ASAN)


class BuildError(Exception):
    pass


def _write(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def _sync(src, dst, edit=None):
    """Makes dst the same tree as src, touching only what differs."""
    seen = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for name in files:
            rel = os.path.relpath(os.path.join(root, name), src)
            seen.add(rel)
            with open(os.path.join(root, name), "rb") as f:
                data = f.read()
            if edit:
                data = edit(rel, data)
            _write(os.path.join(dst, rel), data)
    for root, _, files in os.walk(dst):
        for name in files:
            rel = os.path.relpath(os.path.join(root, name), dst)
            if rel not in seen:
                os.remove(os.path.join(root, name))


def _edit_options(overrides):
    def edit(rel, data):
        if rel != "options.h" or not overrides:
            return data
        text = data.decode("utf-8")
        for k, v in overrides.items():
            text, n = re.subn(r"(\b%s\s*=\s*)[^;]+;" % k,
                              lambda m: m.group(1) + v + ";", text)
            if n != 1:
                raise BuildError(f"options.h: {k} found {n} times")
        return text.encode("utf-8")
    return edit


def _sources():
    with open(f"{CPP}/CMakeLists.txt", encoding="utf-8") as f:
        text = f.read()
    m = re.search(r"set\s*\(\s*SRCS\b([^)]*)\)", text, re.I)
    if not m:
        raise BuildError("CMakeLists.txt: no SRCS")
    return [s for s in m.group(1).split() if not s.startswith("#")]


def build(names, verbose=False):
    """Builds the variants and returns {name: directory of its GPRpy.so}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        subprocess.run([PY, f"{VERIF}/harness/overlay.py",
                        f"{CPP}/include/pybind11-master/include/pybind11",
                        f"{BUILD}/overlay/pybind11"], check=True)
        inc = subprocess.run(
            [PY, "-c", "import sysconfig; print(sysconfig.get_path('include'))"],
            check=True, capture_output=True, text=True).stdout.strip()
        srcs = _sources()
        lines = [
            "builddir = " + BUILD,
            "rule cc",
            "  command = $cache g++ -w $opt -march=x86-64-v2 -std=gnu++17 -fPIC "
            "-fvisibility=hidden -fopenmp -MD -MF $out.d $flags -c $in -o $out",
            "  depfile = $out.d",
            "  deps = gcc",
            "rule link",
            "  command = g++ -shared -fopenmp $flags -o $out $in",
        ]
        targets = []
        for name in names:
            overrides, extra = VARIANTS[name]
            top = f"{BUILD}/{name}"
            _sync(f"{CPP}/src", f"{top}/cpp/src", _edit_options(overrides))
            _sync(f"{CPP}/bindings", f"{top}/cpp/bindings")
            _sync(f"{CPP}/include/skfmm", f"{top}/cpp/include/skfmm")
            flags = " ".join(
                extra + [f"-I{BUILD}/overlay", f"-I{top}/cpp/include",
                         f"-I{CPP}/include", f"-I{inc}"])
            opt = "-O1" if extra else "-O2"
            objs = []
            for s in srcs:
                obj = f"{top}/obj/{s}.o"
                objs.append(obj)
                lines += [f"build {obj}: cc {top}/cpp/{s}",
                          f"  flags = {flags}",
                          f"  opt = {opt}"]
            so = f"{top}/GPRpy.so"
            lines += [f"build {so}: link {' '.join(objs)}",
                      f"  flags = {' '.join(extra)}"]
            targets.append(so)
        cache = shutil.which("ccache") or ""
        lines.insert(1, f"cache = {cache}")
        ninja_file = f"{BUILD}/build.{'_'.join(names)}.ninja"
        _write(ninja_file, ("\n".join(lines) + "\n").encode())
        env = dict(os.environ, CCACHE_DIR=f"{BUILD}/ccache",
                   CCACHE_BASEDIR=BUILD, CCACHE_NOHASHDIR="1",
                   CCACHE_MAXSIZE="2G", CCACHE_SLOPPINESS="time_macros",
                   LANG="C.UTF-8", LC_ALL="C.UTF-8")
        env.pop("CXXFLAGS", None)
        p = subprocess.run(["ninja", "-f", ninja_file, "-j8"] + targets,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-6000:])
        if verbose:
            print(p.stdout[-300:])
    return {n: f"{BUILD}/{n}" for n in names}


if __name__ == "__main__":
    try:
        build(sys.argv[1:] or ["default"], True)
    except BuildError as e:
        sys.exit(str(e))
