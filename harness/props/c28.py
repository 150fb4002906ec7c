"""Operations read and write their arguments and nothing else."""

import ctypes
import importlib
import os
import types

import numpy as np

from pbt import Fail, Laws, Skip, Src, ensure

L = Laws("C28")
L.assumptions = [
    "Operations are driven by the laws of the other properties; what these find is theirs.",
    "Accesses are watched by the sanitizers of the compiler, with the assertions of the matrix "
    "library.",
]
MODS = ["c01", "c02", "c03", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14",
        "c15", "c16", "c17", "c18", "c20", "c21", "c23", "c26"]
# the options of the builds with sanitizers are those of these
SAME = {"asan": "default", "asanm": "multi3"}
libc = ctypes.CDLL(None)
libc.malloc.restype = ctypes.c_void_p
libc.malloc.argtypes = [ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]
SIZES = [16 * k for k in range(1, 64)] + [2048, 4096, 9000, 20000]
_laws = {}


def laws(variant):
    """Laws of this build, by property."""
    v = SAME.get(variant, variant)
    if v not in _laws:
        _laws[v] = []
        for name in MODS:
            X = importlib.import_module("props." + name).L
            fit = [x for x in X.laws if x.variant == v]
            if fit:
                _laws[v].append((X.prop, fit))
    return _laws[v]


def pick(s):
    prop, fit = s.choice(laws(os.environ["VERIF_VARIANT"]))
    law = s.choice(fit)
    s.label(f"{prop} {law.name.split('@')[0]}")
    s.note(law=f"{prop} {law.name}")
    return law


def drive(law, s, G):
    """Runs a case of another property; what it finds is not ours."""
    try:
        law.fn(s, G)
    except (Fail, AssertionError):
        s.label("fails")
    except Skip:
        s.label("skips")


@L.law(quick={"asan": 1700, "asanm": 800}, thorough={"asan": 60000, "asanm": 25000},
       variants=("asan", "asanm"))
def bounds(s, G):
    """No operation, from closures to whole runs, accesses memory that is not its
    own, or has undefined arithmetic."""
    drive(pick(s), s, G)


def dirt(byte):
    """Leaves freed memory, and the stack, full of a byte."""
    libc.mallopt(-6, byte)
    for _ in range(2):
        p = [libc.malloc(n) for n in SIZES for _ in range(4)]
        for q, n in zip(p, (n for n in SIZES for _ in range(4))):
            ctypes.memset(q, byte, n)
        for q in p:
            libc.free(q)
    b = ctypes.create_string_buffer(5000)
    libc.snprintf(b, 5000, b"%.4000f", ctypes.c_double(0.0 if byte == 0 else 1e300 / 3))


def plain(x):
    """The numbers of an argument or a result."""
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            x = x.copy()
            x[np.isnan(x)] = np.nan
        return x.tobytes()
    if isinstance(x, float):
        return "nan" if np.isnan(x) else x
    if isinstance(x, (int, bool, str)) or x is None:
        return x
    if isinstance(x, (list, tuple)) or type(x).__name__.startswith("Vector"):
        return [plain(y) for y in x]
    return None


class Record:
    """A module whose operations are recorded."""

    def __init__(self, of, path, log, byte):
        self._of, self._path, self._log, self._byte = of, path, log, byte

    def __getattr__(self, name):
        x = getattr(self._of, name)
        path = f"{self._path}.{name}"
        if isinstance(x, types.ModuleType):
            x = Record(x, path, self._log, self._byte)
        elif callable(x) and not isinstance(x, type) and self._path != ".options":
            f, log, byte = x, self._log, self._byte

            def x(*a, **k):
                if len(log) < 400:
                    dirt(byte)
                r = f(*a, **k)
                if len(log) < 400:
                    log.append((path, plain(r), [plain(y) for y in a],
                                {n: plain(y) for n, y in k.items()}))
                return r
        setattr(self, name, x)
        return x


@L.law(quick={"default": 1700, "thermal": 700, "multi3": 600, "lset3": 500},
       thorough={"default": 50000, "thermal": 15000, "multi3": 10000, "lset3": 10000},
       variants=("default", "thermal", "multi3", "lset3"))
def functions(s, G):
    """The results of an operation, and what it leaves in its arguments, are
    functions of its arguments: they do not depend on what memory held before."""
    law = pick(s)
    byte = s.choice([0x41, 0xff, 0x7f, 0xc0])
    start = len(s.rec)
    for again in range(2):
        logs = []
        for k, b in enumerate((0, byte)):
            log = []
            new = again == 0 and k == 0
            try:
                drive(law, s if new else Src(replay=s.rec[start:]), Record(G, "", log, b))
            finally:
                libc.mallopt(-6, 0)
            logs.append(log)
        if [x[0] for x in logs[0]] == [x[0] for x in logs[1]]:
            break                       # else, something was kept from the first to the second
    if not logs[0]:
        s.trivial()
    for a, b in zip(*logs):
        ensure(a[0] == b[0], f"other operations: {a[0]} and {b[0]}")
        ensure(a == b, lambda: f"the results of {a[0][1:]} depend on what memory held")
    ensure(len(logs[0]) == len(logs[1]), "more operations")
