"""Writes /repo/_build/overlay/pybind11: the vendored pybind11 headers of /repo
as they stand, with the few lines that CPython 3.12 or NumPy 1.26 no longer accept replaced.

A file is written only if its content changes, so that builds stay incremental."""

import os
import sys

SRC, DST = sys.argv[1:3]

COMPAT = """
#ifndef VP_PY_FRAME_COMPAT
#define VP_PY_FRAME_COMPAT
/* borrowed references to the parts of a frame, hidden since CPython 3.11 */
static inline PyCodeObject *vp_code(PyFrameObject *f) {
    PyCodeObject *c = PyFrame_GetCode(f);
    Py_DECREF(c);
    return c;
}
static inline PyFrameObject *vp_back(PyFrameObject *f) {
    PyFrameObject *b = PyFrame_GetBack(f);
    Py_XDECREF(b);
    return b;
}
#endif
"""

EDITS = {
    # the strides of an empty array are 0 since NumPy 1.23
    "eigen.h": [
        (
            "return !negativestrides &&",
            "if (rows == 0 || cols == 0) return true;\n        return !negativestrides &&",
        ),
    ],
    "detail/common.h": [
        ("#include <frameobject.h>\n", "#include <frameobject.h>\n" + COMPAT),
        ("#include <cstddef>\n", "#include <cstddef>\n#include <cstdint>\n"),
    ],
    "cast.h": [
        ("frame->f_code", "vp_code(frame)"),
        ("frame->f_back", "vp_back(frame)"),
    ],
    "pybind11.h": [
        ("PyThreadState_Get()->frame", "PyEval_GetFrame()"),
        (
            "PyDict_GetItem(\n            frame->f_locals, "
            "PyTuple_GET_ITEM(frame->f_code->co_varnames, 0));",
            "PyDict_GetItem(\n            reinterpret_steal<dict>(PyFrame_GetLocals(frame)).ptr(), "
            "reinterpret_steal<tuple>(PyCode_GetVarnames(vp_code(frame)))[0].ptr());",
        ),
        ("frame->f_code", "vp_code(frame)"),
    ],
}

seen = set()
for root, _, files in os.walk(SRC):
    for name in files:
        path = os.path.join(root, name)
        rel = os.path.relpath(path, SRC)
        seen.add(rel)
        with open(path, encoding="utf-8") as f:
            text = f.read()
        for old, new in EDITS.get(rel, []):
            text = text.replace(old, new)
        out = os.path.join(DST, rel)
        try:
            with open(out, encoding="utf-8") as f:
                if f.read() == text:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with open(out, "w", encoding="utf-8") as f:
            f.write(text)

for root, _, files in os.walk(DST):
    for name in files:
        path = os.path.join(root, name)
        if os.path.relpath(path, DST) not in seen:
            os.remove(path)
