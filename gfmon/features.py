"""Developer switch GFMON_FEATURES=FILE: which classes of arguments does a check present to which function?"""
import inspect
import os

import numpy as np

FILE = os.environ.get("GFMON_FEATURES")
SEEN = {}
_SIG = {}


def _classes(x):
    if x is None or isinstance(x, (bool, str)):
        return [repr(x)]
    if callable(x) and not isinstance(x, np.ndarray):
        return ["callable"]
    out = []
    if isinstance(x, (list, tuple, range)):
        out.append(type(x).__name__)
    elif not isinstance(x, np.ndarray):
        out.append("py" if type(x) in (int, float, complex) else "np-scalar")
    try:
        a = np.asarray(x)
    except Exception:  # noqa: BLE001
        return ["odd"]
    if a.dtype.kind not in "biufc":
        return out + ["dtype " + a.dtype.kind]
    if isinstance(x, np.ndarray):
        out += [f"ndim{min(a.ndim, 4)}"]
        if a.ndim > 1:
            out.append("C" if a.flags.c_contiguous else "F" if a.flags.f_contiguous else "strided")
            if len(set(a.shape)) < a.ndim:
                out.append("equal axes")
            if 1 in a.shape:
                out.append("axis of length 1")
        out.append("readonly" if not a.flags.writeable else "writable")
    out.append("dtype " + a.dtype.str[1:])
    n = a.shape[-1] if a.ndim else 1
    out.append(f"last axis {n if n < 4 else '<16' if n < 16 else '<128' if n < 128 else '<1024' if n < 1024 else 'big'}")
    if n > 3:
        out.append("even" if n % 2 == 0 else "odd")
    if a.size == 0:
        return out + ["empty"]
    f = a.reshape(-1)[:4000]
    mag = abs(f)
    mag = mag.astype(float)
    if not np.all(np.isfinite(mag)):
        return out + ["nonfinite"]
    if np.any(mag == 0):
        out.append("has zero")
        if np.all(mag == 0):
            out.append("all zero")
    top = float(np.max(mag))
    low = float(np.min(mag[mag > 0], initial=np.inf))
    for lim in (1e2, 1e4, 1e8, 1e16):
        if top > lim:
            out.append(f"max>{lim:g}")
    for lim in (1e-2, 1e-4, 1e-8, 1e-16):
        if low < lim:
            out.append(f"min<{lim:g}")
        if 0 < top < lim:
            out.append(f"max<{lim:g}")
    re = f.real
    if np.any(re < 0):
        out.append("has negative")
    if np.any(re > 0):
        out.append("has positive")
    if f.dtype.kind == "c":
        im = f.imag
        out += [t for t, c in (("im>0", im > 0), ("im<0", im < 0), ("im=0", im == 0), ("re=0", re == 0)) if np.any(c)]
        if np.any(im > 0) and np.any(im < 0):
            out.append("both half planes")
    if f.size > 1:
        srt = np.sort(mag)
        if np.any(srt[1:] == srt[:-1]):
            out.append("equal magnitudes")
        if np.any(np.diff(np.sort_complex(f)) == 0):
            out.append("duplicates")
        if np.all(f == f[0]):
            out.append("constant")
        if f.dtype.kind != "c":
            d = np.diff(f)
            out.append("ascending" if np.all(d >= 0) else "descending" if np.all(d <= 0) else "unsorted")
    return out


def record(name, fn, args, kwds):
    if name not in _SIG:
        try:
            _SIG[name] = list(inspect.signature(fn).parameters)
        except (ValueError, TypeError):
            _SIG[name] = []
    names = _SIG[name]
    got = {names[i] if i < len(names) else f"#{i}": x for i, x in enumerate(args)}
    got.update(kwds)
    for par in names:
        if par not in got:
            got[par] = inspect.Parameter.empty
    for par, x in got.items():
        for c in (["omitted"] if x is inspect.Parameter.empty else _classes(x)):
            SEEN[name, par, c] = SEEN.get((name, par, c), 0) + 1


def dump():
    with open(FILE, "a", encoding="utf-8") as fh:
        for (name, par, c), num in SEEN.items():
            fh.write(f"{name}\t{par}\t{c}\t{num}\n")
    SEEN.clear()
