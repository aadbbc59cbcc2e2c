"""
Monitor core: events, verdicts, evidence.

A property module defines `CASES`, a list of `Case`.  Every case draws an
input from a seeded generator, runs the real code through `Ctx.call` (which
emits an event), and lets an oracle judge the observed events through
`Ctx.close` / `Ctx.ok`.  A case is *decided* when at least one oracle compared
something; a case kind that never decides anything makes the run inconclusive.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor
from dataclasses import dataclass, field
from multiprocessing import get_context

import numpy as np

from . import features, target

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("GFMON_EVIDENCE") or os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "findings", "KNOWN_FINDINGS.txt")


class Violated(Exception):
    """An oracle rejected an observed event."""

    def __init__(self, label, info):
        super().__init__(label)
        self.label, self.info = label, info


class Skip(Exception):
    """The drawn input is outside of the quantified domain."""


@dataclass
class Case:
    name: str
    fn: object
    quick: int
    thorough: int
    finding: str = ""  # id of the known finding this case probes
    chunk: int = 0
    skip: float = 0.25  # largest fraction of draws that may fall outside of the domain


def case(registry, quick, thorough, finding="", chunk=0, skip=0.25):
    def deco(fn):
        registry.append(Case(fn.__name__, fn, quick, thorough, finding, chunk, skip))
        return fn
    return deco


def _short(obj, limit=160):
    if isinstance(obj, np.ndarray):
        flat = obj.reshape(-1)
        vals = ", ".join(repr(x.item() if hasattr(x, "item") else x) for x in flat[:4])
        return f"array{obj.shape}{obj.dtype}[{vals}{', ...' if flat.size > 4 else ''}]"
    text = repr(obj)
    return text if len(text) <= limit else text[:limit] + "..."


def _digest(obj, h):
    if isinstance(obj, np.ndarray):
        h.update(str((obj.shape, obj.dtype.str)).encode())
        if obj.dtype == object:
            h.update(repr(obj.tolist()).encode())
        else:
            h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        for oo in obj:
            _digest(oo, h)
    elif isinstance(obj, dict):
        for key in sorted(obj, key=str):
            h.update(str(key).encode())
            _digest(obj[key], h)
    elif callable(obj):
        h.update(getattr(obj, "__qualname__", str(type(obj))).encode())
    else:
        h.update(repr(obj).encode())


@dataclass
class Ctx:
    prop: str
    kind: str
    seed: tuple
    tier: str = "quick"
    events: int = 0
    comparisons: int = 0
    digests: set = field(default_factory=set)
    tags: set = field(default_factory=set)
    functions: dict = field(default_factory=dict)
    last: list = field(default_factory=list)
    worst: dict = field(default_factory=dict)

    def __post_init__(self):
        self.rng = np.random.default_rng(self.seed)

    # --- events -----------------------------------------------------------
    def call(self, fn, *args, **kwds):
        """Run the real code and record the boundary event."""
        name = getattr(fn, "__qualname__", None) or getattr(
            getattr(fn, "pyfunc", None), "__qualname__", str(type(fn).__name__))
        mod = getattr(fn, "__module__", "") or ""
        name = f"{mod}.{name}".replace("gftool.", "")
        self.events += 1
        self.functions[name] = self.functions.get(name, 0) + 1
        h = hashlib.blake2b(name.encode(), digest_size=8)
        _digest(args, h)
        _digest(kwds, h)
        self._digest = h.digest()
        self.last = [name, [_short(a) for a in args], {k: _short(v) for k, v in kwds.items()}]
        if features.FILE:
            features.record(name, fn, args, kwds)
        res = fn(*args, **kwds)
        self.digests.add(self._digest)
        return res

    def raises(self, exc, fn, *args, **kwds):
        """The call has to raise one of `exc`."""
        try:
            res = self.call(fn, *args, **kwds)
        except exc:
            self.digests.add(self._digest)
            self.comparisons += 1
            return
        except Exception as err:  # noqa: BLE001
            raise Violated(f"wrong exception {type(err).__name__}",
                           {"expected": str(exc), "message": str(err)[:200]}) from err
        raise Violated("documented exception not raised",
                       {"expected": str(exc), "returned": _short(res)})

    def tag(self, *tags):
        self.tags.add(":".join(str(t) for t in tags))

    # --- oracles ----------------------------------------------------------
    def ok(self, label, cond, **info):
        self.comparisons += 1
        if not bool(cond):
            raise Violated(label, {k: _short(v, 600) for k, v in info.items()})

    def close(self, label, got, want, rtol=None, atol=None, shape=True):
        """`|got-want| <= atol + rtol*|want|` elementwise; `atol` may be an array."""
        if rtol is None:  # an explicit absolute tolerance is meant to be decisive
            rtol = 1e-9 if atol is None else 1e-13
        if atol is None:
            atol = 0.0
        got, want = np.asarray(got), np.asarray(want)
        self.comparisons += max(1, got.size)
        if shape and got.shape != want.shape:
            raise Violated(label + ": shape", {"got": got.shape, "want": want.shape})
        if got.dtype == object or want.dtype == object:
            got, want = got.astype(complex), want.astype(complex)
        if got.size == 0 and want.size == 0:
            return
        with np.errstate(all="ignore"):
            tol = np.asarray(atol + rtol*abs(want), dtype=float)
            err = np.asarray(abs(got - want), dtype=float)
            same = (got == want) | (np.isnan(got) & np.isnan(want))
            ratio = np.where(same, 0.0, err/tol)
        bad = ~(ratio <= 1)
        top = float(np.nanmax(np.where(np.isnan(ratio), np.inf, ratio)))
        self.worst[label] = max(self.worst.get(label, 0.0), top)
        if np.any(bad):
            idx = np.unravel_index(int(np.argmax(bad)), bad.shape) if bad.ndim else ()
            g = np.broadcast_to(got, bad.shape)[idx]
            w = np.broadcast_to(want, bad.shape)[idx]
            raise Violated(label, {"index": idx, "got": repr(g), "want": repr(w),
                                   "err/tol": float(ratio[idx]), "n_bad": int(bad.sum())})


def _seed(seed, kind, idx):
    h = hashlib.blake2b(kind.encode(), digest_size=6).digest()
    return (int(seed), int.from_bytes(h, "big"), int(idx))


# --- line reach -----------------------------------------------------------
_LINES = set()


def _start_reach():
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return
    base = os.path.realpath(target.REPO) + "/gftool/"

    def on_line(code, line):
        if code.co_filename.startswith(base):
            _LINES.add((code.co_filename[len(base):], line))
        return mon.DISABLE

    try:
        mon.use_tool_id(mon.COVERAGE_ID, "gfmon")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    except ValueError:
        pass


class Hang(BaseException):
    """The real code did not return."""


#: CPU seconds after which a case counts as not returning (cases take milliseconds to seconds)
CPU_LIMIT = 100.0


def _on_alarm(signum, frame):
    raise Hang


def run_case(prop, cs, seed, idx, tier):
    """Run one case, return (ctx, violation or None, skipped)."""
    ctx = Ctx(prop, cs.name, _seed(seed, cs.name, idx), tier)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        return _run_case(ctx, cs)
    except Hang:
        return ctx, {"label": f"no result within {CPU_LIMIT:g} s of CPU time", "info": {}, "event": ctx.last, "hang": True}, False
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _run_case(ctx, cs):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                cs.fn(ctx, ctx.rng)
    except Skip:
        return ctx, None, True
    except Violated as err:
        return ctx, {"label": err.label, "info": {k: _short(v, 600) for k, v in err.info.items()},
                     "event": ctx.last}, False
    except Exception as err:  # noqa: BLE001  unexpected exception of the real code
        tb = traceback.format_exc().strip().splitlines()
        return ctx, {"label": f"unexpected {type(err).__name__}: {str(err)[:200]}",
                     "info": {"traceback": tb[-8:]}, "event": ctx.last}, False
    return ctx, None, False


_STATE = {}


def _worker(task):
    cidx, lo, hi, deadline = task
    prop, cases, seed, tier = _STATE["job"]
    cs = cases[cidx]
    out = {"kind": cs.name, "cidx": cidx, "runs": 0, "skipped": 0, "decided": 0, "events": 0,
           "comparisons": 0, "digests": set(), "tags": set(), "functions": {}, "worst": {},
           "violations": [], "samples": [], "unfinished": 0, "slowest": 0.0}
    _LINES.clear()
    for idx in range(lo, hi):
        if time.time() > deadline or _STATE["stop"].is_set():
            out["unfinished"] += hi - idx
            break
        start = time.process_time()
        ctx, viol, skipped = run_case(prop, cs, seed, idx, tier)
        out["slowest"] = max(out["slowest"], time.process_time() - start)
        out["runs"] += 1
        out["skipped"] += skipped
        out["events"] += ctx.events
        out["comparisons"] += ctx.comparisons
        if ctx.comparisons and not skipped:
            out["decided"] += 1
            out["digests"] |= ctx.digests
        out["tags"] |= ctx.tags
        for k, v in ctx.functions.items():
            out["functions"][k] = out["functions"].get(k, 0) + v
        for k, v in ctx.worst.items():
            out["worst"][k] = max(out["worst"].get(k, 0.0), v)
        if len(out["samples"]) < 1 and ctx.last:
            out["samples"].append({"case": cs.name, "idx": idx, "event": ctx.last})
        if viol is not None:
            out["violations"].append({"case": cs.name, "idx": idx, **viol})
            if viol.pop("hang", False):
                _STATE["stop"].set()
            if len(out["violations"]) >= 3:
                break
    out["lines"] = set(_LINES)
    if features.FILE:
        features.dump()
    return out


def load_findings():
    """Committed findings: `known: property=<id> key=<key> <text>` suppress only their probe."""
    known = []
    try:
        with open(FINDINGS, encoding="utf-8") as fh:
            for line in fh:
                if line.startswith("known:"):
                    parts = line[len("known:"):].split()
                    entry = dict(p.split("=", 1) for p in parts[:2])
                    entry["text"] = " ".join(parts[2:])
                    known.append(entry)
    except FileNotFoundError:
        pass
    return known


def run_property(prop, mod, tier, seed):
    t0 = time.time()
    cases = mod.CASES
    scale = float(os.environ.get("GFMON_SCALE") or (3*getattr(mod, "QUICK", 1) if tier == "quick" else 1.5))
    jobs = int(os.environ.get("GFMON_JOBS", str(min(8, os.cpu_count() or 1))))
    deadline = t0 + float(os.environ.get("GFMON_DEADLINE", "600" if tier == "quick" else "3000"))
    failfast = bool(os.environ.get("GFMON_FAILFAST"))  # developer tools only
    probes = {cs.name: cs.finding for cs in cases if cs.finding}
    _STATE["job"] = (prop, cases, seed, tier)
    _STATE["stop"] = get_context("fork").Event()
    tasks = []
    for cidx, cs in enumerate(cases):
        num = cs.quick if tier == "quick" else cs.thorough
        num = max(1, int(round(num*scale)))
        chunk = cs.chunk or max(1, min(200, num // (4*jobs)))
        tasks += [(cidx, lo, min(num, lo+chunk), deadline) for lo in range(0, num, chunk)]
    _start_reach()
    tot = {cs.name: {"runs": 0, "skipped": 0, "decided": 0} for cs in cases}
    agg = {"events": 0, "comparisons": 0, "digests": set(), "tags": set(), "functions": {},
           "worst": {}, "violations": [], "samples": {}, "lines": set(), "unfinished": 0}
    slowest = {}
    if jobs > 1:
        ex = ProcessPoolExecutor(jobs, mp_context=get_context("fork"))
        results = ex.map(_worker, tasks)
    else:
        ex, results = None, map(_worker, tasks)
    try:
        for out in results:
            for k in ("runs", "skipped", "decided"):
                tot[out["kind"]][k] += out[k]
            for k in ("events", "comparisons", "unfinished"):
                agg[k] += out[k]
            agg["digests"] |= out["digests"]
            agg["tags"] |= out["tags"]
            agg["lines"] |= out["lines"]
            for k, v in out["functions"].items():
                agg["functions"][k] = agg["functions"].get(k, 0) + v
            for k, v in out["worst"].items():
                key = f"{out['kind']}: {k}"
                agg["worst"][key] = max(agg["worst"].get(key, 0.0), v)
            agg["violations"] += out["violations"]
            slowest[out["kind"]] = max(slowest.get(out["kind"], 0.0), round(out["slowest"], 3))
            if failfast and any(v["case"] not in probes for v in out["violations"]):
                break
            if out["samples"]:
                agg["samples"].setdefault(out["kind"], out["samples"][0])
    except Exception as err:  # noqa: BLE001  a worker died while running the real code
        agg["violations"].append({"case": "worker", "idx": -1, "event": None,
                                  "label": f"worker process died: {err!r}", "info": {}})
    finally:
        if ex is not None:
            ex.shutdown(wait=True, cancel_futures=True)

    for cs in cases:  # a monitor that stopped observing must not pass silently
        runs, skipped, decided = (tot[cs.name][k] for k in ("runs", "skipped", "decided"))
        if runs and not decided or runs >= 40 and skipped > cs.skip*runs:
            if not any(v["case"] == cs.name for v in agg["violations"]):
                agg["violations"].append({"case": cs.name, "idx": -1, "event": None, "info": tot[cs.name],
                                          "label": "the calls no longer produce results an oracle can judge"})

    known = [k for k in load_findings() if k.get("property") == prop]
    keys = {k["key"]: k for k in known}
    new, seen_known = [], set()
    for v in agg["violations"]:
        key = probes.get(v["case"])
        if key and key in keys and v["label"].startswith("finding"):
            seen_known.add(key)
        else:
            new.append(v)
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {keys[key]['text']}")

    lines_per_file = {}
    for fname, _ in agg["lines"]:
        lines_per_file[fname] = lines_per_file.get(fname, 0) + 1
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(t["runs"] for t in tot.values()),
            "distinct_nontrivial": len(agg["digests"]),
            "rule": (mod.RULE + " Counted as distinct: boundary events (function, arguments) with"
                     " different digests belonging to cases in which at least one oracle decided."),
            "samples": list(agg["samples"].values())[:12],
            "events": agg["events"],
            "oracle_comparisons": agg["comparisons"],
            "events_per_function": dict(sorted(agg["functions"].items())),
            "input_classes_seen": sorted(agg["tags"])[:1500],
            "n_input_classes": len(agg["tags"]),
            "cases": tot,
            "largest_error_over_tolerance": {k: float(f"{v:.3g}") for k, v in
                                             sorted(agg["worst"].items(), key=lambda kv: -kv[1])[:120]},
            "repo_lines_executed": dict(sorted(lines_per_file.items())),
            "slowest_case_cpu_s": slowest,
            "unfinished_cases": agg["unfinished"],
            "known_findings_observed": sorted(seen_known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    os.replace(path + ".tmp", path)
    if os.environ.get("GFMON_LINES"):
        with open(os.environ["GFMON_LINES"], "a", encoding="utf-8") as fh:
            for fname, line in sorted(agg["lines"]):
                fh.write(f"{fname}:{line}\n")

    if new:
        printed = set()
        for v in new:
            key = (v["case"], v["label"])
            if key in printed or len(printed) >= 4:
                continue
            printed.add(key)
            rdir = os.path.join(EVIDENCE, "replay")
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, f"{prop}-{v['case']}-{seed}-{v['idx']}.json")
            with open(rpath, "w", encoding="utf-8") as fh:
                json.dump({"property": prop, "tier": tier, "seed": seed, **v}, fh, indent=1, default=str)
            print(f"{v['case']}#{v['idx']}: {v['label']} {json.dumps(v['info'], default=str)[:700]}"
                  f" event={json.dumps(v['event'], default=str)[:500]}")
            print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    cov = evidence["coverage"]
    print(f"OK property={prop} tier={tier} seed={seed} cases={cov['evaluations']} events={cov['events']}"
          f" distinct={cov['distinct_nontrivial']} comparisons={cov['oracle_comparisons']}"
          f" wall={evidence['wall_s']}s")
    return 0
