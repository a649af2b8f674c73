"""
Driver of the property checks.

A property is a module pbt.props.cNN with a PROPERTY dictionary:

    PROPERTY = {
        "id": "C01",
        "rule": "how cases are made and what makes one non-trivial",
        "subs": [Sub(...), ...],
        "assumptions": [...],
    }

Every Sub has a Hypothesis strategy making JSON-able cases and a check that
takes one such case, runs the code under test on it, compares with the oracle,
raises Violation where they disagree, and returns a dictionary with the keys
nontrivial (bool) and, optionally, classes (list of labels to be counted).
"""

import contextlib
import ctypes
import hashlib
import io
import json
import logging
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
SHRINK_SECONDS = 25.0
SOFT_SECONDS = 400.0
CASE_SECONDS = 300.0  # cases take seconds at most: after this the code under test does not end
NWORKERS = 8


class Violation(Exception):
    """The code under test breaks the property on this case"""


class Sub:
    """One generated check that belongs to a property"""

    def __init__(self, name, strategy, check, quick, thorough, examples=()):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.examples = list(examples)  # fixed cases that are always run first


# --------------------------------------------------------------------------
# Helpers for checks
# --------------------------------------------------------------------------


@contextlib.contextmanager
def quiet():
    """Silence prints, logging and warnings of the code under test"""
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            with contextlib.redirect_stdout(io.StringIO()):
                with contextlib.redirect_stderr(io.StringIO()):
                    yield


def sut(func, *args, **kwargs):
    """Call code under test on input it must accept: any exception is a violation"""
    try:
        with quiet():
            return func(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-except
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(
            f"valid input raised {type(exc).__name__}: {str(exc)[:200]} "
            f"at {where.filename}:{where.lineno}"
        ) from exc


def raises(excs, func, *args, **kwargs):
    """Call code under test on input it must reject with one of excs"""
    try:
        with quiet():
            func(*args, **kwargs)
    except excs:
        return
    except Exception as exc:  # pylint: disable=broad-except
        raise Violation(
            f"rejected with {type(exc).__name__}: {str(exc)[:200]} instead of {excs}"
        ) from exc
    raise Violation(f"accepted instead of raising {excs}")


def need(cond, msg):
    """Raise Violation unless cond"""
    if not cond:
        raise Violation(msg)


def close(name, got, want, rtol=1e-8, atol=None, scale=None):
    """
    Compare arrays: |got - want| <= atol + rtol*scale

    scale is the largest magnitude in want (a series is compared on its own
    scale, so that rounding errors around zero crossings do not count)
    """
    try:
        got = np.asarray(got, dtype=float)
    except (TypeError, ValueError) as exc:
        raise Violation(f"{name}: not numeric: {exc}") from exc
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {got.shape} instead of {want.shape}")
    if got.size == 0:
        return
    got, want = np.atleast_1d(got), np.atleast_1d(want)
    nan_g, nan_w = np.isnan(got), np.isnan(want)
    if np.any(nan_g != nan_w):
        raise Violation(f"{name}: NaN pattern differs, got {got} want {want}")
    if np.all(nan_w):
        return
    if scale is None:
        finite = want[np.isfinite(want)]
        scale = np.max(np.abs(finite)) if finite.size else 0.0
    tol = rtol * scale + (1e-12 if atol is None else atol)
    with np.errstate(all="ignore"):
        diff = np.abs(got - want)
    diff[(got == want) | nan_w] = 0.0
    diff[np.isnan(diff)] = np.inf
    if np.any(diff > tol):
        i = np.unravel_index(int(np.argmax(diff)), diff.shape)
        raise Violation(
            f"{name}: at {i} got {got[i]!r} want {want[i]!r} (tolerance {tol:.3g})"
        )


def identical(name, got, want):
    """Equal within a few rounding errors (allows reordered sums)"""
    close(name, got, want, rtol=1e-11, atol=1e-300)


def isolated(func, *args):
    """
    Run func(*args) in a forked child, return its (picklable) result

    The child starts from the state of this process, so nothing that func does
    to the state of modules is seen by anything that runs after it.
    """
    fd_r, fd_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(fd_r)
            try:
                res = ("ok", func(*args))
            except Violation as exc:
                res = ("violation", str(exc))
            except BaseException:  # pylint: disable=broad-except
                res = ("error", traceback.format_exc())
            with os.fdopen(fd_w, "wb") as pipe:
                pickle.dump(res, pipe)
            code = 0
        finally:
            os._exit(code)
    os.close(fd_w)
    try:
        with os.fdopen(fd_r, "rb") as pipe:
            data = pipe.read()
    except Violation:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("isolated child died")
    kind, val = pickle.loads(data)
    if kind == "ok":
        return val
    if kind == "violation":
        raise Violation(val)
    raise RuntimeError(val)


@contextlib.contextmanager
def scratch_dir():
    """Temporary directory that is removed afterwards"""
    with tempfile.TemporaryDirectory(prefix="pbt_") as tmp:
        yield tmp


# --------------------------------------------------------------------------
# Running
# --------------------------------------------------------------------------


def canonical(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(canonical(case).encode()).hexdigest()[:16]


def no_end(_signum, _frame):
    raise Violation(f"no result after {CASE_SECONDS:.0f} s")


def check_case(sub, case):
    """Run check on one case. Malformed results are violations, too"""
    signal.signal(signal.SIGALRM, no_end)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
    try:
        with quiet():
            return sub.check(case)
    except Violation:
        raise
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(
            f"results not as specified, {type(exc).__name__}: {str(exc)[:200]} "
            f"at {where.filename}:{where.lineno}"
        ) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_sub(sub, nexamples, seed, deadline, stats):
    """Run one sub-check in this process. Returns None or a failure dict"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    state = {"best": None, "first_fail": None}

    def one(case):
        now = time.time()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > SHRINK_SECONDS:
                return
        elif now > deadline:
            stats["skipped"] += 1
            return
        if state["first_fail"] is None:
            stats["evaluations"] += 1
        try:
            info = check_case(sub, case) or {}
        except Violation as exc:
            text = canonical(case)
            if state["first_fail"] is None:
                state["first_fail"] = now
            if state["best"] is None or len(text) <= len(canonical(state["best"]["case"])):
                state["best"] = {"sub": sub.name, "case": case, "message": str(exc)}
            raise
        if state["first_fail"] is None:
            for label in info.get("classes", []):
                key = f"{sub.name}:{label}"
                stats["classes"][key] = stats["classes"].get(key, 0) + 1
            if info.get("nontrivial"):
                hsh = case_hash([sub.name, case])
                if hsh not in stats["nontrivial"]:
                    stats["nontrivial"].add(hsh)
                    if len(stats["samples"].setdefault(sub.name, [])) < 1 or (
                        len(stats["nontrivial"]) == 25
                    ):
                        stats["samples"][sub.name].append(case)

    for case in sub.examples:
        try:
            one(case)
        except Violation:
            return state["best"]

    test = given(sub.strategy())(one)
    test = settings(
        max_examples=nexamples,
        deadline=None,
        database=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                test()
    except Violation:
        pass
    except Exception:  # pylint: disable=broad-except
        if state["best"] is None:
            raise
    return state["best"]


def worker(prop, widx, nworkers, tier, seed, deadline, out_path):
    """Body of a worker process"""
    stats = {
        "evaluations": 0,
        "skipped": 0,
        "classes": {},
        "nontrivial": set(),
        "samples": {},
        "per_sub": {},
    }
    failure, error = None, None
    try:
        for sidx, sub in enumerate(prop["subs"]):
            total = sub.quick if tier == "quick" else sub.thorough
            mine = total // nworkers + (1 if widx < total % nworkers else 0)
            if mine == 0:
                continue
            before = stats["evaluations"]
            sub_seed = (seed * 1009 + widx) * 101 + sidx + 1
            failure = run_sub(sub, mine, sub_seed, deadline, stats)
            stats["per_sub"][sub.name] = stats["evaluations"] - before
            if failure is not None:
                break
    except BaseException:  # pylint: disable=broad-except
        error = traceback.format_exc()
    with open(out_path, "wb") as fout:
        pickle.dump({"stats": stats, "failure": failure, "error": error}, fout)


def write_evidence(prop, tier, seed, merged, wall, violations):
    evidence = {
        "property": prop["id"],
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": merged["evaluations"],
            "distinct_nontrivial": len(merged["nontrivial"]),
            "rule": prop["rule"],
            "samples": merged["samples"],
            "per_check": merged["per_sub"],
            "classes": dict(sorted(merged["classes"].items())),
            "not_run_for_time": merged["skipped"],
        },
        "assumptions": prop.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop['id']}.json")
    with open(path, "w", encoding="utf-8") as fout:
        json.dump(evidence, fout, indent=1, default=str)


def adopt_orphans():
    """Become the parent of processes whose parents (workers) have been stopped"""
    with contextlib.suppress(OSError, AttributeError):
        ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER


def stop_descendants():
    """Stop pools of the code under test that a stopped worker has left behind"""
    for _ in range(20):
        parents = {}
        for name in os.listdir("/proc"):
            if name.isdigit():
                with contextlib.suppress(OSError, IndexError, ValueError):
                    with open(f"/proc/{name}/stat", encoding="utf-8", errors="replace") as fin:
                        parents[int(name)] = int(fin.read().rpartition(")")[2].split()[1])
        mine, todo = set(), [os.getpid()]
        while todo:
            parent = todo.pop()
            found = [pid for pid, ppid in parents.items() if ppid == parent and pid not in mine]
            mine.update(found)
            todo.extend(found)
        if not mine:
            return
        for pid in mine:
            with contextlib.suppress(OSError):
                os.kill(pid, signal.SIGKILL)
        with contextlib.suppress(ChildProcessError):
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        time.sleep(0.05)


def run_property(prop, tier, seed, nworkers=NWORKERS):
    """Run all checks of a property with several processes, report, return exit code"""
    adopt_orphans()
    try:
        return run_workers(prop, tier, seed, nworkers)
    finally:
        stop_descendants()


def run_workers(prop, tier, seed, nworkers):
    start = time.time()
    deadline = start + (SOFT_SECONDS if tier == "quick" else 8 * 3600)
    with tempfile.TemporaryDirectory(prefix="pbt_run_") as tmp:
        procs = []
        for widx in range(nworkers):
            out = os.path.join(tmp, f"w{widx}.pkl")
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with open(os.devnull, "w", encoding="utf-8") as null:
                        os.dup2(null.fileno(), 1)
                        worker(prop, widx, nworkers, tier, seed, deadline, out)
                    code = 0
                finally:
                    os._exit(code)
            procs.append((pid, out))
        # Stop the others soon after the first worker has found a failure
        failed_at = None
        alive = dict(procs)
        results = []
        while alive:
            for pid in list(alive):
                done, _ = os.waitpid(pid, os.WNOHANG)
                if done:
                    out = alive.pop(pid)
                    if os.path.exists(out):
                        with open(out, "rb") as fin:
                            results.append(pickle.load(fin))
                    else:
                        results.append({"stats": None, "failure": None, "error": "worker died"})
                    if results[-1]["failure"] is not None and failed_at is None:
                        failed_at = time.time()
            if failed_at is not None and time.time() - failed_at > 5:
                for pid in alive:
                    os.kill(pid, 9)
                for pid in list(alive):
                    os.waitpid(pid, 0)
                alive = {}
            time.sleep(0.02)

    merged = {
        "evaluations": 0,
        "skipped": 0,
        "classes": {},
        "nontrivial": set(),
        "samples": [],
        "per_sub": {},
    }
    for res in results:
        stats = res["stats"]
        if stats is None:
            continue
        merged["evaluations"] += stats["evaluations"]
        merged["skipped"] += stats["skipped"]
        merged["nontrivial"] |= stats["nontrivial"]
        for key in ("classes", "per_sub"):
            for name, num in stats[key].items():
                merged[key][name] = merged[key].get(name, 0) + num
        for name, cases in stats["samples"].items():
            for case in cases:
                if len([1 for s in merged["samples"] if s["check"] == name]) < 2:
                    merged["samples"].append({"check": name, "case": case})
    failures = [r["failure"] for r in results if r["failure"] is not None]
    errors = [r["error"] for r in results if r["error"] is not None]
    wall = time.time() - start
    write_evidence(prop, tier, seed, merged, wall, 1 if failures else 0)
    if failures:
        best = min(failures, key=lambda f: len(canonical(f["case"])))
        folder = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{prop['id']}-{best['sub']}.json")
        with open(path, "w", encoding="utf-8") as fout:
            json.dump({"property": prop["id"], **best}, fout, indent=1)
        print(f"{prop['id']} {best['sub']}: {best['message']}")
        print(f"VIOLATION property={prop['id']} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"ERROR in the check of {prop['id']}", file=sys.stderr)
        return 2
    print(
        f"{prop['id']} held: {merged['evaluations']} cases, "
        f"{len(merged['nontrivial'])} distinct non-trivial, {wall:.1f} s"
    )
    return 0


def replay(prop, path):
    """Run one saved case without Hypothesis"""
    with open(path, encoding="utf-8") as fin:
        saved = json.load(fin)
    sub = [s for s in prop["subs"] if s.name == saved["sub"]][0]
    try:
        check_case(sub, saved["case"])
    except Violation as exc:
        print(f"{prop['id']} {sub.name}: {exc}")
        print(f"VIOLATION property={prop['id']} replay={path}")
        return 1
    print(f"{prop['id']} {sub.name}: the saved case passes")
    return 0
