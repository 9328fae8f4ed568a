"""Python side of the monitors: cases, counters, violations (see cc/vh.h)."""
import argparse
import faulthandler
import hashlib
import json
import math
import os
import random
import re
import signal
import sys
import time
import traceback

COUNTERS, SAMPLES, DISTINCT = {}, [], set()
_state = {"group": "", "case": 0, "crumb": "", "viols": 0}


class HarnessGap(Exception):
    """The stand-ins for missing libraries do not offer what the code uses."""


def count(name, n=1):
    COUNTERS[name] = COUNTERS.get(name, 0) + int(n)


def nontrivial(x):
    if not isinstance(x, bytes):
        x = str(x).encode()
    DISTINCT.add(hashlib.blake2b(x, digest_size=8).digest())


def crumb(text):
    _state["crumb"] = str(text)


def sample(text):
    if len(SAMPLES) < 3:
        SAMPLES.append((_state["group"] + ": " + str(text))[:600])


def violation(key, detail):
    _state["viols"] += 1
    if _state["viols"] <= 40:
        d = str(detail)[:3000].replace("\t", " ").replace("\n", " / ").replace("\r", " ")
        print("VIOL\t%s\t%d\t%s\t%s" % (_state["group"], _state["case"], key, d), flush=True)


def expect(cond, key, detail=""):
    count("checks")
    if not cond:
        violation(key, detail() if callable(detail) else detail)
    return bool(cond)


def near(a, b, tol=1e-9, rel=1e-9):
    return a == b or (a != a and b != b) or abs(a - b) <= tol + rel * max(abs(a), abs(b))


def close(a, b, tol=1e-9, rel=1e-9):
    """Arrays of the same shape, equal within a tolerance (NaN equals NaN)."""
    import numpy as np
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=rel, atol=tol, equal_nan=True))


def refused(fn, *errors):
    """Whether fn() ends with an exception (of one of the given classes)."""
    try:
        fn()
    except HarnessGap:
        raise
    except errors or (Exception,):
        return True
    return False


class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang("no answer in time")


def _in_repo(tb):
    return any("/waymo_open_dataset/" in f.filename for f in traceback.extract_tb(tb))


def _shim_gap(e):
    """Whether a stand-in (not the code) does not know an argument."""
    m = re.match(r"([\w.]+)(?:\(\))? (?:got|takes|missing)", str(e)) if isinstance(e, TypeError) else None
    if not m:
        return False
    name = m.group(1).split(".")[-1]
    return any(getattr(getattr(v, "__code__", None), "co_name", "") == name and "/tfshim/" in v.__code__.co_filename
               for mod in list(sys.modules.values()) if "/tfshim/" in (getattr(mod, "__file__", None) or "")
               for v in list(vars(mod).values()))


def main(groups, seconds=60):
    """groups: list of (name, weight, fn(rng))."""
    ap = argparse.ArgumentParser()
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=100)
    ap.add_argument("--ms", type=int, default=60000)
    ap.add_argument("--group", default="")
    ap.add_argument("--case", type=int, default=-1)
    a, _ = ap.parse_known_args()
    faulthandler.enable()
    signal.signal(signal.SIGALRM, _alarm)
    only = a.group or os.environ.get("VERIF_GROUP", "")
    if only:
        groups = [g for g in groups if g[0] == only]
    end = time.time() + a.ms / 1000.0
    done = {g[0]: 0 for g in groups}
    want = {g[0]: max(1, int(a.cases * g[1])) for g in groups}
    gaps = {}

    def gap(name, e):
        count("gaps")
        gaps[name] = gaps.get(name, 0) + 1
        if gaps[name] <= 2:
            print("GAP\t%s\t%s" % (name, " ".join(str(e).split())[:300]), flush=True)
        if gaps[name] >= 200:  # Nothing more to learn from this group.
            done[name] = want[name]

    # Round robin, so that a time limit takes from every group.
    while any(done[g] < want[g] for g in done) and time.time() < end:
        for name, _, fn in groups:
            if done[name] >= want[name]:
                continue
            i = done[name]
            done[name] += 1
            if a.case >= 0 and i != a.case:
                continue
            _state.update(group=name, case=i, crumb="")
            rng = random.Random("%d/%s/%d" % (a.seed, name, i))
            signal.alarm(seconds)
            viols = _state["viols"]
            try:
                fn(rng)
            except HarnessGap as e:  # A stand-in does not know this: no verdict on this case.
                signal.alarm(0)
                gap(name, e)
                continue
            except (KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:  # Includes Hang.
                signal.alarm(0)
                tb = e.__traceback__
                text = "".join(traceback.format_exception(type(e), e, tb))
                if _shim_gap(e):
                    gap(name, e)
                    continue
                if _in_repo(tb):
                    where = [f for f in traceback.extract_tb(tb) if "/waymo_open_dataset/" in f.filename][-1]
                    violation("exception:%s" % type(e).__name__, "%s at %s:%s (%s) | input: %s" % (
                        str(e)[:400], os.path.basename(where.filename), where.lineno, where.name, _state["crumb"][:2000]))
                    if isinstance(e, Hang):
                        break
                elif isinstance(e, (ImportError, MemoryError, OSError)):
                    if _state["viols"] == viols:
                        print(text, file=sys.stderr)
                        sys.exit(1)
                elif _state["viols"] == viols:  # The oracle cannot even read the result.
                    violation("unreadable:%s" % type(e).__name__, "%s | input: %s" % (text[-1200:], _state["crumb"][:1500]))
            signal.alarm(0)
            count("cases")
            count("cases_" + name)
    print("STATS\t" + json.dumps(dict(counters=COUNTERS, distinct=len(DISTINCT), samples=SAMPLES)), flush=True)
    sys.exit(0)
