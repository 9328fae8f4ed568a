"""Verdicts: runs harnesses, reads what the monitors logged, writes evidence."""
import concurrent.futures as cf
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:abort_on_error=0:"
                    "exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:"
                    "max_allocation_size_mb=4096:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1",
    "GLOG_logtostderr": "1", "GLOG_minloglevel": "2", "TF_CPP_MIN_LOG_LEVEL": "3",
    "PYTHONHASHSEED": "0",
}


class Inconclusive(Exception):
    pass


class Check:
    def __init__(self, pid, rule, assumptions=(), min_cases=1):
        self.pid, self.rule = pid, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.counters, self.samples = {}, []
        self.distinct = 0
        self.viols = []      # dict(key, detail, replay)
        self.notes = {}
        self.min_cases = min_cases
        self.required = []   # counters that must be non-zero

    def add_stats(self, st):
        for k, v in st.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v
        d = st.get("distinct", 0)
        self.distinct += d[0] if isinstance(d, list) else d
        for s in st.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)

    def violation(self, key, detail, replay=None):
        self.viols.append(dict(key=key, detail=detail, replay=replay or {}))

    # -- harness processes -------------------------------------------------
    def run_procs(self, cmds, timeout, env=None, workers=8, cwd=None):
        """cmds: list of argv.  Reads VIOL/DEATH/STATS lines from each."""
        e = dict(os.environ)
        e.update(SAN_ENV)
        e.update(env or {})

        def one(argv):
            try:
                p = subprocess.run(argv, env=e, capture_output=True, timeout=timeout, cwd=cwd)
                return argv, p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
            except subprocess.TimeoutExpired as x:
                return argv, "timeout", (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace")

        with cf.ThreadPoolExecutor(workers) as ex:
            for argv, rc, out, err in ex.map(one, cmds):
                self._read(argv, rc, out, err)

    def _read(self, argv, rc, out, err):
        stats = False
        death = None
        short = [os.path.basename(str(argv[0]))] + [str(a) for a in argv[1:]]
        for line in out.splitlines():
            f = line.split("\t")
            if f[0] == "VIOL" and len(f) >= 5:
                self.violation(f[3], f[4], dict(cmd=short, group=f[1], case=f[2]))
            elif f[0] == "DEATH" and death is None:
                death = f
            elif f[0] == "GAP" and len(f) >= 3:
                self.notes.setdefault("not_decided", [])
                if f[1:3] not in self.notes["not_decided"] and len(self.notes["not_decided"]) < 20:
                    self.notes["not_decided"].append(f[1:3])
            elif f[0] == "STATS":
                self.add_stats(json.loads(f[1]))
                stats = True
        if rc == "timeout":
            self.notes.setdefault("timeouts", []).append(short)
            self.violation_or_hang(short, out, err)
            return
        if rc in (0, 3) and stats:
            return
        # The process died: sanitizer report, failed CHECK, signal, exception.
        tail = err[-5000:]
        key = "crash"
        for mark, k in (("HANG:", "hang"), ("AddressSanitizer", "asan"), ("runtime error:", "ubsan"),
                        ("Check failed", "check_failed"), ("ThreadSanitizer", "tsan"),
                        ("terminate called", "exception"), ("Assertion", "assert"),
                        ("Traceback (most recent", "pyerror")):
            if mark in err:
                key = k
                break
        if key == "pyerror" and death is None:
            self.notes["inconclusive"] = "harness error: %s\n%s" % (short, tail[-1500:])
            return
        where = " in group %s case %s" % (death[1], death[2]) if death else ""
        self.violation("crash:" + key + (":" + death[1] if death else ""),
                       "process ended with %s%s: %s | input: %s" % (
                           rc, where, _digest(err), death[3][:3000] if death and len(death) > 3 else ""),
                       dict(cmd=short, group=death[1] if death else None,
                            case=death[2] if death else None, stderr=tail))

    def violation_or_hang(self, short, out, err):
        # A watchdog firing is no verdict.
        self.notes["inconclusive"] = "watchdog fired for %s" % (short,)

    # -- verdict -----------------------------------------------------------
    def known(self):
        out = []
        p = VERIF + "/known_findings.jsonl"
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#"):
                    d = json.loads(line)
                    if d.get("property") == self.pid and d.get("status") == "known":
                        out.append(d)
        return out

    def finish(self):
        known = self.known()
        real, seen_known = [], {}
        for v in self.viols:
            for k in known:
                if v["key"] == k["key"]:
                    seen_known.setdefault(k["key"], v)
                    break
            else:
                real.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(
            property=self.pid, tier=TIER, seed=SEED, level="exploration",
            coverage=dict(
                evaluations=int(self.counters.get("cases", 0)),
                distinct_nontrivial=int(self.distinct),
                rule=self.rule, samples=self.samples[:12] or ["(none)"],
                monitor_checks=int(self.counters.get("checks", 0)),
                counters={k: int(v) for k, v in sorted(self.counters.items())},
                known_findings_reobserved=sorted(seen_known),
                **self.notes),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
            violations=len(real))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if real:
            os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
            path = "%s/evidence/replay/%s.json" % (VERIF, self.pid)
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, violations=real[:50]), f, indent=1)
            for v in real[:8]:
                print("  [%s] %s" % (v["key"], str(v["detail"])[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        miss = [c for c in self.required if not self.counters.get(c)]
        gaps = self.counters.get("gaps", 0)
        if gaps:
            # The code calls something that a stand-in lacks: the cases that came to that have no verdict, the others have.
            print("NOTE property=%s %d cases without a verdict: %s" % (self.pid, gaps, self.notes.get("not_decided", [])[:3]))
            miss = []
            self.min_cases = 1
        if self.notes.get("inconclusive") or miss or \
                self.counters.get("cases", 0) < self.min_cases or not self.distinct:
            print("INCONCLUSIVE property=%s cases=%s distinct=%s missing=%s %s" % (
                self.pid, self.counters.get("cases", 0), self.distinct, miss,
                self.notes.get("inconclusive", "")))
            return 2
        print("HELD property=%s evaluations=%d distinct=%d checks=%d wall=%.1fs" % (
            self.pid, self.counters.get("cases", 0), self.distinct,
            self.counters.get("checks", 0), time.time() - self.t0))
        return 0


def _digest(err):
    lines = [l for l in err.splitlines() if any(m in l for m in (
        "ERROR: AddressSanitizer", "runtime error", "Check failed", "terminate called", "what():",
        "Assertion", "FATAL", "Error:", "SUMMARY")) or l.strip().startswith("#")]
    return " / ".join(l.strip() for l in lines[:14])[:2500] or err[-800:]
