"""The frame of every check: cases, verdicts, known findings, replay files, evidence."""
import argparse, collections, json, os, random, re, shutil, sys, time, traceback

from . import build, jail

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known-findings.json")
SAN = re.compile(r"(ERROR: AddressSanitizer|UndefinedBehaviorSanitizer|LeakSanitizer|runtime error:|DEADLYSIGNAL|"
                 r"Assertion .* failed|__glibcxx_assert|terminate called)")


class CheckError(Exception):
    """the check itself could not give an answer"""


class Result:
    """what one case observed (picklable)"""

    def __init__(self):
        self.viol = []          # (key, message)
        self.counts = collections.Counter()
        self.sig = None         # signature of what the case was: distinct cases have distinct signatures
        self.nontrivial = False
        self.sample = None
        self.inconclusive = None
        self.tags = set()       # distinct observed things (states, interleavings ...), counted over the run

    def bad(self, key, msg):
        if len(self.viol) < 5:
            self.viol.append((key, str(msg)[:6000]))


def san_key(text):
    """a stable name for a sanitizer report: kind + innermost frame of the code under test"""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:60]
    if not kind:
        m = re.search(r"(Assertion [^\n]*failed|terminate called[^\n]*)", text)
        kind = m.group(1)[:100] if m else "report"
    fr = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*)", text):
        f = m.group(1)
        if "/repo/src/" in f or "src/" in f and ".cxx" in f:
            fr = re.sub(r":\d+(:\d+)?$", "", f.split("/src/")[-1]) + " " + re.split(r"[(<]", f)[0]
            break
    if not fr:
        m = re.search(r"src/(\w+\.(?:cxx|h)):\d+", text)
        fr = m.group(1) if m else ""
    return "sanitizer:%s@%s" % (kind, fr)


def load_known(pid):
    if not os.path.exists(KNOWN):
        return []
    return [k for k in json.load(open(KNOWN))["findings"] if k["property"] == pid]


class Check:
    def __init__(self, pid, title, rule, level="exploration", assumptions=()):
        self.pid, self.title, self.rule, self.level = pid, title, rule, level
        self.assumptions = list(assumptions)
        ap = argparse.ArgumentParser()
        ap.add_argument("id", nargs="?")
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--replay")
        ap.add_argument("--cases", type=int)
        ap.add_argument("--verbose", "-v", action="store_true")
        self.args = ap.parse_args()
        self.tier = self.args.tier if self.args.tier in ("quick", "thorough") else "quick"
        self.seed = self.args.seed
        self.t0 = time.time()
        self.scratch = jail.Scratch(pid)
        self.known = load_known(pid)
        self.counts = collections.Counter()
        self.sigs = set()
        self.tags = set()
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.incon = []
        self.n = 0

    # -- sizes -------------------------------------------------------------------------------
    def size(self, quick, thorough):
        if self.args.cases:
            return self.args.cases
        return quick if self.tier == "quick" else thorough

    # -- verdicts ----------------------------------------------------------------------------
    def take(self, task, res):
        self.n += 1
        self.counts.update(res.counts)
        self.tags |= res.tags
        if res.sig is not None:
            self.sigs.add(res.sig)
            if res.nontrivial:
                self.nontrivial.add(res.sig)
        if res.sample is not None and len(self.samples) < 6 and (res.nontrivial or not self.samples):
            self.samples.append(res.sample)
        if res.inconclusive:
            self.incon.append(str(res.inconclusive)[:300])
        for key, msg in res.viol:
            self.violation(key, msg, task)

    def violation(self, key, msg, task=None):
        for k in self.known:
            if re.fullmatch(k["key"], key):
                self.known_hit.setdefault(k["id"], (k, msg))
                return
        if len(self.violations) < 20:
            d = os.path.join(build.BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations)))
            json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "task": task, "key": key, "message": msg},
                      open(p, "w"), indent=1, default=str)
            self.violations.append((key, msg, p))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + key + "\n  " + msg.replace("\n", "\n  ")[:3000], flush=True)

    # -- running -----------------------------------------------------------------------------
    def run(self, template, func, tasks, timeout=300, n=None, init=None, stop_after=8, copies=False):
        """func(task) -> Result runs in a jailed worker.  Tasks are small and JSON-able."""
        if self.args.replay:
            t = json.load(open(self.args.replay))["task"]
            tasks = [t]
        pool = jail.Pool(self.scratch, template, func, n=n, init=init, copies=copies)
        again = []
        try:
            for rnd in (0, 1):
                for task, st, res in pool.map(tasks, timeout):
                    if st == "ok":
                        self.take(task, res)
                    elif st == "exc":
                        raise CheckError("case %r: %s" % (task, res))
                    elif rnd == 0:
                        again.append(task)
                    else:
                        self.incon.append("%s: %r" % (st, task))
                    if len(self.violations) >= int(os.environ.get("VERIF_STOP", stop_after)):
                        return
                tasks, again = again, []
                if not tasks:
                    break
        finally:
            pool.close()

    # -- the end -----------------------------------------------------------------------------
    def finish(self, min_nontrivial=None, extra=None):
        cov = {"evaluations": self.n, "distinct_nontrivial": len(self.nontrivial), "rule": self.rule,
               "samples": self.samples[:5], "observed": dict(sorted(self.counts.items())),
               "inconclusive_cases": len(self.incon)}
        if self.tags:
            cov["distinct_observations"] = len(self.tags)
            cov["observation_examples"] = sorted(map(str, self.tags))[:12]
        if extra:
            cov.update(extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": len(self.violations)}
        if self.known_hit:
            cov["known_findings_met"] = sorted(self.known_hit)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.args.replay:
            json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, k["id"], k["what"]))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %d inconclusive, %.1f s"
              % (self.pid, self.tier, self.seed, self.n, len(self.nontrivial), len(self.violations),
                 len(self.incon), time.time() - self.t0))
        for k, v in sorted(self.counts.items()):
            print("   %-44s %d" % (k, v))
        for i in self.incon[:3]:
            print("   inconclusive:", i)
        self.scratch.close()
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        if self.args.replay or self.args.cases:
            sys.exit(0)
        if min_nontrivial and len(self.nontrivial) < min_nontrivial:
            print("ERROR: only %d non-trivial cases observed, %d wanted" % (len(self.nontrivial), min_nontrivial))
            sys.exit(2)
        if len(self.incon) > max(3, self.n // 20):
            print("ERROR: too many inconclusive cases")
            sys.exit(2)
        sys.exit(0)


def rng_for(*parts):
    return random.Random(":".join(map(str, parts)))
