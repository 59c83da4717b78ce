"""What every check shares: seed, tier, counters, violations, known findings, evidence."""
import os, sys, json, time, random, re, shutil
import circ
ROOT = circ.ROOT
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.violations = []
        self.assumptions = []
        self.level = "model_checking"
        self.findings = self.read_findings()
        self.hit = {}
        self.replay = os.path.join(ROOT, "build", "replay", pid)
        shutil.rmtree(self.replay, ignore_errors=True)

    def read_findings(self):
        """finding: property=C16 key=<key> <text>"""
        out = {}
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.pid: out[m.group(2)] = m.group(3).strip()
        return out

    def rng(self, *parts):
        return random.Random("/".join(map(str, (self.seed, self.pid) + parts)))

    def batches(self, quick, thorough_s=1500):
        """batch numbers: a fixed number in the quick tier, until the time is used in the thorough one"""
        i = 0
        while (i < quick) if not self.thorough else (i < quick or time.time() - self.t0 < thorough_s):
            yield i
            if len(self.violations) >= 5: return
            i += 1

    def tlc(self, r):
        self.states += r.distinct; self.transitions += r.generated

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def sample(self, s, limit=3):
        if len(self.samples) < limit: self.samples.append(s)

    def violation(self, what, replay, key=None):
        """replay: JSON-able description sufficient to reproduce"""
        if key is not None and key in self.findings:
            if key not in self.hit:
                self.hit[key] = True
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.findings[key]))
            return
        os.makedirs(self.replay, exist_ok=True)
        f = os.path.join(self.replay, "%d.json" % (len(self.violations) + 1))
        with open(f, "w") as h: json.dump(dict(property=self.pid, what=what, replay=replay), h, indent=1, default=str)
        self.violations.append((what, f))
        if len(self.violations) <= 5:
            print("# %s" % str(what)[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, f), flush=True)

    def finish(self, tool_error=None):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                                samples=self.samples or ["none"], **self.extra),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if tool_error: ev["coverage"]["tool_error"] = tool_error[:2000]
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as h: json.dump(ev, h, indent=1, default=str)
        print("%s %s: %d TLC states, %d traces, %s, %.0f s" % (self.pid, "violated" if self.violations else "tool error" if tool_error else "held",
              self.states, self.traces, ", ".join("%s=%s" % x for x in self.extra.items() if isinstance(x[1], int)), time.time() - self.t0))
        if self.violations: return 1
        return 2 if tool_error else 0
