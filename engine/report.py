"""Check driver plumbing: evidence, known findings, VIOLATION lines, exit codes."""
import contextlib, json, os, sys, time, traceback
import frontend as fe
from frontend import AnalysisBroken

KNOWN = os.path.join(fe.VERIF, "known_findings.jsonl")


CHECKS = []


class Check:
    def __init__(self, pid, rule, level="other"):
        self.pid = pid; self.rule = rule; self.level = level
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.findings = []      # (key, message)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.analysed = {}
        self.obl = 0; self.ok = 0
        self.broken = []
        CHECKS.append(self)

    @contextlib.contextmanager
    def part(self, name):
        """an independent part: if it cannot be analysed the others still are"""
        try:
            yield
        except AnalysisBroken as e:
            self.broken.append("%s: %s" % (name, e))
        except Exception as e:
            self.broken.append("%s: %s\n%s" % (name, e, traceback.format_exc()))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def oblige(self, holds, key, msg, sample=None):
        """one obligation (rule instance): key must be stable under unrelated edits (no line numbers)"""
        self.obl += 1
        if holds:
            self.ok += 1
            if sample:
                self.sample(sample)
        else:
            self.find(key, msg)
        return holds

    def find(self, key, msg):
        if key not in [k for k, _ in self.findings]:
            self.findings.append((key, msg))

    def floor(self, name, n):
        got = self.counts.get(name, 0) if name != "obligations" else self.obl
        if got < n and not self.broken:
            raise AnalysisBroken("%s: %d instances of '%s', expected at least %d" % (self.pid, got, name, n))

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if not l or l.startswith("#") or l.startswith("fixed:"):
                    continue
                o = json.loads(l)
                if o.get("property") == self.pid and "key" in o:
                    out[o["key"]] = o
        return out

    def finish(self, explanation):
        known = self.known()
        viol = []
        for k, m in self.findings:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, m))
            else:
                viol.append((k, m))
        cov = {"explanation": explanation, "rule": self.rule, "obligations": self.obl, "discharged": self.ok,
               "analysed": self.analysed, "counts": self.counts, "samples": self.samples,
               "known_findings_seen": [k for k, _ in self.findings if k in known]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "violations": len(viol), "wall_s": round(time.time() - self.t0, 3)}
        os.makedirs(fe.VERIF + "/evidence", exist_ok=True)
        with open(fe.VERIF + "/evidence/%s.json" % self.pid, "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged; %s" % (self.pid, self.obl, self.ok, json.dumps(self.counts)))
        for b in self.broken if viol else ():
            print("  incomplete: %s" % b)
        if viol:
            d = fe.VERIF + "/evidence/replay"
            os.makedirs(d, exist_ok=True)
            p = d + "/%s.txt" % self.pid
            with open(p, "w") as f:
                for k, m in viol:
                    f.write("%s\n  key: %s\n" % (m, k))
            for k, m in viol[:40]:
                print("  %s   [%s]" % (m, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        if self.broken:
            for b in self.broken:
                print("ANALYSIS-BROKEN %s: %s" % (self.pid, b))
            return 2
        return 0

    def unlisted(self):
        known = self.known()
        return [k for k, _ in self.findings if k not in known]


def main(pid, fn):
    try:
        rc = fn()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % pid)
        rc = 2
    if rc == 2:
        for c in CHECKS:
            if c.unlisted():       # what was found before the analysis broke still counts
                rc = c.finish("incomplete: part of the analysis could not be carried out")
    sys.stdout.flush()
    sys.exit(rc)
