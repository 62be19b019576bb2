"""Obligations, known findings, evidence and exit status of one check."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    """exact keys listed for a property: {key: text}"""
    out = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.rstrip("\n")
            if not line.startswith("finding: "):
                continue
            head, _, text = line[9:].partition(" | ")
            p, _, k = head.partition(" key=")
            if p.strip() == "property=" + prop:
                out[k.strip()] = text.strip()
    return out


class Report:
    def __init__(self, prop, rule):
        self.prop = prop
        self.rule = rule
        self.t0 = time.time()
        self.okc = 0
        self.fails = {}
        self.unknowns = {}
        self.samples = []
        self.counts = {}
        self.assume = []
        self.groups = {}

    def ok(self, key, sample=None):
        self.okc += 1
        g = key.split(":")[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        if sample is not None and len([s for s in self.samples if s["group"] == g]) < 3:
            self.samples.append({"group": g, "obligation": key, "detail": str(sample)[:400]})

    def fail(self, key, msg, where=None):
        g = key.split(":")[0]
        self.groups[g] = self.groups.get(g, 0) + 1
        if key not in self.fails:
            self.fails[key] = (msg, where)

    def check(self, cond, key, msg, where=None, sample=None):
        if cond:
            self.ok(key, sample)
        else:
            self.fail(key, msg, where)
        return cond

    def unknown(self, key, why):
        self.unknowns[key] = str(why)[:300]

    def floor(self, name, count, least):
        """fail closed when a rule matches fewer sites than confirmed by hand (a site
        that it matches but cannot decide is reported as undecided, not as a violation)"""
        self.counts[name] = count
        if count + len(self.unknowns) < least:
            self.fail("floor:" + name, "only %d sites matched, at least %d were confirmed by hand: the rule no longer sees the code it is about" % (count, least))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def merge(self, r):
        """add what another report holds"""
        self.okc += r.okc
        for k, v in r.fails.items():
            self.fails.setdefault(k, v)
        self.unknowns.update(r.unknowns)
        self.samples += r.samples
        for k, v in r.groups.items():
            self.groups[k] = self.groups.get(k, 0) + v
        for k, v in r.counts.items():
            self.count(k, v)
        self.assume += [a for a in r.assume if a not in self.assume]

    def finish(self, tier, seed, info=None, level="other"):
        kn = known(self.prop)
        rep = os.path.join(VERIF, "evidence", self.prop + ".report.json")
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        viol = {k: v for k, v in self.fails.items() if k not in kn}
        hit = {k: v for k, v in self.fails.items() if k in kn}
        with open(rep, "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "rule": self.rule,
                    "violations": [{"key": k, "what": m, "where": w} for k, (m, w) in sorted(viol.items())],
                    "known": [{"key": k, "what": m, "where": w} for k, (m, w) in sorted(hit.items())],
                    "undecided": self.unknowns,
                },
                f,
                indent=1,
            )
        ev = {
            "property": self.prop,
            "tier": tier,
            "seed": seed,
            "level": level,
            "coverage": {
                "explanation": self.rule,
                "obligations": self.okc + len(self.fails) + len(self.unknowns),
                "discharged": self.okc,
                "undecided": len(self.unknowns),
                "known_findings": len(hit),
                "by_group": self.groups,
                "analysed": self.counts,
                "samples": self.samples[:40],
                "program": info or {},
            },
            "assumptions": self.assume,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, kn[k] or hit[k][0]))
        print("%s: %d obligations, %d discharged, %d known findings, %d undecided, %d violations (%.1fs)" % (self.prop, ev["coverage"]["obligations"], self.okc, len(hit), len(self.unknowns), len(viol), ev["wall_s"]))
        if os.environ.get("VERBOSE"):
            for k, v in sorted(self.unknowns.items()):
                print("  undecided %s: %s" % (k, v))
        if viol:
            for k, (m, w) in sorted(viol.items()):
                print("  %s: %s%s" % (k, m[:600], (" [%s]" % (w,)) if w else ""))
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0
