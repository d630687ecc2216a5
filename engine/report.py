"""Collects obligations and findings of the analyses, prints verdicts, writes evidence."""
import json, os, sys, time, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Finding:
    def __init__(self, props, rule, site, text, key=None):
        self.props, self.rule, self.site, self.text = tuple(props), rule, site, text
        self.key = key or rule

class Report:
    """One analysis run; obligations carry the ids of the properties they support."""
    def __init__(self):
        self.obl = {}           # (rule, where) -> [props, status, detail]
        self.findings = []
        self.funcs = set(); self.notes = []; self.sites = set()
    def ok(self, props, rule, where="", detail=""):
        self._put(props, rule, where, "holds", detail)
    def und(self, props, rule, where="", detail=""):
        self._put(props, rule, where, "undecided", detail)
    def bad(self, props, rule, where="", detail="", site=None):
        self._put(props, rule, where, "violated", detail)
        self.findings.append(Finding(props, rule, site or where, detail))
    def _put(self, props, rule, where, st, detail):
        k = (rule, where)
        o = self.obl.get(k)
        rank = {"holds": 0, "undecided": 1, "violated": 2}
        if o is None: self.obl[k] = [set(props), st, detail]
        else:
            o[0] |= set(props)
            if rank[st] > rank[o[1]]: o[1], o[2] = st, detail
    def analysed(self, f): self.funcs.add(f)

def known():
    """known findings: list of (property, rule, substring)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"): continue
            if l.startswith("finding:"):
                # finding: property=<id> rule=<rule> where=<site substring> | description
                head, _, desc = l[8:].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                out.append((d["property"], d["rule"], d.get("where", ""), desc.strip()))
    return out

def finish(pid, rep, t0, title, rule_text, trusted, extra=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ev = os.path.join(HERE, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    mine = {k: v for k, v in rep.obl.items() if pid in v[0]}
    nh = sum(1 for v in mine.values() if v[1] == "holds"); nu = sum(1 for v in mine.values() if v[1] == "undecided")
    fs = [f for f in rep.findings if pid in f.props]
    kf = known(); new = []; old = []
    for f in fs:
        m = [k for k in kf if k[0] == pid and k[1] == f.rule and k[2] in (f.site + " " + f.text)]
        (old if m else new).append((f, m[0][3] if m else None))
    seen = set()
    for f, d in old:
        line = "KNOWN-FINDING: property=%s %s" % (pid, d)
        if line not in seen: print(line); seen.add(line)
    rc = 0
    if new:
        rp = os.path.join(ev, "replay", pid + ".txt")
        with open(rp, "w") as o:
            for f, _ in new: o.write("rule %s\nconstruct %s\n%s\n\n" % (f.rule, f.site, f.text))
        for f, _ in new[:8]: print("  [%s] %s: %s" % (f.rule, f.site, f.text[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    else:
        rp = os.path.join(ev, "replay", pid + ".txt")
        if os.path.exists(rp): os.unlink(rp)
        print("%s: %d obligations discharged, %d undecided, %d functions analysed" % (pid, nh, nu, len(rep.funcs)))
    cov = {"explanation": rule_text, "obligations": len(mine), "discharged": nh, "undecided": nu, "violated": len(mine) - nh - nu,
        "functions_analysed": len(rep.funcs), "functions": sorted(rep.funcs)[:200], "trusted_base": trusted,
        "samples": [{"rule": k[0], "where": k[1], "status": v[1], "detail": str(v[2])[:300]} for k, v in list(mine.items())[:60]],
        "undecided_list": [{"rule": k[0], "where": k[1], "detail": str(v[2])[:300]} for k, v in mine.items() if v[1] == "undecided"][:60],
        "known_findings": [d for f, d in old]}
    if extra: cov.update(extra)
    if rep.notes: cov["notes"] = rep.notes[:40]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3)},
        open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    return rc

def merge(rep, r):
    for (rule, where), (props, st, det) in r.obl.items(): rep._put(props, rule, where, st, det)
    rep.findings += r.findings; rep.funcs |= r.funcs; rep.notes += r.notes; rep.sites |= r.sites

_jobs = None
def _one(i):
    r = Report()
    try: _jobs[i](r)
    except Exception as e:
        import traceback
        return ("err", traceback.format_exc())
    return ("ok", (r.obl, [(f.props, f.rule, f.site, f.text, f.key) for f in r.findings], r.funcs, r.notes, r.sites))

class JobError(Exception): pass

def parallel(rep, jobs):
    """run analyses (functions of a Report) in forked workers and merge what they report"""
    global _jobs
    import multiprocessing as mpc
    n = min(8, os.cpu_count() or 1, len(jobs))
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        for j in jobs: j(rep)
        return
    _jobs = jobs
    with mpc.get_context("fork").Pool(n) as p: res = p.map(_one, range(len(jobs)), 1)
    _jobs = None
    for st, x in res:
        if st == "err": raise JobError(x)
        r = Report(); r.obl, fs, r.funcs, r.notes, r.sites = x
        r.findings = [Finding(*f) for f in fs]
        merge(rep, r)
