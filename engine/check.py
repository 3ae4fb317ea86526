"""Decides one property of unicode-intervals from its current source.

usage: check.py PROPERTY [--thorough]
exit 0: nothing reported, exit 1: VIOLATION line(s)
"""
import json, multiprocessing as mp, os, re, resource, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import an, build, plan, pyrule
from prog import Prog

VERIF = build.VERIF
PANIC = ("panic", "bounds", "overflow", "assert", "div", "unwrap")


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return []


def short(fn):
    return re.sub(r"::<.*>$", "", fn)


class Finding:
    def __init__(self, key, text, detail=""):
        self.key, self.text, self.detail = key, text, detail


G = {}


def work(i):
    job = G["jobs"][i]
    r = work1(job)
    # states were merged to save time: an alarm is believed if it remains without that
    if r["alarms"] and any("coarse merge" in k for k, _ in r["unsup"]) and r["status"] == "done":
        left = G["deadline"] - time.time()
        if left > 60:
            r2 = work1(dict(job, limit=4 * (job.get("limit") or 24), t=min(left - 30, 4 * r.get("wall", 30) + 60)))
            if r2["status"] == "done" and not r2["alarms"]:
                return r2
    return r


def work1(job):
    t0 = time.time()
    r = {"job": job["name"], "status": "", "obl": {}, "proved": {}, "alarms": [], "unsup": [], "stmts": 0, "peak": 0, "fns": [], "loops": 0}
    left = G["deadline"] - t0
    if left < 2:
        r["status"] = "not started (time)"
        return r
    try:
        m = an.run(G["p"], G["ref"], job["h"], ver=job.get("ver"), param=job.get("param", 0), cat=job.get("cat"), obs=job.get("obs", True),
                   opts={"states": True, "limit": job.get("limit"), "contracts": [c for c in job.get("ct", ()) if c not in G.get("drop", ())]}, deadline=t0 + min(job.get("t", 300), left))
    except RecursionError:
        r["status"] = "unsupported: recursion"
        return r
    except MemoryError:
        r["status"] = "unsupported: memory"
        return r
    except Exception as e:
        import traceback
        r["status"] = "error: %s" % traceback.format_exc()[-600:]
        return r
    r["status"] = m.status
    r["obl"], r["proved"], r["stmts"], r["peak"] = m.obligations, m.proved, m.stmts, m.peak
    r["fns"] = sorted(m.fns_seen) if hasattr(m, "fns_seen") else []
    r["loops"] = len(m.loops)
    r["checks"] = m.checks
    r["rets"] = len(m.rets)
    for k, a in m.alarms.items():
        r["alarms"].append({"kind": a["kind"], "msg": a["msg"], "fn": a["fn"], "at": a["at"], "n": a["n"], "taint": list(a["taint"] or [])[:3],
                            "stack": a["stack"][:12], "trail": a["trail"][-40:], "state": (a.get("state") or "")[:6000]})
    r["unsup"] = [[str(k), v] for k, v in list(m.unsup.items())[:80]]
    r["wall"] = time.time() - t0
    return r


def run_jobs(jobs, deadline, procs=None):
    G["jobs"], G["deadline"] = jobs, deadline
    if not jobs:
        return []
    n = min(procs or int(os.environ.get("VERIF_PROCS", "8")), len(jobs))
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("w", 1))
    if n == 1:
        return [work(i) for i in order]
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=8) as pool:
        return list(pool.imap_unordered(work, order, chunksize=1))


def bad_contracts(prop, jobs, res):
    """contracts that a prover or a caller does not meet"""
    by = {j["name"]: j for j in jobs}
    bad = set()
    for r in res:
        for a in r["alarms"]:
            if a["taint"] or a["kind"] not in ("prove", "unreachable") or not plan.counts(prop, a["msg"]):
                continue
            if by[r["job"]].get("of"):
                bad.add(by[r["job"]]["of"])
            elif a["msg"].startswith("CP "):
                m = re.search(r"h_c_(\w+)", a["fn"])
                if m:
                    bad.add(m.group(1))
    return bad


def reconsider(prop, jobs, res, deadline, notes):
    """a contract that does not hold is not yet a wrong result: analyse the functions in place instead.
    Only a complete analysis without it clears the alarm."""
    bad = bad_contracts(prop, jobs, res)
    if not bad:
        return res
    notes.append("analysed in place after all: %s" % ", ".join(sorted(bad)))
    again = [j for j in jobs if set(j.get("ct", ())) & bad and j["h"] == "h_query"]
    G["drop"] = bad
    # a few cases first: if one of them fails or does not end, the first result stands
    left = deadline - time.time()
    if left < 60:
        return res
    probe = again[::max(1, len(again) // 8)][:8]
    r1 = run_jobs([dict(j, t=min(left - 20, 150)) for j in probe], deadline)
    clean = lambda rs: all(r["status"] == "done" and not any(plan.relevant(prop, a) for a in r["alarms"]) for r in rs)
    if not clean(r1):
        G["drop"] = ()
        return res
    rest = [j for j in again if j not in probe]
    r2 = run_jobs(rest, deadline)
    if not clean(r2):
        G["drop"] = ()
        return res
    names = {j["name"] for j in again} | {j["name"] for j in jobs if j.get("of") in bad}
    return [r for r in res if r["job"] not in names] + r1 + r2


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    # a deadline that leaves room to report
    deadline = t0 + (720 if tier == "quick" else 3600)
    findings, undecided, notes = [], [], []
    cov = {"obligations": 0, "discharged": 0}
    jobs, rules = plan.plan(prop, tier)
    res = []
    info = {}
    try:
        p = ref = None
        if jobs or plan.needs_dump(prop):
            p = Prog(build.dump(plan.CRATE.get(prop, "witness")))
            ref = an.make_ref(p) if plan.CRATE.get(prop) != "pystub" else None
            G["p"], G["ref"] = p, ref
            missing = [j["h"] for j in jobs if j["h"] not in p.roots]
            if missing:
                findings.append(Finding("anchor:" + missing[0], "harness %s is missing from the analysed program" % missing[0]))
                jobs = [j for j in jobs if j["h"] in p.roots]
        res = run_jobs(jobs, deadline)
        res = reconsider(prop, jobs, res, deadline, notes)
        for rule in rules:
            f, o, d, inf = rule(p, ref)
            findings += f
            cov["obligations"] += o
            cov["discharged"] += d
            info.update(inf)
    except build.BuildError as e:
        if e.what == "witness":
            err = [l for l in e.text.splitlines() if l.startswith("error")][:3]
            findings.append(Finding("api", "the witness program no longer compiles against the crate: %s" % "; ".join(err), e.text[-4000:]))
        elif e.what in ("pybind", "pystub"):
            # written against another part of pyo3 than the stand-in provides, or not valid at all
            undecided.append("the binding does not compile against the stand-in for pyo3: %s" % "; ".join([l for l in e.text.splitlines() if l.startswith("error")][:3]))
            for rule in rules:
                if rule is pyrule.reexports:
                    findings += rule(None, None)[0]
        else:
            print("ERROR: %s\n%s" % (e.what, e.text[-3000:]))
            sys.exit(3)
    statuses = {}
    seen = {}
    for r in res:
        st = r["status"]
        statuses[st.split(":")[0].split(" (")[0]] = statuses.get(st.split(":")[0].split(" (")[0], 0) + 1
        for msg, n in r["obl"].items():
            if plan.counts(prop, msg):
                cov["obligations"] += n
                cov["discharged"] += min(n, r["proved"].get(msg, 0))
        if prop in plan.NO_OBLIGATION:
            cov["obligations"] += r.get("checks", 0)
            cov["discharged"] += max(0, r.get("checks", 0) - sum(a["n"] for a in r["alarms"] if a["kind"] not in ("prove", "unreachable")))
        if st != "done":
            undecided.append("%s: %s" % (r["job"], st[:300]))
        elif not r["obl"] and not r["alarms"] and prop not in plan.NO_OBLIGATION and "_more" not in r["job"]:
            undecided.append("%s: no obligation reached" % r["job"])
        for a in r["alarms"]:
            if not plan.relevant(prop, a):
                continue
            key = "%s|%s|%s" % (a["kind"], a["msg"] if a["kind"] in ("prove", "unreachable") else re.sub(r"\d+", "#", a["msg"]), short(a["fn"]))
            if a["taint"] or st != "done" and a["kind"] not in ("prove", "unreachable"):
                undecided.append("%s: %s in %s at %s not decided (%s)" % (r["job"], a["msg"], short(a["fn"]), a["at"], "; ".join(map(str, a["taint"]))))
                continue
            if key not in seen:
                seen[key] = Finding(key, "%s [%s in %s at %s; case %s]" % (a["msg"], a["kind"], short(a["fn"]), a["at"], r["job"]),
                                    "call stack: %s\nbranches: %s\nabstract state:\n%s" % (" < ".join(a["stack"]), " ; ".join(a["trail"]), a["state"]))
    findings += list(seen.values())
    known = {k["key"]: k for k in load_known() if k.get("property") == prop and k.get("status") == "open"}
    viol = []
    for f in findings:
        if f.key in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[f.key].get("what", f.text)))
        else:
            viol.append(f)
    rep = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep, exist_ok=True)
    for old in os.listdir(rep):
        if old.startswith(prop + "-"):
            os.remove(os.path.join(rep, old))
    for i, f in enumerate(viol[:20]):
        path = os.path.join(rep, "%s-%d.txt" % (prop, i))
        with open(path, "w") as fh:
            fh.write("%s\nkey: %s\n\n%s\n" % (f.text, f.key, f.detail))
        print(f.text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 20:
        print("... and %d further findings" % (len(viol) - 20))
    for u in undecided[:30]:
        print("UNDECIDED: " + u[:400])
    wall = time.time() - t0
    cov.update(info)
    cov["checker_cmd"] = "python3-vt engine/check.py %s%s" % (prop, " --thorough" if tier == "thorough" else "")
    cov["trusted_base"] = plan.trusted(prop)
    cov["rule"] = plan.rule_text(prop)
    cov["cases"] = len(res)
    cov["case_status"] = statuses
    cov["analysed_statements"] = sum(r["stmts"] for r in res)
    cov["loop_invariants"] = sum(r["loops"] for r in res)
    cov["functions_analysed"] = sorted({short(f) for r in res for f in r["fns"] if "unicode_intervals" in f or "witness::" in f and prop in plan.CRATE})
    cov["undecided"] = undecided[:60]
    cov["notes"] = notes
    cov["explanation"] = plan.rule_text(prop)
    lvl = plan.LEVEL.get(prop, "proof")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": plan.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d cases, %d obligations, %d discharged, %d undecided, %d violations, %.1fs" % (prop, len(res), cov["obligations"], cov["discharged"], len(undecided), len(viol), wall))
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
