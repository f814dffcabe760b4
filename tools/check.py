#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree.

  1. the contracts of the functions the property rests on are spliced into
     those functions as they are now, and Verus has to discharge every
     obligation;
  2. the functions the verifier cannot take are exercised by a bounded
     harness, which is also what looks for a failing input when an obligation
     fails.

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer."""
import hashlib, json, os, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness, verusrun, weave
from props import FINITE, PROPS

VERIF = harness.VERIF
T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "780"))


def left():
    return LIMIT - (time.time() - T0)


def load(name, default):
    p = os.path.join(VERIF, name)
    if not os.path.exists(p):
        return default
    return json.load(open(p))


def main():
    pid = sys.argv[1]
    P = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pins = load("contracts/pins.json", {})
    known = load("known_findings.json", {"findings": [], "fixed": []})
    known = [k for k in known["findings"] if k["property"] == pid]

    # ---- the verifier and the bounded harness, side by side
    box = {}

    def do_verus():
        try:
            box["v"] = verusrun.run(P["modules"], timeout=min(420, left()))
        except Exception as e:
            r = verusrun.Result()
            r.broken = "internal error: %r" % (e,)
            box["v"] = r

    th = None
    if P["modules"]:
        th = threading.Thread(target=do_verus)
        th.start()
    binary, log, lost = harness.build()
    h = None
    if binary:
        h = harness.run(binary, pid, tier, seed, limit=max(30, min(left() - 60, 500)))
    if th:
        th.join()
    v = box.get("v")

    fails = collect(h)

    # ---- what the verifier says
    def own(e):
        f, t = e["fn"], (e["text"] or "").lower()
        return (f is not None and any(f.startswith(o) for o in P["own"])
                and not any(f.startswith(g) and any(w in t for w in tags) for g, tags in P.get("foreign", ())))
    undecided, failed_own, failed_dep, credible = [], [], [], []
    if v is not None:
        if v.broken:
            undecided.append(v.broken)
        else:
            rep = v.rep
            for f, why in v.degraded.items():
                undecided.append("%s is outside what the verifier takes: %s" % (f, why))
            for f, why in rep.drift.items():
                undecided.append("%s no longer has the shape its annotations were written for: %s" % (f, "; ".join(why)))
            for f in rep.missing:
                undecided.append("%s has a contract but is gone" % f)
            for f in rep.unspecified:
                if f not in P.get("nospec", ()):
                    undecided.append("%s has no contract" % f)
            for f, h16 in rep.pins.items():
                if pins.get("text", {}).get(f, h16) != h16:
                    undecided.append("%s is trusted, and its text changed" % f)
            if v.errors:
                # once more, with more resources, before believing a failure
                if v.rlimited or left() > 200:
                    v2 = verusrun.run(P["modules"], rlimit=40, timeout=min(300, left() - 30))
                    if not v2.broken:
                        v2.wall += v.wall
                        v = v2
            for e in v.errors:
                (failed_own if own(e) else failed_dep).append(e)
            # a failed obligation tells something about the code only where the annotations still
            # fit it: not in a function whose shape changed, nor next to a function without a
            # contract (a new helper), whose callers know nothing about it
            loose = {modof(f, P) for f in rep.missing} | {modof(f, P) for f in rep.unspecified if f not in P.get("nospec", ())}
            # or whose loops are other loops than the ones the invariants were written for
            reshaped = {f for f, l in rep.loops.items() if pins.get("loops", {}).get(f, l) != l}
            # or whose string literals (patterns, spellings) are other ones than those the prelude states facts about
            reworded = {f for f, l in rep.strings.items() if pins.get("strings", {}).get(f, l) != l}
            # or which has a closure now that nothing is said about: to the verifier it may do anything
            closed = {f for f, l in rep.closures.items() if any(l.count(c) > pins.get("closures", {}).get(f, []).count(c) for c in l)}
            # or of which the harness goes through every input
            counted = {f for f in {e["fn"] for e in failed_own} if f in FINITE and (h or {}).get("per_job", {}).get(FINITE[f], 0) > 0}
            for e in failed_own:
                if e["fn"] in reshaped:
                    undecided.append("the loops of %s are not the ones its invariants were written for" % e["fn"])
                elif e["fn"] in reworded:
                    undecided.append("the literals of %s are not the ones that the assumed facts about patterns are stated for" % e["fn"])
                elif e["fn"] in closed:
                    undecided.append("%s has a closure without a contract" % e["fn"])
                elif e["fn"] in counted:
                    undecided.append("an obligation of %s is not discharged (%s), but every input of that function is gone through by the harness job '%s'"
                                     % (e["fn"], e["message"], FINITE[e["fn"]]))
            credible = [e for e in failed_own if e["fn"] not in rep.drift and e["fn"] not in v.degraded and e["fn"] not in reshaped | reworded | closed | counted
                        and e["fn"] not in v.rlimited and modof(e["fn"], P) not in loose]
            if v.rlimited:
                undecided.append("solver gave up on " + ", ".join(sorted(v.rlimited)))

    # ---- a failed obligation: look harder for an input that shows it
    searched = None
    seed_used, tier_used = seed, tier
    if v is not None and (failed_own or failed_dep or undecided) and not fails and binary and left() > 60:
        seed2, tier2 = seed + 1000003, "thorough"
        h2 = harness.run(binary, pid, tier2, seed2,
                         extra=("--budget", str(int(min(300, left() - 50)))), limit=max(20, left() - 20))
        searched = h2.get("evaluations", 0)
        fails = collect(h2)
        if fails:
            seed_used, tier_used = seed2, tier2
        merge(h, h2)

    # ---- verdict
    lines, status = [], 0
    reported = []
    for k in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    new_fails = [f for f in fails if not any(matches(k, f) for k in known)]
    if new_fails:
        path = replay(pid, {"kind": "failing input", "failures": [strip(f) for f in new_fails],
                            "failed_obligations": failed_own + failed_dep, "seed": seed_used, "tier": tier_used,
                            "how": "python3 tools/harness.py --replay <this file>"}, new_fails)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        for f in new_fails[:5]:
            lines.append("  %s case %s (%s): %s" % (f.get("job"), f.get("case"), f.get("desc"), f.get("msg")))
        reported = new_fails
        status = 1
    elif credible:
        path = replay(pid, {"kind": "failed obligation", "failed_obligations": credible,
                            "verifier": v.version, "searched_inputs": (h or {}).get("evaluations", 0)}, [])
        for e in credible[:5]:
            lines.append("  obligation of %s: %s: %s" % (e["fn"], e["message"], e["text"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        reported = credible
        status = 1
    elif h is None and (v is None or undecided or failed_dep):
        lines.append("no answer: the harness does not build (%s) and the verifier has none: %s" % (log[-1500:], undecided or failed_dep))
        status = 2
    elif h is not None and h["evaluations"] == 0 and (v is None or undecided or failed_dep or not P["own"]):
        lines.append("no answer: the harness ran no case (left out: %s)" % lost)
        status = 2
    probe = None
    if tier == "thorough" and v is not None and status == 0 and not v.broken and left() > 60:
        probe = vacuity(P, v, left() - 20)
        if probe.get("accepted"):
            lines.append("no answer: preconditions that cannot be met: %s" % probe["accepted"])
            status = 2

    evidence(pid, P, tier, seed, v, h, lost, undecided, failed_own, failed_dep, reported, searched, probe, log if not binary else None)
    for u in undecided:
        lines.append("  undecided by proof, decided by the bounded stand-in: " + u)
    for e in failed_dep:
        lines.append("  a contract this proof relies on is not discharged: %s: %s" % (e["fn"], e["message"]))
    if v is not None and not v.broken:
        lines.append("verifier: %d obligations discharged, %d not, %d functions under contract, %.1f s solver time"
                     % (v.verified, len(v.failed()) + len(v.degraded), len(v.rep.contracted), v.smt_ms / 1000))
    for f in lost:
        lines.append("  harness function left out, it does not compile against the current sources: " + f)
    if h is not None:
        lines.append("bounded: %d cases, %d distinct non-trivial" % (h["evaluations"], h["distinct"]))
    for l in lines:
        print(l)
    if binary:
        os.unlink(binary)
    sys.exit(status)


def modof(f, P):
    return max((m for m in P["modules"] if f.startswith(m + "::")), key=len, default="")


def collect(h):
    if h is None:
        return []
    out = []
    for f in h.get("failures", []):
        out.append(dict(f))
    if h.get("aborted"):
        for job, case, desc in h["aborted"]["running"]:
            out.append({"job": job, "case": int(case), "desc": desc, "msg": "the process died (%s)" % h["aborted"]["status"],
                        "input_len": 0, "input_hex_prefix": ""})
        if not h["aborted"]["running"]:
            out.append({"job": "?", "case": 0, "desc": "", "msg": "the process died (%s)" % h["aborted"]["status"],
                        "input_len": 0, "input_hex_prefix": ""})
    inputs = h.get("inputs", {})
    for i, f in enumerate(out):
        if "fail%d.bin" % i in inputs:
            f["_input"] = inputs["fail%d.bin" % i]
    return out


def merge(h, h2):
    if h is None:
        return
    h["evaluations"] += h2.get("evaluations", 0)
    h["distinct"] += h2.get("distinct", 0)
    for k, n in h2.get("per_job", {}).items():
        h["per_job"][k] = h["per_job"].get(k, 0) + n


def matches(k, f):
    m = k.get("match", {})
    return all(str(f.get(key, "")) == str(val) or (key == "msg" and val in f.get("msg", "")) for key, val in m.items()) and bool(m)


def strip(f):
    return {k: v for k, v in f.items() if not k.startswith("_")}


def replay(pid, data, fails):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    data["property"] = pid
    tag = hashlib.sha256(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
    for i, f in enumerate(fails):
        if "_input" in f and len(f["_input"]) <= 8 << 20:
            b = "%s-%s-%d.bin" % (pid, tag, i)
            open(os.path.join(d, b), "wb").write(f["_input"])
            data["failures"][i]["input_file"] = "replays/" + b
    p = os.path.join(d, "%s-%s.json" % (pid, tag))
    json.dump(data, open(p, "w"), indent=1, default=str)
    return "replays/" + os.path.basename(p)


def vacuity(P, v, limit):
    """assert(false) in front of every body: each has to be refused"""
    r = verusrun.run(P["modules"], timeout=limit, force=set(v.degraded), probe=True)
    if r.broken:
        return {"probed": 0, "note": r.broken}
    bad = {e["fn"] for e in r.errors}
    ok = [f for f in r.rep.contracted if f not in bad]
    return {"probed": len(r.rep.contracted), "accepted": ok}


def evidence(pid, P, tier, seed, v, h, lost, undecided, failed_own, failed_dep, reported, searched, probe, buildlog):
    cov = {}
    trusted = []
    if v is not None and not v.broken:
        rep = v.rep
        bad = len(v.failed())
        cov["obligations"] = v.verified + bad + len(v.degraded)
        cov["discharged"] = v.verified
        cov["back_end"] = "Verus %s (Z3)" % v.version
        cov["checker_cmd"] = "verus --crate-type=lib <woven crate> (tools/verusrun.py %s)" % ",".join(P["modules"])
        cov["solver_ms"] = v.smt_ms
        cov["functions_under_contract"] = sorted(rep.contracted)
        cov["undischarged"] = [e["fn"] for e in failed_own + failed_dep]
        ops = {}
        for mod, what, detail, reason in rep.ops:
            ops.setdefault(what.split(" in ")[0], set()).add("%s: %s%s" % (mod, detail, " -- " + reason if reason else ""))
        cov["extraction"] = {k: sorted(s) for k, s in sorted(ops.items())}
        for mod, what, detail, reason in rep.ops:
            if what == "opaque body":
                trusted.append("assumed contract of %s::%s (body not verified): %s" % (mod, detail, reason))
            elif what == "dropped":
                trusted.append("%s::%s left out of the verified crate: %s" % (mod, detail, reason))
        trusted += verusrun_trusted()
    elif v is not None:
        cov["obligations"] = 1
        cov["discharged"] = 0
        cov["checker_cmd"] = "verus (tools/verusrun.py)"
        cov["verifier"] = v.broken
    cov["trusted_base"] = trusted + P.get("trusted", [])
    cov["undecided_by_proof"] = undecided
    if probe is not None:
        cov["vacuity_probe"] = probe
    b = {"label": "bounded stand-in, never counted as proved", "scope": P["bounded"]}
    if h is not None:
        cov["evaluations"] = h["evaluations"]
        cov["distinct_nontrivial"] = h["distinct"]
        cov["samples"] = h["samples"] or ["(none recorded)"]
        cov["rule"] = P["rule"]
        b["per_job"] = h["per_job"]
        b["wall_s"] = h["wall_s"]
        if searched is not None:
            b["extra_search_cases"] = searched
        if lost:
            b["harness_functions_not_run"] = lost
    else:
        cov["evaluations"] = 0
        cov["distinct_nontrivial"] = 0
        cov["samples"] = []
        cov["rule"] = P["rule"]
        b["build_log"] = (buildlog or "")[-2000:]
    cov["bounded"] = b
    cov["explanation"] = P["level_note"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
          "assumptions": P.get("assumptions", []) + trusted, "wall_s": round(time.time() - T0, 2), "violations": len(reported)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
    os.replace(p + ".tmp", p)


def verusrun_trusted():
    """the assumed contracts of contracts/*.rs"""
    import re
    out = []
    for f in sorted(os.listdir(weave.CONTRACTS)):
        if not f.endswith(".rs"):
            continue
        s = open(os.path.join(weave.CONTRACTS, f)).read()
        for m in re.finditer(r"#\[verifier::external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)", s):
            out.append("assumed contract %s::%s (standard library or target of a recorded rewrite)" % (f[:-3], m.group(1)))
        for m in re.finditer(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]*?)\s*\]", s):
            out.append("assumed contract of %s" % m.group(1))
        for m in re.finditer(r"#\[verifier::external_(?:type|trait)_specification[^\]]*\]", s):
            out.append("%s: external type or trait specification" % f[:-3])
    return out


if __name__ == "__main__":
    main()
