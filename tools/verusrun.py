"""Runs Verus on the woven crate and reads its verdict back."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import weave as W
from harness import BUILD

VERUS = shutil.which("verus") or "verus"


class Result:
    def __init__(self):
        self.functions = {}      # fn -> {"mode", "ok", "ms"}
        self.errors = []         # {"fn", "kind", "message", "line", "text"}
        self.degraded = {}       # woven fn -> why the verifier could not take it
        self.broken = None       # set when the whole run gave nothing
        self.rep = None
        self.verified = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.version = ""
        self.rlimited = set()

    def failed(self):
        return sorted(k for k, v in self.functions.items() if not v["ok"])


def fn_at(text_lines, line):
    """the woven function that holds a line of the woven text"""
    for n in range(min(line, len(text_lines)) - 1, -1, -1):
        m = None
        for m in re.finditer(r"/\*@([FE]) ?([^*]*?)\*/", text_lines[n]):
            pass
        if m:
            return m.group(2) if m.group(1) == "F" else None
    return None


# the verifier took the code but an obligation is not discharged (anything else: it refused the code)
PROOF_MSG = re.compile(r"not satisfied|assertion fail|requires not|possible (arithmetic|division|bit shift|overflow|truncation)|"
                       r"unable to (prove|show)|could not (prove|show)|cannot (prove|show)|esource limit|rlimit|not met|"
                       r"invariant|underflow/overflow|unreachable|termination", re.I)


def clean(name, crate):
    name = re.sub(r"^%s::" % re.escape(crate), "", name)
    return name


def run(modules, rlimit=None, timeout=500, force=(), probe=False, root=None):
    res = Result()
    force = set(force)
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix="verus-", dir=BUILD)
    t0 = time.time()
    try:
        for attempt in range(12):
            try:
                text, rep = W.weave(root, modules, force, probe)
            except Exception as e:     # the sources do not even scan
                res.broken = "extraction failed: %s" % e
                return res
            res.rep = rep
            path = os.path.join(d, "cniic_w.rs")
            open(path, "w").write(text)
            lines = text.split("\n")
            cmd = [VERUS, "--crate-type=lib", path, "--output-json", "--time-expanded", "--triggers-mode", "silent",
                   "--error-format=json", "--num-threads", "8", "--multiple-errors", "4"]
            if rlimit:
                cmd += ["--rlimit", str(rlimit)]
            left = timeout - (time.time() - t0)
            if left < 5:
                res.broken = "out of time"
                return res
            try:
                p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left)
            except subprocess.TimeoutExpired:
                res.broken = "verifier ran out of time"
                return res
            diags = []
            for line in p.stderr.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("$message_type") == "diagnostic" and m["level"] == "error":
                    diags.append(m)
            try:
                out = json.loads(p.stdout[p.stdout.index("{"):])
            except ValueError:
                out = {}
            vr = out.get("verification-results", {})
            smt = out.get("times-ms", {}).get("smt", {})
            ran = smt.get("smt-run-module-times")
            refused = [m for m in diags if not PROOF_MSG.search(m["message"]) and not m["message"].startswith("aborting due to")]
            if ran and not vr.get("encountered-vir-error") and not refused:
                res.version = out.get("verus", {}).get("version", "")
                res.smt_ms = smt.get("smt-run", 0)
                res.verified = vr.get("verified", 0)
                for mt in ran:
                    for f in mt.get("function-breakdown", []):
                        name = clean(f["function"], "cniic_w")
                        prev = res.functions.get(name)
                        res.functions[name] = {"mode": f.get("mode:", f.get("mode", "")), "ok": f["success"] and (prev is None or prev["ok"]),
                                               "ms": f["time"] + (prev["ms"] if prev else 0)}
                for m in diags:
                    sp = next((s for s in m["spans"] if s["is_primary"]), None)
                    if sp is None:
                        continue
                    where = next((fn_at(lines, s["line_start"]) for s in m["spans"]
                                  if "end of the function body" in (s.get("label") or "")
                                  or "function body" in (s.get("label") or "") or "at this exit" in (s.get("label") or "")), None)
                    own = where or fn_at(lines, sp["line_start"])
                    if not own:
                        for s in m["spans"]:
                            own = own or fn_at(lines, s["line_start"])
                    msg = m["message"]
                    if "esource limit" in msg or "rlimit" in msg.lower():
                        res.rlimited.add(own or "?")
                    src = " | ".join("%s%s" % (lines[s["line_start"] - 1].strip(), " [%s]" % s["label"] if s.get("label") else "")
                                     for s in sorted(m["spans"], key=lambda s: not s["is_primary"]))
                    res.errors.append({"fn": own, "message": msg, "line": sp["line_start"], "text": src})
                return res
            # something the verifier or the compiler refused: set those bodies aside
            new = {}
            for m in refused or diags:
                for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
                    f = fn_at(lines, s["line_start"])
                    if f and f not in force and f not in new:
                        new[f] = m["message"]
                        break
            if not new:
                res.broken = "verifier refused the code: " + ("; ".join(m["message"] for m in diags[:3]) or p.stderr[-500:])
                res.diags = [m.get("rendered") for m in diags[:5]]
                return res
            for f, why in new.items():
                res.degraded[f] = why
                force.add(f)
        res.broken = "too many refused functions"
        return res
    finally:
        res.wall = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    r = run(sys.argv[1].split(",") if len(sys.argv) > 1 else None)
    print("broken", r.broken, getattr(r, "diags", ""))
    print("verified", r.verified, "of", len(r.functions), "failed", r.failed(), "degraded", r.degraded, "smt ms", r.smt_ms, "wall", r.wall)
    for e in r.errors:
        print(e)
    if r.rep:
        print("drift", r.rep.drift, "unspecified", r.rep.unspecified, "missing", r.rep.missing)
