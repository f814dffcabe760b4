"""Builds and runs the bounded conformance harness against a scratch copy of
/repo's current sources (nothing in /repo is touched)."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CNIIC_REPO", "/repo")
BUILD = os.environ.get("CNIIC_BUILD", os.path.join(VERIF, ".build"))

PROFILE = """
[profile.dev]
opt-level = 2
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
codegen-units = 16
[profile.dev.package."*"]
opt-level = 1
debug = 0
"""


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def copy_if_changed(src, dst):
    with open(src, "rb") as f:
        data = f.read()
    write_if_changed(dst, data)


def write_if_changed(dst, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, "wb") as f:
        f.write(data)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable",
             RUSTC_WRAPPER="", RUSTFLAGS="", CARGO_INCREMENTAL="0")
    e.pop("CARGO_TARGET_DIR", None)
    return e


def messages(out):
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            yield m


def degrade(d, out):
    """Harness functions that do not fit the current sources any more get an
    empty body (their cases are not run); returns their names."""
    hit = {}
    for m in messages(out):
        m = m["message"]
        if m["level"] != "error":
            continue
        for sp in m["spans"]:
            if sp["is_primary"] and sp["file_name"] in ("src/vh.rs", "src/vh2.rs"):
                hit.setdefault(sp["file_name"], []).append(sp["byte_start"])
    names = []
    for fn, positions in hit.items():
        path = os.path.join(d, fn)
        raw = open(path, "rb").read()
        src = raw.decode()
        F = rustlex.File(src)
        edits = {}
        for pos in positions:
            pos = len(raw[:pos].decode("utf8", "ignore"))
            for it in F.items:
                cands = [it] + ([c for c in it.children] if it.kind != "fn" else [])
                for c in cands:
                    if c.kind == "fn" and c.body and F.toks[c.first].s <= pos <= F.toks[c.last].e:
                        edits[(F.toks[c.body[0]].e, F.toks[c.body[1]].s)] = c.key
        for (a, b) in sorted(edits, reverse=True):
            if src[a:b].strip() == "crate::vh::lost()":
                continue
            src = src[:a] + " crate::vh::lost() " + src[b:]
            names.append(edits[(a, b)])
        open(path, "w").write(src)
    return names


def build():
    """Returns (binary path or None, log, harness functions left out)."""
    with Lock("harness"):
        d = os.path.join(BUILD, "harness")
        os.makedirs(d, exist_ok=True)
        wanted = set()
        for root, _, files in os.walk(os.path.join(REPO, "src")):
            for f in files:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                wanted.add(rel)
                if rel == "src/main.rs":
                    continue
                copy_if_changed(p, os.path.join(d, rel))
        for f in ("vh.rs", "vh2.rs"):
            wanted.add("src/" + f)
            copy_if_changed(os.path.join(VERIF, "harness", f), os.path.join(d, "src", f))
        main = open(os.path.join(REPO, "src/main.rs")).read()
        main, n = re.subn(r"(?m)^(\s*(?:pub\s+)?)fn\s+main\s*\(", r"\1fn __cniic_main(", main)
        main = "#![allow(warnings)]\n" + main + "\nmod vh;\nfn main() { if std::env::args().nth(1).as_deref() == Some(\"--cniic\") { __cniic_main(); } else { vh::run(); } }\n"
        write_if_changed(os.path.join(d, "src/main.rs"), main)
        for root, _, files in os.walk(os.path.join(d, "src")):
            for f in files:
                p = os.path.join(root, f)
                if os.path.relpath(p, d) not in wanted:
                    os.unlink(p)
        toml = open(os.path.join(REPO, "Cargo.toml")).read()
        toml = re.sub(r"(?ms)^\[profile[^\n]*\n(?:(?!^\[).*\n?)*", "", toml)
        write_if_changed(os.path.join(d, "Cargo.toml"), toml + "\n[workspace]\n" + PROFILE)
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            copy_if_changed(lock, os.path.join(d, "Cargo.lock"))
        lost = []
        for attempt in range(5):
            r = subprocess.run(["cargo", "build", "--offline", "--message-format=json-diagnostic-short"], cwd=d, env=env(),
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            if r.returncode == 0:
                break
            names = degrade(d, r.stdout)
            if not names:
                log = "".join(m.get("message", {}).get("rendered") or "" for m in messages(r.stdout))
                return None, (log + r.stderr)[-6000:], lost
            lost += names
        else:
            return None, r.stderr[-3000:], lost
        # a private copy, so that a later rebuild does not disturb this run
        fd, out = tempfile.mkstemp(prefix="vh-", dir=BUILD)
        os.close(fd)
        shutil.copy2(os.path.join(d, "target/debug/cniic"), out)
        os.chmod(out, 0o755)
        return out, r.stderr[-2000:], lost


def run(binary, prop, tier, seed, extra=(), limit=700):
    """Runs the harness for one property; returns its result dictionary."""
    out = tempfile.mkdtemp(prefix="vhout-", dir=BUILD)
    try:
        t0 = time.time()
        cmd = [binary, prop, "--tier", tier, "--seed", str(seed), "--out", out, *extra]
        status = None
        try:
            p = subprocess.run(cmd, cwd=out, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit,
                               preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (24 << 30, 24 << 30)))
            status = p.returncode
        except subprocess.TimeoutExpired:
            status = "timeout"
        res = {"evaluations": 0, "distinct": 0, "samples": [], "failures": [], "per_job": {}}
        rf = os.path.join(out, "result.json")
        if os.path.exists(rf):
            res = json.load(open(rf))
        elif status not in (0, 1):
            # the process died: the cases that were running are the suspects
            run_now = []
            for f in sorted(os.listdir(out)):
                if f.startswith("slot"):
                    b = open(os.path.join(out, f), "rb").read().rstrip(b"\0")
                    if b:
                        parts = b.decode("utf8", "replace").split("\x01")
                        if len(parts) == 3:
                            run_now.append(parts)
            res["aborted"] = {"status": str(status), "running": run_now}
        res["status"] = status
        res["wall_s"] = time.time() - t0
        res["inputs"] = {}
        for f in os.listdir(out):
            if f.startswith("fail") and f.endswith(".bin"):
                res["inputs"][f] = open(os.path.join(out, f), "rb").read()
        return res
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    data = json.load(open(path))
    b, log, lost = build()
    if b is None:
        print(log)
        return 2
    rc = 0
    for f in data.get("failures", []):
        r = run(b, data["property"], data["tier"], data["seed"], extra=("--job", f["job"], "--case", str(f["case"])))
        hit = [x for x in r["failures"]] or r.get("aborted")
        print(f["job"], f["case"], f["desc"], "->", hit if hit else "does not fail any more")
        rc = rc or (1 if hit else 0)
    for e in data.get("failed_obligations", []):
        print("obligation:", e)
    os.unlink(b)
    return rc


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    b, log, lost = build()
    print(log[-3000:], lost)
    if b is None:
        sys.exit(2)
    for prop in sys.argv[1:]:
        r = run(b, prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        r.pop("inputs")
        s = r.pop("samples"); pj = r.pop("per_job")
        for f in r["failures"]:
            f["input_hex_prefix"] = f["input_hex_prefix"][:60]
        print(prop, json.dumps(r, indent=1)[:6000])
    os.unlink(b)
