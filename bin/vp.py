#!/usr/bin/env python3
"""Builds engine and harness from the current /repo, runs the engine on the entries of one
property, replays what it finds against the real file system, and writes the evidence file."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = V + "/engine/target/release/symrust"
HARNESS = V + "/harness"
T0 = time.time()
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
ENV.setdefault("HOME", "/root")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
for k in list(ENV):
    if k.startswith(("CARGO_PROFILE", "CARGO_BUILD", "CARGO_ENCODED")) or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_LOG", "CARGO_INCREMENTAL") or k.startswith("ARTEFACTA_"):
        del ENV[k]

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def die(msg, code=2):
    log("ERROR:", msg)
    sys.exit(code)

def sh(cmd, cwd, what):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-6000:])
        die(what + " failed")

def digest():
    h = hashlib.sha256()
    for root in ("/repo/src", "/repo/erreur"):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read())
    for f in ("/repo/Cargo.toml", "/repo/Cargo.lock"):
        if os.path.exists(f):
            h.update(open(f, "rb").read())
    return h.hexdigest()

def main_program():
    """The main program of /repo as the root of a crate that has the harness for it as a module:
    its `main` gets another name and its modules keep their files."""
    import re
    src = "/repo/src/main.rs"
    s = open(src).read()
    s, n = re.subn(r"\bfn(\s+)main(\s*)\(", r"fn\1vp_bin_main\2(", s)
    if n != 1:
        die("no `fn main` in " + src)
    def module(m):
        f = os.path.dirname(src) + "/" + m.group(3)
        return '%s#[path = "%s"] %smod %s;' % (m.group(1), f + ".rs" if os.path.exists(f + ".rs") else f + "/mod.rs", m.group(2) or "", m.group(3))
    s = re.sub(r"(?m)^([ \t]*)(pub(?:\([^)]*\))?\s+)?mod\s+(\w+)\s*;", module, s)
    s += '\n#[path = "cli.rs"]\nmod vp_cli;\nfn main() { vp_cli::main() }\n'
    f = HARNESS + "/src/bin_main.rs"
    if not os.path.exists(f) or open(f).read() != s:
        open(f, "w").write(s)

def newest_ll(binary):
    import glob
    l = glob.glob(HARNESS + "/target/release/deps/%s-*.ll" % binary)
    return max(l, key=os.path.getmtime) if l else None

def build(binaries):
    """Brings engine and harness up to date; the IR of each binary that is asked for."""
    import fcntl
    os.makedirs(V + "/build", exist_ok=True)
    lock = open(V + "/build/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = V + "/build/stamp"
    dg = digest()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    def engine():
        sh(["cargo", "build", "--release", "--offline"], V + "/engine", "building the engine")
    def harness():
        if old != dg and os.path.isdir(HARNESS + "/target"):
            subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "artefacta", "-p", "erreur", "-p", "vpharness"], cwd=HARNESS, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for f in os.listdir(HARNESS + "/target/release/deps") if os.path.isdir(HARNESS + "/target/release/deps") else []:
                if f.endswith(".ll"):
                    os.remove(HARNESS + "/target/release/deps/" + f)
        main_program()
        for b in binaries:
            sh(["cargo", "rustc", "--release", "--offline", "--bin", b, "--", "--emit=llvm-ir,link"], HARNESS, "building the harness from /repo")
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(engine), ex.submit(harness)]
        for f in fs:
            f.result()
    open(stamp, "w").write(dg)
    ll = {b: newest_ll(b) for b in binaries}
    if not all(ll.values()):
        die("no IR was produced")
    return ll

def binary_of(entry):
    return "vpcli" if entry.startswith("vp_main_c23") else "vpharness"

class Native:
    """The harness binary on the real file system, as an unprivileged user in a scratch directory."""
    def __init__(self, binaries):
        self.dir = tempfile.mkdtemp(prefix="vpnat-")
        os.chmod(self.dir, 0o755)
        for b in binaries:
            shutil.copy(HARNESS + "/target/release/" + b, self.dir + "/" + b)
            os.chmod(self.dir + "/" + b, 0o755)
        self.n = 0
    def run(self, entry, arg, vars, seedx=None, trace=True):
        binary = self.dir + "/" + binary_of(entry)
        self.n += 1
        d = "%s/r%d" % (self.dir, self.n)
        os.makedirs(d + "/scratch")
        os.chmod(d, 0o777); os.chmod(d + "/scratch", 0o777)
        with open(d + "/vars", "w") as f:
            for t, w, v in vars:
                f.write("%s\t%d\t%s\n" % (t, w, v))
        env = {"PATH": "/usr/bin:/bin", "VP_SCRATCH": d + "/scratch", "VP_REPLAY": d + "/vars"}
        if trace: env["VP_TRACE"] = "1"
        if seedx is not None: env["VP_SEEDX"] = str(seedx)
        kw = {}
        if os.getuid() == 0:
            kw = dict(user=65534, group=65534, extra_groups=[])
        try:
            try:
                p = subprocess.run([binary, entry, str(arg)], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, **kw)
            except (PermissionError, OSError):
                p = subprocess.run([binary, entry, str(arg)], env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            rc, out, er = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out, er = 124, (e.stdout or b"").decode("utf8", "replace"), "timeout"
        shutil.rmtree(d, ignore_errors=True)
        known = None
        failed, ops = [], []
        for l in out.splitlines():
            if l.startswith("CHECK-FAILED "): failed.append((l[13:], known))
            elif l.startswith("KNOWN "): known = None if l[6:] == "-" else l[6:]
            elif l.startswith("OP "): ops.append(l[3:])
        if rc == 124: failed.append(("does not end", known))
        return dict(rc=rc, failed=failed, ops=ops, out=out, err=er)
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def kinds(ops):
    r = []
    for o in ops:
        if o.startswith("ESCAPE"): continue
        f = o.split(" ")
        r.append(f[0] + (" " + f[-1] if f[-1].startswith("!") else "") if f[0] != "--" else o)
    return r

def reproduce(nat, entry, arg, viol, seeds):
    """Runs the recorded values natively; None or the messages that failed there."""
    for sx in [None] + list(range(seeds)):
        r = nat.run(entry, arg, viol["vars"], seedx=sx)
        if r["failed"]:
            return r
    return None

def main():
    import props
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    if args == ["setup"]:
        build(["vpharness", "vpcli"])
        sh([ENGINE, "selftest"], V, "engine self test")
        log("setup done in %.0f s" % (time.time() - T0))
        return 0
    if args and args[0] == "replay":
        return replay(args[1])
    pid = args[0]
    tier = "thorough" if "--thorough" in flags else os.environ.get("VERIF_TIER", "quick")
    if "--thorough" not in flags: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    runs = [dict(r) for r in P["runs"] if tier == "thorough" or not r.get("thorough")]
    only = [f[7:] for f in flags if f.startswith("--only=")]
    if only: runs = [r for r in runs if r["entry"] in only or "%s:%s" % (r["entry"], r.get("arg", 0)) in only]
    binaries = sorted({binary_of(r["entry"]) for r in runs})
    ll = build(binaries)
    built = time.time() - T0
    listed = json.load(open(V + "/known-findings.json")) if os.path.exists(V + "/known-findings.json") else {"known": []}
    listed_ids = {k["id"]: k for k in listed["known"] if k["property"] == pid}
    budget = 3000 if tier == "thorough" else 700
    tot = dict(paths=0, forks=0, steps=0, checks=0, checks_symbolic=0, transitions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, dropped=0, decisions=0)
    functions, per_run, samples, problems, violations, knowns = set(), [], [], [], [], {}
    validated = mismatched = 0
    nat = Native(binaries)
    repdir = V + "/evidence/replay"
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + "-"): os.remove(repdir + "/" + f)
    try:
        # small runs side by side, each with few threads; big ones alone
        def engine(r):
            out = tempfile.mktemp(prefix="vpout-")
            arg = r.get("targ", r.get("arg", 0)) if tier == "thorough" else r.get("arg", 0)
            r["arg_used"] = arg
            left = budget - (time.time() - T0)
            cmd = [ENGINE, "--entry", r["entry"], "--arg", str(arg), "--threads", str(r.get("threads", 8)), "--timeout", str(max(20, left)), "--samples", str(r.get("samples", 4)), "--out", out] + r.get("opts", []) + [ll[binary_of(r["entry"])]]
            t = time.time()
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
            try:
                j = json.load(open(out))
                os.remove(out)
            except Exception as e:
                return r, None, "engine ended with %d: %s" % (p.returncode, p.stderr[-500:]), time.time() - t
            return r, j, None, time.time() - t
        par = [r for r in runs if r.get("threads", 8) <= 2]
        seq = [r for r in runs if r.get("threads", 8) > 2]
        results = []
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for x in ex.map(engine, par): results.append(x)
        for r in seq: results.append(engine(r))
        for r, j, e, wall in results:
            name = "%s(%d)" % (r["entry"], r["arg_used"])
            if e:
                problems.append("%s: %s" % (name, e)); continue
            for k in tot: tot[k] += j.get(k, 0)
            functions.update(j["target_functions"])
            per_run.append(dict(entry=r["entry"], arg=r["arg_used"], bound=r["bound"], complete=j["complete"], paths=j["paths"], queries=j["queries"], sat=j["sat"], unsat=j["unsat"], solver_s=round(j["solver_s"], 2), max_query_s=j["max_query_s"], wall_s=round(wall, 2), checks=j["checks"], checks_symbolic=j["checks_symbolic"], fs_operations=j["transitions"], reach=j["reach"], functions=j["functions"]))
            log("%-34s paths %-6d queries %-6d checks %-6d solver %.1fs wall %.1fs%s" % (name, j["paths"], j["queries"], j["checks"], j["solver_s"], wall, "" if j["complete"] else "  INCOMPLETE"))
            for er, n in j["errors"].items(): problems.append("%s: %s (%d paths)" % (name, er, n))
            if not j["complete"] and not j["errors"] and not j["violations"]: problems.append("%s: exploration not finished in the time given" % name)
            for w in r.get("reach", ["end"]):
                if not j["reach"].get(w) and not j["violations"]: problems.append("%s: never reached %r, the check would be vacuous" % (name, w))
            # counterexamples, replayed against the real code
            for viol in j["violations"] + j["known"]:
                rr = reproduce(nat, r["entry"], r["arg_used"], viol, r.get("seeds", 0))
                kid = viol.get("known")
                if rr is None:
                    rr = nat.run(r["entry"], r["arg_used"], viol["vars"])
                    problems.append("%s: counterexample for %r does not reproduce natively (rc %d: %s)" % (name, viol["msg"], rr["rc"], (rr["out"].strip().splitlines() or ["-"])[-1][:200]))
                    continue
                if kid and kid in listed_ids:
                    knowns.setdefault(kid, dict(msg=viol["msg"], vars=viol["vars"], entry=name)); continue
                path = "%s/%s-%d.json" % (repdir, pid, len(violations))
                json.dump(dict(property=pid, entry=r["entry"], arg=r["arg_used"], bound=r["bound"], violation=viol, native=dict(failed=rr["failed"], rc=rr["rc"], ops=rr["ops"])), open(path, "w"), indent=1)
                violations.append((viol["msg"], path))
            # sampled paths, natively: same operations, no failed check
            for s in j["samples"][: r.get("validate", 12)]:
                rr = nat.run(r["entry"], r["arg_used"], s["vars"])
                bad = [f for f in rr["failed"] if not (f[1] and f[1] in listed_ids)]
                if bad:
                    path = "%s/%s-%d.json" % (repdir, pid, len(violations))
                    json.dump(dict(property=pid, entry=r["entry"], arg=r["arg_used"], violation=dict(s, msg=bad[0][0]), native=dict(failed=rr["failed"], rc=rr["rc"], ops=rr["ops"])), open(path, "w"), indent=1)
                    violations.append((bad[0][0] + " (seen natively)", path))
                elif rr["rc"] == 0 and kinds(rr["ops"]) == kinds(s["ops"]): validated += 1
                elif rr["rc"] == 10: validated += 1
                else:
                    mismatched += 1
                    a, b = kinds(s["ops"]), kinds(rr["ops"])
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    log("note: %s: native trace differs from the model at %d: %s / %s (rc %d %s)" % (name, i, a[max(0, i-2):i+3], b[max(0, i-2):i+3], rr["rc"], (rr["out"].strip().splitlines() or ["-"])[-1][:200]))
                if len(samples) < 6:
                    samples.append(dict(entry=name, values=[[t, v] for t, _, v in s["vars"]][:60], notes=[[n[0], n[2][:80]] for n in s["notes"]][:8], operations=s["ops"][:40]))
    finally:
        nat.close()
    wall = time.time() - T0
    level = P.get("level", "model_checking")
    cov = dict(states=tot["paths"] + tot["forks"], transitions=max(tot["decisions"] + tot["queries"], 1), traces_validated_against_impl=validated, samples=samples,
               paths=tot["paths"], infeasible_paths_cut=tot["dropped"], fs_operations_executed=tot["transitions"], instructions_executed=tot["steps"], assertions_checked=tot["checks"], assertions_decided_by_solver=tot["checks_symbolic"],
               solver_queries=tot["queries"], sat=tot["sat"], unsat=tot["unsat"], unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2), solver="Z3 (libz3), bit-vectors",
               functions_encoded=sorted(functions), functions_note="functions of the code under test as named in the LLVM IR; the IR is made after inlining, so functions inlined into others are encoded but not listed",
               bounds=[dict(entry=r["entry"], arg=r["arg_used"], bound=r["bound"]) for r in runs], runs=per_run, traces_different=mismatched,
               exhaustive=not problems and not violations, build_s=round(built, 1),
               explanation="states: paths explored plus forks; transitions: branch decisions settled (by the solver or by an earlier model); exhaustive within the stated bounds")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=props.COMMON + P.get("assumptions", []), wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for kid, k in knowns.items():
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, kid, listed_ids[kid]["what"]), flush=True)
    for p in problems: log("problem:", p)
    if violations:
        seen = set()
        for m, p in violations:
            log("violated:", m)
            print("VIOLATION property=%s replay=%s" % (pid, p), flush=True)
        return 1
    if problems:
        return 2
    print("%s held: %d paths, %d assertions, %d solver queries (%.1f s solver, %.0f s in all), %d paths replayed natively" % (pid, tot["paths"], tot["checks"], tot["queries"], tot["solver_s"], wall, validated))
    return 0

def replay(path):
    j = json.load(open(path))
    build([binary_of(j["entry"])])
    nat = Native([binary_of(j["entry"])])
    try:
        r = nat.run(j["entry"], j["arg"], j["violation"]["vars"])
        print(r["out"]); print(r["err"], file=sys.stderr)
        for f, k in r["failed"]: print("FAILED:", f)
        return 1 if r["failed"] else 0
    finally:
        nat.close()

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.exit(main())
