#!/usr/bin/env python3
"""Runs one property's exploration on every build configuration of /repo's working tree.

check.py C01                 run at VERIF_TIER (default quick)
check.py C01 --replay FILE   run again only the configuration and block recorded in FILE
check.py --setup             build every check (warms the build cache)

Exit 0: the property held on everything explored (known findings are listed).
Exit 1: VIOLATION line printed. Exit 2: the check itself could not run (for example, no build).
"""
import hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
CONFIGS = ["native", "i686", "bits64", "bits32", "bits16"]
# Debug assertions and overflow checks are on in some configurations and off in others, so that
# both kinds of build are explored.
DEBUG = {"native": False, "i686": False, "bits64": True, "bits32": True, "bits16": True}
META = json.load(open(os.path.join(ROOT, "checks.json")))

def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in [REPO]:
        for d, dirs, names in os.walk(base):
            rel = os.path.relpath(d, base)
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for n in sorted(names):
                if n.endswith(".rs") or n.endswith(".toml"):
                    files.append(os.path.join(d, n))
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()

def env_for(config):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            del e[k]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "1.99.1-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, config)
    d = "true" if DEBUG[config] else "false"
    e["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = d
    e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = d
    if config.startswith("bits"):
        e["RUSTFLAGS"] = '--cfg force_bits="%s"' % config[4:]
    return e

def build(config, bins, features, stamp):
    """Builds the named binaries for one configuration from REPO's current working tree."""
    tdir = os.path.join(BUILD, config)
    os.makedirs(tdir, exist_ok=True)
    env = env_for(config)
    mdir = os.path.join(ROOT, "mc")
    target = ["--target", "i686-unknown-linux-gnu"] if config == "i686" else []
    sfile = os.path.join(tdir, "repo-hash")
    old = open(sfile).read() if os.path.exists(sfile) else ""
    if old != stamp:
        # Do not trust modification times: the sources differ from those built here before.
        if old:
            subprocess.run(["cargo", "clean", "--release", "-p", "ibig", "--offline"] + target, cwd=mdir, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        open(sfile, "w").write(stamp)
    cmd = ["cargo", "build", "--release", "--offline", "--locked"] + target
    for b in bins:
        cmd += ["--bin", b]
    if features:
        cmd += ["--features", ",".join(features)]
    p = subprocess.run(cmd, cwd=mdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return None, p.stdout
    sub = "i686-unknown-linux-gnu/release" if config == "i686" else "release"
    return os.path.join(tdir, sub), ""

def configs_for(pid):
    return META[pid].get("configs", CONFIGS)

def run_config(pid, config, bindir, tier, threads, outdir, only=None):
    out = os.path.join(outdir, config + ".json")
    if os.path.exists(out):
        os.remove(out)
    cmd = [os.path.join(bindir, pid.lower()), "--tier", tier, "--threads", str(threads), "--out", out]
    if only:
        cmd += ["--block", only]
    env = dict(os.environ, RUST_BACKTRACE="0", MC_CONFIG=config)
    limit = 600 if tier == "quick" else 7200
    t0 = time.time()
    errf = os.path.join(outdir, config + ".err")
    with open(errf, "w") as ef:
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    err = open(errf, errors="replace").read()
    started = re.findall(r"^START (.*)$", err, re.M)
    ended = set(re.findall(r"^END (.*)$", err, re.M))
    open_blocks = [b for b in started if b not in ended]
    res = None
    if rc == 0 and os.path.exists(out):
        res = json.load(open(out))
    return dict(config=config, rc=rc, res=res, open=open_blocks, err=err[-2000:], wall=time.time() - t0)

def run_miri(bin_, tier, stamp, parts=8):
    """The named program under the Miri interpreter, in parts. Returns (operations, faults, note)."""
    env = env_for("bits16")
    tdir = os.path.join(BUILD, "miri16")
    os.makedirs(tdir, exist_ok=True)
    # (No reuse of addresses across threads: it would order them.)
    env.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=tdir, MIRIFLAGS="-Zmiri-address-reuse-cross-thread-rate=0")
    mdir = os.path.join(ROOT, "mc")
    sfile = os.path.join(tdir, "repo-hash")
    old = open(sfile).read() if os.path.exists(sfile) else ""
    if old and old != stamp:
        subprocess.run(["cargo", "clean", "-p", "ibig", "--offline"], cwd=mdir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    open(sfile, "w").write(stamp)
    def part(k):
        cmd = ["cargo", "miri", "run", "--offline", "--locked", "--bin", bin_, "--", tier, str(k), str(parts)]
        try:
            p = subprocess.run(cmd, cwd=mdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=400 if tier == "quick" else 3600)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "timeout", "", ""
    ops, faults, notes = 0, [], []
    first = part(0)
    with ThreadPoolExecutor(parts) as ex:
        res = [first] + list(ex.map(part, range(1, parts)))
    for rc, out, err in res:
        m = re.search(r"^operations (\d+)$", out, re.M)
        if rc == 0 and m:
            ops += int(m.group(1))
            continue
        op = (re.findall(r"^OP (.*)$", out, re.M) or ["?"])[-1]
        m = re.search(r"(Undefined Behavior: .*|memory leaked: .*|FAULT .*)", err)
        if m and rc != "timeout":
            faults.append("under Miri, after starting %s: %s" % (op, m.group(1)[:600]))
        else:
            notes.append("Miri part gave no result (status %s): %s" % (rc, err[-300:]))
    return ops, faults, notes

def load_known(pid):
    """Lines 'KNOWN-FINDING: property=<id> match=<exact prefix of the violation message> | text'."""
    known = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) match=(.*?) \| (.*)$", line.strip())
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    return known

def main():
    t0 = time.time()
    args = sys.argv[1:]
    stamp = tree_hash()
    if args[0] == "--setup":
        ids = sorted(META)
        feats = sorted({f for i in ids for f in META[i].get("features", [])})
        groups = {}
        for i in ids:
            groups.setdefault(tuple(META[i].get("features", [])), []).append(i.lower())
        ok = True
        def one(config):
            for f, bins in groups.items():
                bins = [b for b in bins if config in configs_for(b.upper())]
                d, log = build(config, bins, list(f), stamp)
                if d is None:
                    print(config, log[-3000:])
                    return False
            return True
        with ThreadPoolExecutor(5) as ex:
            ok = all(ex.map(one, CONFIGS))
        print("setup", "ok" if ok else "FAILED", "%.0fs" % (time.time() - t0))
        sys.exit(0 if ok else 2)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    meta = META[pid]
    configs = configs_for(pid)
    only = None
    if len(args) >= 3 and args[1] == "--replay":
        rp = json.load(open(args[2]))
        # A disagreement between configurations needs all of them.
        configs, only, tier = configs if meta.get("digests") else [rp["config"]], rp["block"], rp["tier"]
    outdir = os.path.join(BUILD, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    feats = meta.get("features", [])
    def b(config):
        return config, build(config, [pid.lower()], feats, stamp)
    with ThreadPoolExecutor(len(configs)) as ex:
        built = dict(ex.map(b, configs))
    bad = [(c, r[1]) for c, r in built.items() if r[0] is None]
    if bad:
        print("BUILD FAILED in", [c for c, _ in bad])
        print(bad[0][1][-4000:])
        sys.exit(2)
    tb = time.time() - t0
    ncpu = os.cpu_count() or 8
    threads = meta.get("threads", 2) if len(configs) > 1 else min(8, ncpu)
    with ThreadPoolExecutor(len(configs)) as ex:
        results = list(ex.map(lambda c: run_config(pid, c, built[c][0], tier, threads, outdir, only), configs))
    violations = []   # (config, block, message)
    for r in results:
        if r["res"] is None and r["rc"] in ("timeout", -9, 2):
            # Out of time or memory: no verdict.
            print("NO ANSWER in %s: status %s %s" % (r["config"], r["rc"], r["err"][-500:]))
            sys.exit(2)
        if r["res"] is None:
            if r["rc"] == 9:
                m = "hang: an operation did not return"
            else:
                m = "process died with status %s" % r["rc"]
            if "DRIVER PANIC" in r["err"]:
                m += " " + r["err"][-500:]
            blocks = r["open"] or ["(startup)"]
            hang = re.findall(r"^HANG (.*)$", r["err"], re.M)
            blocks = hang or blocks
            violations.append((r["config"], blocks[0], m + " in block(s) " + ", ".join(blocks[:4])))
        else:
            for v in r["res"]["violations"]:
                violations.append((r["config"], v["block"], v["msg"]))
    miri_ops, miri_notes = 0, []
    if meta.get("miri") and not only:
        miri_ops, faults, miri_notes = run_miri(meta["miri"], tier, stamp)
        for f in faults:
            violations.append(("bits16", "miri", f))
        for n in miri_notes:
            print("NOTE " + n)
    done = [r for r in results if r["res"]]
    # Agreement between configurations: equal digests for every named point they share.
    ndig = 0
    if meta.get("digests"):
        table = {}
        for r in done:
            for name, d in r["res"]["digests"]:
                table.setdefault(name, {})[r["config"]] = d
        for name, row in sorted(table.items()):
            ndig += 1
            if len(set(row.values())) > 1 or (len(row) < len(done) and not violations):
                ref = row.get("bits64") or list(row.values())[0]
                odd = [c for c in row if row[c] != ref] or list(row)
                violations.append((odd[0], name.split("/")[0], "configurations disagree on %s: %s" % (name, row)))
    known = load_known(pid)
    fresh, seen_known = [], {}
    for v in violations:
        k = next((k for k in known if v[2].startswith(k[0])), None)
        if k:
            seen_known[k] = seen_known.get(k, 0) + 1
        else:
            fresh.append(v)
    def tot(k):
        return sum(r["res"][k] for r in done)
    counters = {}
    for r in done:
        for k, v in r["res"]["counters"].items():
            counters[k] = counters.get(k, 0) + v
    samples = []
    for r in done:
        for s in r["res"]["samples"][:2]:
            samples.append("[%s] %s" % (r["config"], s))
    states, ops, panics = (tot(k) if done else 0 for k in ("states", "ops", "panics"))
    level = meta["level"]
    cov = {}
    if level == "model_checking":
        cov["states"] = counters.get("model_states", states)
        cov["transitions"] = counters.get("model_transitions", ops)
        cov["traces_validated_against_impl"] = counters.get("traces", states)
    elif level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = ops
        cov["distinct_nontrivial"] = tot("distinct") if done else 0
        cov["rule"] = meta["rule"] + "; distinct_nontrivial counts distinct fingerprints of expected outcomes (a lower bound: set bits of a bitmap), per configuration"
    cov["samples"] = samples[:8]
    cov["exhaustive"] = not fresh
    cov["bounds"] = meta.get("bounds", "")
    cov["enumerated_points"] = states
    cov["implementation_operations_compared"] = ops
    cov["expected_panics_observed"] = panics
    cov["configurations"] = {r["config"]: (dict(states=r["res"]["states"], ops=r["res"]["ops"], blocks=r["res"]["blocks"],
        word_bits=r["res"]["word_bits"], wall_s=r["res"]["wall"], debug_assertions=DEBUG[r["config"]]) if r["res"] else dict(status=str(r["rc"]))) for r in results}
    if counters:
        cov["counters"] = counters
    if ndig:
        cov["digests_compared"] = ndig
    if meta.get("miri"):
        cov["operations_under_miri"] = miri_ops
        cov["miri_notes"] = miri_notes
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", ["the reference model in mc/src/model.rs is correct",
                          "operand contents outside the stated alphabets are not explored"]),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, n in seen_known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    print("%s %s: configs=%d points=%d operations=%d build=%.1fs total=%.1fs" %
          (pid, tier, len(done), states, ops, tb, time.time() - t0))
    if fresh:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        c, blk, msg = fresh[0]
        path = os.path.join(rdir, "%s-%s.json" % (pid, c))
        json.dump(dict(property=pid, tier=tier, config=c, block=blk, message=msg,
                       command="python3 check.py %s --replay %s" % (pid, os.path.relpath(path, ROOT)),
                       all=[dict(config=a, block=b_, message=m) for a, b_, m in fresh[:40]]),
                  open(path, "w"), indent=1)
        for a, b_, m in fresh[:5]:
            print("  [%s/%s] %s" % (a, b_, m[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0)

main()
