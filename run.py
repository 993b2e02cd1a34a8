#!/usr/bin/env python3
"""Check one property of /repo by model checking.

  run.py PROPERTY [quick|thorough]   build from /repo's working tree, explore, write evidence/PROPERTY.json
  run.py build                       build everything (setup)
  run.py replay FILE                 re-execute the execution a VIOLATION line points at
"""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
BUILDS = {"debug": [], "release": ["--release"]}
BUILDS_OF = {"C24": ["sched"], "C07": ["debug", "release", "sched"]}
# sections whose result cannot depend on the build profile may be skipped in one of the two builds
BUDGET = {"quick": 330, "thorough": 3000}


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    """Content of everything the build of kms reads (modification times are not trusted)."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "Cargo.lock", "build.rs", "src"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else []
        for d, ds, fs in os.walk(p):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(args, cwd, e, target, stamp, h, clean):
    """One build; a stamp of /repo's content decides whether kms must be compiled again."""
    os.makedirs(target, exist_ok=True)
    sp = os.path.join(target, stamp)
    old = open(sp).read() if os.path.exists(sp) else ""
    if old != h:
        if os.path.exists(sp):
            os.remove(sp)
        subprocess.run(clean, cwd=cwd, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("run.py: the build failed")
        sys.exit(2)
    with open(sp, "w") as f:
        f.write(h)


def builds_of(prop):
    return BUILDS_OF.get(prop, list(BUILDS))


def build(prop=None):
    os.makedirs(TARGET, exist_ok=True)
    h = tree_hash()
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        wanted = builds_of(prop) if prop else list(BUILDS) + ["sched"]
        for b, f in BUILDS.items():
            if b in wanted:
                e = env()
                e["RUSTUP_TOOLCHAIN"] = "stable"
                cargo(["cargo", "build", "--offline", "-q"] + f, os.path.join(VERIF, "harness"), e, os.path.join(TARGET, b), ".kms-stamp", h,
                      ["cargo", "clean", "--offline", "-p", "kms"] + f)
        if "sched" in wanted:
            e = env()
            e["RUSTUP_TOOLCHAIN"] = "nightly"
            e["RUSTFLAGS"] = "-Zsanitizer=thread -Zexternal-clangrt"
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "sched")
            tr = "x86_64-unknown-linux-gnu"
            cargo(["cargo", "build", "--offline", "-q", "-Zbuild-std", "--target", tr], os.path.join(VERIF, "sched"), e, os.path.join(TARGET, "sched"), ".kms-stamp", h,
                  ["cargo", "clean", "--offline", "-p", "kms", "--target", tr])


def binary(b):
    if b == "sched":
        return os.path.join(TARGET, "sched", "x86_64-unknown-linux-gnu", "debug", "sched")
    return os.path.join(TARGET, b, "mck")


def known(prop):
    """Listed open findings of this property: (substring of the failure, text)."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip(), what.strip() or key.strip()))
    return out


def run_one(b, prop, tier, secs):
    out = os.path.join(TARGET, "out-%s-%s-%d.json" % (prop, b, os.getpid()))
    cmd = [binary(b), prop, "--out", out, "--secs", str(int(secs))] + (["--thorough"] if tier == "thorough" else [])
    r = subprocess.run(cmd, cwd=VERIF, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
    d = None
    if os.path.exists(out):
        with open(out) as f:
            d = json.load(f)
        os.remove(out)
    if d is None or d.get("error") or r.returncode not in (0, 1):
        print("run.py: %s: the explorer failed (exit %s): %s" % (b, r.returncode, (d or {}).get("error") or r.stderr[-2000:]))
        # a violation that was also found still counts
        if not (d and d.get("violations")):
            sys.exit(2)
    return d


def check(prop, tier):
    t0 = time.time()
    build(prop)
    built = time.time() - t0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    builds = builds_of(prop)
    res, viol = {}, []
    for k, b in enumerate(builds):
        left = (BUDGET[tier] - (time.time() - t0 - built)) / (len(builds) - k)
        res[b] = run_one(b, prop, tier, left)
        viol += [(b, v) for v in res[b]["violations"]]
        if viol:
            break
    sections, states, trans, execs, complete, samples = [], {}, 0, 0, True, []
    for b, d in res.items():
        for s in d["sections"]:
            sections.append({"build": b, "section": s["name"], "bound": s["bound"], "deviation_bound": s["deviations"], "states": s["states"], "transitions": s["transitions"],
                             "executions": s["executions"], "complete": s["complete"], "outcomes": s["outcomes"], "wall_s": s["wall_s"]})
            states[s["name"]] = max(states.get(s["name"], 0), s["states"])
            trans += s["transitions"]
            execs += s["executions"]
            complete &= s["complete"]
            for x in s["samples"][-1:]:
                if len(samples) < 12:
                    samples.append({"section": s["name"], "build": b, "execution": x[:40]})
    if not samples:
        samples = [{"section": s["section"], "bound": s["bound"]} for s in sections[:3]]
    kf = known(prop)
    shown, real = set(), []
    for b, v in viol:
        hit = [w for k, w in kf if k in "%s: %s" % (v["section"], v["msg"])]
        if hit:
            shown.update(hit)
        else:
            real.append((b, v))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(states.values()), "transitions": trans, "traces_validated_against_impl": execs, "exhaustive": bool(complete and not real),
            "rule": "every choice sequence of each section's driver within its bound, each executed on the real code and compared with the reference model after every step; states are distinct (hashed) model states, counted once for both builds",
            "builds": list(res), "sections": sections, "samples": samples,
        },
        "assumptions": ASSUME.get(prop, []) + ASSUME["*"],
        "wall_s": round(time.time() - t0, 3), "build_s": round(built, 3), "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ep = os.path.join(VERIF, "evidence", prop + ".json")
    with open(ep + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(ep + ".tmp", ep)
    for b, d in res.items():
        for s in d["sections"]:
            print("%s %-7s %-46s executions %9d  transitions %9d  states %9d  %s %.1fs" % (prop, b, s["name"][:46], s["executions"], s["transitions"], s["states"], "complete" if s["complete"] else "STOPPED", s["wall_s"]))
    for w in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    if real:
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, (b, v) in enumerate(real):
            rp = os.path.join(rd, "%s-%d.json" % (prop, n))
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, "build": b, **v}, f, indent=1)
            print("  [%s] %s: %s" % (b, v["section"], v["msg"]))
            for l in v["trace"][:30]:
                print("    | " + l)
            if n == 0:
                first = rp
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if not complete:
        print("run.py: the exploration ran out of time before its bound was exhausted (no violation in what was explored)")
    print("%s %s: held on everything explored (%.1f s)" % (prop, tier, time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    build(v["property"])
    cmd = [binary(v["build"]), v["property"], "--section", v["section"], "--trail", ",".join(map(str, v["trail"]))] + (["--thorough"] if v["tier"] == "thorough" else [])
    print("recorded: %s" % v["msg"])
    return subprocess.run(cmd, cwd=VERIF, env=env()).returncode


ASSUME = {
    "*": ["the reference model in refmodel/ (written from the BIPs, FIPS 180-4, RFC 6979 and RIPEMD-160's definition, self-tested against published vectors on every run) is right",
          "behaviour beyond the stated bounds follows the explored behaviour; arguments are enumerated from the value sets named in DESIGN.md"],
    "C07": ["the OS randomness is reached through getrandom, getentropy, syscall, open and read of the C library, which the harness answers itself"],
    "C20": ["a secret survives a drop only as a byte-for-byte copy in heap or stack memory that the harness scans"],
    "C22": ["an execution longer than 90 s (thorough: 300 s) is a hang"],
    "C24": ["sequentially consistent interleavings at instruction-level accesses of the instrumented code; weaker orderings are covered by the happens-before race monitor only"],
}

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        build()
    elif a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    elif a:
        sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    else:
        print(__doc__)
        sys.exit(2)
