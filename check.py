#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [quick|thorough]    decide one property on /repo's working tree
   check.py --setup                           build engine, IR and replay binary
   check.py --all [quick|thorough]            every property, one after another

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no answer.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
WORK = os.path.join(V, "work")
SYMX = os.path.join(V, "engine/target/release/symx")
REPLAY = os.path.join(V, "replay/target/release/replay")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

sys.path.insert(0, V)
import props  # noqa: E402

RUSTFLAGS_IR = ("--cap-lints allow -C symbol-mangling-version=v0 -C no-vectorize-loops "
                "-C no-vectorize-slp -Z inline-mir=no -C llvm-args=-inline-threshold=-100000")


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def sh(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise NoAnswer(what + " failed")


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        fs = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, ds, ff in os.walk(root) for f in ff
            if "/target/" not in d + "/" and not d.endswith("/.git"))
        for f in fs:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def forget(target, names):
    """cargo decides freshness by mtime; the content hash decides here."""
    for n in names:
        for d in glob.glob(os.path.join(target, "release/.fingerprint", n + "-*")):
            shutil.rmtree(d)
        for f in glob.glob(os.path.join(target, "release/deps", n + "-*.ll")):
            os.remove(f)


def stamp(name):
    p = os.path.join(WORK, name)
    return open(p).read() if os.path.exists(p) else ""


def set_stamp(name, v):
    with open(os.path.join(WORK, name), "w") as f:
        f.write(v)


def build():
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.isdir(os.path.join(REPO, "src")):
        raise NoAnswer("/repo/src is missing")
    if not os.path.isfile(os.path.join(REPO, "Cargo.lock")):
        pass
    e = env()
    src = tree_hash([os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml")] +
                    [p for p in [os.path.join(REPO, "build.rs")] if os.path.exists(p)])
    own = tree_hash([os.path.join(V, "stubs"), os.path.join(V, "harness/src"), os.path.join(V, "harness/Cargo.toml"),
                     os.path.join(V, "replay/src"), os.path.join(V, "replay/Cargo.toml")])
    eng = tree_hash([os.path.join(V, "engine/src"), os.path.join(V, "engine/Cargo.toml")])
    t0 = time.time()

    def b_engine():
        if stamp("engine.stamp") == eng and os.path.exists(SYMX):
            return
        sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), e, "engine build")
        set_stamp("engine.stamp", eng)

    def b_ir():
        tgt = os.path.join(V, "harness/target")
        lls = glob.glob(os.path.join(tgt, "release/deps/harness-*.ll"))
        if stamp("ir.stamp") == src + own and len(lls) == 1:
            return lls[0]
        forget(tgt, ["sshcerts", "harness", "vrt", "ring", "aes", "bcrypt-pbkdf", "yubikey", "authenticator"])
        e2 = dict(e, RUSTC_BOOTSTRAP="1", RUSTFLAGS=RUSTFLAGS_IR, CARGO_TARGET_DIR=tgt)
        sh(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--", "--emit=llvm-ir"],
           os.path.join(V, "harness"), e2, "IR build")
        lls = glob.glob(os.path.join(tgt, "release/deps/harness-*.ll"))
        if len(lls) != 1:
            raise NoAnswer("IR build produced %d modules" % len(lls))
        set_stamp("ir.stamp", src + own)
        return lls[0]

    def b_replay():
        tgt = os.path.join(V, "replay/target")
        if stamp("replay.stamp") == src + own and os.path.exists(REPLAY):
            return
        forget(tgt, ["sshcerts", "harness", "replay", "vrt", "ring", "aes", "bcrypt-pbkdf", "yubikey", "authenticator"])
        sh(["cargo", "build", "--release", "--offline"], os.path.join(V, "replay"), dict(e, CARGO_TARGET_DIR=tgt), "replay build")
        set_stamp("replay.stamp", src + own)

    with cf.ThreadPoolExecutor(3) as ex:
        a, b, c = ex.submit(b_engine), ex.submit(b_ir), ex.submit(b_replay)
        a.result()
        ll = b.result()
        c.result()
    return ll, src, time.time() - t0


STOP = threading.Event()
RUNNING = set()
# a quick run must end within 900 s whatever the tree looks like; what is left then is reported as not explored
DEADLINE = {"quick": 780, "thorough": 6 * 3600}


def halt():
    STOP.set()
    for p in list(RUNNING):
        p.kill()


def run_job(ll, job, idx, seed, pid, tier):
    out = os.path.join(WORK, "%s-%d.json" % (pid, idx))
    if os.path.exists(out):
        os.remove(out)
    cmd = [SYMX, "--ll", ll, "--entry", job["entry"], "--out", out, "--time", str(job["time"]), "--seed", str(seed),
           "--max-viol", "8"]
    for k, v in job["params"].items():
        cmd += ["--param", "%s=%d" % (k, v)]
    cmd += job.get("opts", [])
    t0 = time.time()
    if STOP.is_set():
        return {"job": job, "skipped": True, "wall": 0}
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    RUNNING.add(p)
    try:
        log = p.communicate(timeout=job["time"] * 2 + 60)[0]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        log = "engine did not stop"
    RUNNING.discard(p)
    if STOP.is_set() and not os.path.exists(out):
        return {"job": job, "skipped": True, "wall": time.time() - t0}
    if not os.path.exists(out):
        return {"job": job, "crash": log[-2000:], "wall": time.time() - t0}
    r = json.load(open(out))
    os.remove(out)
    r["job"] = job
    r["wall"] = time.time() - t0
    return r


def native(job, tape, alloc=None):
    cmd = [REPLAY, job["entry"], tape] + ["%s=%d" % kv for kv in job["params"].items()]
    e = dict(os.environ, VR_MAX_ALLOC=str(alloc or 16 << 20))
    e.pop("TZ", None)
    e["TZ"] = "UTC0"
    e.update(job.get("env", {}))
    e["RUST_BACKTRACE"] = "0"
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env=e)
    except subprocess.TimeoutExpired:
        return 124, [], "timeout", cmd
    notes = [int(x.split()[1]) for x in p.stdout.splitlines() if x.startswith("NOTE ")]
    return p.returncode, notes, p.stdout[-600:] + p.stderr[-1200:], cmd


def reproduces(job, viol):
    # several attempts: the iteration order of the standard hash map differs between native runs
    for _ in range(12):
        rc, _, text, cmd = native(job, viol["tape"])
        if rc == 10 and "CHECK-FAILED" in text or rc in (12, 13, 124) or rc < 0 or rc >= 128:
            return True, rc, text, cmd
    return False, rc, text, cmd


def is_known(known, job, v):
    return [k for k in known if k["entry"] == job["entry"] and k["label"] == v["label"] and re.fullmatch(k["tape"], v["tape"])]


def load_known():
    """Lines `known: property=<id> entry=<entry> label=<label> [params=k=v,...]`; `fixed:` lines suppress nothing."""
    p = os.path.join(V, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) label="([^"]*)" tape="([^"]*)" what="([^"]*)"', line)
            if m:
                out.append(dict(zip(("property", "entry", "label", "tape", "what"), m.groups())))
    return out


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.splitlines()
    except OSError:
        return names


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[pid]
    jobs = [j for j in P["jobs"](tier)]
    ev_path = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    ll, src, build_s = build()
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get("weight", 1))
    res = [None] * len(jobs)
    known = [k for k in load_known() if k["property"] == pid]
    STOP.clear()
    timer = threading.Timer(max(30, DEADLINE.get(tier, 780) - (time.time() - t0)), halt)
    timer.daemon = True
    timer.start()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = {ex.submit(run_job, ll, jobs[i], i, seed, pid, tier): i for i in order}
        for f in cf.as_completed(fs):
            r = res[fs[f]] = f.result()
            # one counterexample that replays on the real code settles the answer
            for v in r.get("violations", [])[:4]:
                if not STOP.is_set() and not is_known(known, r["job"], v) and reproduces(r["job"], v)[0]:
                    halt()
    timer.cancel()
    # what keeps the exploration from being complete (reported, and the evidence says so) / what makes it worthless
    gaps, problems, violations, known_hit, whole = [], [], [], {}, 0
    validated, val_bad = 0, []
    covers = {}
    tot = {k: 0 for k in ("paths_done", "paths_violating", "paths_error", "paths_truncated", "forks", "steps", "branches_sym", "checks",
                          "checks_const", "checks_solver", "z3_queries", "z3_sat", "z3_unsat", "z3_unknown", "z3_cache_hits",
                          "byte_domain_queries", "sym_bytes")}
    z3s, maxms, functions, samples, per_job, errors = 0.0, 0.0, set(), [], [], {}
    complete, skipped = True, 0
    viol_list, sample_list = [], []
    for r in res:
        job = r["job"]
        name = job["entry"] + "(" + ",".join("%s=%s" % kv for kv in job["params"].items()) + ")"
        if "skipped" in r:
            skipped += 1
            complete = False
            continue
        if "crash" in r:
            gaps.append("engine stopped on %s: %s" % (name, r["crash"][-300:]))
            complete = False
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        z3s += r["z3_seconds"]
        maxms = max(maxms, r["z3_max_ms"])
        functions.update(r["functions"])
        if not r["complete"]:
            complete = False
        else:
            whole += 1
        for k, v in r["errors"].items():
            errors[k] = errors.get(k, 0) + v
        for k, v in r["covers"].items():
            covers[job["entry"] + ":" + k] = covers.get(job["entry"] + ":" + k, 0) + v
        for c in job.get("covers", []):
            if c not in r["covers"] and not r["violations"]:
                (problems if r["complete"] and not r["errors"] else gaps).append("vacuous: %s never reached '%s' (complete=%s)" % (name, c, r["complete"]))
        per_job.append({"job": name, "opts": job.get("opts", []), "paths": r["paths_done"], "ir_steps": r["steps"], "symbolic_bytes": r["sym_bytes"],
                        "checks": r["checks"], "z3": r["z3_queries"], "z3_s": round(r["z3_seconds"], 3), "complete": r["complete"],
                        "errors": r["errors"], "wall_s": round(r["wall"], 2)})
        seen = {}
        for v in r["violations"]:
            if seen.get(v["label"], 0) < 3:
                seen[v["label"]] = seen.get(v["label"], 0) + 1
                viol_list.append((job, v))
        sample_list += [(job, s) for s in r["samples"][:job.get("nsamples", 3)]]
    # counterexamples: replay natively, report only what reproduces
    rdir = os.path.join(V, "evidence", "replay")
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (job, v), (ok, rc, text, cmd) in zip(viol_list, ex.map(lambda jv: reproduces(*jv), viol_list)):
            if not ok:
                complete = False
                gaps.append("counterexample does not replay: %s %s rc=%d [%s]" % (job["entry"], v["label"], rc, text[-200:]))
                continue
            kn = is_known(known, job, v)
            if kn:
                known_hit[kn[0]["what"]] = 1
                continue
            violations.append((job, v, rc, text, cmd))
        for (job, s), (rc, notes, text, cmd) in zip(sample_list, ex.map(lambda js: native(js[0], js[1]["tape"]), sample_list)):
            if rc == 0 and notes == s["notes"]:
                validated += 1
            else:
                val_bad.append("%s rc=%d notes %s vs %s tape=%s %s" % (" ".join(cmd[1:2] + cmd[3:]), rc, notes[:40], s["notes"][:40], s["tape"][:200], text[-200:]))
    if val_bad:
        problems.append("engine and native run disagree on %d samples, e.g. %s" % (len(val_bad), val_bad[0]))
    for job, s in sample_list[:: max(1, len(sample_list) // 6)][:6]:
        samples.append({"entry": job["entry"], "params": job["params"], "input_tape": s["tape"][:400], "observed": s["notes"][:30],
                        "covers": s["covers"], "path_constraints": s["constraints"]})
    fn = [f for f in demangle(sorted(functions)) if "sshcerts::" in f and not f.startswith("core::ptr::drop_in_place")]
    fn = sorted(set(re.sub(r"\[[0-9a-f]{6,16}\]", "", f) for f in fn))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths_done"] + tot["paths_violating"], "transitions": tot["steps"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": complete and not problems and not gaps, "gaps": gaps[:20],
            "explanation": "states = feasible symbolic paths decided (each covers every input satisfying its path condition); "
                           "transitions = LLVM-IR instructions executed symbolically",
            "bounds": P["bounds"], "outside_the_claim": P["outside"],
            "functions_encoded": fn, "functions_encoded_total": len(functions),
            "queries": {"z3": tot["z3_queries"], "sat": tot["z3_sat"], "unsat": tot["z3_unsat"], "unknown": tot["z3_unknown"],
                        "cached": tot["z3_cache_hits"], "decided_by_byte_domains": tot["byte_domain_queries"],
                        "assertions": tot["checks"], "assertions_decided_by_solver": tot["checks_solver"],
                        "assertions_constant_after_simplification": tot["checks_const"]},
            "solver_seconds": round(z3s, 3), "solver_max_query_ms": round(maxms, 1),
            "symbolic_branches": tot["branches_sym"], "forks": tot["forks"], "symbolic_input_bytes_over_jobs": tot["sym_bytes"],
            "reachability_witnesses": covers, "paths_lost_to_engine_errors": tot["paths_error"], "paths_truncated": tot["paths_truncated"],
            "engine_errors": errors, "jobs_not_run": skipped, "jobs": per_job, "build_s": round(build_s, 1), "source_hash": src,
        },
        "assumptions": P["assumes"], "violations": len(violations), "wall_s": round(time.time() - t0, 2),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d jobs, %d paths, %d IR steps, %d assertions, %d z3 queries (%.1f s), %d native traces, complete=%s, %.1f s (build %.1f s)" % (
        pid, tier, len(jobs), tot["paths_done"], tot["steps"], tot["checks"], tot["z3_queries"], z3s, validated, complete, ev["wall_s"], build_s))
    for w in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violations:
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for n, (job, v, rc, text, cmd) in enumerate(violations):
            if v["label"] in done or len(done) > 7:
                continue
            done.add(v["label"])
            rp = os.path.join(rdir, "%s-%d.json" % (pid, n))
            json.dump({"property": pid, "entry": job["entry"], "params": job["params"], "label": v["label"], "tape": v["tape"], "notes": v["notes"],
                       "stack": demangle(v["stack"]), "native_exit": rc, "native_output": text, "replay_cmd": cmd}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  %s %s: %s" % (job["entry"], job["params"], v["label"]))
        return 1
    if skipped:
        gaps.append("%d jobs not run within the time limit" % skipped)
    if whole * 2 < len(jobs):
        problems.append("only %d of %d jobs were explored completely" % (whole, len(jobs)))
    for p in gaps[:10]:
        print("INCOMPLETE " + p)
    for p in problems[:10]:
        print("PROBLEM " + p)
    return 2 if problems else 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            _, _, s = build()
            print("built in %.1f s" % s)
            return 0
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        if a[0] == "--all":
            return max(check(p, tier) for p in sorted(props.PROPS))
        return check(a[0], tier)
    except NoAnswer as e:
        print("NO-ANSWER " + str(e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
