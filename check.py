#!/usr/bin/env python3
"""Decides one property of /repo.  usage: check.py ID   (VERIF_SEED, VERIF_TIER from the environment)"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = f"{VERIF}/target"
HARNESS = f"{VERIF}/harness"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
ENV = dict(os.environ)
ENV.update(
    PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin",
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="1", RUST_BACKTRACE="0",
    VERIF_SEED=str(SEED), VERIF_TIER=TIER, HOME="/root",
)
OK_ABORTS = re.compile(r"^(infeasible|assumption|comparison at a kink|panic \(permitted)")


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = [d for d in dirs if not (root == REPO and d in ("target", ".git")) and d != ".git"]
        for n in names:
            if n.endswith((".rs", ".toml", ".txt", ".json")) or "data" in root or "quadrature" in root:
                files.append(os.path.join(root, n))
    for f in sorted(files):
        try:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    return h.hexdigest()


def stale(*globs):
    for g in globs:
        for d in glob.glob(g):
            shutil.rmtree(d, ignore_errors=True)


def kani(prefix, limit):
    """Run the Kani proofs whose names start with `prefix`; returns one record per harness, or None with the tool's output."""
    stamp = f"{TARGET}/repo-sources.kani.sha256"
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        d = f"{TARGET}/kani/kani/*/debug"
        stale(*[f"{d}/build/{n}/*/fingerprint" for n in ("fenris*", "polyquad*")], f"{d}/.fingerprint/fenris*", f"{d}/.fingerprint/polyquad*")
        if os.path.exists(stamp):
            os.remove(stamp)
    out = f"{TARGET}/kani-{prefix}.json"
    if os.path.exists(out):
        os.remove(out)
    env = dict(ENV, CARGO_TARGET_DIR=f"{TARGET}/kani")
    env.pop("RUSTUP_TOOLCHAIN")
    t0 = time.time()
    cmd = ["cargo", "kani", "-j", "8", "--output-format", "terse", "-Z", "unstable-options", "--export-json", out, "--harness-timeout", f"{limit}s", "--harness", prefix]
    r = subprocess.run(cmd, cwd=f"{HARNESS}/kcheck", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if "could not compile" not in r.stdout and "error[" not in r.stdout:
        with open(stamp, "w") as f:
            f.write(now)
    if not os.path.exists(out):
        return None, r.stdout[-4000:], time.time() - t0
    d = json.load(open(out))
    res = []
    stats = {c["harness_id"]: c.get("cbmc_stats", {}) for c in d.get("cbmc", [])}
    for h in d["verification_results"]["results"]:
        ch = h.get("checks") or []
        bad = [c for c in ch if c["status"] not in ("Success", "Unreachable", "Satisfied", "Covered")]
        res.append(dict(name=h["harness_id"].split("::")[-1], ok=h["status"] == "Success",
                        n=sum(c["status"] != "Unreachable" for c in ch), good=sum(c["status"] == "Success" for c in ch),
                        seconds=h["duration_ms"] / 1000, solver=(stats.get(h["harness_id"]) or {}).get("runtime_decision_procedure_s", 0),
                        failed=[f"{c['description']} [{c['category']}] in {c['function']} line {c['location'].get('line')}" for c in bad if c["status"] == "Failure"],
                        undecided=[c["description"] for c in bad if c["status"] != "Failure"]))
    return res, r.stdout[-4000:], time.time() - t0


def build(bins):
    """cargo decides staleness by time stamps; a content hash makes sure /repo's current text is what gets built."""
    lock = f"{HARNESS}/Cargo.lock"
    if not os.path.exists(lock):
        shutil.copy("/opt/vp/Cargo.lock", lock)
    os.makedirs(TARGET, exist_ok=True)
    stamp = f"{TARGET}/repo-sources.sha256"
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now:
        stale(f"{TARGET}/debug/.fingerprint/fenris*", f"{TARGET}/debug/.fingerprint/polyquad*")
        if os.path.exists(stamp):
            os.remove(stamp)
    t0 = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "-q"] + [x for b in bins for x in ("--bin", b)],
                       cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    # after a source change every binary is stale until it is rebuilt, so the stamp only vouches for the libraries
    with open(stamp, "w") as f:
        f.write(now)
    return time.time() - t0


def known_findings(pid):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status", "open") == "open"]


def matches(k, f):
    return (re.fullmatch(k["contract"], f["contract"]) and re.fullmatch(k["obligation"], f["obligation"])
            and re.search(k.get("detail", ""), f["detail"]))


def main():
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        pid, path = sys.argv[1], sys.argv[3]
        build([pid.lower()])
        sys.exit(subprocess.run([f"{TARGET}/debug/{pid.lower()}", "--replay", path], env=ENV).returncode)
    pid = sys.argv[1]
    t0 = time.time()
    cfg = json.load(open(f"{VERIF}/checks.json"))[pid]
    binname = pid.lower()
    evidence = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    repdir = f"{VERIF}/evidence/replay"
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(f"{repdir}/{pid}-*"):
        os.remove(f)
    alarms, known_hits, notes = [], [], []
    units = []
    proofs = []
    if cfg.get("verus"):
        sys.path.insert(0, f"{VERIF}/verus")
        import vrun
        from concurrent.futures import ThreadPoolExecutor
        pool = ThreadPoolExecutor(4)
        proofs = [pool.submit(vrun.run_unit, name, TARGET, TIER) for name in cfg["verus"]]
    build_s = 0.0
    if cfg.get("bin", True):
        build_s = build([binname])
        out = f"{TARGET}/{pid}.out.json"
        if os.path.exists(out):
            os.remove(out)
        exe = f"{TARGET}/debug/{binname}"
        r = subprocess.run([exe, "--out", out], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            print(r.stdout[-3000:])
            print("ERROR: the harness produced no report")
            sys.exit(2)
        units = json.load(open(out))
        def hit(u):
            return u.get("confirmed") or (u["kind"] == "bounded" and u["failures"])
        retry = [] if any(hit(u) for u in units) else [u for u in units if u["kind"] == "crash" or (u["kind"] == "contract" and u["unknown"] and not u["failures"] and not u["confirmed"])]
        t1 = time.time()
        for u in retry:
            if TIER != "thorough" and time.time() - t1 > 150:
                break
            env = dict(ENV, SYM_Z3_MS="20000")
            subprocess.run([exe, "--out", out, "--only", u["name"], "--jobs", "1", "--limit", "100"], env=env)
            new = [x for x in json.load(open(out)) if x["name"] == u["name"]]
            if new:
                units[units.index(u)] = new[0]
    verus = [f.result() for f in proofs]

    kres, kout, kani_s = [], "", 0.0
    if cfg.get("kani"):
        kres, kout, kani_s = kani(f"{pid.lower()}_", 1200 if TIER == "thorough" else 240)
        if kres is None:
            print(kout)
            print("ERROR: Kani produced no report")
            sys.exit(2)

    kf = known_findings(pid)
    tot = dict(obligations=0, discharged=0, bounded_obligations=0, bounded_discharged=0)
    backend = {}
    functions, bounded_functions = [], []
    paths = executions = cases = distinct = 0
    samples, aborted, z3 = [], {}, dict(queries=0, seconds=0.0, unknown=0, normal_form_seconds=0.0)
    per_contract = []

    def alarm(f, confirmed):
        for k in kf:
            if matches(k, f):
                if k["id"] not in known_hits:
                    known_hits.append(k["id"])
                return
        alarms.append((f, confirmed))

    for u in units:
        if u["kind"] == "contract":
            n = d = 0
            for ob, (a, nf, smt, bad) in u["obligations"].items():
                n += a
                d += nf + smt
                backend["exact normal form"] = backend.get("exact normal form", 0) + nf
                backend["z3"] = backend.get("z3", 0) + smt
            b = u["bound"] is not None
            tot["bounded_obligations" if b else "obligations"] += n
            tot["bounded_discharged" if b else "discharged"] += d
            (bounded_functions if b else functions).extend(u["functions"])
            paths += u["paths"]
            executions += u["executions"]
            for k, v in u["aborted"].items():
                aborted[k] = aborted.get(k, 0) + v
            for k in ("queries", "seconds", "unknown"):
                z3[k] += u["solver"][k]
            z3["normal_form_seconds"] += u["solver"]["nf_seconds"]
            per_contract.append({"contract": u["name"], "bound": u["bound"], "paths": u["paths"], "obligations": n, "discharged": d,
                                 "seconds": round(u["seconds"], 3), "incomplete": u["incomplete"]})
            if len(samples) < 6:
                samples.append({"contract": u["name"], "some_obligations": list(u["obligations"])[:3]})
            bad = u["failures"] + u["unknown"]
            conf = u["confirmed"]
            if bad and conf:
                seen = set()
                for f in conf:
                    if f["obligation"] not in seen:
                        seen.add(f["obligation"])
                        f = dict(f, verifier=[x["obligation"] + ": " + x["detail"] for x in bad[:5]])
                        alarm(f, True)
            elif bad:
                for f in bad[:3]:
                    alarm(f, False)
            odd = {k: v for k, v in u["aborted"].items() if not OK_ABORTS.match(k)}
            if odd:
                alarm({"contract": u["name"], "obligation": "every path is within the verifier's reach", "detail": json.dumps(odd), "inputs": {}}, False)
            elif n == 0 or u["paths"] == 0:
                alarm({"contract": u["name"], "obligation": "some path satisfies the precondition", "detail": "no obligation generated", "inputs": {}}, False)
            if u["incomplete"]:
                notes.append(f"{u['name']}: {u['incomplete']}")
                if not bad:
                    alarm({"contract": u["name"], "obligation": "every path is explored", "detail": u["incomplete"], "inputs": {}}, False)
        elif u["kind"] == "bounded":
            cases += u["cases"]
            distinct += u["distinct"]
            bounded_functions.extend(u["functions"])
            per_contract.append({"contract": u["name"], "bound": u["bound"], "cases": u["cases"], "distinct": u["distinct"], "seconds": round(u["seconds"], 3)})
            samples.extend({"contract": u["name"], "case": s} for s in u["samples"][:2])
            for f in u["failures"]:
                alarm(f, True)
            if u["cases"] == 0:
                alarm({"contract": u["name"], "obligation": "some case is generated", "detail": "0 cases", "inputs": {}}, False)
        elif u["kind"] == "skipped" or u.get("interrupted"):
            notes.append(f"{u['name']}: not decided, a failing input was found elsewhere")
        elif u.get("confirmed"):
            for f in u["confirmed"][:3]:
                alarm(f, True)
        else:
            alarm({"contract": u["name"], "obligation": "the contract is decided within its limits",
                   "detail": f"worker ended without an answer (timed out: {u['timed_out']}, {u['status']}): {u['stderr'][-500:]}", "inputs": {}}, False)
    kmeta = {u["name"].split(":")[-1].strip(): u for u in units if u["kind"] == "bounded" and u["name"].startswith("native run of Kani contract")}
    for h in kres:
        m = kmeta.get(h["name"], {"functions": [], "bound": "?"})
        b = m["bound"].startswith("proof bounded")
        tot["bounded_obligations" if b else "obligations"] += h["n"]
        tot["bounded_discharged" if b else "discharged"] += h["good"]
        backend["kani/cbmc"] = backend.get("kani/cbmc", 0) + h["good"]
        (bounded_functions if b else functions).extend(m["functions"])
        per_contract.append({"contract": h["name"], "back_end": "kani", "bound": m["bound"] if b else None, "obligations": h["n"], "discharged": h["good"],
                             "seconds": h["seconds"], "solver_seconds": h["solver"]})
        if not h["ok"]:
            native = any(f[1] and f[0]["contract"].endswith(": " + h["name"]) for f in alarms)
            if native:
                continue  # the same contract failed natively on a concrete input, reported above
            what = h["failed"] or ["not decided: " + "; ".join(h["undecided"][:3])]
            alarm({"contract": h["name"], "obligation": what[0], "detail": "kani: " + "; ".join(what[:6]), "inputs": {}}, False)
    if cfg.get("kani") and len(kres) != len(kmeta):
        alarm({"contract": "kani", "obligation": "every contract is decided", "detail": f"{len(kres)} of {len(kmeta)} proofs reported", "inputs": {}}, False)
    verus_trusted = []
    for v in verus:
        per_contract.append({k: v[k] for k in ("unit", "status", "verified", "errors", "seconds", "functions", "note", "drops", "trusted") if k in v})
        verus_trusted.extend(f"{v['unit']}: {t}" for t in v.get("trusted", []))
        if v["status"] == "verified":
            tot["obligations"] += v["verified"]
            tot["discharged"] += v["verified"]
            backend["verus/z3"] = backend.get("verus/z3", 0) + v["verified"]
            functions.extend(v["functions"])
        elif v["status"] == "failed":
            tot["obligations"] += v["verified"] + v["errors"]
            tot["discharged"] += v["verified"]
            backend["verus/z3"] = backend.get("verus/z3", 0) + v["verified"]
            functions.extend(v["functions"])
            # the executions above searched for a concrete input; report the failed obligation itself
            if not alarms:
                for f in v["failures"][:3]:
                    alarm(dict(f, inputs={}), False)
        else:
            notes.append(f"{v['unit']}: {v['note']} (not decided by proof on this tree; the bounded stand-in decides)")

    alarms.sort(key=lambda a: not a[1])
    lines = []
    for i, (f, confirmed) in enumerate(alarms[:5]):
        path = f"{repdir}/{pid}-{i}.json"
        json.dump(dict(f, property=pid, confirmed_on_real_code=confirmed, seed=SEED,
                       rerun=f"python3 {VERIF}/check.py {pid} --replay {path}"), open(path, "w"), indent=1)
        print(f"  {f['contract']} | {f['obligation']} | {f['detail'][:600]} | inputs {json.dumps(f['inputs'])[:400]}")
        lines.append(f"VIOLATION property={pid} replay={path}" + ("" if confirmed else " no-failing-input-found"))
    for k in kf:
        if k["id"] in known_hits:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    functions = sorted(set(functions))
    bounded_functions = sorted(set(bounded_functions) - set(functions))
    cov = {
        "obligations": tot["obligations"], "discharged": tot["discharged"],
        "checker_cmd": f"python3 {VERIF}/check.py {pid}",
        "trusted_base": TRUSTED + cfg.get("trusted", []) + (["Verus, its translation and vstd's contracts of the standard library; /verif/verus/vrun.py, which cuts the functions out of the sources"] + verus_trusted if verus else []),
        "bounded_obligations": tot["bounded_obligations"], "bounded_discharged": tot["bounded_discharged"],
        "back_ends": backend, "functions_under_contract": functions, "functions_bounded_only": bounded_functions,
        "symbolic_paths": paths, "aborted_paths": aborted, "float_executions_of_contracts": executions,
        "evaluations": cases, "distinct_nontrivial": distinct,
        "rule": "cases of the bounded stand-ins: enumerated or drawn from VERIF_SEED as each stand-in's bound states; distinct by full description",
        "solver": z3, "build_seconds": round(build_s, 2), "kani_seconds": round(kani_s, 2), "contracts": per_contract, "samples": samples or ["none"],
        "explanation": cfg.get("explanation", ""), "notes": notes, "known_findings_seen": known_hits,
    }
    ev = {"property": pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ASSUME, "wall_s": round(time.time() - t0, 2), "violations": len(alarms)}
    json.dump(ev, open(evidence, "w"), indent=1)
    print(f"{pid}: {tot['discharged']}/{tot['obligations']} obligations discharged, bounded {tot['bounded_discharged']}/{tot['bounded_obligations']}, "
          f"{paths} paths, {cases} stand-in cases, {len(notes)} notes, {time.time()-t0:.1f} s")
    for n in notes:
        print("note:", n)
    for l in lines:
        print(l)
    sys.exit(1 if lines else 0)


TRUSTED = [
    "symcore (in /verif/harness): the symbolic scalar, exact polynomial normaliser and path explorer",
    "rustc and nalgebra monomorphise the generic code identically for the symbolic scalar and for f64",
]
ASSUME = [
    "machine floating point is treated as exact real arithmetic in proofs; float literals denote the simplest rational that rounds to them",
    "rustc, nalgebra, nalgebra-sparse, simba, num-* and z3 are trusted",
]
if __name__ == "__main__":
    main()
