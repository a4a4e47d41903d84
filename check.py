#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: builds the simulator from /repo's working tree, searches seeded schedules and
fault sequences, re-samples runs for determinism, replays every violation in a fresh process, writes evidence/PROPERTY.json."""
import hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS

WORKERS = 8


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, root).encode())
            with open(f, "rb") as fp:
                h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:20]


def build(kind):
    """Builds the simulator `kind` from the present /repo tree. A finished build of exactly these sources is reused."""
    script = os.path.join(HERE, "tools", "build_%s.sh" % kind)
    src = [os.path.join(REPO, "libs/mathlib/include"), os.path.join(HERE, "sim"), os.path.join(HERE, kind), script]
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, "%s-%s" % (kind, digest(src)))
    exe = os.path.join(out, "sim" + kind)
    if not os.path.exists(exe):
        for old in os.listdir(base):
            if old.startswith(kind + "-"):
                shutil.rmtree(os.path.join(base, old), ignore_errors=True)
        tmp = out + ".tmp%d" % os.getpid()
        p = subprocess.run(["bash", script, REPO, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stdout.write(p.stdout[-4000:])
            print("BUILD-ERROR: the %s simulator does not build from %s" % (kind, REPO))
            shutil.rmtree(tmp, ignore_errors=True)
            sys.exit(2)
        os.rename(tmp, out)
    return exe


def lines(p):
    out, _ = p.communicate()
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith("{"):
            res.append(json.loads(l))
    return res, p.returncode


def run(exe, args):
    return subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)


def known(prop):
    f = os.path.join(HERE, "known-findings.jsonl")
    res = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    res.append(k)
    return res


def replay(exe, path):
    p = subprocess.run([exe, "replay", "--file", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    d = {}
    for l in p.stdout.splitlines():
        k, _, v = l.partition(" ")
        d[k] = v
    return p.returncode, d.get("class"), d.get("hash"), d.get("known")


def main():
    prop = sys.argv[1]
    if prop == "--build-all":
        for k in sorted({c["kind"] for c in PROPS.values()}):
            print(build(k))
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    exe = build(cfg["kind"])
    tbuild = time.time() - t0
    out = os.path.join(HERE, "replays")
    os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(out, f))
    n = cfg["runs"][0 if tier == "quick" else 1]
    print("check %s tier %s seed %d runs %d" % (prop, tier, seed, n), flush=True)
    common = ["run", "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out]
    every = max(1, n // cfg.get("resample", 200))
    every += 1 - every % 2                              # odd: visits every worker's indices
    t1 = time.time()
    ps = [run(exe, common + ["--from", str(w), "--to", str(n), "--stride", str(WORKERS), "--hash-every", str(every)]) for w in range(WORKERS)]
    ctr, shapes, hashes, viol, errors, knownhits = {}, set(), {}, [], [], {}
    runs = steps = simtime = 0
    for p in ps:
        res, rc = lines(p)
        fin = False
        for r in res:
            if "error" in r:
                errors.append(r)
            elif "violation" in r:
                viol.append(r)
            elif "hash" in r:
                hashes[r["index"]] = r["hash"]
            elif "runs" in r:
                fin = True
                runs += r["runs"]; steps += r["steps"]; simtime += r["simtime_us"]
                shapes.update(r["shapes"])
                for k, v in r["counters"].items():
                    c = ctr.setdefault(k, [0, 0]); c[0] += v[0]; c[1] += v[1]
                for k, v in r.get("known", {}).items():
                    knownhits[k] = knownhits.get(k, 0) + v
        if not fin and not any("error" in r for r in res):
            errors.append({"error": "a worker ended with status %s before reporting" % rc})
    search = time.time() - t1
    # determinism: the same runs again in other processes, another worker count, another order of runs
    resampled = diverged = 0
    if not errors and not viol:
        W = 3
        ps = [run(exe, common + ["--from", str(w * every), "--to", str(n), "--stride", str(every * W), "--hash-every", "1"]) for w in range(W)]
        for p in ps:
            res, rc = lines(p)
            for r in res:
                if "error" in r:
                    errors.append(r)
                if "hash" in r and "index" in r and r["index"] in hashes and "violation" not in r:
                    resampled += 1
                    if hashes[r["index"]] != r["hash"]:
                        diverged += 1
                        errors.append({"error": "run %d is not deterministic: event hash %s, then %s" % (r["index"], hashes[r["index"]], r["hash"])})
    status = 0
    listed = known(prop)
    # every listed finding is confirmed against the present tree
    for k in listed:
        rf = os.path.join(HERE, k["replay"])
        if replay(exe, rf)[3] == k["id"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        else:
            print("note: the known finding %s of %s no longer fails" % (k["id"], prop))
    confirmed = []
    for v in sorted(viol, key=lambda v: v["index"]):
        a, b = replay(exe, v["replay"]), replay(exe, v["replay"])
        if not v["stable"]:             # the code under test itself is not deterministic
            for _ in range(6):
                if a[0] == 1 and a[1] == v["violation"]:
                    break
                a = replay(exe, v["replay"])
            if a[0] != 1 or a[1] != v["violation"]:
                errors.append({"error": "violation of run %d does not replay in a fresh process: %s" % (v["index"], a)})
                continue
        elif a != b or a[0] != 1 or a[1] != v["violation"] or a[2] != v["hash"]:
            errors.append({"error": "violation of run %d does not replay in a fresh process: %s, %s" % (v["index"], a, b)})
            continue
        confirmed.append(v)
    for v in confirmed:
        print("violation: %s: %s (seed %d, run %d, minimised from %d to %d steps)" % (v["violation"], v["message"], seed, v["index"], v["steps_before"], v["steps_after"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        status = 1
    # samples: a few complete plans of this run
    samples = []
    for i in sorted({0, n // 3, n - 1}):
        g = subprocess.run([exe, "gen", "--prop", prop, "--seed", str(seed), "--index", str(i), "--tier", tier], stdout=subprocess.PIPE, text=True).stdout
        samples.append({"run": i, "plan": g.strip().split("\n")[:60], "event_hash": hashes.get(i, "")})
    wall = time.time() - t0
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(shapes),
        "rule": cfg["rule"],
        "samples": samples,
        "simulated_runs_per_hour": int(runs / max(search, 1e-6) * 3600),
        "seeds_per_hour": int(runs / max(search, 1e-6) * 3600),
        "base_seed": seed,
        "scheduling_points_or_events": steps,
        "simulated_time": {"ticks": simtime, "unit": cfg.get("tick", "1 tick = 1 scheduling point")},
        "counters_total": {k: v[0] for k, v in ctr.items() if v[0]},
        "runs_with_counter": {k: v[1] for k, v in ctr.items() if v[0]},
        "never_fired": [k for k, v in ctr.items() if not v[0] and k in cfg.get("expect", [])],
        "determinism": {"runs_repeated": resampled, "diverged": diverged, "worker_counts": [WORKERS, 3]},
        "real_code": cfg["real"],
        "stubs": cfg["stubs"],
        "build_s": round(tbuild, 2),
        "search_s": round(search, 2),
        "known_findings_hit": knownhits,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": cfg["assume"], "wall_s": round(wall, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    for e in errors:
        print("error: %s" % json.dumps(e))
    if status == 1:
        return 1
    if errors:
        return 2
    print("ok: %d runs, %d distinct shapes, %d scheduling points or events, %.1f s" % (runs, len(shapes), steps, wall))
    return 0


sys.exit(main())
