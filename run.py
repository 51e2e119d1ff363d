#!/usr/bin/env python3
"""Run one property's check: seeded search over simulated runs.

    run.py C05                quick tier (VERIF_TIER / VERIF_SEED are honoured)
    run.py C05 --replay FILE  re-execute a replay file and print its event log
"""
import argparse, json, os, re, subprocess, sys, tempfile, time, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, COMPONENTS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def build():
    r = sh([sys.executable, os.path.join(VERIF, "tools/build.py")])
    if r.returncode:
        sys.stderr.write(r.stderr)
        print("ERROR: the simulator could not be built from /repo")
        sys.exit(2)
    return r.stdout.strip()


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop:
                    res.append(k)
    return res


def one(exe, path):
    r = sh([exe, "one", path], timeout=300)
    h = re.search(r"^HASH (\d+)", r.stdout, re.M)
    v = [l.split("\t")[1:4] for l in r.stdout.splitlines() if l.startswith("VIOL\t")]
    return (h.group(1) if h else None), v, r.stderr


def parse(path):
    d = dict(viol=[], samples=[], stats={}, states=set(), nondet=[], done=False, runs=0, nontrivial=0, rechecked=0, steps=0, simtime=0)
    if not os.path.exists(path):
        return d
    lines = open(path, errors="replace").read().split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l == "SAMPLE" or l == "PLAN":
            end = "END" + l
            j = i + 1
            while j < len(lines) and lines[j] != end:
                j += 1
            text = "\n".join(lines[i + 1:j]) + "\n"
            if l == "SAMPLE":
                d["samples"].append(text)
            else:
                d["viol"][-1]["plan"] = text
            i = j
        elif l.startswith("VIOL\t"):
            f = l.split("\t")
            d["viol"].append(dict(index=int(f[1]), hash=f[2], prop=f[3], cls=f[4], detail=f[5], plan=""))
        elif l.startswith("NONDET"):
            d["nondet"].append(l)
        elif l.startswith("STAT "):
            k, n = l[5:].rsplit(" ", 1)
            d["stats"][k] = int(n)
        elif l.startswith("STATES"):
            d["states"] = set(l.split()[1:])
        elif l == "DONE":
            d["done"] = True
        else:
            m = re.match(r"(RUNS|NONTRIVIAL|RECHECKED|STEPS|SIMTIME) (\d+)$", l)
            if m:
                d[m.group(1).lower()] = int(m.group(2))
        i += 1
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("WSIM_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--minimize-seconds", type=float, default=60)
    ap.add_argument("--max-viol", type=int, default=1)
    a = ap.parse_args()
    exe = build()
    if a.replay:
        r = subprocess.run([exe, "one", a.replay])
        return subprocess.run([exe, "replay", a.replay]).returncode
    c = CHECKS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    secs = a.seconds or c[tier]
    t0 = time.time()
    known = known_findings(a.prop)
    tmp = tempfile.mkdtemp(prefix="wsim-")
    rc = 0
    try:
        known_seen = []
        for k in known:
            h, v, _ = one(exe, os.path.join(VERIF, k["replay"]))
            if any(x[1] == k["class"] for x in v):
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                known_seen.append(k["class"])
            for x in v:
                if x[1] not in [y["class"] for y in known]:
                    print("note: the replay of a known finding fails differently: %s %s" % (x[1], x[2]))
        sys.stdout.flush()
        procs = []
        for w in range(a.workers):
            out = os.path.join(tmp, "w%d" % w)
            procs.append((subprocess.Popen([exe, "batch", "--prop", a.prop, "--vseed", str(a.seed), "--offset", str(w), "--stride", str(a.workers),
                                            "--seconds", str(secs), "--min-runs", str(c.get("min_runs", 100) // a.workers), "--max-seconds", str(max(secs * 1.2, 240 if tier == "quick" else secs * 1.2)),
                                            "--out", out, "--max-viol", str(a.max_viol), "--known", ",".join(k["class"] for k in known)],
                                           stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")), out))
        bad_exit = []
        stop_at = None
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.2)
            if stop_at is None and any(os.path.exists(o) and "\nVIOL\t" in "\n" + open(o, errors="replace").read() for _, o in procs):
                stop_at = time.time() + (5 if a.max_viol == 1 else 1e9)
            if stop_at and time.time() > stop_at:
                for p, _ in procs:
                    if p.poll() is None:
                        p.terminate()
                stop_at = 1e18
        res = []
        for p, out in procs:
            d = parse(out)
            if p.returncode not in (0, -15) or (p.returncode == 0 and not d["done"]):
                bad_exit.append((p.returncode, open(out + ".err", errors="replace").read()[-3000:]))
            res.append(d)
        stats, states, samples, viol = {}, set(), [], {}
        for d in res:
            for k, n in d["stats"].items():
                stats[k] = stats.get(k, 0) + n
            states |= d["states"]
            samples += d["samples"]
            for v in d["viol"]:
                if v["cls"] not in viol or v["index"] < viol[v["cls"]]["index"]:
                    viol[v["cls"]] = v
        nondet = [x for d in res for x in d["nondet"]]
        tot = {k: sum(d[k] for d in res) for k in ("runs", "nontrivial", "rechecked", "steps", "simtime")}
        if bad_exit:
            # the batch process itself only generates plans and forks; it cannot even set up its key material
            pool = [b for b in bad_exit if "SIM-POOL" in b[1] or b[0] == 96]
            print("ERROR: simulator process ended with %d: %s" % (bad_exit[0][0], bad_exit[0][1][-800:]))
            rc = 2
            if pool:
                rc = 2
        reported = 0
        for cls, v in sorted(viol.items(), key=lambda x: x[1]["index"]):
            if reported >= 3:
                break
            rp = os.path.join(VERIF, "replays", a.prop)
            os.makedirs(rp, exist_ok=True)
            raw = os.path.join(tmp, "raw.replay")
            open(raw, "w").write(v["plan"])
            h1, v1, err = one(exe, raw)
            h2, v2, _ = one(exe, raw)
            if not (h1 == h2 and any(x[1] == cls for x in v1) and any(x[1] == cls for x in v2)):
                print("ERROR: violation %s of run %d did not reproduce exactly (%s %s %s)" % (cls, v["index"], v["hash"], h1, h2))
                rc = 2
                keep = os.path.join(rp, "nonrepro-%d.replay" % v["index"])
                shutil.copy(raw, keep)
                continue
            fin = os.path.join(rp, re.sub(r"[^A-Za-z0-9_.-]+", "_", cls)[:80] + "-seed%d-run%d.replay" % (a.seed, v["index"]))
            m = sh([exe, "minimize", raw, "--class", cls, "--seconds", str(a.minimize_seconds if reported == 0 else 15), "--out", fin])
            if m.returncode:
                shutil.copy(raw, fin)
            h, vv, err = one(exe, fin)
            if not any(x[1] == cls for x in vv):
                shutil.copy(raw, fin)
                h, vv, err = one(exe, fin)
            detail = [x[2] for x in vv if x[1] == cls]
            with open(fin, "a") as f:
                f.write("# expect property=%s class=%s hash=%s\n# %s\n# replay: python3 run.py %s --replay %s\n" % (a.prop, cls, h, detail[0] if detail else "", a.prop, fin))
            print("violation: %s: %s (run %d, %d operations in the minimised trace)" % (cls, detail[0] if detail else v["detail"], v["index"], sum(l.startswith("op ") for l in open(fin))))
            if cls.startswith("crash"):
                print("\n".join(err.splitlines()[:14]))
            print("VIOLATION property=%s replay=%s" % (a.prop, fin))
            reported += 1
            rc = 1
        if nondet and rc == 0:
            print("ERROR: a run was not reproducible: " + nondet[0])
            rc = 2
        wall = time.time() - t0
        faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault:")}
        probes = {k: n for k, n in sorted(stats.items()) if not k.startswith("fault:") and not k.startswith("known:")}
        ev = {
            "property": a.prop, "tier": tier, "seed": a.seed, "level": c["level"],
            "coverage": {
                "evaluations": tot["runs"], "distinct_nontrivial": tot["nontrivial"],
                "rule": c["rule"],
                "samples": [s for s in samples[:2]] or ["(no non-trivial run finished)"],
                "simulated_runs_per_hour": int(tot["runs"] / max(wall, 0.001) * 3600),
                "seeds_per_hour": int(tot["runs"] / max(wall, 0.001) * 3600),
                "simulated_steps": tot["steps"], "simulated_time_ticks": tot["simtime"],
                "faults_injected": faults,
                "distinct_states": len(states), "distinct_states_measure": c["states"],
                "runs_executed_twice_with_identical_event_log": tot["rechecked"] - len(nondet),
                "probes": probes,
                "known_findings_reproduced": known_seen,
                "components": COMPONENTS,
                "exhaustive": False,
            },
            "assumptions": c["assumptions"],
            "wall_s": round(wall, 2), "violations": reported,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d runs (%d distinct non-trivial), %d steps, %d states, faults %s, %.0f s, exit %d" % (a.prop, tier, tot["runs"], tot["nontrivial"], tot["steps"], len(states), sum(faults.values()), wall, rc))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
