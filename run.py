#!/usr/bin/env python3
"""Run the check of one property:  python3 run.py P12 [--tier quick|thorough] [--seed N]

Stages: model check the specification (TLC), let TLC generate histories where
the plan asks for it, drive the code of /repo/src with them and record what it
does, and let TLC decide the recorded behaviour against the specification.
Exit 0: held, 1: VIOLATION, anything else: the check itself failed.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
REPO = "/repo"

sys.path.insert(0, VERIF)
from plans import PLANS


START = time.time()


class CheckError(Exception):
    pass


def env_for(scratch, **kw):
    e = dict(os.environ)
    e.update(
        PYTHONPATH=f"{REPO}/src:{VERIF}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TMPDIR=scratch,
        HOME=scratch,
    )
    e.update(kw)
    return e


def tlc(scratch, module, cfg, extra=(), env=None, timeout=800, workers=8):
    meta = tempfile.mkdtemp(prefix="md", dir=scratch)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=meta, env=env or env_for(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module} {cfg}")
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def counts(out):
    """transitions taken, distinct states"""
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    i = re.search(r"Finished computing initial states: (\d+)", out)
    return int(m[-1][0]) - int(i[1]), int(m[-1][1])


def model_check(scratch, mc, tier):
    cfg = mc["cfg"]
    if tier == "thorough" and os.path.exists(os.path.join(SPEC, mc.get("thorough", "-"))):
        cfg = mc["thorough"]
    t = time.time()
    rc, out = tlc(scratch, mc["module"], cfg, timeout=840 if tier == "quick" else 10000, workers=4)
    if rc != 0 or "No error has been found" not in out:
        raise CheckError(f"model checking {mc['module']} with {cfg} failed:\n" + out[-3000:])
    gen, dis = counts(out)
    return {"module": mc["module"], "cfg": cfg, "transitions": gen, "distinct": dis, "wall_s": round(time.time() - t, 1)}


def generate(scratch, gen, tier, seed, path):
    """histories produced by TLC from the specification"""
    n, depth = gen["quick"] if tier == "quick" else gen["thorough"]
    rc, out = tlc(
        scratch, gen["module"], gen["cfg"], extra=["-simulate", f"num={n}", "-depth", str(depth), "-seed", str(seed), "-aril", "1"],
        timeout=600 if tier == "quick" else 3000, workers=1,
    )
    seen, k = set(), 0
    with open(path, "w") as f:
        for line in out.splitlines():
            if line.startswith('"@@GEN|'):
                s = json.loads(line)[len("@@GEN|"):]
                if s not in seen:
                    seen.add(s)
                    f.write(s + "\n")
                    k += 1
    if k == 0 or "Error:" in out:
        raise CheckError(f"generation with {gen['module']} failed:\n" + out[-3000:])
    return k


def drive(scratch, part, tier, seed, path, genfile):
    work = tempfile.mkdtemp(prefix="drv", dir=scratch)
    cmd = [PY, "-m", "harness.main", part["driver"], path, str(seed), tier] + ([genfile] if genfile else [])
    # drivers stop after some time, so that what they saw until then is judged
    until = START + 420 if tier == "quick" else START + 9000
    try:
        p = subprocess.run(cmd, cwd=work, env=env_for(work, HV_UNTIL=str(until)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=780 if tier == "quick" else 10000)
    except subprocess.TimeoutExpired:
        raise CheckError(f"driver {part['driver']} timed out")
    if p.returncode != 0:
        raise CheckError(f"driver {part['driver']} failed ({p.returncode}):\n" + p.stdout[-3000:])
    shutil.rmtree(work, ignore_errors=True)


BAD = re.compile(r'^"@@BAD\|(\d+)\|(\d+)\|(.*)"$')


def validate(scratch, part, tier, path):
    rc, out = tlc(scratch, part["trace"], part.get("cfg", part["trace"] + ".cfg"), env=env_for(scratch, TRACE=path), timeout=800 if tier == "quick" else 10000)
    bad = []
    if rc != 0 or "No error has been found" not in out:
        # an event of a shape or size the specification gives no meaning to is not one of its behaviours
        h, i = re.findall(r"^/\\ h = (\d+)$", out, re.M), re.findall(r"^/\\ i = (\d+)$", out, re.M)
        if not h or not i or re.search("StackOverflow|OutOfMemory|heap space|[Pp]arsing or semantic analysis failed|[Ss]emantic errors", out):
            raise CheckError(f"trace validation with {part['trace']} failed:\n" + out[-4000:])
        bad.append((int(h[-1]), int(i[-1]), ["outside the specification: " + " ".join(re.findall(r"^Error: (.*)$", out, re.M)[-2:])[:300]]))
    for line in out.splitlines():
        m = BAD.match(line)
        if m:
            bad.append((int(m[1]), int(m[2]), re.findall(r'\\"([^\\"]*)\\"', m[3])))
    gen, dis = counts(out) if not bad or "distinct states found" in out else (0, 0)
    return bad, gen, dis


def known_findings(pid):
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) clause=\"([^\"]+)\" (.*)", line)
            if m and m[1] == pid:
                out.append({"key": m[2], "clause": m[3], "what": m[4]})
    return out


def run(pid, tier, seed, scratch):
    plan = PLANS[pid]
    t0 = time.time()
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "undecided_events": 0, "samples": [], "model_checking": [], "parts": []}
    violations, known_hit = [], {}
    with ThreadPoolExecutor(4) as ex:
        mcs = [ex.submit(model_check, scratch, mc, tier) for mc in plan.get("mc", [])]

        def one(k, part):
            t = time.time()
            genfile, ngen = None, 0
            if "gen" in part:
                genfile = os.path.join(scratch, f"gen{k}.ndjson")
                ngen = generate(scratch, part["gen"], tier, seed, genfile)
            path = os.path.join(scratch, f"trace{k}.ndjson")
            drive(scratch, part, tier, seed, path, genfile)
            bad, gen, dis = validate(scratch, part, tier, path)
            with open(path) as f:
                hist = [json.loads(l) for l in f]
            return part, ngen, bad, gen, dis, hist, round(time.time() - t, 1)

        parts = [ex.submit(one, k, part) for k, part in enumerate(plan["parts"])]
        results = [p.result() for p in parts]
        for m in mcs:
            r = m.result()
            cov["model_checking"].append(r)
            cov["states"] += r["distinct"]
            cov["transitions"] += r["transitions"]
    known = known_findings(pid)
    for part, ngen, bad, gen, dis, hist, wall in results:
        nev = sum(len(h["ev"]) for h in hist)
        if not hist or nev == 0:
            raise CheckError(f"{part['driver']} recorded nothing")
        und = 0
        for h, i, clauses in bad:
            real = [c for c in clauses if c != "?"]
            if not real:
                und += 1
                continue
            e = hist[h - 1]["ev"][i - 1] if i <= len(hist[h - 1]["ev"]) else {}
            rest = []
            for c in real:
                k = [x for x in known if x["key"] == e.get("kf") and x["clause"] == c]
                if k:
                    known_hit[k[0]["key"], c] = k[0]["what"]
                else:
                    rest.append(c)
            if rest:
                violations.append({"driver": part["driver"], "trace": part["trace"], "history": h, "event": i, "clauses": rest, "observed": e, "events": hist[h - 1]["ev"][:i]})
        cov["traces_validated_against_impl"] += len(hist)
        cov["events_validated"] += nev
        cov["undecided_events"] += und
        cov["states"] += dis
        cov["transitions"] += gen
        cov["parts"].append({"driver": part["driver"], "trace_spec": part["trace"], "histories": len(hist), "events": nev, "undecided": und, "generated_by_tlc": ngen, "states": dis, "wall_s": wall})
        for k in (0, len(hist) // 2):
            cov["samples"].append(json.dumps(hist[k]["ev"][0])[:600])
        if und * 3 > nev:
            raise CheckError(f"{part['driver']}: {und} of {nev} events could not be decided")
    cov["samples"] = cov["samples"][:8]
    for (key, c), what in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {what} [{key}: {c}]")
    rc = 0
    if violations:
        rc = 1
        d = os.path.join(VERIF, "replays", pid)
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{tier}-{seed}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "rerun": f"python3 run.py {pid} --tier {tier} --seed {seed}", "count": len(violations), "violations": violations[:20]}, f, indent=1)
        for v in violations[:5]:
            print(f"{v['driver']} history {v['history']} event {v['event']}: {v['clauses']} {json.dumps(v['observed'])[:400]}")
        print(f"VIOLATION property={pid} replay={rp}")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
        "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {cov['traces_validated_against_impl']} histories, {cov['events_validated']} events ({cov['undecided_events']} undecided), {cov['states']} states, {ev['wall_s']} s, {len(violations)} violations")
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix=f"hv-{a.pid}-")
    os.chmod(scratch, 0o755)
    try:
        rc = run(a.pid, a.tier, a.seed, scratch)
    except CheckError as e:
        print(f"check error: {e}", file=sys.stderr)
        rc = 2
    finally:
        if a.keep:
            print(scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
