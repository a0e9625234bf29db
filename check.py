#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] - decide one property by symbolic execution
of the code now in /repo.  Exit 0: every query discharged; 1: a violation, replayed
on the real code; 3: no verdict (build failed, bound not exhausted, ...)."""
import hashlib, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from specs import SPECS
import subprocess as sp

JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def sh(cmd, **kw):
    return sp.run(cmd, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **kw)

def build_engine():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=f"{V}/build/engine")
    r = sh(["cargo", "build", "-q", "--release", "--offline"], cwd=f"{V}/engine", env=env)
    if r.returncode:
        print(r.stdout); print("NO-VERDICT engine build failed"); sys.exit(3)
    return f"{V}/build/engine/release/symir"

def known():
    out = []
    try:
        for e in json.load(open(f"{V}/known-findings.json"))["findings"]:
            out.append(e)
    except FileNotFoundError:
        pass
    return out

def replay(native, run, hexin, params, timeout=20):
    cmd = [native, str(run), hexin] + [str(p) for p in params]
    try:
        r = sp.run(cmd, stdout=sp.PIPE, stderr=sp.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except sp.TimeoutExpired:
        return 124, "TIMEOUT"

def reproduces(kind, label, rc, out):
    if kind == "check":
        return rc == 10 and f"CHECK-FAILED {label}\n" in out
    if kind == "panic":
        return rc in (101, 134, -6, -4, -11)
    if kind == "hang":
        return rc == 124
    return False

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPECS[pid]
    t0 = time.time()
    crates = []
    for r in spec["runs"]:
        if r["crate"] not in crates:
            crates.append(r["crate"])
    procs = {}
    for c in crates:
        procs[c] = sp.Popen([f"{V}/build_ir.sh", f"{V}/harness/{c}", f"{V}/build/{c}"], stdout=sp.PIPE, stderr=sp.STDOUT, text=True)
    engine = build_engine()
    for c, p in procs.items():
        out, _ = p.communicate()
        if p.returncode:
            print(out[-6000:]); print(f"NO-VERDICT property={pid} harness {c} does not build against /repo"); sys.exit(3)
    build_s = time.time() - t0
    kn = [k for k in known() if k["property"] == pid and k.get("status", "open") == "open"]
    viols, incomplete, kfound = [], [], []
    tot = dict(paths=0, forks=0, branches=0, checks=0, sat=0, unsat=0, unknown=0, zms=0.0, table=0, cached=0, valid=0, steps=0)
    runs_ev, samples_ev, functions = [], [], set()
    for r in spec["runs"]:
        ps = r.get(tier, r.get("quick"))
        if ps is None:
            continue
        psl = ps if isinstance(ps[0] if ps else 0, (list, tuple)) else [ps]
        reached = set()
        for params in psl:
            secs = r.get("secs", 240 if tier == "quick" else 600)
            outf = f"{V}/build/{r['crate']}/{pid}-{r['run']}-{'_'.join(map(str,params))}.json"
            cmd = [engine, f"{V}/build/{r['crate']}/prog.ll", "--run", str(r["run"]), "--jobs", str(JOBS),
                   "--secs", str(secs), "--fuel", str(r.get("fuel", 200000000)), "--out", outf, "--nviol", "3"]
            if viols:
                break  # one confirmed violation decides the check
            if not kn:
                cmd += ["--stop", "4"]
            for p in params:
                cmd += ["--param", str(p)]
            t1 = time.time()
            e = sh(cmd, timeout=secs + 120)
            if not os.path.exists(outf) or os.path.getmtime(outf) < t1 - 2:
                print(e.stdout[-3000:]); print(f"NO-VERDICT property={pid} engine failed on run {r['name']}"); sys.exit(3)
            j = json.load(open(outf))
            native = f"{V}/build/{r['crate']}/native"
            name = r["name"]
            if not j["complete"] or j["z3"]["unknown"] or j["incomplete"]:
                incomplete.append((name, params, j["incomplete"], j["z3"]["unknown"]))
            seen = set()
            for v in j["violations"]:
                key = (v["kind"], v["label"])
                if key in seen:
                    continue
                rc, out = replay(native, r["run"], v["model"], params)
                if not reproduces(v["kind"], v["label"], rc, out):
                    incomplete.append((name, params, f"counterexample {v['label']} {v['model']} did not replay (rc {rc})", 0))
                    continue
                seen.add(key)
                k = next((k for k in kn if k["label"] == v["label"] and k.get("run") in (None, name)), None)
                note = "; ".join(l[5:] for l in out.splitlines() if l.startswith("NOTE "))
                if k:
                    kfound.append((k, note))
                    continue
                d = f"{V}/evidence/replays"; os.makedirs(d, exist_ok=True)
                h = hashlib.sha256(f"{pid}{name}{v['label']}{v['model']}".encode()).hexdigest()[:10]
                path = f"{d}/{pid}-{h}.json"
                json.dump(dict(property=pid, run=name, kind=v["kind"], label=v["label"], input_hex=v["model"], params=params,
                               input=note, native_exit=rc, native_output=out[-4000:],
                               command=f"{V}/build/{r['crate']}/native {r['run']} {v['model']} " + " ".join(map(str, params)),
                               trace=v.get("trace")), open(path, "w"), indent=1)
                viols.append((v["label"], note, path))
                print(f"  run {name}: {v['kind']} {v['label']}: {note[:600]}")
            reached |= set(j["reach"])
            for lab in r.get("reach", []) if params == psl[-1] else []:
                if lab not in reached and not j["violations"]:
                    incomplete.append((name, params, f"label {lab} never reached: the run is vacuous", 0))
            nval = 0
            for s in j["samples"]:
                rc, out = replay(native, r["run"], s, params)
                if rc == 0:
                    nval += 1
                    if len(samples_ev) < 40:
                        samples_ev.append(dict(run=name, input_hex=s, note="; ".join(l[5:] for l in out.splitlines() if l.startswith("NOTE "))[:300]))
                elif not (rc == 10 or rc in (101, 134, -6)) or not j["violations"]:
                    incomplete.append((name, params, f"sample {s} replays with exit {rc}, the engine said it passes", 0))
            for lab, rr in j["reach"].items():
                m = rr.get("model") if isinstance(rr, dict) else None
                if m:
                    rc, out = replay(native, r["run"], m, params)
                    if f"REACHED {lab}\n" in out:
                        nval += 1
                    else:
                        incomplete.append((name, params, f"reach model of {lab} does not replay", 0))
            z = j["z3"]
            tot["paths"] += j["paths"]; tot["forks"] += j["forks"]; tot["branches"] += j["branches_decided"]; tot["steps"] += j["steps"]
            tot["sat"] += z["sat"]; tot["unsat"] += z["unsat"]; tot["unknown"] += z["unknown"]; tot["zms"] += z["ms"]
            tot["table"] += z["table_cached"]; tot["cached"] += z["cached"]; tot["valid"] += nval
            nchk = sum(c["count"] for c in j["checks"].values())
            tot["checks"] += nchk
            fs = [f for f in j["functions"] if any(f.startswith(x) for x in spec.get("prefixes", []))] or j["functions"]
            functions.update(fs)
            runs_ev.append(dict(run=name, what=r.get("desc", ""), params=params, bound=r.get("bound", ""), complete=j["complete"],
                                paths=j["paths"], assumed_away=j["assumed_away"], instructions=j["steps"], forks=j["forks"],
                                branches_decided=j["branches_decided"], symbols=j["max_symbols"], input_space_weight=j["weight"],
                                z3=z, checks=j["checks"], reach={k: (v["count"] if isinstance(v, dict) else v) for k, v in j["reach"].items()},
                                traces_validated=nval, wall_s=j["wall_s"]))
            print(f"  run {name}{params}: paths={j['paths']} checks={nchk} z3={z['sat']}/{z['unsat']} table={z['table_cached']} sym={j['max_symbols']} weight={j['weight']:.4g} wall={time.time()-t1:.1f}s complete={j['complete']}")
    cov = dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=tot["valid"],
               samples=samples_ev, technique="bounded symbolic execution of the compiler's LLVM IR; every branch and assertion decided by Z3 over all symbolic inputs in the bound",
               assertions_discharged=tot["checks"], paths_forked=tot["forks"], ir_instructions_executed=tot["steps"],
               z3_sat=tot["sat"], z3_unsat=tot["unsat"], z3_unknown=tot["unknown"], z3_ms=round(tot["zms"], 1),
               z3_verdicts_reused=tot["table"] + tot["cached"],
               functions_encoded=sorted(functions), runs=runs_ev, build_s=round(build_s, 1),
               exhaustive=not incomplete)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    done = set()
    for k, note in kfound:
        if k["label"] not in done:
            done.add(k["label"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viols:
        for lab, note, path in viols:
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    if incomplete:
        for i in incomplete[:20]:
            print("NO-VERDICT", pid, i)
        sys.exit(3)
    print(f"OK property={pid} paths={tot['paths']} assertions={tot['checks']} wall={time.time()-t0:.1f}s")

main()
