"""Entry point of every check:  main.py PROPERTY [--tier quick|thorough]  |  --replay FILE

1. the deductive part: obligations are generated from /repo's current source and
   discharged (package dv.vc, run under python3-vt);
2. the replay part: the real code, rebuilt from /repo, is searched for a failing
   input (package dv.replay).  It never decides that a property holds; it turns a
   failed obligation into a concrete input, and it is the bounded stand-in (labelled
   as such in the evidence) for what is outside the verifier's reach.

exit 0: every obligation was discharged and no input failed
exit 1: VIOLATION line
other : the check could not run
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dv import build  # noqa: E402

VT = "/usr/local/bin/python3-vt" if os.path.exists("/usr/local/bin/python3-vt") else shutil.which("python3-vt") or "python3"
KNOWN = os.path.join(ROOT, "known_findings.txt")
CFG = json.load(open(os.path.join(ROOT, "dv", "checks.json")))


def known_entries(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=" + pid + " "):
                out.append(l[len("finding: property=" + pid + " "):])
    return out


def replay_env(pkg, asan=False):
    e = build.env()
    e["PYTHONPATH"] = pkg + os.pathsep + ROOT
    if asan:
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        cxx = subprocess.run(["g++", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = lib + " " + cxx
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1:max_allocation_size_mb=4000"
        e["PYTHONMALLOC"] = "malloc"
    return e


def run_replay(pid, pkg, work, seed, budget, scale, asan, tag=""):
    out, log = os.path.join(work, f"replay{tag}.json"), os.path.join(work, f"case{tag}.json")
    cmd = [build.PY, "-m", "dv.replay", pid, "--seed", str(seed), "--budget", str(budget), "--scale", str(scale), "--out", out, "--log", log]
    return subprocess.Popen(cmd, cwd=work, env=replay_env(pkg, asan), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out, log


def finish_replay(p, out, log, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        txt, _ = p.communicate()
        if os.path.exists(log):
            c = json.load(open(log))
            return dict(counts={}, known=[], fails=[dict(c, message="no answer within the time limit (normally milliseconds)")])
        return dict(counts={}, known=[], fails=[], error="timeout before the first case")
    if os.path.exists(out):
        return json.load(open(out))
    if p.returncode < 0 or p.returncode in (134, 139) or "AddressSanitizer" in txt:
        if os.path.exists(log):
            try:
                c = json.load(open(log))
                i = txt.find("ERROR: AddressSanitizer")
                return dict(counts={}, known=[], fails=[dict(c, message="process died: " + (txt[i:i + 1500] if i >= 0 else txt[-1500:]))])
            except ValueError:
                pass
    return dict(counts={}, known=[], fails=[], error="replay harness: " + txt[-3000:], import_error="ImportError" in txt or "SyntaxError" in txt)


def check(pid, tier, seed):
    t0 = time.time()
    cfg = CFG[pid]
    work = build.scratch()
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(ROOT, "evidence", "replay", pid + "*")):
        os.unlink(f)
    try:
        proof, pout = None, os.path.join(work, "proof.json")
        if cfg.get("proof"):
            e = build.env()
            e["PYTHONPATH"] = ROOT
            perr = open(os.path.join(work, "proof.txt"), "w")
            proof = subprocess.Popen([VT, "-m", "dv.vc", pid, "--tier", tier, "--out", pout], cwd=work, env=e, stdout=perr, stderr=subprocess.STDOUT)
        pkg = os.path.join(work, "pkg")
        os.mkdir(pkg)
        asan = cfg.get("asan", False)
        build.build_package(pkg, extra=("-fsanitize=address", "-fno-omit-frame-pointer") if asan else ())
        nproc = 1 if tier == "quick" else 6
        budget = cfg.get("budget", 40) if tier == "quick" else cfg.get("budget_thorough", 400)
        scale = cfg.get("scale", 1.0) * (1 if tier == "quick" else 12)
        runs = [run_replay(pid, pkg, work, seed + 1000 * k, budget, scale, asan, str(k)) for k in range(nproc)]
        reps = [finish_replay(*r, limit=budget + 90) for r in runs]
        obl, proof_error = None, None
        if proof is not None:
            try:
                proof.wait(timeout=max(30, (780 if tier == "quick" else 3000) - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                proof.kill()
                proof.wait()
            if os.path.exists(pout):
                obl = json.load(open(pout))
            else:
                proof_error = open(os.path.join(work, "proof.txt")).read()[-3000:]
                obl = dict(obligations=[dict(name="generation of the obligations", status="failed", backend="dv.vc", detail=proof_error, time=0)], functions=[], trusted=[], notes=[])
        fails = [f for r in reps for f in r["fails"]]
        errors = [r["error"] for r in reps if r.get("error")]
        bad = [o for o in obl["obligations"] if o["status"] != "proved"] if obl else []
        if bad and not fails and not errors:
            # look harder for an input that shows the failed obligation
            ex = [run_replay(pid, pkg, work, seed + 77 + 1000 * k, 70, scale * 4, asan, f"x{k}") for k in range(6)]
            for r in ex:
                r = finish_replay(*r, limit=160)
                fails += r["fails"]
                reps.append(r)
        known = sorted({k for r in reps for k in r.get("known", [])})
        listed = known_entries(pid)
        counts = {}
        for r in reps:
            for k, v in r["counts"].items():
                counts[k] = counts.get(k, 0) + v
        rc, path = 0, None
        if fails:
            path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
            f = fails[0]
            json.dump(dict(property=pid, test=f["test"], case=f["case"], message=f["message"], failed_obligations=bad,
                           how=f"/verif/check.sh {pid} --replay {path}"), open(path, "w"), indent=1)
            print(f"{pid}: {f['test']}: {f['message'][:600]}")
            for o in bad[:6]:
                print(f"{pid}: obligation {o['status']}: {o['name']}")
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        elif bad:
            path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
            json.dump(dict(property=pid, failed_obligations=bad, searched=counts, note="no failing input was found"), open(path, "w"), indent=1)
            for o in bad[:10]:
                print(f"{pid}: obligation {o['status']}: {o['name']}: {str(o.get('detail', ''))[:300]}")
            print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
            rc = 1
        elif errors:
            print(f"{pid}: error: {errors[0]}", file=sys.stderr)
            return 2
        elif sum(counts.values()) == 0 or obl is not None and not obl["obligations"]:
            print(f"{pid}: nothing was explored", file=sys.stderr)
            return 2
        else:
            for k in known:
                if any(k.split(":")[0] == l.split(":")[0] for l in listed):
                    print(f"KNOWN-FINDING: property={pid} {k}")
                else:
                    print(f"{pid}: unlisted finding {k}")
                    path = os.path.join(ROOT, "evidence", "replay", pid + ".json")
                    json.dump(dict(property=pid, message=k), open(path, "w"))
                    print(f"VIOLATION property={pid} replay={path}")
                    rc = 1
        ob = obl["obligations"] if obl else []
        ev = dict(property=pid, tier=tier, seed=seed, level=cfg["level"],
                  coverage=dict(obligations=len(ob), discharged=sum(o["status"] == "proved" for o in ob), undischarged=[o["name"] for o in bad[:200]],
                                checker_cmd=f"/verif/check.sh {pid} --tier {tier}", functions_under_contract=(obl or {}).get("functions", []),
                                backends=backends(ob), solver_seconds=round(sum(o.get("time", 0) for o in ob), 2),
                                trusted_base=(obl or {}).get("trusted", []) + cfg.get("trusted", []),
                                obligation_list=grouped(ob),
                                notes=(obl or {}).get("notes", []), bounded_standins=cfg.get("bounded", []), replay_cases=counts),
                  assumptions=cfg.get("assumptions", []) + (obl or {}).get("assumptions", []), known_findings=known, wall_s=round(time.time() - t0, 2), violations=rc)
        ev["coverage"].update(evaluations=sum(counts.values()), distinct_nontrivial=sum(r.get("distinct", 0) for r in reps), samples=[x for r in reps[:1] for x in r.get("samples", [])],
                              rule="bounded stand-in: seeded random and special inputs of the real code, compared with an independent oracle; distinct by content, empty cases skipped",
                              explanation=cfg.get("note", ""))
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        print(f"{pid}: {ev['coverage']['discharged']}/{len(ob)} obligations discharged, {sum(counts.values())} real executions compared, {ev['wall_s']} s, exit {rc}")
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def grouped(ob):
    """The obligations by function and case (what precedes the first colon): back end -> names; truncated when the list is very long."""
    d = {}
    for o in ob:
        fn, _, name = o["name"].partition(": ")
        c = d.setdefault(fn, dict(number=0, seconds=0.0, obligations={}))
        c["number"] += 1
        c["seconds"] = round(c["seconds"] + o.get("time", 0), 3)
        c["obligations"].setdefault(o.get("backend", "?"), []).append(name)
    n = 60
    while len(json.dumps(d, indent=1)) > 500000 and n > 1:
        for c in d.values():
            for b, l in c["obligations"].items():
                if len(l) > n:
                    c["obligations"][b] = l[:n] + [f"and others, {c['number']} in all"]
        n //= 2
    return d


def backends(ob):
    d = {}
    for o in ob:
        d[o.get("backend", "?")] = d.get(o.get("backend", "?"), 0) + 1
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay:
        o = json.load(open(a.replay))
        if "case" not in o:
            print(json.dumps(o, indent=1))
            return 1
        work = build.scratch()
        try:
            pkg = os.path.join(work, "pkg")
            os.mkdir(pkg)
            asan = CFG[a.pid].get("asan", False)
            build.build_package(pkg, extra=("-fsanitize=address",) if asan else ())
            return subprocess.run([build.PY, "-m", "dv.replay", a.pid, "--replay", os.path.abspath(a.replay)], cwd=work, env=replay_env(pkg, asan)).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
    try:
        return check(a.pid, a.tier, seed)
    except build.BuildError as e:
        print("the code does not build: " + str(e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
