#!/usr/bin/env python3
"""run.py <PID> [--tier quick|thorough]   check one property (exit 0 held, exit 1 VIOLATION)
   run.py replay <file>                   re-run one recorded counterexample against the current /repo
   run.py manifest                        regenerate MANIFEST.json"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
from checks import CHECKS, INC  # noqa: E402
H = os.path.join(V, "harness")
EV = os.path.join(V, "evidence")


def sh(cmd, timeout=800, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout: %s\n%s" % (" ".join(cmd), (e.stdout or b"").decode("utf8", "replace"))


def build(units, bd):
    """compile every unit in parallel; returns error text or None"""
    jobs, outs = [], {}
    for u in units:
        objs = []
        std = ["-std=gnu++17", "-w"]
        for k in range(u["parts"]):
            o = os.path.join(bd, "%s_%d.o" % (u["name"], k))
            jobs.append([u["cxx"]] + std + u["flags"] + (["-fopenmp"] if u["omp"] else []) + INC + ["-I" + H, "-I" + H + "/stub", "-DPART=%d" % k] + u["defs"] + ["-c", os.path.join(H, u["src"]), "-o", o])
            objs.append(o)
        rtflags = [f for f in u["flags"] if f not in ("-fsanitize=thread",)]
        for s in ["mcmain.cpp", "alloccount.cpp"] + u["rt"]:
            o = os.path.join(bd, "%s_rt_%s.o" % (u["name"], s.replace(".cpp", "")))
            jobs.append([u["cxx"]] + std + rtflags + INC + ["-I" + H, "-c", os.path.join(H, s), "-o", o])
            objs.append(o)
        outs[u["name"]] = [u["cxx"]] + rtflags + objs + ["-o", os.path.join(bd, u["name"])] + u["link"]
    with ThreadPoolExecutor(8) as ex:
        for rc, out in ex.map(sh, jobs):
            if rc:
                return out
        for rc, out in ex.map(sh, outs.values()):
            if rc:
                return out
    for u in units:
        if u["pre"]:
            for cmd in u["pre"]:
                rc, out = sh(["bash", "-c", cmd.replace("@BD@", bd).replace("@H@", H)])
                if rc:
                    return out
    return None


def findings(pid):
    known = []
    fn = os.path.join(V, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith("known: property=%s " % pid):
                f = dict(x.split("=", 1) for x in l.strip().split(" :: ")[0].split("|")[1:])
                known.append((f["scope"], f["sig"], f["desc"], l.strip().split(" :: ", 1)[1]))
    return known


def violation(pid, info):
    os.makedirs(EV, exist_ok=True)
    p = os.path.join(EV, "replay-%s.json" % pid)
    json.dump(info, open(p, "w"), indent=1)
    print("%s: %s" % (info.get("sig"), (info.get("msg") or "")[:3000]))
    print("case: %s" % (info.get("desc") or "")[:2000])
    print("replay with: python3 %s/run.py replay %s" % (V, p))
    print("VIOLATION property=%s replay=%s" % (pid, p))


def main_check(pid, tier):
    t0 = time.time()
    c = CHECKS[pid]
    bd = tempfile.mkdtemp(prefix="tdzdd-mc-%s-" % pid)
    os.makedirs(EV, exist_ok=True)
    viol, stats = [], []
    try:
        err = build(c["units"], bd)
        tb = time.time() - t0
        if err:
            viol.append(dict(sig="build", msg="the check does not compile against /repo:\n" + err[-6000:], desc="", unit="", scope="", idx=0))
        else:
            known = findings(pid)
            kf = os.path.join(bd, "known")
            open(kf, "w").write("".join("%s\t%s\t%s\n" % k[:3] for k in known))
            hit = set()
            for u in c["units"]:
                sc = os.path.join(bd, "s_" + u["name"])
                os.makedirs(sc)
                out = os.path.join(bd, u["name"] + ".json")
                dl = max(60, (620 if tier == "quick" else 6000) / len(c["units"]))
                rc, txt = sh([os.path.join(bd, u["name"]), "--tier", tier, "--out", out, "--scratch", sc, "--known", kf, "--deadline", str(dl)], timeout=dl + 200, cwd=sc)
                if not os.path.exists(out) or rc not in (0, 1):
                    viol.append(dict(sig="driver", msg="explorer ended with %d\n%s" % (rc, txt[-3000:]), desc="", unit=u["name"], scope="", idx=0))
                    continue
                s = json.load(open(out))
                s["unit"] = u["name"]
                stats.append(s)
                for k in s["known"]:
                    hit.add(k["index"])
                for v in s["violations"]:
                    v["unit"] = u["name"]
                    viol.append(v)
            for k in sorted(hit):
                print("KNOWN-FINDING: property=%s %s" % (pid, known[k][3]))
    finally:
        shutil.rmtree(bd, ignore_errors=True)
    cov = dict(states=sum(s["distinct"] for s in stats), transitions=sum(s["transitions"] for s in stats),
               traces_validated_against_impl=sum(s["traces"] for s in stats),
               samples=[x for s in stats for x in s["samples"]][:8],
               exhaustive=bool(stats) and not any(s["capped"] for s in stats) and not viol,
               schedule_points=sum(s["points"] for s in stats), max_depth=max([s["maxdepth"] for s in stats] or [0]),
               scopes=[dict(x, unit=s["unit"]) for s in stats for x in s["scopes"]],
               notes=[s["note"] for s in stats if s["note"]],
               meaning="states: distinct reference-model outcomes observed; transitions: operations executed on the implementation; traces: complete executions of the real code compared with the reference model",
               build_s=round(tb, 1))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=c["assumptions"], wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for v in viol[:1]:
        v["property"] = pid
        violation(pid, v)
    print("%s %s: states=%d transitions=%d traces=%d exhaustive=%s build=%.1fs wall=%.1fs" % (pid, tier, cov["states"], cov["transitions"],
          cov["traces_validated_against_impl"], cov["exhaustive"], tb, time.time() - t0))
    return 1 if viol else 0


def main_replay(f):
    v = json.load(open(f))
    c = CHECKS[v["property"]]
    bd = tempfile.mkdtemp(prefix="tdzdd-mc-replay-")
    try:
        us = [u for u in c["units"] if u["name"] == v["unit"]] or c["units"]
        err = build(us, bd)
        if err:
            print(err)
            return 1
        os.makedirs(os.path.join(bd, "s"))
        kf = os.path.join(bd, "known")
        open(kf, "w").write("".join("%s\t%s\t%s\n" % k[:3] for k in findings(v["property"])))
        cmd = [os.path.join(bd, us[0]["name"]), "--known", kf, "--tier", "thorough", "--scratch", os.path.join(bd, "s"), "--replay", v["scope"], str(v["idx"])]
        if v.get("from", v["idx"]) != v["idx"]:
            cmd += ["--from", str(v["from"])]
        rc, out = sh(cmd, cwd=os.path.join(bd, "s"))
        print(out)
        return 1 if rc else 0
    finally:
        shutil.rmtree(bd, ignore_errors=True)


def main_manifest():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    from checks import NOT_APPLICABLE
    m = dict(version=1, setup_cmd="true", checks=[])
    for pid in props:
        if pid in CHECKS:
            c = CHECKS[pid]
            m["checks"].append(dict(property=pid, quick_cmd="python3 run.py %s --tier quick" % pid, thorough_cmd="python3 run.py %s --tier thorough" % pid,
                                    technique=c["technique"], level="model_checking", level_note=c["note"]))
    m["not_applicable"] = [dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")) for p in props if p not in CHECKS]
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "replay":
        sys.exit(main_replay(a[1]))
    if a and a[0] == "manifest":
        sys.exit(main_manifest())
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    try:
        sys.exit(main_check(a[0], tier))
    except SystemExit:
        raise
    except BaseException as e:  # never end without an answer
        import traceback
        violation(a[0], dict(property=a[0], sig="driver", msg=traceback.format_exc(), desc="", unit="", scope="", idx=0))
        sys.exit(1)
