"""Decide one property:  main.py C13 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Anything else: the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("PBT_OUT", VERIF)  # where evidence and replay files go
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from pbt import env  # noqa: E402

PY = "/opt/venv/bin/python"
HARD = {"quick": 780, "thorough": 7200}
STALL = float(os.environ.get("PBT_STALL", "200"))  # a case takes about a second, the first one in a process up to a minute more to compile


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        doc = json.load(f)
    return [k for k in doc["known"] if k["property"] == prop]


def spawn(prop, variant, tier, seed, root, only=None, replay=None, known=(), tag=""):
    work = tempfile.mkdtemp(prefix=f"{variant}-", dir=root)
    out = os.path.join(root, os.path.basename(work) + ".json")
    log = open(os.path.join(root, os.path.basename(work) + ".log"), "w")
    cmd = [PY, "-B", os.path.join(VERIF, "pbt", "worker.py"), "--prop", prop, "--variant", variant,
           "--tier", tier, "--seed", str(seed), "--work", work, "--out", out,
           "--known", json.dumps(list(known))]
    if only:
        cmd += ["--only", ",".join(only)]
    if replay:
        cmd += ["--replay", replay]
    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env.child_env(), cwd=work,
                         start_new_session=True)
    return dict(p=p, out=out, work=work, log=log.name, variant=variant, t0=time.time())


def kill(w):
    try:
        os.killpg(w["p"].pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run_pool(jobs, limit, hard):
    """jobs: list of thunks returning a worker; at most `limit` at once."""
    t0 = time.time()
    running, done, todo = [], [], list(jobs)
    stop = False
    while running or (todo and not stop):
        while todo and len(running) < limit and not stop:
            running.append(todo.pop(0)())
        time.sleep(0.05)
        for w in list(running):
            if w["p"].poll() is not None:
                running.remove(w)
                kill(w)  # stray grandchildren
                w["rc"] = w["p"].returncode
                w["res"] = None
                if os.path.exists(w["out"]):
                    with open(w["out"]) as f:
                        w["res"] = json.load(f)
                done.append(w)
                if w["res"] and any(s["failure"] for s in w["res"]["searches"]):
                    stop = True
            else:
                cur = os.path.join(w["work"], "current_case.json")
                if time.time() - max(w["t0"], os.path.getmtime(cur) if os.path.exists(cur) else 0) > STALL and os.path.exists(cur):
                    kill(w)
                    w["p"].wait()
                    running.remove(w)
                    w["rc"], w["res"] = "stall", None
                    done.append(w)
                    stop = True
        if stop:
            for w in running:
                kill(w)
                w["p"].wait()
            running = []
        if time.time() - t0 > hard:
            for w in running:
                kill(w)
                w["p"].wait()
                w["rc"], w["res"] = "timeout", None
                done.append(w)
            return done
    return done


def write_replay(prop, variant, search, case, sig, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=prop, variant=variant, search=search, case=case, sig=sig, msg=msg)
    name = f"{prop}-{hashlib.sha1(json.dumps([variant, search, case], sort_keys=True).encode()).hexdigest()[:10]}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def stalls(prop, variant, case, a, root):
    """Does this case, on its own in a new process, again not come to an end?"""
    rp = os.path.join(root, "stalled.json")
    with open(rp, "w") as f:
        json.dump(case, f)
    w = spawn(prop, variant, a.tier, a.seed, root, replay=rp)
    try:
        w["p"].wait(STALL)
    except subprocess.TimeoutExpired:
        return True
    finally:
        kill(w)
        w["p"].wait()
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--variants", default=None)
    ap.add_argument("--only", default=None)
    a = ap.parse_args()
    prop = a.prop.upper()
    env.ensure_hypothesis()
    mod = importlib.import_module(f"pbt.props.{prop.lower()}")
    t0 = time.time()
    root = tempfile.mkdtemp(prefix=f"pbt-{prop}-", dir=os.environ.get("PBT_TMP", "/tmp"))
    try:
        if a.replay:
            with open(a.replay) as f:
                rp = json.load(f)
            w = spawn(prop, rp["variant"], a.tier, a.seed, root, replay=os.path.abspath(a.replay))
            try:
                w["p"].wait(STALL)
            except subprocess.TimeoutExpired:
                kill(w)
                print(f"VIOLATION property={prop} replay={a.replay}\n  no result after {STALL:.0f} s")
                return 1
            kill(w)
            if not os.path.exists(w["out"]):
                print(f"VIOLATION property={prop} replay={a.replay}")
                print(f"  the process died ({w['p'].returncode})")
                return 1
            with open(w["out"]) as f:
                res = json.load(f)
            if res["error"]:
                print(res["error"])
                return 2
            if res["replay"]["ok"]:
                print(f"replay held: {res['replay']}")
                return 0
            print(f"VIOLATION property={prop} replay={a.replay}")
            print(f"  {res['replay']['sig']}: {res['replay']['msg']}")
            return 1

        known = load_known(prop)
        known_sigs = [k["sig"] for k in known]
        variants = a.variants.split(",") if a.variants else list(mod.VARIANTS)
        jobs = []
        for v in variants:
            spec = mod.VARIANTS[v]
            groups = [a.only.split(",")] if a.only else spec.get("groups", [None])
            shards = spec.get("shards", {}).get(a.tier, 1)
            for g in groups:
                for sh in range(shards):
                    def thunk(v=v, g=g, sh=sh):
                        return spawn(prop, v, a.tier, a.seed + 101 * sh, root, only=g, known=known_sigs)
                    jobs.append(thunk)
        done = run_pool(jobs, getattr(mod, "PROCS", 8), HARD[a.tier])

        evals = nontriv = 0
        samples, rules, per, errors, violation = [], {}, [], [], None
        seen_known = set()
        for w in done:
            res = w["res"]
            if res is None or res.get("error"):
                if w["rc"] == "stall":
                    with open(os.path.join(w["work"], "current_case.json")) as f:
                        c = json.load(f)
                    if violation is None and stalls(prop, w["variant"], c, a, root):
                        violation = (w["variant"], c["search"], c["case"], "hang", f"no result after {STALL:.0f} s, twice; cases take about a second")
                        continue
                crash = w["rc"] if isinstance(w["rc"], int) and w["rc"] < 0 and w["rc"] != -9 else None
                cur = os.path.join(w["work"], "current_case.json")
                if crash and os.path.exists(cur):
                    with open(cur) as f:
                        c = json.load(f)
                    violation = violation or (w["variant"], c["search"], c["case"], "crash",
                                              f"process died with signal {-crash}")
                    continue
                tail = ""
                if os.path.exists(w["log"]):
                    with open(w["log"]) as f:
                        tail = f.read()[-3000:]
                errors.append(f"worker {w['variant']} rc={w['rc']}\n{(res or {}).get('error') or ''}\n{tail}")
                if res is None:
                    continue
            for s in res["searches"]:
                evals += s["evaluations"]
                nontriv += s["distinct_nontrivial"]
                rules[s["name"]] = s["rule"]
                seen_known.update(s["known"])
                per.append({k: s[k] for k in ("name", "evaluations", "distinct_nontrivial", "tags", "capped", "wall_s")}
                           | {"variant": w["variant"]})
                for smp in s["samples"]:
                    samples.append({"variant": w["variant"], "search": s["name"]} | smp)
                if s["failure"] and violation is None:
                    f_ = s["failure"]
                    violation = (w["variant"], f_["search"], f_["case"], f_["sig"], f_["msg"])

        # listed findings: replay each pinned demonstration
        for k in known:
            if k.get("case") is not None and violation is None:
                rp = os.path.join(root, "kf.json")
                with open(rp, "w") as f:
                    json.dump(dict(search=k["search"], case=k["case"]), f)
                w = spawn(prop, k["variant"], a.tier, a.seed, root, replay=rp)
                w["p"].wait()
                kill(w)
                try:
                    with open(w["out"]) as f:
                        r = json.load(f).get("replay")
                except FileNotFoundError:
                    r = None
                if r and not r["ok"] and r["sig"] == k["sig"]:
                    seen_known.add(k["sig"])
                elif r and not r["ok"]:
                    violation = (k["variant"], k["search"], k["case"], r["sig"], r["msg"])
            if k["sig"] in seen_known:
                print(f"KNOWN-FINDING: property={prop} {k['what']}")

        bysz = sorted(samples, key=lambda s: len(json.dumps(s)))
        seen, pick = set(), []
        for s in bysz:  # one small sample per search, then fill up
            if s["search"] not in seen and len(json.dumps(s)) < 6000:
                seen.add(s["search"])
                pick.append(s)
        for s in bysz:
            if len(pick) < 4 and s not in pick:
                pick.append(s)
        ev = dict(
            property=prop, tier=a.tier, seed=a.seed, level=getattr(mod, "LEVEL", "exploration"),
            coverage=dict(evaluations=evals, distinct_nontrivial=nontriv,
                          rule="; ".join(f"[{n}] {r}" for n, r in rules.items()),
                          samples=pick[:12], searches=per),
            assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
            wall_s=round(time.time() - t0, 2), violations=0 if violation is None else 1)
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)

        if violation is not None:
            path = write_replay(prop, *violation)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  variant={violation[0]} search={violation[1]} {violation[3]}: {str(violation[4])[:1500]}")
            return 1
        if errors:
            print("\n".join(errors)[:8000])
            return 2
        if evals == 0 or nontriv == 0:
            print("check explored nothing")
            return 2
        print(f"{prop} held: {evals} cases, {nontriv} distinct non-trivial, {ev['wall_s']} s")
        for p in per if os.environ.get("PBT_VERBOSE") else []:
            print("  ", p)
        return 0
    finally:
        if os.environ.get("PBT_KEEP"):
            print("kept", root)
        else:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
