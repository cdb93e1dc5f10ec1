"""One process: one property, one configuration variant, some searches."""
import argparse
import contextlib
import importlib
import io
import json
import os
import resource
import sys
import traceback
import warnings
import zlib


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--variant", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--work", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--known", default="[]")
    a = ap.parse_args()

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    from pbt import env
    env.ensure_hypothesis()
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))  # a case needs a few hundred MB
    os.chdir(a.work)
    mod = importlib.import_module(f"pbt.props.{a.prop.lower()}")
    var = mod.VARIANTS[a.variant]
    argv = env.write_configs(a.work, var.get("config"), var.get("constants"))
    env.enter_repo(argv)
    from pbt import engine

    out = {"variant": a.variant, "searches": [], "error": None}
    sink = io.StringIO()
    quiet = (lambda: contextlib.nullcontext()) if os.environ.get("PBT_LOUD") else (
        lambda: contextlib.redirect_stdout(sink))
    try:
        with quiet():
            searches = mod.searches(a.variant)
        if a.only:
            names = a.only.split(",")
            searches = [s for s in searches if s.name in names]
        if a.replay:
            with open(a.replay) as f:
                rp = json.load(f)
            s = [s for s in searches if s.name == rp["search"]][0]
            rec = engine.Recorder()
            try:
                with quiet():
                    engine.run_case(s, rp["case"], rec)
                out["replay"] = {"ok": True, "tags": sorted(rec.tags)}
            except engine.Violation as v:
                out["replay"] = {"ok": False, "sig": v.sig, "msg": v.msg}
        else:
            for k, s in enumerate(searches):
                if s.variants is not None and a.variant not in s.variants:
                    continue
                orig = s.oracle
                cur = os.path.join(a.work, "current_case.json")

                def oracle(case, rec, _o=orig, _s=s):
                    with open(cur, "w") as f:
                        json.dump({"search": _s.name, "case": case}, f)
                    _o(case, rec)
                s.oracle = oracle
                with quiet():
                    st = engine.run_search(s, a.tier, a.seed * 1000003 + 7919 * k + zlib.crc32(a.variant.encode()),
                                           known=set(json.loads(a.known)))
                sink.seek(0)
                sink.truncate()
                out["searches"].append(st)
                if st["failure"]:
                    break
            with quiet():
                fin = getattr(mod, "finish", None)
                if fin:
                    out["finish"] = fin()
    except BaseException:
        out["error"] = traceback.format_exc()
    with open(a.out + ".tmp", "w") as f:
        json.dump(out, f)
    os.replace(a.out + ".tmp", a.out)
    os._exit(0 if out["error"] is None else 3)


if __name__ == "__main__":
    main()
