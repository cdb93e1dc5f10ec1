"""The search engine: Hypothesis-driven generated cases against an oracle.

A property module provides `Search` objects.  Each has a Hypothesis strategy
that yields a *case* (plain JSON-able data) and an oracle `oracle(case, rec)`
that raises `Violation` when the case breaks the property.  Hypothesis
generates and shrinks; the smallest failing case seen is the replay file.
"""
import hashlib
import json
import time
import traceback


class Violation(Exception):
    def __init__(self, sig: str, msg: str = ""):
        super().__init__(f"{sig}: {msg}")
        self.sig, self.msg = sig, msg


class StopSearch(KeyboardInterrupt):
    """Leaves Hypothesis at once (it only lets KeyboardInterrupt through)."""


def expect(cond, sig, msg=""):
    if not cond:
        raise Violation(sig, msg() if callable(msg) else msg)


class Search:
    def __init__(self, name, strategy, oracle, rule, quick=300, thorough=5000,
                 cap_quick=60.0, cap_thorough=600.0, variants=None, pinned=(), warm=False):
        self.name, self.strategy, self.oracle, self.rule = name, strategy, oracle, rule
        self.quick, self.thorough = quick, thorough
        self.cap = {"quick": cap_quick, "thorough": cap_thorough}
        self.variants = variants  # None: runs in every variant
        self.warm = warm  # the time limit counts from the end of the first case (compilation)
        self.pinned = list(pinned)  # cases always run first (regressions)


class Recorder:
    """Handed to the oracle: what the case exercised."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.tags = set()
        self.is_nontrivial = False
        self.discarded = False

    def hit(self, tag, cond=True):
        if cond:
            self.tags.add(tag)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    return x


def case_key(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_case(search, case, rec):
    """Run the oracle on one case.  An unexpected exception out of the code
    under test is a violation too: every generated case is in the domain."""
    rec.reset()
    try:
        search.oracle(case, rec)
    except Violation:
        raise
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit included
        from hypothesis.errors import UnsatisfiedAssumption
        if isinstance(e, UnsatisfiedAssumption):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = "?"
        for fr in reversed(tb):
            if "/pbt/" not in fr.filename:
                where = f"{fr.filename.split('/')[-1]}:{fr.name}"
                break
        raise Violation(f"exception:{type(e).__name__}",
                        f"{e} (in {where})\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))


def run_search(search, tier, seed, known=(), shrink_budget=40.0):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    n = search.quick if tier == "quick" else search.thorough
    cap = search.cap[tier]
    rec = Recorder()
    st = dict(name=search.name, rule=search.rule, evaluations=0, distinct_nontrivial=0,
              tags={}, samples=[], failure=None, known=[], capped=False)
    keys = set()
    t0 = time.time()
    clock = {"start": None if search.warm else t0}
    fail = {"case": None, "sig": None, "msg": None, "t": None, "size": None}

    def one(case):
        now = time.time()
        if fail["t"] is not None:
            if now - fail["t"] > shrink_budget:
                raise StopSearch()
        elif clock["start"] is not None and now - clock["start"] > cap:
            st["capped"] = True
            raise StopSearch()
        case = jsonable(case)
        try:
            run_case(search, case, rec)
        except Violation as v:
            if v.sig in known:
                if v.sig not in st["known"]:
                    st["known"].append(v.sig)
                return
            size = len(json.dumps(case))
            if fail["size"] is None or size <= fail["size"]:
                fail.update(case=case, sig=v.sig, msg=v.msg, size=size)
            if fail["t"] is None:
                fail["t"] = now
            raise
        if clock["start"] is None:
            clock["start"] = time.time()
        if fail["t"] is None:
            st["evaluations"] += 1
            for t in rec.tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if rec.is_nontrivial:
                k = case_key(case)
                if k not in keys:
                    keys.add(k)
                    st["distinct_nontrivial"] += 1
                    if len(st["samples"]) < 2 and st["evaluations"] > 3:
                        st["samples"].append({"case": case, "tags": sorted(rec.tags)})

    try:
        for case in search.pinned:
            one(case)
    except (Violation, StopSearch):
        pass
    if fail["case"] is None:
        test = given(search.strategy)(one)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )(test)
        test = hseed(seed)(test)
        try:
            test()
        except StopSearch:
            pass
        except Violation:
            pass
        except BaseException as e:
            if fail["case"] is None:
                raise
            del e
    if fail["case"] is not None:
        st["failure"] = dict(search=search.name, case=fail["case"], sig=fail["sig"], msg=fail["msg"])
    st["wall_s"] = round(time.time() - t0, 2)
    return st
