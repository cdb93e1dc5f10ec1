"""C35 the setup tool hands out the sample settings and never overwrites without consent."""
import builtins
import contextlib
import io
import os
import sys
import tomllib

from hypothesis import strategies as st

from pbt import common, env, stations
from pbt.engine import Search, expect

ID = "C35"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 2}}}
ASSUMPTIONS = ["answers are typed in, one line each; the target directory is a scratch directory, given by a relative or absolute path or the current one"]
FILES = ["config.toml", "constants.toml", "slurm_config.toml", "utilities_config.toml"]
YES, NO = ["y", "Y", "yes", "YES", " y ", "Yes\t", "yEs"], ["n", "N", "no", "NO", "", "  ", " No"]
ODD = ["maybe", "ye", "yy", "j", "0", "1", "ja", "yes no", "true", "y n", "nope", "yes!"]


def searches(variant):
    from cosipy.utilities.setup_cosipy import setup_cosipy as tool
    sample = {}

    def keys(doc, at=()):
        out = {}
        for k, v in doc.items():
            out.update(keys(v, at + (k,)) if isinstance(v, dict) else {at + (k,): type(v)})
        return out
    src = os.path.dirname(tool.__file__)
    for f in FILES:
        with open(os.path.join(src, f), "rb") as h:
            sample[f] = h.read()

    def read(d):
        out = {}
        for base, _, names in os.walk(d):
            for n in names:
                with open(os.path.join(base, n), "rb") as h:
                    out[os.path.relpath(os.path.join(base, n), d)] = h.read()
        return out

    def oracle(case, rec):
        with stations.scratch() as work:
            target = {"current": ".", "new": "a/b", "there": "t", "slash": "t/", "absolute": os.path.join(work, "t")}[case["target"]]
            if case["target"] != "new":
                os.makedirs(target, exist_ok=True)
                for f, have in zip(FILES, case["have"]):
                    if have:
                        with open(os.path.join(target, f), "wb") as h:
                            h.write(b"mine " + have.encode())
            with open("other.txt", "w") as h:
                h.write("keep")
            before = read(".")
            sys.argv = ["cosipy-setup"] + (["-y"] if case["yes"] == 1 else ["--yes"] if case["yes"] == 2 else [])
            if case["target"] != "current":
                sys.argv += ["-o" if case["short"] else "--output", target]
            asked, answers = [], [a for group in case["answers"] for a in group]

            def typed(prompt=""):
                asked.append(prompt)
                if len(asked) > len(answers):
                    raise EOFError("asked too often")
                return answers[len(asked) - 1]
            kept = builtins.input
            err = None
            try:
                builtins.input = typed
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                    try:
                        tool.main()
                    except EOFError as e:
                        err = e
            finally:
                builtins.input = kept
            after = read(".")
        want = dict(before)
        rel = os.path.normpath("t" if case["target"] == "absolute" else target)
        queue, k = list(answers), 0
        for f in FILES:
            p = os.path.normpath(os.path.join(rel, f))
            if p in before and not case["yes"]:
                while queue[k].strip().lower() not in ("y", "yes", "n", "no", ""):
                    k += 1
                if queue[k].strip().lower() in ("y", "yes"):
                    want[p] = sample[f]
                k += 1
            else:
                want[p] = sample[f]
        for f in FILES:
            with open(os.path.join(env.REPO, f), "rb") as h:
                ours = keys(tomllib.load(h))
            theirs = keys(tomllib.loads(sample[f].decode()))
            for s in ours:
                expect(s in theirs and theirs[s] in (ours[s], int if ours[s] is float else ours[s], float if ours[s] is int else ours[s]), "setting-missing", lambda: f"{f}: {s}, sample has {theirs.get(s)}")
        expect(err is None and len(asked) == k, "questions", lambda: f"asked {asked}, answers {answers}, {k} needed")
        expect(sorted(after) == sorted(want), "files", lambda: f"{sorted(after)}, expected {sorted(want)}")
        for p in want:
            expect(after[p] == want[p], "overwritten" if p in before and want[p] == before[p] else "not-written",
                   lambda: f"{p} is {after[p][:40]!r}, expected {want[p][:40]!r}; {sys.argv} answers {answers}")
        rec.hit("forced", bool(case["yes"]))
        rec.hit("asked again", k > sum(1 for f in FILES if os.path.normpath(os.path.join(rel, f)) in before) and not case["yes"])
        rec.hit(case["target"])
        rec.nontrivial(bool(asked) and want != before)

    one = st.tuples(st.lists(st.sampled_from(ODD), max_size=2), st.sampled_from(YES + NO)).map(lambda t: list(t[0]) + [t[1]])
    case = st.fixed_dictionaries({"target": st.sampled_from(["current", "new", "there", "slash", "absolute"]), "short": st.booleans(),
                                  "yes": st.sampled_from([0, 0, 0, 1, 2]), "answers": st.lists(one, min_size=4, max_size=4),
                                  "have": st.lists(st.sampled_from(["", "settings", "x"]), min_size=4, max_size=4)})
    return [Search("setup", case, oracle, "a file is there, and something is written", quick=600, thorough=20000, cap_quick=10.0)]
