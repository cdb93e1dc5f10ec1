"""C27 settings mean what the files say, whatever the command line and the order of loading."""
import contextlib
import os
import shutil
import sys
import tempfile
import tomllib

from hypothesis import strategies as st

from pbt import common, env
from pbt.engine import Search, expect

ID = "C27"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 2}}}
ASSUMPTIONS = ["settings files with the tables of the shipped ones and values of the same kind"]
FILES = {"config": "config.toml", "constants": "constants.toml", "slurm": "slurm_config.toml", "utilities": "utilities_config.toml"}


def searches(variant):
    from cosipy.config import Config, SlurmConfig, get_user_arguments
    from cosipy.constants import Constants
    from cosipy.utilities.config_utils import UtilitiesConfig

    shipped = {}
    for k, f in FILES.items():
        with open(os.path.join(env.REPO, f), "rb") as h:
            shipped[k] = tomllib.load(h)

    def leaves(doc, path=()):
        for k, v in doc.items():
            if isinstance(v, dict):
                yield from leaves(v, path + (k,))
            else:
                yield path + (k,), v

    names = {k: list(leaves(d)) for k, d in shipped.items()}

    def merged(kind, changes):
        import copy
        doc = copy.deepcopy(shipped[kind])
        for path, v in changes:
            t = doc
            for p in path[:-1]:
                t = t[p]
            t[path[-1]] = v
        return doc

    def rules(kind, doc, coupled):
        """What each setting is expected to be."""
        want = {p[-1]: v for p, v in leaves(doc)}
        if kind == "config":
            if want["WRF"]:
                want.update(northing="south_north", easting="west_east")
            if want["WRF_X_CSPY"]:
                want["full_field"] = True
            if want["workers"] == 0:
                want["workers"] = None
        if kind == "constants" and coupled:
            want.update(albedo_method="Oerlemans98", stability_correction="MO")
        if kind == "slurm" and want["memory_per_process"]:
            want["memory"] = f"{want['memory_per_process'] * want['cores']}GB"
        return want

    def same(a, b):
        return type(a) is type(b) and a == b

    def oracle(case, rec):
        work = tempfile.mkdtemp(dir=os.getcwd())
        argv, cwd, old_dir = list(sys.argv), os.getcwd(), os.environ.get("COSIPY_DIR")
        try:
            os.chdir(work)
            for rnd in case["rounds"]:
                docs, flags = {}, []
                home = os.path.join(work, "home")
                os.makedirs(home, exist_ok=True)
                for kind in FILES:
                    changes = [(path, v) for k, path, v in rnd["changes"] if k == kind]
                    docs[kind] = merged(kind, changes)
                    where = rnd["where"][kind] if kind != "utilities" else "flag"
                    name = FILES[kind] if where == "default" else f"my {kind}-{len(flags)}.toml"
                    base = (home if rnd["home"] else work) if where == "default" else work
                    with open(os.path.join(base, name), "w") as f:
                        f.write(env.toml_dump(docs[kind]))
                    if kind == "utilities":
                        upath = os.path.join(base, name)
                    elif where == "default":
                        # a file of the same name elsewhere must not matter
                        other = work if rnd["home"] else home
                        with open(os.path.join(other, name), "w") as f:
                            f.write(env.toml_dump(shipped[kind]))
                    else:
                        opt = {"config": ("-c", "--config"), "constants": ("-x", "--constants"), "slurm": ("-s", "--slurm")}[kind]
                        p = os.path.join(base, name) if where == "absolute" else name
                        o = opt[rnd["long"]]
                        flags.append([o, p] if not rnd["equals"] else [f"{o}={p}"] if rnd["long"] else [f"{o}{p}"])
                if rnd["home"]:
                    os.environ["COSIPY_DIR"] = home
                else:
                    os.environ.pop("COSIPY_DIR", None)
                if rnd["reverse"]:
                    flags.reverse()
                sys.argv = ["COSIPY.py"] + [a for f in flags for a in f] + rnd["extra"]
                with contextlib.redirect_stderr(open(os.devnull, "w")):
                    args = get_user_arguments()
                    Config()
                    Constants()
                    SlurmConfig()
                del args
                coupled = docs["config"]["DIMENSIONS"]["WRF_X_CSPY"]
                for kind, cls in (("config", Config), ("constants", Constants), ("slurm", SlurmConfig)):
                    for k, v in rules(kind, docs[kind], coupled).items():
                        expect(hasattr(cls, k) and same(getattr(cls, k), v), f"{kind}:{k}", lambda: f"{getattr(cls, k, 'missing')!r}, file says {v!r}; {sys.argv} {rnd}")
                UtilitiesConfig()
                UtilitiesConfig.load(upath)
                for head, tables in docs["utilities"].items():
                    obj = UtilitiesConfig().get_config_expansion(head)
                    for t, body in tables.items():
                        got = getattr(obj, t)
                        for k, v in body.items():
                            expect(same(got[k], v), f"utilities:{k}", lambda: f"{got[k]!r}, file says {v!r}")
                rec.hit("coupled", coupled)
                rec.hit("WRF", docs["config"]["DIMENSIONS"]["WRF"])
                rec.hit("memory per process", docs["slurm"]["OVERRIDES"]["memory_per_process"] != 0)
                rec.nontrivial(len(rnd["changes"]) > 3)
            rec.hit("reloaded", len(case["rounds"]) > 1)
        finally:
            os.chdir(cwd)
            sys.argv = argv
            if old_dir is None:
                os.environ.pop("COSIPY_DIR", None)
            else:
                os.environ["COSIPY_DIR"] = old_dir
            shutil.rmtree(work, ignore_errors=True)
            Config()
            Constants()

    text = st.text(st.sampled_from("abcXYZ019 _-./,äµ\"\\"), max_size=8)

    def value(v):
        if isinstance(v, bool):
            return st.booleans()
        if isinstance(v, int):
            return st.one_of(st.just(0), st.integers(0, 100000), st.integers(-5, 5))
        if isinstance(v, float):
            return st.one_of(st.just(0.0), common.fl(-1000, 1000), st.sampled_from([1e-12, 6.02e23]))
        if isinstance(v, list):
            return st.lists(text, max_size=3)
        return text

    def change(kind, items):
        return st.sampled_from(items).flatmap(lambda i: st.tuples(st.just(kind), st.just(list(i[0])), value(i[1])))
    special = [i for i in names["config"] if i[0][-1] in ("WRF", "WRF_X_CSPY", "workers", "full_field", "northing", "easting")]
    changes = st.lists(st.one_of(change("config", special), change("config", names["config"]), change("constants", names["constants"]),
                                 change("constants", [i for i in names["constants"] if i[0][-1] in ("albedo_method", "stability_correction")]),
                                 change("slurm", [i for i in names["slurm"] if i[0][-1] in ("memory_per_process", "cores", "memory")]),
                                 change("slurm", names["slurm"]), change("utilities", names["utilities"])), max_size=25)
    where = st.sampled_from(["default", "absolute", "relative"])
    rnd = st.fixed_dictionaries({"changes": changes, "where": st.fixed_dictionaries({k: where for k in ("config", "constants", "slurm")}), "home": st.booleans(),
                                 "long": st.integers(0, 1), "equals": st.booleans(), "reverse": st.booleans(),
                                 "extra": st.sampled_from([[], ["--nodes", "3"], ["positional"], ["-q"]])})
    return [Search("settings", st.fixed_dictionaries({"rounds": st.lists(rnd, min_size=1, max_size=3)}), oracle, "several settings changed", quick=250, thorough=15000, cap_quick=25.0)]
