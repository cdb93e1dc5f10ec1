"""Where things are, how the code under test is imported, how variants are set up.

Nothing here (or anywhere in /verif) writes below /repo: the code under test is
imported from /repo with bytecode writing disabled, every process runs in a
scratch directory of its own, and its configuration is a set of .toml files
generated there from the repository's own shipped ones.
"""
import importlib.util
import os
import sys
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def child_env() -> dict:
    env = dict(os.environ)
    for k in ("COSIPY_DIR", "PYTHONPATH", "NUMBA_DISABLE_JIT"):
        env.pop(k, None)
    env.update(
        MPLBACKEND="Agg",
        PYTHONHASHSEED="0",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONWARNINGS="ignore",
        HYPOTHESIS_STORAGE_DIRECTORY="/nonexistent",
    )
    return env


def ensure_hypothesis():
    """Import Hypothesis from the tool venv without letting that venv shadow
    any package of the environment the code under test runs in."""
    if importlib.util.find_spec("hypothesis") is None:
        sys.path.append(PYVENV)
        try:
            import hypothesis  # noqa: F401
            import hypothesis.strategies  # noqa: F401
            import hypothesis.internal.conjecture.engine  # noqa: F401
            import sortedcontainers  # noqa: F401
        finally:
            sys.path.remove(PYVENV)
    else:
        import hypothesis  # noqa: F401


def toml_dump(tables: dict) -> str:
    def val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, (int, float)):
            return repr(v)
        if isinstance(v, str):
            return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
        if isinstance(v, list):
            return "[" + ", ".join(val(x) for x in v) + "]"
        raise TypeError(repr(v))

    out = []

    def emit(prefix, table):
        scal = {k: v for k, v in table.items() if not isinstance(v, dict)}
        sub = {k: v for k, v in table.items() if isinstance(v, dict)}
        if prefix and (scal or not sub):
            out.append(f"[{prefix}]")
        for k, v in scal.items():
            out.append(f"{k} = {val(v)}")
        for k, v in sub.items():
            emit(f"{prefix}.{k}" if prefix else k, v)

    emit("", tables)
    return "\n".join(out) + "\n"


def _override(tables: dict, flat: dict):
    """Override keys wherever they live in a two-level toml document."""
    for key, value in flat.items():
        hit = False
        for table in tables.values():
            if key in table:
                table[key] = value
                hit = True
        if not hit:
            raise KeyError(f"setting {key!r} is not in the shipped file")


def write_configs(workdir: str, config: dict = None, constants: dict = None) -> list:
    """Write a variant's .toml files; return the matching command line."""
    def load(name):
        with open(os.path.join(REPO, name), "rb") as f:
            return tomllib.load(f)

    cfg, cst = load("config.toml"), load("constants.toml")
    _override(cfg, {"data_path": os.path.join(workdir, "data") + "/"})
    _override(cfg, config or {})
    _override(cst, constants or {})
    paths = {}
    for name, doc in (("config.toml", cfg), ("constants.toml", cst),
                      ("slurm_config.toml", load("slurm_config.toml"))):
        paths[name] = os.path.join(workdir, name)
        with open(paths[name], "w") as f:
            f.write(toml_dump(doc))
    os.makedirs(os.path.join(workdir, "data", "input"), exist_ok=True)
    return ["-c", paths["config.toml"], "-x", paths["constants.toml"],
            "-s", paths["slurm_config.toml"]]


def enter_repo(argv: list):
    """Make `import cosipy` mean /repo with the given command line."""
    sys.argv = ["cosipy-check"] + argv
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
