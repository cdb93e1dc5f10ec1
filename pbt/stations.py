"""Files for the weather station converter, and running it."""
import contextlib
import copy
import io
import os
import shutil
import sys
import tempfile
import tomllib
import warnings

from pbt import env

NAMES = {"PRES": "PRES_var", "T2": "T2_var", "RH2": "RH2_var", "G": "G_var", "RRR": "RRR_var", "U2": "U2_var", "LWin": "LWin_var",
         "SNOWFALL": "SNOWFALL_var", "N": "N_var"}


def settings(case):
    """The utilities' settings of this case."""
    with open(os.path.join(env.REPO, "utilities_config.toml"), "rb") as f:
        doc = copy.deepcopy(tomllib.load(f))
    aws = doc["aws2cosipy"]
    for k, v in case["names"].items():
        aws["names"][NAMES[k]] = v
    aws["names"]["in_K"] = case["in_K"]
    aws["coords"].update(WRF=case["wrf"], delimiter=case["delimiter"], **case.get("coords", {}))
    aws["radiation"].update(case.get("radiation", {}))
    aws["points"].update(case.get("points", {}))
    aws["station"].update(stationAlt=case["alt"], **case.get("station", {}))
    aws["lapse"].update(lapse_T=case["lapse"][0], lapse_RH=case["lapse"][1], lapse_RRR=case["lapse"][2], lapse_SNOWFALL=case["lapse"][3])
    return doc


def label(case, v):
    return case["names"].get(v, {"LWin": "LWinCor_Avg"}.get(v, v))


@contextlib.contextmanager
def scratch():
    """A directory of its own to convert in."""
    work, cwd, argv = tempfile.mkdtemp(dir=os.getcwd()), os.getcwd(), list(sys.argv)
    try:
        os.chdir(work)
        yield work
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(work, ignore_errors=True)


def convert(module, flags, doc):
    """Run the converter's program in the current directory -> (dataset or None, error or None)"""
    import xarray as xr
    with open("u.toml", "w") as f:
        f.write(env.toml_dump(doc))
    sys.argv = ["convert", "-o", "out.nc", "-u", "u.toml"] + flags
    err = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            module.main()
        except ValueError as e:
            err = e
        out = None
        if os.path.exists("out.nc"):
            with xr.open_dataset("out.nc") as ds:
                out = ds.load()
    return out, err
