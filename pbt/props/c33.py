"""C33 output of the atmospheric model turned into input."""
import math

from hypothesis import strategies as st

from pbt import common, env, stations
from pbt.engine import Search, expect

ID = "C33"
LEVEL = "exploration"
VARIANTS = {"default": {}, "constant-density": {"constants": {"densification_method": "constant", "constant_density": 210.0}}}
ASSUMPTIONS = ["WRF files with a Time dimension and the XTIME coordinate, rows from south to north, accumulated precipitation that never falls",
               "terrain at least 3 cells wide; slope and aspect compared away from its border"]
F3 = {"T2": (250, 285), "Q2": (0.0002, 0.006), "PSFC": (48000, 70000), "SWDOWN": (0, 1000), "GLW": (160, 350), "SNOWH": (0, 2), "SNOW": (0, 600),
      "SNOWC": (0, 1), "TSK": (250, 273), "U10": (-12, 12), "V10": (-12, 12)}


def searches(variant):
    import numpy as np
    import pandas as pd
    import tomllib
    import os
    import xarray as xr
    c = common.consts()
    from cosipy.utilities.wrf2cosipy import wrf2cosipy as tool
    with open(os.path.join(env.REPO, "utilities_config.toml"), "rb") as f:
        shipped = tomllib.load(f)

    def oracle(case, rec):
        rng = np.random.default_rng(case["seed"])
        n, (ny, nx) = case["steps"], case["shape"]
        dims = ("Time", "south_north", "west_east")
        time = pd.date_range("2009-05-30T22:00", periods=n, freq=pd.Timedelta(minutes=case["minutes"])) + pd.to_timedelta(
            rng.integers(0, 30, n) if case["seconds"] else 0, unit="s")
        wrf = xr.Dataset({"XTIME": ("Time", time)}).set_coords("XTIME")
        la, lo = np.meshgrid(30 + 0.05 * np.arange(ny), 90 + 0.06 * np.arange(nx), indexing="ij")
        h = 4000 + 300 * rng.random((ny, nx))
        lu = rng.choice([case["lu"], 16, 2], (ny, nx))
        acc = {k: np.cumsum(np.maximum(0, rng.random((n, ny, nx)) - 0.4) * a, 0) for k, a in (("RAINC", 0.5), ("RAINNC", 3.0), ("SNOWNC", 2.0))}
        full = {k: lo_ + (hi - lo_) * rng.random((n, ny, nx)) for k, (lo_, hi) in F3.items()}
        full.update(acc)
        for k, v in (("XLAT", la), ("XLONG", lo), ("HGT", h), ("LU_INDEX", lu)):
            full[k] = np.repeat(v[None].astype(float), n, 0)
        for k, v in full.items():
            wrf[k] = (dims, v.astype("f4"))
        wrf = wrf.set_coords(["XLAT", "XLONG"])
        wrf.attrs.update(DX=np.float32(case["dx"]), DY=np.float32(case["dy"]))
        doc = {**shipped, "wrf2cosipy": {"constants": {"hu": case["hu"], "lu_class": case["lu"]}}}
        stamps = time.floor("min")
        flags = ["-i", "wrf.nc"]
        sel = slice(0, n)
        if case["window"]:
            a, b = sorted(w % n for w in case["window"])
            flags += ["-b", str(stamps[a]), "-e", str(stamps[b])]
            sel = slice(a, b + 1)
        with stations.scratch():
            wrf.to_netcdf("wrf.nc")
            got, err = stations.convert(tool, flags, doc)
        expect(err is None and got is not None, "refused", f"{err}")
        w = {k: wrf[k].values[sel].astype(float) for k in full}
        stamps = stamps[sel]
        t = len(stamps)
        expect(dict(got.sizes) == {"time": t, "south_north": ny, "west_east": nx}, "size", f"{dict(got.sizes)}")
        expect(got.time.dtype.kind == "M" and (got.time.values == stamps.values).all(), "time", f"{got.time.values[:3]} expected {stamps.values[:3]}")
        rh = np.clip(w["Q2"] * 100 / (379.90516 / w["PSFC"] * np.exp(17.2693882 * (w["T2"] - 273.16) / (w["T2"] - 35.86))), 0, 100)
        u2 = np.sqrt(w["U10"] ** 2 + w["V10"] ** 2) * math.log(2 / 0.004) / math.log(case["hu"] / 0.004)
        if c["densification_method"] == "constant":
            rho = np.full(u2.shape, c["constant_density"])
        else:
            rho = np.maximum(109.0 + 6.0 * (w["T2"] - 273.16) + 26.0 * np.sqrt(u2), 50.0)

        def steps(*names):
            total = sum(w[k] for k in names)
            return np.concatenate([np.zeros((1, ny, nx)), np.diff(total, axis=0)])
        want = {"T2": w["T2"], "RH2": rh, "G": w["SWDOWN"], "LWin": w["GLW"], "PRES": w["PSFC"] / 100, "U2": u2, "RRR": steps("RAINC", "RAINNC"),
                "SNOWFALL": steps("SNOWNC") / 1000 * c["water_density"] / rho}
        flat = {"HGT": w["HGT"][0], "SNOWHEIGHT": w["SNOWH"][0], "SWE": w["SNOW"][0], "SNOWC": w["SNOWC"][0], "LU_INDEX": w["LU_INDEX"][0],
                "TSK": w["TSK"][0], "MASK": (w["LU_INDEX"][0] == case["lu"]).astype(float)}
        for k, v in list(want.items()) + list(flat.items()):
            expect(got[k].dims == (("time", "south_north", "west_east") if k in want else ("south_north", "west_east")), f"dimensions:{k}", f"{got[k].dims}")
            expect(np.allclose(got[k].values, v, rtol=2e-5, atol=2e-5), f"field:{k}", f"{got[k].values.ravel()[:4]} expected {v.ravel()[:4]}")
        expect((got.RRR.values[1:] >= -1e-4).all() and (got.SNOWFALL.values >= -1e-6).all(), "negative-precipitation", "")
        expect(np.allclose(got.RRR.values.sum(0), w["RAINC"][-1] + w["RAINNC"][-1] - w["RAINC"][0] - w["RAINNC"][0], rtol=1e-4, atol=1e-4),
               "precipitation-sum", "")
        expect(np.allclose(got.lat.values, w["XLAT"][0]) and np.allclose(got.lon.values, w["XLONG"][0]), "coordinates", "")
        expect(got.T2.attrs.get("units") == "K", "units", f"{got.T2.attrs}")
        # terrain, from its gradient (Horn)
        z = w["HGT"][0]
        for i in range(1, ny - 1):
            for j in range(1, nx - 1):
                q = z[i - 1:i + 2, j - 1:j + 2]
                east = (q[:, 2] @ [1, 2, 1] - q[:, 0] @ [1, 2, 1]) / (8 * case["dx"])
                north = (q[2] @ [1, 2, 1] - q[0] @ [1, 2, 1]) / (8 * case["dy"])
                slope = math.degrees(math.atan(math.hypot(east, north)))
                expect(common.close(float(got.SLOPE.values[i, j]), slope, 1e-3, 1e-3), "slope", f"{got.SLOPE.values[i, j]} expected {slope}")
                if slope > 0.5 and abs(case["dx"] - case["dy"]) < 1:
                    aspect = math.degrees(math.atan2(-east, -north)) % 360
                    d = abs((float(got.ASPECT.values[i, j]) - aspect + 180) % 360 - 180)
                    expect(d < 0.5, "aspect", f"{got.ASPECT.values[i, j]} expected {aspect}")
        rec.hit("window", bool(case["window"]))
        rec.hit("humidity limited", bool((rh >= 100).any()))
        rec.hit("other wind height", case["hu"] != 10)
        rec.hit("seconds in the stamps", case["seconds"])
        rec.nontrivial(t >= 3 and ny >= 3 and nx >= 3)

    cases = st.fixed_dictionaries({
        "seed": st.integers(0, 10**6), "steps": st.one_of(st.integers(4, 10), st.integers(1, 10)), "shape": st.tuples(st.integers(3, 6), st.integers(3, 6)).map(list),
        "minutes": st.sampled_from([60, 30, 180]), "seconds": st.booleans(), "lu": st.sampled_from([24, 15, 21]), "hu": st.sampled_from([10, 10.0, 5.5, 20]),
        "dx": st.sampled_from([1000.0, 333.0, 4000.0]), "dy": st.sampled_from([1000.0, 500.0, 4000.0]),
        "window": st.sampled_from([None, [1, 4], [0, 2], [2, 2], [3, 30]])})
    return [Search("conversion", cases, oracle, "at least 3 steps over terrain with a gradient", quick=200, thorough=8000, cap_quick=25.0)]
