"""C36 field plots show the requested variable, time or daily mean, where it belongs."""
import contextlib
import io
import os
import sys

from hypothesis import strategies as st

from pbt import common, stations
from pbt.engine import Search, expect

ID = "C36"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"quick": 2, "thorough": 4}}}
ASSUMPTIONS = ["result files with latitude and longitude as dimensions, at steps of 1, 3 or 6 hours",
               "the drawn coloured cells are compared for the mesh; for contours, the fields handed to the drawing"]
MESH = [["H", "LE", "B"], ["SNOWHEIGHT", "surfM", "TS"], ["G", "Q", "LWout"], ["surfMB", "MB", "REFREEZE"]]
CONT = [["H", "LE", "B"], ["SNOWHEIGHT", "surfM", "TS"], ["G", "LWin", "LWout"], ["MB", "surfMB", "Q"]]
ALL = sorted({v for t in (MESH, CONT) for r in t for v in r})


def searches(variant):
    os.environ["MPLBACKEND"] = "Agg"
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import numpy as np
    import pandas as pd
    import xarray as xr
    from cosipy.postprocessing.field_plots import plot_cosipy_fields as pcf

    def result(case):
        rng = np.random.default_rng(case["seed"])
        n, ny, nx = case["n"], case["shape"][0], case["shape"][1]
        t = pd.date_range(case["start"], periods=n, freq=pd.Timedelta(hours=case["step"]))
        ds = xr.Dataset(coords={"time": t, "lat": 30 + 0.01 * np.arange(ny), "lon": 90 + 0.02 * np.arange(nx)})
        off = rng.random((ny, nx)) < 0.2
        for k, v in enumerate(ALL):
            a = 100 * k + 40 * rng.random((n, ny, nx))
            a[:, off] = np.nan
            if case["late"]:
                a[rng.random((n, ny, nx)) < 0.1] = np.nan
            ds[v] = (("time", "lat", "lon"), a)
            ds[v].attrs.update(units=f"u{k}", long_name=f"name of {v}".lower())
        ds["HGT"] = (("lat", "lon"), 5000 + 300 * rng.random((ny, nx)))
        ds["HGT"].attrs.update(units="m", long_name="Elevation")
        return ds

    def asked(case, ds):
        """(text of the time, reference field of a variable or None when refused)"""
        t = pd.DatetimeIndex(ds.time.values)
        k = min(int(case["at"] * len(t)), len(t) - 1)
        if case["form"] == "day":
            text = t[k].strftime("%Y-%m-%d")
        else:
            text = t[k].strftime("%Y-%m-%dT%H:%M")
        day = t.normalize() == t[k].normalize()

        def ref(v):
            a = ds[v].values
            if case["mean"]:
                with np.errstate(all="ignore"):
                    c = (~np.isnan(a[day])).sum(0)
                    return np.where(c > 0, np.nansum(a[day], 0) / np.maximum(c, 1), np.nan)
            return a[k] if case["form"] == "time" else a[day][0]
        refused = not case["mean"] and case["form"] == "day" and int(day.sum()) > 1
        return text, ref, refused

    def select(case, rec):
        ds = result(case)
        text, ref, refused = asked(case, ds)
        keep = ds["TS"].copy(deep=True)
        when = pd.Timestamp(text) if case["object"] and case["form"] == "time" else text
        try:
            got = pcf.get_selection(ds["TS"], when, case["mean"])
        except KeyError:
            expect(refused, "refused", f"{text} in {ds.time.values}")
            rec.hit("refused: whole day")
            return
        expect(not refused, "day-accepted", f"{text}")
        w = ref("TS")
        g = np.asarray(got.values).reshape(w.shape) if got.size == w.size else got.values
        expect(g.shape == w.shape and np.allclose(g, w, rtol=1e-9, atol=1e-9, equal_nan=True), "selection", lambda: f"{text} mean={case['mean']}: {g.ravel()[:4]}, expected {w.ravel()[:4]}")
        expect(np.array_equal(ds["TS"].values, keep.values, equal_nan=True), "changed", "")
        rec.hit("mean", case["mean"])
        rec.hit("afternoon", case["mean"] and case["form"] == "time" and int(text[11:13]) > 12)
        rec.nontrivial(case["n"] > 24 // case["step"])

    def draw(case, rec):
        ds = result(case)
        text, ref, refused = asked(case, ds)
        refused = refused and case["var"] != "HGT"
        flat = case["flat"]
        if flat:
            ds = ds.isel({"lat": slice(0, 1)} if flat == "lat" else {"lon": slice(0, 1)})
        handed = []
        kept = (plt.show, xr.plot.accessor.DataArrayPlotAccessor.contourf)

        def contourf(self, *a, **k):
            handed.append((self._da.name, self._da.values, k.get("ax")))
            return kept[1](self, *a, **k)
        shown, err = [], None
        with stations.scratch():
            ds.to_netcdf("result.nc")
            ds.close()
            sys.argv = ["plot", "-i", "result.nc", "-d", text] + (["-m"] if case["mean"] else []) + (["-s"] if case["save"] else [])
            sys.argv += (["-v", case["var"]] if case["var"] else []) + (["-t", str(case["type"])] if case["type"] else [])
            kind = "mesh" if case["type"] == 2 else "contour"
            try:
                plt.show = lambda *a, **k: shown.append(1)
                xr.plot.accessor.DataArrayPlotAccessor.contourf = contourf
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        pcf.main()
                    except (KeyError, ValueError) as e:
                        err = e
                made = sorted(set(os.listdir(".")) - {"result.nc"})
                fig = plt.gcf() if plt.get_fignums() else None
                axes = [a for a in fig.axes if a.get_title()] if fig else []
                if flat or refused:
                    expect(err is not None and not shown and not made, "accepted", f"{flat} {text} {made}")
                    rec.hit("refused")
                    return
                expect(err is None, "refused", f"{err!r}")
                names = [case["var"]] if case["var"] else [v for r in (MESH if kind == "mesh" else CONT) for v in r]
                expect(len(axes) == len(names), "panels", f"{[a.get_title() for a in axes]}")
                for v, ax in zip(names, axes):
                    want = ds[v].values if v == "HGT" else ref(v)
                    title = "Elevation" if v == "HGT" else f"name of {v}".lower().title()
                    expect(ax.get_title() == title, "title", f"{ax.get_title()} for {v}")
                    if kind == "mesh":
                        qm = [c for c in ax.collections if type(c).__name__ in ("QuadMesh", "GeoQuadMesh")]
                        expect(len(qm) == 1, "drawn", f"{ax.collections}")
                        xy = qm[0].get_coordinates()
                        cx, cy = (xy[:-1, :-1, 0] + xy[1:, 1:, 0]) / 2, (xy[:-1, :-1, 1] + xy[1:, 1:, 1]) / 2
                        a = np.ma.filled(np.ma.asarray(qm[0].get_array(), dtype=float), np.nan).reshape(cx.shape)
                        expect(np.allclose(cx, ds.lon.values[None, :], atol=1e-6) and np.allclose(cy, ds.lat.values[:, None], atol=1e-6), "place", f"{cx[0]} {cy[:, 0]}")
                        expect(np.allclose(a, want, rtol=1e-6, atol=1e-6, equal_nan=True), "drawn-field", f"{v}: {a.ravel()[:4]}, expected {want.ravel()[:4]}")
                    else:
                        h = [x for x in handed if x[2] is ax]
                        expect(len(h) == 1, "drawn", f"{handed}")
                        expect(np.allclose(np.squeeze(h[0][1]), want, rtol=1e-6, atol=1e-6, equal_nan=True), "drawn-field", f"{v}: {h[0][1].ravel()[:4]}, expected {want.ravel()[:4]}")
                if case["save"]:
                    name = "".join(ch for ch in text if ch.isalnum() or ch == "_") + f"_{case['var'] or 'stamp_plot'}_{kind}.png"
                    expect(made == [name] and not shown, "file", f"{made}, expected {name}")
                else:
                    expect(made == [] and shown == [1], "shown", f"{made} {shown}")
            finally:
                plt.show, xr.plot.accessor.DataArrayPlotAccessor.contourf = kept
                plt.close("all")
        rec.hit(kind)
        rec.hit("stamp plot", not case["var"])
        rec.hit("saved", case["save"])
        rec.nontrivial(ds.sizes["lat"] != ds.sizes["lon"])

    base = {"seed": st.integers(0, 2**31), "step": st.sampled_from([1, 3, 6]), "n": st.integers(1, 60), "at": common.fl(0, 1), "form": st.sampled_from(["day", "time", "time"]),
            "mean": st.booleans(), "start": st.sampled_from(["2009-01-01", "2009-01-01T06:00", "2012-02-28T23:00", "2010-12-31T18:00"]), "late": st.booleans(),
            "shape": st.tuples(st.integers(2, 6), st.integers(2, 6)), "object": st.booleans()}
    return [Search("selection", st.fixed_dictionaries(base), select, "more than one day of data", quick=400, thorough=10000, cap_quick=15.0),
            Search("drawing", st.fixed_dictionaries(dict(base, flat=st.sampled_from([None] * 8 + ["lat", "lon"]), type=st.sampled_from([None, 1, 2, 2, 2]), save=st.sampled_from([False, False, False, True]),
                                                         var=st.one_of(st.sampled_from(ALL + ["HGT"]), st.sampled_from(ALL), st.sampled_from(ALL), st.none()))), draw,
                   "a grid that is not square", quick=40, thorough=600, cap_quick=35.0)]
