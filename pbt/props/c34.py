"""C34 the static file: terrain, glacier mask and coordinates of the configured box."""
import contextlib
import io
import os
import shlex
import sys
import types
import warnings

from hypothesis import strategies as st

from pbt import common, env, stations
from pbt.engine import Search, expect

ID = "C34"
LEVEL = "exploration"
ASSUMPTIONS = ["the programs of GDAL and the library richdem, which are not installed, are replaced by stand-ins that crop, aggregate, "
               "convert and mask grids as GDAL does, inside a scratch directory", "elevations on the glacier are above zero"]
VARIANTS = {"default": {"shards": {"thorough": 3}}}
GRID = 0.01


class Status(int):
    """An exit status, in whichever way the caller asks for it."""
    stdout = stderr = b""
    returncode = property(int)

    def wait(self, *a, **k):
        return int(self)

    def communicate(self, *a, **k):
        return b"", b""

    def check_returncode(self):
        assert self == 0, f"status {int(self)}"

    __enter__ = lambda self: self
    __exit__ = lambda self, *a: None


class Tools:
    """What the tool starts, on grids stored as files in the scratch directory (north first, as in GeoTIFF)."""

    def __init__(self, np, xr, files, inside, gaps):
        self.np, self.xr, self.files, self.inside, self.gaps = np, xr, dict(files), inside, gaps
        self.log, self.removed = [], []

    def key(self, p):
        return os.path.normpath(p)

    def put(self, path, r):
        self.files[self.key(path)] = r
        with open(path, "w") as f:
            f.write("stand-in")

    def slope(self, z, lat, lon):
        return (z * 0.7 + 3 * lat[:, None] + 5 * lon[None, :]) % 47

    def aspect(self, z, lat, lon):
        return (z * 1.3 + 11 * lat[:, None] + 2 * lon[None, :]) % 360

    def netcdf(self, path, r, z):
        lat, lon, _ = r
        self.put(path, (lat, lon, z))
        os.remove(path)
        ds = self.xr.Dataset({"Band1": (("lat", "lon"), z[::-1].astype("f8"))}, coords={"lat": lat[::-1], "lon": lon})
        ds.to_netcdf(path)

    def cell(self, lat, lon, z, which):
        if self.gaps and self.gaps[0] == which:
            z = z.copy()
            z[self.gaps[1] % z.shape[0], self.gaps[2] % z.shape[1]] = self.np.nan
        return z

    def run(self, command, *a, **k):
        return Status(self.start(command))

    def start(self, command):
        argv = command if isinstance(command, (list, tuple)) else shlex.split(command)
        argv = [str(x) for x in argv]
        self.log.append(argv)
        np, name = self.np, os.path.basename(argv[0])
        if name == "rm":
            for p in argv[1:]:
                if not p.startswith("-"):
                    self.removed.append(self.key(p))
                    if os.path.dirname(os.path.realpath(p)).startswith(os.getcwd()) and os.path.isfile(p):
                        os.remove(p)
            return 0
        opts, rest, j = {}, [], 1
        size = {"-projwin": 4, "-tr": 2, "-r": 1, "-of": 1, "-s": 1, "--config": 2, "-cutline": 1, "-te": 4}
        while j < len(argv):
            if argv[j] in size:
                n = size[argv[j]]
                opts[argv[j]] = argv[j + 1:j + 1 + n]
                j += 1 + n
            else:
                rest.append(argv[j])
                j += 1
        if name == "gdaldem":
            mode, rest = rest[0], rest[1:]
        src, dst = rest
        if self.key(src) not in self.files:
            return 256
        lat, lon, z = self.files[self.key(src)]
        if "-projwin" in opts:
            ulx, uly, lrx, lry = map(float, opts["-projwin"])
            y, x = (lat < uly) & (lat > lry), (lon > ulx) & (lon < lrx)
            lat, lon, z = lat[y], lon[x], z[y][:, x]
        if "-tr" in opts:
            f = max(1, int(round(float(opts["-tr"][0]) / abs(lon[1] - lon[0])))) if len(lon) > 1 else 1
            g = max(1, int(round(float(opts["-tr"][1]) / abs(lat[1] - lat[0])))) if len(lat) > 1 else 1
            ny, nx = z.shape[0] // g, z.shape[1] // f
            z = z[:ny * g, :nx * f].reshape(ny, g, nx, f).mean((1, 3)) if opts.get("-r") == ["average"] else z[:ny * g:g, :nx * f:f]
            lat, lon = lat[:ny * g].reshape(ny, g).mean(1), lon[:nx * f].reshape(nx, f).mean(1)
        if name == "gdaldem":
            z = self.cell(lat, lon, self.slope(z, lat, lon), "slope") if mode == "slope" and opts.get("-s") == ["111120"] else z * np.nan
        if "-cutline" in opts:
            if opts["-cutline"] != [self.shape]:
                return 256
            z = np.where(self.inside(lat, lon), z, np.nan)
        if opts.get("-of") == ["NETCDF"]:
            self.netcdf(dst, (lat, lon, z), z)
        else:
            self.put(dst, (lat, lon, z))
        return 0


def searches(variant):
    import numpy as np
    import subprocess
    import tomllib
    import xarray as xr
    fake = types.ModuleType("richdem")
    sys.modules["richdem"] = fake
    from cosipy.utilities.createStatic import create_static_file as tool
    with open(os.path.join(env.REPO, "utilities_config.toml"), "rb") as f:
        shipped = tomllib.load(f)

    def oracle(case, rec):
        rng = np.random.default_rng(case["seed"])
        ny, nx = case["shape"]
        lat = 30 + GRID * (np.arange(ny)[::-1] + 0.5)
        lon = 90 + GRID * (np.arange(nx) + 0.5)
        z = 4000 + 900 * rng.random((ny, nx))
        table = rng.random((7, 9)) < case["ice"]

        def inside(la, lo):  # a shape, as a function of the place
            return table[np.floor((la[:, None] - 30) / 0.023).astype(int) % 7, np.floor((lo[None, :] - 90) / 0.019).astype(int) % 9]
        folder = "static_files/"
        paths = dict(static_folder=folder, dem_path="in/dem.tif", shape_path="in/shape.shp", output_file="static.nc")
        i0, i1, j0, j1 = case["box"]
        # corners in the middle of pixels of the border, as between pixels the choice is GDAL's
        uly, lry = 30 + GRID * (ny - i0), 30 + GRID * (ny - i1)
        ulx, lrx = 90 + GRID * j0, 90 + GRID * j1
        coords = dict(tile=case["tile"], aggregate=case["factor"] > 1, aggregate_degree=GRID * case["factor"],
                      longitude_upper_left=ulx, latitude_upper_left=uly, longitude_lower_right=lrx, latitude_lower_right=lry)
        doc = {**shipped, "create_static": {"paths": paths, "coords": coords}}
        with stations.scratch():
            os.makedirs(folder + "in")
            t = Tools(np, xr, {}, inside, case["gap"])
            t.shape = folder + "in/shape.shp"
            t.put(folder + "in/dem.tif", (lat, lon, z))
            with open(t.shape, "w") as f:
                f.write("stand-in")

            class Raster:
                def __init__(self, path):
                    self.lat, self.lon, self.z = t.files[t.key(path)]

            def attribute(r, attrib=None, **k):
                expect(attrib == "aspect", "terrain-attribute", f"{attrib}")
                return t.cell(r.lat, r.lon, t.aspect(r.z, r.lat, r.lon), "aspect")
            fake.LoadGDAL, fake.TerrainAttribute = Raster, attribute
            with open("u.toml", "w") as f:
                f.write(env.toml_dump(doc))
            sys.argv = ["create", "-u", "u.toml"]
            hooks = [(os, "system"), (os, "popen"), (subprocess, "run"), (subprocess, "call"), (subprocess, "check_call"), (subprocess, "Popen")]
            kept = [(o, n, getattr(o, n)) for o, n in hooks]
            err = None
            try:
                for o, n in hooks:
                    setattr(o, n, t.run)
                with contextlib.redirect_stdout(io.StringIO()) as said, warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        tool.main()
                    except ValueError as e:
                        err = e
            finally:
                for o, n, f in kept:
                    setattr(o, n, f)
            got = None
            if os.path.exists(folder + "static.nc"):
                with xr.open_dataset(folder + "static.nc") as ds:
                    got = ds.load()
            there = sorted(os.listdir(folder))
            kept_in = sorted(os.listdir(folder + "in"))
        # what it should be
        la, lo, want = lat, lon, z
        if case["tile"]:
            la, lo, want = lat[i0:i1], lon[j0:j1], z[i0:i1, j0:j1]
        f = case["factor"]
        if f > 1:
            a, b = want.shape[0] // f, want.shape[1] // f
            want = want[:a * f, :b * f].reshape(a, f, b, f).mean((1, 3))
            la, lo = la[:a * f].reshape(a, f).mean(1), lo[:b * f].reshape(b, f).mean(1)
        ice = inside(la, lo)
        slope, aspect = t.slope(want, la, lo), t.aspect(want, la, lo)
        hit = None
        if case["gap"]:
            at = (case["gap"][1] % want.shape[0], case["gap"][2] % want.shape[1])
            (slope if case["gap"][0] == "slope" else aspect)[at] = np.nan
            hit = bool(ice[at])
        if hit:
            expect(err is not None and got is None, "gap-accepted", f"{case['gap'][0]} is missing on the glacier")
            rec.hit("refused: gap")
            return
        expect(err is None and got is not None, "refused", f"{err}")
        expect(dict(got.sizes) == {"lat": len(la), "lon": len(lo)}, "size", f"{dict(got.sizes)}, expected {want.shape}")
        expect(np.allclose(got.lat.values, la[::-1]) and np.allclose(got.lon.values, lo), "coordinates", f"{got.lat.values[:3]} {got.lon.values[:3]}")
        for v, w in (("HGT", want), ("SLOPE", slope), ("ASPECT", aspect), ("MASK", np.where(ice, 1.0, np.nan))):
            g = got[v].values
            expect(got[v].dims == ("lat", "lon") and np.allclose(g, w[::-1], rtol=1e-6, atol=1e-4, equal_nan=True), f"field:{v}", f"{g.ravel()[:5]} expected {w[::-1].ravel()[:5]}")
        expect(sorted(got.data_vars) == ["ASPECT", "HGT", "MASK", "SLOPE"], "variables", f"{sorted(got.data_vars)}")
        units = dict(HGT="meters", ASPECT="degrees", SLOPE="degrees", MASK="boolean", lat="degrees_north", lon="degrees_east")
        for v, u in units.items():
            expect(got[v].attrs.get("units") == u, "units", f"{v}: {got[v].attrs}")
        expect(there == ["in", "static.nc"], "intermediate-files", f"{there}")
        expect(kept_in == ["dem.tif", "shape.shp"], "input-files", f"{kept_in}")
        expect(all(k.startswith(os.path.normpath(folder)) for k in t.removed) , "removed-elsewhere", f"{t.removed}")
        rec.hit("tile", case["tile"])
        rec.hit("aggregate", f > 1)
        rec.hit("gap outside the glacier", hit is False)
        rec.nontrivial(bool(ice.any()) and not bool(ice.all()) and want.shape[0] != want.shape[1])

    @st.composite
    def cases(draw):
        ny, nx = draw(st.integers(4, 16)), draw(st.integers(4, 16))
        i0, j0 = draw(st.integers(0, ny - 4)), draw(st.integers(0, nx - 4))
        return {"shape": [ny, nx], "box": [i0, draw(st.integers(i0 + 4, ny)), j0, draw(st.integers(j0 + 4, nx))], "tile": draw(st.booleans()),
                "factor": draw(st.sampled_from([1, 1, 2, 3])), "seed": draw(st.integers(0, 2**31)), "ice": draw(st.sampled_from([0.2, 0.5, 0.9])),
                "gap": draw(st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["slope", "aspect"]), st.integers(0, 15), st.integers(0, 15))))}

    return [Search("static", cases(), oracle, "glacier and bare ground on a grid that is not square", quick=300, thorough=10000, cap_quick=25.0)]
