"""C30 shading by the terrain, sky view, and modelled short-wave radiation."""
import math

from hypothesis import strategies as st

from pbt import common
from pbt.engine import Search, expect

ID = "C30"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 3}}}
ASSUMPTIONS = ["grids of 9-15 cells a side, equally spaced in degrees, north first, as the converter passes them; glacier cells at least "
               "three cells from the edge", "the sun's elevation is not within the uncertainty of one cell of the horizon's",
               "latitudes between 50 S and 50 N, time corrections within 20 degrees, steps of 1, 3 or 6 hours"]
R = 6371000.0


def dist(lat1, lon1, lat2, lon2):
    a, b = math.radians(lat1), math.radians(lat2)
    h = math.sin((b - a) / 2) ** 2 + math.cos(a) * math.cos(b) * math.sin(math.radians(lon2 - lon1) / 2) ** 2
    return 2 * R * math.asin(math.sqrt(h))


def sun(lat, dec, stime):
    """Unit vector (south, west, up); stime is positive in the morning."""
    f, ha = math.radians(lat), -math.radians(stime)
    return (math.sin(f) * math.cos(dec) * math.cos(ha) - math.cos(f) * math.sin(dec), math.cos(dec) * math.sin(ha),
            math.sin(f) * math.sin(dec) + math.cos(f) * math.cos(dec) * math.cos(ha))


def normal(slope, aspect):
    """Of a slope facing `aspect` degrees from north, clockwise: (south, west, up)."""
    s, a = math.radians(slope), math.radians(aspect)
    return -math.sin(s) * math.cos(a), -math.sin(s) * math.sin(a), math.cos(s)


def all_sky(dec, ecc, tcorr, hour, lat, t, p, rh, cld, z, slope, aspect, illu, svf, step, tcart):
    """The radiation of one cell, Moelg et al. (2009)."""
    import metpy.calc
    from metpy.units import units
    s = sun(lat, dec, 180 + step / 3600 * 7.5 - hour * 15 - tcorr + tcart)
    up = s[2]
    if up <= 0.01:
        return 0.0, up
    mix = metpy.calc.mixing_ratio_from_relative_humidity(pressure=p * units.hPa, temperature=t * units.kelvin,
                                                         relative_humidity=rh / 100 * units.dimensionless)
    e = float(metpy.calc.vapor_pressure(p * units.hPa, mix).to("hPa").magnitude)
    m = 35 / math.sqrt(1224 * up ** 2 + 1)
    pm = p / 1013.25 * m
    tr = math.exp(-0.0903 * pm ** 0.84 * (1 + pm - pm ** 1.01))
    tg = math.exp(-0.0127 * m ** 0.26)
    ta = min(1.0, 2.4845e-5 * z + 0.87764) ** m
    taa = 1 - 0.1 * (1 - pm + pm ** 1.06) * (1 - ta)
    w = m * 46.5 * e / t
    tw = 1 - 2.4959 * w / ((1 + 79.034 * w) ** 0.6828 + 6.385 * w)
    top = 1367 * ecc
    sdir = top * up * tr * tg * ta * tw
    dcs = 0.66 * top * up * tg * tw * taa * (1 - tr * ta / taa) / (1 - pm + pm ** 1.02)
    inc = sum(a * b for a, b in zip(s, normal(slope, aspect)))
    direct = 0.0 if illu == 0 else top * max(0.0, inc) * tr * tg * ta * tw
    diffuse = (sdir + dcs) * ((100 - 65 - 4.6) / 100 * cld + 0.046) * svf if cld > 0 else dcs * svf
    return direct * (1 - cld) + diffuse, up


def searches(variant):
    import numpy as np
    from cosipy.modules.radCor import LUTshad, LUTsvf, calcRad, relshad, solpars

    def field(case):
        """Terrain with walls on some sides of the middle."""
        n, d = case["n"], case["d"]
        lats = case["lat"] + d * np.arange(n)[::-1]
        lons = case["lon"] + d * np.arange(n)
        rng = np.random.default_rng(case["seed"])
        z = case["base"] + case["rough"] * d * rng.random((n, n))
        band = {"N": np.s_[1:3, :], "S": np.s_[n - 3:n - 1, :], "W": np.s_[:, 1:3], "E": np.s_[:, n - 3:n - 1]}
        for s in case["walls"]:
            z[band[s]] += case["wall"]
        mask = np.zeros((n, n))
        inner = range(4, n - 4)
        for k in case["cells"]:
            mask[4 + k % len(inner), 4 + (k // 7) % len(inner)] = 1
        return lats, lons, z, mask

    HIT = {0: "N", 90: "E", 180: "S", 270: "W", 45: "NE", 135: "SE", 225: "SW", 315: "NW"}

    def bounds(case, lats, lons, z, i, j, sides):
        """Smallest and largest angle under which the walls of these sides can appear."""
        n, d = case["n"], case["d"]
        lo, hi = 90.0, 0.0
        h1 = case["wall"] - case["rough"] * d
        h2 = case["wall"] + case["rough"] * d
        for s in sides:
            k = {"N": i - 2, "S": n - 3 - i, "W": j - 2, "E": n - 3 - j}[s]
            c = math.cos(math.radians(abs(lats[i]) + 1))
            near = (k - 1.5) * d * 111195 * c
            far = (k + 2.5) * d * 111195 * (1.6 if len(sides) > 1 else 1.0)
            lo, hi = min(lo, math.degrees(math.atan(h1 / far))), max(hi, math.degrees(math.atan(h2 / max(near, 1.0))))
        return lo, hi

    def shading(case, rec):
        lats, lons, z, mask = field(case)
        z0, m0 = z.copy(), mask.copy()
        illu = relshad(z, mask, lats, lons, case["sunh"], float(case["dir"]))
        expect(np.array_equal(z, z0) and np.array_equal(mask, m0), "inputs-changed", "")
        expect(illu.shape == z.shape and np.isnan(illu[mask != 1]).all(), "outside-untouched", "")
        expect(np.isin(illu[mask == 1], [0.0, 1.0]).all(), "shade-values", "")
        sides = HIT[case["dir"]]
        there = [s for s in sides if s in case["walls"]]
        noise = math.degrees(math.atan(case["rough"] * case["d"] / (case["d"] * 111195 * 0.3)))
        for i, j in zip(*np.nonzero(mask)):
            lo, hi = bounds(case, lats, lons, z, i, j, list(sides))
            if len(there) == len(sides) and case["sunh"] < lo - 0.5:
                expect(illu[i, j] == 0, "behind-wall-shaded", f"cell {i},{j}: sun {case['sunh']} at {case['dir']}, wall above {lo:.1f} degrees")
                rec.hit("shaded")
            elif (not there and case["sunh"] > noise + 0.5) or (case["sunh"] > max(hi, noise) + 0.5):
                expect(illu[i, j] == 1, "clear-view-lit", f"cell {i},{j}: sun {case['sunh']} at {case['dir']}, walls {case['walls']}")
                rec.hit("lit")
                rec.hit("lit over a wall", bool(there))
        # a higher sun never puts a cell into the shade
        higher = relshad(z, mask, lats, lons, case["sunh"] + case["more"], float(case["dir"]))
        expect((higher[mask == 1] >= illu[mask == 1]).all(), "higher-sun-darker", "")
        # nor does lower ground around it
        lower = np.where(mask == 1, z, z - case["wall"] * np.random.default_rng(case["seed"] + 1).random(z.shape))
        flat = relshad(lower, mask, lats, lons, case["sunh"], float(case["dir"])) if mask.sum() == 1 else None
        if flat is not None:
            expect((flat[mask == 1] >= illu[mask == 1]).all(), "lower-ground-darker", "")
        rec.nontrivial(bool(there) and (illu[mask == 1] == 0).any())

    def sky_view(case, rec):
        lats, lons, z, mask = field(case)
        k = int(case["cells"][0])
        slope, aspect = np.full(z.shape, case["slope"]), np.full(z.shape, case["aspect"])
        v = LUTsvf(z, mask, slope, aspect, lats, lons)
        expect(np.isnan(v[mask != 1]).all(), "svf-outside", "")
        sel = v[mask == 1]
        expect((sel > 0).all() and (sel <= 1 + 1e-12).all(), "svf-range", f"{sel}")
        if case["rough"] < 500 and not case["walls"]:
            # only the lowest degrees can be hidden
            dirs = np.radians(np.arange(10, 370, 10))[:, None]
            els = np.radians(np.arange(2, 90, 2))[None, :]
            s, a = math.radians(case["slope"]), math.radians(case["aspect"])
            want = float(((np.cos(els) * math.sin(s) * np.cos(a - dirs) + np.sin(els) * math.cos(s)) > 0).mean())
            expect((np.abs(sel - want) < 1e-9 + 36 / 1584 * bool(case["rough"] > 100)).all(), "svf-open", f"{sel} expected {want}")
        z2 = z.copy()
        z2[1:3, :] += 3000.0
        v2 = LUTsvf(z2, mask, slope, aspect, lats, lons)[mask == 1]
        expect((v2 <= sel + 1e-12).all(), "svf-wall-opens-sky", f"{sel} -> {v2}")
        if case["slope"] < 20:
            expect((v2 < sel).all(), "svf-wall-unseen", f"{sel} -> {v2}")
        rec.hit("walls", bool(case["walls"]))
        rec.nontrivial(case["slope"] > 5 or bool(case["walls"]))
        del k

    def tables(case, rec):
        lats, lons, z, mask = field(case)
        sp, tc = solpars(case["alat"])
        step = case["step"]
        lut = LUTshad(sp, tc, case["alat"], z, mask, lats, lons, step, case["tcart"])
        per = 86400 // step
        expect(lut.shape == (366 * per, case["n"], case["n"]), "table-shape", f"{lut.shape}")
        rng = np.random.default_rng(case["seed"])
        seen = set()
        for day in sorted(rng.choice(366, 25, replace=False)):
            for k in range(per):
                row = lut[day * per + k]
                expect(np.isnan(row[mask != 1]).all() and not np.isnan(row[mask == 1]).any(), "table-mask", "")
                s = sun(case["alat"], sp[day, 3], 180 + step / 3600 * 7.5 - k * step / 240.0 - tc[day, 3] + case["tcart"])
                if abs(s[2] - 0.01) < 1e-6 or abs(s[2]) > 0.9999:
                    continue
                if s[2] < 0.01:
                    expect((row[mask == 1] == -1).all(), "table-night", f"day {day} step {k}")
                    seen.add("night")
                    continue
                h, az = math.degrees(math.asin(s[2])), (180 + math.degrees(math.atan2(s[1], s[0]))) % 360
                ways = [relshad(z, mask, lats, lons, h + dh, az + da)[mask == 1] for dh, da in ((0, 0), (0.1, 0.1), (-0.1, -0.1))]
                if all((w == ways[0]).all() for w in ways[1:]):
                    expect((row[mask == 1] == ways[0]).all(), "table-entry", f"day {day} step {k}: sun {h:.1f} at {az:.1f}, "
                           f"{row[mask == 1]} expected {ways[0]}")
                    seen.add("shaded" if (ways[0] == 0).any() else "lit")
        for x in seen:
            rec.hit(x)
        rec.nontrivial("shaded" in seen and "lit" in seen)

    def radiation(case, rec):
        ny, nx = case["shape"]
        rng = np.random.default_rng(case["seed"])

        def f(lo, hi):
            return lo + (hi - lo) * rng.random((ny, nx))
        t, p, rh, z = f(240, 290), f(450, 1000), f(5, 100), f(0, 6500)
        cld = np.where(rng.random((ny, nx)) < 0.3, 0.0, rng.choice([0.3, 0.7, 1.0], (ny, nx))) * (1 if case["clouds"] else 0)
        slope, aspect, svf = f(0, 50), f(0, 360), f(0.3, 1.0)
        slope[rng.random((ny, nx)) < 0.2] = 0.0
        mask = np.ones((ny, nx))
        mask[rng.random((ny, nx)) < case["out"]] = np.nan
        sp, tc = solpars(case["alat"])
        per = 86400 // case["step"]
        lut = np.full((366 * per, ny, nx), 7.0)
        k = (case["doy"] - 1) * per + case["slot"]
        lut[k] = rng.choice([0.0, 1.0], (ny, nx))
        hour = case["slot"] * case["step"] // 3600
        got = calcRad(sp, tc, case["doy"], hour, case["alat"], t, p, rh, cld, z, mask, slope, aspect, lut, svf, case["step"], case["tcart"])
        got = got[::-1]  # comes back south first
        up = None
        for i in range(ny):
            for j in range(nx):
                want, up = all_sky(sp[case["doy"] - 1, 3], sp[case["doy"] - 1, 2], tc[case["doy"] - 1, 3], hour, case["alat"], t[i, j], p[i, j],
                                   rh[i, j], cld[i, j], z[i, j], slope[i, j], aspect[i, j], lut[k, i, j], svf[i, j], case["step"], case["tcart"])
                if abs(up - 0.01) < 1e-6:
                    return
                if up < 0.01 and mask[i, j] != 1:
                    expect(math.isnan(got[i, j]), "night-outside", "")
                    continue
                expect(common.close(got[i, j], want, 1e-7, 1e-9), "all-sky", f"cell {i},{j}: {got[i, j]} expected {want} "
                       f"(sun {math.degrees(math.asin(up)):.1f}, slope {slope[i, j]:.0f}, aspect {aspect[i, j]:.0f}, clouds {cld[i, j]}, "
                       f"lit {lut[k, i, j]})")
                expect(got[i, j] >= 0, "negative", f"{got[i, j]}")
        rec.hit("night", up < 0.01)
        rec.hit("morning" if hour < 12 else "afternoon", up > 0.01)
        rec.nontrivial(up > 0.05)

    def declination(case, rec):
        """The tables by day of the year."""
        sp, tc = solpars(case["lat"])
        for j in range(365):
            dec, eot = math.degrees(sp[j, 3]), tc[j, 3]
            want = 23.45 * math.sin(2 * math.pi * (284 + j + 1) / 365)
            b = 2 * math.pi * (j + 1 - 81) / 364
            minutes = 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
            expect(abs(dec - want) < 1.6 and common.close(sp[j, 4], dec, 1e-9), "declination", f"day {j + 1}: {dec} expected about {want}")
            expect(abs(eot - minutes / 4) < 0.6, "time-correction", f"day {j + 1}: {eot} expected about {minutes / 4}")
            r = 1 + 0.0334 * math.cos(2 * math.pi * (j + 1 - 3) / 365.25)
            expect(abs(sp[j, 2] - r) < 0.004, "eccentricity", f"day {j + 1}: {sp[j, 2]}")
            half = math.degrees(math.acos(-math.tan(math.radians(case["lat"])) * math.tan(sp[j, 3])))
            expect(common.close(sp[j, 5], half, 1e-9) and common.close(sp[j, 6], half / 7.5, 1e-9), "day-length", f"day {j + 1}")
        expect((sp[365] == sp[364]).all() and (tc[365] == tc[364]).all(), "leap-day", "")
        rec.nontrivial(abs(case["lat"]) > 5)

    ground = {"n": st.integers(10, 15), "d": st.sampled_from([0.001, 0.003, 0.01]), "lat": st.one_of(common.fl(-50, 50), common.fl(-20, 20)),
              "lon": common.fl(-170, 170), "base": common.fl(0, 5000), "rough": st.sampled_from([0.0, 10.0, 1000.0]), "seed": st.integers(0, 10**6),
              "walls": st.lists(st.sampled_from("NESW"), max_size=4, unique=True).map(sorted), "wall": common.logfl(50.0, 4000.0),
              "cells": st.lists(st.integers(0, 1000), min_size=1, max_size=4)}
    look = st.fixed_dictionaries(dict(ground, dir=st.sampled_from(sorted(HIT)), sunh=st.one_of(common.fl(1.0, 85.0), common.fl(1, 25)),
                                      more=common.fl(0.0, 20.0)))
    one = dict(ground, n=st.integers(10, 12), cells=st.lists(st.integers(0, 1000), min_size=1, max_size=1))
    solar = {"alat": common.fl(-50, 50), "step": st.sampled_from([3600, 10800, 21600]), "tcart": st.one_of(st.just(0.0), common.fl(-20, 20))}
    cells = st.fixed_dictionaries(dict(solar, shape=st.tuples(st.integers(2, 4), st.integers(2, 4)).map(list), seed=st.integers(0, 10**6),
                                       clouds=st.booleans(), out=st.sampled_from([0.0, 0.3]), doy=st.integers(1, 366),
                                       hour=st.sampled_from([12, 9, 15, 10, 14, 8, 16, 7, 17, 11, 13, 18, 6, 5, 19, 20, 3, 0]))).map(
        lambda c: dict(c, slot=c["hour"] * 3600 // c["step"]))
    return [Search("shading", look, shading, "a wall in the sun's direction shades a cell", quick=600, thorough=30000, cap_quick=20.0),
            Search("radiation", cells, radiation, "the sun is up", quick=600, thorough=10000, cap_quick=20.0),
            Search("tables", st.fixed_dictionaries(dict(one, **solar, walls=st.lists(st.sampled_from("NESW"), min_size=1, max_size=3, unique=True)
                                                        .map(sorted), wall=common.logfl(100.0, 2000.0))).map(lambda c: dict(c, step=max(c["step"], 10800))),
                   tables, "the year has lit and shaded entries", quick=10, thorough=400, cap_quick=15.0),
            Search("sky-view", st.fixed_dictionaries(dict(one, slope=st.sampled_from([0.0, 3.0, 15.0, 40.0]), aspect=common.fl(0, 360))), sky_view,
                   "an inclined cell or walls around it", quick=15, thorough=500, cap_quick=12.0),
            Search("days", st.fixed_dictionaries({"lat": common.fl(-60, 60)}), declination, "off the equator", quick=20, thorough=200,
                   cap_quick=10.0)]
