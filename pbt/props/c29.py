"""C29 solar position, and the correction of measured radiation for slope and aspect."""
import math

from hypothesis import strategies as st

from pbt import common
from pbt.engine import Search, expect

ID = "C29"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 2}}}
ASSUMPTIONS = ["latitudes between 66 S and 66 N, the clock of a zone meridian up to half a day away",
               "solar position compared with the series of Spencer (1971), to 1.2 degrees",
               "slopes up to 60 degrees; aspect south 0, east negative, west positive"]
P4 = 0.2465


def sun(lat, lon, tz, day, hour):
    """Unit vector to the sun (south, west, up)."""
    g = 2 * math.pi * (day - 1 + hour / 24 - 0.5) / 365.0
    dec = (0.006918 - 0.399912 * math.cos(g) + 0.070257 * math.sin(g) - 0.006758 * math.cos(2 * g) + 0.000907 * math.sin(2 * g)
           - 0.002697 * math.cos(3 * g) + 0.00148 * math.sin(3 * g))
    eot = 229.18 * (0.000075 + 0.001868 * math.cos(g) - 0.032077 * math.sin(g) - 0.014615 * math.cos(2 * g) - 0.040849 * math.sin(2 * g))
    ha = math.radians(15.0 * (hour - 12.0) + (lon - tz) + eot / 4.0)
    f = math.radians(lat)
    up = math.sin(f) * math.sin(dec) + math.cos(f) * math.cos(dec) * math.cos(ha)
    south = math.sin(f) * math.cos(dec) * math.cos(ha) - math.cos(f) * math.sin(dec)
    west = math.cos(dec) * math.sin(ha)
    return south, west, up


def diffuse_fraction(doy, zeni, rg):
    so = 1367.0 * (1 + 0.033 * math.cos(2.0 * math.pi * doy / 366.0)) * math.cos(zeni)
    ci = rg / so
    return P4 if ci > 50 else math.exp(-math.exp(0.1001 - (4.7930 - 9.4758 * ci))) * (1 - P4) + P4


def corrected(doy, zeni, azi, slope, aspect, rm, thld):
    fd = 1.0 if zeni > math.radians(thld) else diffuse_fraction(doy, zeni, rm)
    s, a = math.radians(slope), math.radians(aspect)
    inc = math.cos(zeni) * math.cos(s) + math.sin(zeni) * math.sin(s) * math.cos(azi - a)
    return rm * fd + rm * (1 - fd) * max(0.0, inc) / math.cos(zeni), rm * fd, inc


def searches(variant):
    from cosipy.modules.radCor import Fdif_Neustift, correctRadiation, radCor2D, solarFParallel

    def position(case, rec):
        beta, zeni, azi = solarFParallel(case["lat"], case["tz"] + case["off"], case["tz"], case["day"], case["hour"])
        expect(abs(beta + zeni - math.pi / 2) < 1e-12, "zenith-elevation", f"{beta} {zeni}")
        expect(-math.pi - 1e-9 <= azi <= math.pi + 1e-9, "azimuth-range", f"{azi}")
        got = (math.cos(beta) * math.cos(azi), math.cos(beta) * math.sin(azi), math.sin(beta))
        want = sun(case["lat"], case["tz"] + case["off"], case["tz"], case["day"], case["hour"])
        ang = math.degrees(math.acos(max(-1.0, min(1.0, sum(a * b for a, b in zip(got, want))))))
        expect(ang < 1.2, "solar-position", f"{ang:.2f} degrees from where the sun is: elevation {math.degrees(beta):.2f}, "
               f"azimuth {math.degrees(azi):.2f}; expected elevation {math.degrees(math.asin(want[2])):.2f}, "
               f"azimuth {math.degrees(math.atan2(want[1], want[0])):.2f}")
        # the clock of another meridian, the same moment
        h2 = case["hour"] + case["shift"]
        if 0 <= h2 < 24:
            b2, _, a2 = solarFParallel(case["lat"], case["tz"] + case["off"], case["tz"] + 15.0 * case["shift"], case["day"], h2)
            got2 = (math.cos(b2) * math.cos(a2), math.cos(b2) * math.sin(a2), math.sin(b2))
            d = math.degrees(math.acos(max(-1.0, min(1.0, sum(a * b for a, b in zip(got, got2))))))
            expect(d < 0.01, "zone-independence", f"{d}")
        rec.hit("day", beta > 0)
        rec.hit("morning", azi < 0)
        rec.nontrivial(beta > 0.05 and abs(case["off"]) > 5)

    def slope(case, rec):
        z, az = math.radians(case["zen"]), math.radians(case["azi"])
        args = (case["doy"], z, az, case["slope"], case["aspect"], case["rm"], case["thld"])
        got = float(radCor2D(*args))
        want, diffuse, inc = corrected(*args)
        expect(common.close(got, want, 1e-9, 1e-9), "slope-correction", f"{got}, expected {want}")
        expect(got >= diffuse - 1e-9 and got >= 0, "diffuse-kept", f"{got} below the diffuse part {diffuse}")
        flat = float(radCor2D(case["doy"], z, az, 0.0, case["aspect"], case["rm"], case["thld"]))
        expect(common.close(flat, case["rm"], 1e-9, 1e-9), "flat-unchanged", f"{flat} measured {case['rm']}")
        if case["zen"] > case["thld"]:
            expect(common.close(got, case["rm"], 1e-12, 1e-12), "low-sun-unchanged", f"{got}")
        if case["zen"] < 89.9:
            fd = float(Fdif_Neustift(case["doy"], z, case["rm"]))
            brighter = float(Fdif_Neustift(case["doy"], z, case["rm"] + 50.0))
            expect(P4 - 1e-12 <= fd <= 1 + 1e-12 and brighter <= fd + 1e-12, "diffuse-fraction", f"{fd} {brighter}")
        rec.hit("own shade", inc < 0)
        rec.hit("low sun", case["zen"] > case["thld"])
        rec.nontrivial(case["slope"] > 3 and case["rm"] > 20 and case["zen"] < case["thld"] and abs(got - case["rm"]) > 1)

    def composed(case, rec):
        lon = case["tz"] + case["off"]
        _, zeni, azi = solarFParallel(case["lat"], lon, case["tz"], case["day"], case["hour"])
        got = float(correctRadiation(case["lat"], lon, case["tz"], case["day"], case["hour"], case["slope"], case["aspect"], case["rm"],
                                     case["thld"]))
        want = corrected(case["day"], zeni, azi, case["slope"], case["aspect"], case["rm"], case["thld"])[0]
        expect(common.close(got, want, 1e-9, 1e-9), "corrected-radiation", f"{got} expected {want}")
        if case["rm"] == 0:
            expect(got == 0, "dark", f"{got}")
        rec.nontrivial(math.degrees(zeni) < case["thld"] and case["rm"] > 20 and case["slope"] > 3)

    when = {"lat": common.fl(-66, 66), "tz": st.sampled_from([-75.0, 0.0, 15.0, 90.0, 120.0]),
            "off": st.one_of(common.fl(-20, 20), common.fl(-180, 180)), "day": st.integers(1, 366),
            "hour": st.one_of(st.integers(0, 23).map(float), common.fl(0, 23.99))}
    ground = {"slope": st.one_of(common.fl(0, 60), common.fl(3, 45)), "aspect": common.fl(-180, 180),
              "rm": st.one_of(common.fl(0, 1400), st.just(0.0), common.fl(50, 900)), "thld": st.sampled_from([75.0, 80.0, 85.0, 89.0])}
    return [Search("position", st.fixed_dictionaries(dict(when, shift=st.integers(-11, 11))), position,
                   "the sun is up, more than 5 degrees off the zone's meridian", quick=3000, thorough=200000, cap_quick=20.0),
            Search("slope", st.fixed_dictionaries(dict(ground, zen=st.one_of(common.fl(0.0, 89.5), common.fl(0, 70)), azi=common.fl(-180, 180),
                                                       doy=st.integers(1, 366))), slope,
                   "a slope of more than 3 degrees, direct sun, and a correction above 1 W", quick=3000, thorough=200000, cap_quick=20.0),
            Search("composed", st.fixed_dictionaries(dict(when, **ground)), composed, "direct sun on a slope", quick=2000, thorough=100000,
                   cap_quick=20.0)]
