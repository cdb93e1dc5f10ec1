"""C16 penetrating shortwave radiation and subsurface melt."""
import math

from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C16"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 4}}}
ASSUMPTIONS = ["net shortwave 0.1-1400 W m-2, steps of 10 min - 3 h, layers >= 2 mm; whole layers melt away (more than 160 K "
               "of radiative warming) only in the search that takes steps of half a day and a day"]


def searches(variant):
    from hypothesis import assume

    from cosipy.modules.penetratingRadiation import penetrating_radiation
    c = common.consts()
    tm = c["zero_temperature"]

    def oracle(case, rec):
        g = common.make_grid(case["col"], case["fresh"])
        b = common.state(g)
        want, want_melt, want_si, gone = ref.penetrate(b, case["sw"], case["dt"], c)
        assume(not gone)
        melt, si = penetrating_radiation(g, case["sw"], case["dt"])
        melt, si = float(melt), float(si)
        a = common.state(g)
        expect(len(a) == len(b), "layer-count", f"{len(b)} -> {len(a)}")
        share = 0.1 if common.density(b[0], c) <= c["snow_ice_threshold"] else 0.2
        expect(common.close(si, share * case["sw"], 1e-12), "absorbed-share", f"{si} of {case['sw']}, expected {share}")
        expect(melt >= 0, "negative-melt", f"{melt}")
        expect(common.close(common.swe(b, c), common.swe(a, c), 1e-10), "mass-not-conserved",
               lambda: f"{common.swe(b, c)!r} -> {common.swe(a, c)!r}")
        lost = (common.ice(b) - common.ice(a)) * c["ice_density"] / c["water_density"]
        expect(common.close(melt, lost, 1e-6, 1e-12), "melt-is-not-the-ice-lost", f"reported {melt!r}, ice lost {lost!r}")
        gained = common.water(a) - common.water(b)
        expect(common.close(melt, gained, 1e-6, 1e-12), "melt-is-not-the-water-gained", f"{melt!r} vs {gained!r}")
        energy = 0.0
        for k, (x, y) in enumerate(zip(b, a)):
            expect(y[1] >= x[1] - 1e-9, "cools", f"layer {k}: {x} -> {y}")
            expect(y[1] <= tm + 1e-9 and y[0] <= x[0] + 1e-15 and y[2] >= x[2] - 1e-15, "wrong-direction",
                   f"layer {k}: {x} -> {y}")
            expect(y[0] == x[0] or y[1] >= tm - 1e-9, "melts-below-melting-point", f"layer {k}: {x} -> {y}")
            expect(y[3] == x[3], "ice-fraction", f"layer {k}: {x} -> {y}")
            energy += (y[1] - x[1]) * common.density(x, c) * c["spec_heat_ice"] * x[0]
        expect(a[-1] == b[-1], "bottom-layer-touched", "")
        # warming alone never takes more than what was absorbed
        expect(energy <= si * case["dt"] * (1 + 1e-9) + 1e-6, "energy-created", f"{energy} from {si * case['dt']}")
        d = common.same_state(a, want, 1e-9)
        expect(d is None, "reference", d)
        expect(common.close(melt, want_melt, 1e-6, 1e-12), "reference-melt", f"{melt} expected {want_melt}")
        expect(tuple(g.get_fresh_snow_props()) == tuple(case["fresh"]), "fresh-snow-props", "")
        rec.hit("ice surface", share == 0.2)
        rec.hit("melt", melt > 0)
        rec.hit("melt below the top layer", any(y[0] < x[0] for x, y in list(zip(b, a))[1:]))
        rec.nontrivial(len(b) >= 3 and any(y[1] - x[1] > 1e-4 for x, y in list(zip(b, a))[1:]))

    def melted_away(case, rec):
        """Strong radiation over a whole day in thin light snow: layers vanish."""
        g = common.make_grid(case["col"])
        b = common.state(g)
        want, want_melt, want_si, gone = ref.penetrate(b, case["sw"], case["dt"], c)
        # the share of a layer's ice that melts is decided by the last digits only at the very edge
        edge = ref.penetrate(b, case["sw"] * (1 + 1e-9), case["dt"], c)[3] != ref.penetrate(b, case["sw"] * (1 - 1e-9), case["dt"], c)[3]
        assume(not edge)
        melt, si = penetrating_radiation(g, case["sw"], case["dt"])
        a = common.state(g)
        expect(common.close(float(si), want_si, 1e-12), "absorbed-share", f"{si}")
        kept = [x for k, x in enumerate(b) if k not in gone]
        expect(len(a) == len(kept), "melted-layers-remain", f"{len(b)} -> {len(a)}, {gone} melt away")
        for x, y, w in zip(kept, a, want):
            expect(y[3] == x[3] and common.close(y[0], w[0], 1e-9) and common.close(y[1], w[1], 1e-9) and common.close(y[2], w[2], 1e-9), "layers-left", f"{x} -> {y}, expected {w}")
        rec.hit("several layers melt away", len(gone) > 1)
        rec.hit("a layer above stays", bool(gone) and gone[0] > 0)
        rec.nontrivial(bool(gone))
        expect(common.close(float(melt), want_melt, 1e-6, 1e-12), "reference-melt", f"{melt} expected {want_melt}")
        if gone:
            lost = (common.ice(b) - common.ice(a)) * c["ice_density"] / c["water_density"]
            expect(common.close(float(melt), lost, 1e-6, 1e-12), "melted-away:melt", f"reported {float(melt)}, ice lost {lost}")
            expect(common.close(common.swe(b, c), common.swe(a, c), 1e-9), "melted-away:mass", f"{common.swe(b, c)} -> {common.swe(a, c)}")

    thin = st.tuples(st.lists(common.layer("snow", True, 0.001, 0.05, 255.0).map(lambda x: [x[0], x[1], x[2], min(x[3], 0.3)]), min_size=1, max_size=6),
                     st.lists(common.layer("ice", False), min_size=1, max_size=3)).map(lambda t: t[0] + t[1])
    away = st.fixed_dictionaries({"col": thin, "sw": common.fl(100.0, 900.0), "dt": st.sampled_from([86400, 43200, 86400])})
    col = st.one_of(common.columns(1, 8, hlo=0.002, hhi=1.0, tlo=240.0),
                    common.columns(2, 10, hlo=0.005, hhi=0.3, tlo=271.0))
    case = st.fixed_dictionaries({
        "col": col, "sw": st.one_of(common.fl(0.1, 1400.0), common.fl(300.0, 1400.0)),
        "dt": st.sampled_from([3600, 3600, 600, 10800]), "fresh": common.fresh_props().map(list)})
    return [Search("melted-away", away, melted_away, "at least one layer melts away", quick=300, thorough=8000),
            Search("absorption", case, oracle, "at least 3 layers, some layer below the top one warms",
                   quick=1500, thorough=40000)]
