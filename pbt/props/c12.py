"""C12 derived layer and column quantities."""
import math

from hypothesis import strategies as st

from pbt import common, ref
from pbt.engine import Search, expect

ID = "C12"
LEVEL = "exploration"
VARIANTS = {"bulk": {"shards": {"thorough": 2}},
            "empirical": {"constants": {"thermal_conductivity_method": "empirical"}, "shards": {"thorough": 2}}}
ASSUMPTIONS = ["ice fraction 0.05-1, ice + water <= 1"]


def searches(variant):
    c = common.consts()
    import numpy as np
    from cosipy.cpkernel.node import Node

    def check_layer(n, x, k):
        """n: a dict of what the code reports for layer k in state x"""
        want = dict(height=x[0], temperature=x[1], liquid_water_content=x[2], ice_fraction=x[3],
                    density=common.density(x, c), porosity=1 - x[2] - x[3], specific_heat=ref.spec_heat(x, c),
                    irreducible_water_content=ref.irreducible(x[3]), cold_content=ref.cold_content(x, c),
                    thermal_conductivity=ref.conductivity(x, c), thermal_diffusivity=ref.diffusivity(x, c))
        for name, v in want.items():
            expect(common.close(n[name], v, 1e-9, 1e-9), f"reference:{name}", f"layer {k} {x}: {n[name]} expected {v}")

    names = ["height", "temperature", "liquid_water_content", "ice_fraction", "density", "porosity", "specific_heat",
             "irreducible_water_content", "cold_content", "thermal_conductivity", "thermal_diffusivity"]

    def column(case, rec):
        col = case["col"]
        g = common.make_grid(col, case["fresh"])
        s = common.state(g)
        expect(s == [[float(v) for v in x] for x in col], "state-round-trip", lambda: f"{col} -> {s}")
        prof = {n: [float(v) for v in getattr(g, f"get_{n}")()] for n in names}
        for n in names:
            expect(len(prof[n]) == len(col), "profile-length", n)
        for k, x in enumerate(col):
            node = {n: float(getattr(g, f"get_node_{n}")(k)) for n in names}
            for n in names:
                expect(node[n] == prof[n][k], "node-vs-profile", f"{n} of layer {k}: {node[n]} vs {prof[n][k]}")
            check_layer(node, x, k)
        z = [float(v) for v in g.get_depth()]
        top = 0.0
        for k, x in enumerate(col):
            expect(common.close(z[k], top + x[0] / 2, 1e-9), "depth", f"layer {k}: {z[k]} expected {top + x[0] / 2}")
            expect(common.close(g.get_node_depth(k), z[k], 1e-9), "node-depth", f"layer {k}")
            top += x[0]
        snow = [x for x in col if ref.is_snow(x, c)]
        icel = [x for x in col if not ref.is_snow(x, c)]
        expect(g.get_number_layers() == len(col), "number-of-layers", "")
        expect(g.get_number_snow_layers() == len(snow), "number-of-snow-layers", f"{g.get_number_snow_layers()} vs {len(snow)}")
        expect([float(v) for v in g.get_snow_heights()] == [x[0] for x in snow], "snow-heights", lambda: f"{g.get_snow_heights()} {snow}")
        expect([float(v) for v in g.get_ice_heights()] == [x[0] for x in icel], "ice-heights", "")
        expect(common.close(g.get_total_snowheight(), math.fsum(x[0] for x in snow), 1e-9), "total-snow-height", "")
        expect(common.close(g.get_total_height(), math.fsum(x[0] for x in col), 1e-9), "total-height", "")
        expect([float(v) for v in g.get_fresh_snow_props()] == case["fresh"], "fresh-props", "")
        expect(common.state(g) == s, "getter-changes-state", "")
        rec.hit("ice above snow", any(not ref.is_snow(x, c) and any(ref.is_snow(y, c) for y in col[k + 1:]) for k, x in enumerate(col)))
        rec.hit("wet", any(x[2] > 0 for x in col))
        for lim, tag in ((0.23, "0.23"), (0.812, "0.812")):
            rec.hit("ice fraction at " + tag, any(abs(x[3] - lim) < 1e-3 for x in col))
        rec.nontrivial(len(col) >= 3 and len(snow) >= 1 and len(icel) >= 1)

    def setters(case, rec):
        """Setting one thing of one layer changes that and nothing else."""
        g = common.make_grid(case["col"], case["fresh"])
        m = common.state(g)
        r = [0.0] * len(m)
        for what, k, v in case["ops"]:
            k %= len(m)
            h = 0.001 + v
            t = 220 + 50 * v
            i = 0.05 + 0.9 * v
            w = (1 - m[k][3]) * v
            if what == "height":
                g.set_node_height(k, h)
                m[k][0] = h
            elif what == "temperature":
                g.set_node_temperature(k, t)
                m[k][1] = t
            elif what == "lwc":
                g.set_node_liquid_water_content(k, w)
                m[k][2] = w
            elif what == "ice":
                g.set_node_ice_fraction(k, i)
                m[k][3] = i
            elif what == "refreeze":
                g.set_node_refreeze(k, v)
                r[k] = v
            else:
                arr = [v * (j + 1) / len(m) + 0.01 for j in range(len(m))]
                getattr(g, f"set_{what[4:]}")(np.array(arr))
                if what == "all:refreeze":
                    r = arr
                else:
                    for x, val in zip(m, arr):
                        x[{"all:height": 0, "all:temperature": 1, "all:liquid_water_content": 2, "all:ice_fraction": 3}[what]] = val
            d = common.same_state(common.state(g), m, 0, 0)
            expect(d is None, "setter", f"{what} on layer {k}: {d}")
            expect([float(x) for x in g.get_refreeze()] == r and float(g.get_node_refreeze(k)) == r[k], "refreeze-setter", "")
        rec.nontrivial(len(m) >= 2 and len({o[0] for o in case["ops"]}) >= 3)

    def density_in(case, rec):
        """A layer created from a dry density reports that density."""
        rho, lwc = case["rho"], case["lwc"]
        n = Node(case["h"], rho, case["t"], lwc, None)
        want = ref.icf_from_density(rho, c)
        expect(common.close(n.get_layer_ice_fraction(), want, 1e-9), "ice-fraction-from-density", f"{rho}: {n.get_layer_ice_fraction()} expected {want}")
        if lwc == 0.0:
            expect(common.close(n.get_layer_density(), rho, 2e-4), "density-round-trip", f"{rho} -> {n.get_layer_density()}")
        g = common.make_grid([[case["h"], case["t"], lwc, None]] * 2, None, rho=[rho, rho])
        expect(common.close(g.get_node_ice_fraction(1), want, 1e-9), "ice-fraction-from-density-grid", "")
        m = Node(case["h"], rho, case["t"], lwc, 0.37)
        expect(m.get_layer_ice_fraction() == 0.37, "given-ice-fraction-ignored", "")
        expect(m.get_layer_refreeze() == 0.0, "refreeze-not-zero", "")
        rec.nontrivial(60 < rho < 900)

    kinds = ["height", "temperature", "lwc", "ice", "refreeze", "all:height", "all:temperature",
             "all:liquid_water_content", "all:ice_fraction", "all:refreeze"]
    return [
        Search("column", st.fixed_dictionaries({"col": common.columns(1, 8, hlo=0.001, hhi=3.0), "fresh": common.fresh_props().map(list)}),
               column, "at least 3 layers, both snow and ice", quick=700, thorough=20000),
        Search("setters", st.fixed_dictionaries({"col": common.columns(1, 5), "fresh": common.fresh_props().map(list),
                                                 "ops": st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 9), common.fl(0, 1)).map(list), max_size=12)}),
               setters, "at least 2 layers and 3 kinds of setter", quick=250, thorough=6000),
        Search("density", st.fixed_dictionaries({"h": common.height(), "rho": common.fl(50, 917), "t": common.temp(),
                                                 "lwc": st.one_of(st.just(0.0), common.fl(0, 0.05))}),
               density_in, "density between 60 and 900", quick=250, thorough=5000)]
