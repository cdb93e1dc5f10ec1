"""C22 the initial column is the documented profile, and stored columns come back as they were."""
from hypothesis import strategies as st

from pbt import common, runs
from pbt.engine import Search, expect

ID = "C22"
LEVEL = "exploration"
VARIANTS = {
    "default": {"shards": {"thorough": 2}},
    "other": {"constants": {"initial_snowheight_constant": 0.73, "initial_glacier_height": 12.0, "initial_glacier_layer_heights": 0.25,
                            "initial_top_density_snowpack": 180.0, "initial_bottom_density_snowpack": 520.0, "temperature_bottom": 265.0},
              "shards": {"thorough": 2}},
    "bare": {"constants": {"initial_snowheight_constant": 0.0, "initial_glacier_height": 8.0, "initial_glacier_layer_heights": 0.5,
                           "temperature_bottom": 273.16}},
}
ASSUMPTIONS = ["the glacier height is a multiple of the layer height"]


def searches(variant):
    import numpy as np
    c = common.consts()
    from cosipy.cpkernel.init import init_snowpack, load_snowpack
    H, dh = c["initial_glacier_height"], c["initial_glacier_layer_heights"]
    rt, rb, tb, tm = (c[k] for k in ("initial_top_density_snowpack", "initial_bottom_density_snowpack", "temperature_bottom", "zero_temperature"))

    def initial(case, rec):
        m = dict(T2=case["T2"], RH2=70.0, U2=3.0, G=0.0, PRES=600.0, RRR=0.0, LWin=250.0)
        later = dict(m, T2=case["T2"] - 9.0)
        ds = runs.dataset([m, later], snowheight=case["sh"] if case["sh"] != "nan" else float("nan"))
        keep = ds.copy(deep=True)
        g = init_snowpack(ds)
        expect(ds.identical(keep), "forcing-modified", "")
        sh = c["initial_snowheight_constant"] if case["sh"] is None else 0.0 if case["sh"] == "nan" else case["sh"]
        s = common.state(g)
        rho = [float(x) for x in g.get_density()]
        n = int(g.get_number_layers())
        expect(n == len(s) == len(rho), "count", f"{n}")
        ng = round(H / dh)
        ns = n - ng
        lab = f"{case}: {s} {rho}"
        expect(ns == (0 if sh <= 0 else max(1, min(5, int(sh / 0.1)))), "snow-layers", lab)
        expect(common.close(sum(x[0] for x in s[:ns]), sh, 1e-12, 1e-12), "snow-height", lab)
        expect(all(common.close(x[0], sh / ns, 1e-12) for x in s[:ns]), "snow-layers-unequal", lab)
        expect(all(x[0] == dh and r == c["ice_density"] for x, r in zip(s[ns:], rho[ns:])), "glacier", lab)
        expect(all(x[2] == 0.0 for x in s), "wet", lab)
        expect(list(map(float, g.get_fresh_snow_props())) == [0.0, 0.0, 0.0], "fresh-snow", lab)
        top = min(case["T2"], tm)
        z = 0.0
        for k, x in enumerate(s):
            z += x[0]
            if ns == 1 and sh < 0.1:
                depth = z - x[0] if k == 0 else z - sh  # thin snow has the temperature of the surface throughout
            else:
                depth = z
            expect(common.close(x[1], top + (tb - top) * depth / (sh + H), 1e-9), "temperature", lambda: f"layer {k}: {x[1]} " + lab)
        if ns == 1 and sh < 0.1:
            expect(common.close(rho[0], rt, 1e-4), "snow-density", lab)
        else:
            for k in range(ns):
                expect(common.close(rho[k], rt + (rb - rt) * (k + 1) / ns, 1e-4), "snow-density", lab)
        expect(common.close(g.get_total_snowheight(), sh, 1e-9, 1e-12) if rt < c["snow_ice_threshold"] > rb else True, "total-snow-height", lab)
        expect(common.close(g.get_total_height(), sh + H, 1e-9), "total-height", lab)
        rec.hit("no snow", sh == 0)
        rec.hit("thin snow", 0 < sh < 0.1)
        rec.hit("missing snow height", case["sh"] == "nan")
        rec.hit("above melting", case["T2"] > tm)
        rec.nontrivial(ns >= 1)

    def stored(case, rec):
        fresh = case["fresh"]
        rs = runs.restart_dataset(case["col"], fresh, c, c["max_layers"], coupled=case["coupled"])
        keep = rs.copy(deep=True)
        g = load_snowpack(rs)
        s = common.state(g)
        n = len(case["col"])
        expect(int(g.get_number_layers()) == n == len(s), "count", f"{len(s)} of {n}")
        for k, (a, b) in enumerate(zip(s, case["col"])):
            expect(a == [float(v) for v in b], "layer", lambda: f"layer {k}: {a} stored {b}")
        expect([float(x) for x in g.get_fresh_snow_props()] == [float(x) for x in fresh], "fresh-snow", f"{g.get_fresh_snow_props()} {fresh}")
        g.add_fresh_snow(0.1, 200.0, 270.0, 0.0, 3600)
        g.set_node_temperature(1, 260.0)
        expect(rs.identical(keep), "stored-state-modified", "")
        rec.hit("coupled names", case["coupled"])
        rec.nontrivial(n >= 3)

    return [
        Search("initial", st.fixed_dictionaries({
            "T2": st.one_of(common.fl(240.0, 290.0), st.just(273.16)),
            "sh": st.one_of(st.none(), st.just("nan"), st.just(0.0), common.fl(0.0, 0.3), common.fl(0.0, 6.0), st.sampled_from([0.1, 0.2, 0.3, 0.5]))}),
            initial, "with a snow pack", quick=250, thorough=8000, cap_quick=30.0),
        Search("stored", st.fixed_dictionaries({"col": common.columns(1, 30), "fresh": common.fresh_props().map(list), "coupled": st.booleans()}),
               stored, "at least three layers", quick=250, thorough=8000, cap_quick=30.0)]
