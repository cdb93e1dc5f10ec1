"""C24 results land in their own cell, variable, unit and file, in whatever order the jobs finish."""
import os

from hypothesis import strategies as st

from pbt import common, driver, grids, runs
from pbt.engine import Search, expect

ID = "C24"
LEVEL = "exploration"
VARIANTS = {"default": {"shards": {"thorough": 3}}, "wrf": {"config": {"WRF": True}, "shards": {"thorough": 3}}}
ASSUMPTIONS = ["the point model is replaced by a stand-in whose results identify cell, variable, time and layer; the cluster by one that runs the jobs in process",
               "input variables share names with outputs as in the shipped configuration"]
ATM = "T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,LWout,H,LE,B,QRR,Z0,ALBEDO,TS".split(",")
INTERNAL = "ME,MB,surfMB,intMB,EVAPORATION,SUBLIMATION,CONDENSATION,DEPOSITION,surfM,subM,Q,REFREEZE,SNOWHEIGHT,TOTALHEIGHT,LAYERS,MOL".split(",")
FULL = "HEIGHT,RHO,T,LWC,CC,POROSITY,ICE_FRACTION,IRREDUCIBLE_WATER,REFREEZE".split(",")
INPUTS = ["T2", "RH2", "U2", "RRR", "N", "G", "PRES"]
W = "W m\u207b\xb2"
UNITS = dict(HGT=("m", "Elevation"), MASK=("boolean", "Glacier mask"), SLOPE=("degrees", "Terrain slope"), ASPECT=("degrees", "Aspect of slope"),
             T2=("K", "Air temperature at 2 m"), RH2=("%", "Relative humidity at 2 m"), U2=("m s\u207b\xb9", "Wind velocity at 2 m"),
             PRES=("hPa", "Atmospheric pressure"), G=(W, "Incoming shortwave radiation"), RRR=("mm", "Total precipitation"),
             N=("-", "Cloud fraction"), LWin=(W, "Incoming longwave radiation"), RAIN=("mm", "Liquid precipitation"), SNOWFALL=("m w.e.", "Snowfall"),
             LWout=(W, "Outgoing longwave radiation"), H=(W, "Sensible heat flux"), LE=(W, "Latent heat flux"), B=(W, "Ground heat flux"),
             QRR=(W, "Rain heat flux"), surfMB=("m w.e.", "Surface mass balance"), MB=("m w.e.", "Mass balance"), Q=("m w.e.", "Runoff"),
             SNOWHEIGHT=("m", "Snowheight"), TOTALHEIGHT=("m", "Total domain height"), TS=("K", "Surface temperature"), ALBEDO=("-", "Albedo"),
             LAYERS=("-", "Number of layers"), ME=(W, "Available melt energy"), intMB=("m w.e.", "Internal mass balance"),
             EVAPORATION=("m w.e.", "Evaporation"), SUBLIMATION=("m w.e.", "Sublimation"), CONDENSATION=("m w.e.", "Condensation"),
             DEPOSITION=("m w.e.", "Deposition"), REFREEZE=("m w.e.", "Refreezing"), subM=("m w.e.", "Subsurface melt"), Z0=("m", "Roughness length"),
             surfM=("m w.e.", "Surface melt"), MOL=("m", "Monin Obukhov length"), LAYER_HEIGHT=("m", "Layer height"),
             LAYER_RHO=("kg m^-3", "Layer density"), LAYER_T=("K", "Layer temperature"), LAYER_LWC=("kg m^-2", "layer liquid water content"),
             LAYER_CC=("J m^-2", "Cold content"), LAYER_POROSITY=("-", "Porosity"), LAYER_ICE_FRACTION=("-", "Layer ice fraction"),
             LAYER_IRREDUCIBLE_WATER=("-", "Irreducible water"), LAYER_REFREEZE=("m w.e.", "Refreezing"))
RES1 = ["NLAYERS", "NEWSNOWHEIGHT", "NEWSNOWTIMESTAMP", "OLDSNOWTIMESTAMP"]
RES2 = ["LAYER_HEIGHT", "LAYER_RHO", "LAYER_T", "LAYER_LWC", "LAYER_IF"]
RES_UNITS = dict(NLAYERS="-", NEWSNOWHEIGHT="m .w.e", NEWSNOWTIMESTAMP="s", OLDSNOWTIMESTAMP="s", LAYER_HEIGHT="m", LAYER_RHO="kg m^-3", LAYER_T="K",
                 LAYER_LWC="kg m^-2", LAYER_IF="-")
ATTRS = dict(Max_layers="max_layers", Z_measurement_height="z", Stability_correction="stability_correction", Albedo_method="albedo_method",
             Densification_method="densification_method", Penetrating_method="penetrating_method", Roughness_method="roughness_method",
             Saturation_water_vapour_method="saturation_water_vapour_method", Initial_snowheight="initial_snowheight_constant",
             Initial_snow_layer_heights="initial_snow_layer_heights", Initial_glacier_height="initial_glacier_height",
             Initial_glacier_layer_heights="initial_glacier_layer_heights", Initial_top_density_snowpack="initial_top_density_snowpack",
             Initial_bottom_density_snowpack="initial_bottom_density_snowpack", Temperature_bottom="temperature_bottom",
             Center_snow_transfer_function="center_snow_transfer_function", Spread_snow_transfer_function="spread_snow_transfer_function",
             Multiplication_factor_for_RRR_or_SNOWFALL="mult_factor_RRR", Minimum_snow_layer_height="minimum_snow_layer_height",
             Minimum_snowfall="minimum_snowfall", Remesh_method="remesh_method", First_layer_height_log_profile="first_layer_height",
             Layer_stretching_log_profile="layer_stretching", Merge_max="merge_max", Density_threshold_merging="density_threshold_merging",
             Temperature_threshold_merging="temperature_threshold_merging", Albedo_fresh_snow="albedo_fresh_snow", Albedo_firn="albedo_firn",
             Albedo_ice="albedo_ice", Albedo_mod_snow_aging="albedo_mod_snow_aging", Albedo_mod_snow_depth="albedo_mod_snow_depth",
             Roughness_fresh_snow="roughness_fresh_snow", Roughness_ice="roughness_ice", Roughness_firn="roughness_firn",
             Aging_factor_roughness="aging_factor_roughness", Snow_ice_threshold="snow_ice_threshold", water_density="water_density",
             ice_density="ice_density", sigma="sigma", zero_temperature="zero_temperature", Time_step_input_file_seconds="dt")
CODE = {n: 1000.0 * (k + 1) for k, n in enumerate(ATM + INTERNAL + ["LAYER_" + f for f in FULL] + RES1 + ["LAYER_IF"])}
NLAY = 3


def series(name, t2):
    return CODE[name] + t2


def profile(name, t2, nmax):
    """(time, layer): a few layers, NaN below."""
    import numpy as np
    out = np.full((len(t2), nmax), np.nan)
    for k in range(NLAY):
        out[:, k] = CODE[name] + t2 + 100 * k
    return out


def stand_in(DATA, indY, indX, GRID_RESTART=None, stake_names=None, stake_data=None):
    """In place of the point model: results that say where they come from."""
    import numpy as np
    from cosipy.constants import Constants
    from cosipy.cpkernel.io import IOClass
    t2 = np.array(DATA.T2.values, dtype=float)
    if GRID_RESTART is not None:
        t2 = t2 + 0.001 * float(GRID_RESTART.NLAYERS.values)
    res = {n: series(n, t2) for n in ATM + INTERNAL}
    res.update({"LAYER_" + f: profile("LAYER_" + f, t2, Constants.max_layers) for f in FULL})
    res.update(new_snow_height=t2, new_snow_timestamp=t2, old_snow_timestamp=t2)
    local = IOClass(DATA).create_local_restart_dataset()
    for n in RES1:
        local[n].values[:] = CODE[n] + t2[-1]
    for n in RES2:
        local[n].values[:NLAY] = profile(n, t2[-1:], NLAY)[0]
    res.update(indY=indY, indX=indX, RESTART=local, stake_names=stake_names, stat=None, df=None)
    return tuple(res[n] for n in runs.OUT)


def searches(variant):
    import numpy as np
    import pandas as pd
    from pbt import env
    wrf = variant == "wrf"
    mod = driver.load()
    mod.cosipy_core = stand_in
    import tomllib
    with open(os.path.join(env.REPO, "constants.toml"), "rb") as f:
        shipped = {k: v for t in tomllib.load(f).values() for k, v in t.items()}

    def oracle(case, rec):
        driver.clean()
        dom, n = case["dom"], case["n"]
        ny, nx = dom["ny"], dom["nx"]
        steps = (runs.expand(case["met"]) * n)[:n]
        rad = case["names"]
        names = ["T2", "RH2", "U2", "G", "PRES"] + rad
        for s in steps:
            s["SNOWFALL"] = s["RRR"] / 250.0
        ds = grids.dataset(steps, dom, names=names, dt=case["dt"], start=case["start"], slope=case["slope"])
        ds["T2"].values[:] = 250 + np.arange(n)[:, None, None] * 0.25 + (np.arange(ny)[:, None] * nx + np.arange(nx)) * 0.002
        ydim, xdim = ("south_north", "west_east") if wrf else ("lat", "lon")
        if wrf:
            lon, lat = np.meshgrid(ds.lon.values, ds.lat.values)
            ds = ds.drop_vars(["lat", "lon"]).rename({"lat": "south_north", "lon": "west_east"})
            ds = ds.assign_coords(lat=(("south_north", "west_east"), lat), lon=(("south_north", "west_east"), lon))
        name = driver.write_input(ds)
        t = pd.to_datetime(ds.time.values)
        lab = [x.strftime("%Y-%m-%dT%H:%M") for x in t]
        # the period asked for may reach beyond the data
        early = t[0] - pd.Timedelta(hours=0 if case["restart"] else case["beyond"][0])
        late = t[-1] + pd.Timedelta(hours=case["beyond"][1])
        cfg = dict(input_netcdf=name, time_start=early.strftime("%Y-%m-%dT%H:%M"), time_end=late.strftime("%Y-%m-%dT%H:%M"), restart=False, output_prefix=case["prefix"], WRF=wrf,
                   full_field=case["full"] is not None, output_atm=",".join(case["atm"]), output_internal=",".join(case["internal"]),
                   compression_level=case["compression"])
        if case["full"] is not None:
            cfg["output_full"] = ",".join(case["full"])
        cst = dict(max_layers=case["layers"], dt=case["dt"], albedo_ice=0.31)
        first = 0
        add = 0.0
        if case["restart"]:
            first = 1
            rs = ds.isel(time=0, drop=True)[["HGT"]].assign_coords(time=ds.time.values[0])
            rs["NLAYERS"] = (ydim, xdim), 7.0 + np.arange(ny)[:, None] * nx + np.arange(nx)
            os.makedirs("data/restart", exist_ok=True)
            rs.to_netcdf(os.path.join("data", "restart", f"restart_{t[0].strftime('%Y-%m-%dT%H-%M')}.nc"))
            cfg["restart"] = True
            add = 0.001 * rs.NLAYERS.values
        made = driver.main(cfg, cst, order=case["order"])
        want_files = [f"output/{case['prefix']}_{early.strftime('%Y%m%d')}-{late.strftime('%Y%m%d')}.nc", f"restart/restart_{t[-1].strftime('%Y-%m-%dT%H-%M')}.nc"]
        expect(made == sorted(want_files), "files", lambda: f"{made}, expected {want_files}")
        out, res = driver.load_nc(want_files[0]), driver.load_nc(want_files[1])
        mask = np.array(dom["mask"]) == 1
        t2 = np.where(mask, ds.T2.values[first:] + add, np.nan)
        # the variables configured, and the forcing
        made_atm = [v for v in case["atm"] if v not in INPUTS]
        inputs = [v for v in names + ["HGT", "MASK"] + (["SLOPE", "ASPECT"] if case["slope"] else []) if v not in made_atm]
        layers = ["LAYER_" + f for f in case["full"]] if case["full"] is not None else []
        want_vars = set(inputs) | set(made_atm) | set(case["internal"]) | set(layers) | {"RRR", "N"}
        expect(set(out.data_vars) == want_vars, "variables", lambda: f"{set(out.data_vars) ^ want_vars} differ for {cfg}")
        expect(np.array_equal(out.time.values, ds.time.values[first:]), "time", f"{out.time.values}")
        for v in ("lat", "lon"):
            expect(np.array_equal(out[v].values, ds[v].values), "coordinates", v)
            expect(np.array_equal(res[v].values, ds[v].values), "coordinates", v)
        for v in sorted(want_vars):
            a = out[v]
            if v in layers:
                dims, want = ("time", ydim, xdim, "layer"), np.moveaxis(
                    np.array([CODE[v] + t2 + 100 * k if k < NLAY else np.full_like(t2, np.nan) for k in range(case["layers"])]), 0, -1)
            elif v in made_atm or v in case["internal"]:
                dims, want = ("time", ydim, xdim), series(v, t2)
            elif v in ds:
                dims, want = ds[v].dims, ds[v].values[first:] if "time" in ds[v].dims else ds[v].values
            else:
                dims, want = ("time", ydim, xdim), np.full_like(t2, np.nan)
            expect(a.dims == dims and a.shape == want.shape, "dimensions", lambda: f"{v}: {a.dims} {a.shape}")
            expect(np.allclose(a.values, want, rtol=0, atol=1e-9, equal_nan=True), f"misplaced:{v}",
                   lambda: f"{v}: {a.values.ravel()[:6]} instead of {want.ravel()[:6]} mask {dom['mask']} order {case['order']}")
            un = UNITS[v]
            if v == "SNOWFALL" and v in inputs:
                un = ("m", "Snowfall")
            expect((a.attrs.get("units"), a.attrs.get("long_name")) == un, f"metadata:{v}", lambda: f"{a.attrs}, expected {un}")
        for k, key in ATTRS.items():
            val = cst.get(key, shipped[key])
            got = out.attrs.get(k)
            expect(got == val or (isinstance(val, float) and abs(got - val) <= 1e-12 * abs(val)), f"attribute:{k}", lambda: f"{got}, set to {val}")
        for k, val in (("Start_from_restart_file", bool(case["restart"])), ("WRF_simulation", wrf), ("Full_field", case["full"] is not None),
                       ("Stake_evaluation", False), ("Tile_of_glacier_of_interest", False), ("Compression_level", case["compression"])):
            expect(str(out.attrs.get(k)) == str(val), f"attribute:{k}", lambda: f"{out.attrs.get(k)}, set to {val}")
        # the state to continue from
        expect(pd.Timestamp(res.time.values) == t[-1], "restart-time", f"{res.time.values}")
        expect(set(res.data_vars) == set(RES1 + RES2), "restart-variables", f"{sorted(res.data_vars)}")
        for v in RES1:
            expect(res[v].dims == (ydim, xdim) and np.allclose(res[v].values, CODE[v] + t2[-1], rtol=0, atol=1e-9, equal_nan=True), f"restart:{v}",
                   lambda: f"{res[v].values}, expected {CODE[v] + t2[-1]}")
        for v in RES2:
            want = np.full((ny, nx, case["layers"]), np.nan)
            for k in range(NLAY):
                want[:, :, k] = CODE[v] + t2[-1] + 100 * k
            expect(res[v].dims == (ydim, xdim, "layer") and np.allclose(res[v].values, want, rtol=0, atol=1e-9, equal_nan=True), f"restart:{v}", "")
        for v in RES1 + RES2:
            expect(res[v].attrs.get("units") == RES_UNITS[v], f"restart-metadata:{v}", lambda: f"{res[v].attrs}")
        rec.hit("period beyond the data", case["beyond"][1] > 0)
        rec.hit("restart", case["restart"])
        rec.hit("masked cells", not mask.all())
        rec.hit("full field", case["full"] is not None)
        rec.hit("no clouds given", "N" not in names)
        rec.hit("no precipitation given", "RRR" not in names)
        rec.hit("not square", ny != nx)
        rec.nontrivial(int(mask.sum()) > 1)

    def some(names):
        return st.lists(st.sampled_from(names), unique=True, max_size=len(names))

    case = st.fixed_dictionaries({
        "dom": grids.domain(3), "n": st.integers(3, 7), "met": runs.forcing(2, 3), "dt": st.sampled_from([3600, 10800, 1800]),
        "start": st.sampled_from(["2009-01-01T06:00", "2012-02-28T18:00", "2010-12-31T12:30"]), "slope": st.booleans(),
        "names": st.sampled_from([["RRR", "LWin"], ["RRR", "N"], ["RRR", "LWin", "N"], ["SNOWFALL", "LWin"], ["SNOWFALL", "RRR", "N"]]),
        "prefix": st.sampled_from(["run", "Zhadang_ERA5", "a-b.c"]), "full": st.one_of(st.none(), some(FULL)),
        "atm": some(ATM), "internal": some(INTERNAL), "compression": st.integers(0, 9), "layers": st.integers(3, 9),
        "beyond": st.tuples(st.sampled_from([0, 0, 0, 3, 48]), st.sampled_from([0, 0, 0, 1, 5, 72])),
        "restart": st.sampled_from([False, False, True]), "order": st.lists(common.fl(0, 1), max_size=9)})
    return [Search("placement", case, oracle, "several active cells", quick=120, thorough=4000, cap_quick=35.0)]
