"""The documented sequence of one model step, put together from the public
process functions, so that the driver can be compared with it."""
import math


class Stepper:
    def __init__(self, grid, c, dt=None, z=None, a_snow=None, force_use_TP=False, force_use_N=False, slope=0.0):
        self.g, self.c = grid, c
        self.dt = c["dt"] if dt is None else dt
        self.z = c["z"] if z is None else z
        self.a_snow = c["albedo_fresh_snow"] if a_snow is None else a_snow
        self.ts = 270.0
        self.tp, self.fn, self.slope = force_use_TP, force_use_N, slope

    def precipitation(self, m):
        """-> (snowfall height, rain mm, density of fresh snow)"""
        c = self.c
        if c["densification_method"] == "constant":
            rho = c["constant_density"]
        else:
            rho = max(109.0 + 6.0 * (m["T2"] - 273.16) + 26.0 * math.sqrt(m["U2"]), 50.0)
        return precipitation(m, rho, c, self.tp) + (rho,)

    def step(self, m):
        import numpy as np
        from cosipy.modules.albedo import updateAlbedo
        from cosipy.modules.densification import densification
        from cosipy.modules.heatEquation import solveHeatEquation
        from cosipy.modules.penetratingRadiation import penetrating_radiation
        from cosipy.modules.percolation import percolation
        from cosipy.modules.refreezing import refreezing
        from cosipy.modules.roughness import updateRoughness
        from cosipy.modules.surfaceTemperature import update_surface_temperature
        g, c, dt = self.g, self.c, self.dt
        snow, rain, rho_f = self.precipitation(m)
        if snow > 0:
            g.add_fresh_snow(snow, rho_f, min(m["T2"], c["zero_temperature"]), 0.0, dt)
        else:
            g.set_fresh_snow_props_update_time(dt)
        g.update_grid()
        alpha, self.a_snow = updateAlbedo(g, self.ts, self.a_snow)
        z0 = updateRoughness(g)
        sw = max(m["G"], 0.0) * (1 - alpha)
        sub, pen = penetrating_radiation(g, sw, dt) if sw > 0 else (0.0, 0.0)
        lw = m.get("LWin") if not (self.fn and "LWin" in m) else None
        n = m.get("N")
        kw = {}
        if lw is not None:
            kw["LWin"] = np.array(lw)
        if n is not None:
            kw["N"] = np.array(n)
        # numpy scalars, as they come out of an array
        kw = {k: np.float64(v) for k, v in kw.items()}
        r = update_surface_temperature(g, dt, self.z, z0, np.float64(m["T2"]), np.float64(m["RH2"]), np.float64(m["PRES"]), sw - pen,
                                       np.float64(m["U2"]), rain, self.slope, **kw)
        _, ts, li, lo, h, le, b, qrr = r[:8]
        self.ts = ts
        mol = r[10]
        ts = float(np.asarray(ts).ravel()[0])
        cold = ts < c["zero_temperature"]
        w = le * dt / (c["water_density"] * (c["lat_heat_sublimation"] if cold else c["lat_heat_vaporize"]))
        subl, depo = (min(w, 0.0), max(w, 0.0)) if cold else (0.0, 0.0)
        evap, cond = (0.0, 0.0) if cold else (min(w, 0.0), max(w, 0.0))
        me = max(0.0, (sw - pen) + li + lo + b + qrr + h + le)
        melt = me * dt / (1000 * c["lat_heat_melting"])
        lwc = g.remove_melt_weq(melt - subl - depo)
        q = percolation(g, melt + cond + rain / 1000.0 + lwc, dt)
        ref = refreezing(g)
        solveHeatEquation(g, dt)
        densification(g, self.slope, dt)
        smb = snow * rho_f / c["water_density"] - melt + subl + depo + evap
        imb = ref - sub
        return dict(RAIN=rain, SNOWFALL=snow * rho_f / c["water_density"], LWin=li, LWout=lo, H=h, LE=le, B=b, QRR=qrr, MB=smb + imb,
                    surfMB=smb, Q=q, SNOWHEIGHT=g.get_total_snowheight(), TOTALHEIGHT=g.get_total_height(), TS=ts, ALBEDO=alpha,
                    LAYERS=g.get_number_layers(), ME=me, intMB=imb, EVAPORATION=evap, SUBLIMATION=subl, CONDENSATION=cond,
                    DEPOSITION=depo, REFREEZE=ref, subM=sub, Z0=z0, surfM=melt, MOL=math.nan if mol is None else mol,
                    new_snow_height=g.get_fresh_snow_props()[0], new_snow_timestamp=g.get_fresh_snow_props()[1],
                    old_snow_timestamp=g.get_fresh_snow_props()[2])


def precipitation(m, rho, c, tp=False):
    """-> (snowfall height m, rain mm)"""
    mult = c["mult_factor_RRR"]
    s = m.get("SNOWFALL")
    r = m.get("RRR")
    s = None if s is None or tp else s * mult
    r = None if r is None else r * mult
    if s is None:
        solid = 0.5 * (1.0 - math.tanh((m["T2"] - c["zero_temperature"] - c["center_snow_transfer_function"])
                                       * c["spread_snow_transfer_function"]))
        s = (r / 1000.0) * (c["water_density"] / rho) * solid
    rain = 0.0 if r is None else r - s * (rho / c["water_density"]) * 1000.0
    if s < c["minimum_snowfall"]:
        s = 0.0
    if rain < c["minimum_snowfall"] * rho:
        rain = 0.0
    return s, rain
