"""Reference surface fluxes and reference root finders, in plain Python."""
import math


def saturation(T):
    if T >= 273.16:
        return 6.112 * math.exp(17.67 * (T - 273.16) / (T - 29.66))
    return 6.112 * math.exp(22.46 * (T - 273.16) / (T - 0.55))


def ground_temperature(col, depth):
    """Temperature at a depth, extrapolated or interpolated between the bottoms of
    the layer whose bottom is closest and of the next one on the other side."""
    bottoms, z = [], 0.0
    for x in col:
        z += x[0]
        bottoms.append(z)
    k = min(range(len(col)), key=lambda i: (abs(bottoms[i] - depth), i))
    j = k - 1 if bottoms[k] > depth else k + 1
    return col[k][1] + (col[k][1] - col[j][1]) / (bottoms[k] - bottoms[j]) * (depth - bottoms[k])


def well_defined(col, c):
    """Both depths of the ground heat flux lie inside the column, clear of ties."""
    bottoms, z = [], 0.0
    for x in col:
        z += x[0]
        bottoms.append(z)
    for d in (c["zlt1"], c["zlt2"]):
        s = sorted((abs(b - d), i) for i, b in enumerate(bottoms))
        if len(s) > 1 and s[1][0] - s[0][0] < 1e-9:
            return False
        k = s[0][1]
        j = k - 1 if bottoms[k] > d else k + 1
        if not 0 <= j < len(col) or abs(bottoms[k] - d) < 1e-9:
            return False
    return True


def _stable(z, L, limited):
    zeta = z / L
    if zeta <= 0:
        return 0.0
    if zeta <= 1:
        return -5.0 * zeta
    return -5.0 if limited else -4.0 * (1.0 + math.log(zeta)) - zeta


def phi_m(z, L, limited):
    if L > 0:
        return _stable(z, L, limited)
    if L < 0:
        x = (1 - 16 * z / L) ** 0.25
        return 2 * math.log((1 + x) / 2) + math.log((1 + x * x) / 2) - 2 * math.atan(x) + math.pi / 2
    return 0.0


def phi_h(z, L, limited):
    if L > 0:
        return _stable(z, L, limited)
    if L < 0:
        x = (1 - 19.3 * z / L) ** 0.25
        return 2 * math.log((1 + x * x) / 2)
    return 0.0


class Surface:
    """One step's surface: a column (top layer known), weather and settings."""

    def __init__(self, col, lam, dt, z, z0, T2, RH, p, sw, u, rain, slope, LW, N, c, coupled=False):
        self.c, self.lam, self.dt, self.z, self.z0 = c, lam, dt, z, z0
        self.T2, self.RH, self.p, self.sw, self.u, self.rain, self.slope = T2, RH, p, sw, u, rain, slope
        self.LW, self.N, self.coupled = LW, N, coupled
        self.tz = (ground_temperature(col, c["zlt1"]), ground_temperature(col, c["zlt2"]))
        self.guess = min(col[0][1], 270.0)
        ea = RH * saturation(T2) / 100.0
        if LW is None:
            clear = 0.23 + 0.433 * (100.0 * ea / T2) ** (1.0 / 8.0)
            self.li = (clear * (1 - N * N) + 0.984 * N * N) * c["sigma"] * T2 ** 4
        else:
            self.li = LW
        ew = saturation(T2)
        self.q2 = RH / 100.0 * 0.622 * ew / (p - ew)
        self.rho = p * 100.0 / (287.058 * T2 * (1 + 0.608 * self.q2))
        self.ambiguous = False

    def fluxes(self, T):
        c, u, z, z0 = self.c, self.u, self.z, self.z0
        lv = c["lat_heat_vaporize"] if T >= c["zero_temperature"] else c["lat_heat_sublimation"]
        ew0 = saturation(T)
        q0 = 0.622 * ew0 / (self.p - ew0)
        cosb = math.cos(math.radians(self.slope))
        heat = self.rho * c["spec_heat_air"] * u * (self.T2 - T) * cosb
        vapour = self.rho * lv * u * (self.q2 - q0) * cosb
        z0t, z0q = z0 / 100.0, z0 / 10.0
        L = None
        if c["stability_correction"] == "Ri":
            ct = 0.41 ** 2 / (math.log(z / z0) * math.log(z / z0t))
            cq = 0.41 ** 2 / (math.log(z / z0) * math.log(z / z0q))
            ri = 0.0 if u == 0 else 9.81 * (self.T2 - T) * z / (self.T2 * u * u)
            f = 1.0 if ri <= 0.01 else (1 - 5 * ri) ** 2 if ri <= 0.2 else 0.0
            if abs(ri - 0.01) < 1e-10:
                self.ambiguous = True
            H, LE = f * ct * heat, f * cq * vapour
        else:
            L, last = 0.0, math.inf
            for k in range(8):
                us = 0.41 * u / (math.log(z / z0) - phi_m(z, L, self.coupled))
                d = phi_h(z, L, self.coupled) - phi_h(z0, L, self.coupled)
                cd = 0.41 ** 2 / (math.log(z / z0) - phi_m(z, L, self.coupled) - phi_m(z0, L, self.coupled)) ** 2
                ct = 0.41 * math.sqrt(cd) / (math.log(z / z0t) - d)
                cq = 0.41 * math.sqrt(cd) / (math.log(z / z0q) - d)
                H, LE = ct * heat, cq * vapour
                L = self.rho * c["spec_heat_air"] * us ** 3 * self.T2 / (0.41 * 9.81 * H) if H != 0 else 0.0
                change = abs(last - H)
                if abs(change - 0.1) < 1e-9:
                    self.ambiguous = True
                if change < 0.1 or k > 5:
                    break
                last = H
        lo = -c["surface_emission_coeff"] * c["sigma"] * T ** 4
        d1, d2 = c["zlt1"], c["zlt2"] - c["zlt1"]
        t1, t2 = self.tz
        B = self.lam * (d1 / (d1 + d2) * (t2 - t1) / d2 + d2 / (d1 + d2) * (t1 - T) / d1)
        qrr = c["water_density"] * c["spec_heat_water"] * (self.rain / 1000.0 / self.dt) * (self.T2 - T)
        return dict(Li=self.li, Lo=lo, H=H, LE=LE, B=B, QRR=qrr, rho=self.rho, Lv=lv, MOL=L, Cs_t=ct, Cs_q=cq, q0=q0, q2=self.q2)

    def residual(self, T):
        f = self.fluxes(float(T))
        return self.sw + f["Li"] + f["Lo"] + f["H"] + f["LE"] + f["B"] + f["QRR"]

    def secant(self, tol=1e-2, maxiter=50):
        """The secant iteration as published (scipy's), from the documented guess."""
        f = self.residual
        p0 = self.guess
        p1 = p0 * (1 + 1e-4) + 1e-4
        q0, q1 = f(p0), f(p1)
        if abs(q1) < abs(q0):
            p0, p1, q0, q1 = p1, p0, q1, q0
        p = p1
        for _ in range(maxiter):
            if q1 == q0:
                return (p1 + p0) / 2.0
            if abs(q1) > abs(q0):
                p = (-q0 / q1 * p1 + p0) / (1 - q0 / q1)
            else:
                p = (-q1 / q0 * p0 + p1) / (1 - q1 / q0)
            if abs(p - p1) <= tol:
                return p
            p0, q0 = p1, q1
            p1, q1 = p, f(p)
        return p

    def newton(self, tol=1e-2, maxiter=50):
        import numpy as np
        from scipy.optimize import newton
        return float(newton(lambda x: np.array([self.residual(x[0])]), np.array([self.guess]), tol=tol, maxiter=maxiter)[0])
