"""Reference model: the documented physics, written down once more in plain
Python on plain lists.  A layer is [height, temperature, lwc, ice fraction]."""
import math

from pbt.common import density


def porosity_air(x):
    return max(0.0, 1.0 - x[2] - x[3])


def spec_heat(x, c):
    return x[3] * c["spec_heat_ice"] + porosity_air(x) * c["spec_heat_air"] + x[2] * c["spec_heat_water"]


def irreducible(icf):
    if icf <= 0.23:
        return 0.0264 + 0.0099 * (1.0 - icf) / icf
    if icf <= 0.812:
        return 0.08 - 0.1023 * (icf - 0.03)
    return 0.0


def conductivity(x, c):
    if c["thermal_conductivity_method"] == "bulk":
        return x[3] * c["k_i"] + porosity_air(x) * c["k_a"] + x[2] * c["k_w"]
    return 0.021 + 2.5 * (density(x, c) / 1000.0) ** 2


def diffusivity(x, c):
    return conductivity(x, c) / (density(x, c) * spec_heat(x, c))


def cold_content(x, c):
    return -spec_heat(x, c) * density(x, c) * x[0] * (x[1] - c["zero_temperature"])


def icf_from_density(rho, c):
    return (rho - (1.0 - rho / c["ice_density"]) * c["air_density"]) / c["ice_density"]


def is_snow(x, c):
    return density(x, c) < c["snow_ice_threshold"]


def snow_height(s, c):
    return math.fsum(x[0] for x in s if is_snow(x, c))


# ---------------------------------------------------------------- percolation
def percolate(s, water):
    """-> (state, runoff)"""
    s = [list(x) for x in s]
    carry = water  # m w.e. entering the layer
    for k, x in enumerate(s):
        x[2] += carry / x[0]
        carry = 0.0
        if k == len(s) - 1:
            carry = x[2] * x[0]
            x[2] = 0.0
        else:
            hold = irreducible(x[3])
            if x[2] > hold:
                carry = (x[2] - hold) * x[0]
                x[2] = hold
    return s, carry


# ---------------------------------------------------------------- refreezing
def refreeze(s, c):
    """-> (state, per-layer refrozen m w.e.)"""
    tm, ri, rw = c["zero_temperature"], c["ice_density"], c["water_density"]
    ci, cw, lf = c["spec_heat_ice"], c["spec_heat_water"], c["lat_heat_melting"]
    cap = (c["snow_ice_threshold"] - c["air_density"]) / (ri - c["air_density"])
    out, ref = [], []
    for h, t, w, i in s:
        d = 0.0
        if t <= tm and w > 0.0:
            room = max(0.0, (cap - i) * ri / rw)      # pore close-off
            cold = ci * ri * i * (tm - t) / (rw * lf)  # cold content of the ice
            d = min(w, room, cold)
            w -= d
            i += d * rw / ri
            t += d * rw * lf / (ci * ri * i + cw * rw * w)
        out.append([h, t, w, i])
        ref.append(d * h)
    return out, ref


# ---------------------------------------------------------------- heat equation
def heat(s, c, dt):
    """Explicit scheme of the documentation on the layer centres.
    -> temperatures"""
    n = len(s)
    h = [x[0] for x in s]
    t = [x[1] for x in s]
    k = [diffusivity(x, c) for x in s]
    dist = [(h[i] + h[i + 1]) / 2 for i in range(n - 1)]
    kk = [(k[i] + k[i + 1]) / 2 for i in range(n - 1)]
    dt_stab = 0.8 * min(dist[i] ** 2 / kk[i] for i in range(n - 1)) / 2
    done = 0.0
    while done < dt:
        step = min(dt_stab, dt - done)
        done += step
        f = [kk[i] * (t[i + 1] - t[i]) / dist[i] for i in range(n - 1)]
        t = [t[0]] + [t[i] + step * (f[i] - f[i - 1]) / (0.5 * (dist[i - 1] + dist[i]))
                      for i in range(1, n - 1)] + [t[-1]]
    return t


# ---------------------------------------------------------------- penetrating radiation
def penetrate(s, swnet, dt, c):
    """-> (state, melt m w.e., absorbed flux, fully melted layer indices)"""
    tm, ri, rw = c["zero_temperature"], c["ice_density"], c["water_density"]
    ci, lf = c["spec_heat_ice"], c["lat_heat_melting"]
    if density(s[0], c) <= c["snow_ice_threshold"]:
        si, ext = 0.1 * swnet, 17.1
    else:
        si, ext = 0.2 * swnet, 2.5
    z, centres = 0.0, [0.0]
    for x in s:
        centres.append(z + x[0] / 2)
        z += x[0]
    out, melt, gone, drained = [], 0.0, [], 0.0
    for n, (h, t, w, i) in enumerate(s):
        w, drained = w + drained / h, 0.0
        if n < len(s) - 1:
            absorbed = si * (math.exp(-ext * centres[n]) - math.exp(-ext * centres[n + 1]))
            tr = t + absorbed * dt / (density([h, t, w, i], c) * ci * h)
            if tr > tm:
                dw = ci * ri * (tr - tm) * i / (rw * lf)   # melted, as water fraction
                frac = dw * rw / ri / i                    # share of the layer's ice
                if frac >= 1.0:
                    gone.append(n)
                    melt += i * ri / rw * h
                    drained = (i * ri / rw + w) * h     # into the layer underneath
                    continue
                melt += dw * h
                h2 = (1 - frac) * h
                w, h, t = (w + dw) * h / h2, h2, tm
            else:
                t = tr
        out.append([h, t, w, i])
    return out, melt, si, gone


# ---------------------------------------------------------------- densification
def densify(s, slope, dt, c):
    m = c["densification_method"]
    out = [list(x) for x in s]
    rho = [density(x, c) for x in s]
    nsnow = sum(1 for r in rho if r < c["snow_ice_threshold"])
    tm = c["zero_temperature"]
    if m == "constant":
        return out
    load = 0.0
    for k in range(nsnow):
        h, t, w, i = s[k]
        if m == "empirical":
            dr = (600.0 - rho[k]) * dt / 8.0e5
            if dr > 0:
                new_i = (600.0 + (rho[k] - 600.0) * math.exp(-dt / 8.0e5)) / c["ice_density"]
                r2 = density([h, t, w, new_i], c)  # height uses the density it just set
                out[k] = [h * (1 - dr / r2), t, w, new_i]
            continue
        if not (rho[k] < c["snow_ice_threshold"] and h > c["minimum_snow_layer_height"]):
            continue
        g = 9.81
        if m == "Boone":
            load += rho[0] * h / 2 if k == 0 else rho[k - 1] * s[k - 1][0]
            eta = 3.7e7 * math.exp(0.081 * (tm - t) + 0.018 * rho[k])
            x = (load * g / eta + 2.8e-6 * math.exp(-0.042 * (tm - t) - 0.046 * max(0.0, rho[k] - 150.0))) * dt
        else:
            f1 = 1 / (1 + 60.0 * w / h)
            eta = f1 * 7.62237e6 * rho[k] / 250.0 * math.exp(0.1 * (273.14 - t) + 0.023 * rho[k])
            load += g * math.cos(slope) * (rho[0] * h / 2 if k == 0 else rho[k - 1] * s[k - 1][0])
            x = load / eta * dt
        half = x if w == 0.0 else x / 2
        out[k] = [h * (1 - x), t, w * (1 + half) if w else 0.0, i * (1 + half)]
    return out


# ---------------------------------------------------------------- grid editing
class Ambiguous(Exception):
    """A comparison is too close to call: rounding may go either way."""


def _cmp(a, b):
    if a != b and abs(a - b) < 1e-10:
        raise Ambiguous()
    return (a > b) - (a < b)


def merge(s, i):
    a, b = s[i], s[i + 1]
    h = a[0] + b[0]
    s[i] = [h, a[0] / h * a[1] + b[0] / h * b[1], (a[2] * a[0] + b[2] * b[0]) / h, (a[3] * a[0] + b[3] * b[0]) / h]
    del s[i + 1]


def _snow(x, c):
    if abs(density(x, c) - c["snow_ice_threshold"]) < 1e-7:
        raise Ambiguous()
    return is_snow(x, c)


def nsnow(s, c):
    return sum(1 for x in s if _snow(x, c))


def correct(s, i, hmin, c):
    """Give layer i the height hmin: borrow from below, push the rest down."""
    while _cmp(s[i][0], hmin) < 0 and i + 1 < len(s) and _snow(s[i], c) == _snow(s[i + 1], c):
        merge(s, i)
    h, t, w, f = s[i]
    if _cmp(h, hmin) > 0:
        top = min(w * h, irreducible(f) * hmin)
        rest = w * h - top
        s[i] = [hmin, t, top / hmin, f]
        s.insert(i + 1, [h - hmin, t, rest / (h - hmin), f])


def remesh_log(s, c):
    s = [list(x) for x in s]
    want = c["first_layer_height"]
    rest = 0.0
    for x in s:
        if _snow(x, c):
            rest += x[0]
    i = 0
    while i < nsnow(s, c):
        if _cmp(rest, want) >= 0:
            correct(s, i, want, c)
            rest -= want
            want *= c["layer_stretching"]
        elif i > 0:
            merge(s, i - 1)
        i += 1
    rest = sum(x[0] for x in s) - sum(x[0] for x in s if _snow(x, c))
    i = nsnow(s, c)
    while i < len(s):
        if _cmp(rest, want) >= 0:
            correct(s, i, want, c)
            rest -= want
            want *= c["layer_stretching"]
        else:
            if i == 0:
                raise Ambiguous()  # less than one layer of ice: out of domain
            merge(s, i - 1)
        i += 1
    return s


def remesh_adaptive(s, c):
    s = [list(x) for x in s]
    i = merges = 0
    hmin = c["minimum_snow_layer_height"]
    removed = []
    while i < nsnow(s, c) - 1:
        a, b = s[i], s[i + 1]
        if (_cmp(abs(a[1] - b[1]), c["temperature_threshold_merging"]) <= 0
                and _cmp(abs(density(a, c) - density(b, c)), c["density_threshold_merging"]) <= 0
                and _cmp(a[0], 0.1) <= 0 and merges <= c["merge_max"]):
            merge(s, i)
            merges += 1
        elif _cmp(a[0], hmin) <= 0:
            removed.append(s.pop(i))
        else:
            i += 1
    first = max(1, nsnow(s, c))
    if first == 1 and _cmp(s[0][0], c["first_layer_height"]) < 0:
        correct(s, first, c["first_layer_height"], c)
        first += 1
    i = first
    while i < len(s) - 1:
        if _cmp(s[i][0], hmin) < 0:
            merge(s, i)
        else:
            i += 1
    correct(s, 0, c["first_layer_height"], c)
    return s, removed


def update_grid(s, c):
    """-> (state, layers thrown away)"""
    removed = []
    if c["remesh_method"] == "log_profile":
        s = remesh_log(s, c)
    else:
        s, removed = remesh_adaptive(s, c)
    if _cmp(s[0][0], c["minimum_snow_layer_height"]) < 0:
        removed = removed + [s.pop(0)]
    return s, removed


def remove_melt(s, melt, c):
    """-> (state, water of the layers that vanish, height lost, melt left over)"""
    s = [list(x) for x in s]
    lwc = lost = 0.0
    while melt > 0.0 and s:
        x = s[0]
        mass = x[0] * density(x, c) / c["water_density"]
        if melt < mass:
            new = (mass - melt) / (density(x, c) / c["water_density"])
            lost += x[0] - new
            x[0] = new
            melt = 0.0
        else:
            lwc += x[2] * x[0]
            lost += x[0]
            melt -= mass
            s.pop(0)
    return s, lwc, lost, melt


# ---------------------------------------------------------------- albedo, roughness
def surface_age(fresh, c):
    """Hours since snowfall; the old snow's age once the fresh snow is gone.
    -> (hours, fresh)"""
    h, new, old = fresh
    if new / 3600.0 < c["albedo_mod_snow_aging"] * 24 and h <= 0.0:
        new = old
    return new / 3600.0, (h, new, old)


def depth_effect(a, h, c):
    return a + (c["albedo_ice"] - a) * math.exp(-h / (c["albedo_mod_snow_depth"] / 100.0))


def albedo(s, fresh, ts, a_snow, c):
    """-> (albedo, snow albedo, fresh)"""
    hours, fresh = surface_age(fresh, c)
    snow_top = density(s[0], c) <= c["snow_ice_threshold"]
    if not snow_top:
        return c["albedo_ice"], a_snow, fresh
    if c["albedo_method"] == "Oerlemans98":
        a = c["albedo_firn"] + (c["albedo_fresh_snow"] - c["albedo_firn"]) * math.exp(
            -hours / (c["albedo_mod_snow_aging"] * 24.0))
        return depth_effect(a, snow_height(s, c), c), a_snow, fresh
    tm = c["zero_temperature"]
    if ts >= tm:
        tau = c["t_star_wet"]
    else:
        tau = c["t_star_dry"] + (tm - max(ts, c["t_star_cutoff"])) * c["t_star_K"]
    a_snow = a_snow - (a_snow - c["albedo_firn"]) * (c["dt"] / 86400.0) / tau
    if hours == 0:
        a_snow = c["albedo_fresh_snow"]
    return depth_effect(a_snow, snow_height(s, c), c), a_snow, fresh


def roughness(s, fresh, c):
    if density(s[0], c) > c["snow_ice_threshold"]:
        return c["roughness_ice"] / 1000.0
    return min(c["roughness_firn"],
               c["roughness_fresh_snow"] + c["aging_factor_roughness"] * fresh[1] / 3600.0) / 1000.0
