"""Independent reference model of one column and one time step.

A column is a dict of numpy arrays h, T, lwc, ifr plus props (fresh snow
height, seconds since the last snowfall, age of the snow below).  Written from
the documented equations, vectorised or scalar as convenient, and never calling
/repo code.  `C` is the flat dict of constants the code under test was given.
"""
import numpy as np


def col(h, T, lwc, ifr, props=(0.0, 0.0, 0.0)):
    return dict(h=np.array(h, float), T=np.array(T, float), lwc=np.array(lwc, float),
                ifr=np.array(ifr, float), props=tuple(float(p) for p in props))


def copy(s):
    return col(s["h"], s["T"], s["lwc"], s["ifr"], s["props"])


def density(s, C):
    air = np.maximum(0.0, 1 - s["lwc"] - s["ifr"])
    return s["ifr"] * C["ice_density"] + s["lwc"] * C["water_density"] + air * C["air_density"]


def air(s):
    return np.maximum(0.0, 1 - s["lwc"] - s["ifr"])


def conductivity(s, C, i=None):
    if C["thermal_conductivity_method"] == "bulk":
        k = s["ifr"] * C["k_i"] + air(s) * C["k_a"] + s["lwc"] * C["k_w"]
    else:
        k = 0.021 + 2.5 * (density(s, C) / 1000.0) ** 2
    return k if i is None else float(k[i])


def specific_heat(s, C):
    return (s["ifr"] * C["spec_heat_ice"] + air(s) * C["spec_heat_air"]
            + s["lwc"] * C["spec_heat_water"])


def diffusivity(s, C):
    return conductivity(s, C) / (density(s, C) * specific_heat(s, C))


def irreducible(ifr):
    ifr = np.asarray(ifr, float)
    with np.errstate(all="ignore"):
        low = 0.0264 + 0.0099 * ((1 - ifr) / ifr)
    mid = 0.08 - 0.1023 * (ifr - 0.03)
    return np.where(ifr <= 0.23, low, np.where(ifr <= 0.812, mid, 0.0))


def cold_content(s, C):
    return -specific_heat(s, C) * density(s, C) * s["h"] * (s["T"] - C["zero_temperature"])


def ice_mass(s, C):
    return float(np.sum(s["h"] * s["ifr"]) * C["ice_density"])


def water_mass(s, C):
    return float(np.sum(s["h"] * s["lwc"]) * C["water_density"])


def snow_mask(s, C):
    return density(s, C) < C["snow_ice_threshold"]


def snowheight(s, C):
    """Height of all snow layers."""
    return float(np.sum(s["h"][snow_mask(s, C)]))


# -- structure editing --------------------------------------------------------
def _del(s, i):
    for k in ("h", "T", "lwc", "ifr"):
        s[k] = np.delete(s[k], i)


def _ins(s, i, h, T, lwc, ifr):
    for k, v in (("h", h), ("T", T), ("lwc", lwc), ("ifr", ifr)):
        s[k] = np.insert(s[k], i, v)


def dens_i(s, i, C):
    a = max(0.0, 1 - s["lwc"][i] - s["ifr"][i])
    return s["ifr"][i] * C["ice_density"] + s["lwc"][i] * C["water_density"] + a * C["air_density"]


def merge(s, i):
    h0, h1 = s["h"][i], s["h"][i + 1]
    H = h0 + h1
    for k in ("lwc", "ifr"):
        s[k][i] = (s[k][i] * h0 + s[k][i + 1] * h1) / H
    s["T"][i] = (h0 / H) * s["T"][i] + (h1 / H) * s["T"][i + 1]
    s["h"][i] = H
    _del(s, i + 1)


def correct(s, i, target, C):
    th = C["snow_ice_threshold"]
    while s["h"][i] < target and i + 1 < len(s["h"]):
        a, b = dens_i(s, i, C) < th, dens_i(s, i + 1, C) < th
        if a == b:
            merge(s, i)
        else:
            break
    if s["h"][i] > target:
        rest = s["h"][i] - target
        s["h"][i] = target
        _ins(s, i + 1, rest, s["T"][i], s["lwc"][i], s["ifr"][i])


def nsnow(s, C):
    return int(sum(dens_i(s, i, C) < C["snow_ice_threshold"] for i in range(len(s["h"]))))


def remesh(s, C):
    s = copy(s)
    if C["remesh_method"] == "log_profile":
        last = C["first_layer_height"]
        hrest = snowheight(s, C)
        i = 0
        while i < nsnow(s, C):
            if hrest >= last:
                correct(s, i, last, C)
                hrest -= last
                last *= C["layer_stretching"]
            elif i > 0:
                merge(s, i - 1)
            i += 1
        hrest = sum(s["h"]) - snowheight(s, C)
        i = nsnow(s, C)
        while i < len(s["h"]):
            if hrest >= last:
                correct(s, i, last, C)
                hrest -= last
                last *= C["layer_stretching"]
            elif i > 0:
                merge(s, i - 1)
            i += 1
    else:
        i = merges = 0
        while i < nsnow(s, C) - 1:
            dT = abs(s["T"][i] - s["T"][i + 1])
            dR = abs(dens_i(s, i, C) - dens_i(s, i + 1, C))
            if (dT <= C["temperature_threshold_merging"] and dR <= C["density_threshold_merging"]
                    and s["h"][i] <= 0.1 and merges <= C["merge_max"]):
                merge(s, i)
                merges += 1
            elif s["h"][i] <= C["minimum_snow_layer_height"]:
                _del(s, i)
            else:
                i += 1
        j = max(1, nsnow(s, C))
        if j == 1 < len(s["h"]) and s["h"][0] < C["first_layer_height"]:
            correct(s, j, C["first_layer_height"], C)
            j += 1
        while j < len(s["h"]) - 1:
            if s["h"][j] < C["minimum_snow_layer_height"]:
                merge(s, j)
            else:
                j += 1
        correct(s, 0, C["first_layer_height"], C)
    if s["h"][0] < C["minimum_snow_layer_height"]:
        _del(s, 0)
    return s


# -- precipitation and fresh snow --------------------------------------------
def fresh_density(T2, U2, C):
    if C["densification_method"] == "constant":
        return float(C["constant_density"])
    return max(109.0 + 6.0 * (T2 - 273.16) + 26.0 * np.sqrt(U2), 50.0)


def partition(T2, U2, RRR, SNOWF, C):
    """(snowfall height m, rain mm, fresh snow density); RRR/SNOWF may be None."""
    rho = fresh_density(T2, U2, C)
    m = C["mult_factor_RRR"]
    if SNOWF is not None:
        snow = SNOWF * m
        rain = 0.0 if RRR is None else RRR * m - snow * rho
    else:
        frac = 0.5 * (1 - np.tanh((T2 - C["zero_temperature"] - C["center_snow_transfer_function"])
                                  * C["spread_snow_transfer_function"]))
        snow = RRR * m / rho * frac
        rain = RRR * m * (1 - frac)
    rain_raw, snow_raw = rain, snow
    if snow < C["minimum_snowfall"]:
        snow = 0.0
    if rain < C["minimum_snowfall"] * rho:
        rain = 0.0
    return snow, rain, rho, snow_raw, rain_raw


def add_snow(s, height, rho, T2, dt, C):
    s = copy(s)
    h0, t_new, t_old = s["props"]
    if height > 0:
        ifr = (rho - C["air_density"]) / (C["ice_density"] - C["air_density"])
        # dry new layer of the given density
        ifr = (rho - (1 - rho / C["ice_density"]) * C["air_density"]) / C["ice_density"]
        _ins(s, 0, height, min(T2, C["zero_temperature"]), 0.0, ifr)
        s["props"] = (height, 0.0, t_new) if height >= C["minimum_snowfall"] else (h0, t_new + dt, t_old + dt)
    else:
        s["props"] = (h0, t_new + dt, t_old + dt)
    return s


# -- surface ------------------------------------------------------------------
def surface_age(s, C):
    """Snow age correction when the fresh layer has gone; returns (props, hours)."""
    fh, tn, to = s["props"]
    if tn / 3600.0 < C["albedo_mod_snow_aging"] * 24 and fh <= 0.0:
        tn = to
    return (fh, tn, to), tn / 3600.0


def depth_albedo(a, h, C):
    return a + (C["albedo_ice"] - a) * np.exp(-h / (C["albedo_mod_snow_depth"] / 100.0))


def albedo(s, Ts_prev, a_snow, C):
    """Returns (albedo, snow albedo memory, props)."""
    props, hours = surface_age(s, C)
    snow = dens_i(s, 0, C) <= C["snow_ice_threshold"]
    if C["albedo_method"] == "Oerlemans98":
        if not snow:
            return C["albedo_ice"], a_snow, props
        a = C["albedo_firn"] + (C["albedo_fresh_snow"] - C["albedo_firn"]) * np.exp(
            -hours / (C["albedo_mod_snow_aging"] * 24.0))
        return depth_albedo(a, snowheight(s, C), C), a_snow, props
    if not snow:
        return float(C["albedo_ice"]), a_snow, props
    zt = C["zero_temperature"]
    if Ts_prev >= zt:
        ts = C["t_star_wet"]
    else:
        ts = C["t_star_dry"] + (zt - max(Ts_prev, C["t_star_cutoff"])) * C["t_star_K"]
    a_snow = a_snow - (a_snow - C["albedo_firn"]) * (C["dt"] / 86400.0) / ts
    if hours == 0:
        a_snow = C["albedo_fresh_snow"]
    return float(depth_albedo(a_snow, snowheight(s, C), C)), a_snow, props


def roughness(s, C):
    if dens_i(s, 0, C) <= C["snow_ice_threshold"]:
        return min(C["roughness_fresh_snow"] + C["aging_factor_roughness"] * s["props"][1] / 3600.0,
                   C["roughness_firn"]) / 1000
    return C["roughness_ice"] / 1000


def penetrating(s, SWnet, dt, C):
    """Returns (state, subsurface melt m w.e., penetrating part of SWnet)."""
    s = copy(s)
    top = dens_i(s, 0, C) <= C["snow_ice_threshold"]
    Si, k = (0.1 * SWnet, 17.1) if top else (0.2 * SWnet, 2.5)
    mid = np.cumsum(s["h"]) - 0.5 * s["h"]
    levels = np.concatenate([[0.0], mid])
    E = Si * (np.exp(-k * levels[:-1]) - np.exp(-k * levels[1:]))
    zt, ci, ri, rw, L = (C["zero_temperature"], C["spec_heat_ice"], C["ice_density"],
                         C["water_density"], C["lat_heat_melting"])
    melt, gone = 0.0, []
    for i in range(len(s["h"]) - 1):
        T = s["T"][i] + E[i] * dt / (dens_i(s, i, C) * ci * s["h"][i])
        if T <= zt:
            s["T"][i] = T
            continue
        frac = ci * (T - zt) / L              # melted fraction of the layer's ice
        ice_we = s["ifr"][i] * ri / rw * s["h"][i]
        if frac >= 1.0:
            melt += ice_we
            s["lwc"][i + 1] += (ice_we + s["lwc"][i] * s["h"][i]) / s["h"][i + 1]
            gone.append(i)
            continue
        w = s["lwc"][i] * s["h"][i] + frac * ice_we
        s["h"][i] *= 1 - frac
        s["lwc"][i] = w / s["h"][i]
        s["T"][i] = zt
        melt += frac * ice_we
    for i in reversed(gone):
        _del(s, i)
    return s, melt, Si


def sub_temperature(s, z):
    d = np.cumsum(s["h"])
    i = int(np.argmin(np.abs(d - z)))
    j = i - 1 if d[i] > z else i + 1
    if j < 0:                                # the first layer reaches below z
        j = 1
    if j >= len(d):                          # the column ends above z
        return s["T"][i]
    return s["T"][i] + (s["T"][i] - s["T"][j]) / (d[i] - d[j]) * (z - d[i])


def esat(T):
    if T >= 273.16:
        return 6.112 * np.exp(17.67 * (T - 273.16) / (T - 29.66))
    return 6.112 * np.exp(22.46 * (T - 273.16) / (T - 0.55))


def lw_in(T2, RH2, N, C):
    e = RH2 * esat(T2)                       # Pa
    cs = 0.23 + 0.433 * (e / T2) ** 0.125
    return (cs * (1 - N ** 2) + 0.984 * N ** 2) * C["sigma"] * T2 ** 4


def psi_stable(zeta, coupled=False):
    if 0 < zeta <= 1:
        return -5 * zeta
    if zeta > 1:
        return -5.0 if coupled else -4 * (1 + np.log(zeta)) - zeta
    return 0.0


def psi_m(z, L, coupled=False):
    if L > 0:
        return psi_stable(z / L, coupled)
    if L < 0:
        x = (1 - 16 * z / L) ** 0.25
        return 2 * np.log((1 + x) / 2) + np.log((1 + x * x) / 2) - 2 * np.arctan(x) + np.pi / 2
    return 0.0


def psi_h(z, L, coupled=False):
    if L > 0:
        return psi_stable(z / L, coupled)
    if L < 0:
        x = (1 - 19.3 * z / L) ** 0.25
        return 2 * np.log((1 + x * x) / 2)
    return 0.0


def fluxes(s, Ts, dt, z, z0, T2, RH2, p, u2, rain, slope, C, LWin=None, N=None,
           coupled=False, z1=None, z2=None):
    """Energy fluxes at surface temperature Ts (towards the surface positive)."""
    coupled = coupled or C.get("_coupled", False)
    zt = C["zero_temperature"]
    Lv = C["lat_heat_vaporize"] if Ts >= zt else C["lat_heat_sublimation"]
    Ew, Ew0 = esat(T2), esat(Ts)
    Li = lw_in(T2, RH2, N, C) if LWin is None else LWin
    q2 = RH2 / 100.0 * 0.622 * Ew / (p - Ew)
    q0 = 0.622 * Ew0 / (p - Ew0)
    rho = 100.0 * p / (287.058 * T2 * (1 + 0.608 * q2))
    z0t, z0q = z0 / 100, z0 / 10
    cs = np.cos(slope * np.pi / 180.0)
    cp = C["spec_heat_air"]
    mol = None
    if C["stability_correction"] == "Ri":
        ri = 0.0 if u2 == 0 else 9.81 * (T2 - Ts) * z / (T2 * u2 ** 2)
        phi = 1.0 if ri <= 0.01 else ((1 - 5 * ri) ** 2 if ri <= 0.2 else 0.0)
        Cst = 0.41 ** 2 / (np.log(z / z0) * np.log(z / z0t))
        Csq = 0.41 ** 2 / (np.log(z / z0) * np.log(z / z0q))
        H = phi * rho * cp * Cst * u2 * (T2 - Ts) * cs
        LE = phi * rho * Lv * Csq * u2 * (q2 - q0) * cs
    else:
        mol, Hold = 0.0, np.inf
        for it in range(8):
            ust = 0.41 * u2 / (np.log(z / z0) - psi_m(z, mol, coupled))
            dpsi = psi_h(z, mol, coupled) - psi_h(z0, mol, coupled)
            Cd = 0.41 ** 2 / (np.log(z / z0) - psi_m(z, mol, coupled) - psi_m(z0, mol, coupled)) ** 2
            Cst = 0.41 * np.sqrt(Cd) / (np.log(z / z0t) - dpsi)
            Csq = 0.41 * np.sqrt(Cd) / (np.log(z / z0q) - dpsi)
            H = rho * cp * Cst * u2 * (T2 - Ts) * cs
            LE = rho * Lv * Csq * u2 * (q2 - q0) * cs
            mol = 0.0 if H == 0 else rho * cp * ust ** 3 * T2 / (0.41 * 9.81 * H)
            if abs(Hold - H) < 0.1 or it > 5:
                break
            Hold = H
    Lo = -C["surface_emission_coeff"] * C["sigma"] * Ts ** 4
    d1, d2 = C["zlt1"], C["zlt2"] - C["zlt1"]
    t1 = sub_temperature(s, C["zlt1"]) if z1 is None else z1
    t2 = sub_temperature(s, C["zlt2"]) if z2 is None else z2
    B = conductivity(s, C, 0) * (d1 / (d1 + d2) * (t2 - t1) / d2 + d2 / (d1 + d2) * (t1 - Ts) / d1)
    Q = C["water_density"] * C["spec_heat_water"] * (rain / 1000.0 / dt) * (T2 - Ts)
    return dict(LWin=float(Li), LWout=float(Lo), H=float(H), LE=float(LE), B=float(B),
                QRR=float(Q), MOL=mol, rho=float(rho))


def mass_fluxes(Ts, LE, dt, C):
    z = C["zero_temperature"]
    if Ts < z:
        q = LE / (C["water_density"] * C["lat_heat_sublimation"]) * dt
        return dict(SUBLIMATION=min(q, 0.0), DEPOSITION=max(q, 0.0), EVAPORATION=0.0, CONDENSATION=0.0)
    q = LE / (C["water_density"] * C["lat_heat_vaporize"]) * dt
    return dict(SUBLIMATION=0.0, DEPOSITION=0.0, EVAPORATION=min(q, 0.0), CONDENSATION=max(q, 0.0))


# -- mass ---------------------------------------------------------------------
def remove_melt(s, melt, C):
    """Returns (state, liquid water of the layers that vanished)."""
    s = copy(s)
    freed = 0.0
    while melt > 0 and len(s["h"]):
        swe = s["h"][0] * dens_i(s, 0, C) / C["water_density"]
        if melt < swe:
            s["h"][0] *= 1 - melt / swe
            melt = 0.0
        else:
            lw = s["lwc"][0] * s["h"][0]
            freed += lw
            melt -= swe - lw
            _del(s, 0)
    fh, a, b = s["props"]
    s["props"] = (fh - melt, a, b)
    return s, freed


def percolate(s, water):
    s = copy(s)
    h, lwc = s["h"], s["lwc"]
    irr = irreducible(s["ifr"])
    carry = water
    n = len(h)
    for i in range(n - 1):
        w = lwc[i] * h[i] + carry
        keep = min(w, irr[i] * h[i])
        lwc[i] = keep / h[i]
        carry = w - keep
    q = lwc[n - 1] * h[n - 1] + carry
    lwc[n - 1] = 0.0
    return s, q


def refreeze(s, C):
    s = copy(s)
    zt, ci, cw = C["zero_temperature"], C["spec_heat_ice"], C["spec_heat_water"]
    ri, rw, L, ra = C["ice_density"], C["water_density"], C["lat_heat_melting"], C["air_density"]
    cap = (C["snow_ice_threshold"] - ra) / (ri - ra)
    out = np.zeros(len(s["h"]))
    for i in range(len(s["h"])):
        T, w, f = s["T"][i], s["lwc"][i], s["ifr"][i]
        if T > zt or w <= 0:
            continue
        cold = zt - T
        lim_density = max((cap - f) * ri / rw, 0.0)
        lim_cold = cold * (f * ci * ri + w * rw * cw) / (rw * (L + cold * (ci - cw)))
        lim_bulk = ci * ri * f * cold / (rw * L)
        d = min(w, lim_density, lim_cold, lim_bulk)
        s["lwc"][i] = w - d
        s["ifr"][i] = f + d * rw / ri
        s["T"][i] = T + d * rw * L / (ci * ri * s["ifr"][i] + cw * rw * s["lwc"][i])
        out[i] = d * s["h"][i]
    return s, out


def heat(s, dt, C):
    s = copy(s)
    h, T = s["h"], s["T"].copy()
    n = len(h)
    if n < 3:
        return s
    K = diffusivity(s, C)
    dz = 0.5 * (h[:-1] + h[1:])
    Kf = 0.5 * (K[:-1] + K[1:])
    step = 0.8 * np.min(dz ** 2 / Kf) / 2
    done = 0.0
    vol = 0.5 * (dz[:-1] + dz[1:])
    while done < dt:
        d = min(step, dt - done)
        done += d
        q = Kf * (T[1:] - T[:-1]) / dz
        T[1:-1] = T[1:-1] + d * (q[1:] - q[:-1]) / vol
    s["T"] = T
    return s


def densify(s, slope, dt, C):
    m = C["densification_method"]
    s = copy(s)
    if m == "constant":
        return s
    rho, h, T, lwc, ifr = density(s, C), s["h"].copy(), s["T"], s["lwc"].copy(), s["ifr"].copy()
    zt, th, hm = C["zero_temperature"], C["snow_ice_threshold"], C["minimum_snow_layer_height"]
    n = nsnow(s, C)
    load = 0.0
    for i in range(n):
        if m == "empirical":
            drate = (600.0 - rho[i]) * dt / 8.0e5
            if not (1 - drate / rho[i]) < 1:
                continue
            new = 600.0 + (rho[i] - 600.0) * np.exp(-dt / 8.0e5)
            r = rho[i] / new
        else:
            if not (rho[i] < th and h[i] > hm):
                continue
            load += rho[0] * h[0] / 2 if i == 0 else rho[i - 1] * h[i - 1]
            if m == "Boone":
                eta = 3.7e7 * np.exp(0.081 * (zt - T[i]) + 0.018 * rho[i])
                r = 1 - dt * (load * 9.81 / eta + 2.8e-6 * np.exp(
                    -0.042 * (zt - T[i]) - 0.046 * max(0.0, rho[i] - 150)))
            else:
                f1 = 1 / (1 + 60.0 * lwc[i])
                eta = f1 * 7.62237e6 * rho[i] / 250 * np.exp(0.1 * (273.14 - T[i]) + 0.023 * rho[i])
                r = 1 - dt * 9.81 * np.cos(slope * np.pi / 180.0) * load / eta
        s["h"][i] = h[i] * r
        s["lwc"][i] = lwc[i] / r
        s["ifr"][i] = ifr[i] / r
    return s


# -- initial column -----------------------------------------------------------
def initial(T2_0, snowheight, C):
    zt, zb = C["zero_temperature"], C["temperature_bottom"]
    top = min(T2_0, zt)
    H, dzg = C["initial_glacier_height"], C["initial_glacier_layer_heights"]
    ng = int(H / dzg)
    S = 0.0 if (snowheight is None or np.isnan(snowheight)) else float(snowheight)
    grad = (top - zb) / (S + H)
    hs, rs, Ts = [], [], []
    if S > 0:
        ns = int(min(S / 0.1, 5))
        if ns == 0:
            hs, rs, Ts = [S], [C["initial_top_density_snowpack"]], [top]
        else:
            a, b = C["initial_top_density_snowpack"], C["initial_bottom_density_snowpack"]
            for k in range(1, ns + 1):
                hs.append(S / ns)
                rs.append(a + (b - a) * k / ns)
                Ts.append(top - grad * S * k / ns)
    base = Ts[-1] if Ts else top
    for k in range(1, ng + 1):
        hs.append(dzg)
        rs.append(C["ice_density"])
        Ts.append(base - grad * dzg * k)
    rs = np.array(rs, float)
    ifr = (rs - (1 - rs / C["ice_density"]) * C["air_density"]) / C["ice_density"]
    return col(hs, Ts, np.zeros(len(hs)), ifr)


# -- comparison ---------------------------------------------------------------
def close(a, b, rtol=1e-9, atol=1e-12):
    return bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float))
                       <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def diff(a, b, fields=("h", "T", "lwc", "ifr"), rtol=1e-8, atol=1e-11):
    """None when the two columns agree, else a short description."""
    if len(a["h"]) != len(b["h"]):
        return f"{len(a['h'])} layers, expected {len(b['h'])}"
    for f in fields:
        x, y = np.asarray(a[f], float), np.asarray(b[f], float)
        if not close(x, y, rtol, atol):
            i = int(np.argmax(~(np.abs(x - y) <= atol + rtol * np.maximum(np.abs(x), np.abs(y)))))
            return f"layer {i}: {f}={x[i]!r}, expected {y[i]!r}"
    return None
