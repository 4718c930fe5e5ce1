"""C35 the column's layer store: every accessor and operation against an independently kept list of layers."""
import numpy as np

from checks.common import FULL, as_ref, columns, specs
from harness import gen, ref

RULE = ("random histories of 30 operations (add, remove one/several/default, merge, split, resize, update, node and whole-column "
        "setters, melt at any layer, snow age clocks) on random columns (ice lenses, single layers, saturated); after every operation "
        "all getters are read and compared with a shadow list of layers. Distinct by operation, position and column.")
REQUIRED = {"histories": 60, "op.add": 30, "op.flurry": 5, "op.remove": 20, "op.remove-many": 20, "op.remove-default": 10, "op.merge": 30,
            "op.split": 30, "op.correct": 30, "op.update": 30, "op.set-node": 60, "op.set-all": 30, "op.melt": 30, "op.clock": 10,
            "lenses": 30, "single": 10, "compiled": 20, "removed-by-melt": 10}
V = ["default", "tuned", "physics", "k-empirical"]


def jobs(tier, seed):
    out = specs(V, "store", tier, budget=(8, 90))
    out.append(dict(name="store-compiled", func="store", mode="compiled", config=FULL, budget_s=100 if tier == "quick" else 400,
                    timeout_s=400 if tier == "quick" else 800, params={"variant": "default", "max": 80 if tier == "quick" else 2000}))
    return out


def derived(s, C):
    """Everything a getter reports that follows from the layers."""
    th = C["snow_ice_threshold"]
    rho = ref.density(s, C)
    h = s["h"]
    top = np.concatenate([[0.0], np.cumsum(h)[:-1]])
    return dict(height=h, temperature=s["T"], liquid_water_content=s["lwc"], ice_fraction=s["ifr"], density=rho,
                porosity=1 - s["lwc"] - s["ifr"], irreducible_water_content=ref.irreducible(s["ifr"]),
                cold_content=ref.cold_content(s, C), specific_heat=ref.specific_heat(s, C),
                thermal_conductivity=ref.conductivity(s, C), thermal_diffusivity=ref.diffusivity(s, C), depth=top + h / 2)


TOL = dict(cold_content=1e-5)


def inspect(job, g, s, refr, C, r, ctx):
    e = derived(s, C)
    n = len(s["h"])
    job.expect(g.get_number_layers() == n, "layers", f"{g.get_number_layers()} layers, expected {n}", ctx)
    for k, v in e.items():
        got = np.array(getattr(g, "get_" + k)(), float)
        ok = len(got) == n and ref.close(got, v, 1e-9, TOL.get(k, 1e-12))
        job.expect(ok, f"profile:{k}", lambda: f"get_{k}() gives {got[:6]}, the layers hold {np.asarray(v)[:6]}", ctx)
        if n and k != "depth":
            i = int(r.integers(n))
            x = float(getattr(g, "get_node_" + k)(i))
            job.expect(ref.close(x, v[i], 1e-9, TOL.get(k, 1e-12)), f"node:{k}", lambda: f"get_node_{k}({i}) is {x!r}, the layer holds {v[i]!r}", ctx)
    for i in {0, n - 1, int(r.integers(n))}:
        job.expect(ref.close(g.get_node_depth(i), e["depth"][i]), "node:depth",
                   lambda: f"layer {i} is {e['depth'][i]!r} m deep, get_node_depth says {g.get_node_depth(i)!r}", ctx)
    got = np.array(g.get_refreeze(), float)
    known = ~np.isnan(refr)
    job.expect(len(got) == n and np.array_equal(got[known], refr[known]), "refreeze", "a layer's refrozen water went elsewhere", ctx)
    rho = e["density"]
    margin = np.abs(rho - C["snow_ice_threshold"]) > 1e-6
    if margin.all():
        sm = rho < C["snow_ice_threshold"]
        job.expect(g.get_number_snow_layers() == sm.sum(), "snow-layers", "number of snow layers", ctx)
        job.expect(ref.close(np.array(g.get_snow_heights(), float).sum(), s["h"][sm].sum()) and len(g.get_snow_heights()) == sm.sum(), "snow-heights",
                   "heights of the snow layers", ctx)
        job.expect(ref.close(np.array(g.get_ice_heights(), float).sum(), s["h"][~sm].sum()) and len(g.get_ice_heights()) == (~sm).sum(), "ice-heights",
                   "heights of the ice layers", ctx)
        job.expect(ref.close(g.get_total_snowheight(), s["h"][sm].sum(), 1e-9, 1e-12), "snow-height",
                   lambda: f"snow height {g.get_total_snowheight()!r}, the snow layers add up to {s['h'][sm].sum()!r}", ctx)
        first_ice = int(np.argmin(sm)) if not sm.all() else n
        job.count("lenses", bool(sm[first_ice:].any()))
    job.expect(ref.close(g.get_total_height(), s["h"].sum()), "total-height", "height of the column", ctx)
    props = tuple(float(x) for x in g.get_fresh_snow_props())
    job.expect(ref.close(props, s["props"], 1e-12, 1e-12), "clocks", f"snow age {props}, expected {s['props']}", ctx)
    job.count("single", n == 1)


def step(job, g, s, refr, C, r):
    """One random operation on the real grid `g` and the shadow; returns (name, position, shadow, refrozen)."""
    n = len(s["h"])
    ops = ["add", "split", "correct", "update", "set-node", "set-all", "clock", "flurry", "melt"] + (["remove", "remove-many", "remove-default", "merge", "merge"] if n > 1 else [])
    if n > 60:
        ops = ["merge", "remove", "remove-many"]
    op = str(r.choice(ops))
    k = int(r.integers(n))
    s = ref.copy(s)
    hs, ts = float(r.uniform(0.005, 0.5)), float(r.uniform(240, 273.16))
    w, f = float(r.uniform(0, 0.2)), float(r.uniform(0.05, 0.8))
    if op in ("add", "flurry"):
        rho, dt = float(r.uniform(60, 400)), int(r.choice([900, 3600]))
        height = float(r.uniform(1.01, 40) * C["minimum_snowfall"]) if op == "add" else float(C["minimum_snowfall"] * r.uniform(0.2, 0.99))
        g.add_fresh_snow(height, rho, ts, 0.0, dt)
        s = ref.add_snow(s, height, rho, ts, dt, C)
        refr = np.r_[0.0, refr]
    elif op == "remove":
        g.remove_node([k])
        ref._del(s, k)
        refr = np.delete(refr, k)
    elif op == "remove-many":
        m = int(r.integers(1, min(n, 4)))
        ks = [int(x) for x in r.permutation(n)[:m]]
        g.remove_node(ks)
        ref._del(s, ks)
        refr = np.delete(refr, ks)
    elif op == "remove-default":
        g.remove_node()
        ref._del(s, 0)
        refr = refr[1:]
    elif op == "merge":
        k = int(r.integers(n - 1))
        g.merge_nodes(k)
        ref.merge(s, k)
        refr = np.delete(refr, k + 1)
        refr[k] = np.nan
    elif op == "split":
        g.split_node(k)
        s["h"][k] /= 2
        ref._ins(s, k + 1, s["h"][k], s["T"][k], s["lwc"][k], s["ifr"][k])
        refr = np.insert(refr, k + 1, np.nan)
        refr[k] = np.nan
    elif op == "correct":
        t = float(s["h"][k] * r.choice([r.uniform(0.1, 0.9), r.uniform(1.1, 4)]))
        before = len(s["h"])
        g.correct_layer(k, t)
        old = ref.copy(s)
        ref.correct(s, k, t, C)
        below = before - (k + 1)
        # the layers further down are the old ones
        keep = 0
        while keep < min(below, len(s["h"]) - k - 1) and s["h"][-1 - keep] == old["h"][-1 - keep] and s["T"][-1 - keep] == old["T"][-1 - keep] \
                and s["ifr"][-1 - keep] == old["ifr"][-1 - keep]:
            keep += 1
        refr = np.r_[refr[:k], [np.nan] * (len(s["h"]) - k - keep), refr[before - keep:]]
    elif op == "update":
        g.update_node(k, hs, ts, f, w)
        s["h"][k], s["T"][k], s["ifr"][k], s["lwc"][k] = hs, ts, f, w
    elif op == "set-node":
        g.set_node_height(k, hs)
        k2, k3, k4, k5 = (int(x) for x in r.integers(n, size=4))
        g.set_node_temperature(k2, ts)
        g.set_node_ice_fraction(k3, f)
        w2 = float(r.uniform(0, 0.05))
        g.set_node_liquid_water_content(k4, w2)
        s["h"][k], s["T"][k2], s["ifr"][k3], s["lwc"][k4] = hs, ts, f, w2
        x = float(r.uniform(0, 0.01))
        g.set_node_refreeze(k5, x)
        refr = refr.copy()
        refr[k5] = x
    elif op == "set-all":
        T, W, F, H, R = (r.uniform(240, 273.16, n), r.uniform(0, 0.1, n), r.choice([1.0, 0.5], n) * r.uniform(0.1, 0.88, n),
                         r.uniform(0.005, 0.6, n), r.uniform(0, 0.01, n))
        which = [bool(b) for b in r.random(5) < 0.5]
        if which[0]:
            g.set_temperature(T)
            s["T"][:] = T
        if which[1]:
            g.set_liquid_water_content(W)
            s["lwc"][:] = W
        if which[2]:
            g.set_ice_fraction(F)
            s["ifr"][:] = F
        if which[3]:
            g.set_height(H)
            s["h"][:] = H
        if which[4]:
            g.set_refreeze(R)
            refr = R.copy()
    elif op == "melt":
        tot = float((s["h"] * ref.density(s, C)).sum() / C["water_density"])
        k = 0
        melt = float(min(r.choice([1e-5, 0.002, 0.02, 0.1]) * r.uniform(0.5, 2), 0.8 * tot))
        freed = g.remove_melt_weq(melt)
        before = len(s["h"])
        s, e = ref.remove_melt(s, melt, C)
        refr = refr[before - len(s["h"]):]
        job.count("removed-by-melt", len(s["h"]) < before)
        job.expect(ref.close(freed, e, 1e-9, 1e-12), "melt-water", lambda: f"melt freed {freed!r} m of water, the vanished layers held {e!r}", lambda: dict(melt=melt))
    elif op == "clock":
        a = int(r.integers(4))
        h0, tn, to = s["props"]
        if a == 0:
            g.set_fresh_snow_props(hs)
            s["props"] = (hs, 0.0, tn)
        elif a == 1:
            g.set_fresh_snow_props_to_old_props()
            s["props"] = (h0, to, to)
        elif a == 2:
            g.set_fresh_snow_props_update_time(900)
            s["props"] = (h0, tn + 900, to + 900)
        else:
            g.set_fresh_snow_props_height(hs)
            s["props"] = (hs, tn, to)
    job.count("op." + op)
    return op, k, s, refr


def store(job):
    C, r = job.C, job.rng
    for i, c in columns(job, n=job.params.get("max", 10 ** 9)):
        if i % 9 == 4:
            c = dict(c, **{f: c[f][-1:].copy() for f in ("h", "T", "lwc", "ifr")}, nsnow=0)
        g = gen.make_grid(c)
        s = as_ref(c)
        refr = np.zeros(len(s["h"]))
        history = []
        ctx = lambda: {"column": c, "history": history}
        inspect(job, g, s, refr, C, r, ctx)
        for _ in range(30):
            op, k, s, refr = step(job, g, s, refr, C, r)
            history.append((op, k))
            if len(s["h"]) == 0:
                break
            inspect(job, g, s, refr, C, r, ctx)
            job.evaluated(30, (op, k, len(s["h"]), round(float(s["h"].sum()), 3), round(float(s["T"].sum()), 1)))
        job.count("histories")
        job.count("compiled", job.spec.get("mode") == "compiled")
        job.sample({"history": history[:10], "layers": len(s["h"])})
