"""C07 remeshing only redistributes."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns (deep, thin, wet, bare, firn; heights at/around the targets) remeshed by "
        "the real grid; non-trivial when the mesh changed. ops: single merge/split/correct operations. "
        "trace: whole-model layer structure. Distinct by rounded column state.")
REQUIRED = {"drive.calls": 150, "drive.changed": 80, "drive.dropped": 3, "ops.merge": 50,
            "ops.correct": 50, "ops.split": 50, "traces": 4, "drive.repeat": 50}

MESH = ["default", "adaptive", "adaptive-loose", "coarse", "tuned"]


def jobs(tier, seed):
    return (specs(MESH, "drive", tier, budget=(10, 80)) + specs(["default"], "ops", tier, budget=(6, 40)) +
            specs(["default", "adaptive", "adaptive-loose", "coarse"], "whole", tier, budget=(10, 80)))


def sums(s, C):
    return np.array([np.sum(s["h"] * s["ifr"]), np.sum(s["h"] * s["lwc"]), np.sum(s["h"]),
                     np.sum(s["h"] * s["T"])])


def drive(job):
    C, r = job.C, job.rng
    hm, h0, th = C["minimum_snow_layer_height"], C["first_layer_height"], C["snow_ice_threshold"]
    log = C["remesh_method"] == "log_profile"
    for i, c in columns(job):
        n = len(c["h"])
        if i % 5 == 0:
            c["h"][0] = float(r.choice([hm * 0.5, hm * 0.999, hm, hm * 1.01, h0, h0 * 1.0001, 0.3]))
        if i % 7 == 0 and c["nsnow"] > 2:
            k = int(r.integers(c["nsnow"]))
            c["h"][k] = hm * float(r.uniform(0.2, 1.2))
        if i % 6 == 0 and c["nsnow"] > 1:     # near-identical neighbours
            k = int(r.integers(c["nsnow"] - 1))
            for f in ("T", "lwc", "ifr"):
                c[f][k + 1] = c[f][k]
            c["T"][k + 1] += float(r.choice([0, 0.005, 0.0101]))
        if i % 17 == 9:                       # the last of the glacier, bare
            k = int(r.integers(2, 5))
            c = dict(c, **{f: c[f][-k:].copy() for f in ("h", "T", "lwc", "ifr")}, nsnow=0)
            c["h"][:] = r.uniform(hm * 1.5, h0 * 1.2, len(c["h"]))
            job.count("drive.remnant")
        else:
            c["h"][-1] = max(c["h"][-1], 4.0)     # a glacier below
        g = gen.make_grid(c)
        pre = as_ref(c)
        g.update_grid()
        post = grid_ref(g)
        job.count("drive.calls")
        ctx = lambda: {"column": c, "after": post}
        if len(post["h"]) == 0 or not all(np.all(np.isfinite(post[k])) for k in ("h", "T", "lwc", "ifr")):
            job.violation("structure", "remeshing emptied the column or produced NaN", ctx())
            continue
        lost = sums(pre, C) - sums(post, C)
        thin = pre["h"] <= hm
        budget = float(pre["h"][thin & ref.snow_mask(pre, C)].sum()) if not log else hm
        tol = 1e-9 * np.maximum(1.0, np.abs(sums(pre, C)))
        if lost[2] > tol[2]:
            job.count("drive.dropped")
            job.expect(lost[2] <= budget + hm + 1e-12, "dropped",
                       f"remeshing removed {lost[2]!r} m of column", ctx)
            job.expect(lost[0] <= lost[2] + 1e-12 and lost[0] >= -tol[0] and lost[1] >= -tol[1]
                       and lost[1] <= lost[2], "dropped-mass", f"lost sums {lost}", ctx)
        else:
            for k, (nm, what) in enumerate((("ice", "ice volume"), ("water", "liquid water"),
                                            ("height", "column height"), ("heat", "heat content"))):
                job.expect(abs(lost[k]) <= tol[k], nm, f"{what} changed by {-lost[k]!r} in remeshing", ctx)
        job.expect(post["props"] == pre["props"], "age", "remeshing changed the snow age", ctx)
        # one layer is dropped per step: another thin one may surface
        sm = ref.snow_mask(pre, C)
        layered = bool(np.all(sm[: int(sm.sum())]))      # snow on top of ice, no ice lenses
        job.expect(np.all(post["h"] > 0) and (post["h"][0] >= hm * (1 - 1e-12) or lost[2] > tol[2]), "thin-top",
                   f"top layer of {post['h'][0]} m remains below the minimum", ctx)
        job.expect(post["T"].max() <= pre["T"].max() + 1e-9 and post["T"].min() >= pre["T"].min() - 1e-9,
                   "range:T", "remeshing left the range of the layer temperatures", ctx)
        job.expect(np.all(post["lwc"] + post["ifr"] <= max(1.0, (pre["lwc"] + pre["ifr"]).max()) + 1e-9),
                   "range:fractions", "remeshing pushed volume fractions beyond 1", ctx)
        S = ref.snowheight(pre, C)
        rho1 = ref.density(post, C)
        job.count("drive.layered", layered)
        if layered and S >= h0 * (1.01 + C["layer_stretching"]) and rho1[0] < th and log:
            job.expect(abs(post["h"][0] - h0) <= 1e-12, "first-layer",
                       f"top layer is {post['h'][0]!r} m, not first_layer_height={h0}", ctx)
            k = int((rho1 < th).sum())
            tgt = h0 * C["layer_stretching"] ** np.arange(k)
            # (the lowest snow layers take up the remainder)
            full = max(1, min(k - 2, int(np.sum(np.cumsum(tgt) <= S)) - 2))
            job.expect(np.allclose(post["h"][:full], tgt[:full], rtol=1e-9), "stretching",
                       f"snow layers {post['h'][:k]} do not follow the logarithmic profile", ctx)
        es = ref.remesh(pre, C)
        d = ref.diff(post, es)
        job.expect(d is None, "mesh", f"remeshed column: {d}", ctx)
        changed = len(post["h"]) != len(pre["h"]) or not np.allclose(post["h"], pre["h"])
        job.count("drive.changed", changed)
        # a second remeshing right away must conserve as well
        if i % 3 == 0:
            job.count("drive.repeat")
            g.update_grid()
            p2 = grid_ref(g)
            job.expect(ref.diff(p2, ref.remesh(post, C)) is None, "mesh-repeat",
                       f"second remeshing: {ref.diff(p2, ref.remesh(post, C))}", ctx)
        job.evaluated(10, gen.signature(c) if changed else None)
        job.sample({"h": pre["h"][:8], "h_after": post["h"][:8]})


def ops(job):
    C, r = job.C, job.rng
    for i, c in columns(job):
        n = len(c["h"])
        pre = as_ref(c)
        ctx = lambda: {"column": c, "op": op, "after": post}
        k = int(r.integers(n - 1))
        g = gen.make_grid(c)
        op = ("merge", "split", "correct")[i % 3]
        if op == "merge":
            g.merge_nodes(k)
            exp = ref.copy(pre)
            ref.merge(exp, k)
        elif op == "split":
            g.split_node(k)
            exp = ref.copy(pre)
            exp["h"][k] /= 2
            ref._ins(exp, k + 1, exp["h"][k], exp["T"][k], exp["lwc"][k], exp["ifr"][k])
        else:
            t = float(r.choice([c["h"][k] * r.uniform(0.1, 0.9), c["h"][k], c["h"][k] * r.uniform(1, 4)]))
            g.correct_layer(k, t)
            exp = ref.copy(pre)
            ref.correct(exp, k, t, C)
        post = grid_ref(g)
        job.count(f"ops.{op}")
        lost = sums(pre, C) - sums(post, C)
        job.expect(np.all(np.abs(lost) <= 1e-9 * np.maximum(1, np.abs(sums(pre, C)))), f"{op}-conservation",
                   f"{op} changed ice/water/height/heat sums by {-lost}", ctx)
        d = ref.diff(post, exp)
        job.expect(d is None, f"{op}-result", f"{op}: {d}", ctx)
        job.expect(post["props"] == pre["props"] and g.get_number_layers() == len(post["h"]), f"{op}-count",
                   f"{op} left an inconsistent layer count", ctx)
        job.evaluated(3, (op, k) + gen.signature(c))


def whole(job):
    def sig(act, exp, st, now):
        return (len(now["h"]), tuple(np.round(now["h"][:5], 5)))

    judge_trace(job, ["NLAYERS", "TOTALHEIGHT"], state=("h", "ifr", "lwc", "T"), interesting=sig)
