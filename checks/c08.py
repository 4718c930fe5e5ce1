"""C08 removal of melt."""
import numpy as np

from checks.common import as_ref, columns, grid_ref, judge_trace, specs
from harness import gen, ref

RULE = ("drive: random columns x melt amounts from 0 over exact layer masses to several layers; "
        "non-trivial when melt > 0. trace: whole-model steps with melt. Distinct by rounded column, melt.")
REQUIRED = {"drive.calls": 200, "drive.partial": 80, "drive.layers_removed": 80, "drive.wet_removed": 30,
            "drive.nonpositive": 20, "drive.exact": 20, "traces": 4, "trace.melt_steps": 20}


def jobs(tier, seed):
    return (specs(["default", "tuned"], "drive", tier, budget=(10, 80)) +
            specs(["default", "adaptive", "dt3h"], "whole", tier, params={"flavours": 1}))


def drive(job):
    C, r = job.C, job.rng
    for i, c in columns(job):
        n = len(c["h"])
        pre = as_ref(c)
        rho = ref.density(pre, C)
        swe = pre["h"] * rho / C["water_density"]
        j = int(r.integers(0, min(5, n - 1)))
        melt = float(r.choice([0.0, -1e-4, 1e-7, swe[0] * r.uniform(0, 1), swe[0] * (1 + 1e-7), swe[0] * (1 - 1e-7), r.uniform(0, 0.05),
                               float(swe[: j + 1].sum()) * r.uniform(0.3, 1.0)]))
        melt = min(melt, 0.9 * float(swe.sum()))
        g = gen.make_grid(c)
        if i % 6 == 0 and n > 1:              # the mass of the top layer exactly, as the model computes it, and next to it
            h0, d0, rw = g.get_node_height(0), g.get_node_density(0), C["water_density"]
            melt = float([h0 * (d0 / rw), h0 * d0 / rw, np.nextafter(h0 * (d0 / rw), 9), np.nextafter(h0 * (d0 / rw), 0)]
                         [i // 6 % 4])
            job.count("drive.exact")
        exact = i % 6 == 0 and n > 1
        freed = float(g.remove_melt_weq(melt))
        post = grid_ref(g)
        job.count("drive.calls")
        ctx = lambda: {"column": c, "melt": melt, "returned": freed, "after": post}
        k = n - len(post["h"])
        if k < 0 or len(post["h"]) == 0:
            job.violation("structure", f"layer count {n} -> {len(post['h'])}", ctx())
            continue
        M0, M1 = float(swe.sum()), float(np.sum(post["h"] * ref.density(post, C)) / C["water_density"])
        lw = float(np.sum(pre["lwc"][:k] * pre["h"][:k]))
        if melt <= 0:
            job.count("drive.nonpositive")
            job.expect(k == 0 and ref.diff(post, pre, rtol=0, atol=0) is None and freed == 0, "nonpositive",
                       "a non-positive melt changed the column", ctx)
        job.expect(abs(freed - lw) <= 1e-12, "returned-water",
                   f"returned {freed!r} m of liquid water, removed layers held {lw!r}", ctx)
        job.expect(abs((M0 - M1) - (max(melt, 0.0) + lw)) <= 1e-10, "amount",
                   f"column lost {M0 - M1!r} m w.e., melt {melt!r} + freed water {lw!r}", ctx)
        if k:
            job.count("drive.layers_removed")
            job.count("drive.wet_removed", lw > 0)
        # below the (new) top layer nothing changes; the top layer only gets thinner
        for f in ("h", "T", "lwc", "ifr"):
            lo = 1 if f == "h" else 0
            job.expect(np.array_equal(post[f][lo:], pre[f][k + lo:]), f"touched:{f}",
                       f"melt removal changed {f} of remaining layers", ctx)
        job.expect(0 < post["h"][0] <= pre["h"][k] * (1 + 1e-12), "top", "top layer height not reduced properly", ctx)
        job.expect(post["props"][1:] == pre["props"][1:], "age", "melt removal changed the snow age", ctx)
        if melt > 0 and k == 0:
            job.count("drive.partial")
        es, ef = ref.remove_melt(pre, melt, C)
        d = ref.diff(post, es)
        # within rounding of the layer's mass the layer may go or leave a sliver, everything else is fixed above
        job.expect(d is None or exact and abs(melt - swe[0]) <= 1e-14, "order", f"top-down removal: {d}", ctx)
        job.evaluated(8, (gen.signature(c), round(melt, 6)) if melt > 0 else None)
        job.sample({"melt": melt, "removed_layers": k, "freed": freed, "swe": swe[:5]})


def whole(job):
    def sig(act, exp, st, now):
        job.count("trace.melt_steps", act["surfM"] > 0)
        return (round(act["surfM"], 7), len(now["h"])) if act["surfM"] > 0 else None

    judge_trace(job, ["surfM", "TOTALHEIGHT", "NLAYERS"], state=("h",), interesting=sig)
