"""P14: Dogleg steps and the trust region."""
import torch

import theseus as th
from theseus.optimizer.nonlinear.trust_region import TrustRegion
from opt import *  # noqa

PROPERTY = "P14"
EXPLAIN = ("Dogleg._compute_delta_impl is executed with free gradient, jacobian, Gauss-Newton step and radius, and its step is compared with the dogleg path; "
           "TrustRegion.optimize is executed on an arbitrary problem (free errors, jacobians and steps) and the radius and acceptance of every batch element are "
           "compared with the specification on every path.")
BOUNDS = "1-2 unknowns, batch 1-2, 1-2 iterations (3 in the thorough tier), free radius from 1e-5 to 1e5, free thresholds and ratios, radius limits reached"
ASSUMPTIONS = ["real arithmetic instead of floating point", "relative tolerance 1e-3 of the radius for step lengths (the code regularizes by 1e-7)",
               "the Cauchy point is g |g|^2/(|A g|^2 + 1e-7), as the code regularizes it", "convergence tolerances are zero here"]
BUDGET = 110
TOL = 1e-3


class GN(th.Dogleg):
    """records the radius each step was computed with"""
    def compute_delta(self, **kw):
        d = super().compute_delta(**kw)
        self.rec.append(dict(tr=self._trust_region, delta=d))
        return d


class FreeStep(TrustRegion):
    """a trust region method whose steps are free"""
    def _compute_delta_impl(self):
        d = self.linear_solver.solve()
        self.rec.append(dict(tr=self._trust_region, delta=d))
        return d


@contextlib.contextmanager
def eps(v):
    """the regularization constant of the class, set to another value"""
    old = th.Dogleg.EPS
    if v is not None:
        th.Dogleg.EPS = v
    try:
        yield
    finally:
        th.Dogleg.EPS = old


def path(cx, kinds, n=2, radius=None, reg=None, ratio=None):
    """the step of each element, from its own gradient, Gauss-Newton step and radius"""
    w = World(cx, n, n)
    B = len(kinds)
    r = Run(cx, w, GN, list(range(B)), x0=torch.zeros(B, n, dtype=cx.dtype), max_iterations=1)
    rs, gns, cs = [], [], []
    for b, k in enumerate(kinds):
        st = w.state(b, r.x.tensor[b])
        rad = cx.real("r%d" % b, box=True, lo=1e-2, hi=1e2) if radius is None else torch.tensor(radius, dtype=cx.dtype)
        # gradient along the first axis; the path lives in the plane of gradient and step
        sc = 1.0 if radius is None else max(min(radius, 10.0), 1e-3)
        j = cx.real("j%d" % b, pos=True, lo=0.3, hi=1.5) if reg is not None and n > 1 else torch.ones((), dtype=cx.dtype)
        e = cx.real("e%d" % b, lo=-3 * sc, hi=3 * sc) if ratio is None else \
            torch.tensor(-(radius or 1.0) * ratio * (1 if k != "out" else 2.5), dtype=cx.dtype)
        cx.assume(e ** 2 >= 1e-12)
        z = torch.zeros_like(e)
        w.J[b, st] = torch.diag(torch.stack([j] * n))
        E = torch.stack([e] + [z] * (n - 1))
        w.E[b, st] = E
        g = -j * e
        gn = cx.real("gn%d" % b, n, lo=-3 * sc, hi=3 * sc)
        w.steps[b, st, None] = gn
        c = torch.stack([g * (g * g) / ((j * g) ** 2 + (1e-7 if reg is None else reg))] + [z] * (n - 1))
        c2, gn2 = (c ** 2).sum(), (gn ** 2).sum()
        # holds for the exact Gauss-Newton step (Nocedal and Wright, lemma 4.2)
        cx.assume((c * (gn - c)).sum() >= 0)
        if reg is not None:
            cx.assume(((gn - c) ** 2).sum() > 0)
        cx.assume({"in": gn2 < rad ** 2, "cauchy": (c2 <= rad ** 2) & (gn2 >= rad ** 2), "out": c2 > rad ** 2}[k])
        rs.append(rad), gns.append(gn), cs.append(c)
    r.opt.rec = []
    with torch.no_grad(), eps(reg):
        r.opt.reset(trust_region_init=1.0, backward_mode=th.BackwardMode.UNROLL)
        r.opt._trust_region = torch.stack(rs).reshape(B, 1)
        r.opt.linear_solver.linearization.linearize()
        s = r.opt.compute_delta()
    for b, k in enumerate(kinds):
        d, rad, gn, c = s[b], rs[b], gns[b], cs[b]
        if k == "in":
            cx.le(((d - gn) ** 2).sum(), (TOL * rad) ** 2, "the Gauss-Newton step when it fits")
            continue
        cx.le((d ** 2).sum(), ((1 + TOL) * rad) ** 2, "no longer than the radius")
        cx.le(((1 - TOL) * rad) ** 2, (d ** 2).sum(), "reaches the radius")
        if k == "out":
            cx.eq(d[1:], torch.zeros_like(d[1:]), "along the gradient")
            cx.true(d[0] * c[0] >= 0, "downhill")
        else:
            # c + tau (gn - c) with 0 <= tau <= 1
            for i in range(1, n):
                cx.eq((d[0] - c[0]) * (gn[i] - c[i]), (d[i] - c[i]) * (gn[0] - c[0]), "on the segment", tol=1e-9)
            for i in range(1 if ratio is not None or n == 1 else 0):
                cx.true((d[i] - c[i]) * (gn[i] - c[i]) >= 0, "from the Cauchy point")
                if n == 1:
                    cx.le((d[i] - c[i]) ** 2, (gn[i] - c[i]) ** 2, "towards the Gauss-Newton step")


def update(cx, batch, iters, n=1, m=1, free=False, r0=None, size=1.0, lims=False, **par):
    """acceptance and radius for any step"""
    w = World(cx, n, m)
    p = dict(accept_threshold=0.0, shrink_threshold=0.25, expand_threshold=0.75, shrink_ratio=0.25, expand_ratio=2.0,
             min_trust_region=1e-5, max_trust_region=1e5)
    p.update(par)
    if free:
        a, sh, ex = (cx.real(k, lo=lo, hi=hi) for k, lo, hi in (("acc", 0, 0.2), ("shr", 0.25, 0.5), ("exp", 0.6, 0.9)))
        cx.assume((a < sh) & (sh < ex))
        p.update(accept_threshold=a.item(), shrink_threshold=sh.item(), expand_threshold=ex.item(),
                 shrink_ratio=cx.real("sr", box=True, lo=0.1, hi=1).item(), expand_ratio=cx.real("er", box=True, lo=1, hi=4).item())
    given = {k: v for k, v in p.items() if free or k in par}
    rad = cx.real("r", box=True, lo=1e-2, hi=10).item() if r0 is None else r0

    def pred(rec, b):
        d = rec["step"][b]
        Ad = rec["A"][b] @ d
        return (d * rec["Atb"][b]).sum() - (Ad ** 2).sum() / 2

    def fact(rec):
        rec["step"] = rec["delta"] * size
        for b in range(batch):
            cx.assume(pred(rec, b) > 0)
    r = Run(cx, w, FreeStep, list(range(batch)), fact=fact, max_iterations=iters, step_size=size, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    r.opt.rec = []
    with torch.no_grad():
        r.optimize(trust_region_init=rad, **given)
    log, radii = r.log, [q["tr"] for q in r.opt.rec] + [r.opt._trust_region]
    end = [w.state(b, row) for b, row in enumerate(r.x.tensor.unbind(0))]
    cx.same(len(radii), len(log) + 1, "one radius per attempt")
    cx.eq(radii[0], torch.full((batch, 1), 1.0, dtype=cx.dtype) * rad, "initial radius")
    stays = []
    for j, rec in enumerate(log):
        nxt = log[j + 1]["states"] if j + 1 < len(log) else end
        stays.append([])
        for b in range(batch):
            x, d = rec["x"][b], rec["step"][b]
            cand = x + d
            k1 = w.state(b, cand)
            rho = (w.metric(b, x) - w.metric(b, cand)) / pred(rec, b)
            stay = nxt[b] == rec["states"][b]
            stays[-1].append(stay)
            cx.true(nxt[b] in (rec["states"][b], k1), "the next point is the current one or the step's")
            rej = rho < p["accept_threshold"]
            cx.true(rej if stay else ~rej, "rejected exactly when the ratio is below the acceptance threshold")
            lo, l1 = radii[j][b, 0], radii[j + 1][b, 0]
            want = torch.where(rho < p["shrink_threshold"], lo * p["shrink_ratio"], lo)
            want = torch.where(rho > p["expand_threshold"], want * p["expand_ratio"], want)     # the thresholds exclude both
            want = torch.clamp(want, p["min_trust_region"], p["max_trust_region"])
            cx.eq(l1, want, "radius after the step", numtol=1e-9)
            cx.true((l1 >= p["min_trust_region"]) & (l1 <= p["max_trust_region"]), "radius within its limits")
    cx.same(iterations(stays), iters, "iterations used")


def params(cx, **bad):
    w = World(cx, 1, 1)
    r = Run(cx, w, FreeStep, [0], max_iterations=1)
    r.opt.rec = []
    with torch.no_grad():
        cx.raises(ValueError, lambda: r.optimize(**bad), "invalid parameters are refused")


def again(cx):
    """a second optimization starts from the radius it is given, not the last one"""
    w = World(cx, 1, 1)

    def fact(rec):
        d = rec["delta"][0]
        cx.assume((d * rec["Atb"][0]).sum() - ((rec["A"][0] @ d) ** 2).sum() / 2 > 0)
    r = Run(cx, w, FreeStep, [0], fact=fact, max_iterations=1, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    r.opt.rec = []
    with torch.no_grad():
        r.optimize(trust_region_init=0.25)
        k = len(r.opt.rec)
        r.optimize(trust_region_init=3.0)
    cx.eq(r.opt.rec[0]["tr"], torch.full((1, 1), 0.25, dtype=cx.dtype), "first")
    cx.eq(r.opt.rec[k]["tr"], torch.full((1, 1), 3.0, dtype=cx.dtype), "second")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=400, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    combos = (("in",), ("cauchy",), ("out",), ("in", "out"), ("in", "cauchy"), ("cauchy", "out"), ("out", "cauchy"), ("cauchy", "in"))
    for ks in combos:
        add("path.ideal." + ".".join(ks), path, kinds=ks, reg=0.0)
        if tier != "quick":
            add("path.n3." + ".".join(ks), path, kinds=ks, n=3, reg=0.0)
    for g in (None, 1e-5, 1e-3, 1.0, 1e3, 1e5):
        for q in (0.5, 0.999):
            for ks in (("cauchy",), ("cauchy", "in"), ("cauchy", "out")):
                if g is None and "in" in ks:
                    continue
                if g == 1e-5 and "out" in ks:
                    continue        # such a gradient is below the regularization
                add("path.r%s.c%g.%s" % (g, q, ".".join(ks)), path, kinds=ks, radius=g, n=1, ratio=q, opts=dict(tol_timeout=30.0) if g is None else None)
                if g is not None and "in" not in ks:
                    add("path.n2.r%s.c%g.%s" % (g, q, ".".join(ks)), path, kinds=ks, radius=g, n=2, ratio=q)
    add("update.b1.it2", update, batch=1, iters=2)
    add("update.b2.it1", update, batch=2, iters=1)
    add("update.b1.n2", update, batch=1, iters=1, n=2, m=2)
    add("update.b2.free", update, batch=2, iters=1, free=True)
    add("update.b1.free", update, batch=1, iters=1, free=True)
    add("update.size", update, batch=2, iters=1, size=0.5)
    add("update.min", update, batch=2, iters=1, r0=2e-5)
    add("update.max", update, batch=2, iters=1, r0=9e4)
    add("update.limits", update, batch=2, iters=1, r0=1.0, min_trust_region=0.7, max_trust_region=1.5)
    add("update.accept", update, batch=2, iters=1, accept_threshold=0.2, shrink_threshold=0.5, expand_threshold=0.6, shrink_ratio=0.5, expand_ratio=3.0)
    for i, bad in enumerate((dict(shrink_ratio=0.0), dict(shrink_ratio=1.5), dict(expand_ratio=0.5), dict(shrink_threshold=0.8), dict(accept_threshold=0.3))):
        add("params.%d" % i, params, **bad)
    add("again", again)
    if tier != "quick":
        add("update.b2.it2", update, batch=2, iters=2, opts=dict(max_paths=4000))
        add("update.b1.it3", update, batch=1, iters=3, opts=dict(max_paths=4000))
        add("update.b3.it1", update, batch=3, iters=1, opts=dict(max_paths=4000))
    return out
