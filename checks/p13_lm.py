"""P13: adaptive Levenberg-Marquardt."""
import torch

import theseus as th
from symtorch.tensor import SymScalar
from opt import *  # noqa

PROPERTY = "P13"
EXPLAIN = ("LevenbergMarquardt.optimize runs on an arbitrary problem: errors and jacobians at every visited point and the linear solver's steps are free "
           "values.  Every solver call records damping, point and step; acceptance, the new point and the new damping of every batch element are "
           "compared with the specification, on every path of accepted and rejected steps.")
BOUNDS = ("1-2 unknowns and residuals, batch 1-2 (3 in the thorough tier), 1-3 iterations with every pattern of rejections (up to 3 attempts each), "
          "free initial damping, acceptance threshold and ratios, damping limits reached, absolute and ellipsoidal damping, constant damping")
ASSUMPTIONS = ["real arithmetic instead of floating point", "convergence tolerances are zero here (convergence is P15)",
               "steps have a positive predicted decrease, as every step of a damped solver does",
               "points visited by an element are evaluated consistently (a point gets one error and jacobian)"]
BUDGET = 110

MIN, MAX = 1e-7, 1e7


def half_den(rec, i):
    """predicted decrease of element i for the recorded step (half squared errors)"""
    d, lam, g = rec["step"][i], rec["lam"][i], rec["Atb"][i]
    D = (rec["A"][i] ** 2).sum(0) if rec["ell"] else torch.ones_like(d)
    return (d * (lam * D * d + g)).sum() / 2


def run(cx, batch, n, m, iters, ell=False, free=False, lam0=None, size=1.0, acc=None, up=None, down=None):
    w = World(cx, n, m)
    kw = {}
    if free:
        acc = cx.real("acc", lo=0.0, hi=0.5).item()
        up = cx.real("up", pos=True, lo=1.5, hi=20).item()
        down = cx.real("down", pos=True, lo=1.5, hi=20).item()
    if acc is not None:
        kw.update(damping_accept=acc, up_damping_ratio=up, down_damping_ratio=down)
    acc_, up_, down_ = (0.1, 11.0, 9.0) if acc is None else (acc, up, down)
    lam = cx.real("lam", box=True, lo=1e-3, hi=2).item() if lam0 is None else lam0

    def fact(rec):
        rec["step"] = rec["delta"] * size
        for i in range(batch):
            cx.assume(half_den(rec, i) > 0)
    r = Run(cx, w, th.LevenbergMarquardt, list(range(batch)), fact=fact, max_iterations=iters, step_size=size,
            abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    with torch.no_grad():
        r.optimize(adaptive_damping=True, damping=lam, ellipsoidal_damping=ell, **kw)
    log = r.log
    end = [w.state(b, row) for b, row in enumerate(r.x.tensor.unbind(0))]
    lam_end = r.opt._damping if isinstance(getattr(r.opt, "_damping", None), torch.Tensor) else None
    cx.true(len(log) >= iters, "at least one attempt per iteration")
    cx.same(tuple(log[0]["lam"].shape), (batch,), "one damping value per element")
    for i in range(batch):
        cx.eq(log[0]["lam"][i], torch.as_tensor(lam, dtype=cx.dtype), "initial damping")
    stays = []
    for j, rec in enumerate(log):
        nxt = log[j + 1]["states"] if j + 1 < len(log) else end
        stays.append([])
        for b in range(batch):
            x, d = rec["x"][b], rec["step"][b]
            cand = x + d
            k1 = w.state(b, cand)
            rho = (w.metric(b, x) - w.metric(b, cand)) / half_den(rec, b)
            rej = rho <= acc_
            stay = nxt[b] == rec["states"][b]
            stays[-1].append(stay)
            cx.true(nxt[b] in (rec["states"][b], k1), "the next point is the current one or the step's")
            cx.true(rej if stay else ~rej, "rejected exactly when the ratio is not above the threshold")
            l1 = log[j + 1]["lam"][b] if j + 1 < len(log) else (lam_end[b] if lam_end is not None else None)
            if l1 is not None:
                lo = rec["lam"][b]
                want = torch.clamp(lo * up_ if stay else lo / down_, MIN, MAX)
                cx.eq(l1, want, "damping after a %s step" % ("rejected" if stay else "accepted"), numtol=1e-9)
                cx.true((l1 >= MIN) & (l1 <= MAX), "damping within its limits")
                if isinstance(lam, float) and not isinstance(lam, SymScalar):
                    cx.true((l1 >= lo) | (lo > MAX) if stay else (l1 <= lo) | (lo < MIN), "rejection raises, acceptance lowers")
    cx.same(iterations(stays), iters, "iterations used")
    for b in range(batch):
        cx.same(end[b] in set(rec["states"][b] for rec in log) | {w.state(b, log[-1]["x"][b] + log[-1]["step"][b])}, True, "final point")


def constant(cx, batch, lam0):
    """without adaptive damping every step is taken and the damping never changes"""
    w = World(cx, 1, 1)
    lam = cx.real("lam", pos=True, lo=0.01, hi=2).item() if lam0 is None else lam0
    r = Run(cx, w, th.LevenbergMarquardt, list(range(batch)), max_iterations=2, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    with torch.no_grad():
        r.optimize(**(dict(damping=lam) if lam is not None else {}))
    cx.same(len(r.log), 2, "one solve per iteration")
    for rec, nx in zip(r.log, [r.log[1]["x"], r.x.tensor]):
        for b in range(batch):
            cx.eq(rec["lam"][b], torch.as_tensor(lam, dtype=cx.dtype), "damping")
        cx.eq(nx, rec["x"] + rec["delta"], "every step is taken")


def again(cx):
    """a second optimization starts from the damping it is given"""
    w = World(cx, 1, 1)

    def fact(rec):
        rec["step"] = rec["delta"]
        cx.assume(half_den(rec, 0) > 0)
    r = Run(cx, w, th.LevenbergMarquardt, [0], fact=fact, max_iterations=1, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    l0, l1 = cx.real("l0", pos=True).item(), cx.real("l1", pos=True).item()
    with torch.no_grad():
        r.optimize(adaptive_damping=True, damping=l0)
        k = len(r.log)
        r.optimize(adaptive_damping=True, damping=l1)
    cx.eq(r.log[0]["lam"][0], torch.as_tensor(l0, dtype=cx.dtype), "first")
    cx.eq(r.log[k]["lam"][0], torch.as_tensor(l1, dtype=cx.dtype), "second")


def real_solver(cx, solver, ell, batch=1):
    """the same with the linear solvers themselves, one step: the step solves the damped
    system, and the ratio uses the same damping"""
    from native import installed
    with installed(cuda=False):
        w = World(cx, 2, 2)
        x = th.Vector(tensor=torch.stack([cx.real("x%d" % b, 2) for b in range(batch)]), name="x")
        one = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="one"))
        cost = WorldCost(w, x, list(range(batch)), one)
        # diagonal jacobians at the first point keep the algebra small
        obj = th.Objective(dtype=cx.dtype)
        obj.add(cost)
        obj.update()
        x0 = x.tensor
        for b in range(batch):
            k = w.state(b, x0[b])
            w.J[b, k] = torch.diag(cx.real("P%d" % b, 2, pos=True, lo=0.3, hi=1.5))
        opt = th.LevenbergMarquardt(obj, linear_solver_cls=solver, max_iterations=1, abs_err_tolerance=0.0, rel_err_tolerance=0.0)
        with torch.no_grad():
            opt.optimize(adaptive_damping=True, damping=0.5, ellipsoidal_damping=ell)
        x1 = x.tensor
        for b in range(batch):
            k = w.state(b, x0[b])
            J, e = w.J[b, k], w.E[b, k]
            H, g = J.T @ J, -(J.T @ e)
            stay = w.state(b, x1[b]) == k
            if stay:
                continue
            d = x1[b] - x0[b]
            # some damping of the sequence 0.5, 5.5, 60.5 was accepted
            lam = 0.5
            ok = None
            for t in range(3):
                D = lam * H.diagonal() + 1e-8 if ell else torch.full((2,), lam, dtype=cx.dtype)
                res = (H + torch.diag(D)) @ d - g
                z = (res ** 2).sum()
                ok = (z <= 1e-16) if ok is None else ok | (z <= 1e-16)
                lam *= 11.0
            cx.true(ok, "the accepted step solves one of the damped systems")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=400, feas_timeout=0.05, z3_timeout=1.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for ell in (False, True):
        t = "ell" if ell else "abs"
        add("b1.n1.it3." + t, run, batch=1, n=1, m=1, iters=3, ell=ell)
        add("b2.n1.it2." + t, run, batch=2, n=1, m=1, iters=2, ell=ell)
        add("b1.n2.it2." + t, run, batch=1, n=2, m=2, iters=2, ell=ell)
        add("b2.n2.it1." + t, run, batch=2, n=2, m=2, iters=1, ell=ell)
        add("b2.free." + t, run, batch=2, n=1, m=1, iters=1, ell=ell, free=True)
        add("b1.free." + t, run, batch=1, n=1, m=1, iters=2, ell=ell, free=True)
        add("b2.size." + t, run, batch=2, n=1, m=1, iters=1, ell=ell, size=0.5)
        for nm, l0 in (("min", 3e-7), ("max", 3e6), ("below", 1e-9), ("above", 1e9), ("zero", 0.0)):
            add("b2.%s.%s" % (nm, t), run, batch=2, n=1, m=1, iters=1 if nm in ("below", "above", "zero") else 2, ell=ell, lam0=l0)
        add("b2.params." + t, run, batch=2, n=1, m=2, iters=1, ell=ell, lam0=0.01, acc=0.75, up=2.0, down=3.0)
        for sol in ("LUDenseSolver", "CholeskyDenseSolver", "BaspachoSparseSolver"):
            add("solver.%s.%s" % (sol, t), real_solver, solver=getattr(th, sol), ell=ell)
        if tier != "quick":
            add("b3.n1.it1." + t, run, batch=3, n=1, m=1, iters=1, ell=ell)
            add("b3.n1.it2." + t, run, batch=3, n=1, m=1, iters=2, ell=ell, opts=dict(max_paths=3000))
            add("b2.n1.it3." + t, run, batch=2, n=1, m=1, iters=3, ell=ell, opts=dict(max_paths=3000))
    add("constant", constant, batch=2, lam0=None)
    add("constant.default", constant, batch=2, lam0=0.001)
    add("again", again)
    return out
