"""P16: batch elements are optimized independently."""
import torch

import theseus as th
from theseus.optimizer.nonlinear.nonlinear_optimizer import NonlinearOptimizerStatus as S
from theseus.optimizer.nonlinear.trust_region import TrustRegion
from opt import *  # noqa

PROPERTY = "P16"
EXPLAIN = ("The same arbitrary problem (free errors, jacobians and steps per element and point) is optimized as a batch and one element at a time; the sequence of "
           "points, dampings or radii of every element, its reported records and its status must be the same, on every path of accepted, rejected and "
           "converged elements.")
BOUNDS = "batch 2 (3 in the thorough tier), 1-3 iterations, Gauss-Newton, constant and adaptive Levenberg-Marquardt, trust region; linear solvers on 2 unknowns"
ASSUMPTIONS = ["real arithmetic instead of floating point", "errors stay above the absolute tolerance (the documented stop on the mean error is shared by the batch)",
               "with rejections, an iteration is shared by the batch: the comparison covers the attempts both runs make"]
BUDGET = 110
TA, TR = 0.01, 0.1


class Free(TrustRegion):
    def _compute_delta_impl(self):
        return self.linear_solver.solve(damping=self._trust_region)


def go(cx, w, elems, x0, cls, iters, fact, kw, size, mode):
    r = Run(cx, w, cls, elems, x0=x0, fact=fact, max_iterations=iters, step_size=size, abs_err_tolerance=TA, rel_err_tolerance=TR)
    with torch.no_grad():
        r.optimize(track_best_solution=True, track_err_history=True, track_state_history=True, **mode, **kw)
    return r


def compare(cx, batch, iters, kind, ell=False, size=1.0, mode=None):
    w = World(cx, 1, 1)
    w.floor = TA
    mode = dict(mode or {})
    cls = dict(gn=th.GaussNewton, lm=th.LevenbergMarquardt, alm=th.LevenbergMarquardt, tr=Free)[kind]
    kw = dict(gn={}, lm=dict(damping=0.5), alm=dict(damping=0.5, adaptive_damping=True, ellipsoidal_damping=ell), tr=dict(trust_region_init=1.0))[kind]

    def fact(rec):
        # steps with a positive predicted decrease, as damped and trust region steps have
        if kind in ("gn", "lm"):
            return
        for i in range(len(rec["states"])):
            d = rec["delta"][i] * size
            if kind == "tr":
                cx.assume((d * rec["Atb"][i]).sum() - ((rec["A"][i] @ d) ** 2).sum() / 2 > 0)
            else:
                D = (rec["A"][i] ** 2).sum(0) if ell else torch.ones_like(d)
                cx.assume((d * (rec["lam"][i] * D * d + rec["Atb"][i])).sum() > 0)
    xs = [cx.real("x%d" % b, 1) for b in range(batch)]
    full = go(cx, w, list(range(batch)), torch.stack(xs), cls, iters, fact, kw, size, mode)
    exact = kind in ("gn", "lm")
    for b in range(batch):
        one = go(cx, w, [b], xs[b][None], cls, iters, fact, kw, size, mode)
        seqf = [(q["states"][b], None if q["lam"] is None else q["lam"][b], q["delta"][b]) for q in full.log]
        seq1 = [(q["states"][0], None if q["lam"] is None else q["lam"][0], q["delta"][0]) for q in one.log]
        endf, end1 = w.state(b, full.x.tensor[b]), w.state(b, one.x.tensor[0])
        s1, sf = S(one.info.status[0]), S(full.info.status[b])
        seqf_p = [p for p, _, _ in seqf] + [endf]
        seq1_p = [p for p, _, _ in seq1] + [end1]
        k = min(len(seq1), len(seqf))
        # (a run that ends early by reaching its iterations has made fewer attempts)
        cx.same(seqf_p[:k + 1], seq1_p[:k + 1], "points of the element")
        for j in range(k):
            if seqf[j][1] is not None:
                cx.eq(seqf[j][1], seq1[j][1], "damping or radius of the element", numtol=1e-9)
            cx.eq(seqf[j][2], seq1[j][2], "step of the element")
        if s1 == S.CONVERGED:
            cx.true(all(p == end1 for p in seqf_p[len(seq1):]), "a converged element stays where it is")
            if len(seqf) >= len(seq1):
                cx.same(sf, S.CONVERGED, "converged in the batch too")
        elif sf == S.CONVERGED:
            cx.true(len(seq1) < len(seqf), "converged in the batch only by going on longer")
        if exact:
            cx.same(sf, s1, "status")
            cx.same(int(full.info.converged_iter[b]), int(one.info.converged_iter[0]), "iterations")
            cx.same(int(full.info.best_iter[b]), int(one.info.best_iter[0]), "best iteration")
            cx.eq(full.info.best_err[b], one.info.best_err[0], "best error")
            cx.eq(full.info.best_solution["x"][b], one.info.best_solution["x"][0], "best solution")
            cx.eq(full.info.last_err[b], one.info.last_err[0], "last error")
            for i in range(iters + 1):
                h1, hf = one.info.err_history[0, i], full.info.err_history[b, i]
                if bool(torch.isinf(h1)):
                    # the batch goes on; this element repeats its last error
                    if not bool(torch.isinf(hf)):
                        cx.eq(hf, one.info.last_err[0], "errors after convergence")
                else:
                    cx.eq(hf, h1, "error history")


def mixed(cx, sol, kind):
    """one step of a real linear solver on a batch equals the step alone"""
    from native import installed
    with installed(cuda=False):
        J = [cx.real("J%d" % b, 2, 2) for b in range(2)]
        e = [cx.real("e%d" % b, 2) for b in range(2)]
        cls = dict(gn=th.GaussNewton, lm=th.LevenbergMarquardt, ell=th.LevenbergMarquardt)[kind]
        kw = dict(gn={}, lm=dict(damping=0.5), ell=dict(damping=0.5, ellipsoidal_damping=True))[kind]
        for b in range(2):
            cx.assume(((J[b][0, 0] * J[b][1, 1] - J[b][0, 1] * J[b][1, 0]) ** 2) > 0)

        def one(ix):
            w = World(cx, 2, 2)
            x = th.Vector(tensor=torch.zeros(len(ix), 2, dtype=cx.dtype), name="x")
            cost = WorldCost(w, x, list(ix), th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="one")))
            w.state = lambda b, row: 0
            for b in ix:
                w.E[b, 0], w.J[b, 0] = e[b], J[b]
            obj = th.Objective(dtype=cx.dtype)
            obj.add(cost)
            obj.update()
            opt = cls(obj, linear_solver_cls=getattr(th, sol), max_iterations=1)
            with torch.no_grad():
                opt.optimize(**kw)
            return x.tensor
        full = one([0, 1])
        for b in range(2):
            cx.eq(full[b], one([b])[0], "step", tol=1e-9)


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=800, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for k in ("gn", "lm"):
        add(k + ".it2", compare, batch=2, iters=2, kind=k)
        add(k + ".it1", compare, batch=2, iters=1, kind=k)
    add("gn.size", compare, batch=2, iters=2, kind="gn", size=0.5)
    for k, ell in (("alm", False), ("alm", True), ("tr", False)):
        t = k + (".ell" if ell else "")
        add(t + ".it1", compare, batch=2, iters=1, kind=k, ell=ell)
        add(t + ".it2", compare, batch=2, iters=2, kind=k, ell=ell)
    add("tr.size", compare, batch=2, iters=1, kind="tr", size=0.5)
    for sol in ("LUDenseSolver", "CholeskyDenseSolver", "BaspachoSparseSolver"):
        for k in ("gn", "lm", "ell"):
            add("solver.%s.%s" % (sol, k), mixed, sol=sol, kind=k)
    if tier != "quick":
        add("gn.it3", compare, batch=2, iters=3, kind="gn", opts=dict(max_paths=8000, budget=800))
        add("gn.b3.it1", compare, batch=3, iters=1, kind="gn")
        add("gn.b3.it2", compare, batch=3, iters=2, kind="gn", opts=dict(max_paths=8000, budget=800))
        add("alm.it3", compare, batch=2, iters=3, kind="alm", opts=dict(max_paths=8000, budget=800))
        add("tr.it3", compare, batch=2, iters=3, kind="tr", opts=dict(max_paths=8000, budget=800))
    return out
