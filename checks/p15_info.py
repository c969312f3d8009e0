"""P15: what the nonlinear optimizers report."""
import math

import torch

import theseus as th
from theseus.optimizer.nonlinear.nonlinear_optimizer import NonlinearOptimizerStatus as S
from theseus.optimizer.nonlinear.trust_region import TrustRegion
from opt import *  # noqa

PROPERTY = "P15"
EXPLAIN = ("NonlinearLeastSquares.optimize runs on an arbitrary problem (free errors, jacobians and solver steps, solver failures at chosen attempts) in every "
           "backward mode; the reported histories, best solution, status, iteration counts and final variables are compared with a reference model "
           "of the documented loop, on every path of converged and rejected elements.")
BOUNDS = ("batch 1-2, 1-3 iterations (4 in the thorough tier), 1-2 unknowns, unroll/truncated/implicit modes with every split of the iterations, a failure at "
          "any attempt, free and fixed tolerances")
ASSUMPTIONS = ["real arithmetic instead of floating point", "the previous error of an element is not exactly zero when its relative change is tested"]
BUDGET = 110


def conv(cx, err, last, ta, tr, B):
    """the convergence test of the documentation"""
    if bool(sum(e.abs() for e in err) / B < ta):
        return [True] * B
    out = []
    for e, l in zip(err, last):
        d = l - e
        if bool(d.abs() < ta):
            out.append(True)
            continue
        cx.assume(l != 0)
        out.append(bool((d / l).abs() < tr))
    return out


class Ref:
    """reference model: runs the documented loop on the world's values"""
    def __init__(self, cx, w, x0, elems, ta, tr, size):
        self.cx, self.w, self.elems, self.ta, self.tr = cx, w, elems, ta, tr
        self.B = len(elems)
        self.x = list(x0.unbind(0))
        self.size = size
        self.attempt = 0

    def err(self):
        return [self.w.metric(e, x) for e, x in zip(self.elems, self.x)]

    def loop(self, n, fault, size, final_gn=False):
        B = self.B
        last = self.err()
        o = dict(hist=[last], states=[list(self.x)], status=[S.START] * B, count=[0] * B)
        cv = [False] * B
        for k in range(n):
            f = fault is not None and fault(self.attempt)
            self.attempt += 1
            if f and final_gn:
                # the final Gauss-Newton step falls back to the optimizer's own step
                f = fault(self.attempt)
                self.attempt += 1
            if f:
                o["status"] = [S.FAIL] * B
                return o
            for b, e in enumerate(self.elems):
                if not cv[b]:
                    d = self.w.steps[e, self.w.state(e, self.x[b]), None]
                    self.x[b] = self.x[b] + d * size
                    o["count"][b] += 1
            err = self.err()
            o["hist"].append(err)
            o["states"].append(list(self.x))
            cv = conv(self.cx, err, last, self.ta, self.tr, B)
            for b in range(B):
                if cv[b]:
                    o["status"][b] = S.CONVERGED
            last = err
            if all(cv):
                o["stopped"] = True
                return o
        o["status"] = [S.MAX_ITERATIONS if s == S.START else s for s in o["status"]]
        return o


def merge(a, b):
    o = dict(hist=a["hist"] + b["hist"][1:], states=a["states"] + b["states"][1:], stopped=b.get("stopped"))
    o["status"], o["count"] = list(a["status"]), list(a["count"])
    for i, s in enumerate(a["status"]):
        if s == S.MAX_ITERATIONS:
            o["status"][i] = b["status"][i]
            o["count"][i] += b["count"][i]
    return o


def compare(cx, info, o, x, w, elems, iters, track=True):
    B = len(elems)
    n = len(o["hist"]) - 1
    cx.same([S(s) for s in info.status], o["status"], "status")
    want = [-1 if s == S.MAX_ITERATIONS else c for s, c in zip(o["status"], o["count"])]
    cx.same([int(v) for v in info.converged_iter], want, "iteration counts")
    cx.eq(info.last_err, torch.stack(o["hist"][-1]), "last error")
    if not track:
        cx.same((info.err_history, info.state_history, info.best_solution, info.best_err), (None,) * 4, "nothing tracked")
        return
    cx.same(tuple(info.err_history.shape), (B, iters + 1), "history shape")
    cx.eq(info.err_history[:, :n + 1], torch.stack([torch.stack(h) for h in o["hist"]], 1), "error history")
    cx.eq(info.state_history["x"][..., :n + 1], torch.stack([torch.stack(s) for s in o["states"]], -1), "state history")
    if n < iters:
        cx.true(torch.isinf(info.err_history[:, n + 1:]).all(), "no errors beyond the last iteration")
        cx.true(torch.isinf(info.state_history["x"][..., n + 1:]).all(), "no states beyond the last iteration")
    for b in range(B):
        best, at = o["hist"][0][b], 0
        for k in range(1, n + 1):
            if bool(o["hist"][k][b] < best):
                best, at = o["hist"][k][b], k - 1
        cx.eq(info.best_err[b], best, "best error")
        sol = info.best_solution["x"][b]
        seen = len(w.table)
        cx.eq(w.metric(elems[b], sol), best, "best solution")
        cx.same(len(w.table), seen, "the best solution was visited")
        cx.same(int(info.best_iter[b]), at, "best iteration")


def split(mode, iters, bwd):
    if mode == "unroll":
        return 0, iters
    g = 1 if mode == "implicit" else min(bwd, iters)
    return iters - g, g


def run(cx, batch, iters, mode="unroll", bwd=1, ta=0.01, tr=0.1, size=1.0, fail=None, n=1, cls=th.GaussNewton, track=True, grad=False, twice=False):
    w = World(cx, n, 1)
    if ta is None:
        ta = cx.real("ta", pos=True, lo=1e-3, hi=0.1).item()
        tr = cx.real("tr", pos=True, lo=1e-3, hi=0.5).item()
    fault = None if fail is None else (lambda k: k in ((fail,) if isinstance(fail, int) else fail))
    elems = list(range(batch))
    calls = []
    r = Run(cx, w, cls, elems, fault=fault, max_iterations=iters, step_size=size, abs_err_tolerance=ta, rel_err_tolerance=tr)
    x0 = r.x.tensor.clone()
    kw = dict(backward_mode=mode)
    if mode == "truncated":
        kw["backward_num_iterations"] = bwd
    if track:
        kw.update(track_best_solution=True, track_err_history=True, track_state_history=True)

    def cb(opt, info, delta, it):
        calls.append((it, delta, [v for v in info.last_err.unbind(0)]))
    kw["end_iter_callback"] = cb
    if grad:
        with torch.enable_grad():
            if fail is not None:
                cx.raises(RuntimeError, lambda: r.optimize(**kw), "a failure is raised when gradients are enabled")
                return
            r.optimize(**kw)
    else:
        with torch.no_grad():
            r.optimize(**kw)
    ref = Ref(cx, w, x0, elems, ta, tr, size)
    a, g = split(mode, iters, bwd)
    loops = []
    if mode == "unroll":
        o = ref.loop(iters, fault, size)
        loops.append(o)
    else:
        o1 = ref.loop(a, fault, size)
        o2 = ref.loop(g, fault, 1.0 if mode == "implicit" else size, mode == "implicit")
        loops += [o1, o2]
        o = merge(o1, o2)
        if fail is not None and S.FAIL in o2["status"]:
            # which of the converged elements count as failed is not specified
            o["status"] = [S(v) if S(v) in (S.FAIL, S.CONVERGED) and s in (S.FAIL, S.CONVERGED) else s for s, v in zip(o["status"], r.info.status)]
    cx.same(len(r.log), ref.attempt, "solver calls")
    cx.eq(r.x.tensor, torch.stack(ref.x), "final variables")
    compare(cx, r.info, o, r.x.tensor, w, elems, iters, track)
    # the callback sees every iteration in order (not the one that stops the loop)
    exp = []
    for q in loops:
        k = len(q["hist"]) - 1
        exp += [(i, q["hist"][i + 1]) for i in range(k - 1 if q.get("stopped") else k)]
    seen = [c for c in calls]
    cx.true(len(seen) >= len(exp), "callback calls")
    if len(seen) == len(exp):
        for (i, h), (it, d, le) in zip(exp, seen):
            cx.same(it, i, "callback iteration")
            cx.eq(torch.stack(le), torch.stack(h), "the callback sees the error after the iteration")
    if twice:
        # a second optimization starts from the current variables with fresh records
        with torch.no_grad():
            k0 = len(r.log)
            r.optimize(**kw)
        ref2 = Ref(cx, w, torch.stack(ref.x), elems, ta, tr, size)
        o = ref2.loop(iters, None, size)
        compare(cx, r.info, o, r.x.tensor, w, elems, iters, track)
        cx.same(len(r.log) - k0, ref2.attempt, "solver calls of the second run")


class Free(TrustRegion):
    def _compute_delta_impl(self):
        return self.linear_solver.solve()


def reject(cx, batch, iters, ta=0.01, tr=0.1, mode="unroll"):
    """with rejections: the records follow the points that were actually kept"""
    w = World(cx, 1, 1)

    def fact(rec):
        for b in range(batch):
            d = rec["delta"][b]
            cx.assume((d * rec["Atb"][b]).sum() - ((rec["A"][b] @ d) ** 2).sum() / 2 > 0)
    r = Run(cx, w, Free, list(range(batch)), fact=fact, max_iterations=iters, abs_err_tolerance=ta, rel_err_tolerance=tr)
    x0 = r.x.tensor.clone()
    with torch.no_grad():
        r.optimize(track_best_solution=True, track_err_history=True, track_state_history=True, trust_region_init=1.0)
    xs = list(x0.unbind(0))
    B = batch
    last = [w.metric(b, xs[b]) for b in range(B)]
    o = dict(hist=[last], states=[list(xs)], status=[S.START] * B, count=[0] * B)
    cv, streak, j = [False] * B, [0] * B, 0
    while len(o["hist"]) <= iters:
        new, rej = list(xs), [False] * B
        for b in range(B):
            if cv[b]:
                continue
            d = w.steps[b, w.state(b, xs[b]), None]
            cand = xs[b] + d
            rej[b] = bool(w.metric(b, cand) > w.metric(b, xs[b]))
            if not rej[b]:
                new[b] = cand
        j += 1
        streak = [(k + 1) * q for k, q in zip(streak, rej)]
        out = [k >= 3 for k in streak]
        xs = new
        if all(q or c for q, c in zip(rej, cv)) and not any(out):
            continue
        for b in range(B):
            o["count"][b] += not cv[b]
        err = [w.metric(b, xs[b]) for b in range(B)]
        o["hist"].append(err)
        o["states"].append(list(xs))
        streak = [0 if q else k for k, q in zip(streak, out)]
        cv = [c and (q or not rj) for c, q, rj in zip(conv(cx, err, last, ta, tr, B), out, rej)]
        for b in range(B):
            if cv[b]:
                o["status"][b] = S.CONVERGED
        last = err
        if all(cv):
            break
    o["status"] = [S.MAX_ITERATIONS if s == S.START else s for s in o["status"]]
    cx.same(len(r.log), j, "solver calls")
    cx.eq(r.x.tensor, torch.stack(xs), "final variables")
    compare(cx, r.info, o, r.x.tensor, w, list(range(B)), iters)


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=500, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    add("b1.it3", run, batch=1, iters=3)
    add("b2.it2", run, batch=2, iters=2)
    add("b2.it1", run, batch=2, iters=1)
    add("b1.n2.it2", run, batch=1, iters=2, n=2)
    add("b1.free", run, batch=1, iters=2, ta=None)
    add("b1.size", run, batch=1, iters=2, size=0.5)
    add("b2.zero", run, batch=2, iters=2, ta=0.0, tr=0.0)
    add("b1.untracked", run, batch=1, iters=2, track=False)
    add("b2.rel", run, batch=2, iters=2, ta=1e-12, tr=0.2)
    add("b1.it0", run, batch=1, iters=0)
    add("b1.twice", run, batch=1, iters=1, twice=True)
    add("b1.grad", run, batch=1, iters=2, grad=True)
    for f in range(3):
        add("b1.fail%d" % f, run, batch=1, iters=3, fail=f)
        add("b2.fail%d" % f, run, batch=2, iters=2, fail=f)
    for f in range(2):
        add("b1.raise%d" % f, run, batch=1, iters=2, fail=f, grad=True, ta=0.0, tr=0.0)
    for it, bw in ((2, 1), (3, 1), (3, 2), (2, 5)):
        add("trunc.b1.it%d.%d" % (it, bw), run, batch=1, iters=it, mode="truncated", bwd=bw)
    add("trunc.b2.it2.1", run, batch=2, iters=2, mode="truncated", bwd=1, tr=0.0)
    add("impl.b1.it2", run, batch=1, iters=2, mode="implicit")
    add("impl.b1.it3", run, batch=1, iters=3, mode="implicit")
    add("impl.b2.it2", run, batch=2, iters=2, mode="implicit", tr=0.0)
    add("impl.b1.size", run, batch=1, iters=2, mode="implicit", size=0.5)
    add("impl.b1.it2.grad", run, batch=1, iters=2, mode="implicit", grad=True)
    for f in range(3):
        add("impl.b1.fail%d" % f, run, batch=1, iters=3, mode="implicit", fail=f)
        add("trunc.b1.fail%d" % f, run, batch=1, iters=3, mode="truncated", bwd=2, fail=f)
    add("impl.b1.fail2.3", run, batch=1, iters=3, mode="implicit", fail=(2, 3))
    add("impl.b1.fail1.2", run, batch=1, iters=2, mode="implicit", fail=(1, 2))
    add("reject.b1.it2", reject, batch=1, iters=2)
    add("reject.b2.it1", reject, batch=2, iters=1)
    add("reject.b2.it2", reject, batch=2, iters=2)
    if tier != "quick":
        add("trunc.b2.it2.1.rel", run, batch=2, iters=2, mode="truncated", bwd=1, opts=dict(max_paths=5000, budget=800))
        add("impl.b2.it2.rel", run, batch=2, iters=2, mode="implicit", opts=dict(max_paths=5000, budget=800))
        add("b1.it4", run, batch=1, iters=4)
        add("b2.it3", run, batch=2, iters=3, opts=dict(max_paths=5000))
        add("b3.it1", run, batch=3, iters=1)
        add("trunc.b2.it3.2", run, batch=2, iters=3, mode="truncated", bwd=2, opts=dict(max_paths=5000))
        add("impl.b2.it3", run, batch=2, iters=3, mode="implicit", opts=dict(max_paths=5000))
        add("reject.b1.it3", reject, batch=1, iters=3, opts=dict(max_paths=5000))
    return out
