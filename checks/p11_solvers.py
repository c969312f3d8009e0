"""P11: linear solvers."""
import torch

import theseus as th
from theseus.optimizer.linear.utils import convert_to_alpha_beta_damping_tensors
from native import installed
from probs import *  # noqa

PROPERTY = "P11"
EXPLAIN = ("LUDenseSolver, CholeskyDenseSolver, CholmodSparseSolver, BaspachoSparseSolver and LUCudaSparseSolver .solve run on linearized objectives "
           "with free jacobians and errors; the returned step is substituted in the damped normal equations of every batch element.")
BOUNDS = ("1-3 columns in 1-3 variables, every full-rank (triangular, positive diagonal, plus a full second cost) jacobian, batch 1-2, damping none / "
          "scalar / per batch element (>= 0), ellipsoidal or absolute, free epsilon, singular matrices with check_singular")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "CHOLMOD, BaSpaCho, cuSOLVER and LAPACK factorizations are exact (models in symtorch/stubs.py and checks/native.py; the last two "
               "libraries are not built here, so replays use the models as well)"]
BUDGET = 110

# variables, rows of J per cost
SYS = {
    "n1": (dict(a="v1"), ["a"]),
    "n2": (dict(a="v2"), ["a"]),
    "n2s": (dict(a="v1", b="v1"), ["ab", "b"]),
    "n3": (dict(a="v1", b="v2"), ["ba"]),
    "n3s": (dict(a="v1", b="v1", c="v1"), ["ac", "cb", "b"]),
}


class System:
    """objective whose jacobian is square triangular up to a column permutation"""

    def __init__(self, cx, name, batch, singular=False, full=False, order=None, bj=None):
        vars, costs = SYS[name]
        self.vars = {n: MAN[k](n) for n, k in vars.items()}
        for v in self.vars.values():
            v.to(dtype=cx.dtype)
            v.update(torch.zeros(batch, v.dof(), dtype=cx.dtype))
        self.obj = th.Objective(dtype=cx.dtype)
        self.names = list(order or vars)
        self.batch = batch
        self.blocks, self.errs = [], []
        dims = {n: v.dof() for n, v in self.vars.items()}
        n = sum(dims.values())
        if len(costs) == 1:
            rows = [n]
        else:
            rows = [1] * n
        start = 0
        one = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="one"))
        for i, (c, m) in enumerate(zip(costs, rows)):
            w = sum(dims[x] for x in c)
            J = cx.real("J%d" % i, bj or batch, m, w, lo=-1.5, hi=1.5, vals=[0.0, 1.0, -0.5, 2.0] if singular else None)
            if m == w and not full:
                J = torch.tril(J)
            if not singular:
                # pivots bounded away from zero
                if m == w:
                    d = cx.real("D%d" % i, bj or batch, m, pos=True, lo=0.3, hi=2)
                    J = torch.tril(J, -1) + torch.diag_embed(d)
                elif m == 1:
                    d = cx.real("D%d" % i, bj or batch, 1, pos=True, lo=0.3, hi=2)
                    J = torch.cat([J[:, 0, 1:], d], 1).unsqueeze(1) if False else torch.cat([d, J[:, 0, 1:]], 1).unsqueeze(1)
            e = cx.real("e%d" % i, batch, m)
            js, k = [], 0
            for x in c:
                js.append(J[:, :, k:k + dims[x]])
                k += dims[x]
            self.blocks.append(dict(zip(c, js)))
            self.errs.append(e)
            self.obj.add(DataCost([self.vars[x] for x in c], [th.Variable(j.clone(), name="c%d%s" % (i, x)) for j, x in zip(js, c)],
                                  th.Variable(e, name="ce%d" % i), one, name="c%d" % i))
        self.obj.update()
        from theseus.optimizer import VariableOrdering
        self.ordering = VariableOrdering(self.obj, default_order=False)
        self.ordering.extend([self.vars[x] for x in self.names])
        self.n = n

    def A(self, b):
        rows = []
        for blk, e in zip(self.blocks, self.errs):
            rows.append(torch.cat([blk[x][b if blk[x].shape[0] > 1 else 0] if x in blk
                                   else torch.zeros(e.shape[1], self.vars[x].dof(), dtype=e.dtype) for x in self.names], 1))
        return torch.cat(rows, 0)

    def normal(self, b):
        A = self.A(b)
        rhs = -torch.cat([e[b] for e in self.errs])
        return A.T @ A, A.T @ rhs


SOLVERS = {"lu": th.LUDenseSolver, "chol": th.CholeskyDenseSolver, "cholmod": th.CholmodSparseSolver,
           "baspacho": th.BaspachoSparseSolver, "lucuda": th.LUCudaSparseSolver}


def damp_of(cx, damp, batch):
    """(argument, value per batch element)"""
    if damp == "none":
        return None, None
    if damp == "float":
        return 0.25, [0.25] * batch
    if damp == "zero":
        return 0.0, [0.0] * batch
    if damp == "sym":
        t = cx.real("lam", 1, lo=0.01, hi=2, nonneg=True)
        return t.view(()), [t[0]] * batch
    if damp == "one":
        t = cx.real("lam", 1, lo=0.01, hi=2, nonneg=True)
        return t, [t[0]] * batch
    t = cx.real("lam", batch, lo=0.01, hi=2, nonneg=True)
    return t, [t[b] for b in range(batch)]


def solve(cx, solver, sysname, batch, damp, ell=True, eps=None, order=None, ctor=None, twice=False, check_singular=False, bj=None):
    with installed(cuda=solver == "lucuda"):
        s = System(cx, sysname, batch, order=order, bj=bj)
        kw = {}
        if ctor is not None:
            kw["damping"] = ctor
        if check_singular:
            kw["check_singular"] = True
        if solver == "lucuda":
            kw["batch_size"] = batch if ctor is None else None
            kw.pop("damping", None)
        sol = SOLVERS[solver](s.obj, linearization_kwargs=dict(ordering=s.ordering), **kw)
        sol.linearization.linearize()
        arg, val = damp_of(cx, damp, batch)
        skw = {}
        if not ell:
            skw["ellipsoidal_damping"] = False
        if eps is not None:
            skw["damping_eps"] = eps
        if damp == "default":
            x = sol.solve(**skw)
        else:
            x = sol.solve(damping=arg, **skw)
        if twice:
            # a second solve of the same system is the same
            x2 = sol.solve(damping=arg, **skw)
            cx.eq(x2, x, "second solve")
        cx.same(tuple(x.shape), (batch, s.n), "shape")
        cx.same(x.dtype, cx.dtype, "dtype")
        e0 = 1e-8 if eps is None else eps
        for b in range(batch):
            H, g = s.normal(b)
            if solver == "cholmod":
                lam = ctor or 0.0
                if val is not None and not (isinstance(val[b], float) and val[b] == 0.0):
                    lam = val[b]
                H = H + lam * torch.eye(s.n, dtype=cx.dtype)
            elif val is not None:
                if ell:
                    H = H + torch.diag_embed(val[b] * H.diagonal() + e0)
                else:
                    H = H + val[b] * torch.eye(s.n, dtype=cx.dtype)
            cx.eq(H @ x[b], g, "damped normal equations", numtol=1e-8)


def singular(cx, solver, sysname, batch, damp="none"):
    """check_singular: zero for the singular elements, the solution for the others"""
    s = System(cx, sysname, batch, singular=True)
    sol = SOLVERS[solver](s.obj, linearization_kwargs=dict(ordering=s.ordering), check_singular=True)
    sol.linearization.linearize()
    arg, val = damp_of(cx, damp, batch)
    x = sol.solve(damping=arg)
    cx.same(x.dtype, cx.dtype, "dtype")
    for b in range(batch):
        H, g = s.normal(b)
        if val is not None:
            H = H + torch.diag_embed(val[b] * H.diagonal() + 1e-8)
        r = H @ x[b] - g
        det = torch.linalg.det(s.normal(b)[0])
        z = det == 0
        zero = torch.zeros_like(r)
        cx.eq(torch.where(z, zero, r), zero, "regular elements are solved", numtol=1e-7)
        cx.eq(torch.where(z, x[b], zero), zero, "singular elements are zero")


def convert(cx, form, batch, ell):
    eps = 1e-3
    arg, val = damp_of(cx, form, batch)
    if form == "float":
        arg = 0.25
    al, be = convert_to_alpha_beta_damping_tensors(arg, eps, ell, batch, torch.device("cpu"), cx.dtype)
    cx.same((tuple(al.shape), tuple(be.shape), al.dtype, be.dtype), ((batch,), (batch,), cx.dtype, cx.dtype), "shapes")
    for b in range(batch):
        cx.eq(al[b], torch.as_tensor(val[b] if ell else 0.0, dtype=cx.dtype), "alpha")
        cx.eq(be[b], torch.as_tensor(eps if ell else val[b], dtype=cx.dtype), "beta")


def convert_bad(cx):
    cx.raises(ValueError, lambda: convert_to_alpha_beta_damping_tensors(torch.ones(2, 1), 0.1, True, 2, torch.device("cpu"), cx.dtype),
              "matrix of dampings refused")


def refused(cx):
    s = System(cx, "n1", 1)
    sol = th.CholmodSparseSolver(s.obj)
    sol.linearization.linearize()
    cx.raises(ValueError, lambda: sol.solve(damping=torch.ones(1, dtype=cx.dtype)), "CHOLMOD: tensor damping refused")


def rebatch(cx):
    """LU solver contexts follow a change of batch size"""
    with installed(cuda=True):
        s = System(cx, "n1", 2)
        sol = th.LUCudaSparseSolver(s.obj, linearization_kwargs=dict(ordering=s.ordering), batch_size=1, num_solver_contexts=2)
        for k in range(3):
            sol.linearization.linearize()
            x = sol.solve()
            for b in range(2):
                H, g = s.normal(b)
                cx.eq(H @ x[b], g, "normal equations after a change of the batch size")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        out.append((name, fn, kw, opts or {}))
    for solver in SOLVERS:
        dampings = ["none", "float"] if solver == "cholmod" else ["none", "float", "sym", "one", "batch"]
        for sysname in SYS:
            for damp in dampings:
                for ell in ((True, False) if damp != "none" and solver != "cholmod" else (True,)):
                    if SYS[sysname][0].__len__() > 1 and sysname in ("n3",) and damp in ("sym", "one"):
                        continue
                    b = 2 if sysname in ("n1", "n2", "n2s") or tier != "quick" else (2 if damp == "none" else 1)
                    add("%s.%s.%s%s" % (solver, sysname, damp, "" if ell else ".abs"), solve, solver=solver, sysname=sysname, batch=b,
                        damp=damp, ell=ell)
        if solver != "cholmod":
            for eps in (0.0, 0.5):
                add("%s.eps%g" % (solver, eps), solve, solver=solver, sysname="n2s", batch=2, damp="batch", eps=eps)
            add("%s.zero" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="zero", ell=False)
        else:
            for d in ("none", "float", "zero"):
                add("cholmod.ctor.%s" % d, solve, solver=solver, sysname="n2s", batch=2, damp=d, ctor=0.5)
        add("%s.order" % solver, solve, solver=solver, sysname="n3s", batch=1, damp="none", order="cab")
        add("%s.order2" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="float", order="ba")
        add("%s.twice" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="float", twice=True)
        add("%s.batch1jac" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="none", bj=1)
    for solver in ("lu", "chol"):
        for sysname in ("n1", "n2", "n2s"):
            add("%s.%s.singular" % (solver, sysname), singular, solver=solver, sysname=sysname, batch=2)
            add("%s.%s.singular.damped" % (solver, sysname), singular, solver=solver, sysname=sysname, batch=2, damp="batch")
        add("%s.checked" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="batch", check_singular=True)
        add("%s.checked1" % solver, solve, solver=solver, sysname="n2s", batch=2, damp="float", check_singular=True)
    for form in ("float", "sym", "one", "batch"):
        for batch in (1, 2, 3):
            for ell in (True, False):
                add("convert.%s.%d.%s" % (form, batch, ell), convert, form=form, batch=batch, ell=ell)
    add("convert.bad", convert_bad)
    add("refused", refused)
    add("lucuda.rebatch", rebatch)
    return out
