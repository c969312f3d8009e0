"""P12: backward pass of the sparse solvers."""
import numpy as np
import torch

import theseus as th
from theseus.optimizer.autograd import BaspachoSolveFunction, CholmodSolveFunction, LUCudaSolveFunction
from theseus.optimizer.autograd.common import compute_A_grad
from theseus.optimizer.linear_system import SparseStructure
from native import CusolverLUSolver, SymbolicDecomposition, dense_rows, installed
from p11_solvers import System, SOLVERS, damp_of
from probs import *  # noqa

PROPERTY = "P12"
EXPLAIN = ("Cholmod/Baspacho/LUCudaSolveFunction forward and backward run through autograd on symbolic matrix values, right-hand sides, dampings and "
           "upstream gradients; every returned gradient entry is compared with the exact derivative of the returned solution (of A^T b alone when the "
           "hessian is detached).")
BOUNDS = ("7 sparsity patterns of 1-3 columns and 1-4 rows (full column rank, empty rows, shared columns), batch 1-2, no damping / constant / per-batch "
          "additive and multiplicative damping, attached or detached hessian; also through SparseLinearization to jacobians and errors")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "CHOLMOD, BaSpaCho and cuSOLVER solve exactly (models; the last two are not built here, so replays use the models as well)"]
BUDGET = 110

# rows: list of column lists; a row's first column in upper case positions 'P' is a pivot kept away from zero
PATTERNS = {
    "p1": (1, [[0]]),
    "p2x1": (1, [[0], [0]]),
    "p2": (2, [[0], [0, 1]]),
    "p3x2": (2, [[0], [1], [0, 1]]),
    "empty": (2, [[0], [], [0, 1], []]),
    "p3": (3, [[0], [0, 1], [1, 2]]),
    "diag3": (3, [[1], [0], [2]]),
}


class Mat:
    def __init__(self, cx, pat, batch):
        n, rows = PATTERNS[pat]
        self.n, self.m, self.batch = n, len(rows), batch
        self.ptr = np.cumsum([0] + [len(r) for r in rows])
        self.ind = np.array([c for r in rows for c in r], dtype=int)
        piv, seen = [], set()
        for r in rows:
            for k, c in enumerate(r):
                p = k == len(r) - 1 and c not in seen
                piv.append(p)
                if p:
                    seen.add(c)
        cols, self.names = [], []
        for k, p in enumerate(piv):
            nm = "A%d" % k
            cols.append(cx.real(nm, batch, pos=p, lo=0.3 if p else -1.5, hi=1.5))
            self.names.append(nm)
        self.val = torch.stack(cols, 1)
        self.b = cx.real("b", batch, self.m)
        self.G = cx.real("G", batch, n)
        self.struct = SparseStructure(self.ind, self.ptr, self.m, n)

    def dense(self, b):
        return dense_rows(self.val[b:b + 1], self.ptr, self.ind, self.n)[0]

    def seeds(self, k, b):
        return {"%s_%d" % (self.names[k], b): 1.0}


def run_fn(cx, solver, M, damping, detach):
    """(x, leaf A, leaf b); damping: float for cholmod, (alpha, beta) tensors otherwise"""
    A = M.val.detach().clone().requires_grad_(True)
    b = M.b.detach().clone().requires_grad_(True)
    if solver == "cholmod":
        from theseus.optimizer.linear import cholmod_sparse_solver as mod
        dec = mod.analyze_AAt(M.struct.mock_csc_transpose())
        return CholmodSolveFunction.apply(A, b, M.struct, dec, damping, detach), A, b
    if solver == "baspacho":
        rp, ci = torch.tensor(M.ptr, dtype=torch.int64), torch.tensor(M.ind, dtype=torch.int64)
        P = torch.arange(M.n + 1, dtype=torch.int64) * M.n
        I = torch.arange(M.n, dtype=torch.int64).repeat(M.n)
        dec = SymbolicDecomposition(torch.ones(M.n, dtype=torch.int64), P, I, "cpu")
        return BaspachoSolveFunction.apply(A, b, M.struct, rp, ci, dec, damping, detach), A, b
    rp, ci = torch.tensor(M.ptr, dtype=torch.int32), torch.tensor(M.ind, dtype=torch.int32)
    P = torch.arange(M.n + 1, dtype=torch.int32) * M.n
    I = torch.arange(M.n, dtype=torch.int32).repeat(M.n)
    ctx = CusolverLUSolver(M.batch, M.n, P, I)
    M.ctx = ctx
    return LUCudaSolveFunction.apply(A, b, M.struct, rp, ci, ctx, damping, True, detach), A, b


def function(cx, solver, pat, batch, damp="none", detach=False):
    with installed(cuda=solver == "lucuda"):
        M = Mat(cx, pat, batch)
        if damp == "none":
            d = 0.0 if solver == "cholmod" else None
            al, be = [0.0] * batch, [0.0] * batch
        elif solver == "cholmod":
            d = 0.125
            al, be = [0.0] * batch, [0.125] * batch
        else:
            a_ = cx.real("al", batch, nonneg=True, lo=0.01, hi=1)
            b_ = cx.real("be", batch, nonneg=True, lo=0.01, hi=1)
            if damp == "add":
                a_ = torch.zeros(batch, dtype=cx.dtype)
            elif damp == "mul":
                b_ = torch.full((batch,), 1e-8, dtype=cx.dtype)
            d = (a_, b_)
            al, be = a_.unbind(0), b_.unbind(0)
        x, A, b = run_fn(cx, solver, M, d, detach)
        cx.same((tuple(x.shape), x.dtype), ((batch, M.n), cx.dtype), "solution shape and dtype")
        gA, gb = torch.autograd.grad((x * M.G).sum(), [A, b], retain_graph=True)
        gA2, gb2 = torch.autograd.grad((x * M.G).sum(), [A, b])
        cx.same((tuple(gA.shape), tuple(gb.shape), gA.dtype, gb.dtype),
                (tuple(A.shape), tuple(b.shape), cx.dtype, cx.dtype), "gradient shapes and dtypes")
        cx.eq(gA2, gA, "second backward, values")
        cx.eq(gb2, gb, "second backward, right-hand side")
        for k in range(batch):
            Ad = M.dense(k)
            S = Ad.T @ Ad
            S = S + torch.diag_embed(al[k] * S.diagonal() + be[k])
            cx.eq(S @ x[k], Ad.T @ M.b[k], "damped normal equations", numtol=1e-8)
            H = torch.linalg.solve(S, M.G[k])
            cx.eq(gb[k], Ad @ H, "gradient of the right-hand side", numtol=1e-8)
            if detach:
                for r in range(M.m):
                    for j in range(M.ptr[r], M.ptr[r + 1]):
                        cx.eq(gA[k, j], M.b[k, r] * H[M.ind[j]], "gradient of the values, detached hessian", numtol=1e-8)
            else:
                y = (x[k] * M.G[k]).sum()
                for j in range(len(M.ind)):
                    cx.eq(gA[k, j], cx.deriv(y, M.seeds(j, k)), "gradient of the values", numtol=1e-7)
                for r in range(M.m):
                    cx.eq(gb[k, r], cx.deriv(y, {"b_%d" % (k * M.m + r): 1.0}), "gradient of the right-hand side is the derivative", numtol=1e-7)


def precision(cx, solver, pat):
    """no rounding to single precision on the way of double precision gradients"""
    with installed(cuda=solver == "lucuda"):
        M = Mat(cx, pat, 1)
        x, A, b = run_fn(cx, solver, M, 0.125 if solver == "cholmod" else None, False)
        gA, gb = torch.autograd.grad((x * M.G).sum(), [A, b])
        Ad = M.dense(0)
        S = Ad.T @ Ad + (0.125 if solver == "cholmod" else 0.0) * torch.eye(M.n, dtype=cx.dtype)
        H = torch.linalg.solve(S, M.G[0])
        xs = torch.linalg.solve(S, Ad.T @ M.b[0])
        res, AH = M.b[0] - Ad @ xs, Ad @ H
        for r in range(M.m):
            for j in range(M.ptr[r], M.ptr[r + 1]):
                c = M.ind[j]
                cx.eq(gA[0, j], res[r] * H[c] - AH[r] * xs[c], "gradient of the values", numtol=1e-11)
        cx.eq(gb[0], AH, "gradient of the right-hand side", numtol=1e-11)


def through(cx, solver, sysname, batch, damp, ell=True, detach=False):
    """gradient through linearization and solver.solve, with respect to jacobians and errors"""
    with installed(cuda=solver == "lucuda"):
        s = System(cx, sysname, batch)
        leaves = []
        for c in s.obj.cost_functions.values():
            for v in c.aux_vars:
                t = v.tensor.detach().clone().requires_grad_(True)
                v.update(t)
                leaves.append(t)
        kw = dict(batch_size=batch) if solver == "lucuda" else {}
        sol = SOLVERS[solver](s.obj, linearization_kwargs=dict(ordering=s.ordering), **kw)
        sol.linearization.linearize(_detach_hessian=detach)
        arg, val = damp_of(cx, damp, batch)
        x = sol.solve(damping=arg, ellipsoidal_damping=ell)
        G = cx.real("G", batch, s.n)
        grads = torch.autograd.grad((x * G).sum(), leaves)
        # reference: differentiable dense computation on the same leaves
        it = iter(leaves)
        rows = []
        for blk, e in zip(s.blocks, s.errs):
            bl = {n: next(it) for n in blk}
            er = next(it)
            rows.append((bl, er))
        A = torch.cat([torch.cat([bl[n] if n in bl else torch.zeros(batch, er.shape[1], s.vars[n].dof(), dtype=cx.dtype)
                                  for n in s.names], 2) for bl, er in rows], 1)
        e = torch.cat([er for _, er in rows], 1)
        S = A.transpose(1, 2) @ A
        lam = torch.stack([torch.as_tensor(v, dtype=cx.dtype) for v in val]).view(-1, 1) if val is not None else None
        if lam is not None:
            if solver == "cholmod" or not ell:
                S = S + torch.diag_embed(lam.expand(batch, s.n))
            else:
                S = S + torch.diag_embed(lam * S.diagonal(dim1=1, dim2=2) + 1e-8)
        if detach:
            S = S.detach()
        ref = torch.linalg.solve(S, -(A.transpose(1, 2) @ e.unsqueeze(2))).squeeze(2)
        cx.eq(x, ref, "solution", numtol=1e-8)
        gref = torch.autograd.grad((ref * G).sum(), leaves)
        for g, r in zip(grads, gref):
            cx.eq(g, r, "gradient", numtol=1e-7)


def overwritten(cx):
    """LU contexts: using a context again before backward is refused, not silently wrong"""
    with installed(cuda=True):
        M = Mat(cx, "p2", 1)
        x, A, b = run_fn(cx, "lucuda", M, None, False)
        M.ctx.factor(torch.ones(1, 4, dtype=torch.float64))
        cx.raises(RuntimeError, lambda: torch.autograd.grad(x.sum(), [A, b]), "overwritten factor refused")


def contexts(cx):
    """consecutive solves use different contexts, so that both can be back-propagated"""
    with installed(cuda=True):
        s = System(cx, "n1", 1)
        c = s.obj.get_cost_function("c0")
        sol = th.LUCudaSparseSolver(s.obj, linearization_kwargs=dict(ordering=s.ordering), batch_size=1, num_solver_contexts=2)
        xs, es = [], []
        for k in range(2):
            e = cx.real("E%d" % k, 1, 1).detach().clone().requires_grad_(True)
            c.e.update(e)
            es.append(e)
            sol.linearization.linearize()
            xs.append(sol.solve())
        g = torch.autograd.grad((xs[0] + xs[1]).sum(), es)
        J = s.A(0)[0, 0]
        for k in range(2):
            cx.eq(g[k].view(()), -1 / J, "gradient of each solve")


def damping_grad(cx, batch, detach=False, n=2, m=2):
    """compute_A_grad as a function of its documented inputs"""
    val = cx.real("val", batch, 3)
    ptr, ind = np.array([0, 1, 3]), np.array([0, 0, 1])
    b, x, r, H, AH = [cx.real(k, batch, 2) for k in ("b", "x", "r", "H", "W")]
    al, be = cx.real("al", batch, nonneg=True, lo=0.1, hi=1), cx.real("be", batch, nonneg=True)
    out = compute_A_grad(batch, ptr, ind, b, x, r, H, AH, (al, be), val, torch.tensor(ind), False)
    out0 = compute_A_grad(batch, ptr, ind, b, x, r, H, AH, None, None, None, False)
    outd = compute_A_grad(batch, ptr, ind, b, x, r, H, AH, None, None, None, True)
    rows = [0, 1, 1]
    for k in range(batch):
        for j, (q, c) in enumerate(zip(rows, ind)):
            base = r[k, q] * H[k, c] - AH[k, q] * x[k, c]
            cx.eq(out0[k, j], base, "undamped")
            cx.eq(out[k, j], base - 2 * al[k] * val[k, j] * H[k, c] * x[k, c], "multiplicative damping")
            cx.eq(outd[k, j], b[k, q] * H[k, c], "detached")
    cx.same(out.dtype, cx.dtype, "dtype")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        out.append((name, fn, kw, opts or {}))
    for solver in ("cholmod", "baspacho", "lucuda"):
        for pat in PATTERNS:
            b = 2 if PATTERNS[pat][0] < 3 else 1
            for damp in (("none", "add") if solver == "cholmod" else ("none", "add", "mul", "both")):
                if PATTERNS[pat][0] == 3 and pat != "diag3" and damp in ("both", "mul") and tier == "quick":
                    continue
                add("%s.%s.%s" % (solver, pat, damp), function, solver=solver, pat=pat, batch=b, damp=damp)
            for damp in ("none", "add"):
                add("%s.%s.%s.detach" % (solver, pat, damp), function, solver=solver, pat=pat, batch=b, damp=damp, detach=True)
        for pat in ("p1", "p2", "p3x2"):
            add("%s.%s.precision" % (solver, pat), precision, solver=solver, pat=pat)
        for sysname in ("n1", "n2", "n2s"):
            for damp in (("none", "float") if solver == "cholmod" else ("none", "float", "batch")):
                add("%s.through.%s.%s" % (solver, sysname, damp), through, solver=solver, sysname=sysname,
                    batch=2 if sysname != "n2" else 1, damp=damp)
        add("%s.through.n2s.abs" % solver, through, solver=solver, sysname="n2s", batch=2, damp="float", ell=False)
        add("%s.through.n2s.detach" % solver, through, solver=solver, sysname="n2s", batch=2, damp="none", detach=True)
    for batch in (1, 2):
        add("compute_A_grad.%d" % batch, damping_grad, batch=batch)
    add("overwritten", overwritten)
    add("contexts", contexts)
    return out
