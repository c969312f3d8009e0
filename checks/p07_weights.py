"""P07: cost weights."""
import torch

import theseus as th
from lie import *  # noqa

PROPERTY = "P07"
EXPLAIN = ("weight_error, weight_jacobians_and_error, is_zero and the (masked) weighted_jacobians_error of the real weights and cost "
           "functions run on symbolic weights, errors and jacobians; every weighted entry is compared with factor times entry, the "
           "Gaussian-process weight through W^T W = documented inverse covariance.")
BOUNDS = ("error dimension 1-3, 1-2 jacobian blocks of 1-3 columns, batch sizes 1-2 (equal or broadcast) for weight and error; "
          "Gaussian-process weights of 1-2 degrees of freedom (4x4 blocks) with every positive definite Qc_inv, 3 with diagonal Qc_inv")
ASSUMPTIONS = ["real arithmetic instead of floating point"]
BUDGET = 110


def bsel(t, b):
    return t[b if t.shape[0] > 1 else 0]


def make(cx, kind, bw, dim, form):
    """(weight object, factor(b) -> vector of dim)"""
    if kind == "scale":
        s = cx.real("s", bw, 1)
        if form == "var":
            w = th.ScaleCostWeight(th.Variable(s, name="s"))
        elif form == "flat":
            w = th.ScaleCostWeight(s.view(-1))
        elif form == "scalar":
            w = th.ScaleCostWeight(s.view(()))
        else:
            # replaced after construction
            v = th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="s")
            w = th.ScaleCostWeight(v)
            v.update(s)
        return w, lambda b: bsel(s, b).expand(dim)
    d = cx.real("d", bw, dim)
    if form == "var":
        w = th.DiagonalCostWeight(th.Variable(d, name="d"))
    elif form == "flat":
        w = th.DiagonalCostWeight(d.view(-1))
    else:
        v = th.Variable(torch.ones(1, dim, dtype=cx.dtype), name="d")
        w = th.DiagonalCostWeight(v)
        v.update(d)
    return w, lambda b: bsel(d, b)


def weight(cx, kind, bw, be, bj, dim, form, copy=False):
    w, fac = make(cx, kind, bw, dim, form)
    if copy:
        w = w.copy()
    e = cx.real("e", be, dim)
    Js = [cx.real("j%d" % i, bj, dim, c) for i, c in enumerate((2, 1, 3)[:2 if dim > 1 else 3])]
    n = max(bw, be)
    nj = max(bw, bj)
    out = w.weight_error(e)
    cx.same(tuple(out.shape), (n, dim), "weighted error shape")
    Jl = list(Js)
    oj, oe = w.weight_jacobians_and_error(Jl, e)
    cx.same([tuple(j.shape) for j in oj], [(nj,) + tuple(j.shape[1:]) for j in Js], "weighted jacobian shapes")
    cx.same([id(x) for x in Jl], [id(x) for x in Js], "the given list is not modified")
    for b in range(n):
        cx.eq(out[b], fac(b) * bsel(e, b), "weighted error")
        cx.eq(oe[b], fac(b) * bsel(e, b), "weighted error with jacobians")
    for b in range(nj):
        for j, o in zip(Js, oj):
            cx.eq(o[b], fac(b).unsqueeze(-1) * bsel(j, b), "weighted jacobian")
    z = w.is_zero()
    cx.same(tuple(z.shape), (bw,), "is_zero shape")
    for b in range(bw):
        cx.true(z[b] == (fac(b) == 0).all(), "is_zero exactly when every factor is zero")


def gp_matrix(Qc, dt):
    top = torch.cat([12 * Qc / dt ** 3, -6 * Qc / dt ** 2], -1)
    bot = torch.cat([-6 * Qc / dt ** 2, 4 * Qc / dt], -1)
    return torch.cat([top, bot], -2)


def gp_q(cx, dof, bq, diag):
    Qs = []
    for b in range(bq):
        d = cx.real("qd%d" % b, dof, pos=True)
        C = torch.diag_embed(d)
        if not diag:
            idx = torch.tril_indices(dof, dof, -1)
            o = cx.real("qo%d" % b, idx.shape[1])
            C = C.index_put((idx[0], idx[1]), o)
        Qs.append(C @ C.transpose(-1, -2))
    return torch.stack(Qs)


def gp(cx, dof, bq, bd, diag=False, update=False, copy=False, two_d=False):
    Q = gp_q(cx, dof, bq, diag)
    dt = cx.real("dt", bd, pos=True)
    if update:
        Qv = th.Variable(torch.eye(dof, dtype=cx.dtype)[None], name="Q")
        dv = th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="dt")
        w = th.eb.GPCostWeight(Qv, dv)
        Qv.update(Q)
        dv.update(dt.view(-1, 1))
    else:
        w = th.eb.GPCostWeight(Q[0] if two_d else Q, dt)
    if copy:
        w = w.copy()
    n = max(bq, bd)
    D = 2 * dof
    # the weight applied to the basis vectors
    cols = [w.weight_error(torch.eye(D, dtype=cx.dtype)[i].expand(n, D)) for i in range(D)]
    W = torch.stack(cols, -1)
    cx.same(tuple(W.shape), (n, D, D), "shape")
    WtW = W.transpose(-1, -2) @ W
    for b in range(n):
        cx.eq(WtW[b], gp_matrix(bsel(Q, b), bsel(dt, b)), "W^T W is the documented inverse covariance")
    e = cx.real("e", n, D)
    J = [cx.real("j", n, D, 2), cx.real("k", n, D, 1)]
    oj, oe = w.weight_jacobians_and_error(J, e)
    cx.eq(oe, w.weight_error(e), "error weighted alone and with jacobians")
    for x, o in zip([e.unsqueeze(-1)] + J, [oe.unsqueeze(-1)] + oj):
        cx.eq(o, W @ x, "rows are combined by the same matrix")
    z = w.is_zero()
    cx.true(~z.any(), "never zero")


def masked(cx, kind, bw, cost):
    """skipping elements of zero weight changes nothing"""
    n = 2
    x = cx.real("x", 2, n)
    a = cx.real("a", 2, n)
    w, fac = make(cx, kind, bw, n, "var")
    X, A = th.Vector(tensor=x, name="x"), th.Vector(tensor=a, name="a")
    if cost == "auto":
        def fn(optim_vars, aux_vars):
            return optim_vars[0].tensor * aux_vars[0].tensor * aux_vars[0].tensor
        cf = th.AutoDiffCostFunction([X], fn, n, aux_vars=[A], cost_weight=w)
        e = x * a * a
        J = torch.diag_embed(a * a)
    else:
        cf = th.Difference(X, A, w)
        e = x - a
        J = torch.eye(n, dtype=cx.dtype).expand(2, n, n)
    ids = [id(X.tensor), id(A.tensor)]
    for mask in (False, True):
        cf._supports_masking = mask
        oj, oe = cf.weighted_jacobians_error()
        for b in range(2):
            cx.eq(oe[b], fac(b) * e[b], "weighted error, masking %s" % mask)
            cx.eq(oj[0][b], fac(b).unsqueeze(-1) * J[b], "weighted jacobian, masking %s" % mask)
        cx.same([id(X.tensor), id(A.tensor)], ids, "variables keep their tensors")
    cx.eq(cf.weighted_error(), oe, "weighted error")


def cases(tier):
    out = []
    for kind in ("scale", "diag"):
        for dim in (1, 2, 3):
            for bw, be, bj in ((1, 1, 1), (2, 2, 2), (1, 2, 2), (2, 1, 1), (2, 2, 1)):
                forms = ["var", "upd"] + (["flat"] if (bw == 1 or kind == "scale") and (kind == "scale" or dim > 1) else [])
                if kind == "scale" and bw == 1:
                    forms.append("scalar")
                for form in forms:
                    out.append(("%s_%d_w%de%dj%d_%s" % (kind, dim, bw, be, bj, form), weight,
                                dict(kind=kind, bw=bw, be=be, bj=bj, dim=dim, form=form), {}))
        out.append((kind + "_copy", weight, dict(kind=kind, bw=2, be=2, bj=2, dim=2, form="var", copy=True), {}))
        for bw in (1, 2):
            for cost in ("diff", "auto"):
                out.append(("masked.%s_%d_%s" % (kind, bw, cost), masked, dict(kind=kind, bw=bw, cost=cost), {}))
    for dof in (1, 2, 3):
        for bq, bd in ((1, 1), (1, 2), (2, 1), (2, 2)):
            out.append(("gp_%d_q%dd%d" % (dof, bq, bd), gp, dict(dof=dof, bq=bq, bd=bd, diag=dof > 2), {}))
        out.append(("gp_%d_update" % dof, gp, dict(dof=dof, bq=2, bd=1, diag=dof > 2, update=True), {}))
    out.append(("gp_copy", gp, dict(dof=1, bq=1, bd=2, copy=True), {}))
    out.append(("gp_2d", gp, dict(dof=2, bq=1, bd=2, two_d=True), {}))
    return out
