"""P05: embodied cost functions (difference, between, moving frame, reprojection, motion models)."""
import torch

import theseus as th
from theseus.global_params import _THESEUS_GLOBAL_PARAMS as _GP
from hist import pick
from lie import *  # noqa

PROPERTY = "P05"
EXPLAIN = ("the real cost functions are built over symbolic variables and their error() and jacobians() executed; the error is "
           "compared with an independent matrix formula and every jacobian block with the exact derivative of the error (closed form "
           "derivative of log at a generic element, chained with the adjoint; symbolic differentiation for the others).")
BOUNDS = ("batch 2 (aux variables 1 or 2) for polynomial costs; costs built on log: batch 1 with relative rotation angle in (0.0101, 3.1) "
          "(near zero the jacobian is the one log reports, decided by P03), every relative translation, operands generic or fixed "
          "rational group elements; batch 2 equal to its elements")
ASSUMPTIONS = ["real arithmetic instead of floating point", "hinge differentiability away from its kinks"]
BUDGET = 110
VEC = {"Vector": (th.Vector, 3), "Point2": (th.Point2, 2), "Point3": (th.Point3, 3)}


def w1(cx):
    return th.ScaleCostWeight(cx.const(1.0))


def costs_of(kind, vs, w):
    """(cost function, optimization variables in jacobian order)"""
    if kind == "Difference":
        return th.Difference(vs[0], vs[1], w), vs[:1]
    if kind == "Local":
        return th.Local(vs[0], vs[1], w), vs[:1]
    if kind == "Between":
        return th.Between(vs[0], vs[1], vs[2], w), vs[:2]
    if kind == "MovingFrameBetween":
        return th.eb.MovingFrameBetween(*vs, w), vs[:4]
    raise KeyError(kind)


def vec_costs(cx, kind, cls, batch):
    C, n = VEC[cls]
    k = {"Difference": 2, "Local": 2, "Between": 3, "MovingFrameBetween": 5}[kind]
    nopt = {"Difference": 1, "Local": 1, "Between": 2, "MovingFrameBetween": 4}[kind]
    xs = [cx.real("x%d" % i, batch[0] if i < nopt else batch[1], n) for i in range(k)]
    cf, opt = costs_of(kind, [C(tensor=x, name="v%d" % i) for i, x in enumerate(xs)], w1(cx))
    e = cf.error()
    J, e2 = cf.jacobians()
    if kind in ("Difference", "Local"):
        want = xs[0] - xs[1]
    elif kind == "Between":
        want = xs[1] - xs[0] - xs[2]
    else:
        want = (xs[3] - xs[1]) - (xs[2] - xs[0]) - xs[4]
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    cx.same(cf.dim(), n, "dim")
    vec_jac(cx, J, e, [("x%d" % i, n) for i in range(nopt)], batch[0])


def vec_jac(cx, J, e, names, batch, label="jacobian is the derivative of the error"):
    cx.same(len(J), len(names), "number of jacobians")
    for Ji, (nm, n) in zip(J, names):
        cx.same(tuple(Ji.shape), (batch, e.shape[1], n), "jacobian shape")
        for b in range(batch):
            for i in range(n):
                d = cx.deriv(e, {"%s_%d" % (nm, b * n + i): 1.0})
                cx.eq(Ji[b, :, i], d[b], label)


def base(cx, G, kind, name, j):
    """group element used as operand: generic or fixed"""
    if kind == "generic":
        return Elem(cx, G, name, 1).data
    return cx.const([CONST_G[G][j]])


def local_like(cx, G, kind, op):
    D = ExpElem(cx, G, "d")
    t = base(cx, G, op, "t", 0)
    T = mat_of(G, t)
    v = data_of(G, T @ D.M)
    cf, _ = costs_of(kind, [CLS[G](tensor=v, name="v", disable_checks=True),
                            CLS[G](tensor=t, name="t", disable_checks=True)], w1(cx))
    J, e2 = cf.jacobians()
    cx.eq(cf.error(), D.xi, "error")
    cx.eq(e2, D.xi, "error returned with the jacobians")
    cx.same(cf.dim(), DOF[G], "dim")
    cx.same([tuple(j.shape) for j in J], [(1, DOF[G], DOF[G])], "jacobian shapes")
    D.check_dlog(J[0][0], "jacobian is the derivative of the error")


def between_cost(cx, G, op):
    D = ExpElem(cx, G, "d")
    a, m = base(cx, G, op[0], "a", 0), base(cx, G, op[1], "m", 1)
    dif = mat_of(G, m) @ D.M
    b = data_of(G, mat_of(G, a) @ dif)
    mk = lambda t, n: CLS[G](tensor=t, name=n, disable_checks=True)
    cf = th.Between(mk(a, "a"), mk(b, "b"), mk(m, "m"), w1(cx))
    J, e2 = cf.jacobians()
    cx.eq(cf.error(), D.xi, "error")
    cx.eq(e2, D.xi, "error returned with the jacobians")
    cx.same([tuple(j.shape) for j in J], [(1, DOF[G], DOF[G])] * 2, "jacobian shapes")
    D.check_dlog(J[1][0], "second jacobian is the derivative of the error")
    cx.eq(J[0], -(J[1] @ adj_of(G, inv_mat(G, dif))), "first jacobian is the derivative of the error")


def between_near(cx, G):
    """near zero the jacobian is the one log reports"""
    D = ExpElem(cx, G, "d", lo=1e-9, hi=0.0101)
    a, m = base(cx, G, "fixed", "a", 0), base(cx, G, "fixed", "m", 1)
    dif = mat_of(G, m) @ D.M
    b = data_of(G, mat_of(G, a) @ dif)
    mk = lambda t, n: CLS[G](tensor=t, name=n, disable_checks=True)
    L = []
    ref = mk(D.data, "d").log_map(jacobians=L)
    for nm, cf in (("between", th.Between(mk(a, "a"), mk(b, "b"), mk(m, "m"), w1(cx))),
                   ("local", th.Difference(mk(data_of(G, mat_of(G, m) @ D.M), "v"), mk(m, "m"), w1(cx)))):
        J, e2 = cf.jacobians()
        cx.eq(e2, ref, nm + " error near zero", tol=1e-9)
        cx.eq(J[-1], L[0], nm + " jacobian near zero", tol=1e-6)


def moving(cx, G, free):
    """frames and poses fixed rational elements except one; relative motion generic"""
    D = ExpElem(cx, G, "d")
    el = [base(cx, G, "generic" if j == free else "fixed", "p%d" % j, j % 3) for j in range(4)]
    f1, f2, p1, m = el
    F1, F2, P1, Mm = [mat_of(G, x) for x in el]
    b1 = inv_mat(G, F1) @ P1
    dif = Mm @ D.M
    p2 = data_of(G, F2 @ b1 @ dif)
    mk = lambda t, n: CLS[G](tensor=t, name=n, disable_checks=True)
    cf = th.eb.MovingFrameBetween(mk(f1, "f1"), mk(f2, "f2"), mk(p1, "p1"), mk(p2, "p2"), mk(m, "m"), w1(cx))
    J, e2 = cf.jacobians()
    cx.eq(cf.error(), D.xi, "error")
    cx.eq(e2, D.xi, "error returned with the jacobians")
    cx.same([tuple(j.shape) for j in J], [(1, DOF[G], DOF[G])] * 4, "jacobian shapes")
    # tangent derivative of var_diff = b1^-1 b2 with b_i = f_i^-1 p_i
    n = DOF[G]
    I = torch.eye(n, dtype=cx.dtype)[None]
    b2 = b1 @ dif
    Adif = adj_of(G, inv_mat(G, dif))
    spec = [Adif @ adj_of(G, inv_mat(G, b1)), -adj_of(G, inv_mat(G, b2)), -Adif, I.expand(1, n, n)]
    # jacobians come as frame1, frame2, pose1, pose2
    for j, (x, s) in enumerate(zip(J, spec)):
        cx.eq(x, s, "jacobian of the relative pose, variable %d" % j)
    if G != "SO2":
        D.check_dlog(J[3][0], "group jacobian includes the derivative of log")


def batch_equal(cx, G, kind, bm):
    """a batch of two gives what its elements give"""
    nopt = {"Difference": 1, "Between": 2, "MovingFrameBetween": 4}[kind]
    k = nopt + 1
    mk = lambda t, n: CLS[G](tensor=t, name=n, disable_checks=True)
    # fixed, different elements; the last optimization variable moves freely relative to them
    es = [cx.const([CONST_G[G][(i + b) % 3] for b in range(2 if i < nopt else bm)]) for i in range(k)]
    D = [ExpElem(cx, G, "d%d" % b) for b in range(2)]
    Ms = [mat_of(G, e) for e in es]
    ref = {"Difference": lambda b: Ms[-1][b % bm], "Between": lambda b: Ms[0][b] @ Ms[-1][b % bm],
           "MovingFrameBetween": lambda b: Ms[1][b] @ inv_mat(G, Ms[0])[b] @ Ms[2][b] @ Ms[-1][b % bm]}[kind]
    es[nopt - 1] = data_of(G, torch.stack([ref(b) @ D[b].M[0] for b in range(2)]))
    cf, _ = costs_of(kind, [mk(e, "v%d" % i) for i, e in enumerate(es)], w1(cx))
    J, e2 = cf.jacobians()
    er = cf.error()
    cx.same([tuple(j.shape) for j in J], [(2, DOF[G], DOF[G])] * nopt, "jacobian shapes")
    for b in range(2):
        c1, _ = costs_of(kind, [mk(e[min(b, e.shape[0] - 1)][None], "v%d" % i) for i, e in enumerate(es)], w1(cx))
        J1, _ = c1.jacobians()
        cx.eq(er[b:b + 1], c1.error(), "error of a batch element")
        cx.eq(e2[b:b + 1], c1.error(), "error of a batch element")
        for x, y in zip(J, J1):
            cx.eq(x[b:b + 1], y, "jacobian of a batch element")


KINDS = {  # variables (type, name) and constructor
    "Difference": (["G", "G"], lambda v, w: th.Difference(v[0], v[1], w), 1),
    "Local": (["G", "G"], lambda v, w: th.Local(v[0], v[1], w), 1),
    "Between": (["G"] * 3, lambda v, w: th.Between(*v, w), 2),
    "MovingFrameBetween": (["G"] * 5, lambda v, w: th.eb.MovingFrameBetween(*v, w), 4),
    "DI": (["G", "g", "G", "g", "s"], lambda v, w: th.eb.DoubleIntegrator(*v, w), 4),
    "GP": (["G", "g", "G", "g", "s", "Q"], lambda v, w: th.eb.GPMotionModel(*v[:5], th.eb.GPCostWeight(v[5], v[4])), 4),
    "Nonholonomic": (["G", 3], lambda v, w: th.eb.Nonholonomic(*v, w), 2),
    "Pushing": (["G"] * 4 + ["s"], lambda v, w: th.eb.QuasiStaticPushingPlanar(*v, w), 4),
    "Hinge": ([1, "l", "h", "t"], None, 1),
    "Reprojection": (["SE3", "P3", "P2", 1, 1, 1], lambda v, w: th.eb.Reprojection(*v[:4], calib_k1=v[4], calib_k2=v[5], weight=w), 2),
}


def mix(cx, kind, G="SE2", n=2, weighted=False):
    """every choice of batch sizes 1 and n gives what the elements give"""
    types, make, nopt = KINDS[kind]
    g = 3 if G == "Vector" else DOF[G]
    ts = []
    for i, t in enumerate(types):
        B = 1 + (n - 1) * pick(cx, "batch%d" % i, 2)
        t = G if t == "G" else g if t == "g" else t
        nm = "v%d" % i
        if t == "Vector":
            x = cx.real(nm, B, 3)
        elif t in ("P2", "P3"):
            x = cx.real(nm, B, int(t[1]))
        elif t == "Q":
            x = cx.const(torch.stack([torch.eye(g) * (4 + 5 * b) for b in range(B)]).to(cx.dtype))
        elif t == "s":
            x = cx.real(nm, B, 1, pos=True)
        elif t in ("l", "h", "t"):
            x = cx.real(nm, B, 1)
        elif isinstance(t, int):
            x = cx.real(nm, B, t)
        else:
            x = Elem(cx, t, nm, B).data
        ts.append((t, x))
    N = max(x.shape[0] for _, x in ts)

    def build(sel):
        vs = []
        for i, (t, x) in enumerate(ts):
            x, nm = sel(x), "v%d" % i
            if t in ("s", "Q"):
                vs.append(th.Variable(x, name=nm))
            elif t in ("l", "h", "t"):
                z = torch.full(x.shape, dict(l=-1., h=1., t=0.)[t], dtype=cx.dtype)
                vs.append(th.Variable(z, name=nm))
            elif t in ("P2", "P3"):
                vs.append((th.Point2 if t == "P2" else th.Point3)(tensor=x, name=nm))
            elif t == "Vector" or isinstance(t, int):
                vs.append(th.Vector(tensor=x, name=nm))
            else:
                vs.append(CLS[t](tensor=x, name=nm, disable_checks=True))
        if kind == "Hinge":
            cf = th.eb.HingeCost(*vs, w1(cx))
            for v, (_, x) in zip(vs[1:], ts[1:]):
                v.update(sel(x))
            return cf
        return make(vs, w1(cx))
    ids = list(range(N)) if N > 1 else []
    cf = build(lambda x: x)
    e = cf.error()
    J, e2 = cf.jacobians()
    cx.same(len(J), nopt, "number of jacobians")
    for b in ids:
        c1 = build(lambda x: x[min(b, x.shape[0] - 1)][None])
        J1, e1 = c1.jacobians()
        d = lambda t: t[min(b, t.shape[0] - 1)][None]
        cx.same(all(t.shape[0] in (1, N) for t in J + [e, e2]), True, "batch size")
        cx.eq(d(e), e1, "error of a batch element")
        cx.eq(d(e2), e1, "error of a batch element")
        for x, y in zip(J, J1):
            cx.eq(d(x), y, "jacobian of a batch element")


def fast_local(cx, G):
    D = ExpElem(cx, G, "d")
    t = cx.const([CONST_G[G][0]])
    v = data_of(G, mat_of(G, t) @ D.M)
    var = CLS[G](tensor=v, name="v", disable_checks=True)
    cf = th.Difference(var, CLS[G](tensor=t, name="t", disable_checks=True), w1(cx))
    n = DOF[G]
    _GP.fast_approx_local_jacobians = True
    try:
        for B in (1, 2, 1):
            var.update(v.expand(B, *v.shape[1:]))
            J, e = cf.jacobians()
            cx.eq(J[0], torch.eye(n, dtype=cx.dtype).expand(B, n, n), "fast local jacobian is the identity")
            cx.eq(e, D.xi.expand(B, n), "error with fast local jacobians")
    finally:
        _GP.fast_approx_local_jacobians = False


def reprojection(cx, batch, baux, calib):
    p = Elem(cx, "SE3", "p", batch)
    w = cx.real("w", batch, 3)
    f = cx.real("f", baux, 1)
    img = cx.real("i", baux, 2)
    ks = [cx.real("k%d" % i, baux, 1) for i in (1, 2)] if calib else [None, None]
    mkv = lambda t, n: None if t is None else th.Vector(tensor=t, name=n)
    cf = th.eb.Reprojection(p.obj("p"), th.Point3(tensor=w, name="w"), th.Point2(tensor=img, name="i"), mkv(f, "f"),
                            calib_k1=mkv(ks[0], "k1"), calib_k2=mkv(ks[1], "k2"), weight=w1(cx))
    cam = (p.M[:, :3, :3] @ w.unsqueeze(-1)).squeeze(-1) + p.M[:, :3, 3]
    cx.assume(cam[:, 2] != 0)
    e = cf.error()
    J, e2 = cf.jacobians()
    pr = -cam[:, :2] / cam[:, 2:]
    r2 = pr[:, :1] ** 2 + pr[:, 1:] ** 2
    fac = f
    if calib:
        fac = f * (1 + r2 * ks[0] + r2 * r2 * ks[1])
    want = pr * fac - img
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    cx.same([tuple(j.shape) for j in J], [(batch, 2, 6), (batch, 2, 3)], "jacobian shapes")
    for b in range(batch):
        for i in range(6):
            cx.eq(J[0][b, :, i], cx.deriv(e, p.seeds(i, b))[b], "pose jacobian is the derivative of the error")
        for i in range(3):
            cx.eq(J[1][b, :, i], cx.deriv(e, {"w_%d" % (3 * b + i): 1.0})[b], "point jacobian is the derivative of the error")


def hinge(cx, batch, baux, floats=False):
    n = 2
    x = cx.real("x", batch, n)
    if floats:
        lo, hi, tr = -0.75, 1.25, 0.25
        L, H, Tr = [torch.full((1, n), v, dtype=cx.dtype) for v in (lo, hi, tr)]
        cf = th.eb.HingeCost(th.Vector(tensor=x, name="x"), lo, hi, tr, w1(cx))
        cf.down_limit.to(cx.dtype), cf.up_limit.to(cx.dtype), cf.threshold.to(cx.dtype)
    else:
        # the constructor validates values; the variables are updated afterwards
        z = torch.zeros(baux, n, dtype=cx.dtype)
        cf = th.eb.HingeCost(th.Vector(tensor=x, name="x"), th.Variable(z - 1, name="l"), th.Variable(z + 1, name="h"),
                             th.Variable(z, name="t"), w1(cx))
        L, H, Tr = cx.real("l", baux, n, lo=-2, hi=-.5), cx.real("h", baux, n, lo=.5, hi=2), cx.real("t", baux, n, pos=True, hi=.5)
        cx.assume(L + Tr <= H - Tr)
        cf.down_limit.update(L), cf.up_limit.update(H), cf.threshold.update(Tr)
    cx.assume(x != (L + Tr))
    cx.assume(x != (H - Tr))
    e = cf.error()
    J, e2 = cf.jacobians()
    z = torch.zeros_like(x)
    want = torch.maximum(torch.maximum(L + Tr - x, x - (H - Tr)), z)
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    vec_jac(cx, J, e, [("x", n)], batch)


def hinge_overlap(cx, baux):
    """limits that overlap after applying the threshold: the jacobian still belongs to the returned error"""
    n = 2
    x = cx.real("x", 2, n)
    z = torch.zeros(baux, n, dtype=cx.dtype)
    cf = th.eb.HingeCost(th.Vector(tensor=x, name="x"), th.Variable(z - 1, name="l"), th.Variable(z + 1, name="h"),
                         th.Variable(z, name="t"), w1(cx))
    L, H, Tr = cx.real("l", baux, n, lo=-1, hi=1), cx.real("h", baux, n, lo=-1, hi=1), cx.real("t", baux, n, pos=True, hi=1)
    cx.assume(L <= H)
    cf.down_limit.update(L), cf.up_limit.update(H), cf.threshold.update(Tr)
    lo, hi = (L + Tr).expand(2, n), (H - Tr).expand(2, n)
    cx.assume(lo > hi)
    cx.assume(x != lo)
    cx.assume(x != hi)
    e = cf.error()
    J, e2 = cf.jacobians()
    cx.eq(e, e2, "error returned with the jacobians")
    cx.true(((e == lo - x) & (x < lo)) | ((e == x - hi) & (x > hi)), "error measures a violated limit")
    vec_jac(cx, J, e, [("x", n)], 2)


def nonholonomic(cx, G, batch):
    v = cx.real("v", batch, 3)
    vel = th.Vector(tensor=v, name="vel")
    if G == "SE2":
        p = Elem(cx, "SE2", "p", batch)
        pose, names = p.obj("pose"), None
        want = v[:, 1:2]
    else:
        q = cx.real("q", batch, 3)
        pose = (th.Point3 if G == "Point3" else th.Vector)(tensor=q, name="pose")
        want = (v[:, 1] * q[:, 2].cos() - v[:, 0] * q[:, 2].sin()).unsqueeze(-1)
    cf = th.eb.Nonholonomic(pose, vel, w1(cx))
    e = cf.error()
    J, e2 = cf.jacobians()
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    if G == "SE2":
        for b in range(batch):
            for i in range(3):
                cx.eq(J[0][b, :, i], cx.deriv(e, p.seeds(i, b))[b], "pose jacobian is the derivative of the error")
        vec_jac(cx, J[1:], e, [("v", 3)], batch)
    else:
        vec_jac(cx, J, e, [("q", 3), ("v", 3)], batch)


def gp_weight(cx, n):
    return th.eb.GPCostWeight(torch.eye(n, dtype=cx.dtype), torch.tensor(0.5, dtype=cx.dtype))


def motion_vec(cx, model, cls, batch, bdt):
    C, n = VEC[cls]
    p1, v1, p2, v2 = [cx.real(k, batch, n) for k in ("p1", "v1", "p2", "v2")]
    dt = cx.real("dt", bdt, pos=True)
    mk = lambda t, k: C(tensor=t, name=k)
    mv = lambda t, k: th.Vector(tensor=t, name=k)
    M = th.eb.GPMotionModel if model == "GP" else th.eb.DoubleIntegrator
    w = gp_weight(cx, n) if model == "GP" else w1(cx)
    cf = M(mk(p1, "p1"), mv(v1, "v1"), mk(p2, "p2"), mv(v2, "v2"), th.Variable(dt.view(-1, 1), name="dt"), w)
    e = cf.error()
    J, e2 = cf.jacobians()
    want = torch.cat([p2 - p1 - dt.view(-1, 1) * v1, v2 - v1], -1)
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    cx.same(cf.dim(), 2 * n, "dim")
    vec_jac(cx, J, e, [(k, n) for k in ("p1", "v1", "p2", "v2")], batch)


def motion_group(cx, G, model):
    n = DOF[G]
    D = ExpElem(cx, G, "d")
    a = base(cx, G, "fixed" if G == "SE3" else "generic", "a", 0)
    b = data_of(G, mat_of(G, a) @ D.M)
    v1, v2 = cx.real("v1", 1, n), cx.real("v2", 1, n)
    dt = cx.real("dt", 1, pos=True)
    mk = lambda t, k: CLS[G](tensor=t, name=k, disable_checks=True)
    mv = lambda t, k: th.Vector(tensor=t, name=k)
    M = th.eb.GPMotionModel if model == "GP" else th.eb.DoubleIntegrator
    w = gp_weight(cx, n) if model == "GP" else w1(cx)
    cf = M(mk(a, "p1"), mv(v1, "v1"), mk(b, "p2"), mv(v2, "v2"), th.Variable(dt.view(-1, 1), name="dt"), w)
    e = cf.error()
    J, e2 = cf.jacobians()
    want = torch.cat([D.xi - dt.view(-1, 1) * v1, v2 - v1], -1)
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    Z = torch.zeros(1, n, n, dtype=cx.dtype)
    I = torch.eye(n, dtype=cx.dtype)[None]
    D.check_dlog(J[2][0, :n], "second pose jacobian is the derivative of the error")
    cx.eq(J[2][:, n:], Z, "second pose jacobian, velocity rows")
    cx.eq(J[0][:, :n], -(J[2][:, :n] @ adj_of(G, inv_mat(G, D.M))), "first pose jacobian is the derivative of the error")
    cx.eq(J[0][:, n:], Z, "first pose jacobian, velocity rows")
    cx.eq(J[1], torch.cat([-dt.view(-1, 1, 1) * I, -I], 1), "first velocity jacobian")
    cx.eq(J[3], torch.cat([Z, I], 1), "second velocity jacobian")


def pushing(cx, batch, bc):
    es = [Elem(cx, "SE2", k, batch) for k in ("o1", "o2", "e1", "e2")]
    c2 = cx.real("c", bc, pos=True)
    # the relative rotation is never exactly a half turn (theta is discontinuous there)
    R1, R2 = es[0].M[:, :2, :2], es[1].M[:, :2, :2]
    R = R1.transpose(-1, -2) @ R2
    cx.assume((R[:, 1, 0] != 0) | (R[:, 0, 0] > 0))
    cf = th.eb.QuasiStaticPushingPlanar(*[e.obj(e.name) for e in es], th.Variable(c2.view(-1, 1), name="c"), w1(cx))
    e = cf.error()
    J, e2 = cf.jacobians()
    o1, o2, f1, f2 = [x.t for x in es]
    R2t = R2.transpose(-1, -2)
    loc = lambda v: (R2t @ v.unsqueeze(-1)).squeeze(-1)
    pc = loc(f2 - o2)
    V = loc(o2 - o1)
    om = torch.atan2(R[:, 1, 0], R[:, 0, 0])
    vp = loc(f2 - f1)
    want = torch.stack([V[:, 0] - pc[:, 1] * om - vp[:, 0], V[:, 1] + pc[:, 0] * om - vp[:, 1],
                        -pc[:, 1] * V[:, 0] + pc[:, 0] * V[:, 1] - c2 * om], -1)
    cx.eq(e, want, "error")
    cx.eq(e2, want, "error returned with the jacobians")
    cx.same([tuple(j.shape) for j in J], [(batch, 3, 3)] * 4, "jacobian shapes")
    for k, el in enumerate(es):
        for b in range(batch):
            for i in range(3):
                cx.eq(J[k][b, :, i], cx.deriv(e, el.seeds(i, b))[b], "jacobian is the derivative of the error (%s)" % el.name)


def cases(tier):
    out = []
    for cls in VEC:
        for kind in ("Difference", "Between", "MovingFrameBetween"):
            for batch in ((2, 2), (2, 1)):
                out.append(("%s.%s_%d" % (kind, cls, batch[1]), vec_costs, dict(kind=kind, cls=cls, batch=batch), {}))
        for model in ("DI", "GP"):
            for bdt in (1, 2):
                out.append(("%s.%s_%d" % (model, cls, bdt), motion_vec, dict(model=model, cls=cls, batch=2, bdt=bdt), {}))
    for G in ("SO2", "SE2", "SO3", "SE3"):
        for op in (("generic", "fixed") if G != "SE3" else ("generic", "fixed")):
            out.append(("Difference.%s_%s" % (G, op), local_like, dict(G=G, kind="Difference", op=op), {}))
        for op in ((("generic", "generic"),) if G in ("SO2", "SE2") else (("generic", "fixed"), ("fixed", "generic"))):
            out.append(("Between.%s_%s_%s" % ((G,) + op), between_cost, dict(G=G, op=op), {}))
        for free in range(4):
            out.append(("MovingFrameBetween.%s_%d" % (G, free), moving, dict(G=G, free=free), {}))
        for kind in ("Difference", "Between", "MovingFrameBetween"):
            for bm in (1, 2):
                out.append(("batch.%s.%s_%d" % (kind, G, bm), batch_equal, dict(G=G, kind=kind, bm=bm), {}))
        out.append(("fast_local." + G, fast_local, dict(G=G), {}))
        for model in ("DI", "GP"):
            out.append(("%s.%s" % (model, G), motion_group, dict(G=G, model=model), {}))
    for G in ("SE2", "SO3", "SE3"):
        out.append(("near." + G, between_near, dict(G=G), {}))
    for calib in (0, 1):
        for baux in (1, 2):
            out.append(("Reprojection_%d_%d" % (calib, baux), reprojection, dict(batch=2, baux=baux, calib=calib), {}))
    out += [("Hinge_%d" % b, hinge, dict(batch=2, baux=b), {}) for b in (1, 2)]
    out.append(("Hinge_floats", hinge, dict(batch=2, baux=1, floats=True), {}))
    out += [("Hinge_overlap_%d" % b, hinge_overlap, dict(baux=b), {}) for b in (1, 2)]
    out += [("Nonholonomic." + G, nonholonomic, dict(G=G, batch=2), {}) for G in ("SE2", "Point3", "Vector")]
    out += [("Pushing_%d" % bc, pushing, dict(batch=2, bc=bc), {}) for bc in (1, 2)]
    for kind in KINDS:
        for G in (("SE2", "Vector") if "G" in KINDS[kind][0] and kind != "Pushing" else ("SE2",)):
            out.append(("mix.%s.%s" % (kind, G), mix, dict(kind=kind, G=G), dict(max_paths=4000)))
    return out
