"""P04: hand-written backward passes of Lie group operations."""
import torch

import theseus as th
from lie import *  # noqa
from symtorch import tensor as T

PROPERTY = "P04"
EXPLAIN = ("torch's autograd runs on the symbolic tensors, so the hand-written backward of every operation executes on symbolic "
           "operands and a fully symbolic upstream gradient; <upstream, d out> = <gradient, d operand> is decided along every "
           "tangent direction of the operand, d out being the exact derivative of the forward value.")
BOUNDS = ("batch sizes 1-2 with broadcasting, extra leading dimensions for left_act/left_project; every rotation, translation, "
          "quaternion and upstream gradient; exp/log: the derivative itself for every angle in (0.0101, 3.1), elsewhere (near zero, near and beyond a half turn) the reported jacobian, which P03 decides")
ASSUMPTIONS = ["real arithmetic instead of floating point",
               "gradients with respect to group elements are compared along directions tangent to the group"]
BUDGET = 110

F = {"SO3": LSO3, "SE3": LSE3}


def leaf(x):
    return x.detach().clone().requires_grad_(True)


def vjp(out, leaves, G):
    return torch.autograd.grad(out, leaves, G, allow_unused=True)


def pair(a, b):
    return (a * b).sum()


def check_dirs(cx, out, G, grad, src, seedlist, label, tol=None):
    """<G, d out> = <grad, d src> along each seed; src the operand as a function of the inputs"""
    if grad is None:
        grad = torch.zeros(src.shape, dtype=src.dtype)
    cx.same(tuple(grad.shape), tuple(src.shape), label + ": gradient shape")
    for s in seedlist:
        cx.eq(pair(grad, cx.deriv(src, s)), pair(G, cx.deriv(out, s)), label, tol=tol)


def gseeds(e):
    return [e.seeds(i, b) for b in range(e.batch) for i in range(DOF[e.G])]


def vseeds(name, n):
    return [{"%s_%d" % (name, k): 1.0} for k in range(n)]


def unary_group(cx, G, op, batch=2):
    a = Elem(cx, G, "a", batch)
    l = leaf(a.data)
    out = getattr(F[G], op)(l)
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    check_dirs(cx, out, Gr, g, a.data, gseeds(a), op)


def unary_vec(cx, G, op, shape, batch=2):
    x = cx.real("x", batch, *shape)
    l = leaf(x)
    out = getattr(F[G], op)(l)
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    n = batch
    for s in shape:
        n *= s
    check_dirs(cx, out, Gr, g, x, vseeds("x", n), op)


def vee(cx, G):
    n = DOF[G]
    x = cx.real("x", 2, n)
    m = hat_of(G, x)
    l = leaf(m)
    out = F[G].vee(l)
    Gr = cx.real("g", 2, n)
    g, = vjp(out, [l], Gr)
    check_dirs(cx, out, Gr, g, m, vseeds("x", 2 * n), "vee")


def quat(cx, batch):
    q = cx.quat("q", batch)
    l = leaf(q)
    out = LSO3.quaternion_to_rotation(l)
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    names = ["q_b%d" % b for b in range(batch)]
    check_dirs(cx, out, Gr, g, q, [{"%s_%s" % (n, c): 1.0} for n in names for c in "wxyz"], "quaternion_to_rotation")


def exp(cx, G, batch=1):
    n = DOF[G]
    x = cx.real("x", batch, n)
    for b in range(batch):
        w = x[b, -3:]
        cx.assume((w * w).sum().sqrt() > 0.02)
    l = leaf(x)
    out = F[G].exp(l)
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    check_dirs(cx, out, Gr, g, x, vseeds("x", n * batch), "exp")


def exp_is_jac(cx, G):
    """the backward of exp applies the jacobian the operation reports: every angle and branch"""
    n = DOF[G]
    x = cx.real("x", 2, n, tiny=True)
    l = leaf(x)
    out = F[G].exp(l)
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    J, M = F[G].jexp(x)
    for b in range(2):
        for s in range(n):
            d = (M[b, :, :3] @ hat_of(G, J[0][b][:, s])[:3])
            cx.eq(g[b, s], pair(Gr[b], d), "exp backward applies its jacobian")


def log(cx, G, passthrough):
    """generic branch: <grad, d g> = <upstream, J dx> with g = exp(x), d g = g hat(Jexp dx), d log = dx"""
    r = cx.rot3aa("R", 0.0101, 3.1)
    n, t = r.params
    w = n * t
    s, c = t.sin(), t.cos()
    A, B, C = so3_coeffs(t, s, c)
    if G == "SO3":
        gd = r.mat[None]
    else:
        rho = cx.real("rho", 3)
        V = V_so3(w, B, C)
        gd = torch.cat([r.mat, (V @ rho).unsqueeze(-1)], -1)[None]
    k = DOF[G]
    Gr = cx.real("g", 1, k)
    l = leaf(gd)
    J = []
    if passthrough:
        out = F[G].log(l, jacobians=J)
    else:
        out = F[G].log(l)
    g, = vjp(out, [l], Gr)
    R = r.mat
    jw = jr_so3(w, B, C)
    W = hat3(w)
    dB = (s / t ** 2 - 2 * (1 - c) / t ** 3)
    dC = ((1 - c) / t ** 3 - 3 * (t - s) / t ** 4)
    for i in range(3):
        E_ = hat3(torch.eye(3, dtype=w.dtype)[i])
        dR = R @ hat3(jw[:, i])
        if G == "SO3":
            cx.eq(pair(g[0], dR), Gr[0, i], "log")
            continue
        cx.eq(pair(g[0], torch.cat([dR * 0, V[:, i:i + 1]], -1)), Gr[0, i], "log, translation")
        dV = B * E_ + dB * n[i] * W + C * (E_ @ W + W @ E_) + dC * n[i] * (W @ W)
        cx.eq(pair(g[0], torch.cat([dR, (dV @ rho).unsqueeze(-1)], -1)), Gr[0, 3 + i], "log, rotation")
    if passthrough:
        cx.eq(out, torch.cat([rho, w])[None] if G == "SE3" else w[None], "value with jacobians")


def log_is_jac(cx, G, near):
    """the backward of log applies the jacobian the operation reports, on every branch"""
    if near == "zero":
        r = cx.rot3aa("R", 1e-9, 0.0099)
    else:
        r = cx.rot3("a")
    R = r.mat
    gd = R[None] if G == "SO3" else torch.cat([R, cx.real("t", 3).unsqueeze(-1)], -1)[None]
    l = leaf(gd)
    out = F[G].log(l)
    Gr = cx.real("g", 1, DOF[G])
    g, = vjp(out, [l], Gr)
    J, _ = getattr(F[G], "jlog")(gd)
    for i in range(DOF[G]):
        e = torch.eye(DOF[G], dtype=cx.dtype)[i]
        if G == "SO3":
            d = R @ hat3(e)
        else:
            d = torch.cat([R @ hat3(e[3:]), (R @ e[:3]).unsqueeze(-1)], -1)
        cx.eq(pair(g[0], d), (Gr[0] @ J[0][0])[i], "log backward applies its jacobian")


def binary(cx, G, op, b1, b2):
    a = Elem(cx, G, "a", b1)
    la = leaf(a.data)
    if op == "compose":
        b = Elem(cx, G, "b", b2)
        bd, bs = b.data, gseeds(b)
    else:
        bd, bs = cx.real("b", b2, 3), vseeds("b", 3 * b2)
    lb = leaf(bd)
    out = getattr(F[G], op)(la, lb)
    Gr = cx.real("g", *out.shape)
    ga, gb = vjp(out, [la, lb], Gr)
    check_dirs(cx, out, Gr, ga, a.data, gseeds(a), op + ", first operand")
    check_dirs(cx, out, Gr, gb, bd, bs, op + ", second operand")


def act(cx, G, op, shape, batch, dim_out=None):
    """left_act / left_project with extra dimensions; the projected matrices are arbitrary"""
    a = Elem(cx, G, "a", batch)
    d = 3 if (op == "left_act" or G == "SO3") else 4
    x = cx.real("x", *shape, 3, d)
    la, lx = leaf(a.data), leaf(x)
    out = getattr(F[G], op)(la, lx, dim_out)
    Gr = cx.real("g", *out.shape)
    ga, gx = vjp(out, [la, lx], Gr)
    n = 3 * d
    for s in shape:
        n *= s
    check_dirs(cx, out, Gr, ga, a.data, gseeds(a), op + ", group operand")
    check_dirs(cx, out, Gr, gx, x, vseeds("x", n), op + ", tensor operand")


class Rots:
    pass


def normalize(cx, G, refl):
    """projection on SO(3): with M = U S V^T, D = diag(1, 1, +-1): R = U D V^T and
    d R = U D W V^T, W skew, W_ij (p_i + p_j) = (D A - (D A)^T)_ij, A = U^T dM V, p = D S"""
    u = cx.rot3("u", 1).mat
    v = cx.rot3("v", 1).mat
    s3 = cx.real("s", 1, 3, lo=0.1, hi=3, pos=True)
    cx.assume(s3[:, 1] > s3[:, 2] * 1.01)
    cx.assume(s3[:, 0] > s3[:, 1] * 1.01)
    D = torch.diag(torch.tensor([1., 1., -1.], dtype=cx.dtype))
    uu = u @ D if refl else u
    M = uu @ (s3.unsqueeze(-1) * v.transpose(-1, -2))
    if G == "SE3":
        tr = cx.real("t", 1, 3, 1)
        M = torch.cat([M, tr], -1)
    l = leaf(M)
    if cx.sym:
        T.SVD_STUB[:] = [lambda A: (uu, s3, v)]
    try:
        out = F[G].normalize(l)
        R = uu @ (D if refl else torch.eye(3, dtype=cx.dtype)) @ v.transpose(-1, -2)
        cx.eq(out[..., :3], R, "normalize")
        Gr = cx.real("g", *out.shape)
        g, = vjp(out, [l], Gr)
    finally:
        T.SVD_STUB[:] = []
    if G == "SE3":
        cx.eq(out[..., 3:], tr, "normalize keeps the translation")
        cx.eq(g[..., 3:], Gr[..., 3:], "normalize gradient, translation")
    sg = torch.tensor([1., 1., -1. if refl else 1.], dtype=cx.dtype)
    p = sg * s3[0]
    for k in range(9):
        E_ = torch.zeros(9, dtype=cx.dtype)
        E_[k] = 1
        A = uu[0].transpose(-1, -2) @ E_.reshape(3, 3) @ v[0]
        DA = sg.unsqueeze(-1) * A
        K = DA - DA.transpose(-1, -2)
        z = A[0, 0] * 0
        e = lambda i, j: K[i, j] / (p[i] + p[j])  # noqa
        W = torch.stack([z, e(0, 1), e(0, 2), -e(0, 1), z, e(1, 2), -e(0, 2), -e(1, 2), z]).reshape(3, 3)
        dR = uu[0] @ (sg.unsqueeze(-1) * W) @ v[0].transpose(-1, -2)
        cx.eq(g[0, :, :3].reshape(-1)[k], pair(Gr[0, :, :3], dR), "normalize gradient")


def sym_identity(cx, G, op):
    """exactly at the identity / zero, where divisions could vanish"""
    n = DOF[G]
    Gr = cx.real("g", 1, n) if op == "log" else cx.real("g", 1, 3, 3 if G == "SO3" else 4)
    if op == "exp":
        l = leaf(cx.const(torch.zeros(1, n, dtype=cx.dtype)))
        out = F[G].exp(l)
        g, = vjp(out, [l], Gr)
        for i in range(n):
            e = torch.eye(n, dtype=cx.dtype)[i]
            H = hat_of(G, e)[:3]
            cx.eq(g[0, i], pair(Gr[0], H), "exp at zero")
    else:
        l = leaf(cx.const(torch.eye(3, 3 if G == "SO3" else 4, dtype=cx.dtype)[None]))
        out = F[G].log(l)
        g, = vjp(out, [l], Gr)
        for i in range(n):
            e = torch.eye(n, dtype=cx.dtype)[i]
            cx.eq(pair(g[0], hat_of(G, e)[:3]), Gr[0, i], "log at the identity")


def planar(cx, G, op):
    """SO2 / SE2 go through torch's own autograd rules"""
    n = DOF[G]
    cl = CLS[G]
    if op == "exp":
        x = cx.real("x", 1, n)
        cx.assume(x[0, -1].abs() > 0.02)
        l = leaf(x)
        out = cl.exp_map(l).tensor
        sd = vseeds("x", n)
    elif op == "log":
        a = Elem(cx, G, "a", 1)
        x, sd = a.data, gseeds(a)
        cx.assume(x[0, -1].abs() > 0.02)
        l = leaf(x)
        out = tensor_of(G, l).log_map()
    else:
        a, b = Elem(cx, G, "a", 2), Elem(cx, G, "b", 1)
        x, sd = a.data, gseeds(a)
        l = leaf(x)
        out = getattr(tensor_of(G, l), op)(tensor_of(G, b.data)).tensor
    Gr = cx.real("g", *out.shape)
    g, = vjp(out, [l], Gr)
    check_dirs(cx, out, Gr, g, x, sd, op)


def planar_zero(cx, G, op):
    n = DOF[G]
    if op == "exp":
        l = leaf(cx.const(torch.zeros(1, n, dtype=cx.dtype)))
        out = CLS[G].exp_map(l).tensor
        Gr = cx.real("g", *out.shape)
        g, = vjp(out, [l], Gr)
        want = Gr[:, [1]] if G == "SO2" else Gr[:, [0, 1, 3]]
        cx.eq(g, want, "exp at zero")
    else:
        one = [[1.0, 0.0]] if G == "SO2" else [[0.0, 0.0, 1.0, 0.0]]
        l = leaf(cx.const(one))
        out = tensor_of(G, l).log_map()
        Gr = cx.real("g", *out.shape)
        g, = vjp(out, [l], Gr)
        cx.eq(g[:, [1]] if G == "SO2" else g[:, [0, 1, 3]], Gr, "log at the identity")


def cases(tier):
    out = []
    for G in ("SO3", "SE3"):
        n = DOF[G]
        for op in ("adj", "inv"):
            out.append(("%s.%s" % (G, op), unary_group, dict(G=G, op=op), {}))
        out.append(("%s.hat" % G, unary_vec, dict(G=G, op="hat", shape=(n,)), {}))
        out.append(("%s.vee" % G, vee, dict(G=G), {}))
        out.append(("%s.lift" % G, unary_vec, dict(G=G, op="lift", shape=(2, n)), {}))
        out.append(("%s.project" % G, unary_vec, dict(G=G, op="project", shape=(2, 3, 3 if G == "SO3" else 4)), {}))
        out.append(("%s.exp" % G, exp, dict(G=G), {}))
        out.append(("%s.exp_jac" % G, exp_is_jac, dict(G=G), {}))
        for p in (0, 1):
            out.append(("%s.log%s" % (G, "_with_jacobians" if p else ""), log, dict(G=G, passthrough=p), {}))
        for nr in ("zero", "any"):
            out.append(("%s.log_jac_%s" % (G, nr), log_is_jac, dict(G=G, near=nr), {}))
        for op in ("exp", "log"):
            out.append(("%s.%s_zero" % (G, op), sym_identity, dict(G=G, op=op), {}))
        for b1, b2 in ((2, 2), (1, 2), (2, 1)):
            for op in ("compose", "transform", "untransform"):
                out.append(("%s.%s_%d_%d" % (G, op, b1, b2), binary, dict(G=G, op=op, b1=b1, b2=b2), {}))
        for op in ("left_act", "left_project"):
            for nm, shape, b, d in (("b2", (2,), 2, 0), ("extra", (2, 2), 2, None), ("bcast", (2,), 1, 0), ("bcast2", (1,), 2, 0)):
                out.append(("%s.%s_%s" % (G, op, nm), act, dict(G=G, op=op, shape=shape, batch=b, dim_out=d), {}))
        for refl in (0, 1):
            out.append(("%s.normalize%s" % (G, "_reflected" if refl else ""), normalize, dict(G=G, refl=refl), {}))
    out.append(("SO3.quaternion_1", quat, dict(batch=1), {}))
    out.append(("SO3.quaternion_2", quat, dict(batch=2), {}))
    for G in ("SO2", "SE2"):
        for op in ("exp", "log", "compose", "between"):
            out.append(("%s.%s" % (G, op), planar, dict(G=G, op=op), {}))
        for op in ("exp", "log"):
            out.append(("%s.%s_zero" % (G, op), planar_zero, dict(G=G, op=op), {}))
    return out
