"""P03: analytic jacobians of Lie group operations."""
import torch

import theseus as th
from lie import *  # noqa
from p02_groupops import inv_mat, vee_of

PROPERTY = "P03"
EXPLAIN = ("every jacobian returned by a Lie group operation is compared with the exact derivative of the value returned "
           "by the same call, along every tangent direction (right perturbations), by differentiating the symbolic "
           "execution of the real code.")
BOUNDS = ("batch sizes 1-2 (with broadcasting for binary operations); every rotation and translation; exp/log: every angle "
          "in (0.0101, 3.1), plus the near-zero branches within a tolerance (1e-4) for smaller angles")
ASSUMPTIONS = ["real arithmetic instead of floating point",
               "tangent vectors act on the right (body frame), as documented"]
BUDGET = 110


def body(G, M, dM):
    """tangent coordinates of a matrix velocity"""
    return vee_of(G, inv_mat(G, M) @ dM)


def check_group(cx, G, out, jac, elem, b, label, ob=None):
    """jac[b] against the derivative of the group element out[ob]"""
    ob = b if ob is None else ob
    M = mat_of(G, out[ob])
    for i in range(DOF[elem.G]):
        dM = cx.deriv(mat_of(G, out), elem.seeds(i, b))[ob]
        cx.eq(jac[ob][:, i], body(G, M, dM), label)


def check_vec(cx, out, jac, elem, b, label, ob=None):
    ob = b if ob is None else ob
    for i in range(DOF[elem.G]):
        cx.eq(jac[ob][:, i], cx.deriv(out, elem.seeds(i, b))[ob], label)


def binary(cx, G, op, b1, b2):
    a, b = Elem(cx, G, "a", b1), Elem(cx, G, "b", b2)
    J = []
    out = getattr(a.obj(), op)(b.obj(), jacobians=J)
    n = max(b1, b2)
    cx.same(len(J), 2, "number of jacobians")
    J = [j.expand(n, -1, -1) for j in J]
    for k in range(n):
        check_group(cx, G, out.tensor, J[0], a, k if b1 > 1 else 0, "first jacobian", k)
        check_group(cx, G, out.tensor, J[1], b, k if b2 > 1 else 0, "second jacobian", k)


def inverse(cx, G):
    a = Elem(cx, G, "a", 2)
    J = []
    out = a.obj().inverse(J)
    for k in range(2):
        check_group(cx, G, out.tensor, J[0], a, k, "jacobian of the inverse")


def act(cx, G, b1, b2, inv):
    a = Elem(cx, G, "a", b1)
    d = 2 if G in ("SO2", "SE2") else 3
    p = cx.real("p", b2, d)
    A = a.obj()
    J = []
    name = {"SO2": ("rotate", "unrotate"), "SO3": ("rotate", "unrotate")}.get(G, ("transform_from", "transform_to"))[inv]
    out = getattr(A, name)(p, jacobians=J).tensor
    n = max(b1, b2)
    J = [j.expand(n, -1, -1) for j in J]
    for k in range(n):
        check_vec(cx, out, J[0], a, k if b1 > 1 else 0, "jacobian w.r.t. the group element", k)
        for i in range(d):
            kk = k if b2 > 1 else 0
            cx.eq(J[1][k][:, i], cx.deriv(out, {"p_%d" % (kk * d + i): 1.0})[k], "jacobian w.r.t. the point")


def se2_parts(cx):
    a = Elem(cx, "SE2", "a", 2)
    A = a.obj()
    J = []
    t = A.theta(jacobians=J)
    for k in range(2):
        check_vec(cx, t, J[0], a, k, "jacobian of the angle")
    J = []
    p = A.xy(jacobians=J).tensor
    for k in range(2):
        check_vec(cx, p, J[0], a, k, "jacobian of the position")


def exp_jac(cx, G, f):
    """generic angle, against the derivative of the value"""
    n = DOF[G]
    x = cx.real("x", 1, n, lo=-2, hi=2)
    w = x[0, -3:] if G in ("SO3", "SE3") else x[0, -1:]
    t = (w * w).sum().sqrt()
    cx.assume(t > 0.02)
    out, jac = f(G, x)
    M = mat_of(G, out)
    for i in range(n):
        dM = cx.deriv(M, {"x_%d" % i: 1.0})
        cx.eq(jac[0][:, i], body(G, M, dM)[0], "jacobian of exp")


def th_exp(G, x):
    J = []
    o = CLS[G].exp_map(x, jacobians=J)
    return o.tensor, J[0]


def lie_exp(G, x):
    J, o = (LSO3 if G == "SO3" else LSE3).jexp(x)
    return o, J[0]


def th_log(G, g):
    J = []
    o = tensor_of(G, g).log_map(jacobians=J)
    return o, J[0]


def lie_log(G, g):
    J, o = (LSO3 if G == "SO3" else LSE3).jlog(g)
    return o, J[0]


def jr_exact(G, x, n=None, t=None):
    """closed form right jacobians for a tangent vector given as axis and angle"""
    w = n * t
    s, c = t.sin(), t.cos()
    A, B, C = so3_coeffs(t, s, c)
    J = jr_so3(w, B, C)
    return J, (A, B, C)


def log_jac3(cx, G, f):
    """J_log(exp(x)) J_exp(x) = I on the generic branch"""
    r = cx.rot3aa("R", 0.0101, 3.1)
    n, t = r.params
    w = n * t
    s, c = t.sin(), t.cos()
    A, B, C = so3_coeffs(t, s, c)
    Jw = jr_so3(w, B, C)
    I3 = torch.eye(3, dtype=w.dtype)
    if G == "SO3":
        out, jac = f(G, r.mat[None])
        cx.eq(jac[0] @ Jw, I3, "jacobian of log")
        return
    rho = cx.real("rho", 3)
    V = V_so3(w, B, C)
    g = torch.cat([r.mat, (V @ rho).unsqueeze(-1)], -1)[None]
    out, jac = f(G, g)
    jac = jac[0]
    Z = torch.zeros(3, 3, dtype=w.dtype)
    # d(log) = jac * body velocity; body velocity of exp at (rho, w) along rho_i is R^T V e_i,
    # along w_i it is (R^T dV/dw_i rho, Jw e_i)
    RtV = r.mat.transpose(-1, -2) @ V
    cx.eq(jac[:3, :3] @ RtV, I3, "jacobian of log, translation")
    cx.eq(jac[3:, :3], Z, "jacobian of log, lower left")
    cx.eq(jac[3:, 3:] @ Jw, I3, "jacobian of log, rotation")
    # dV/dw_i with B' and C' as functions of t
    dB = (s / t ** 2 - 2 * (1 - c) / t ** 3)
    dC = ((1 - c) / t ** 3 - 3 * (t - s) / t ** 4)
    W = hat3(w)
    cols = []
    for i in range(3):
        E_ = hat3(torch.eye(3, dtype=w.dtype)[i])
        dV = B * E_ + dB * n[i] * W + C * (E_ @ W + W @ E_) + dC * n[i] * (W @ W)
        cols.append(dV @ rho)
    X = r.mat.transpose(-1, -2) @ torch.stack(cols, -1)
    cx.eq(jac[:3, :3] @ X + jac[:3, 3:] @ Jw, Z, "jacobian of log, coupling")


def exp_near(cx, G, f, r, tol):
    """small angles, against the series of the closed form, including the branch switch"""
    rho = [cx.real("rho", 1, 3, lo=-1, hi=1, box=True)] if G == "SE3" else []
    w = cx.real("w", 1, 3, lo=-r, hi=r, box=True)
    x = torch.cat(rho + [w], -1)
    out, jac = f(G, x)
    th2 = (w * w).sum()
    A, B, C = so3_coeffs_series(th2)
    Jw = jr_so3(w[0], B, C)
    if G == "SO3":
        cx.eq(jac[0], Jw, "jacobian of exp near zero", tol=tol)
        return
    cx.eq(jac[0][3:, 3:], Jw, "jacobian of exp near zero, rotation", tol=tol)
    cx.eq(jac[0][:3, :3], Jw, "jacobian of exp near zero, translation", tol=tol)
    cx.eq(jac[0][3:, :3], torch.zeros(3, 3, dtype=cx.dtype), "jacobian of exp near zero, lower left")
    W, P = hat3(w[0]), hat3(rho[0][0])
    # Q of the right jacobian, to second order in w
    Q = -0.5 * P + (W @ P + P @ W) / 6 - (W @ W @ P + P @ W @ W + W @ P @ W) / 24
    cx.eq(jac[0][:3, 3:], Q, "jacobian of exp near zero, coupling", tol=tol)


def log_near(cx, G, f, r, tol):
    rho = cx.real("rho", 3, lo=-1, hi=1, box=True)
    t = cx.angle("th", 1e-9, r)
    n = cx.unit("n", 3)
    w = n * t
    g = cx.rodrigues(n, t.sin(), t.cos())
    W = hat3(w)
    I3 = torch.eye(3, dtype=w.dtype)
    JL = I3 + 0.5 * W + W @ W / 12
    if G == "SO3":
        out, jac = f(G, g[None])
        cx.eq(jac[0], JL, "jacobian of log near zero", tol=tol)
        return
    A, B, C = so3_coeffs_series(t * t)
    g = torch.cat([g, (V_so3(w, B, C) @ rho).unsqueeze(-1)], -1)
    out, jac = f(G, g[None])
    jac = jac[0]
    cx.eq(jac[:3, :3], JL, "jacobian of log near zero, translation", tol=tol)
    cx.eq(jac[3:, 3:], JL, "jacobian of log near zero, rotation", tol=tol)
    cx.eq(jac[3:, :3], torch.zeros(3, 3, dtype=cx.dtype), "jacobian of log near zero, lower left", tol=tol)
    P = hat3(rho)
    Q = -0.5 * P + (W @ P + P @ W) / 6 - (W @ W @ P + P @ W @ W + W @ P @ W) / 24
    cx.eq(jac[:3, 3:], -(JL @ Q @ JL), "jacobian of log near zero, coupling", tol=1e-6)


def exp_so2(cx):
    x = cx.real("x", 2, 1)
    J = []
    th.SO2.exp_map(x, jacobians=J)
    cx.eq(J[0], torch.ones(2, 1, 1, dtype=cx.dtype), "jacobian of exp")
    a = Elem(cx, "SO2", "a", 2)
    J = []
    a.obj().log_map(jacobians=J)
    cx.eq(J[0], torch.ones(2, 1, 1, dtype=cx.dtype), "jacobian of log")


def exp_se2_near(cx, r, tol):
    u = cx.real("u", 1, 2, lo=-1, hi=1, box=True)
    w = cx.real("w", 1, 1, lo=-r, hi=r, box=True)
    out, J = th_exp("SE2", torch.cat([u, w], -1))
    t = w[0, 0]
    a, b = 1 - t ** 2 / 6, t / 2 - t ** 3 / 24
    want = torch.stack([
        torch.stack([a, b, t / 6 * u[0, 0] - u[0, 1] * (0.5 - t ** 2 / 24)]),
        torch.stack([-b, a, t / 6 * u[0, 1] + u[0, 0] * (0.5 - t ** 2 / 24)]),
        torch.stack([t * 0, t * 0, t * 0 + 1])])
    cx.eq(J[0], want, "jacobian of exp near zero", tol=tol)


def log_se2(cx, lo, hi):
    u = cx.real("u", 2)
    t = cx.angle("a", lo, hi)
    s, c = t.sin(), t.cos()
    V = torch.stack([s / t, -(1 - c) / t, (1 - c) / t, s / t]).reshape(2, 2)
    g = torch.cat([V @ u, torch.stack([c, s])])[None]
    out, jac = th_log("SE2", g)
    Je = torch.stack([
        torch.stack([s / t, (1 - c) / t, (t - s) / t ** 2 * u[0] + (c - 1) / t ** 2 * u[1]]),
        torch.stack([(c - 1) / t, s / t, (t - s) / t ** 2 * u[1] - (c - 1) / t ** 2 * u[0]]),
        torch.stack([t * 0, t * 0, t * 0 + 1])])
    cx.eq(jac[0] @ Je, torch.eye(3, dtype=cx.dtype), "jacobian of log")


def log_se2_near(cx, r, tol):
    u = cx.real("u", 2, lo=-1, hi=1, box=True)
    t = cx.angle("a", -r, r)
    a = 1 - t ** 2 / 6 + t ** 4 / 120
    b = t / 2 - t ** 3 / 24 + t ** 5 / 720
    V = torch.stack([a, -b, b, a]).reshape(2, 2)
    g = torch.cat([V @ u, torch.stack([t.cos(), t.sin()])])[None]
    out, jac = th_log("SE2", g)
    k = 1 - t ** 2 / 12
    want = torch.stack([
        torch.stack([k, -t / 2, t / 12 * u[0] + u[1] / 2]),
        torch.stack([t / 2, k, t / 12 * u[1] - u[0] / 2]),
        torch.stack([t * 0, t * 0, t * 0 + 1])])
    cx.eq(jac[0], want, "jacobian of log near zero", tol=tol)


def local(cx, G):
    """J1 is the log jacobian of the relative element, J0 = -J1 Ad(D^-1)"""
    if G in ("SO2", "SE2"):
        t = cx.angle("a", 0.0101, PI)
        s, c = t.sin(), t.cos()
        if G == "SO2":
            d = torch.stack([c, s])[None]
            a = cx.const([[0.6, 0.8]])
        else:
            u = cx.real("u", 2)
            V = torch.stack([s / t, -(1 - c) / t, (1 - c) / t, s / t]).reshape(2, 2)
            d = torch.cat([V @ u, torch.stack([c, s])])[None]
            a = cx.const([[0.5, -2.0, 0.6, 0.8]])
    else:
        r = cx.rot3aa("R", 0.0101, 3.1)
        n, t = r.params
        Rf = cx.const(torch.tensor([[[-7., -4., 4.], [4., 1., 8.], [-4., 8., 1.]]], dtype=cx.dtype) / 9)
        if G == "SO3":
            d, a = r.mat[None], Rf
        else:
            A, B, C = so3_coeffs(t, t.sin(), t.cos())
            rho = cx.real("rho", 3)
            d = torch.cat([r.mat, (V_so3(n * t, B, C) @ rho).unsqueeze(-1)], -1)[None]
            a = torch.cat([Rf, cx.const([[[0.5], [-1.], [2.]]])], -1)
    A = tensor_of(G, a)
    B = A.compose(tensor_of(G, d))
    J = []
    A.local(B, jacobians=J)
    L = []
    D = tensor_of(G, d)
    D.log_map(jacobians=L)
    cx.eq(J[1], L[0], "second jacobian", tol=1e-6)
    cx.eq(J[0], -(L[0] @ D.inverse().adjoint()), "first jacobian", tol=1e-6)


def vec(cx):
    a, b = cx.real("a", 2, 3), cx.real("b", 2, 3)
    A, B = th.Vector(tensor=a), th.Vector(tensor=b)
    I = torch.eye(3, dtype=cx.dtype).expand(2, 3, 3)
    for nm, s in (("compose", (1, 1)), ("between", (-1, 1))):
        J = []
        getattr(A, nm)(B, jacobians=J)
        cx.eq(J[0], s[0] * I, nm + " jacobian")
        cx.eq(J[1], s[1] * I, nm + " jacobian")
    J = []
    A.local(B, jacobians=J)
    cx.eq(J[0], -I, "local jacobian")
    cx.eq(J[1], I, "local jacobian")
    J = []
    A.inverse(J)
    cx.eq(J[0], -I, "inverse jacobian")
    for cls, n in ((th.Vector, 3), (th.Point2, 2), (th.Point3, 3)):
        x = cx.real("x" + cls.__name__, 2, n)
        J = []
        o = cls.exp_map(x, jacobians=J)
        In = torch.eye(n, dtype=cx.dtype).expand(2, n, n)
        cx.eq(J[0], In, "exp jacobian")
        J = []
        o.log_map(jacobians=J)
        cx.eq(J[0], In, "log jacobian")


def lie_binary(cx, G, b1, b2):
    F = LSO3 if G == "SO3" else LSE3
    a, b = Elem(cx, G, "a", b1), Elem(cx, G, "b", b2)
    J, out = F.jcompose(a.data, b.data)
    n = max(b1, b2)
    J = [j.expand(n, -1, -1) for j in J]
    for k in range(n):
        check_group(cx, G, out, J[0], a, k if b1 > 1 else 0, "compose, first jacobian", k)
        check_group(cx, G, out, J[1], b, k if b2 > 1 else 0, "compose, second jacobian", k)
    K = []
    out2 = F.compose(a.data, b.data, jacobians=K)
    for x, y in zip(J, K):
        cx.eq(x, y.expand(n, -1, -1), "jacobians argument")
    cx.eq(out, out2, "value with jacobians")


def lie_inv(cx, G):
    F = LSO3 if G == "SO3" else LSE3
    a = Elem(cx, G, "a", 2)
    J, out = F.jinv(a.data)
    for k in range(2):
        check_group(cx, G, out, J[0], a, k, "jacobian of the inverse")


def lie_act(cx, G, b1, b2, inv):
    F = LSO3 if G == "SO3" else LSE3
    a = Elem(cx, G, "a", b1)
    p = cx.real("p", b2, 3)
    J, out = (F.juntransform if inv else F.jtransform)(a.data, p)
    n = max(b1, b2)
    J = [j.expand(n, -1, -1) for j in J]
    for k in range(n):
        check_vec(cx, out, J[0], a, k if b1 > 1 else 0, "jacobian w.r.t. the group element", k)
        for i in range(3):
            kk = k if b2 > 1 else 0
            cx.eq(J[1][k][:, i], cx.deriv(out, {"p_%d" % (kk * 3 + i): 1.0})[k], "jacobian w.r.t. the point")


def quat_jac(cx, batch):
    q = cx.quat("q", batch)
    J, out = LSO3.jquaternion_to_rotation(q)
    for b in range(batch):
        for i, c in enumerate("wxyz"):
            dM = cx.deriv(out, {"q_b%d_%s" % (b, c): 1.0})[b]
            cx.eq(J[0][b][:, i], body("SO3", out[b], dM), "jacobian of quaternion_to_rotation")
    K = []
    out2 = LSO3.quaternion_to_rotation(q, jacobians=K)
    cx.eq(out, out2, "value with jacobians")
    cx.eq(K[0], J[0], "jacobians argument")


def cases(tier):
    out = []
    for G in ("SO2", "SE2", "SO3", "SE3"):
        for b1, b2 in ((2, 2), (1, 2), (2, 1)):
            for op in ("compose", "between"):
                out.append(("theseus.%s.%s_%d_%d" % (G, op, b1, b2), binary, dict(G=G, op=op, b1=b1, b2=b2), {}))
            for inv in (0, 1):
                out.append(("theseus.%s.act%d_%d_%d" % (G, inv, b1, b2), act, dict(G=G, b1=b1, b2=b2, inv=inv), {}))
        out.append(("theseus.%s.inverse" % G, inverse, dict(G=G), {}))
        out.append(("theseus.%s.local" % G, local, dict(G=G), {}))
    out += [("SE2.parts", se2_parts, {}, {}), ("SO2.exp_log", exp_so2, {}, {}), ("Vector", vec, {}, {}),
            ("SO3.quaternion", quat_jac, dict(batch=2), {}),
            ("SE2.exp", exp_jac, dict(G="SE2", f=th_exp), {}),
            ("SE2.log_pos", log_se2, dict(lo=0.02, hi=PI), {}), ("SE2.log_neg", log_se2, dict(lo=-PI, hi=-0.02), {})]
    f32 = dict(dtype=torch.float32)
    for nm, o, r1, r2, tol in (("f64", {}, 0.0115, 0.0115, 2e-7), ("f32", f32, 0.035, 0.105, 1e-4)):
        out += [("SE2.exp_near_" + nm, exp_se2_near, dict(r=r1, tol=tol), o),
                ("SE2.log_near_" + nm, log_se2_near, dict(r=r2, tol=tol), o)]
    for G in ("SO3", "SE3"):
        for nm, e, l in (("torchlie", lie_exp, lie_log), ("theseus", th_exp, th_log)):
            k = "%s.%s." % (nm, G)
            out += [(k + "exp", exp_jac, dict(G=G, f=e), {}), (k + "log", log_jac3, dict(G=G, f=l), {}),
                    (k + "exp_near", exp_near, dict(G=G, f=e, r=0.0058, tol=1e-5), {}),
                    (k + "log_near", log_near, dict(G=G, f=l, r=0.0099, tol=1e-9), {})]
        for b1, b2 in ((2, 2), (1, 2), (2, 1)):
            out.append(("torchlie.%s.compose_%d_%d" % (G, b1, b2), lie_binary, dict(G=G, b1=b1, b2=b2), {}))
            for inv in (0, 1):
                out.append(("torchlie.%s.act%d_%d_%d" % (G, inv, b1, b2), lie_act, dict(G=G, b1=b1, b2=b2, inv=inv), {}))
        out.append(("torchlie.%s.inverse" % G, lie_inv, dict(G=G), {}))
    return out
