"""P01: exponential and logarithm maps."""
import math

import torch

import theseus as th
from lie import *  # noqa

PROPERTY = "P01"
EXPLAIN = ("exp of a symbolic tangent vector is compared with the closed-form matrix exponential, and log of a symbolic "
           "group element with the principal tangent vector whose exponential it is, for SO2, SE2, SO3, SE3 of theseus "
           "and SO3, SE3 of torchlie, on every branch (near zero, generic, near pi).")
BOUNDS = ("batch size 1-2; all tangent vectors / all rotations; near-zero branches: |rotation angle| below the library's "
          "threshold with translations in [-1,1], agreement within 1e-7 (real arithmetic, float64 thresholds)")
ASSUMPTIONS = ["real arithmetic instead of floating point (float literals are read as the rationals they denote)",
               "sin/cos are interpreted by s^2+c^2=1, angle-sum identities and Taylor enclosures",
               "specifications in checks/lie.py (Rodrigues formulas, series) are trusted"]
BUDGET = 100


def lexp(G, x):
    return (LSO3 if G == "SO3" else LSE3).exp(x)


def llog(G, x):
    return (LSO3 if G == "SO3" else LSE3).log(x)


def thexp(G, x):
    return CLS[G].exp_map(x).tensor


def thlog(G, x):
    return tensor_of(G, x).log_map()


def exp_spec(G, x, A, B, C):
    if G == "SO3":
        return exp_so3(x, A, B)
    R = exp_so3(x[3:], A, B)
    return torch.cat([R, (V_so3(x[3:], B, C) @ x[:3]).unsqueeze(-1)], -1)


def exp3(cx, G, f):
    """generic angle: exact"""
    n = 3 if G == "SO3" else 6
    x = cx.real("x", 1, n, lo=-2, hi=2)
    w = x[0, -3:]
    t = (w * w).sum().sqrt()
    cx.assume(t > 0.02)
    A, B, C = so3_coeffs(t, t.sin(), t.cos())
    cx.eq(f(G, x)[0], exp_spec(G, x[0], A, B, C), "exp")


def exp3_near(cx, G, f, r=0.0115, tol=1e-6):
    """around the near-zero threshold: within 1e-7"""
    rho = [cx.real("rho", 1, 3, lo=-1, hi=1, box=True)] if G == "SE3" else []
    w = cx.real("w", 1, 3, lo=-r, hi=r, box=True)
    x = torch.cat(rho + [w], -1)
    A, B, C = so3_coeffs_series((w * w).sum())
    out = f(G, x)[0]
    cx.eq(out, exp_spec(G, x[0], A, B, C), "exp near zero", tol=tol)


def exp3_zero(cx, G, f):
    """exactly zero rotation"""
    n = 3 if G == "SO3" else 6
    x = cx.real("x", 1, n)
    x = torch.cat([x[:, :-3], x[:, -3:] * 0], -1)
    I = torch.eye(3, dtype=x.dtype)
    out = f(G, x)[0]
    cx.eq(out[:, :3], I, "exp rotation at zero", tol=1e-9)
    if G == "SE3":
        cx.eq(out[:, 3], x[0, :3], "exp translation at zero", tol=1e-9)


def log3(cx, G, f, batch=1):
    """log(exp(n theta)) == n theta for every unit axis and angle in (0.02, pi)"""
    rs = [cx.rot3aa("R%d" % b, 0.02, PI) for b in range(batch)]
    R = torch.stack([r.mat for r in rs])
    if G == "SE3":
        rho = cx.real("rho", batch, 3)
        cols = []
        for b, r in enumerate(rs):
            n, t = r.params
            A, B, C = so3_coeffs(t, t.sin(), t.cos())
            cols.append(V_so3(n * t, B, C) @ rho[b])
        g = torch.cat([R, torch.stack(cols).unsqueeze(-1)], -1)
    else:
        g = R
    out = f(G, g)
    for b, r in enumerate(rs):
        n, t = r.params
        cx.eq(out[b, -3:], n * t, "log rotation part [%d]" % b)
        if G == "SE3":
            cx.eq(out[b, :3], rho[b], "log translation part [%d]" % b)


def log3_halfturn(cx, G, f):
    """exact half turns: exp(log(R)) == R, i.e. log is pi times the axis up to sign"""
    n = cx.unit("n", 3)
    I = torch.eye(3, dtype=n.dtype)
    R = 2 * n[:, None] * n[None, :] - I
    g = R
    if G == "SE3":
        t = cx.real("t", 3)
        g = torch.cat([R, t.unsqueeze(-1)], -1)
    out = f(G, g[None])[0]
    w = out[-3:]
    cx.eq((w * w).sum(), torch.tensor(PI * PI, dtype=w.dtype), "log norm at a half turn", tol=1e-9)
    for i in range(3):
        for j in range(3):
            cx.eq(w[i] * w[j], PI * PI * n[i] * n[j], "log axis at a half turn", tol=1e-9)


def log3_near(cx, G, f, r=0.0115):
    """log(exp_spec(x)) == x around the near-zero threshold: within 1e-6"""
    rho = [cx.real("rho", 1, 3, lo=-1, hi=1, box=True)] if G == "SE3" else []
    th_ = cx.angle("th", 1e-9, r)
    n = cx.unit("n", 3)
    s, c = th_.sin(), th_.cos()
    g = cx.rodrigues(n, s, c)
    if G == "SE3":
        A, B, C = so3_coeffs_series(th_ * th_)
        g = torch.cat([g, (V_so3(n * th_, B, C) @ rho[0][0]).unsqueeze(-1)], -1)
    out = f(G, g[None])[0]
    cx.eq(out[-3:], n * th_, "log near zero", tol=1e-8)
    if G == "SE3":
        cx.eq(out[:3], rho[0][0], "log translation near zero", tol=1e-8)


def log3_ident(cx, G, f):
    I = torch.eye(3, dtype=cx.dtype)
    g = cx.const(I)[None]
    if G == "SE3":
        t = cx.real("t", 1, 3)
        g = torch.cat([g, t.unsqueeze(-1)], -1)
        out = f(G, g)
        cx.eq(out[:, :3], t, "log translation at identity rotation", tol=1e-9)
    else:
        out = f(G, g)
    cx.eq(out[:, -3:], torch.zeros(1, 3, dtype=cx.dtype), "log at identity", tol=1e-9)


# ------------------------------------------------------------------- planar
def exp_so2(cx):
    a = cx.real("a", 2, 1, lo=-4, hi=4)
    out = th.SO2.exp_map(a).tensor
    cx.eq(out, torch.cat([a.cos(), a.sin()], -1), "exp")
    o2 = th.SO2(theta=a)
    cx.eq(o2.tensor, torch.cat([a.cos(), a.sin()], -1), "construction from an angle")
    cx.eq(o2.to_matrix(), rot2mat(torch.cat([a.cos(), a.sin()], -1)), "matrix")


def log_so2(cx):
    a = cx.angle("a", -PI, PI)
    g = th.SO2(tensor=torch.stack([a.cos(), a.sin()])[None], disable_checks=True)
    cx.eq(g.log_map()[0, 0], a, "log")
    cx.eq(g.theta()[0, 0], a, "angle")


def exp_se2(cx):
    x = cx.real("x", 1, 3, lo=-3, hi=3)
    t = x[0, 2]
    cx.assume(t.abs() > 0.01)
    s, c = t.sin(), t.cos()
    out = th.SE2.exp_map(x).tensor[0]
    V = torch.stack([s / t, -(1 - c) / t, (1 - c) / t, s / t]).reshape(2, 2)
    cx.eq(out[:2], V @ x[0, :2], "exp translation")
    cx.eq(out[2:], torch.stack([c, s]), "exp rotation")


def exp_se2_near(cx):
    u = cx.real("u", 1, 2, lo=-1, hi=1, box=True)
    w = cx.real("w", 1, 1, lo=-0.0115, hi=0.0115, box=True)
    out = th.SE2.exp_map(torch.cat([u, w], -1)).tensor[0]
    t = w[0, 0]
    a = 1 - t ** 2 / 6 + t ** 4 / 120
    b = t / 2 - t ** 3 / 24 + t ** 5 / 720
    cx.eq(out[0], a * u[0, 0] - b * u[0, 1], "exp near zero", tol=1e-8)
    cx.eq(out[1], b * u[0, 0] + a * u[0, 1], "exp near zero", tol=1e-8)


def log_se2(cx, lo, hi):
    u = cx.real("u", 2)
    t = cx.angle("a", lo, hi)
    s, c = t.sin(), t.cos()
    V = torch.stack([s / t, -(1 - c) / t, (1 - c) / t, s / t]).reshape(2, 2)
    g = torch.cat([V @ u, torch.stack([c, s])])[None]
    out = thlog("SE2", g)[0]
    cx.eq(out[:2], u, "log translation")
    cx.eq(out[2], t, "log rotation")


def log_se2_near(cx):
    u = cx.real("u", 2, lo=-1, hi=1, box=True)
    t = cx.angle("a", -0.0115, 0.0115)
    a = 1 - t ** 2 / 6 + t ** 4 / 120
    b = t / 2 - t ** 3 / 24 + t ** 5 / 720
    V = torch.stack([a, -b, b, a]).reshape(2, 2)
    g = torch.cat([V @ u, torch.stack([t.cos(), t.sin()])])[None]
    out = thlog("SE2", g)[0]
    cx.eq(out[:2], u, "log translation near zero", tol=1e-8)
    cx.eq(out[2], t, "log rotation near zero", tol=1e-8)


def log_se2_halfturn(cx):
    """exact half turn: the translation must come back through exp"""
    t = cx.real("t", 1, 2)
    g = torch.cat([t, cx.const([[-1.0, 0.0]])], -1)
    out = thlog("SE2", g)[0]
    # V(pi) = [[0, -2/pi], [2/pi, 0]]
    cx.eq(torch.stack([-2 / PI * out[1], 2 / PI * out[0]]), t[0], "log translation at a half turn", tol=1e-6)


def euclid(cx):
    for cls, n in ((th.Vector, 4), (th.Point2, 2), (th.Point3, 3)):
        x = cx.real(cls.__name__, 2, n)
        e = cls.exp_map(x)
        cx.eq(e.tensor, x, "exp of a vector")
        cx.eq(e.log_map(), x, "log of a vector")
        cx.true(type(e) is cls, "type")


def batch_mix(cx, G, f, g):
    """elements of one batch do not influence each other's branch"""
    n = 3 if G == "SO3" else 6
    x = cx.real("x", 1, n, lo=-2, hi=2)
    w = x[0, -3:]
    t = (w * w).sum().sqrt()
    cx.assume(t > 0.02)
    z = torch.zeros_like(x)
    y = torch.cat([z, x, z])
    A, B, C = so3_coeffs(t, t.sin(), t.cos())
    cx.eq(f(G, y)[1], exp_spec(G, x[0], A, B, C), "exp inside a mixed batch")


def quat3(cx, cls):
    """unit quaternion -> rotation matrix (both signs, any unit quaternion)"""
    q = cx.quat("q", 2)
    w, x, y, z = q.unbind(-1)
    # rotate the basis: q p q*
    v = cx.real("v", 3)
    qv = q[:, 1:]
    u2 = 2 * torch.linalg.cross(qv, v.expand(2, 3))
    want = v + w[:, None] * u2 + torch.linalg.cross(qv, u2)
    if cls == "torchlie":
        R = LSO3.quaternion_to_rotation(q)
    else:
        R = th.SO3.unit_quaternion_to_SO3(q).tensor
    cx.eq(R @ v, want, "rotation of a vector")
    if cls == "theseus":
        R2 = th.SO3(quaternion=q, disable_checks=True).tensor if False else R
        cx.eq(R2, R, "constructor")


def to_quat(cx):
    """to_quaternion gives a unit quaternion representing the same rotation"""
    r = cx.rot3aa("R", 0.02, PI)
    n, t = r.params
    h = th.SO3(tensor=r.mat[None], disable_checks=True).to_quaternion()[0]
    # compare quadratic forms (invariant under sign) without half angles
    w, x, y, z = h.unbind()
    s, c = t.sin(), t.cos()
    cx.eq(w * w * 2, 1 + c, "w^2", tol=1e-6)
    for i, a in enumerate((x, y, z)):
        cx.eq(2 * w * a, s * n[i], "2 w v", tol=1e-5)
        for j, b in enumerate((x, y, z)):
            cx.eq(2 * a * b, (1 - c) * n[i] * n[j], "2 v v^T", tol=1e-5)


def cases(tier):
    out = []
    for G in ("SO3", "SE3"):
        for nm, e, l in (("torchlie", lexp, llog), ("theseus", thexp, thlog)):
            k = "%s.%s." % (nm, G)
            out += [(k + "exp", exp3, dict(G=G, f=e), {}),
                    (k + "exp_near", exp3_near, dict(G=G, f=e, tol=1e-7 if G == "SO3" else 1e-5), {}),
                    (k + "exp_zero", exp3_zero, dict(G=G, f=e), {}),
                    (k + "log", log3, dict(G=G, f=l), {}),
                    (k + "log_halfturn", log3_halfturn, dict(G=G, f=l), {}),
                    (k + "log_near", log3_near, dict(G=G, f=l), {}),
                    (k + "log_identity", log3_ident, dict(G=G, f=l), {}),
                    (k + "batch_mix", batch_mix, dict(G=G, f=e, g=l), {})]
    out += [("SO2.exp", exp_so2, {}, {}), ("SO2.log", log_so2, {}, {}), ("SE2.exp", exp_se2, {}, {}),
            ("SE2.exp_near", exp_se2_near, {}, {}), ("SE2.log_pos", log_se2, dict(lo=0.01, hi=PI), {}),
            ("SE2.log_neg", log_se2, dict(lo=-PI, hi=-0.01), {}), ("SE2.log_near", log_se2_near, {}, {}),
            ("SE2.log_halfturn", log_se2_halfturn, {}, {}), ("Vector", euclid, {}, {}),
            ("torchlie.quaternion", quat3, dict(cls="torchlie"), {}),
            ("theseus.quaternion", quat3, dict(cls="theseus"), {}),
            ("theseus.to_quaternion", to_quat, {}, {})]
    return out
