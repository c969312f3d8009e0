"""P02: group operations agree with matrix algebra."""
import torch

import theseus as th
from lie import *  # noqa

PROPERTY = "P02"
EXPLAIN = ("compose, inverse, between, adjoint, retract, hat/vee, point actions, accessors, constructors and gradient "
           "projection of SO2, SE2, SO3, SE3 (theseus classes and torchlie functions) are compared with homogeneous-matrix "
           "algebra on free symbolic group elements.")
BOUNDS = "batch sizes 1 to 3 including 1-against-many broadcasting; every rotation, every real translation"
ASSUMPTIONS = ["real arithmetic instead of floating point",
               "3D rotations are parametrised by all unit quaternions, planar ones by all unit vectors"]
BUDGET = 100
GROUPS = ("SO2", "SE2", "SO3", "SE3")


def inv_mat(G, M):
    d = 2 if G in ("SO2", "SE2") else 3
    R = M[..., :d, :d].transpose(-1, -2)
    if G in ("SO2", "SO3"):
        return R
    return homog(R, -(R @ M[..., :d, d].unsqueeze(-1)).squeeze(-1))


def full(G, m):
    """homogeneous square matrix of what to_matrix returned"""
    return m


def vee_of(G, X):
    if G == "SO2":
        return X[..., 1, 0].unsqueeze(-1)
    if G == "SO3":
        return vee3(X)
    if G == "SE2":
        return torch.stack([X[..., 0, 2], X[..., 1, 2], X[..., 1, 0]], -1)
    return torch.cat([X[..., :3, 3], vee3(X)], -1)


def ops(cx, G, b1, b2):
    a, b = Elem(cx, G, "a", b1), Elem(cx, G, "b", b2)
    A, B = a.obj(), b.obj()
    C = A.compose(B)
    cx.eq(mat_of(G, C.tensor), a.M @ b.M, "composition")
    cx.true(type(C) is CLS[G], "class of a composition")
    I = A.inverse()
    cx.eq(mat_of(G, I.tensor), inv_mat(G, a.M), "inverse")
    D = A.between(B)
    cx.eq(mat_of(G, D.tensor), inv_mat(G, a.M) @ b.M, "relative element")
    cx.eq(A.to_matrix(), a.M, "matrix form")
    # the operands are left alone
    cx.eq(A.tensor, a.data, "left operand unchanged")
    cx.eq(B.tensor, b.data, "right operand unchanged")
    # functional forms
    cx.eq(th.compose(A, B).tensor, C.tensor, "functional composition")
    cx.eq(th.inverse(A).tensor, I.tensor, "functional inverse")
    cx.eq(th.between(A, B).tensor, D.tensor, "functional relative element")


def adj(cx, G):
    a = Elem(cx, G, "a", 2)
    v = cx.real("v", 2, DOF[G])
    Ad = a.obj().adjoint()
    got = hat_of(G, (Ad @ v.unsqueeze(-1)).squeeze(-1))
    cx.eq(got, a.M @ hat_of(G, v) @ inv_mat(G, a.M), "adjoint")
    cx.eq(CLS[G].hat(v), hat_of(G, v), "hat")
    cx.eq(CLS[G].vee(hat_of(G, v)), v, "vee")


def retr(cx, G):
    a = Elem(cx, G, "a", 2)
    d = cx.real("d", 2, DOF[G])
    A = a.obj()
    R = A.retract(d)
    X = CLS[G].exp_map(d)
    cx.eq(mat_of(G, R.tensor), a.M @ mat_of(G, X.tensor), "retraction")
    cx.eq(th.retract(A, d).tensor, R.tensor, "functional retraction")
    cx.eq(A.tensor, a.data, "argument unchanged")


def loc(cx, G):
    """local is the log of the relative element"""
    a, b = Elem(cx, G, "a", 1), Elem(cx, G, "b", 1)
    A, B = a.obj(), b.obj()
    l = A.local(B)
    m = inv_mat(G, a.M) @ b.M
    if G == "SE2":
        t = torch.cat([m[:, :2, 2], m[:, :1, 0], m[:, 1:2, 0]], -1)
    else:
        t = torch.cat([m[:, :1, 0], m[:, 1:2, 0]], -1)
    cx.eq(l, tensor_of(G, t).log_map(), "local coordinates")
    cx.eq(th.local(A, B), l, "functional local coordinates")


def loc3(cx, G):
    """local(a, a o exp(x)) == x"""
    if G == "SO3":
        r = cx.rot3aa("R", 0.02, PI)
        n, t = r.params
        x = (n * t)[None]
        m = r.mat[None]
    else:
        r = cx.rot3aa("R", 0.02, PI)
        n, t = r.params
        rho = cx.real("rho", 3)
        A_, B_, C_ = so3_coeffs(t, t.sin(), t.cos())
        m = torch.cat([r.mat, (V_so3(n * t, B_, C_) @ rho).unsqueeze(-1)], -1)[None]
        x = torch.cat([rho, n * t])[None]
    # a fixed rational rotation keeps the residual small; composition is checked for all elements separately
    q = torch.tensor([1., 2., 2., 4.], dtype=cx.dtype) / 5
    Rf = LSO3.quaternion_to_rotation(q[None])
    if G == "SO3":
        a = cx.const(Rf)
        b = a @ m
    else:
        a = torch.cat([cx.const(Rf), cx.const([[[0.5], [-1.], [2.]]])], -1)
        b = torch.cat([a[..., :3] @ m[..., :3], a[..., :3] @ m[..., 3:] + a[..., 3:]], -1)
    out = tensor_of(G, a).local(tensor_of(G, b))
    cx.eq(out, x, "local coordinates", tol=1e-6)


def act(cx, G, b1, b2):
    a = Elem(cx, G, "a", b1)
    n = 2 if G in ("SO2", "SE2") else 3
    p = cx.real("p", b2, n)
    A = a.obj()
    d = n
    R = a.M[..., :d, :d]
    t = a.M[..., :d, d] if G in ("SE2", "SE3") else torch.zeros_like(R[..., 0])
    fwd = (R @ p.unsqueeze(-1)).squeeze(-1) + t
    bwd = (R.transpose(-1, -2) @ (p - t).unsqueeze(-1)).squeeze(-1)
    P = (th.Point2 if n == 2 else th.Point3)(tensor=p)
    f, g = (A.rotate, A.unrotate) if G in ("SO2", "SO3") else (A.transform_from, A.transform_to)
    for q in (p, P):
        cx.eq(f(q).tensor, fwd, "action on a point")
        cx.eq(g(q).tensor, bwd, "inverse action on a point")
    cx.true(type(f(p)) is type(P), "class of a transformed point")


def proj(cx, G, sparse):
    """projection of Euclidean gradients onto the tangent space"""
    B, k = 2, 2
    a = Elem(cx, G, "a", B)
    sh = a.data.shape[1:]
    g = cx.real("g", *((B, k) + tuple(sh) if sparse else (k, B) + tuple(sh)))
    out = a.obj().project(g, is_sparse=sparse)
    A = a.obj()
    for b in range(B):
        for j in range(k):
            gg = g[b, j] if sparse else g[j, b]
            for i in range(DOF[G]):
                e = torch.zeros(DOF[G], dtype=cx.dtype)
                e[i] = 1.0
                dM = a.M[b] @ hat_of(G, e)
                if G == "SO2":
                    d = torch.stack([dM[0, 0], dM[1, 0]])
                elif G == "SE2":
                    d = torch.stack([dM[0, 2], dM[1, 2], dM[0, 0], dM[1, 0]])
                elif G == "SO3":
                    d = dM
                else:
                    d = dM[:3]
                cx.eq((out[b, j] if sparse else out[j, b])[i], (gg * d).sum(), "projected gradient")


def vec(cx, cls, n):
    a, b = cx.real("a", 2, n), cx.real("b", 2, n)
    A, B = cls(tensor=a), cls(tensor=b)
    k = cx.real("k")
    cx.eq(A.compose(B).tensor, a + b, "composition")
    cx.eq(A.inverse().tensor, -a, "inverse")
    cx.eq(A.between(B).tensor, b - a, "relative element")
    cx.eq(A.local(B), b - a, "local")
    cx.eq(A.retract(b).tensor, a + b, "retraction")
    cx.eq((A + B).tensor, a + b, "sum")
    cx.eq((A - B).tensor, a - b, "difference")
    cx.eq((-A).tensor, -a, "negation")
    cx.eq((A * torch.tensor(2.0, dtype=cx.dtype)).tensor, 2 * a, "product with a number")
    cx.eq(A.dot(B), (a * b).sum(-1), "dot product")
    cx.eq(A.inner(B), (a * b).sum(-1), "inner product")
    cx.eq(A.outer(B), a[:, :, None] * b[:, None, :], "outer product")
    cx.eq(A.adjoint(), torch.eye(n, dtype=cx.dtype).expand(2, n, n), "adjoint")
    cx.eq(A.project(b), b, "projection")
    C = A.copy()
    cx.eq(C.tensor, a, "copy")
    cx.true(C.tensor is not A.tensor and type(C) is cls, "copy is separate")
    if n == 2:
        P = th.Point2(tensor=a)
        cx.eq(torch.stack([P.x(), P.y()], 1), a, "coordinates")
    if n == 3:
        P = th.Point3(tensor=a)
        cx.eq(torch.stack([P.x(), P.y(), P.z()], 1), a, "coordinates")


def accessors(cx):
    a = Elem(cx, "SE2", "a", 2)
    A = a.obj()
    cx.eq(A.rotation.tensor, a.data[:, 2:], "SE2 rotation")
    cx.eq(A.translation.tensor, a.data[:, :2], "SE2 translation")
    cx.eq(A.xy().tensor, a.data[:, :2], "SE2 translation")
    b = Elem(cx, "SE3", "b", 2)
    B = b.obj()
    cx.eq(B.rotation().tensor, b.data[:, :, :3], "SE3 rotation")
    cx.eq(B.translation().tensor, b.data[:, :, 3], "SE3 translation")
    s = Elem(cx, "SO2", "s", 2)
    p = cx.real("p", 2, 2)
    X = th.SE2(disable_checks=True)
    X.update_from_rot_and_trans(s.obj(), th.Point2(tensor=p))
    cx.eq(X.tensor, torch.cat([p, s.data], -1), "SE2 from rotation and translation")
    r = Elem(cx, "SO3", "r", 2)
    p3 = cx.real("p3", 2, 3)
    Y = th.SE3(disable_checks=True)
    Y.update_from_rot_and_trans(r.obj(), th.Point3(tensor=p3))
    cx.eq(Y.tensor, torch.cat([r.data, p3.unsqueeze(-1)], -1), "SE3 from rotation and translation")
    for G in GROUPS:
        e = Elem(cx, G, "c" + G, 2)
        O = e.obj(name="o" + G)
        C = O.copy()
        cx.eq(C.tensor, e.data, "copy")
        cx.true(C.tensor is not O.tensor and type(C) is CLS[G], "copy is separate")


def constructors(cx):
    x = cx.real("x", 2, 3)
    S = th.SE2(x_y_theta=x)
    cx.eq(S.tensor, torch.cat([x[:, :2], x[:, 2:].cos(), x[:, 2:].sin()], -1), "SE2 from x, y, angle")
    S2 = th.SE2(disable_checks=True)
    S2.update_from_x_y_theta(x)
    cx.eq(S2.tensor, S.tensor, "SE2 update from x, y, angle")
    O = th.SO2(theta=x[:, :1])
    O.update_from_angle(x[:, 2:])
    cx.eq(O.tensor, torch.cat([x[:, 2:].cos(), x[:, 2:].sin()], -1), "SO2 update from an angle")
    q = cx.quat("q", 2)
    t = cx.real("t", 2, 3)
    Y = th.SE3.x_y_z_unit_quaternion_to_SE3(torch.cat([t, q], -1)).tensor
    cx.eq(Y[:, :, 3], t, "SE3 translation from x, y, z, quaternion")
    cx.eq(Y[:, :, :3], LSO3.quaternion_to_rotation(q), "SE3 rotation from x, y, z, quaternion")


def lie_ops(cx, G, s1, s2):
    """torchlie functions with arbitrary leading dimensions"""
    import math as m_
    n1, n2 = m_.prod(s1), m_.prod(s2)
    F = LSO3 if G == "SO3" else LSE3
    a, b = Elem(cx, G, "a", n1), Elem(cx, G, "b", n2)
    A = a.data.reshape(tuple(s1) + a.data.shape[1:])
    B = b.data.reshape(tuple(s2) + b.data.shape[1:])
    MA, MB = mat_of(G, A), mat_of(G, B)
    cx.eq(mat_of(G, F.compose(A, B)), MA @ MB, "composition")
    cx.eq(mat_of(G, F.inv(A)), inv_mat(G, MA), "inverse")
    p = cx.real("p", *(tuple(s2) + (3,)))
    R = MA[..., :3, :3]
    t = MA[..., :3, 3] if G == "SE3" else torch.zeros_like(R[..., 0])
    cx.eq(F.transform(A, p), (R @ p.unsqueeze(-1)).squeeze(-1) + t, "action on a point")
    cx.eq(F.untransform(A, p), (R.transpose(-1, -2) @ (p - t).unsqueeze(-1)).squeeze(-1), "inverse action on a point")


def lie_adj(cx, G):
    F = LSO3 if G == "SO3" else LSE3
    a = Elem(cx, G, "a", 2)
    v = cx.real("v", 2, DOF[G])
    got = hat_of(G, (F.adj(a.data) @ v.unsqueeze(-1)).squeeze(-1))
    cx.eq(got, a.M @ hat_of(G, v) @ inv_mat(G, a.M), "adjoint")
    H = hat_of(G, v)
    cx.eq(F.hat(v), H, "hat")
    cx.eq(F.vee(H), v, "vee")
    cx.eq(F.lift(v), H if G == "SO3" else H[:, :3], "lift")
    m = cx.real("m", 2, 3, 3 if G == "SO3" else 4)
    # project is the adjoint of lift
    cx.eq((F.project(m) * v).sum(-1), (m * F.lift(v)).sum((-1, -2)), "projection against lift")
    cx.eq(F.identity(2, dtype=cx.dtype), torch.eye(3, 3 if G == "SO3" else 4, dtype=cx.dtype).expand(2, -1, -1), "identity")


def lie_left(cx, G):
    F = LSO3 if G == "SO3" else LSE3
    a = Elem(cx, G, "a", 2)
    R = a.M[:, :3, :3]
    w = 3 if G == "SO3" else 4
    m = cx.real("m", 2, 3, w)
    cx.eq(F.left_act(a.data, m), R @ m, "left action")
    cx.eq(F.left_project(a.data, m), F.project(R.transpose(-1, -2) @ m), "left projection")
    m2 = cx.real("k", 2, 2, 3, w)
    cx.eq(F.left_act(a.data, m2), R[:, None] @ m2, "left action on several matrices")
    cx.eq(F.left_project(a.data, m2), F.project(R.transpose(-1, -2)[:, None] @ m2), "left projection of several matrices")


def cases(tier):
    out = []
    for G in GROUPS:
        for b1, b2 in ((2, 2), (1, 2), (2, 1)):
            out.append(("theseus.%s.ops_%d_%d" % (G, b1, b2), ops, dict(G=G, b1=b1, b2=b2), {}))
            out.append(("theseus.%s.act_%d_%d" % (G, b1, b2), act, dict(G=G, b1=b1, b2=b2), {}))
        out.append(("theseus.%s.adj" % G, adj, dict(G=G), {}))
        out.append(("theseus.%s.retract" % G, retr, dict(G=G), {}))
        out.append(("theseus.%s.local" % G, loc if G in ("SO2", "SE2") else loc3, dict(G=G), {}))
        for sp in (True, False):
            out.append(("theseus.%s.project_%s" % (G, "sparse" if sp else "dense"), proj, dict(G=G, sparse=sp), {}))
    out += [("Vector", vec, dict(cls=th.Vector, n=3), {}), ("Point2", vec, dict(cls=th.Point2, n=2), {}),
            ("Point3", vec, dict(cls=th.Point3, n=3), {}), ("accessors", accessors, {}, {}),
            ("constructors", constructors, {}, {})]
    for G in ("SO3", "SE3"):
        for s1, s2 in (((2,), (2,)), ((1,), (3,)), ((2, 1), (1, 2)), ((), ()), ((2,), (1,))):
            out.append(("torchlie.%s.ops_%s_%s" % (G, "x".join(map(str, s1)) or "0", "x".join(map(str, s2)) or "0"),
                        lie_ops, dict(G=G, s1=s1, s2=s2), {}))
        out.append(("torchlie.%s.adj" % G, lie_adj, dict(G=G), {}))
        out.append(("torchlie.%s.left" % G, lie_left, dict(G=G), {}))
    return out
