"""Symbolic group elements and independent matrix specifications."""
import math

import torch

import theseus as th
from torchlie.functional import SE3 as LSE3
from torchlie.functional import SO3 as LSO3
from torchlie.global_params import _TORCHLIE_GLOBAL_PARAMS as _LGP

PI = math.pi


def hat3(w):
    x, y, z = w.unbind(-1)
    o = torch.zeros_like(x)
    return torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(w.shape[:-1] + (3, 3))


def vee3(m):
    return torch.stack([m[..., 2, 1], m[..., 0, 2], m[..., 1, 0]], -1)


def homog(R, t):
    """(n+1)x(n+1) homogeneous matrix"""
    n = R.shape[-1]
    top = torch.cat([R, t.unsqueeze(-1)], -1)
    bot = torch.zeros_like(top[..., :1, :]) + torch.tensor([0.0] * n + [1.0], dtype=top.dtype)
    return torch.cat([top, bot], -2)


def rot2mat(cs):
    c, s = cs[..., 0], cs[..., 1]
    return torch.stack([c, -s, s, c], -1).reshape(cs.shape[:-1] + (2, 2))


def hat_of(G, v):
    """hat matrix of a tangent vector, for the homogeneous representation"""
    if G == "SO2":
        o = torch.zeros_like(v[..., 0])
        return torch.stack([o, -v[..., 0], v[..., 0], o], -1).reshape(v.shape[:-1] + (2, 2))
    if G == "SO3":
        return hat3(v)
    if G == "SE2":
        o = torch.zeros_like(v[..., 0])
        return torch.stack([o, -v[..., 2], v[..., 0], v[..., 2], o, v[..., 1], o, o, o], -1).reshape(v.shape[:-1] + (3, 3))
    if G == "SE3":
        top = torch.cat([hat3(v[..., 3:]), v[..., :3].unsqueeze(-1)], -1)
        return torch.cat([top, torch.zeros_like(top[..., :1, :])], -2)
    raise KeyError(G)


DOF = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}
CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}


def mat_of(G, t):
    """homogeneous matrix of a raw data tensor"""
    if G == "SO2":
        return rot2mat(t)
    if G == "SE2":
        return homog(rot2mat(t[..., 2:]), t[..., :2])
    if G == "SO3":
        return t
    return homog(t[..., :3, :3], t[..., :3, 3])


class Elem:
    """a batch of free group elements; data: raw tensor, M: matrix, seeds(i, b)"""

    def __init__(self, cx, G, name, batch=1, rot=None, trans_box=None):
        self.G, self.cx, self.name, self.batch = G, cx, name, batch
        d = 2 if G in ("SO2", "SE2") else 3
        if rot is not None:
            self.rot = rot
        else:
            self.rot = (cx.rot2 if d == 2 else cx.rot3)(name + "R", batch)
        rm = self.rot.mat
        if G in ("SE2", "SE3"):
            kw = dict(lo=-trans_box, hi=trans_box, box=True) if trans_box else {}
            self.t = cx.real(name + "t", batch, d, **kw)
        if G == "SO2":
            self.data = rm
        elif G == "SE2":
            self.data = torch.cat([self.t, rm], -1)
        elif G == "SO3":
            self.data = rm
        else:
            self.data = torch.cat([rm, self.t.unsqueeze(-1)], -1)
        self.M = mat_of(G, self.data)

    def obj(self, name=None):
        return CLS[self.G](tensor=self.data, name=name, disable_checks=True)

    def seeds(self, i, b=0):
        """right perturbation along tangent coordinate i of batch element b"""
        G = self.G
        if G == "SO2":
            return self.rot.tangent(0, b)
        if G == "SO3":
            return self.rot.tangent(i, b)
        d = 2 if G == "SE2" else 3
        if i >= d:
            return self.rot.tangent(i - d, b)
        R = self.M[b, :d, :d]
        return {"%st_%d" % (self.name, b * d + k): R[k, i] for k in range(d)}


def tensor_of(G, data):
    """wrap raw data in the theseus class without validation"""
    return CLS[G](tensor=data, disable_checks=True)


# --------------------------------------------------------- exact exponentials
def so3_coeffs(th_, s, c):
    """(sin/th, (1-cos)/th^2, (th-sin)/th^3)"""
    return s / th_, (1 - c) / th_ ** 2, (th_ - s) / th_ ** 3


def so3_coeffs_series(th2):
    """the same by series, for small angles (remainder below 1e-16 for th < 0.02)"""
    return (1 - th2 / 6 + th2 ** 2 / 120, 0.5 - th2 / 24 + th2 ** 2 / 720, 1 / 6 - th2 / 120 + th2 ** 2 / 5040)


def exp_so3(w, A, B):
    W = hat3(w)
    I = torch.eye(3, dtype=w.dtype)
    return I + A * W + B * (W @ W)


def V_so3(w, B, C):
    W = hat3(w)
    I = torch.eye(3, dtype=w.dtype)
    return I + B * W + C * (W @ W)


def jr_so3(w, B, C):
    """right jacobian"""
    W = hat3(w)
    I = torch.eye(3, dtype=w.dtype)
    return I - B * W + C * (W @ W)


def set_eps(scale):
    pass


def adj_of(G, M):
    """adjoint matrix acting on tangent vectors (translation part first), from the homogeneous matrix"""
    if G == "SO2":
        return torch.ones_like(M[..., :1, :1])
    if G == "SO3":
        return M
    if G == "SE2":
        R, t = M[..., :2, :2], M[..., :2, 2]
        top = torch.cat([R, torch.stack([t[..., 1], -t[..., 0]], -1).unsqueeze(-1)], -1)
        bot = torch.zeros_like(top[..., :1, :]) + torch.tensor([0., 0., 1.], dtype=M.dtype)
        return torch.cat([top, bot], -2)
    R, t = M[..., :3, :3], M[..., :3, 3]
    top = torch.cat([R, hat3(t) @ R], -1)
    bot = torch.cat([torch.zeros_like(R), R], -1)
    return torch.cat([top, bot], -2)


def inv_mat(G, M):
    if G in ("SO2", "SO3"):
        return M.transpose(-1, -2)
    n = M.shape[-1] - 1
    Rt = M[..., :n, :n].transpose(-1, -2)
    return homog(Rt, -(Rt @ M[..., :n, n:]).squeeze(-1))


def data_of(G, M):
    """raw data tensor of a homogeneous matrix"""
    if G == "SO2":
        return M[..., :, 0]
    if G == "SO3":
        return M
    if G == "SE2":
        return torch.cat([M[..., :2, 2], M[..., :2, 0]], -1)
    return M[..., :3, :]


class ExpElem:
    """exp of a tangent vector with rotation angle in (lo, hi), batch 1: .xi, .data, .M; closed form derivative of log"""

    def __init__(self, cx, G, name, lo=0.0101, hi=3.1, neg=False):
        self.G, self.cx = G, cx
        if G in ("SO2", "SE2"):
            t = cx.angle(name + "a", -hi if neg else lo, -lo if neg else hi)
            s, c = t.sin(), t.cos()
            self.t = t
            if G == "SO2":
                self.data = torch.stack([c, s])[None]
                self.xi = t.reshape(1, 1)
            else:
                u = self.u = cx.real(name + "u", 2)
                V = torch.stack([s / t, -(1 - c) / t, (1 - c) / t, s / t]).reshape(2, 2)
                self.data = torch.cat([V @ u, torch.stack([c, s])])[None]
                self.xi = torch.cat([u, t.reshape(1)])[None]
        else:
            r = cx.rot3aa(name + "R", lo, hi)
            self.n, self.t = n, t = r.params
            self.R = r.mat
            w = self.w = n * t
            s, c = t.sin(), t.cos()
            self.A, self.B, self.C = so3_coeffs(t, s, c)
            if G == "SO3":
                self.data = r.mat[None]
                self.xi = w[None]
            else:
                self.rho = cx.real(name + "rho", 3)
                self.V = V_so3(w, self.B, self.C)
                self.data = torch.cat([r.mat, (self.V @ self.rho).unsqueeze(-1)], -1)[None]
                self.xi = torch.cat([self.rho, w])[None]
        self.M = mat_of(G, self.data)

    def dexp(self):
        """the derivative of exp at xi, as a right perturbation of the element (dof x dof)"""
        cx, G, t = self.cx, self.G, self.t
        s, c = t.sin(), t.cos()
        if G == "SO2":
            return torch.ones(1, 1, dtype=cx.dtype)
        if G == "SE2":
            u = self.u
            return torch.stack([
                torch.stack([s / t, (1 - c) / t, (t - s) / t ** 2 * u[0] + (c - 1) / t ** 2 * u[1]]),
                torch.stack([(c - 1) / t, s / t, (t - s) / t ** 2 * u[1] - (c - 1) / t ** 2 * u[0]]),
                torch.stack([t * 0, t * 0, t * 0 + 1])])
        n, w, rho = self.n, self.w, getattr(self, "rho", None)
        B, C = self.B, self.C
        Jw = jr_so3(w, B, C)
        if G == "SO3":
            return Jw
        Z = torch.zeros(3, 3, dtype=w.dtype)
        RtV = self.R.transpose(-1, -2) @ self.V
        W = hat3(w)
        dB = (s / t ** 2 - 2 * (1 - c) / t ** 3)
        dC = ((1 - c) / t ** 3 - 3 * (t - s) / t ** 4)
        cols = []
        for i in range(3):
            E_ = hat3(torch.eye(3, dtype=w.dtype)[i])
            dV = B * E_ + dB * n[i] * W + C * (E_ @ W + W @ E_) + dC * n[i] * (W @ W)
            cols.append(dV @ rho)
        X = self.R.transpose(-1, -2) @ torch.stack(cols, -1)
        return torch.cat([torch.cat([RtV, X], -1), torch.cat([Z, Jw], -1)])

    def check_dlog(self, jac, label):
        """jac (dof x dof) is the derivative of log at this element w.r.t. a right perturbation"""
        cx, G = self.cx, self.G
        Je = self.dexp()
        if G != "SE3":
            cx.eq(jac @ Je, torch.eye(len(Je), dtype=cx.dtype), label)
            return
        I3, Z = torch.eye(3, dtype=Je.dtype), torch.zeros(3, 3, dtype=Je.dtype)
        cx.eq(jac[:3, :3] @ Je[:3, :3], I3, label + ", translation")
        cx.eq(jac[3:, :3], Z, label + ", lower left")
        cx.eq(jac[3:, 3:] @ Je[3:, 3:], I3, label + ", rotation")
        cx.eq(jac[:3, :3] @ Je[:3, 3:] + jac[:3, 3:] @ Je[3:, 3:], Z, label + ", coupling")


CONST_G = {
    "SO2": [[0.6, 0.8], [-0.8, 0.6], [0.28, -0.96]],
    "SE2": [[0.5, -2.0, 0.6, 0.8], [1.5, 1.0, -0.8, 0.6], [-1.0, 0.25, 0.28, -0.96]],
    "SO3": [[[-7. / 9, -4. / 9, 4. / 9], [4. / 9, 1. / 9, 8. / 9], [-4. / 9, 8. / 9, 1. / 9]],
            [[0.6, -0.8, 0.], [0.8, 0.6, 0.], [0., 0., 1.]],
            [[1., 0., 0.], [0., .28, .96], [0., -.96, .28]]],
}
CONST_G["SE3"] = [[r + [p] for r, p in zip(R, t)] for R, t in zip(CONST_G["SO3"], [[.5, -1., 2.], [1., 2., -.5], [-2., .25, 1.]])]
