"""P06: AutoDiffCostFunction."""
import torch

import theseus as th
from lie import *  # noqa

PROPERTY = "P06"
EXPLAIN = ("AutoDiffCostFunction runs on symbolic tensors, torch's autograd, functional jacobian and functorch's vmap/jacrev "
           "included; every entry of every jacobian block is compared with the exact derivative of the symbolic error, in every mode.")
BOUNDS = ("modes dense, loop_batch, vmap (with and without create_graph); variables Vector, Point2, SO2, SE2, SO3, SE3; batch sizes "
          "1-2 for each variable (equal or 1); a family of six error functions (bilinear, trigonometric, rotation, transform, matrix "
          "product, several variables in a permuted order); repeated evaluation after updates with other values and batch sizes")
ASSUMPTIONS = ["real arithmetic instead of floating point"]
BUDGET = 110


class Var:
    """an optimization variable with its tangent seeds"""

    def __init__(self, cx, G, name, batch):
        self.G, self.name, self.batch = G, name, batch
        if G in DOF:
            self.e = Elem(cx, G, name, batch)
            self.data, self.dof = self.e.data, DOF[G]
        else:
            self.dof = int(G[-1])
            self.data = cx.real(name, batch, self.dof)

    def seeds(self, i, b):
        if self.G in DOF:
            return self.e.seeds(i, b)
        return {"%s_%d" % (self.name, b * self.dof + i): 1.0}

    def make(self, tensor=None):
        t = self.data if tensor is None else tensor
        if self.G in DOF:
            return CLS[self.G](tensor=t, name=self.name, disable_checks=True)
        C = {"P2": th.Point2, "P3": th.Point3}.get(self.G, th.Vector)
        return C(tensor=t, name=self.name)


def f_bilinear(optim_vars, aux_vars):
    x, y = optim_vars[0].tensor, optim_vars[1].tensor
    a = aux_vars[0].tensor
    return torch.cat([x * y * a, (x * x).sum(-1, keepdim=True) - y[:, :1] * a[:, 1:2]], -1)


def f_trig(optim_vars, aux_vars):
    x, = [v.tensor for v in optim_vars]
    a = aux_vars[0].tensor
    return torch.stack([torch.sin(a[:, 0] * x[:, 0]), torch.exp(x[:, 1]) * a[:, 1], x[:, 0] / (1 + x[:, 1] ** 2)], -1)


def f_rot(optim_vars, aux_vars):
    R, p = optim_vars
    return R.rotate(p).tensor - aux_vars[0].tensor


def f_transform(optim_vars, aux_vars):
    T, p = optim_vars
    return T.transform_to(p).tensor * aux_vars[0].tensor


def f_compose(optim_vars, aux_vars):
    a, b = optim_vars
    return a.compose(b).tensor.flatten(1)[:, :3] + aux_vars[0].tensor


def f_perm(optim_vars, aux_vars):
    a, b, c = [v.tensor for v in optim_vars]
    s, t = [v.tensor for v in aux_vars]
    o = 0 * (a[:, 0] + b[:, 0] + c[:, 0] + s[:, 0])
    return torch.stack([o + a[:, 0] * c[:, 0] * s[:, 0], o + b[:, 1] ** 3 - t[:, 0] * c[:, 1]], -1)


FNS = {
    # name: (fn, dim, optim types, aux dims)
    "bilinear": (f_bilinear, 3, ("V2", "V2"), (2,)),
    "trig": (f_trig, 3, ("V2",), (2,)),
    "rotate": (f_rot, 3, ("SO3", "P3"), (3,)),
    "rotate2": (f_rot, 2, ("SO2", "P2"), (2,)),
    "transform": (f_transform, 3, ("SE3", "P3"), (3,)),
    "transform2": (f_transform, 2, ("SE2", "P2"), (2,)),
    "compose_SO3": (f_compose, 3, ("SO3", "SO3"), (3,)),
    "compose_SE2": (f_compose, 3, ("SE2", "SE2"), (3,)),
    "perm": (f_perm, 2, ("V2", "P2", "V3"), (1, 1)),
}


def other(cx, v, batch):
    """a concrete initial value"""
    if v.G in DOF:
        return cx.const([CONST_G[v.G][b] for b in range(batch)])
    return cx.const([[0.5 + b + 0.25 * i for i in range(v.dof)] for b in range(batch)])


def check(cx, cf, vs, av, n, lab=""):
    before = [v.tensor for v in cf.optim_vars] + [v.tensor for v in cf.aux_vars]
    e0 = cf.error()
    J, e = cf.jacobians()
    cx.same([id(v.tensor) for v in list(cf.optim_vars) + list(cf.aux_vars)], [id(t) for t in before],
            lab + "variables keep their tensors")
    fn = cf._err_fn
    want = fn(optim_vars=tuple(v.make() for v in vs), aux_vars=tuple(av))
    cx.eq(e0, want, lab + "error is the user's function of the variables")
    cx.eq(e, want, lab + "error returned with the jacobians")
    cx.same([tuple(j.shape) for j in J], [(n, cf.dim(), v.dof) for v in vs], lab + "jacobian shapes")
    for Ji, v in zip(J, vs):
        for b in range(v.batch):
            for i in range(v.dof):
                d = cx.deriv(want, v.seeds(i, b))
                for k in range(n):
                    if v.batch == 1 or k == b:
                        cx.eq(Ji[k, :, i], d[k], lab + "jacobian is the derivative of the error")


def auto(cx, mode, fn, batch, baux, create_graph=True, update=False, vectorize=False, strategy="reverse-mode"):
    f, dim, types, auxd = FNS[fn]
    vs = [Var(cx, G, "x%d" % i, b) for i, (G, b) in enumerate(zip(types, batch))]
    n = max(batch + baux)
    auxt = [cx.real("a%d" % i, b, d) for i, (b, d) in enumerate(zip(baux, auxd))]
    if update:
        av = [th.Variable(cx.const(torch.ones(1, d, dtype=cx.dtype)), name="a%d" % i) for i, d in enumerate(auxd)]
        ov = [v.make(other(cx, v, 1)) for v in vs]
    else:
        av = [th.Variable(t, name="a%d" % i) for i, t in enumerate(auxt)]
        ov = [v.make() for v in vs]
    cf = th.AutoDiffCostFunction(ov, f, dim, cost_weight=th.ScaleCostWeight(cx.const(1.0)), aux_vars=av, autograd_mode=mode,
                                 autograd_create_graph=create_graph, autograd_vectorize=vectorize, autograd_strategy=strategy)
    if update:
        cf.jacobians()
        for v, o in zip(vs, ov):
            o.update(v.data)
        for a, t in zip(av, auxt):
            a.update(t)
    check(cx, cf, vs, av, n)
    if update:
        c2 = cf.copy(keep_variable_names=True)
        for o in ov:
            o.update(other(cx, vs[ov.index(o)], 1))
        check(cx, c2, vs, [th.Variable(t, name="b") for t in auxt], n, "copy: ")


def wrong_dim(cx, mode):
    x = cx.real("x", 2, 2)
    cf = th.AutoDiffCostFunction([th.Vector(tensor=x, name="x")], lambda optim_vars, aux_vars: optim_vars[0].tensor, 3,
                                 autograd_mode=mode)
    cx.raises(ValueError, cf.error, "wrong dimension is refused")
    cx.raises(ValueError, cf.jacobians, "wrong dimension is refused")


def failing(cx, mode):
    """an error function that raises while the jacobians are computed leaves everything usable"""
    vs = [Var(cx, "V2", "x", 2), Var(cx, "V2", "z", 2)]
    av = [th.Variable(cx.real("a", 2, 2), name="a")]
    count, limit = [0], [None]

    def f(optim_vars, aux_vars):
        count[0] += 1
        if limit[0] is not None and count[0] >= limit[0]:
            raise ArithmeticError("user error")
        return f_bilinear(optim_vars, aux_vars)

    ov = [v.make() for v in vs]
    cf = th.AutoDiffCostFunction(ov, f, 3, cost_weight=th.ScaleCostWeight(cx.const(1.0)), aux_vars=av, autograd_mode=mode)
    count[0], limit[0] = 0, 2
    cx.raises(ArithmeticError, cf.jacobians, "the user's exception")
    limit[0] = None
    cf._err_fn = f_bilinear
    for c, lab in ((cf.copy(keep_variable_names=True), "copy after the exception: "), (cf, "after the exception: ")):
        check(cx, c, vs, av, 2, lab)
    cf.to(torch.float32)
    cx.same([v.dtype for v in ov + av], [torch.float32] * 3, "conversion after the exception")


def settings(cx, mode):
    """a copy keeps the configuration of the automatic differentiation"""
    x, z, a = cx.real("x", 2, 2), cx.real("z", 2, 2), cx.real("a", 2, 2)

    def mk(f, **kw):
        return th.AutoDiffCostFunction([th.Vector(tensor=x, name="x"), th.Vector(tensor=z, name="z")], f, 3, cost_weight=th.ScaleCostWeight(cx.const(1.0)),
                                       aux_vars=[th.Variable(a, name="a")], autograd_mode=mode, **kw)

    def alone(optim_vars, aux_vars):
        return f_bilinear((optim_vars[0], optim_vars[0]), aux_vars)
    for create in (True, False):
        cf = mk(f_bilinear, autograd_create_graph=create)
        for c, lab in ((cf, ""), (cf.copy(), "copy: ")):
            cx.same([bool(j.requires_grad) for j in c.jacobians()[0]], [create] * 2, lab + "jacobians are part of the graph")
    for strict in (True, False):
        cf = mk(alone, autograd_strict=strict)
        for c, lab in ((cf, ""), (cf.copy(), "copy: ")):
            if strict:
                cx.raises(RuntimeError, c.jacobians, lab + "an unused variable is refused")
            else:
                c.jacobians()


def cases(tier):
    out = []
    for mode in ("dense", "loop_batch", "vmap"):
        for fn, (f, d, types, auxd) in FNS.items():
            k, m = len(types), len(auxd)
            combos = [((2,) * k, (2,) * m), ((2,) * k, (1,) * m)]
            if fn in ("bilinear", "transform2", "perm", "rotate"):
                combos += [((1,) * k, (2,) * m), ((1,) + (2,) * (k - 1), (1,) * m), ((2,) + (1,) * (k - 1), (1,) * m),
                           ((1,) * k, (1,) * m)]
            for bo, ba in combos:
                nm = "%s.%s_%s_%s" % (mode, fn, "".join(map(str, bo)), "".join(map(str, ba)))
                out.append((nm, auto, dict(mode=mode, fn=fn, batch=bo, baux=ba), {}))
        for fn in ("bilinear", "transform2", "perm"):
            k, m = len(FNS[fn][2]), len(FNS[fn][3])
            out.append(("%s.update.%s" % (mode, fn), auto, dict(mode=mode, fn=fn, batch=(2,) * k, baux=(2,) * m, update=True), {}))
            out.append(("%s.update_aux1.%s" % (mode, fn), auto,
                        dict(mode=mode, fn=fn, batch=(2,) * k, baux=(1,) * m, update=True, create_graph=False), {}))
        if mode != "vmap":
            out.append(("%s.vectorize" % mode, auto, dict(mode=mode, fn="bilinear", batch=(2, 2), baux=(2,), vectorize=True), {}))
            out.append(("%s.settings" % mode, settings, dict(mode=mode), {}))
        out.append(("%s.failing" % mode, failing, dict(mode=mode), {}))
        out.append(("%s.dim" % mode, wrong_dim, dict(mode=mode), {}))
    return out
