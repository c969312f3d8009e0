"""P08: robust losses and robust cost functions."""
import torch

import theseus as th
from theseus.core import robust_loss
from theseus.core.robust_loss import GemanMcClureLoss
from lie import *  # noqa

PROPERTY = "P08"
EXPLAIN = ("losses and RobustCostFunction run on symbolic errors, jacobians, weights and log-radii. Decided: the squared norm of the "
           "reported error equals the loss of the weighted squared error; J^T e equals loss'(weighted squared error) J_w^T e_w, with loss' the "
           "exact derivative of the loss; 0 <= loss <= squared error.")
BOUNDS = ("error dimension 1-2 (3 for the squared norm), batch 1-2, radius (per batch element or shared), weights of batch 1-2, "
          "one or two jacobian blocks; identities hold up to the documented epsilon (1e-20; tolerance 1e-7 for |values| <= 10, "
          "radius in [e^-4, e^4])")
ASSUMPTIONS = ["real arithmetic instead of floating point", "exp is an uninterpreted positive monotone function with its derivative"]
BUDGET = 110
LOSS = {"huber": th.HuberLoss, "welsch": th.WelschLoss, "gm": GemanMcClureLoss}


class Opaque(th.RobustLoss):
    """a loss with arbitrary values; records its arguments"""
    log = []
    cx = None
    n = 0

    @classmethod
    def _free(cls, what, x, *a):
        cls.log.append((what, x) + a)
        Opaque.n += 1
        return cls.cx.real("%s%d" % (what, Opaque.n), x.numel(), nonneg=True, lo=0.01, hi=2, box=True).reshape(x.shape)

    @classmethod
    def evaluate(cls, x, log_radius):
        return cls._free("ev", x, log_radius)

    @classmethod
    def linearize(cls, x, log_radius):
        return cls._free("li", x, log_radius)

    @staticmethod
    def _evaluate_impl(x, radius):
        raise NotImplementedError

    _linearize_impl = _evaluate_impl


class OpaqueGNC(Opaque, th.GNCRobustLoss):
    @classmethod
    def evaluate(cls, x, log_radius, mu):
        return cls._free("ev", x, log_radius, mu)

    @classmethod
    def linearize(cls, x, log_radius, mu):
        return cls._free("li", x, log_radius, mu)


class PolyLoss(th.RobustLoss):
    """a user's loss"""
    @staticmethod
    def _evaluate_impl(x, radius):
        return x + radius * x * x / 2

    @staticmethod
    def _linearize_impl(x, radius):
        return 1 + radius * x


LOSS["poly"] = PolyLoss
LOSS["any"] = Opaque
LOSS["anygnc"] = OpaqueGNC


# the documented epsilon of the losses (0 if the module has none); the check itself bounds it
EPS = float(getattr(robust_loss, "_LOSS_EPS", 0.0))


def rho(name, x, r, mu=None):
    """documented loss of the squared norm x with squared radius r"""
    e = EPS
    if name == "huber":
        return torch.where(x > r, 2 * (r * x + e).sqrt() - r, x)
    if name == "welsch":
        return r - r * torch.exp(-x / (r + e))
    return mu * r * x / (mu * r + x + e)


def drho(name, x, r, mu=None):
    e = EPS
    if name == "huber":
        return torch.where(x > r, (r / x + e).sqrt(), (torch.ones_like(x) + e).sqrt())
    if name == "welsch":
        return torch.exp(-x / (r + e))
    return (mu * r) ** 2 / ((mu * r + x) ** 2 + e)


def args(cx, name, b):
    lr = cx.real("lr", b, 1, lo=-4, hi=4, box=True)
    mu = (cx.real("mu", b, 1, lo=1, hi=10, box=True),) if name in ("gm", "anygnc") else ()
    return lr, mu


def loss(cx, name):
    x = cx.real("x", 2, 1, lo=0, hi=100, box=True, nonneg=True)
    lr, mu = args(cx, name, 2)
    r = lr.exp()
    L = LOSS[name]
    v = L.evaluate(x, lr, *mu)
    d = L.linearize(x, lr, *mu)
    cx.true(0 <= EPS <= 1e-12, "epsilon is negligible")
    cx.eq(v, rho(name, x, r, *mu), "loss value", tol=1e-7)
    cx.eq(d, drho(name, x, r, *mu), "loss derivative", tol=1e-7)


def loss_deriv(cx, name):
    """linearize is the derivative of evaluate, both from the code"""
    x = cx.real("x", 1, 1, lo=0.01, hi=100, box=True, nonneg=True)
    lr, mu = args(cx, name, 1)
    L = LOSS[name]
    cx.assume(x != lr.exp())
    v = L.evaluate(x, lr, *mu)
    d = L.linearize(x, lr, *mu)
    g = cx.deriv(v, {"x_0": 1.0})
    if name == "huber":
        # squares of nonnegative numbers bounded away from zero
        cx.le(torch.zeros_like(g), g, "derivative of the loss is nonnegative")
        cx.le(torch.zeros_like(d), d, "linearize is nonnegative")
        g, d = g ** 2, d ** 2
    cx.eq(g, d, "linearize is the derivative of evaluate", tol=1e-7)


def loss_bounds(cx, name):
    x = cx.real("x", 1, 1, lo=0, hi=100, box=True, nonneg=True)
    lr, mu = args(cx, name, 1)
    L = LOSS[name]
    v = L.evaluate(x, lr, *mu)
    d = L.linearize(x, lr, *mu)
    cx.le(torch.zeros_like(v), v + 1e-9, "loss is nonnegative")
    if name == "welsch":
        # facts about exp: 1 - u <= exp(-u) <= 1 for u >= 0
        u = x / (lr.exp() + EPS)
        cx.assume(torch.exp(-u) >= 1 - u)
        cx.assume(torch.exp(-u) <= 1)
    cx.le(v, x + 1e-9, "loss is at most the squared error")
    cx.le(d, torch.ones_like(d) + 1e-9, "derivative at most one")
    cx.le(torch.zeros_like(d), d, "derivative is nonnegative")


def build(cx, name, dim, batch, br, bw, flatten, nvar=2, gnc_copy=False):
    xs = [cx.real("x%d" % i, batch, dim, lo=-3, hi=3, box=True) for i in range(nvar)]
    t = cx.real("t", 1, dim, lo=-3, hi=3, box=True)
    s = cx.real("s", bw, dim, lo=-2, hi=2, box=True)
    lr, mu = args(cx, name, br)

    vs = [th.Vector(tensor=x, name="x%d" % i) for i, x in enumerate(xs)]
    tv = th.Vector(tensor=t, name="t")

    def fn(optim_vars, aux_vars):
        o = optim_vars[0].tensor
        for k, v in enumerate(optim_vars[1:]):
            o = o + v.tensor * o
        return o - aux_vars[0].tensor
    base = th.AutoDiffCostFunction(vs, fn, dim, aux_vars=[tv], cost_weight=th.DiagonalCostWeight(th.Variable(s, name="s")))
    lrv = th.Variable(lr, name="lr")
    if mu:
        cf = th.GNCRobustCostFunction(base, LOSS[name], lrv, th.Variable(mu[0], name="mu"), flatten_dims=flatten)
    else:
        cf = th.RobustCostFunction(base, LOSS[name], lrv, flatten_dims=flatten)
    if gnc_copy:
        cf = cf.copy(keep_variable_names=True)
    o = xs[0]
    for v in xs[1:]:
        o = o + v * o
    e = (o - t) * s
    Js = []
    if nvar == 2:
        Js = [torch.diag_embed(s * (1 + xs[1])), torch.diag_embed(s * xs[0])]
    else:
        Js = [torch.diag_embed(s.expand(batch, dim))]
    return cf, e, Js, lr.exp(), mu


def robust(cx, name, dim, batch, br, bw, flatten, copy=False):
    cf, e, Js, r, mu = build(cx, name, dim, batch, br, bw, flatten, gnc_copy=copy)
    x = e ** 2 if flatten else (e ** 2).sum(-1, keepdim=True)
    w = cf.weighted_error()
    cx.same(tuple(w.shape), (batch, dim), "error shape")
    # the losses themselves are decided by the cases loss.*
    want = LOSS[name].evaluate(x, cf.log_loss_radius.tensor, *mu)
    if flatten:
        cx.eq(w ** 2, want, "squared error of every dimension is its loss", tol=1e-7)
    else:
        cx.eq((w ** 2).sum(-1, keepdim=True), want, "squared norm is the loss", tol=1e-7)
    J, re = cf.weighted_jacobians_error()
    cx.same(tuple(re.shape), (batch, dim), "rescaled error shape")
    cx.same([tuple(j.shape) for j in J], [tuple(j.shape) for j in Js], "jacobian shapes")
    # every row: rescaled J row times rescaled e entry = loss' * J row * e entry
    d = LOSS[name].linearize(x, cf.log_loss_radius.tensor, *mu).expand(batch, dim)
    for a, b in zip(J, Js):
        cx.eq(a * re.unsqueeze(-1), d.unsqueeze(-1) * b * e.unsqueeze(-1), "gradient of every row is loss' times the weighted one", tol=1e-7)
    cx.eq(re ** 2, d * e ** 2, "rescaled error", tol=1e-7)
    cx.le(torch.zeros_like(e), re * e, "rescaling keeps the sign")
    cx.eq(cf.error(), w, "error() is the weighted error")
    J2, e2 = cf.jacobians()
    for a, b in zip(J2 + [e2], J + [re]):
        cx.eq(a, b, "jacobians() are the weighted ones")
    cx.same(cf.dim(), dim, "dim")


def opaque(cx, name, dim, batch, br, bw, flatten, copy=False):
    """for whatever values the loss returns"""
    Opaque.log, Opaque.cx, Opaque.n = [], cx, 0
    cf, e, Js, r, mu = build(cx, name, dim, batch, br, bw, flatten, gnc_copy=copy)
    x = e ** 2 if flatten else (e ** 2).sum(-1, keepdim=True)
    w = cf.weighted_error()
    J, re = cf.weighted_jacobians_error()
    cx.same(tuple(w.shape), (batch, dim), "error shape")
    cx.same(tuple(re.shape), (batch, dim), "rescaled error shape")
    cx.same([tuple(j.shape) for j in J], [tuple(j.shape) for j in Js], "jacobian shapes")
    cx.same([l[0] for l in Opaque.log], ["ev", "li"], "loss evaluated once for the error, its derivative once for the jacobians")
    lr = [cf.log_loss_radius.tensor] + list(mu)
    vals = []
    for k, (what, xa, *ps) in enumerate(Opaque.log):
        cx.eq(xa.reshape(-1), x.reshape(-1), "the loss is applied to the weighted squared error")
        for p, q in zip(ps, lr):
            cx.eq(p.expand(xa.shape).reshape(-1), q.expand(x.shape).reshape(-1), "the loss gets the radius of its batch element")
        vals.append(cx.real("%s%d" % (what, k + 1), xa.numel(), nonneg=True, lo=0.01, hi=2, box=True).reshape(x.shape))
    ev, li = vals
    if flatten:
        cx.eq(w ** 2, ev, "squared error of every dimension is its loss", tol=1e-9)
    else:
        cx.eq((w ** 2).sum(-1, keepdim=True), ev, "squared norm is the loss", tol=1e-9)
    li = li.expand(batch, dim)
    for a, b in zip(J, Js):
        cx.eq(a * re.unsqueeze(-1), li.unsqueeze(-1) * b * e.unsqueeze(-1),
              "gradient of every row is loss' times the weighted one", tol=1e-9)
    cx.eq(re ** 2, li * e ** 2, "rescaled error", tol=1e-9)
    cx.le(torch.zeros_like(e), re * e, "rescaling keeps the sign")


def gradient(cx, name, flatten):
    """J^T e is half the gradient of the reported squared error (symbolic derivative of the code's own value)"""
    cf, e, Js, r, mu = build(cx, name, 2, 1, 1, 1, flatten)
    v = (cf.weighted_error() ** 2).sum()
    J, re = cf.weighted_jacobians_error()
    for i in range(2):
        g = (J[i] * re.unsqueeze(-1)).sum(1)[0]
        for k in range(2):
            cx.eq(2 * g[k], cx.deriv(v, {"x%d_%d" % (i, k): 1.0}), "J^T e is half the gradient of the loss", tol=1e-6)


def layouts(cx, flatten):
    """jacobians of any memory layout"""
    es = [Elem(cx, "SE2", k, 2) for k in ("o1", "o2", "e1", "e2")]
    c2 = torch.ones(1, 1, dtype=cx.dtype)
    base = th.eb.QuasiStaticPushingPlanar(*[e.obj(e.name) for e in es], th.Variable(c2, name="c"), th.ScaleCostWeight(cx.const(1.0)))
    lr = cx.const([[2.0]])
    cf = th.RobustCostFunction(base, th.HuberLoss, th.Variable(lr, name="lr"), flatten_dims=flatten)
    cx.assume(es[0].M[:, 1, 0] * es[1].M[:, 0, 0] - es[0].M[:, 0, 0] * es[1].M[:, 1, 0] != 0)
    J, e = cf.weighted_jacobians_error()
    Jb, eb = base.weighted_jacobians_error()
    for a, b in zip(J, Jb):
        cx.eq(a * eb.unsqueeze(-1), b * e.unsqueeze(-1), "rows of jacobian and error are scaled alike")


def cases(tier):
    out = []
    for name in ("huber", "welsch", "gm"):
        out += [("loss." + name, loss, dict(name=name), {}), ("bounds." + name, loss_bounds, dict(name=name), {})]
        if name != "gm":
            out.append(("deriv." + name, loss_deriv, dict(name=name), {}))
    for flatten in (False, True):
        fl = "flat" if flatten else "group"
        for name in ("any", "anygnc"):
            for dim in (1, 2):
                for batch, br, bw in ((1, 1, 1), (2, 1, 1), (2, 2, 2), (2, 2, 1)):
                    out.append(("%s_%s_dim%d_b%dr%dw%d" % (name, fl, dim, batch, br, bw), opaque,
                                dict(name=name, dim=dim, batch=batch, br=br, bw=bw, flatten=flatten), {}))
            out.append(("%s_%s_copy" % (name, fl), opaque,
                        dict(name=name, dim=2, batch=2, br=2, bw=1, flatten=flatten, copy=True), {}))
        for name in ("huber", "welsch", "poly"):
            out.append(("%s_%s" % (name, fl), robust, dict(name=name, dim=2, batch=2, br=1, bw=2, flatten=flatten), {}))
        out.append(("gradient.%s" % fl, gradient, dict(name="poly", flatten=flatten), {}))
    out += [("layout_flat", layouts, dict(flatten=True), {})]
    return out
