"""P26: the limited multi-label projection and the differentiable cross-entropy update."""
import contextlib
import itertools

import torch
from torch.distributions import normal as N_

import theseus as th
from theseus.optimizer.nonlinear.dcem import DCEM
from theseus.third_party.lml import LML

from opt import canon

PROPERTY = "P26"
EXPLAIN = ("LML runs on symbolic inputs: sorting and the bracketing search fork over every outcome, and the returned vector, its sum, its order, its common shift and "
           "the gradient of its backward are compared with the definition.  DCEM runs with free standard-normal draws: the new means and deviations are compared "
           "with the weighted mean and deviation of the samples, with weights by softmax, by the projection (free values in (0,1)) or by the best samples.")
BOUNDS = ("projection: 1-5 entries in a box of +-2 (gaps up to 4; up to 40 with one entry far away), counts 1-3, 3-10 points per bracketing step, final brackets of 1.5 "
          "to 9 (at most 3 steps), batch 1-2 with different numbers of steps; update: 2-4 samples, 1-2 elites, 1-3 degrees of freedom, 1-2 variables, "
          "batch 1-2, 1-2 iterations")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "the logistic function is known to the solver by its range, its values at 0, 1, 2, 4 and 7, its monotonicity and its slope of at most 1/4",
               "the projection converges within its iterations; elements that stopped early keep moving in DCEM (excluded)"]
BUDGET = 60


def entries(cx, n, batch, box, far, single):
    x = cx.real("x", *((n,) if single else (batch, n)), lo=-box, hi=box, box=True)
    if far:
        # one entry of the last element is far away from the others
        d = torch.zeros(n, dtype=cx.dtype)
        d[far - 1 if far > 0 else -far - 1] = 14.0 if far > 0 else -14.0
        x = x + d if single else torch.cat([x[:-1], x[-1:] + d])
    return x


def project(cx, n, N, batch=1, eps=6.0, branch=None, box=2.0, single=False, far=0, grad=False, sort=False):
    x = entries(cx, n, batch, box, far, single)
    if sort:
        for i in range(1, n):
            cx.assume(x[..., i - 1] >= x[..., i])
    if grad:
        x = x.detach().clone().requires_grad_(True)
    y = LML(N=N, eps=eps, branch=branch, verbose=-1)(x)
    cx.same(tuple(y.shape), tuple(x.shape), "shape")
    G = cx.real("G", *x.shape)
    if grad:
        g, = torch.autograd.grad((y * G).sum(), [x])
        cx.same(tuple(g.shape), tuple(x.shape), "gradient shape")
        x, y = x.detach(), y.detach()
        if single:
            g = g[None]
    if single:
        x, y, G = x[None], y[None], G[None]
    for b in range(x.shape[0]):
        if n <= N:
            cx.eq(y[b], torch.full((n,), 1 - 1e-5, dtype=cx.dtype), "every entry is selected", numtol=1e-12)
            if grad:
                cx.eq(g[b], torch.zeros(n, dtype=cx.dtype), "no gradient when every entry is selected")
            continue
        if grad:
            h = y[b] * (1 - y[b])
            cx.eq(g[b], h * (G[b] - (h * G[b]).sum() / h.sum()), "implicit gradient of the projection")
            cx.eq(g[b].sum(), torch.zeros((), dtype=cx.dtype), "gradient is tangent to the shift")
            continue
        for i in range(n):
            cx.true(y[b, i] > 0, "above 0")
            cx.true(y[b, i] < 1, "below 1")
        s = y[b].sum()
        tol = n * eps / 8
        cx.true((s - N) <= tol, "sum is the count (above)")
        cx.true((N - s) <= tol, "sum is the count (below)")
        for i in range(1, n):
            cx.eq(torch.logit(y[b, i]) - torch.logit(y[b, 0]), x[b, i] - x[b, 0], "one shift for every entry")
            if n == 2:
                cx.true(((x[b, i] <= x[b, 0]) | (y[b, i] > y[b, 0])), "order of the inputs")
                cx.true(((x[b, i] >= x[b, 0]) | (y[b, i] < y[b, 0])), "order of the inputs")


@contextlib.contextmanager
def draws(cx):
    """standard normal draws are free values"""
    old, count = N_._standard_normal, itertools.count()

    def std(shape, dtype, device):
        return cx.real("z%d" % next(count), *shape, lo=-1.5, hi=1.5, dtype=dtype)
    N_._standard_normal = std
    try:
        yield
    finally:
        N_._standard_normal = old


@contextlib.contextmanager
def projections(cx):
    """the projection as an unknown function with values in (0, 1)"""
    old, memo = LML.forward, []

    def forward(self, x):
        if not cx.sym:
            return old(self, x)
        key = (self.N,) + tuple(canon(cx, v) for v in x.reshape(-1).unbind(0))
        for k, v in memo:
            if k == key:
                return v
        w = cx.real("w%d" % len(memo), *x.shape, lo=0.05, hi=0.95)
        cx.assume(w > 0)
        cx.assume(w < 1)
        memo.append((key, w))
        return w
    LML.forward = forward
    try:
        yield
    finally:
        LML.forward = old


def problem(cx, dofs, batch):
    obj = th.Objective(dtype=cx.dtype)
    xs, ts, ws, x0 = [], [], [], []
    for k, d in enumerate(dofs):
        x0.append(cx.real("x%d" % k, batch, d))
        t = cx.real("t%d" % k, batch, d)
        s = cx.real("s%d" % k, 1, 1, pos=True)
        x = th.Vector(tensor=x0[-1], name="x%d" % k)
        xs.append(x)
        obj.add(th.Difference(x, th.Vector(tensor=t, name="t%d" % k), th.ScaleCostWeight(th.Variable(s, name="s%d" % k)), name="c%d" % k))
        ts.append(t)
        ws.append(s.expand(1, d))
    obj.update()
    return obj, xs, torch.cat(x0, 1), torch.cat(ts, 1), torch.cat(ws, 1)


def weights_of(cx, f, temp, n_elite, normalize, lml_eps):
    """[batch, samples] weights of the samples with values f"""
    B, S = f.shape
    if temp is None:
        best = f.argsort(dim=1)[:, :n_elite]
        return torch.stack([torch.stack([(best[b] == i).any().to(cx.dtype) for i in range(S)]) for b in range(B)])
    z = f
    if normalize:
        m = f.sum(1, keepdim=True) / S
        sd = (((f - m) ** 2).sum(1, keepdim=True) / (S - 1)).sqrt()
        z = (f - m) / (sd + 1e-6)
    if n_elite == 1:
        z = -z * temp
        return torch.stack([1 / sum((z[:, j] - z[:, i]).exp() for j in range(S)) for i in range(S)], 1)
    return LML(N=n_elite, eps=lml_eps)(-z * temp)


def update(cx, dofs=(1,), batch=1, S=3, n_elite=1, temp=1.0, normalize=False, sigma=0.5, iters=1, vectorize=False, init_tensor=False):
    obj, xs, mu, tgt, w = problem(cx, dofs, batch)
    D = sum(dofs)
    sig = sigma
    # independent draws do not coincide
    for it in range(iters):
        z = cx.real("z%d" % it, S, batch, D, lo=-1.5, hi=1.5)
        for i in range(1, S):
            cx.assume(z[i] != z[0])
    if init_tensor:
        sig = cx.real("sig", batch, D, pos=True, lo=0.2)
    dcem = DCEM(obj, vectorize=vectorize, max_iterations=iters, n_sample=S, n_elite=n_elite, temp=temp, init_sigma=sig, normalize=normalize,
                abs_err_tolerance=0.0, rel_err_tolerance=0.0)
    with draws(cx), projections(cx):
        try:
            dcem.optimize()
        except ValueError:
            # all samples of some iteration coincide: no deviation to sample with
            cx.assume(dcem.sigma > 0)
            raise
        got = torch.cat([x.tensor for x in xs], 1)
        sd = sig if init_tensor else torch.full((batch, D), sigma, dtype=cx.dtype)
        for it in range(iters):
            z = cx.real("z%d" % it, S, batch, D, lo=-1.5, hi=1.5)
            X = mu + z * sd
            f = torch.stack([((w * (X[k] - tgt)) ** 2).sum(1) / 2 for k in range(S)], 1)
            p = weights_of(cx, f, temp, n_elite, normalize, 1e-3)
            mu = sum(p[:, k:k + 1] * X[k] for k in range(S)) / n_elite
            sd = (sum(p[:, k:k + 1] * (X[k] - mu) ** 2 for k in range(S)) / n_elite).sqrt()
            if temp is None:
                sd = sd + 1e-10
    cx.same(tuple(got.shape), (batch, D), "shape")
    cx.eq(got, mu, "mean of the samples", numtol=1e-5)
    cx.eq(dcem.sigma.to(cx.dtype), sd, "deviation of the samples", numtol=1e-5)


def through(cx, temp, normalize, S=2, sigma=0.5):
    """the new mean is differentiable in the data of the problem (unrolling)"""
    obj = th.Objective(dtype=cx.dtype)
    x0, t = cx.real("x0", 1, 1), cx.real("t0", 1, 1)
    tg = t.detach().clone().requires_grad_(True)
    x = th.Vector(tensor=x0, name="x")
    obj.add(th.Difference(x, th.Vector(tensor=tg, name="t"), th.ScaleCostWeight(th.Variable(cx.real("s", 1, 1, pos=True), name="s")), name="c"))
    obj.update()
    z = cx.real("z0", S, 1, 1, lo=-1.5, hi=1.5)
    if normalize:
        cx.assume(z[0] < z[1])
    dcem = DCEM(obj, max_iterations=1, n_sample=S, n_elite=1, temp=temp, init_sigma=sigma, normalize=normalize)
    with draws(cx):
        dcem.optimize()
    g, = torch.autograd.grad(x.tensor.sum(), [tg])
    cx.eq(g.reshape(()), cx.deriv(x.tensor.detach().reshape(()), {"t0_0": 1.0}), "gradient of the mean in the target")


def cases(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn, kw, **o):
        out.append((name, fn, kw, dict(exp_split=True, **o)))
    plist = [(2, 1, dict(branch=3)), (3, 1, dict(branch=3)), (3, 2, dict(branch=3)), (3, 1, {}), (3, 2, dict(single=True)),
             (4, 2, dict(sort=True)), (4, 1, dict(sort=True)), (4, 3, dict(sort=True, branch=3)), (5, 2, dict(sort=True, branch=3)),
             (2, 1, dict(eps=1.5, sort=True, branch=4)), (3, 2, dict(eps=1.5, sort=True, branch=4)),
             (2, 1, dict(batch=2, far=1, eps=9.0, branch=3)), (3, 1, dict(far=-1, branch=3)), (1, 1, {}), (2, 3, dict(batch=2)), (2, 2, dict(single=True)),
             (2, 1, dict(batch=2, branch=3)), (3, 1, dict(batch=2, far=1, eps=9.0, branch=3, sort=True))]
    if thorough:
        plist += [(4, 2, {}), (5, 3, dict(sort=True)), (3, 1, dict(eps=0.2, sort=True)), (6, 3, dict(sort=True, branch=4))]
    for n, N, kw in plist:
        nm = "%d.%d%s" % (n, N, "".join("." + k + str(v) for k, v in kw.items()))
        add("project." + nm, project, dict(n=n, N=N, **kw))
        add("gradient." + nm, project, dict(n=n, N=N, grad=True, **kw))
    for temp in (1.0, 2.0, None):
        for e in (1, 2):
            for norm in ((False, True) if temp else (False,)):
                nm = "t%s.e%d%s" % (temp, e, ".norm" if norm else "")
                add("update." + nm, update, dict(temp=temp, n_elite=e, normalize=norm))
                add("update.vars." + nm, update, dict(temp=temp, n_elite=e, normalize=norm, dofs=(1, 2), S=3, init_tensor=True))
                add("update.vec." + nm, update, dict(temp=temp, n_elite=e, normalize=norm, dofs=(2, 1), S=3 if e == 2 else 2, vectorize=True))
                add("update.batch2." + nm, update, dict(temp=temp, n_elite=e, normalize=norm, batch=2, dofs=(2,), S=2 if e == 1 else 3))
                add("update.twice." + nm, update, dict(temp=temp, n_elite=e, normalize=norm, iters=2, S=2 if e == 1 else 3))
    for norm in (False,):
        add("through.norm%s" % norm, through, dict(temp=1.0, normalize=norm))
    return out
