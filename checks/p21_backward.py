"""P21: the layer's backward modes return the gradients they document."""
import warnings

import torch

import theseus as th
from hist import *  # noqa
from lie import *  # noqa
from native import installed

PROPERTY = "P21"
EXPLAIN = ("TheseusLayer.forward and torch's autograd run on free inputs, initial values, weights and upstream gradients in every backward mode; values and gradients are compared with an independent "
           "forward-mode differentiation of the documented iteration (all steps, the last ones, or one undamped Gauss-Newton step with a constant matrix), and with the direct loss quotient for dlm.")
BOUNDS = ("nonlinear problems of 1-2 unknowns and 2-3 residuals (autodiff and analytic costs, learnable weights and targets; SO2 and SE2 for a single step), up to 3 iterations, truncation 1-3, "
          "step sizes 1 and 1/2, Gauss-Newton, LM and Dogleg, dense and Cholmod solvers, batch 1-2 with shared inputs, early convergence")
ASSUMPTIONS = ["real arithmetic instead of floating point", "the normal matrix is positive definite at the visited points"]
BUDGET = 200


class D:
    """a scalar with its derivatives along the inputs"""

    def __init__(self, v, g=None):
        self.v, self.g = v, g or {}

    def lin(self, o, a, b, v):
        g = {}
        for k in list(self.g) + [k for k in o.g if k not in self.g]:
            t = 0
            if k in self.g:
                t = t + a * self.g[k]
            if k in o.g:
                t = t + b * o.g[k]
            g[k] = t
        return D(v, g)

    def __add__(self, o):
        o = d(o)
        return self.lin(o, 1, 1, self.v + o.v)

    def __sub__(self, o):
        o = d(o)
        return self.lin(o, 1, -1, self.v - o.v)

    def __mul__(self, o):
        o = d(o)
        return self.lin(o, o.v, self.v, self.v * o.v)

    def __truediv__(self, o):
        o = d(o)
        return self.lin(o, 1 / o.v, -self.v / (o.v * o.v), self.v / o.v)

    def __neg__(self):
        return D(-self.v, {k: -x for k, x in self.g.items()})

    __radd__ = __add__
    __rmul__ = __mul__

    def __rsub__(self, o):
        return d(o) - self


def d(x):
    return x if isinstance(x, D) else D(x)


def stop(x):
    return D(x.v)


# ------------------------------------------------------------------ problems
# residuals and jacobians of scalars x and inputs a
def curve(x, a):
    return [a[0] * x[0] - a[1], x[0] * x[0] * .5 - a[0]]


def curve_j(x, a):
    return [[a[0]], [x[0]]]


def two(x, a):
    return [x[0] - a[0] * x[1], a[1] * x[1] * x[1] * .5 - x[0], x[1] - a[1]]


def two_j(x, a):
    return [[d(1.), -a[0]], [d(-1.), a[1] * x[1]], [d(0.), d(1.)]]


def pair(x, a):
    return [x[0] - a[1], a[0] * x[1] - x[0]]


def pair_j(x, a):
    return [[d(1.), d(0.)], [d(-1.), a[0]]]


def line(x, a):
    return [a[0] * x[0] - a[1]]


def line_j(x, a):
    return [[a[0]]]


PROB = {"curve": (curve, curve_j, 1, 2), "two": (two, two_j, 2, 3), "line": (line, line_j, 1, 1), "pair": (pair, pair_j, 2, 2)}


class Problem:
    """prob: the residual; split: one variable per unknown; target: also a Difference cost towards a learnable target; weight: learnable scale of the autodiff cost"""

    def __init__(self, cx, prob, batch=1, split=True, target=False, weight=False, shared=False, vec=True, box=False):
        self.cx, self.batch = cx, batch
        self.f, self.fj, self.n, self.m = PROB[prob]
        self.target, self.weight = target, weight
        ab = 1 if shared else batch
        n = self.n
        self.X = cx.real("x", batch, n, lo=.4, hi=1.5, box=box)
        self.A = cx.real("a", ab, 2, lo=.4, hi=1.5, box=box)
        for b in range(ab):
            cx.assume(self.A[b, 0] != 0)          # the normal matrices are regular
        self.leaf = {}

        def leaf(name, t):
            self.leaf[name] = t.detach().clone().requires_grad_(True)
            return self.leaf[name]
        self.inputs = {"a": leaf("a", self.A)}
        if split:
            vs = [th.Vector(1, name="x%d" % i, dtype=cx.dtype) for i in range(n)]
            for i in range(n):
                self.inputs["x%d" % i] = leaf("x%d" % i, self.X[:, i:i + 1])
        else:
            vs = [th.Vector(n, name="x", dtype=cx.dtype)]
            self.inputs["x"] = leaf("x", self.X)
        self.names = [v.name for v in vs]
        av = th.Variable(torch.ones(1, 2, dtype=cx.dtype), name="a")
        w = th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="w")
        f = self.f

        def err(optim_vars, aux_vars):
            x = torch.cat([v.tensor for v in optim_vars], 1)
            a = aux_vars[0].tensor
            return torch.stack(f(x.unbind(1), a.unbind(1)), 1)
        obj = self.obj = th.Objective(dtype=cx.dtype)
        obj.add(th.AutoDiffCostFunction(vs, err, self.m, cost_weight=th.ScaleCostWeight(w), aux_vars=[av], name="main"))
        if weight:
            self.W = cx.real("w", 1, 1, pos=True, lo=.5, hi=1.5)
            self.inputs["w"] = leaf("w", self.W)
        if target:
            self.T = cx.real("t", batch, n)
            self.U = cx.real("u", ab, 1, pos=True, lo=.5, hi=1.5)
            u = th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="u")
            for i, v in enumerate(vs):
                t = th.Vector(v.dof(), name="t%d" % i, dtype=cx.dtype)
                obj.add(th.Difference(v, t, th.ScaleCostWeight(u), name="d%d" % i))
                self.inputs["t%d" % i] = leaf("t%d" % i, self.T[:, i:i + 1] if split else self.T)
            self.inputs["u"] = leaf("u", self.U)
        self.split = split

    def duals(self, b):
        """scalars of batch element b, each its own input"""
        one = torch.ones((), dtype=self.cx.dtype)
        mk = lambda t, nm: [D(t[b if t.shape[0] > 1 else 0, i], {(nm, b if t.shape[0] > 1 else 0, i): one}) for i in range(t.shape[1])]
        self.x = mk(self.X, "X")
        self.a = mk(self.A, "a")
        self.w = mk(self.W, "w")[0] if self.weight else d(one)
        if self.target:
            self.t, self.u = mk(self.T, "T"), mk(self.U, "u")[0]

    def res(self, x, a=None):
        r = [self.w * v for v in self.f(x, self.a)]
        if self.target:
            r += [self.u * (x[i] - self.t[i]) for i in range(self.n)]
        return r

    def jac(self, x):
        J = [[self.w * v for v in row] for row in self.fj(x, self.a)]
        if self.target:
            J += [[self.u if i == j else d(0.) for j in range(self.n)] for i in range(self.n)]
        return J

    def normal(self, x):
        r, J = self.res(x), self.jac(x)
        n = self.n
        A = [[sum([J[k][i] * J[k][j] for k in range(len(r))], d(0.)) for j in range(n)] for i in range(n)]
        g = [sum([J[k][i] * r[k] for k in range(len(r))], d(0.)) for i in range(n)]
        return A, g

    def step(self, x, size=1., lam=None, detach=False):
        A, g = self.normal(x)
        if lam is not None:
            for i in range(self.n):
                A[i][i] = A[i][i] + lam
        if detach:
            A = [[stop(v) for v in row] for row in A]
        return [xi - size * v for xi, v in zip(x, solve(A, g))]

    def err(self, x):
        return sum([(r * r).v for r in self.res(x)]) / 2

    def leafgrad(self, g, b):
        """expected gradient of every leaf from a dict of derivatives (summed over batch elements by the caller)"""


def solve(A, g):
    if len(A) == 1:
        return [g[0] / A[0][0]]
    det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
    return [(A[1][1] * g[0] - A[0][1] * g[1]) / det, (A[0][0] * g[1] - A[1][0] * g[0]) / det]


OPT = {"gn": th.GaussNewton, "lm": th.LevenbergMarquardt, "dogleg": th.Dogleg}
LAM = 0.25


def layer(cx, prob, mode, iters, opt="gn", back=None, size=1., batch=1, solver="dense", vec=True, tol=0., extra=None, **kw):
    with installed(cuda=False), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = Problem(cx, prob, batch, **kw)
        o = OPT[opt](p.obj, max_iterations=iters, step_size=size, abs_err_tolerance=0., rel_err_tolerance=tol,
                     linear_solver_cls={"dense": th.CholeskyDenseSolver, "lu": th.LUDenseSolver, "cholmod": th.CholmodSparseSolver}[solver])
        lay = th.TheseusLayer(o, vectorize=vec)
        if mode == "dlm" and extra is None:
            extra = {"dlm_epsilon": 2. ** -7}
        ok = dict(backward_mode=mode, **(extra or {}))
        if back is not None:
            ok["backward_num_iterations"] = back
        if opt == "lm":
            ok.update(damping=LAM, adaptive_damping=False)
        if opt == "dogleg":
            ok.update(trust_region_init=1e6)       # the region is never reached: full steps
        vals, info = lay.forward(dict(p.inputs), optimizer_kwargs=ok)
        out = torch.cat([vals[n] for n in p.names], 1)
        cx.same(tuple(out.shape), (batch, p.n), "shape")
        G = cx.real("G", batch, p.n)
        # ---- the documented iteration
        want, grads = [], {}
        unit = not (extra or {}).get("__keep_final_step_size__")
        lam = LAM if opt == "lm" else None
        states = []
        for b in range(batch):
            p.duals(b)
            x = p.x
            n_grad = {"unroll": iters, "dlm": iters, "truncated": min(back or 0, iters), "implicit": 1}[mode]
            e = p.err(x)
            stopped = False
            for k in range(iters):
                if k == iters - n_grad and k > 0 and mode != "dlm":
                    x = [stop(v) for v in x]
                    stopped = False
                    e = p.err(x)
                if stopped:
                    continue
                last = mode == "implicit" and k == iters - 1
                x = p.step(x, 1. if last and unit else size, None if last else lam, detach=last)
                if tol and batch == 1:
                    e2 = p.err(x)
                    stopped = bool(((e - e2) / e).abs() < tol)
                    e = e2
            states.append(x)
            want.append(torch.stack([v.v for v in x]))
        cx.eq(out, torch.stack(want), "values")
        if mode == "dlm":
            # (the default is stored in single precision)
            return dlm(cx, p, lay, out, G, states, extra["dlm_epsilon"] if extra else float(torch.tensor(1e-2)), extra["dlm_epsilon"] if extra else 1e-2)
        for b in range(batch):
            for i, v in enumerate(states[b]):
                for k, t in v.g.items():
                    grads[k] = grads.get(k, 0) + G[b, i] * t
        got = torch.autograd.grad((out * G).sum(), list(p.leaf.values()), allow_unused=True)
        # (a single implicit step starts from the inputs themselves)
        compare(cx, p, got, grads, skip="X" if mode == "implicit" and iters == 1 else None)


def compare(cx, p, got, grads, skip=None):
    for name, g in zip(p.leaf, got):
        t = p.leaf[name]
        for b in range(t.shape[0]):
            for i in range(t.shape[1]):
                key, ii = (name, i)
                if name[0] in "xt":
                    key = name[0].upper()
                    ii = int(name[1:]) if p.split else i
                if key == skip:
                    continue
                w = grads.get((key, b, ii))
                w = torch.zeros((), dtype=cx.dtype) if w is None else w
                cx.eq(torch.zeros((), dtype=cx.dtype) if g is None else g[b, i], w, "gradient of %s" % key.lower())


def dlm(cx, p, lay, out, G, states, eps, den):
    grads = {}
    # the gradients are those of the error at the solution and at the perturbed solution
    for b in range(p.batch):
        p.duals(b)
        x = [stop(v) for v in states[b]]
        A, g = p.normal(x)
        A = [[stop(v) for v in row] for row in A]
        for i in range(p.n):
            A[i][i] = A[i][i] + 2 * eps * eps
            g[i] = stop(g[i]) + 2 * eps * (eps * x[i].v - .5 * G[b, i])
        y = [stop(v - s) for v, s in zip(x, solve(A, g))]
        for pt, sg in ((x, 1.), (y, -1.)):
            e = sum([r * r for r in p.res(pt)], d(0.)) * .5
            for k, v in e.g.items():
                grads[k] = grads.get(k, 0) + sg * v / den
    got = torch.autograd.grad((out * G).sum(), list(p.leaf.values()), allow_unused=True)
    for k in [k for k in grads if k[0] == "X"]:
        del grads[k]
    compare(cx, p, got, grads)


def twice(cx, modes, prob="curve", **kw):
    """one layer used with several modes after each other on new inputs"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = Problem(cx, prob, 1, **kw)
        o = th.GaussNewton(p.obj, max_iterations=2, abs_err_tolerance=0., rel_err_tolerance=0.)
        lay = th.TheseusLayer(o)
        p.duals(0)
        x0 = p.x
        old = None
        for k, mode in enumerate(modes):
            G = cx.real("G%d" % k, 1, p.n)
            ok = dict(backward_mode=mode)
            if mode == "truncated":
                ok["backward_num_iterations"] = 1
            vals, _ = lay.forward(dict(p.inputs), optimizer_kwargs=ok)
            out = torch.cat([vals[n] for n in p.names], 1)
            x = x0
            for it in range(2):
                if it == 1 and mode != "unroll":
                    x = [stop(v) for v in x]
                x = p.step(x, detach=mode == "implicit" and it == 1)
            cx.eq(out[0], torch.stack([v.v for v in x]), "values")
            if old is not None:
                check_back(cx, p, *old)
            old = (out, G, x)
        check_back(cx, p, *old)


def check_back(cx, p, out, G, x):
    grads = {}
    for i, v in enumerate(x):
        for k, t in v.g.items():
            grads[k] = grads.get(k, 0) + G[0, i] * t
    compare(cx, p, torch.autograd.grad((out * G).sum(), list(p.leaf.values()), allow_unused=True), grads)


def group(cx, ty, mode, weight=False):
    """one step towards a target ends at the target: the gradient of the solution is the identity on tangent vectors"""
    X = Elem(cx, ty, "x")
    T = ExpElem(cx, ty, "t")
    tgt = data_of(ty, X.M @ T.M)
    C = CLS[ty]
    obj = th.Objective(dtype=cx.dtype)
    x, t = C(name="x", dtype=cx.dtype), C(name="t", dtype=cx.dtype)
    obj.add(th.Difference(x, t, th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="w")), name="c"))
    o = th.GaussNewton(obj, max_iterations=1, abs_err_tolerance=0., rel_err_tolerance=0.)
    lay = th.TheseusLayer(o)
    leaf = tgt.detach().clone().requires_grad_(True)
    ins = {"x": X.data, "t": leaf}
    wleaf = None
    if weight:
        wleaf = cx.real("w", 1, 1, pos=True, lo=.5, hi=2).detach().clone().requires_grad_(True)
        ins["w"] = wleaf
    vals, _ = lay.forward(ins, optimizer_kwargs=dict(backward_mode=mode))
    out = vals["x"]
    cx.eq(out, tgt, "values")
    G = cx.real("G", *out.shape)
    got = torch.autograd.grad((out * G).sum(), [leaf] + ([wleaf] if weight else []), allow_unused=True)
    # along every tangent direction at the target
    Mt = mat_of(ty, tgt)
    for i in range(DOF[ty]):
        e = torch.zeros(1, DOF[ty], dtype=cx.dtype)
        e[0, i] = 1
        dM = Mt @ hat_of(ty, e)
        dd = data_of(ty, dM)
        cx.eq((got[0] * dd).sum(), (G * dd).sum(), "gradient along tangent directions of the target")
    if weight and got[1] is not None:
        cx.eq(got[1], torch.zeros(1, 1, dtype=cx.dtype), "gradient of the weight")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.05, z3_timeout=5.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for p, k in (("line", {}), ("curve", {}), ("curve", dict(weight=True)), ("curve", dict(target=True)), ("two", {}), ("two", dict(split=False, weight=True)), ("two", dict(target=True, split=False))):
        t = p + "".join("." + x for x in k)
        for m in ("unroll", "implicit", "dlm"):
            if (p, m) != ("two", "dlm"):
                add("%s.%s.1" % (t, m), layer, prob=p, mode=m, iters=1, **k)
        add("%s.trunc.1" % t, layer, prob=p, mode="truncated", back=1, iters=1, **k)
        if p != "two":
            for m in ("unroll", "implicit"):
                add("%s.%s.2" % (t, m), layer, prob=p, mode=m, iters=2, **k)
            add("%s.trunc.2" % t, layer, prob=p, mode="truncated", back=1, iters=2, **k)
    add("line.trunc3", layer, prob="line", mode="truncated", back=2, iters=3, size=.5)
    add("line.unroll3", layer, prob="line", mode="unroll", iters=3, size=.5)
    add("line.implicit3", layer, prob="line", mode="implicit", iters=3, size=.5)
    add("line.dlm3", layer, prob="line", mode="dlm", iters=3, size=.5)
    add("curve.truncall", layer, prob="curve", mode="truncated", back=5, iters=2)
    for m, b in (("unroll", None), ("implicit", None), ("truncated", 1), ("dlm", None)):
        it = 1 if m == "dlm" else 2
        add("half.%s" % m, layer, prob="curve", mode=m, back=b, iters=it, size=.5)
        add("lm.%s" % m, layer, prob="curve", mode=m, back=b, iters=it, opt="lm")
        add("dogleg.%s" % m, layer, prob="line", mode=m, back=b, iters=1, opt="dogleg", box=True)
        add("cholmod.%s" % m, layer, prob="curve", mode=m, back=b, iters=it, solver="cholmod")
        add("lu.%s" % m, layer, prob="curve", mode=m, back=b, iters=it, solver="lu")
        add("loop.%s" % m, layer, prob="curve", mode=m, back=b, iters=it, vec=False, weight=True)
        add("batch.%s" % m, layer, prob="curve", mode=m, back=b, iters=1, batch=2, target=True)
        for sp in (True, False):
            add("pair.%s.%s" % ("split" if sp else "one", m), layer, prob="pair", mode=m, back=b, iters=1, split=sp)
        add("tracked.%s" % m, layer, prob="line", mode=m, back=b, iters=2, size=.5, extra=dict(track_best_solution=True, track_err_history=True, track_state_history=True, **({"dlm_epsilon": .25} if m == "dlm" else {})))
        add("shared.%s" % m, layer, prob="curve" if m != "dlm" else "line", mode=m, back=b, iters=1, batch=2, shared=True, weight=True)
        if m != "dlm":
            add("converge.%s" % m, layer, prob="line", mode=m, back=b, iters=3, size=.5, tol=.8)
    add("cholmod.two", layer, prob="two", mode="implicit", iters=1, solver="cholmod")
    add("cholmod.two.unroll", layer, prob="two", mode="unroll", iters=1, solver="cholmod")
    add("keep.implicit", layer, prob="curve", mode="implicit", iters=2, size=.5, extra={"__keep_final_step_size__": True})
    add("dlm.eps", layer, prob="curve", mode="dlm", iters=1, extra={"dlm_epsilon": .5})
    add("dlm.default", layer, prob="curve", mode="dlm", iters=1, extra={})
    for ms in (("unroll", "implicit"), ("implicit", "truncated"), ("truncated", "unroll")):
        add("twice.%s.%s" % ms, twice, modes=ms)
    for m in ("unroll", "implicit"):
        add("group.SO2.%s" % m, group, ty="SO2", mode=m)
    add("group.SO2.weight", group, ty="SO2", mode="unroll", weight=True)
    return out
