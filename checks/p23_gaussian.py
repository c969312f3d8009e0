"""P23: Gaussians on manifolds transport as specified."""
import contextlib

import torch

import theseus as th
from theseus.optimizer import ManifoldGaussian, local_gaussian, retract_gaussian
from hist import *  # noqa
from lie import *  # noqa

PROPERTY = "P23"
EXPLAIN = ("local_gaussian and retract_gaussian run on a free variable, a mean reached from it by an exponential in closed form and a free symmetric precision; the mean is compared with the tangent vector "
           "and the composition, the precision with J^T L J for the closed form derivative J of the exponential, and the round trip with the original. ManifoldGaussian is run through histories of updates. TheseusLayer.compute_samples runs with free standard normal draws y: "
           "(s - m)^T H (s - m') = T y^T y' for all samples s, where m is the step and H the Hessian approximation.")
BOUNDS = ("Vector, Point2, Point3, SO2, SE2, SO3, SE3; rotation angle of the step in (0.0101, 3.1); batch 1-2 (and batch mixes); every symmetric precision (SO3 and SE3 variables are fixed rotations); samples over vector variables, up to 3 unknowns, every linear problem with a lower triangular jacobian")
ASSUMPTIONS = ["real arithmetic instead of floating point"]
BUDGET = 200
VECS = {"V1": (th.Vector, 1), "V2": (th.Vector, 2), "P2": (th.Point2, 2), "P3": (th.Point3, 3)}


def dof(ty):
    return VECS[ty][1] if ty in VECS else DOF[ty]


def sym(cx, name, batch, d, sparse=None):
    """a free symmetric matrix; sparse: only those entries"""
    n = d * (d + 1) // 2
    v = cx.real(name, batch, n)
    rows = [[None] * d for _ in range(d)]
    k = 0
    for i in range(d):
        for j in range(i + 1):
            x = v[:, k] if sparse is None or (i, j) in sparse else torch.zeros_like(v[:, k])
            rows[i][j] = rows[j][i] = x
            k += 1
    return torch.stack([torch.stack(r, -1) for r in rows], -2)


class Setup:
    def __init__(self, cx, ty, bx, bd, fixed=None):
        self.cx, self.ty = cx, ty
        n = self.n = max(bx, bd)
        if ty in VECS:
            C, d = VECS[ty]
            X = cx.real("x", bx, d)
            self.xi = cx.real("d", bd, d)
            self.mk = lambda t, name=None: C(tensor=t, name=name)
            self.mean = X + self.xi
            self.J = [torch.eye(d, dtype=cx.dtype)] * bd
        else:
            C = CLS[ty]
            X = cx.const([CONST_G[ty][(fixed + b) % 3] for b in range(bx)]) if fixed is not None else Elem(cx, ty, "x", bx).data
            es = [ExpElem(cx, ty, "d%d" % b) for b in range(bd)]
            self.xi = torch.cat([e.xi for e in es])
            self.mk = lambda t, name=None: C(tensor=t, name=name, disable_checks=True)
            self.mean = data_of(ty, mat_of(ty, X) @ torch.cat([e.M for e in es]))
            self.J = [e.dexp() for e in es]
        self.data = X
        self.x = self.mk(X, "x")

    def jac(self, b):
        return self.J[b if len(self.J) > 1 else 0]


def local(cx, ty, bx=1, bd=1, fixed=None, sparse=None, eta=False):
    s = Setup(cx, ty, bx, bd, fixed)
    d = dof(ty)
    L = sym(cx, "L", s.n, d, sparse)
    g = ManifoldGaussian([s.mk(s.mean, "m")], precision=L)
    m, P = local_gaussian(s.x, g, return_mean=not eta)
    cx.same((tuple(m.shape), tuple(P.shape)), ((s.n, d), (s.n, d, d)), "shapes")
    xi = s.xi.expand(s.n, d)
    for b in range(s.n):
        J = s.jac(b)
        want = J.transpose(0, 1) @ L[b] @ J
        cx.eq(P[b], want, "precision in the tangent plane")
        cx.eq(P[b], P[b].transpose(0, 1), "symmetric precision")
        cx.eq(m[b], want @ xi[b] if eta else xi[b], "information vector" if eta else "mean in the tangent plane")
    cx.eq(s.x.tensor, s.data, "the variable is not modified")
    cx.eq(g.mean[0].tensor, s.mean, "the gaussian is not modified")
    cx.eq(g.precision, L, "the gaussian is not modified")


@contextlib.contextmanager
def inverses(cx, log):
    """inverses of large matrices are free values; their arguments are recorded (the inverse is trusted)"""
    from symtorch import tensor as T
    real = T.HANDLERS["linalg_inv_ex"]

    def inv(A, *, check_errors=False):
        K = cx.real("K%d" % len(log), *A.shape)
        log.append((A, K))
        return torch.return_types.linalg_inv_ex((K, torch.zeros(A.shape[:-2], dtype=torch.int32)))
    if cx.sym:
        T.HANDLERS["linalg_inv_ex"] = inv
    try:
        yield
    finally:
        T.HANDLERS["linalg_inv_ex"] = real


def retract6(cx, ty, b=1, fixed=None):
    """with the matrix inverse trusted"""
    s = Setup(cx, ty, b, b, fixed)
    d = dof(ty)
    L = sym(cx, "L", s.n, d)
    log = []
    with inverses(cx, log):
        g = retract_gaussian(s.x, s.xi, L)
    cx.eq(g.mean[0].tensor, s.mean, "retracted mean")
    J = torch.stack([s.jac(k) for k in range(b)])
    if cx.sym:
        if len(log) != 1:
            raise NotImplementedError("%d inverses" % len(log))
        A, K = log[0]
        transposed = E_zero(cx, A - J.transpose(1, 2)) and not E_zero(cx, A - J)
        if transposed:
            K = K.transpose(1, 2)
            A = A.transpose(1, 2)
        cx.eq(A, J, "the derivative of the exponential is inverted")
    else:
        K = torch.inverse(J)
    cx.eq(g.precision, K.transpose(1, 2) @ L @ K, "retracted precision")


def E_zero(cx, t):
    from symtorch import tensor as T
    return all(T.Ctl.zero(i) for i in T.ids_list(t))


def retract(cx, ty, bx=1, bd=1, fixed=None, sparse=None):
    s = Setup(cx, ty, bx, bd, fixed)
    d = dof(ty)
    L = sym(cx, "L", s.n, d, sparse)
    g = retract_gaussian(s.x, s.xi, L)
    cx.same((len(g.mean), type(g.mean[0]), tuple(g.precision.shape)), (1, type(s.x), (s.n, d, d)), "types")
    cx.eq(g.mean[0].tensor, s.mean, "retracted mean")
    for b in range(s.n):
        J = s.jac(b)
        cx.eq(J.transpose(0, 1) @ g.precision[b] @ J, L[b], "retracted precision")
    cx.eq(s.x.tensor, s.data, "the variable is not modified")


def roundtrip(cx, ty, bd=1, fixed=None, sparse=None):
    s = Setup(cx, ty, bd, bd, fixed)
    L = sym(cx, "L", bd, dof(ty), sparse)
    g = retract_gaussian(s.x, s.xi, L)
    m, P = local_gaussian(s.x, g)
    cx.eq(m, s.xi, "the localized retraction has the same mean")
    cx.eq(P, L, "the localized retraction has the same precision")


def history(cx, types, steps, batch):
    """updates, copies and refused values in any order"""
    ds = [dof(t) for t in types]
    n = sum(ds)
    cnt = [0]

    def values():
        cnt[0] += 1
        k = cnt[0]
        data = [cx.real("v%d_%d" % (k, i), batch, d) if t in VECS else Elem(cx, t, "v%d_%d" % (k, i), batch).data for i, (t, d) in enumerate(zip(types, ds))]
        return data, sym(cx, "L%d" % k, batch, n)

    def objs(data):
        return [VECS[t][0](tensor=x) if t in VECS else CLS[t](tensor=x, disable_checks=True) for t, x in zip(types, data)]
    data, L = values()
    if pick(cx, "default", 2):
        L = torch.eye(n, dtype=cx.dtype).expand(batch, n, n)
        g = ManifoldGaussian(objs(data), name="g")
    else:
        g = ManifoldGaussian(objs(data), precision=L, name="g")
    live = [[g, data, L]]
    cx.same((g.dof, g.name), (n, "g"), "degrees of freedom")
    for t in range(steps):
        k = pick(cx, "who%d" % t, len(live))
        o = live[k]
        act = pick(cx, "act%d" % t, 4)
        if act == 0:
            d, L = values()
            o[0].update(objs(d), L)
            o[1:] = [d, L]
        elif act == 1:
            live.append([o[0].copy(), o[1], o[2]])
            cx.same(live[-1][0].name, o[0].name + "_copy", "name of a copy")
        elif act == 2:
            import copy
            live.append([copy.deepcopy(o[0]), o[1], o[2]])
        else:
            d, L = o[1], o[2]
            bad = [cx.real("bad%d" % t, batch, n, n), torch.cat([L, L]), L[:, :, :-1], L.float()][pick(cx, "bad%d" % t, 4)]
            if bad.shape == L.shape and bad.dtype == L.dtype:
                if n == 1:
                    continue
                cx.assume((bad[0, 0, 1] - bad[0, 1, 0]).abs() > 1 + bad[0, 1, 0].abs())
            if n == 1 and bad.shape[2] == 0:
                continue
            cx.raises(ValueError, lambda: o[0].update(objs(d), bad), "an invalid precision is refused")
            cx.raises(ValueError, lambda: o[0].update(objs(d) + objs(d)[:1], L), "an invalid mean is refused")
        for g_, d, L in live:
            for v, x in zip(g_.mean, d):
                cx.eq(v.tensor, x, "mean")
            cx.eq(g_.precision, L, "precision")
            cx.same(g_.dof, n, "degrees of freedom")


def refuse(cx):
    v = th.Vector(tensor=cx.real("v", 1, 2))
    p = th.Point2(tensor=cx.real("p", 1, 2))
    cx.raises(ValueError, lambda: local_gaussian(v, ManifoldGaussian([v, p])), "one variable only")
    cx.raises(ValueError, lambda: local_gaussian(v, ManifoldGaussian([p])), "same class only")


@contextlib.contextmanager
def normal_draws(cx, draws):
    """torch.normal: mean + std * any numbers"""
    real = torch.normal

    def fake(mean, std, **kw):
        y = cx.real("y%d" % len(draws), *torch.broadcast_shapes(mean.shape, std.shape))
        draws.append(y)
        return mean + std * y.to(mean.dtype)
    torch.normal = fake
    try:
        yield
    finally:
        torch.normal = real


def samples(cx, sizes, batch, n, temp, order=False):
    """the layer's samples: retractions of s with (s - step)^T (A^T A / T) (s - step) = y^T y for the standard normal y"""
    d = sum(sizes)
    vs = [th.Vector(tensor=cx.real("v%d" % i, batch, k), name="v%d" % (1 - i if order else i)) for i, k in enumerate(sizes)]
    J = cx.real("J", batch, d, d)
    # (an invertible lower triangle with an unknown scale: the matrix of the problem is any positive definite matrix)
    tri = torch.ones(d, d, dtype=cx.dtype).tril(-1)
    dg = cx.real("D", batch, d, lo=0.3, hi=2., pos=True)
    cx.assume(dg > 1e-3)
    J = J * tri + torch.diag_embed(dg)
    b = cx.real("b", batch, d)

    def err(optim_vars, aux_vars):
        x = torch.cat([v.tensor for v in optim_vars], 1)
        return (aux_vars[0].tensor.view(-1, d, d) @ x.unsqueeze(-1)).squeeze(-1) - aux_vars[1].tensor

    class Cost(th.CostFunction):
        def __init__(self, vs, j, b, w, name="c"):
            super().__init__(w, name=name)
            self.js, self.n = j, len(vs)
            for i, v in enumerate(vs):
                setattr(self, "v%d" % i, v)
            self.j, self.b = j, b
            self.register_optim_vars(["v%d" % i for i in range(len(vs))])
            self.register_aux_vars(["j", "b"])

        def error(self):
            return err(list(self.optim_vars), [self.j, self.b])

        def jacobians(self):
            Jm = self.j.tensor.view(-1, d, d)
            out, k = [], 0
            for v in self.optim_vars:
                out.append(Jm[:, :, k:k + v.dof()])
                k += v.dof()
            return out, self.error()

        def dim(self):
            return d

        def _copy_impl(self, new_name=None):
            return Cost([getattr(self, "v%d" % i).copy() for i in range(self.n)], self.j.copy(), self.b.copy(), self.weight.copy(), new_name)

    w = cx.real("w", 1, 1, lo=0.5, hi=2., pos=True)
    cx.assume(w > 1e-3)
    obj = th.Objective(dtype=cx.dtype)
    obj.add(Cost(vs, th.Variable(J.reshape(batch, d * d), name="jj"), th.Variable(b, name="bb"), th.ScaleCostWeight(th.Variable(w, name="w"))))
    o = th.GaussNewton(obj, linear_solver_cls=th.CholeskyDenseSolver, max_iterations=1)
    lay = th.TheseusLayer(o)
    obj.update()
    solver = o.linear_solver
    solver.linearization.linearize()
    draws, before = [], [v.tensor.clone() for v in vs]
    cx.same(lay.compute_samples(None), None, "no solver, no samples")
    with normal_draws(cx, draws):
        got = lay.compute_samples(solver, n_samples=n, temperature=temp)
    cx.same(tuple(got.shape), (batch, d, n), "shape")
    x = torch.cat([v.tensor for v in solver.linearization.ordering], 1)
    Jo = torch.cat([J[:, :, sum(sizes[:i]):sum(sizes[:i]) + sizes[i]] for i in [vs.index(v) for v in solver.linearization.ordering]], 2)
    cx.same(len(draws), 1, "draws")
    y = draws[0].expand(batch, d, n)
    for i in range(batch):
        # the error at x + s, whitened, is w (J x - b) + w J s; at the step it is zero
        z = w[0, 0] * (Jo[i] @ got[i] - b[i].unsqueeze(-1))
        cx.eq(z.t() @ z, temp * (y[i].t() @ y[i]), "covariance about the step")
    for v, t in zip(vs, before):
        cx.agree(v.tensor, t, "variables unchanged")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.2, z3_timeout=5.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for ty in ("V1", "V2", "P2", "P3", "SO2", "SE2", "SO3", "SE3"):
        fx = 0 if ty in ("SO3", "SE3") else None
        sp = [None] if ty != "SE3" else [((0, 0), (3, 3)), ((1, 0), (4, 3)), ((3, 1), (5, 5)), ((2, 2), (5, 0))]
        for i, p in enumerate(sp):
            t = "" if p is None else ".%d" % i
            add("local.%s%s" % (ty, t), local, ty=ty, fixed=fx, sparse=p)
            add("eta.%s%s" % (ty, t), local, ty=ty, fixed=fx, sparse=p, eta=True)
        for bx, bd in ((1, 2), (2, 1), (2, 2)):
            add("local.%s.%d%d" % (ty, bx, bd), local, ty=ty, fixed=fx, bx=bx, bd=bd, sparse=sp[0])
            if bd == 2 and ty != "SE3" and (tier != "quick" or ty != "SO3"):
                add("retract.%s.%d%d" % (ty, bx, bd), retract, ty=ty, fixed=fx, bx=bx, bd=bd)
        if ty != "SE3":
            add("retract.%s" % ty, retract, ty=ty, fixed=fx)
        if ty not in ("SO3", "SE3"):
            add("round.%s" % ty, roundtrip, ty=ty, fixed=fx)
        if ty in ("SO3", "SE3"):
            add("inverse.%s" % ty, retract6, ty=ty, fixed=fx)
            add("inverse.%s.2" % ty, retract6, ty=ty, fixed=fx, b=2)
    add("history.V1", history, types=("V1",), steps=2, batch=1)
    add("history.V2", history, types=("V2",), steps=2, batch=2)
    add("history.P2SO2", history, types=("P2", "SO2"), steps=2, batch=1)
    add("history.SE2V1", history, types=("SE2", "V1"), steps=2, batch=1)
    for sizes in ((1,), (2,), (1, 1), (2, 1), (3,)):
        for batch, n, temp, order in ((1, 2, 1., False), (2, 1, 0.5, True)):
            if order and len(sizes) == 1 and sizes[0] > 2:
                continue
            add("samples.%s.%d" % ("-".join(map(str, sizes)), batch), samples, sizes=sizes, batch=batch, n=n, temp=temp, order=order)
    add("refuse", refuse)
    return out
