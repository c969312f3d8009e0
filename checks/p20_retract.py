"""P20: retraction moves each variable by its own step, and only where allowed."""
import torch

import theseus as th
from hist import *  # noqa
from lie import *  # noqa

PROPERTY = "P20"
EXPLAIN = ("retract (method, function, single, objective and vectorized routes) runs on free elements and steps whose exponential is known in closed form; the matrix of the new value is compared with "
           "old matrix times exponential, vectors with the sum; sequences of variables in every order receive their slices, ignored batch elements keep their values, and local(x, retract(x, d)) is d.")
BOUNDS = ("SO2, SE2, SO3, SE3, Vector, Point2, Point3; rotation angle of the step in (0.0101, 3.1) (around zero the exponential is P01's); batch 1-2 for variable and step; sequences of up to 4 variables "
          "in every order, every ignore mask, forced or not; up to 3 successive retractions")
ASSUMPTIONS = ["real arithmetic instead of floating point"]
BUDGET = 200
VECS = {"V1": (th.Vector, 1), "V2": (th.Vector, 2), "P2": (th.Point2, 2), "P3": (th.Point3, 3)}


def rep(t, n):
    return t.expand((n,) + tuple(t.shape[1:]))


class Step:
    """a batch of steps for one variable"""

    def __init__(self, cx, ty, name, batch):
        self.ty, self.batch = ty, batch
        if ty in VECS:
            self.xi = cx.real(name, batch, VECS[ty][1])
        else:
            self.es = [ExpElem(cx, ty, "%s_%d" % (name, b)) for b in range(batch)]
            self.xi = torch.cat([e.xi for e in self.es])
            self.M = torch.cat([e.M for e in self.es])


class Var:
    def __init__(self, cx, ty, name, batch, fixed=None):
        self.ty, self.name = ty, name
        if ty in VECS:
            self.C, d = VECS[ty]
            self.data = cx.real(name, batch, d)
        elif fixed is not None:
            self.C = CLS[ty]
            self.data = cx.const([CONST_G[ty][(fixed + b) % 3] for b in range(batch)])
        else:
            self.C = CLS[ty]
            self.data = Elem(cx, ty, name, batch).data

    def make(self):
        if self.ty in VECS:
            return self.C(tensor=self.data, name=self.name)
        return self.C(tensor=self.data, name=self.name, disable_checks=True)

    def after(self, step, data=None):
        """expected data"""
        data = self.data if data is None else data
        if self.ty in VECS:
            return data + step.xi
        return data_of(self.ty, mat_of(self.ty, data) @ step.M)


def single(cx, ty, bx, bd, route):
    v, d = Var(cx, ty, "x", bx), Step(cx, ty, "d", bd)
    x = v.make()
    old = x.tensor
    if route == "method":
        y = x.retract(d.xi)
    elif route == "function":
        y = th.retract(x, d.xi)
    else:
        y = x.compose(x.exp_map(d.xi))
    cx.same(type(y), type(x), "type")
    cx.same(y.dtype, x.dtype, "dtype")
    cx.agree(x.tensor is old, True, "the variable itself is not modified")
    cx.eq(x.tensor, v.data, "the variable itself is not modified")
    cx.eq(y.tensor, rep(v.after(d), max(bx, bd)), "retraction is composition with the exponential")


def inverse(cx, ty, batch, fixed=None, route="method"):
    v, d = Var(cx, ty, "x", batch, fixed=fixed), Step(cx, ty, "d", batch)
    x = v.make()
    y = x.retract(d.xi)
    back = x.local(y) if route == "method" else th.local(x, y)
    cx.eq(back, d.xi, "local coordinates invert the retraction")
    z = x.retract(back)
    cx.eq(z.tensor, v.after(d), "retraction inverts the local coordinates")


def sequence(cx, types, batches, nd, route="base", mask=False, steps=1, subset=None):
    """a sequence of variables in a chosen order"""
    import itertools
    vs = [Var(cx, ty, "v%d" % i, b) for i, (ty, b) in enumerate(zip(types, batches))]
    xs = [v.make() for v in vs]
    idx = list(range(len(vs))) if subset is None else list(subset)
    perms = list(itertools.permutations(idx))
    order = perms[pick(cx, "order", len(perms))]
    n = max([nd] + list(batches))
    obj = th.Objective(dtype=torch.float64)
    for k, x in enumerate(xs):
        obj.add(th.Difference(x, x.copy(new_name="t%d" % k), th.ScaleCostWeight(th.Variable(torch.ones(1, 1).double(), name="w%d" % k)), name="c%d" % k))
    obj.update()
    static = any(ty in ("SO3", "SE3") for ty in types)     # (their costs would only add paths)
    if route == "vectorized" and not static:
        th.Vectorize(obj)
    want = [v.data for v in vs]
    for t in range(steps):
        ds = {k: Step(cx, vs[k].ty, "d%d_%d" % (t, k), nd) for k in order}
        delta = torch.cat([ds[k].xi for k in order], 1)
        m = None
        force = False
        if mask:
            m = cx.real("m%d" % t, n) > 0
            force = bool(pick(cx, "force%d" % t, 2))
        kw = dict(ignore_mask=m, force_update=force)
        ordering = [xs[k] for k in order]
        if route == "ordering":
            vo = th.VariableOrdering(obj, default_order=False)
            for x in ordering:
                vo.append(x)
            ordering = vo
        with torch.no_grad():
            if route == "base":
                th.Objective._retract_base(delta, iter(ordering), **kw)
            elif route == "vectorized" and static:
                th.Vectorize._vectorized_retract_optim_vars(delta, iter(ordering), **kw)
            else:
                obj.retract_vars_sequence(delta, ordering, **kw)
        for k in order:
            new = rep(vs[k].after(ds[k], want[k]), n)
            if m is not None and not force:
                o = rep(want[k], n)
                new = torch.stack([torch.where(m[b], o[b], new[b]) for b in range(n)])
            want[k] = new
        for k, x in enumerate(xs):
            cx.eq(rep(x.tensor, n), rep(want[k], n), "each variable is composed with its own step, where not ignored")
            if k not in order:
                cx.eq(x.tensor, want[k], "other variables keep their values")
        for k, x in enumerate(xs):
            if m is not None and not force:
                for b in range(n):
                    # exactly: the very same values
                    o = rep(prev[k] if t else vs[k].data, n)[b]
                    cx.eq(torch.where(m[b], rep(x.tensor, n)[b], o), o, "an ignored element keeps its value")
        prev = list(want)


def update(cx, ty, bold, bnew, shape="flat"):
    """Variable.update with an ignore mask"""
    v = Var(cx, ty, "x", bold)
    w = Var(cx, ty, "y", bnew)
    x = v.make()
    n = max(bold, bnew)
    m = cx.real("m", n) > 0
    mm = m if shape == "flat" else m.view(-1, 1)
    if pick(cx, "as_variable", 2):
        y = w.make()
        x.update(y, batch_ignore_mask=mm)
        cx.eq(y.tensor, w.data, "the source is not modified")
    else:
        x.update(w.data, batch_ignore_mask=mm)
    o, d = rep(v.data, n), rep(w.data, n)
    cx.eq(rep(x.tensor, n), torch.stack([torch.where(m[b], o[b], d[b]) for b in range(n)]), "masked update")
    x.update(w.data)
    cx.eq(x.tensor, w.data, "update without a mask")


def optimizer(cx, size):
    """the step applied by an optimizer is the scaled solution of the linear solver"""
    a, b = Var(cx, "V1", "a", 2), Var(cx, "SE2", "b", 2)
    x, y = a.make(), b.make()
    obj = th.Objective(dtype=torch.float64)
    w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1).double(), name="w"))
    ta = th.Vector(tensor=cx.real("ta", 2, 1), name="ta")
    obj.add(th.Difference(x, ta, w, name="c0"))
    obj.add(th.Difference(y, y.copy(new_name="tb"), w, name="c1"))
    obj.update()
    opt = th.GaussNewton(obj, max_iterations=1, step_size=size, linear_solver_cls=th.CholeskyDenseSolver)
    d = [Step(cx, "V1", "da", 2), Step(cx, "SE2", "db", 2)]
    opt.linear_solver.solve = lambda *args, **kw: torch.cat([d[0].xi, d[1].xi], 1) / size
    with torch.no_grad():
        opt.optimize()
    cx.eq(x.tensor, a.after(d[0]), "optimizer step")
    cx.eq(y.tensor, b.after(d[1]), "optimizer step")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.05, z3_timeout=5.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for ty in ("V1", "V2", "P2", "P3", "SO2", "SE2", "SO3", "SE3"):
        for bx, bd in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for route in ("method", "function") + (("compose",) if bx == bd else ()):
                if route != "method" and bx != bd:
                    continue
                add("single.%s.%d%d.%s" % (ty, bx, bd, route), single, ty=ty, bx=bx, bd=bd, route=route)
        for bo, bn in ((2, 2), (1, 2), (2, 1), (3, 3)):
            add("update.%s.%d%d" % (ty, bo, bn), update, ty=ty, bold=bo, bnew=bn)
        add("update.%s.column" % ty, update, ty=ty, bold=2, bnew=2, shape="column")
        if ty in VECS:
            add("inverse.%s" % ty, inverse, ty=ty, batch=2)
            add("inverse.%s.f" % ty, inverse, ty=ty, batch=1, route="function")
        else:
            add("inverse.%s" % ty, inverse, ty=ty, batch=1, fixed=None if ty in ("SO2", "SE2") else 0)
            add("inverse.%s.f" % ty, inverse, ty=ty, batch=1, fixed=1, route="function")
            add("inverse.%s.b2" % ty, inverse, ty=ty, batch=2, fixed=1)
    for nm, types, b, nd in (("vec", ("V2", "V1", "P2"), (2, 2, 2), 2), ("bc", ("V2", "V1", "V2"), (1, 2, 1), 2), ("dbc", ("V1", "P3"), (2, 2), 1), ("b1", ("V1", "V1", "V2"), (1, 1, 1), 2),
                             ("four", ("V1", "P2", "V1", "P2"), (2, 2, 2, 2), 2), ("so2", ("SO2", "V1", "SO2"), (2, 2, 2), 2), ("se2", ("SE2", "P2", "SE2"), (2, 2, 2), 2), ("so3", ("SO3", "V1", "SO3"), (1, 1, 1), 1),
                             ("so3bc", ("SO3", "SO3"), (1, 2), 2), ("se3", ("SE3", "SE2"), (1, 1), 1), ("b3", ("V1", "SO2"), (3, 3), 3)):
        for route in ("base", "vectorized", "ordering"):
            if max(b) < nd and route == "vectorized":
                continue         # an objective of batch size 1 is not given batched steps
            add("seq.%s.%s" % (nm, route), sequence, types=types, batches=b, nd=nd, route=route)
            if nm not in ("se3", "four"):
                add("seq.%s.%s.mask" % (nm, route), sequence, types=types, batches=b, nd=nd, route=route, mask=True)
    for route in ("base", "vectorized"):
        add("subset.%s" % route, sequence, types=("V2", "V1", "P2"), batches=(2, 2, 2), nd=2, route=route, subset=(0, 2), mask=True)
        add("twice.vec.%s" % route, sequence, types=("V2", "V1"), batches=(2, 2), nd=2, route=route, steps=2, mask=True)
        add("twice.so2.%s" % route, sequence, types=("SO2", "V1"), batches=(2, 2), nd=2, route=route, steps=2, mask=True)
        add("twice.se2.%s" % route, sequence, types=("SE2", "SE2"), batches=(1, 1), nd=1, route=route, steps=2)
        add("thrice.vec.%s" % route, sequence, types=("V1", "V1"), batches=(1, 2), nd=2, route=route, steps=3 if tier != "quick" else 2, mask=True)
    for size in (1.0, 0.5):
        add("optimizer.%g" % size, optimizer, size=size)
    return out
