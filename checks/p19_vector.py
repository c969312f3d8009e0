"""P19: vectorization changes performance only."""
import warnings

import torch

import theseus as th
from hist import *  # noqa
from p17_objective import Makers, fsum

PROPERTY = "P19"
EXPLAIN = ("objectives are vectorized by the real Vectorize and everything it serves (errors, weighted errors, jacobians, retractions) is compared, over symbolic "
           "values, with evaluating each cost function and variable alone; the batch size of every variable and the operations of every history are symbolic choices.")
BOUNDS = ("2-5 cost functions of every built-in kind, robust and automatic differentiation included, batch size 1 or 2 chosen independently for up to 6 variables; histories of up to 4 "
          "operations; retraction of up to 5 variables of 6 types, batches 1-3, arbitrary ignore masks")
ASSUMPTIONS = ["real arithmetic instead of floating point", "gradients are compared for weights other than zero (costs of weight zero are skipped on purpose)", "values are changed through update(), not by writing into tensors",
               "cost functions of one class differ by their variables, weights, error function and loss only"]
BUDGET = 220


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def ex(t, n):
    return t.expand((n,) + tuple(t.shape[1:]))


def served_ok(cx, obj, lab=""):
    """what the vectorized objective serves against every cost function alone"""
    n = obj.batch_size
    alone = [quiet(c.weighted_jacobians_error) + (quiet(c.weighted_error),) for c in obj.cost_functions.values()]
    it = list(obj._get_jacobians_iter())
    cx.same(len(it), len(alone), lab + "number of served cost functions")
    for w, (J, e, we), c in zip(it, alone, obj.cost_functions.values()):
        J2, e2 = w.weighted_jacobians_error()
        cx.same([v.name for v in w.optim_vars], [v.name for v in c.optim_vars], lab + "variables of the served cost function")
        cx.same(len(J2), len(J), lab + "number of jacobians")
        cx.eq(ex(e2, n), ex(e, n), lab + "error of the linearization")
        for a, b in zip(J2, J):
            cx.eq(ex(a, n), ex(b, n), lab + "jacobian")
    err = quiet(obj.error)
    cx.eq(err, torch.cat([ex(we, n) for _, _, we in alone], 1), lab + "error of the objective")


def kinds(cx, kind, kw=None, vary=(), b0=1, extra=None):
    bs = {}

    def batch(n):
        if n not in bs:
            bs[n] = 1 + pick(cx, "batch_" + n, 2) if n in vary else b0
        return bs[n]
    M = Makers(cx, batch)
    cfs = getattr(M, kind)(**(kw or {}))
    obj = th.Objective(dtype=torch.float64)
    for c in cfs:
        obj.add(c)
    if extra:
        for k, c in enumerate(getattr(M, extra)()):
            c.name = "extra%d" % k
            obj.add(c)
    obj.update()
    th.Vectorize(obj)
    served_ok(cx, obj)


def collide(cx, kind):
    """cost functions that look alike but are not the same computation"""
    b = 1 + pick(cx, "b", 2)

    def V(n, d=1, bb=None):
        return th.Vector(tensor=cx.real(n, bb or b, d), name=n)

    def A(n, d=1, bb=1):
        return th.Variable(cx.real(n, bb, d), name=n)
    x, y, z, t = V("x"), V("y"), V("z"), V("t")
    s = th.ScaleCostWeight(A("s"))
    d = th.DiagonalCostWeight(A("d"))

    def allv(optim_vars, aux_vars):
        vs = [v.tensor for v in optim_vars] + [v.tensor for v in aux_vars]
        return vs[0] * vs[1] - vs[1]

    def other(optim_vars, aux_vars):
        vs = [v.tensor for v in optim_vars] + [v.tensor for v in aux_vars]
        return vs[0] + 2 * vs[1]

    def auto(ov, av, fn, name, mode="dense", w=None):
        return th.AutoDiffCostFunction(ov, fn, 1, cost_weight=w or s, aux_vars=av, name=name, autograd_mode=mode)
    if kind == "split":
        cfs = [auto([x, y], [], allv, "c0"), auto([z], [t], allv, "c1"), auto([y, x], [], allv, "c2"), auto([x], [t], allv, "c3")]
    elif kind == "functions":
        cfs = [auto([x, y], [], allv, "c0"), auto([y, z], [], other, "c1"), auto([z, x], [], allv, "c2"), auto([x, y], [], other, "c3")]
    elif kind == "modes":
        cfs = [auto([x, y], [], allv, "c0", "vmap"), auto([y, z], [], allv, "c1", "dense"), auto([z, x], [], allv, "c2", "loop_batch")]
    elif kind == "weights":
        cfs = [auto([x, y], [], allv, "c0", w=s), auto([y, z], [], allv, "c1", w=d), auto([z, x], [], allv, "c2", w=th.ScaleCostWeight(A("s2", bb=b))),
               auto([x, z], [], allv, "c3", w=th.DiagonalCostWeight(A("d2", bb=b)))]
    elif kind == "dims":
        u, v = V("u", 2), V("v", 2)
        w2 = th.ScaleCostWeight(A("s3"))
        cfs = [th.Difference(x, t, s, name="c0"), th.Difference(u, V("t2", 2), s, name="c1"), th.Difference(y, t, w2, name="c2"), th.Difference(v, V("t3", 2), s, name="c3")]
    elif kind == "types":
        p, q = th.Point2(tensor=cx.real("p", b, 2), name="p"), th.Point2(tensor=cx.real("q", b, 2), name="q")
        u, v = V("u", 2), V("v", 2)
        cfs = [th.Between(u, v, V("m", 2), s, name="c0"), th.Between(p, q, th.Point2(tensor=cx.real("n", 1, 2), name="n"), s, name="c1"), th.Difference(u, v.copy(new_name="vv"), s, name="c2"),
               th.Local(v, V("t2", 2), s, name="c3")]
    elif kind == "shared":
        cfs = [auto([x, y], [t], lambda optim_vars, aux_vars: optim_vars[0].tensor * optim_vars[1].tensor + aux_vars[0].tensor, "c0")]
        fn = cfs[0]._err_fn
        cfs += [auto([x, z], [t], fn, "c1"), auto([x, y], [t], fn, "c2")]
    elif kind == "swapped":
        fn = lambda optim_vars, aux_vars: optim_vars[0].tensor * 2 + optim_vars[1].tensor ** 2 * aux_vars[0].tensor
        cfs = [auto([x, y], [t], fn, "c0"), auto([y, x], [t], fn, "c1"), auto([x, z], [V("t1")], fn, "c2")]
    elif kind.startswith("robust"):
        r, r2 = A("r"), A("r2")
        mk = lambda i, a, bb: auto([a, bb], [], allv, "i%d" % i)
        if kind == "robust.radius":
            cfs = [th.RobustCostFunction(mk(0, x, y), th.WelschLoss, r, name="c0"), th.RobustCostFunction(mk(1, y, z), th.WelschLoss, r2, name="c1"), mk(2, z, x)]
        elif kind == "robust.loss":
            cfs = [th.RobustCostFunction(mk(0, x, y), th.WelschLoss, r, name="c0"), th.RobustCostFunction(mk(1, y, z), th.HuberLoss, r, name="c1"),
                   th.RobustCostFunction(mk(2, z, x), th.WelschLoss, r, name="c2")]
        else:
            fn2 = lambda optim_vars, aux_vars: torch.cat([optim_vars[0].tensor, optim_vars[1].tensor * 2], 1)
            m2 = lambda i, a, bb: th.AutoDiffCostFunction([a, bb], fn2, 2, cost_weight=s, name="i%d" % i, autograd_mode="dense")
            cfs = [th.RobustCostFunction(m2(0, x, y), th.WelschLoss, r, name="c0", flatten_dims=True), th.RobustCostFunction(m2(1, y, z), th.WelschLoss, r, name="c1", flatten_dims=False),
                   th.RobustCostFunction(m2(2, z, x), th.WelschLoss, r, name="c2", flatten_dims=True)]
    obj = th.Objective(dtype=torch.float64)
    for c in cfs:
        obj.add(c)
    obj.update()
    th.Vectorize(obj)
    served_ok(cx, obj)


def masked(cx, wk, batch, mode="dense"):
    """weights that may be zero in any element"""
    xs = [th.Vector(tensor=cx.real("x%d" % i, batch, 1), name="x%d" % i) for i in range(2)]
    a = th.Variable(cx.real("a", 1, 1), name="a")

    def fn(optim_vars, aux_vars):
        return torch.cat([optim_vars[0].tensor ** 2 * aux_vars[0].tensor, optim_vars[0].tensor - 3 + 0 * aux_vars[0].tensor], 1)
    obj = th.Objective(dtype=torch.float64)
    for i, x in enumerate(xs):
        if wk == "scale":
            w = th.ScaleCostWeight(th.Variable(cx.real("w%d" % i, batch, 1), name="w%d" % i))
        else:
            w = th.DiagonalCostWeight(th.Variable(cx.real("w%d" % i, batch, 2), name="w%d" % i))
        obj.add(th.AutoDiffCostFunction([x], fn, 2, cost_weight=w, aux_vars=[a], name="c%d" % i, autograd_mode=mode))
    obj.update()
    th.Vectorize(obj)
    served_ok(cx, obj)


def hist(cx, steps, ops, batch=2, first=None):
    """histories of operations on a vectorized objective"""
    cnt = [0]

    def fresh(n, k, d=1, b=batch):
        cnt[0] += 1
        return cx.real("%s_%d" % (n, cnt[0]), b, d)
    x, y = [th.Vector(tensor=fresh(n, 0), name=n) for n in "xy"]
    a, b = [th.Variable(fresh(n, 0, b=1), name=n) for n in "ab"]
    s = th.Variable(fresh("s", 0, b=1), name="s")

    def fn(optim_vars, aux_vars):
        return optim_vars[0].tensor * optim_vars[1].tensor ** 2 + aux_vars[0].tensor * optim_vars[0].tensor
    obj = th.Objective(dtype=torch.float64)
    W = th.ScaleCostWeight(s)
    for i, (u, v, c) in enumerate(((x, y, a), (y, x, b), (x, y, b))):
        obj.add(th.AutoDiffCostFunction([u, v], fn, 1, cost_weight=W, aux_vars=[c], name="c%d" % i, autograd_mode="dense"))
    obj.add(th.Difference(x, th.Vector(tensor=fresh("t", 0), name="t"), W, name="c3"))
    early = pick(cx, "early", 2)
    if early:
        obj.update()
    th.Vectorize(obj)
    if not early:
        obj.update()
    vars = dict(x=x, y=y, a=a, b=b, s=s)
    for t in range(steps):
        todo = (first or ops) if t == 0 else ops
        op = todo[pick(cx, "op%d" % t, len(todo))]
        cur = {n: v.tensor for n, v in vars.items()}
        if op == "update.x":
            cur["x"] = fresh("x", t)
            obj.update({"x": cur["x"]})
        elif op == "update.ab":
            cur["a"], cur["b"] = fresh("a", t), fresh("b", t, b=1)
            obj.update({"a": cur["a"], "b": cur["b"]})
        elif op == "var.y":
            cur["y"] = fresh("y", t, b=obj.batch_size)
            y.update(cur["y"])
        elif op == "var.s":
            cur["s"] = fresh("s", t, b=obj.batch_size)
            s.update(cur["s"])
        elif op == "temp":
            obj.error({"x": fresh("x", t), "s": fresh("s", t)})
        elif op == "perm":
            cur["y"] = fresh("y", t)
            obj.error({"y": cur["y"]}, also_update=True)
        elif op == "retract":
            d = fresh("d", t, 2, b=obj.batch_size)
            cur["x"], cur["y"] = cur["x"] + d[:, 1:2], cur["y"] + d[:, :1]
            obj.retract_vars_sequence(d, [y, x])
        elif op == "serve":
            with torch.no_grad():
                list(obj._get_jacobians_iter())
        elif op == "lin":
            from theseus.optimizer import DenseLinearization
            DenseLinearization(obj).linearize()
        elif op == "size":
            cur = {n: fresh(n, t, b=1) for n in cur}
            obj.update({**cur, "t": fresh("t", t, b=1)})
            cx.same(obj.batch_size, 1, "batch size")
        elif op == "again":
            th.Vectorize(obj)
        elif op == "off":
            obj.disable_vectorization()
            cx.same(obj.vectorized, False, "vectorization disabled")
            th.Vectorize(obj)
        for n, v in vars.items():
            cx.eq(v.tensor, cur[n], "value of the variable")
        if not (t < steps - 1 and pick(cx, "look%d" % t, 2)):
            served_ok(cx, obj, "history: ")


def grads(cx, steps, kind):
    """what is served carries the gradients of evaluating each cost function alone, whatever was done before with or without gradients"""
    cnt = [0]

    def leaf(n, d=1, b=2, grad=True):
        cnt[0] += 1
        t = cx.real("%s_%d" % (n, cnt[0]), b, d)
        if n == "s":
            cx.assume(t.abs() > 1e-3)     # (rows of weight zero are skipped on purpose)
        return t.detach().clone().requires_grad_(True) if grad else t
    x, y = [th.Vector(tensor=leaf(n, grad=False), name=n) for n in "xy"]
    a = th.Variable(leaf("a"), name="a")
    s = th.Variable(leaf("s", b=1), name="s")

    def fn(optim_vars, aux_vars):
        return optim_vars[0].tensor ** 2 * aux_vars[0].tensor
    obj = th.Objective(dtype=torch.float64)
    W = th.ScaleCostWeight(s)
    for i, v in enumerate((x, y)):
        if kind == "auto":
            obj.add(th.AutoDiffCostFunction([v], fn, 1, cost_weight=W, aux_vars=[a], name="c%d" % i, autograd_mode="dense"))
        else:
            t = th.Vector(tensor=leaf("t"), name="t%d" % i)
            obj.add(th.Difference(v, t, W, name="c%d" % i))
    th.Vectorize(obj)
    obj.update()
    ops = ("update.x", "update.a", "retract", "serve", "error")
    for k in range(steps):
        op = ops[pick(cx, "op%d" % k, len(ops))]
        with torch.set_grad_enabled(bool(pick(cx, "grad%d" % k, 2))):
            if op == "update.x":
                obj.update({"x": leaf("x", grad=False)})
            elif op == "update.a":
                obj.update({"a": leaf("a"), "s": leaf("s", b=1)})
            elif op == "retract":
                obj.retract_vars_sequence(leaf("d", 2, grad=False), [x, y])
            elif op == "serve":
                list(obj._get_jacobians_iter())
            elif op == "error":
                obj.error()
    leaves = [v.tensor for v in obj.aux_vars.values()] + [s.tensor]
    alone = [quiet(c.weighted_jacobians_error) for c in obj.cost_functions.values()]
    err = [quiet(c.weighted_error) for c in obj.cost_functions.values()]

    def same(got, want, lab):
        cx.same(bool(got.requires_grad), bool(want.requires_grad), lab + " is part of the graph")
        if want.requires_grad and got.requires_grad:
            w = torch.tensor([[1.0], [3.0]], dtype=torch.float64)[:want.shape[0]]
            for g, h, l in zip(torch.autograd.grad((got.flatten(1) * w).sum(), leaves, allow_unused=True, retain_graph=True),
                               torch.autograd.grad((want.flatten(1) * w).sum(), leaves, allow_unused=True, retain_graph=True), leaves):
                z = torch.zeros(tuple(l.shape), dtype=l.dtype)
                cx.eq(z if g is None else g, z if h is None else h, "gradient of " + lab)
    for w, (J, e) in zip(list(obj._get_jacobians_iter()), alone):
        J2, e2 = w.weighted_jacobians_error()
        same(e2, e, "the error of the linearization")
        for g, h in zip(J2, J):
            same(ex(g, 2), ex(h, 2), "the jacobian")
    e = quiet(obj.error)
    same(e[:, :1], err[0], "the error of the objective")
    same(e[:, 1:], err[1], "the error of the objective")


TYPES = {"V1": (th.Vector, 1), "V2": (th.Vector, 2), "P2": (th.Point2, 2), "P3": (th.Point3, 3)}


def retract(cx, types, batches, nd, mask=None, force=False, perm=None):
    """vectorized retraction against retracting each variable"""
    import lie
    vs = []
    for i, (ty, b) in enumerate(zip(types, batches)):
        n = "v%d" % i
        if ty in TYPES:
            C, d = TYPES[ty]
            t = cx.real(n, b, d)
            vs.append((lambda C=C, t=t, n=n: C(tensor=t, name=n)))
        else:
            t = lie.Elem(cx, ty, n, b).data
            vs.append((lambda t=t, n=n, ty=ty: lie.CLS[ty](tensor=t, name=n, disable_checks=True)))
    one, two, ref = [v() for v in vs], [v() for v in vs], [v() for v in vs]
    order = perm or list(range(len(vs)))
    dof = sum(v.dof() for v in one)
    d = cx.real("d", nd, dof)
    n = max([nd] + list(batches))
    m = None if mask is None else cx.real("m", n) > 0
    kw = dict(ignore_mask=m, force_update=force)
    with torch.no_grad():
        th.Objective._retract_base(d, [one[k] for k in order], **kw)
        th.Vectorize._vectorized_retract_optim_vars(d, (two[k] for k in order), **kw)
        for k, v in enumerate(one):
            cx.eq(ex(two[k].tensor, n), ex(v.tensor, n), "vectorized retraction")
        # each variable alone with its own slice
        at = 0
        for k in order:
            sl = d[:, at:at + ref[k].dof()]
            at += ref[k].dof()
            new = ref[k].retract(sl).tensor
            old = ex(ref[k].tensor, n)
            if m is not None and not force:
                new = torch.stack([torch.where(m[b], old[b], ex(new, n)[b]) for b in range(n)])
            cx.eq(ex(two[k].tensor, n), ex(new, n), "each variable moves by its own slice")


def layer(cx, batches, opt="GaussNewton"):
    """a vectorized and a plain layer return the same for variables of different batch sizes"""
    from native import installed
    with installed(cuda=False):
        res = []
        xs = {n: cx.real(n, b, 1) for n, b in batches.items()}
        for vec in (False, True):
            x, y = th.Vector(1, name="x", dtype=torch.float64), th.Vector(1, name="y", dtype=torch.float64)
            t = th.Vector(1, name="t", dtype=torch.float64)
            w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1).double() * 2, name="w"))
            obj = th.Objective(dtype=torch.float64)
            obj.add(th.Difference(x, t, w, name="c0"))
            obj.add(th.Difference(y, t, w, name="c1"))
            obj.add(th.Between(x, y, th.Vector(tensor=torch.ones(1, 1).double(), name="m"), w, name="c2"))
            L = th.TheseusLayer(getattr(th, opt)(obj, max_iterations=2, linear_solver_cls=th.LUDenseSolver), vectorize=vec)
            cx.same(obj.vectorized, vec, "vectorized as requested")
            with torch.no_grad():
                vals, info = L.forward(xs, optimizer_kwargs=dict(track_err_history=True, track_best_solution=True))
            res.append((vals, info))
        (v0, i0), (v1, i1) = res
        for n in v0:
            cx.eq(v1[n], v0[n], "solution", tol=1e-9)
            cx.eq(i1.best_solution[n], i0.best_solution[n], "best solution", tol=1e-9)
        cx.eq(i1.err_history, i0.err_history, "errors", tol=1e-9)


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    K = dict(auto=("x", "y", "z", "a", "s"), diff=("x", "y", "t", "s", "s2"), diffself=("x", "t", "u", "d"), local=("x", "y", "t", "s"), between=("x", "y", "z", "m", "s"),
             moving=("f", "g", "x", "m", "s"), mixed=("x", "t", "m", "s", "r"),
             crossed=("x", "y", "t", "r"))
    for k, names in K.items():
        add("kind." + k, kinds, kind=k, vary=names)
        add("kind.%s.b2" % k, kinds, kind=k, b0=2)
    for k in ("dint", "gp", "nonhol", "reproj"):
        add("kind.%s.b2" % k, kinds, kind=k, b0=2)
        add("kind.%s.b1" % k, kinds, kind=k, b0=1)
    for nm, names in (("x", ("x", "s")), ("lo", ("lo", "x")), ("th", ("th", "hi"))):
        add("kind.hinge." + nm, kinds, kind="hinge", vary=names)
    for k, names in (("dint", ("p", "v", "q", "u", "dt")), ("gp", ("p", "v", "u", "dt")), ("nonhol", ("p", "v", "q", "s")), ("reproj", ("P", "f"))):
        add("kind.%s.mix" % k, kinds, kind=k, vary=names)
    add("kind.dint.dt", kinds, kind="dint", b0=2, vary=("dt", "s"))
    add("kind.gp.dt", kinds, kind="gp", b0=2, vary=("dt",))
    add("kind.gp.dt2", kinds, kind="gp", b0=2, kw=dict(wdt="dt2"), vary=("dt", "dt2"))
    add("kind.auto.loop", kinds, kind="auto", kw=dict(mode="loop_batch"), vary=("x", "a", "s"))
    add("kind.auto.vmap", kinds, kind="auto", kw=dict(mode="vmap"), vary=("x", "a", "s"))
    add("kind.auto+diff", kinds, kind="auto", extra="diff", vary=("x", "t", "a"))
    add("kind.diff+between", kinds, kind="between", extra="diff", vary=("x", "t", "m"))
    for inner in ("diff", "between", "auto"):
        add("kind.robust." + inner, kinds, kind="robust", kw=dict(inner=inner, loss="WelschLoss"), vary=("x", "t", "m", "a", "r"))
    add("kind.robust.flat", kinds, kind="robust", kw=dict(inner="diff", loss="WelschLoss", flatten=True), vary=("x", "t", "r"))
    add("kind.robust.gnc", kinds, kind="robust", kw=dict(inner="diff", loss="GNC"), vary=("x", "r", "mu"))
    for c in ("split", "functions", "modes", "weights", "dims", "types", "shared", "swapped", "robust.radius", "robust.loss", "robust.flat"):
        add("alike." + c, collide, kind=c)
    for wk in ("scale", "diag"):
        for b in (1, 2):
            add("zero.%s.b%d" % (wk, b), masked, wk=wk, batch=b)
    add("zero.scale.loop", masked, wk="scale", batch=2, mode="loop_batch")
    add("zero.scale.vmap", masked, wk="scale", batch=2, mode="vmap")
    OPS = ["update.x", "update.ab", "var.y", "var.s", "temp", "perm", "retract", "serve", "lin", "size", "again", "off"]
    for o in range(0, len(OPS), 2):
        add("hist.2.%s" % OPS[o], hist, steps=2, ops=OPS, first=OPS[o:o + 2])
    for k in ("auto", "diff"):
        add("grads.%s" % k, grads, steps=2, kind=k)
    cache = ["var.y", "temp", "retract", "serve"]
    for o in cache:
        add("hist.cache.3.%s" % o, hist, steps=3, ops=cache, first=[o])
    size = ["update.x", "size", "temp"]
    for o in size:
        add("hist.size.3.%s" % o, hist, steps=3, ops=size, batch=2, first=[o])
    for nm, types, b in (("vec", ("V2", "V1", "V2"), (2, 2, 2)), ("one", ("V2", "V1", "V2"), (1, 2, 1)), ("allone", ("V1", "V1", "P2"), (1, 1, 1)), ("points", ("P2", "V2", "P3", "V1", "P2"), (2, 1, 2, 2, 2)),
                         ("so2", ("SO2", "V1", "SO2"), (2, 2, 1)), ("se2", ("SE2", "P2", "SE2"), (2, 2, 2)), ("so3", ("SO3", "SO3"), (1, 2)), ("se3", ("SE3", "V2", "SE3"), (1, 1, 1))):
        lie_ = types[0] in ("SO3", "SE3", "SE2")
        add("retract.%s" % nm, retract, types=types, batches=b, nd=2 if nm != "se3" else 1)
        add("retract.%s.mask" % nm, retract, types=types, batches=b, nd=2 if nm != "se3" else 1, mask=True)
        add("retract.%s.force" % nm, retract, types=types, batches=b, nd=2 if nm != "se3" else 1, mask=True, force=True)
        if not lie_:
            add("retract.%s.perm" % nm, retract, types=types, batches=b, nd=2, mask=True, perm=list(range(len(types)))[::-1])
    add("retract.d1", retract, types=("V2", "V1"), batches=(2, 2), nd=1)
    add("retract.b3", retract, types=("V1", "P2", "V1"), batches=(3, 1, 3), nd=3, mask=True)
    for b in (dict(x=1, y=2, t=2), dict(x=1, y=1, t=2), dict(x=2, y=2, t=1), dict(x=2, y=1, t=1)):
        add("layer.%s" % "".join("%s%d" % i for i in b.items()), layer, batches=b)
    add("layer.lm", layer, batches=dict(x=1, y=2, t=2), opt="LevenbergMarquardt")
    if tier != "quick":
        for o in OPS:
            add("hist.3.%s" % o, hist, steps=3, ops=OPS, first=[o], opts=dict(max_paths=20000, budget=800))
        for o in cache:
            add("hist.cache.4.%s" % o, hist, steps=4, ops=cache + ["var.s"], first=[o], opts=dict(max_paths=20000, budget=800))
    return out
