"""P17: an objective mirrors the cost functions it contains."""
import warnings

import torch

import theseus as th
from hist import *  # noqa

PROPERTY = "P17"
EXPLAIN = ("histories of add, erase and copy over pools of cost functions that share variables, auxiliary variables and weights: every operation of a history is a "
           "symbolic choice; after each operation the objective's cost functions, variables, connection lists and weights are those of the contained "
           "cost functions, and its error is the expected one over symbolic values. Refused additions leave every container unchanged; copies of every "
           "kind of cost function follow their own variables only.")
BOUNDS = ("histories of up to 3 operations over 8 choices and 4-5 over 5 choices (thorough: 4 over 8, 6 over 5); refused additions: every kind of conflict and position; copies: "
          "every built-in cost function, automatic differentiation, robust and nested robust costs, weights shared or not, followed by symbolic updates of either side")
ASSUMPTIONS = ["a weight that registers optimization variables raises RuntimeError after being added (existing tests rely on it), and is left out",
               "cost functions are not given another weight while they are in an objective"]
BUDGET = 110


def fsum(optim_vars, aux_vars):
    return sum(v.tensor for v in optim_vars) * aux_vars[0].tensor + sum(v.tensor for v in aux_vars[1:])


def cost(ov, av, w, name):
    return th.AutoDiffCostFunction(ov, fsum, 1, cost_weight=w, aux_vars=av, name=name)


class Pool:
    """four cost functions over shared variables; the weight of two of them is shared, and an auxiliary
    variable is used by costs and by a weight"""

    def __init__(self, cx):
        def V(n):
            return th.Vector(tensor=cx.real(n, 1, 1), name=n)

        def A(n):
            return th.Variable(cx.real(n, 1, 1), name=n)
        self.x, self.y, self.z = V("x"), V("y"), V("z")
        self.a, self.b, self.s = A("a"), A("b"), A("s")
        w1 = th.ScaleCostWeight(self.s)
        w2 = th.ScaleCostWeight(self.b)
        self.costs = [cost([self.x], [self.a], w1, "A"), cost([self.y, self.x], [self.a, self.b], w1, "B"),
                      cost([self.z, self.y], [self.s], w2, "C"), cost([self.z], [self.a, self.s], w2, "D")]


def value(cf):
    e = sum(v.tensor for v in cf.optim_vars) * list(cf.aux_vars)[0].tensor + sum([v.tensor for v in list(cf.aux_vars)[1:]], torch.zeros(1, 1).double())
    return e * next(iter(cf.weight.aux_vars)).tensor


def uniq(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out):
            out.append(x)
    return out


def ids(xs):
    return [id(x) for x in xs]


def invariants(cx, obj, cur, lab=""):
    """cur: the cost functions that should be in the objective, in insertion order"""
    cx.same(list(obj.cost_functions.keys()), [c.name for c in cur], lab + "names of the cost functions, in insertion order")
    cx.agree(ids(obj.cost_functions.values()), ids(cur), lab + "the cost functions, in insertion order")
    cx.agree(ids(iter(obj)), ids(cur), lab + "iteration over the cost functions")
    weights = uniq(c.weight for c in cur)
    ov = uniq(v for c in cur for v in c.optim_vars)
    av = uniq([v for c in cur for v in c.aux_vars] + [v for w in weights for v in w.aux_vars])
    wv = uniq(v for w in weights for v in w.optim_vars)
    for nm, d, want in (("optimization", obj.optim_vars, ov), ("auxiliary", obj.aux_vars, av), ("weight optimization", obj.cost_weight_optim_vars, wv),
                        ("all", obj._all_variables, uniq(ov + av + wv))):
        cx.agree(sorted(ids(d.values())), sorted(ids(want)), lab + nm + " variables are those of the contained cost functions")
        cx.same(sorted(d.keys()), sorted(v.name for v in want), lab + "names of the " + nm + " variables")
        cx.true(all(d[v.name] is v for v in want), lab + "names identify the variables")
    for nm, m, want in (("optimization", obj.functions_for_optim_vars, ov + wv), ("auxiliary", obj.functions_for_aux_vars, av)):
        cx.agree(sorted(ids(m.keys())), sorted(ids(want)), lab + "variables with connected functions: " + nm)
        for v in want:
            fns = [f for f in cur + weights for u in (f.optim_vars if nm == "optimization" else f.aux_vars) if u is v]
            cx.agree(sorted(ids(m[v])), sorted(ids(fns)), lab + "functions connected to the " + nm + " variable")
            cx.agree([id(f) for f in m[v] if f in cur], [id(f) for f in fns if f in cur], lab + "order of the connected cost functions")
    cx.agree(sorted(ids(obj.cost_functions_for_weights.keys())), sorted(ids(weights)), lab + "weights")
    for w in weights:
        cx.agree(ids(obj.cost_functions_for_weights[w]), [id(c) for c in cur if c.weight is w], lab + "cost functions of the weight")
    cx.same(obj.size(), (len(cur), len(ov)), lab + "size")
    cx.same((obj.size_cost_functions(), obj.size_variables(), obj.size_aux_vars(), obj.dim()), (len(cur), len(ov), len(av), sum(c.dim() for c in cur)), lab + "sizes")
    for v in ov:
        cx.true(obj.has_optim_var(v.name) and obj.get_optim_var(v.name) is v, lab + "get_optim_var")
        cx.agree(ids(obj.get_functions_connected_to_optim_var(v.name)), ids(obj.functions_for_optim_vars[v]), lab + "connected functions by name")
    for v in av:
        cx.true(obj.has_aux_var(v.name) and obj.get_aux_var(v.name) is v, lab + "get_aux_var")
    for c in cur:
        cx.true(obj.has_cost_function(c.name) and obj.get_cost_function(c.name) is c, lab + "get_cost_function")


def snapshot(obj):
    return [[(k, id(v)) for k, v in d.items()] for d in (obj.cost_functions, obj.optim_vars, obj.aux_vars, obj.cost_weight_optim_vars, obj._all_variables)] + \
        [[(id(k), ids(v)) for k, v in d.items()] for d in (obj.functions_for_optim_vars, obj.functions_for_aux_vars, obj.cost_functions_for_weights)]


def hist(cx, steps, costs, copies, vec=False):
    p = Pool(cx)
    pool = [p.costs[i] for i in costs]
    obj = th.Objective(dtype=torch.float64)
    cur = []
    opt = None
    n = len(pool)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t in range(steps):
            k = pick(cx, "op%d" % t, 2 * n + (1 if copies else 0))
            before, ver = snapshot(obj), obj.current_version
            if k < n:
                again = any(c is pool[k] for c in cur)
                obj.add(pool[k])
                if again:
                    cx.agree(snapshot(obj), before, "adding a contained cost function again changes nothing")
                else:
                    cur.append(pool[k])
            elif k < 2 * n:
                had = pool[k - n].name in [c.name for c in cur]
                obj.erase(pool[k - n].name)
                if not had:
                    cx.agree(snapshot(obj), before, "erasing an unknown cost function changes nothing")
                cur = [c for c in cur if c.name != pool[k - n].name]
            else:
                new = obj.copy()
                cx.agree(snapshot(obj), before, "copying changes nothing")
                cx.agree(ids(new.cost_functions.values()) == ids(cur) and bool(cur), False, "copied cost functions")
                mine = ids(list(new._all_variables.values()) + list(new.cost_functions_for_weights))
                theirs = ids(list(obj._all_variables.values()) + list(obj.cost_functions_for_weights))
                cx.agree(set(mine) & set(theirs), set(), "a copy shares no variable and no weight")
                m = {c.name: c for c in new.cost_functions.values()}
                cx.same(sorted(m), sorted(c.name for c in cur), "cost functions of the copy")
                cx.same([[u.name for u in list(c.optim_vars) + list(c.aux_vars) + list(c.weight.aux_vars)] for c in cur],
                        [[u.name for u in list(m[c.name].optim_vars) + list(m[c.name].aux_vars) + list(m[c.name].weight.aux_vars)] for c in cur], "variables of the copied cost functions")
                for nm, v in obj._all_variables.items():
                    cx.eq(new._all_variables[nm].tensor, v.tensor, "value of the copied variable")
                # the objective under test is now the copy
                pool = [m.get(c.name, c) for c in pool] if all(c.name in m for c in pool) else None
                cur = [m[c.name] for c in cur]
                obj = new
                invariants(cx, obj, cur)
                if pool is None:
                    # further additions would mix originals and copies
                    break
                continue
            if opt is not None and snapshot(obj) != before:
                cx.raises(RuntimeError, lambda: opt.optimize(), "an optimizer refuses an objective modified after its construction")
                opt = None
            if snapshot(obj) != before:
                cx.true(obj.current_version != ver, "version")
            if cur:
                opt = th.GaussNewton(obj, max_iterations=1) if t == 0 else opt
            invariants(cx, obj, cur)
    if cur:
        obj.update()
        if vec:
            th.Vectorize(obj)
        cx.eq(obj.error(), torch.cat([value(c) for c in cur], 1), "error is the one of the contained cost functions")


CONFLICTS = ["cost name", "optim name", "aux name", "weight name", "optim as aux", "aux as optim", "weight aux as optim", "optim as weight aux",
             "optim dtype", "aux dtype", "weight dtype", "own names", "own optim aux", "own optim weight"]


def refuse(cx, first):
    """every conflict, after one of the cost functions of the pool, in a cost function that also brings new variables"""
    p = Pool(cx)
    obj = th.Objective(dtype=torch.float64)
    cur = [p.costs[i] for i in first]
    for c in cur:
        obj.add(c)
    kind = CONFLICTS[pick(cx, "conflict", len(CONFLICTS))]
    late = bool(pick(cx, "late", 2))      # the conflicting variable comes after valid ones

    def V(n, dt=torch.float64):
        return th.Vector(tensor=torch.ones(1, 1, dtype=dt), name=n)

    def A(n, dt=torch.float64):
        return th.Variable(torch.ones(1, 1, dtype=dt), name=n)
    n1, n2, m1 = V("n1"), V("n2"), A("m1")
    ov, av, wv, name = [n1], [m1], A("m3"), "N"
    exo = list(obj.optim_vars)[0]
    exa = list(cur[0].aux_vars)[0].name
    exw = list(cur[0].weight.aux_vars)[0].name
    if kind == "cost name":
        name = cur[0].name
    elif kind == "optim name":
        ov.append(V(exo))
    elif kind == "aux name":
        av.append(A(exa))
    elif kind == "weight name":
        wv = A(exw)
    elif kind == "optim as aux":
        av.append(obj.optim_vars[exo])
    elif kind == "aux as optim":
        u = V("shared")
        c0 = cost([V("q")], [A("m9"), u], th.ScaleCostWeight(A("m8")), "E")
        obj.add(c0)
        cur.append(c0)
        ov.append(u)
    elif kind == "weight aux as optim":
        u = V("shared")
        c0 = cost([V("q")], [A("m9")], th.ScaleCostWeight(u), "E")
        obj.add(c0)
        cur.append(c0)
        ov.append(u)
    elif kind == "optim as weight aux":
        wv = obj.optim_vars[exo]
    elif kind == "optim dtype":
        ov.append(V("n3", torch.float32))
    elif kind == "aux dtype":
        av.append(A("m4", torch.float32))
    elif kind == "weight dtype":
        wv = A("m3", torch.float32)
    elif kind == "own names":
        wv = A("m1")
    elif kind == "own optim aux":
        wv = n1
    elif kind == "own optim weight":
        wv = V("n1")
    if not late:
        ov, av = ov[::-1], av[::-1]
    bad = cost(ov, av, th.ScaleCostWeight(wv), name)
    before, ver = snapshot(obj), obj.current_version
    cx.raises(ValueError, lambda: obj.add(bad), "a conflicting addition is refused")
    cx.agree(snapshot(obj), before, "a refused addition does not alter the objective")
    invariants(cx, obj, cur, "after a refused addition: ")
    good = cost([V("n1"), obj.optim_vars[exo]], [A("m1")], th.ScaleCostWeight(A("m3")), "N")
    obj.add(good)
    invariants(cx, obj, cur + [good], "addition after a refused one: ")
    obj.update()
    cx.eq(obj.error(), torch.cat([value(c) for c in cur + [good]], 1), "error after a refused addition")
    obj.erase("N")
    invariants(cx, obj, cur, "erased again: ")


class Makers:
    """pairs of cost functions of each kind that share variables"""

    def __init__(self, cx, batch=lambda n: 1):
        self.cx = cx
        self.v = {}
        self.batch = batch

    def vec(self, n, d=2, cls=None, **kw):
        if n not in self.v:
            self.v[n] = (cls or th.Vector)(tensor=self.cx.real(n, self.batch(n), d, **kw), name=n)
        return self.v[n]

    def var(self, n, *shape, **kw):
        if n not in self.v:
            self.v[n] = th.Variable(self.cx.real(n, self.batch(n), *shape[1:], **kw), name=n)
        return self.v[n]

    def w(self, n):
        k = "W" + n
        if k not in self.v:
            self.v[k] = th.ScaleCostWeight(self.var(n, 1, 1))
        return self.v[k]

    def lie(self, n, G):
        import lie
        if n not in self.v:
            self.v[n] = lie.CLS[G](tensor=lie.Elem(self.cx, G, n, self.batch(n)).data, name=n, disable_checks=True)
        return self.v[n]

    # each returns two cost functions
    def auto(self, mode="dense"):
        def f(optim_vars, aux_vars):
            return optim_vars[0].tensor * aux_vars[0].tensor - optim_vars[1].tensor ** 2
        return [th.AutoDiffCostFunction([self.vec("x"), self.vec("y")], f, 2, cost_weight=self.w("s"), aux_vars=[self.var("a", 1, 2)], autograd_mode=mode, name="c0"),
                th.AutoDiffCostFunction([self.vec("y"), self.vec("z")], f, 2, cost_weight=self.w("s"), aux_vars=[self.var("a", 1, 2)], autograd_mode=mode, name="c1")]

    def diff(self):
        return [th.Difference(self.vec("x"), self.vec("t"), self.w("s"), name="c0"), th.Difference(self.vec("y"), self.vec("t"), self.w("s2"), name="c1")]

    def diffself(self):
        return [th.Difference(self.vec("x"), self.vec("t"), th.DiagonalCostWeight(self.var("d", 1, 2)), name="c0"),
                th.Difference(self.vec("x"), self.vec("u"), th.DiagonalCostWeight(self.var("d", 1, 2)), name="c1")]

    def local(self):
        return [th.Local(self.vec("x"), self.vec("t"), self.w("s"), name="c0"), th.Local(self.vec("y"), self.vec("t"), self.w("s"), name="c1")]

    def between(self):
        return [th.Between(self.vec("x"), self.vec("y"), self.vec("m"), self.w("s"), name="c0"), th.Between(self.vec("y"), self.vec("z"), self.vec("m"), self.w("s"), name="c1")]

    def moving(self):
        return [th.eb.MovingFrameBetween(self.vec("f"), self.vec("g"), self.vec("x"), self.vec("y"), self.vec("m"), self.w("s"), name="c0"),
                th.eb.MovingFrameBetween(self.vec("f"), self.vec("g"), self.vec("y"), self.vec("z"), self.vec("m"), self.w("s"), name="c1")]

    def dint(self):
        return [th.eb.DoubleIntegrator(self.vec("p"), self.vec("v"), self.vec("q"), self.vec("u"), self.var("dt", 1, 1, pos=True), self.w("s"), name="c0"),
                th.eb.DoubleIntegrator(self.vec("q"), self.vec("u"), self.vec("r"), self.vec("o"), self.var("dt", 1, 1, pos=True), self.w("s"), name="c1")]

    def gp(self, wdt="dt"):
        import numpy  # noqa
        Q = self.v.get("Q") or th.Variable(self.cx.const(torch.eye(2).double()[None] * 4), name="Q")
        self.v["Q"] = Q
        W = th.eb.GPCostWeight(Q, self.var(wdt, 1, 1, pos=True))
        return [th.eb.GPMotionModel(self.vec("p"), self.vec("v"), self.vec("q"), self.vec("u"), self.var("dt", 1, 1, pos=True), W, name="c0"),
                th.eb.GPMotionModel(self.vec("q"), self.vec("u"), self.vec("r"), self.vec("o"), self.var("dt", 1, 1, pos=True), W, name="c1")]

    def hinge(self):
        lo, hi = self.var("lo", 1, 1), self.var("hi", 1, 1)
        self.cx.assume(lo.tensor < hi.tensor)
        return [th.eb.HingeCost(self.vec("x", 1), lo, hi, self.var("th", 1, 1, pos=True), self.w("s"), name="c0"),
                th.eb.HingeCost(self.vec("y", 1), lo, hi, self.var("th", 1, 1, pos=True), self.w("s"), name="c1")]

    def nonhol(self):
        return [th.eb.Nonholonomic(self.vec("p", 3), self.vec("v", 3), self.w("s"), name="c0"), th.eb.Nonholonomic(self.vec("q", 3), self.vec("v", 3), self.w("s"), name="c1")]

    def reproj(self):
        T, c = self.lie("T", "SE3"), self.lie("C", "SE3")
        P = self.vec("P", 3, th.Point3)
        for X in (T, c):
            self.cx.assume((X.tensor[0, 2, :3] * P.tensor[0]).sum() + X.tensor[0, 2, 3] > 0)
        return [th.eb.Reprojection(T, self.vec("P", 3, th.Point3), self.vec("i", 2, th.Point2), self.vec("f", 1), calib_k1=self.vec("k1", 1), calib_k2=self.vec("k2", 1), weight=self.w("s"), name="c0"),
                th.eb.Reprojection(c, self.vec("P", 3, th.Point3), self.vec("i", 2, th.Point2), self.vec("f", 1), calib_k1=self.vec("k1", 1), calib_k2=self.vec("k2", 1), weight=self.w("s"), name="c1")]

    def robust(self, inner="diff", loss="HuberLoss", flatten=False, **kw):
        out = []
        for i, c in enumerate(getattr(self, inner)(**kw)):
            c.name = "in%d" % i
            r = self.var("r", 1, 1)
            if loss.startswith("GNC"):
                out.append(th.GNCRobustCostFunction(c, th.GemanMcClureLoss if hasattr(th, "GemanMcClureLoss") else th.WelschLoss, r, self.var("mu", 1, 1, pos=True), flatten_dims=flatten, name="c%d" % i))
            else:
                out.append(th.RobustCostFunction(c, getattr(th, loss), r, flatten_dims=flatten, name="c%d" % i))
        return out

    def crossed(self):
        """auxiliary variables that belong to a cost function and to a weight"""
        return [th.Difference(self.vec("x", 1), self.vec("t", 1), th.ScaleCostWeight(self.vec("t", 1)), name="c0"),
                th.Difference(self.vec("y", 1), self.vec("u", 1), th.ScaleCostWeight(self.vec("t", 1)), name="c1"),
                th.RobustCostFunction(th.Difference(self.vec("y", 1), self.vec("t", 1), th.ScaleCostWeight(self.vec("r", 1)), name="in"), th.WelschLoss, self.vec("r", 1), name="c2")]

    def mixed(self):
        a = self.diff()
        b = self.between()
        b[0].name, b[1].name = "c2", "c3"
        return [th.RobustCostFunction(a[0], th.WelschLoss, self.var("r", 1, 1), name="k0"), a[1], b[0],
                th.RobustCostFunction(b[1], th.WelschLoss, self.var("r", 1, 1), name="k3")]

    def pushing(self):
        E = torch.tensor([[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0, 0, 1]]).double()  # noqa
        mk = lambda n: self.lie(n, "SE2")
        return [th.eb.QuasiStaticPushingPlanar(mk("o1"), mk("o2"), mk("e1"), mk("e2"), self.var("c2", 1, 1), self.w("s"), name="c0"),
                th.eb.QuasiStaticPushingPlanar(mk("o2"), mk("o3"), mk("e2"), mk("e3"), self.var("c2", 1, 1), self.w("s"), name="c1")]

    def sdf(self):
        g = self.v.get("g") or th.Variable(self.cx.real("g", 1, 2, 2), name="g")
        self.v["g"] = g
        return g

    def collision(self):
        # the query point lies in the only cell: cell size large
        mk = lambda n, w: th.eb.Collision2D(self.vec(n, 2, th.Point2, lo=.1, hi=1), self.vec("org", 2, th.Point2, lo=-.9, hi=0), self.sdf(), self.var("cs", 1, 1, pos=True, lo=2, hi=3),
                                            self.var("ce", 1, 1), self.w("s"), name=w)
        return [mk("x", "c0"), mk("y", "c1")]


def new_value(cx, v):
    import lie
    G = type(v).__name__
    if G in lie.DOF:
        return lie.Elem(cx, G, "new_" + v.name, 1).data
    if v.name == "Q":
        return cx.const(torch.eye(2).double()[None] * 9)
    if v.name == "org":
        return cx.real("new_" + v.name, *v.shape, lo=-.9, hi=0)
    if v.name == "cs":
        return cx.real("new_" + v.name, *v.shape, pos=True, lo=2, hi=3)
    return cx.real("new_" + v.name, *v.shape, pos=v.name in ("dt", "dt2", "mu", "cs", "th"))


def content(obj):
    with torch.no_grad(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = []
        for c in obj:
            J, e = c.weighted_jacobians_error()
            out.append((J, e, c.weighted_error()))
    return out


def compare(cx, a, b, lab):
    for (J, e, we), (J2, e2, we2) in zip(a, b):
        cx.eq(we, we2, lab + "weighted error")
        cx.eq(e, e2, lab + "error of the linearization")
        for x, y in zip(J, J2):
            cx.eq(x, y, lab + "jacobian")


def copied(cx, kind, which, kw=None, erase=False, deep=False):
    """content of the copy; updates of one side do not reach the other; both behave the same given the same values"""
    M = Makers(cx)
    cfs = getattr(M, kind)(**(kw or {}))
    marker = lambda e: (e ** 4).sum(1)
    obj = th.Objective(dtype=torch.float64, error_metric_fn=marker)
    for c in cfs:
        obj.add(c)
    if erase:
        obj.erase(cfs[0].name)
        cfs = cfs[1:]
    obj.update()
    before = snapshot(obj)
    base = content(obj)
    import copy as cp
    new = cp.deepcopy(obj) if deep else obj.copy()
    new.update()
    cx.agree(snapshot(obj), before, "copying does not alter the original")
    invariants(cx, new, list(new.cost_functions.values()), "copy: ")
    cx.same([c.name for c in new], [c.name for c in obj], "cost functions of the copy")
    cx.same([type(c) for c in new], [type(c) for c in obj], "kinds of the copied cost functions")
    cx.same(sorted(new.optim_vars), sorted(obj.optim_vars), "optimization variables of the copy")
    cx.same(sorted(new.aux_vars), sorted(obj.aux_vars), "auxiliary variables of the copy")
    cx.same(len(new.cost_functions_for_weights), len(obj.cost_functions_for_weights), "weights of the copy")
    cx.true(new._error_metric_fn is marker, "error metric of the copy")
    cx.same((new.dtype, new.batch_size), (obj.dtype, obj.batch_size), "data type and batch size of the copy")
    cx.agree(set(ids(new._all_variables.values())) & set(ids(obj._all_variables.values())), set(), "shared variables")
    cx.agree(set(ids(v.tensor for v in new._all_variables.values())) & set(ids(v.tensor for v in obj._all_variables.values())), set(), "shared tensors")
    compare(cx, content(new), base, "content of the copy: ")
    # writing into the copy
    src, dst = (new, obj) if which == "copy" else (obj, new)
    names = sorted(obj._all_variables)
    vals = {n: new_value(cx, obj._all_variables[n]) for n in names}
    if "lo" in vals:
        cx.assume(vals["lo"] < vals["hi"])
    if kind == "reproj":
        for n in "TC":
            cx.assume((vals[n][0, 2, :3] * vals["P"][0]).sum() + vals[n][0, 2, 3] > 0)
    src.update(vals)
    changed = content(src)
    compare(cx, content(dst), base, "the other one after an update: ")
    for n in names:
        cx.eq(src._all_variables[n].tensor, vals[n], "updated variable")
    dst.update(vals)
    compare(cx, content(dst), changed, "both updated: ")
    # one variable at a time
    for n in names:
        if n == "Q":
            continue
        d0 = dst._all_variables[n]
        d0.update(M.v[n].tensor * 1 if False else vals[n])
    compare(cx, content(dst), changed, "updated through the variables: ")


# the query points lie in the only cell of the field
CELL = dict(opts=dict(int_range=(0, 1), int_only=True, max_paths=2000))


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=6000, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    add("hist.AB.4", hist, steps=4, costs=[0, 1], copies=True)
    add("hist.AC.4", hist, steps=4, costs=[0, 2], copies=True)
    add("hist.BC.4", hist, steps=4, costs=[1, 2], copies=True)
    add("hist.CD.4", hist, steps=4, costs=[2, 3], copies=True)
    add("hist.BD.4", hist, steps=4, costs=[1, 3], copies=True, vec=True)
    add("hist.ABCD.3", hist, steps=3, costs=[0, 1, 2, 3], copies=False)
    for first in ([0], [1, 2], [3, 0]):
        add("refuse.%s" % "".join("ABCD"[i] for i in first), refuse, first=first)
    kinds = ["auto", "diff", "diffself", "local", "between", "moving", "dint", "gp", "hinge", "nonhol", "reproj", "mixed", "crossed", "collision"]
    for k in kinds:
        for w in ("copy", "original"):
            add("copy.%s.%s" % (k, w), copied, kind=k, which=w, **CELL if k == "collision" else {})
    add("copy.auto.loop", copied, kind="auto", which="copy", kw=dict(mode="loop_batch"))
    add("copy.auto.vmap", copied, kind="auto", which="copy", kw=dict(mode="vmap"))
    add("copy.gp.otherdt", copied, kind="gp", which="copy", kw=dict(wdt="dt2"))
    add("copy.erased", copied, kind="between", which="copy", erase=True)
    add("copy.deep", copied, kind="between", which="copy", deep=True)
    for inner in ("diff", "between", "auto", "hinge"):
        for loss in ("HuberLoss", "WelschLoss"):
            if loss == "HuberLoss" and inner != "diff":
                continue
            for w in ("copy", "original"):
                add("copy.robust.%s.%s.%s" % (inner, loss, w), copied, kind="robust", which=w, kw=dict(inner=inner, loss=loss))
    add("copy.robust.flat", copied, kind="robust", which="copy", kw=dict(inner="diff", loss="WelschLoss", flatten=True))
    add("copy.robust.gnc", copied, kind="robust", which="copy", kw=dict(inner="between", loss="GNC"))
    add("copy.robust.collision", copied, kind="robust", which="copy", kw=dict(inner="collision", loss="WelschLoss"), **CELL)
    if tier != "quick":
        add("hist.AB.6", hist, steps=6, costs=[0, 1], copies=True, opts=dict(max_paths=20000, budget=800))
        add("hist.CD.6", hist, steps=6, costs=[2, 3], copies=True, opts=dict(max_paths=20000, budget=800))
        add("hist.ABCD.4", hist, steps=4, costs=[0, 1, 2, 3], copies=False, opts=dict(max_paths=20000, budget=800))
        add("copy.pushing", copied, kind="pushing", which="copy")
    return out
