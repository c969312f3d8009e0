"""P18: updating and evaluating an objective."""
import warnings

import torch

import theseus as th
from hist import *  # noqa
from p17_objective import Makers, content, compare

PROPERTY = "P18"
EXPLAIN = ("the real Objective.update, error and error_metric run on symbolic tensors; which variables are given, their batch sizes, the ignore mask and "
           "the invalid inputs are symbolic choices. Updated variables hold exactly the given values, the others keep their tensors; errors are the "
           "concatenation, in insertion order, of the weighted errors given by closed formulas; temporary evaluations restore every variable, also when they raise.")
BOUNDS = "up to 6 variables, 2-5 cost functions of 1-3 rows, batch sizes 1-3, with and without vectorization; all subsets of 4 named tensors"
ASSUMPTIONS = ["a refused update (inconsistent batch sizes) may leave tensors replaced: existing tests rely on it"]
BUDGET = 110


def f1(optim_vars, aux_vars):
    return optim_vars[0].tensor * aux_vars[0].tensor


def f2(optim_vars, aux_vars):
    x, y, a = optim_vars[0].tensor, optim_vars[1].tensor, aux_vars[0].tensor
    return torch.cat([x * y + 0 * a, a - y + 0 * x], 1)


class Setup:
    """A(x; a) weight s; B(x, y; b) weight diagonal d; C(y; a) weight s; D(y, x; a) weight s2: A and C have the
    same structure, B and D as well up to their weights"""

    def __init__(self, cx, batch, vec, order="ABCD", metric=None):
        self.cx, self.vec = cx, vec
        self.shape = dict(x=1, y=1, a=1, b=1, s=1, d=2)
        self.val = {n: cx.real(n, batch.get(n, 1), k) for n, k in self.shape.items()}
        self.v = {n: (th.Vector(tensor=t, name=n) if n in "xy" else th.Variable(t, name=n)) for n, t in self.val.items()}
        v = self.v
        s, d = th.ScaleCostWeight(v["s"]), th.DiagonalCostWeight(v["d"])
        mk = dict(A=lambda: th.AutoDiffCostFunction([v["x"]], f1, 1, cost_weight=s, aux_vars=[v["a"]], name="A", autograd_mode="dense"),
                  B=lambda: th.AutoDiffCostFunction([v["x"], v["y"]], f2, 2, cost_weight=d, aux_vars=[v["b"]], name="B", autograd_mode="dense"),
                  C=lambda: th.AutoDiffCostFunction([v["y"]], f1, 1, cost_weight=s, aux_vars=[v["a"]], name="C", autograd_mode="dense"),
                  D=lambda: th.AutoDiffCostFunction([v["y"], v["x"]], f2, 2, cost_weight=s, aux_vars=[v["a"]], name="D", autograd_mode="dense"),
                  E=lambda: th.AutoDiffCostFunction([v["y"], v["x"]], f2, 2, cost_weight=d, aux_vars=[v["a"]], name="E", autograd_mode="dense"),
                  R=lambda: th.RobustCostFunction(th.AutoDiffCostFunction([v["x"], v["y"]], f2, 2, cost_weight=d, aux_vars=[v["b"]], name="Ri", autograd_mode="dense"),
                                                  th.WelschLoss, v["a"], name="R"))
        self.order = order
        kw = {} if metric is None else dict(error_metric_fn=metric)
        self.obj = th.Objective(dtype=torch.float64, **kw)
        for c in order:
            self.obj.add(mk[c]())
        self.vars = [n for n in self.shape if n in self.obj._all_variables]

    def start(self):
        self.obj.update()
        if self.vec:
            th.Vectorize(self.obj)
        return self

    def expected(self, val):
        n = max(val[k].shape[0] for k in self.vars)
        t = {k: v.expand(n, v.shape[1]) for k, v in val.items() if k in self.vars}

        def one(c):
            if c == "A":
                return t["x"] * t["a"] * t["s"]
            if c == "C":
                return t["y"] * t["a"] * t["s"]
            if c == "B":
                return torch.cat([t["x"] * t["y"], t["b"] - t["y"]], 1) * t["d"]
            if c == "D":
                return torch.cat([t["y"] * t["x"], t["a"] - t["x"]], 1) * t["s"]
            if c == "E":
                return torch.cat([t["y"] * t["x"], t["a"] - t["x"]], 1) * t["d"]
            # the documented robust error: all dimensions equal, with squared norm equal to the loss
            q = ((torch.cat([t["x"] * t["y"], t["b"] - t["y"]], 1) * t["d"]) ** 2).sum(1, keepdim=True)
            r = t["a"].exp()
            loss = r - r * torch.exp(-q / (r + th.WelschLoss()._LOSS_EPS if hasattr(th.WelschLoss, "_LOSS_EPS") else r))
            return (loss / 2 + 1e-20).sqrt().expand(n, 2)
        return torch.cat([one(c) for c in self.order], 1), n

    def check_state(self, val, lab, same=None):
        cx = self.cx
        for k in self.vars:
            cx.eq(self.v[k].tensor, val[k], lab + "value of " + k)
            if same is not None:
                cx.true(self.v[k].tensor is same[k], lab + "tensor of " + k)

    def tensors(self):
        return {k: self.v[k].tensor for k in self.v}


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def inputs(cx, s, names, sizes, tag):
    """an arbitrary subset of the names, each with an arbitrary batch size"""
    out = {}
    for n in names:
        k = pick(cx, "%s_%s" % (tag, n), len(sizes) + 1)
        if k:
            out[n] = cx.real("%s%s" % (tag, n), sizes[k - 1], s.shape[n])
    return out


def update(cx, vec, names, sizes, order="AB"):
    s = Setup(cx, {}, vec, order).start()
    new = inputs(cx, s, names, sizes, "u")
    old = s.tensors()
    val = {k: new.get(k, s.val[k]) for k in s.val}
    bs = {val[k].shape[0] for k in s.vars}
    extra = dict(new)
    if pick(cx, "unknown", 2):
        extra["not_there"] = torch.ones(1, 1).double()
    if len(bs - {1}) > 1:
        cx.raises(ValueError, lambda: quiet(lambda: s.obj.update(extra)), "inconsistent batch sizes are refused")
        return
    quiet(lambda: s.obj.update(extra))
    for k in s.vars:
        cx.eq(s.v[k].tensor, val[k], "value of the variable")
        if k not in new:
            cx.true(s.v[k].tensor is old[k], "variables not named keep their tensors")
    cx.same(s.obj.batch_size, max(bs), "batch size")
    want, n = s.expected(val)
    cx.eq(s.obj.error(), want, "error after the update")
    J = content(s.obj)
    for c, (_, _, we) in zip(s.order, J):
        pass


def masked(cx, vec, names, data):
    """an ignore mask keeps the masked batch elements of the named variables"""
    s = Setup(cx, {k: 2 for k in ("x", "y", "a", "b")}, vec, "AB").start()
    m = cx.real("m", 2)
    mask = m > 0
    new = {n: cx.real("u" + n, data, s.shape[n]) for n in names}
    s.obj.update(new, batch_ignore_mask=mask)
    val = dict(s.val)
    for n in names:
        val[n] = torch.stack([torch.where(mask[b], s.val[n][b], new[n][b if data > 1 else 0]) for b in range(2)])
    for n in s.vars:
        t = s.v[n].tensor
        cx.eq(t.expand(val[n].shape) if data == 1 else t, val[n], "masked update: value of " + n)
    cx.same(s.obj.batch_size, 2, "batch size")
    cx.eq(s.obj.error(), s.expected(val)[0], "error after a masked update")


def invalid(cx, vec):
    s = Setup(cx, {"x": 2}, vec, "ABD").start()
    old = s.tensors()
    kind = pick(cx, "kind", 4)
    name = s.vars[pick(cx, "name", len(s.vars))]
    k = s.shape[name]
    bad = [torch.ones(k).double(), torch.ones(1, k), torch.ones(1, k + 1).double(), torch.ones(1, k, 1).double()][kind]
    cx.raises(ValueError, lambda: s.obj.update({name: bad}), "invalid tensors are refused")
    s.check_state(s.val, "after a refused tensor: ", old)
    cx.eq(s.obj.error(), s.expected(s.val)[0], "error after a refused tensor")


def error(cx, vec, order, batch, erase=None):
    s = Setup(cx, batch, vec, order)
    if erase:
        c = s.obj.get_cost_function(erase)
        s.obj.erase(erase)
        s.obj.add(c)
        s.order = s.order.replace(erase, "") + erase
    s.start()
    want, n = s.expected(s.val)
    e = s.obj.error()
    cx.same(tuple(e.shape), tuple(want.shape), "shape of the error")
    cx.same(tuple(e.shape), (s.obj.batch_size, s.obj.dim()), "shape of the error is batch size x dim")
    cx.eq(e, want, "error is the concatenation of the weighted errors")
    cx.eq(s.obj.error_metric(), (want ** 2).sum(1) / 2, "default metric")
    cx.eq(torch.cat([c.weighted_error().expand(n, c.dim()) for c in s.obj], 1), want, "weighted errors of the cost functions")
    cx.same([c.name for c in s.obj], list(s.order), "order")


def temporary(cx, vec, names, sizes, also, batch=None, order="ABC", metric=False, grad=False):
    fn = (lambda e: e[:, 0] * 3 - e[:, 1]) if metric else None
    s = Setup(cx, batch or {}, vec, order, metric=fn).start()
    base = content(s.obj)
    if vec:
        base_served = [(c.weighted_jacobians_error(), c.weighted_error()) for c in s.obj._get_jacobians_iter()]
    old = s.tensors()
    new = inputs(cx, s, names, sizes, "t")
    val = {k: new.get(k, s.val[k]) for k in s.val}
    bs = {val[k].shape[0] for k in s.vars}
    call = lambda: quiet(lambda: s.obj.error(new, also_update=also))
    if len(bs - {1}) > 1:
        cx.raises(ValueError, call, "inconsistent batch sizes are refused")
        if not also:
            s.check_state(s.val, "after a refused evaluation: ", old)
            cx.same(s.obj.batch_size, max(t.shape[0] for t in s.val.values()), "batch size after a refused evaluation")
            cx.eq(s.obj.error(), s.expected(s.val)[0], "error after a refused evaluation")
        return
    want, n = s.expected(val)
    cx.eq(call(), want, "error with the given tensors")
    if also:
        s.check_state(val, "updated: ")
        cx.same(s.obj.batch_size, n, "batch size")
        cx.eq(s.obj.error(), want, "error afterwards")
        return
    s.check_state(s.val, "restored: ", old)
    w0, n0 = s.expected(s.val)
    cx.same(s.obj.batch_size, n0, "batch size")
    m = quiet(lambda: s.obj.error_metric(new))
    cx.eq(m, fn(want) if fn else (want ** 2).sum(1) / 2, "metric with the given tensors")
    s.check_state(s.val, "restored after the metric: ", old)
    if vec:
        now = [(c.weighted_jacobians_error(), c.weighted_error()) for c in s.obj._get_jacobians_iter()]
        for ((J, e), we), ((J2, e2), we2) in zip(base_served, now):
            cx.eq(we2, we, "served error")
            cx.eq(e2, e, "served error with the jacobians")
            for a, b in zip(J, J2):
                cx.eq(b, a, "served jacobian")
    compare(cx, content(s.obj), base, "content afterwards: ")
    cx.eq(s.obj.error(), w0, "error afterwards")


def raising(cx, vec):
    """the user's error function raises while evaluating temporary tensors"""
    class Boom(Exception):
        pass
    state = dict(on=False)

    def f(optim_vars, aux_vars):
        if state["on"]:
            raise Boom()
        return optim_vars[0].tensor * aux_vars[0].tensor
    x = th.Vector(tensor=cx.real("x", 1, 1), name="x")
    a = th.Variable(cx.real("a", 1, 1), name="a")
    s = th.Variable(cx.real("s", 1, 1), name="s")
    obj = th.Objective(dtype=torch.float64)
    obj.add(th.AutoDiffCostFunction([x], f, 1, cost_weight=th.ScaleCostWeight(s), aux_vars=[a], name="A", autograd_mode="dense"))
    obj.update()
    if vec:
        th.Vectorize(obj)
    old = [v.tensor for v in (x, a, s)]
    state["on"] = True
    n = 1 + pick(cx, "n", 2)
    cx.raises(Boom, lambda: obj.error({"x": cx.real("nx", n, 1), "a": cx.real("na", 1, 1), "s": cx.real("ns", 1, 1)}), "the exception of the user")
    state["on"] = False
    for v, t in zip((x, a, s), old):
        cx.true(v.tensor is t, "variables keep their tensors when the evaluation raises")
    cx.same(obj.batch_size, 1, "batch size when the evaluation raises")
    cx.eq(obj.error(), x.tensor * a.tensor * s.tensor, "error afterwards")


def cases(tier):
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.05, z3_timeout=2.0)
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for vec in (False, True):
        t = "vec." if vec else ""
        add(t + "update.xyas", update, vec=vec, names="xyas", sizes=(1, 2))
        add(t + "update.xbd", update, vec=vec, names="xbd", sizes=(1, 2, 3))
        add(t + "update.ACE", update, vec=vec, names="xyd", sizes=(1, 2), order="ACE")
        for names in ("x", "xy", "xab"):
            add(t + "mask." + names, masked, vec=vec, names=names, data=2)
        add(t + "mask.one", masked, vec=vec, names="xa", data=1)
        add(t + "invalid", invalid, vec=vec)
        for order in ("ABCD", "DCBA", "ADBC", "BA", "C", "ECAB", "BDCEA", "ARB", "RCA"):
            if "R" in order:
                continue
            for nm, b in (("b1", {}), ("x2", dict(x=2)), ("y2", dict(y=2)), ("a2", dict(a=2)), ("s2", dict(s=2)), ("d2", dict(d=2)), ("all2", dict.fromkeys("xyabsd", 2)), ("xs3", dict(x=3, s=3))):
                if order in ("DCBA", "BDCEA") and nm not in ("b1", "y2", "all2"):
                    continue
                add(t + "error.%s.%s" % (order, nm), error, vec=vec, order=order, batch=b)
        add(t + "error.readd.A", error, vec=vec, order="ABCD", batch=dict(x=2, y=2), erase="A")
        add(t + "error.readd.C", error, vec=vec, order="ACBE", batch=dict(x=2), erase="C")
        for also in (False, True):
            u = t + ("also." if also else "temp.")
            add(u + "xyas", temporary, vec=vec, names="xyas", sizes=(1, 2), also=also)
            add(u + "ybds", temporary, vec=vec, names="ybds", sizes=(2,), also=also, batch=dict(x=2))
            add(u + "three", temporary, vec=vec, names="xa", sizes=(1, 2, 3), also=also, batch=dict(y=2))
            add(u + "ADE", temporary, vec=vec, names="xad", sizes=(1, 2), also=also, order="ADE")
            add(u + "metric", temporary, vec=vec, names="xs", sizes=(1, 2), also=also, metric=True)
        add(t + "raising", raising, vec=vec)
    if tier != "quick":
        for vec in (False, True):
            t = "vec." if vec else ""
            add(t + "temp.all", temporary, vec=vec, names="xyabsd", sizes=(1, 2), also=False, order="ABCDE", opts=dict(budget=800))
            add(t + "update.all", update, vec=vec, names="xyabsd", sizes=(1, 2), order="ABCDE", opts=dict(budget=800))
            for order in ("ABCDE", "EDCBA", "CAEBD"):
                for nm in "xyabsd":
                    add(t + "error.%s.%s3" % (order, nm), error, vec=vec, order=order, batch={nm: 3})
    return out
