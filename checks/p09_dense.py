"""P09: dense linearization and variable orderings."""
import itertools

import torch

import theseus as th
from theseus.optimizer import DenseLinearization, VariableOrdering
from probs import *  # noqa

PROPERTY = "P09"
EXPLAIN = ("DenseLinearization.linearize runs on objectives whose cost functions have free (symbolic) jacobians, errors and weights; A, b, AtA, "
           "Atb, hessian_approx, Av and diagonal_scaling are compared with the weighted blocks laid out independently.")
BOUNDS = ("6 graph structures of 1-4 variables (dof 1-3, vectors, SE2, SO3) and 1-4 costs of 1-3 rows, every variable ordering and (3 structures) "
          "every cost order, data and weight batches of 1 or 2; ordering histories of up to 4 operations; real cost functions on SE2/SO3/vectors")
ASSUMPTIONS = ["real arithmetic instead of floating point", "a cost function does not list the same variable twice"]
BUDGET = 110


def check_system(cx, p, lin, names, what=""):
    A = [p.system(names, b) for b in range(p.batch)]
    n = sum(p.vars[v].dof() for v in names)
    m = sum(p.costs[i].dim() for i in p.order)
    cx.same((lin.num_rows, lin.num_cols), (m, n), what + "size")
    cx.same(tuple(lin.A.shape), (p.batch, m, n), what + "shape of A")
    cx.same(lin.A.dtype, p.obj.dtype, what + "dtype")
    v = cx.real("v", p.batch, n)
    Av = lin.Av(v)
    ds = lin.diagonal_scaling(v)
    for b, (Ab, bb) in enumerate(A):
        cx.eq(lin.A[b], Ab, what + "A")
        cx.eq(lin.b[b], bb, what + "b is minus the weighted error")
        H = Ab.T @ Ab
        cx.eq(lin.AtA[b], H, what + "AtA")
        cx.eq(lin.hessian_approx()[b], H, what + "hessian_approx")
        cx.eq(lin.Atb[b], (Ab.T @ bb).unsqueeze(1), what + "Atb")
        cx.eq(Av[b], Ab @ v[b], what + "Av")
        cx.eq(ds[b], H.diagonal() * v[b], what + "diagonal_scaling")


def structure(cx, st, vec=False, detach=False, corders=False, batch=2):
    vars, costs = STRUCTS[st]
    corder = perms(range(len(costs))) if corders else [None]
    vorder = perms(vars) if not corders else perms(vars)[:2]
    for co in corder:
        p = Problem(cx, vars, costs, vec=vec, order=co, batch=batch)
        for vo in vorder:
            lin = DenseLinearization(p.obj, ordering=p.ordering(vo))
            lin.linearize(_detach_hessian=detach)
            check_system(cx, p, lin, vo)


def default(cx, st):
    """default ordering: order of first use; values refreshed by each linearize"""
    vars, costs = STRUCTS[st]
    p = Problem(cx, vars, costs)
    seen = []
    for i in p.order:
        for n in costs[i][0]:
            if n not in seen:
                seen.append(n)
    lin = DenseLinearization(p.obj)
    cx.same([v.name for v in lin.ordering], seen, "default order")
    lin.linearize()
    check_system(cx, p, lin, seen, "first ")
    # new data in the same structure
    for i, c in enumerate(p.costs):
        e = cx.real("f%d" % i, *p.e[i].shape)
        c.e.update(e)
        p.e[i] = e
        for k, n in enumerate(p.J[i]):
            j = cx.real("K%d%s" % (i, n), *p.J[i][n].shape)
            getattr(c, "J%d" % k).update(j)
            p.J[i][n] = j
    lin.linearize()
    check_system(cx, p, lin, seen, "second ")


OPS = ["a", "b", "c"]


def histories(cx, st="mix", length=4):
    """append/remove histories: the index of a variable is its position; a complete order gives the right system"""
    vars, costs = STRUCTS[st]
    p = Problem(cx, vars, costs)
    names = list(vars)
    done = set()
    for h in itertools.product(names, repeat=length + 1):
        # each letter toggles the presence of a variable
        o = VariableOrdering(p.obj, default_order=False)
        cur = []
        for x in h:
            if x in cur:
                o.remove(p.vars[x])
                cur.remove(x)
            else:
                o.append(p.vars[x])
                cur.append(x)
            key = tuple(cur)
            cx.same([v.name for v in o], cur, "order of the variables after %s" % (h,))
            cx.same([o.index_of(v) for v in cur], list(range(len(cur))), "indices are positions")
            cx.same([o[i].name for i in range(len(cur))], cur, "lookup by position")
            cx.same(o.complete, len(cur) == len(names), "complete")
        if len(cur) == len(names):
            if tuple(h[-2:]) + tuple(cur) in done:
                continue
            done.add(tuple(h[-2:]) + tuple(cur))
            lin = DenseLinearization(p.obj, ordering=o)
            lin.linearize()
            check_system(cx, p, lin, cur)
        else:
            cx.raises(ValueError, lambda: DenseLinearization(p.obj, ordering=o), "incomplete ordering refused")
    o = VariableOrdering(p.obj)
    cx.raises(ValueError, lambda: o.append(p.vars[names[0]]), "duplicate refused")
    cx.raises(ValueError, lambda: o.append(th.Vector(2, name="zz")), "foreign variable refused")
    cx.same([v.name for v in o], names, "refused additions leave the order alone")
    o.remove(p.vars[names[0]])
    cx.raises(RuntimeError, lambda: lin_incomplete(p), "linearize with an incomplete order refused")


def lin_incomplete(p):
    lin = DenseLinearization(p.obj)
    lin.ordering.remove(next(iter(lin.ordering)))
    lin.linearize()


def real_costs(cx, kind, vec):
    """the blocks are those of each cost function's weighted_jacobians_error"""
    import lie
    costs = []
    b = 2
    if kind == "vec":
        xs = [th.Vector(tensor=cx.real("x%d" % i, b, 2), name="x%d" % i) for i in range(3)]
        w = th.ScaleCostWeight(th.Variable(cx.real("w", 1, 1), name="w"))
        w2 = th.DiagonalCostWeight(th.Variable(cx.real("w2", b, 2), name="w2"))
        t = [th.Vector(tensor=cx.real("t%d" % i, 1 if i else b, 2), name="t%d" % i) for i in range(2)]
        costs = [th.Difference(xs[2], t[0], w, name="d0"), th.Between(xs[0], xs[2], t[1], w2, name="b0"),
                 th.Between(xs[1], xs[0], t[0], w2, name="b1"), th.Difference(xs[0], t[1], w, name="d1"),
                 th.AutoDiffCostFunction([xs[1], xs[2]], lambda optim_vars, aux_vars:
                                         (optim_vars[0].tensor * optim_vars[1].tensor).sum(1, keepdim=True),
                                         1, cost_weight=w, name="ad"),
                 th.RobustCostFunction(th.Difference(xs[1], t[0], w, name="inner"), th.HuberLoss,
                                       th.Variable(torch.zeros(1, 1, dtype=cx.dtype), name="lr"), name="rob")]
    else:
        b = 1
        es = [lie.Elem(cx, "SE2", "g%d" % i, b) for i in range(4)]
        xs = [e.obj("x%d" % i) for i, e in enumerate(es[:3])]
        t = es[3].obj("t")
        w = th.DiagonalCostWeight(th.Variable(cx.real("w", 1, 3), name="w"))
        pt = th.Point2(tensor=cx.real("p", 1, 2), name="p")
        costs = [th.Between(xs[0], xs[1], t, w, name="b0"),
                 th.Between(xs[2], xs[0], t, w, name="b1")]
    obj = th.Objective(dtype=cx.dtype)
    for c in costs:
        obj.add(c)
    obj.update()
    spec = [c.weighted_jacobians_error() for c in costs]
    if vec:
        th.Vectorize(obj)
    names = ["x1", "x2", "x0"]
    o = VariableOrdering(obj, default_order=False)
    o.extend([obj.get_optim_var(n) for n in names])
    lin = DenseLinearization(obj, ordering=o)
    lin.linearize()
    r = 0
    d = obj.get_optim_var("x0").dof()
    for c, (J, e) in zip(costs, spec):
        for k in range(b):
            cx.eq(lin.b[k, r:r + c.dim()], -(e[k if e.shape[0] > 1 else 0]), "b")
            cols = {n: torch.zeros(c.dim(), d, dtype=cx.dtype) for n in names}
            for v, j in zip(c.optim_vars, J):
                cols[v.name] = j[k if j.shape[0] > 1 else 0]
            cx.eq(lin.A[k, r:r + c.dim()], torch.cat([cols[n] for n in names], 1), "A")
        r += c.dim()


def cases(tier):
    out = []
    for st in STRUCTS:
        for vec in (False, True):
            out.append(("%s%s" % (st, ".vec" if vec else ""), structure, dict(st=st, vec=vec), {}))
        out.append((st + ".detach", structure, dict(st=st, detach=True), {}))
        out.append((st + ".default", default, dict(st=st), {}))
    for st in ("mix", "chain", "split"):
        out.append((st + ".costorders", structure, dict(st=st, corders=True), {}))
    out.append(("flat.batch1", structure, dict(st="flat", batch=1), {}))
    out.append(("histories", histories, dict(length=4 if tier == "quick" else 5), {}))
    for kind in ("vec", "lie"):
        for vec in (False, True):
            out.append(("real.%s%s" % (kind, ".vec" if vec else ""), real_costs, dict(kind=kind, vec=vec), {}))
    return out
