"""Objectives made of cost functions with free jacobians and errors."""
import itertools

import torch

import theseus as th

MAN = {"v1": lambda n: th.Vector(1, name=n), "v2": lambda n: th.Vector(2, name=n), "v3": lambda n: th.Vector(3, name=n),
       "se2": lambda n: th.SE2(name=n), "so3": lambda n: th.SO3(name=n), "p2": lambda n: th.Point2(name=n)}


class DataCost(th.CostFunction):
    """error e and jacobian blocks J_i are auxiliary variables: anything at all"""

    def __init__(self, vars, Js, e, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.m = e.shape[1]
        for i, v in enumerate(vars):
            setattr(self, "x%d" % i, v)
        for i, j in enumerate(Js):
            setattr(self, "J%d" % i, j)
        self.e = e
        self.n = len(vars)
        self.register_optim_vars(["x%d" % i for i in range(self.n)])
        self.register_aux_vars(["J%d" % i for i in range(self.n)] + ["e"])

    def _bs(self):
        return max([v.shape[0] for v in self.optim_vars] + [v.shape[0] for v in self.aux_vars])

    def error(self):
        return self.e.tensor

    def jacobians(self):
        return [getattr(self, "J%d" % i).tensor for i in range(self.n)], self.e.tensor

    def dim(self):
        return self.m

    def _copy_impl(self, new_name=None):
        return DataCost([getattr(self, "x%d" % i).copy() for i in range(self.n)],
                        [getattr(self, "J%d" % i).copy() for i in range(self.n)],
                        self.e.copy(), self.weight.copy(), name=new_name)


class Problem:
    """vars: {name: kind}; costs: list of (variable names, rows, batch of the data, weight kind, batch of the weight)"""

    def __init__(self, cx, vars, costs, batch=2, vec=False, order=None, dtype=None):
        self.cx, self.batch = cx, batch
        self.vars = {}
        dt = dtype or cx.dtype
        for n, k in vars.items():
            v = MAN[k](n)
            v.to(dtype=dt)
            t = v.tensor
            v.update(t.expand((batch,) + tuple(t.shape[1:])).clone())
            self.vars[n] = v
        self.obj = th.Objective(dtype=dt)
        self.costs = []
        self.J, self.e, self.w = [], [], []
        shared = {}
        for i, (names, m, bd, wk, bw) in enumerate(costs):
            vs = [self.vars[n] for n in names]
            Js = [cx.real("J%d%s" % (i, n), bd, m, v.dof(), dtype=dt) for n, v in zip(names, vs)]
            e = cx.real("e%d" % i, bd, m, dtype=dt)
            if wk.startswith("shared"):
                if wk not in shared:
                    s = cx.real(wk, bw, 1, dtype=dt)
                    shared[wk] = (th.ScaleCostWeight(th.Variable(s, name=wk)), s)
                w, s = shared[wk]
                fac = s.expand(bw, m)
            elif wk == "scale":
                s = cx.real("s%d" % i, bw, 1, dtype=dt)
                w = th.ScaleCostWeight(th.Variable(s, name="s%d" % i))
                fac = s.expand(bw, m)
            elif wk == "one":
                w = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=dt), name="s%d" % i))
                fac = torch.ones(1, m, dtype=dt)
            else:
                s = cx.real("d%d" % i, bw, m, dtype=dt)
                w = th.DiagonalCostWeight(th.Variable(s, name="d%d" % i))
                fac = s
            jv = [th.Variable(j, name="c%dJ%s" % (i, n)) for j, n in zip(Js, names)]
            ev = th.Variable(e, name="c%de" % i)
            self.costs.append(DataCost(vs, jv, ev, w, name="c%d" % i))
            self.J.append(dict(zip(names, Js)))
            self.e.append(e)
            self.w.append(fac)
        self.order = list(order if order is not None else range(len(costs)))
        for i in self.order:
            self.obj.add(self.costs[i])
        self.obj.update()
        if vec:
            th.Vectorize(self.obj)

    def ordering(self, names):
        o = th.VariableOrdering(self.obj, default_order=False) if hasattr(th, "VariableOrdering") else None
        if o is None:
            from theseus.optimizer import VariableOrdering
            o = VariableOrdering(self.obj, default_order=False)
        o.extend([self.vars[n] for n in names])
        return o

    def system(self, names, b):
        """the specified A, b of batch element b for the given variable order"""
        rows, rhs = [], []

        def sel(t):
            return t[b if t.shape[0] > 1 else 0]
        for i in self.order:
            w = sel(self.w[i])
            m = w.shape[0]
            blocks = []
            for n in names:
                if n in self.J[i]:
                    blocks.append(w.unsqueeze(1) * sel(self.J[i][n]))
                else:
                    blocks.append(torch.zeros(m, self.vars[n].dof(), dtype=w.dtype))
            rows.append(torch.cat(blocks, 1))
            rhs.append(-(w * sel(self.e[i])))
        return torch.cat(rows, 0), torch.cat(rhs, 0)


STRUCTS = {
    # one cost, one variable
    "one": (dict(a="v1"), [("a", 1, 2, "scale", 2)]),
    # variables of different sizes, a cost naming them in another order, repeated dims
    "mix": (dict(a="v1", b="v2", c="v3"),
            [("ab", 2, 2, "diag", 1), ("c", 1, 1, "scale", 2), ("cba", 2, 2, "scale", 1), ("a", 1, 2, "one", 1)]),
    # a chain with a prior and a loop closure
    "chain": (dict(a="v2", b="v2", c="v2"),
              [("a", 2, 2, "scale", 1), ("ab", 2, 2, "shared", 1), ("bc", 2, 2, "shared", 1), ("ca", 1, 1, "diag", 2)]),
    # manifolds
    "lie": (dict(a="se2", b="so3", c="v1"),
            [("ba", 3, 1, "diag", 2), ("ac", 1, 2, "scale", 1), ("b", 2, 2, "scale", 2)]),
    # every piece of data of batch one
    "flat": (dict(a="v2", b="v1"), [("ba", 2, 1, "scale", 1), ("a", 1, 1, "diag", 1)]),
    # two connected components
    "split": (dict(a="v1", b="v1", c="v2", d="v1"),
              [("ca", 2, 2, "scale", 2), ("db", 1, 2, "diag", 2), ("a", 1, 1, "scale", 1)]),
}


def perms(xs):
    return list(itertools.permutations(xs))
