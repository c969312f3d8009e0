"""Optimizers on an arbitrary problem: the cost's error and jacobian at every
point it is evaluated at, and the linear solver's step from every state, are
free values (one set per batch element and distinct point), so that every
error trajectory and step sequence is covered."""
import contextlib
import math
import warnings

import torch

import theseus as th
from theseus.optimizer.linear import LUDenseSolver


def canon(cx, t):
    """hashable identity of a scalar value (forks on undecided conditions)"""
    if not cx.sym:
        return float(t)
    from symtorch import tensor as T
    from symtorch.norm import NeedSplit
    i = T.ids_list(t)[0]
    while True:
        try:
            f = cx.ex.norm.nf(i)
        except NeedSplit as e:
            cx.ex._fork(e.cond)
            continue
        return (tuple(sorted(f.n.items())), f.cd, tuple(sorted(f.den.items())))


class World:
    def __init__(self, cx, n=1, m=1, elo=0.3, free_sign=False):
        self.cx, self.n, self.m = cx, n, m
        self.table = {}          # (element, point) -> index
        self.count = {}
        self.steps = {}
        self.E, self.J, self.D = {}, {}, {}
        self.elo = elo
        self.floor = None        # smallest error of any point

    def state(self, b, row):
        key = (b, tuple(canon(self.cx, v) for v in row.unbind(0)))
        if key not in self.table:
            k = self.count.get(b, 0)
            self.count[b] = k + 1
            self.table[key] = k
            # errors vary widely between points so that samples reach every order
            self.E[b, k] = self.cx.real("E%d_%d" % (b, k), self.m, lo=-2, hi=2)
            if self.floor is not None:
                self.cx.assume((self.E[b, k] ** 2).sum() / 2 >= self.floor)
            self.J[b, k] = self.cx.real("J%d_%d" % (b, k), self.m, self.n, lo=-1.5, hi=1.5)
        return self.table[key]

    def err(self, b, row):
        return self.E[b, self.state(b, row)]

    def jac(self, b, row):
        return self.J[b, self.state(b, row)]

    def metric(self, b, row):
        return (self.err(b, row) ** 2).sum() / 2

    def step(self, b, k, lam):
        """the solver's step for element b at its point k with damping lam"""
        key = (b, k, None if lam is None else canon(self.cx, lam))
        if key not in self.steps:
            j = sum(1 for q in self.steps if q[0] == b)
            self.steps[key] = self.cx.real("D%d_%d" % (b, j), self.n, lo=-1, hi=1)
        return self.steps[key]


class WorldCost(th.CostFunction):
    def __init__(self, world, x, elems, cost_weight, name="havoc"):
        super().__init__(cost_weight, name=name)
        self.world, self.elems = world, elems
        self.x = x
        self.register_optim_vars(["x"])

    def _elem(self, i):
        return self.elems[i]

    def error(self):
        return torch.stack([self.world.err(self.elems[i], r) for i, r in enumerate(self.x.tensor.unbind(0))])

    def jacobians(self):
        J = torch.stack([self.world.jac(self.elems[i], r) for i, r in enumerate(self.x.tensor.unbind(0))])
        return [J], self.error()

    def dim(self):
        return self.world.m

    def _copy_impl(self, new_name=None):
        return WorldCost(self.world, self.x.copy(), self.elems, self.weight.copy(), name=new_name)


class Fault(RuntimeError):
    pass


class WorldSolver(LUDenseSolver):
    """a linear solver that returns any step, or fails where told to"""
    setup = None       # (world, cost, log, fault function)

    def __init__(self, objective, linearization_cls=None, linearization_kwargs=None, **kw):
        super().__init__(objective, None, linearization_kwargs)
        self.world, self.cost, self.log, self.fault, self.fact = WorldSolver.setup

    def solve(self, damping=None, ellipsoidal_damping=True, damping_eps=1e-8, **kw):
        x = self.cost.x.tensor
        st = [self.world.state(self.cost.elems[i], r) for i, r in enumerate(x.unbind(0))]
        if self.fault is not None and self.fault(len(self.log)):
            self.log.append(dict(fail=True, states=st, x=x))
            raise Fault("singular system")
        lam = None
        if damping is not None:
            lam = torch.as_tensor(damping).expand(len(st)) if not isinstance(damping, torch.Tensor) or damping.numel() == 1 else damping
            lam = lam.reshape(-1)
        ds = [self.world.step(self.cost.elems[i], st[i], None if lam is None else lam[i]) for i in range(len(st))]
        d = torch.stack(ds)
        Atb = self.linearization.Atb.squeeze(2)
        A = self.linearization.A
        self.log.append(dict(fail=False, states=st, x=x, lam=lam, delta=d, Atb=Atb, A=A, ell=ellipsoidal_damping, eps=damping_eps))
        if self.fact is not None:
            self.fact(self.log[-1])
        return d


class Run:
    def __init__(self, cx, world, cls, elems, x0=None, fault=None, fact=None, **kw):
        self.cx, self.world, self.elems = cx, world, elems
        self.x = th.Vector(tensor=x0 if x0 is not None else self.start(), name="x")
        one = th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype), name="one"))
        self.cost = WorldCost(world, self.x, elems, one)
        self.obj = th.Objective(dtype=cx.dtype)
        self.obj.add(self.cost)
        self.obj.update()
        self.log = []
        self.cost_objects = 0
        WorldSolver.setup = (world, self.cost, self.log, fault, fact)
        self.opt = cls(self.obj, linear_solver_cls=WorldSolver, **kw)

    def start(self):
        return torch.stack([self.cx.real("x%d" % b, self.world.n) for b in self.elems])

    def optimize(self, **kw):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.info = self.opt.optimize(**kw)
        return self.info


def iterations(stays):
    """iterations used by attempts with these per-element rejections: attempts in which
    nothing moves repeat the iteration, until an element was rejected three times in a row"""
    used, streak = 0, [0] * len(stays[0])
    for st in stays:
        streak = [(k + 1) * bool(s) for k, s in zip(streak, st)]
        out = [k >= 3 for k in streak]
        if all(st) and not any(out):
            continue
        used += 1
        streak = [0 if o else k for k, o in zip(streak, out)]
    return used
