"""Path exploration, discharge of obligations and concrete replay.

A case is a function case(cx).  It is executed

 * symbolically, along every feasible path (the branches the real code takes on
   symbolic values are forked by re-execution with a decision prefix); its
   assertions become obligations decided by normalisation and z3;
 * concretely (plain float64 tensors, no patches), on the witness of every
   path, to validate the encoding, and on every counterexample, to confirm it
   before it is reported.
"""
import fnmatch
import json
import math
import os
import random
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np
import torch

from . import expr as E
from . import smt
from . import stubs
from . import tensor as T
from .norm import Frac, NeedSplit, Normalizer, Ring, TooBig

NS = 64           # samples per batch


class Inconclusive(Exception):
    pass


class Infeasible(Exception):
    pass


class Recorded(Exception):
    def __init__(self, value):
        self.value = value


class Budget(Exception):
    pass


# ----------------------------------------------------------------- numerics
class Num:
    """Vectorised float64 evaluation of nodes on the sample points."""

    F1 = {"sin": np.sin, "cos": np.cos, "tan": np.tan, "exp": np.exp, "tanh": np.tanh, "asin": np.arcsin,
          "acos": np.arccos, "atan": np.arctan, "floor": np.floor, "ceil": np.ceil, "trunc": np.trunc,
          "round": np.round, "log1p": np.log1p, "sinh": np.sinh, "cosh": np.cosh,
          "log": np.log, "sigmoid": lambda x: 1 / (1 + np.exp(-x)),
          "rnd32": lambda x: np.asarray(x, dtype=np.float32).astype(np.float64)}

    def __init__(self, samples, n):
        self.s = samples          # var name -> array
        self.n = n
        self.m = {}

    def __call__(self, root):
        m = self.m
        if root in m:
            return m[root]
        st = [root]
        with np.errstate(all="ignore"):
            while st:
                x = st[-1]
                if x in m:
                    st.pop()
                    continue
                ch = E.children(x)
                pend = [c for c in ch if c not in m]
                if pend:
                    st.extend(pend)
                    continue
                m[x] = self._node(x)
                st.pop()
        return m[root]

    def _node(self, x):
        op, ar, m = E.OP[x], E.AR[x], self.m
        if op == "c":
            return np.float64(float(ar[0]))
        if op in ("v", "bvar"):
            if ar[0] not in self.s:
                # uninitialised memory and the like: arbitrary values
                r = np.random.RandomState(zlib.crc32(ar[0].encode()) & 0x7FFFFFFF)
                self.s[ar[0]] = r.uniform(-5, 5, self.n) if op == "v" else r.rand(self.n) < 0.5
            return self.s[ar[0]]
        if op == "inf":
            return np.float64(math.inf * ar[0])
        if op == "nan":
            return np.float64(math.nan)
        if op == "add":
            return m[ar[0]] + m[ar[1]]
        if op == "neg":
            return -m[ar[0]]
        if op == "mul":
            return m[ar[0]] * m[ar[1]]
        if op == "div":
            return m[ar[0]] / m[ar[1]]
        if op == "pow":
            return m[ar[0]] ** ar[1]
        if op == "sqrt":
            return np.sqrt(m[ar[0]])
        if op == "abs":
            return np.abs(m[ar[0]])
        if op == "ite":
            return np.where(m[ar[0]].astype(bool), m[ar[1]], m[ar[2]])
        if op == "lt":
            return np.asarray(m[ar[0]] < m[ar[1]])
        if op == "eq":
            return np.asarray(m[ar[0]] == m[ar[1]])
        if op == "not":
            return np.logical_not(m[ar[0]].astype(bool))
        if op == "and":
            return np.logical_and(m[ar[0]].astype(bool), m[ar[1]].astype(bool))
        if op == "or":
            return np.logical_or(m[ar[0]].astype(bool), m[ar[1]].astype(bool))
        if op == "fn":
            if ar[0] == "atan2":
                return np.arctan2(m[ar[1]], m[ar[2]])
            return Num.F1[ar[0]](m[ar[1]])
        if op == "uf":
            return uf_num(ar[0], [m[a] for a in ar[1:]])
        raise NotImplementedError(op)

    def mask(self, c):
        v = self(c)
        return np.broadcast_to(np.asarray(v).astype(bool), (self.n,))

    def arr(self, x):
        return np.broadcast_to(np.asarray(self(x), dtype=np.float64), (self.n,))


UFS = {}     # name -> numeric implementation used on samples and replays


def uf_num(name, args):
    f = UFS.get(name)
    if f is None:
        # a fixed pseudo-random smooth function of its arguments
        h = zlib.crc32(name.encode()) % 997 / 997.0
        out = 0.3 + h
        for i, a in enumerate(args):
            out = out + np.sin(1.3 * a + i + 7 * h)
        return out
    return f(*args)


# ------------------------------------------------------------------- context
class Rot:
    def __init__(self, mat, tangent, params):
        self.mat = mat
        self.tangent = tangent
        self.params = params


class Cx:
    def __init__(self, mode, env=None, dtype=torch.float64, record=None, seed=1):
        self.mode = mode
        self.sym = mode == "sym"
        self.env = env
        self.dtype = dtype
        self.obs = []            # symbolic obligations
        self.fail = []           # concrete failures
        self.checked = 0
        self.ndef = 0
        self.record = record     # (index, perturbed env) in nested runs
        self.dcount = 0
        self.case_fn = None
        self.kwargs = None
        self.seed = seed
        self.numtol = 1e-6
        self.vals = []           # concrete values of both sides (validation)
        self.notes = {}
        self.assume_fail = False
        self.definedness = True
        self.deriv_err = 0.0

    # -------------------------------------------------------- input creation
    def _declare(self, name, sampler, **info):
        i = E.var(name, **info)
        if name not in self.samples:
            rs = np.random.RandomState((zlib.crc32(name.encode()) + self.seed * 7919 + self.batchno * 104729) & 0x7FFFFFFF)
            self.samples[name] = sampler(rs)
        return i

    def _mk(self, ids, shape, dtype=None):
        return T.mk(ids, tuple(shape), dtype or self.dtype)

    def _num(self, names, shape, dtype=None):
        return torch.tensor([self._get(n) for n in names], dtype=dtype or self.dtype).reshape(tuple(shape))

    def _get(self, n, lo=0.1, hi=1.0):
        """value of an input; inputs first met on this replay get a fixed one"""
        if n not in self.env:
            self.env[n] = lo + (hi - lo) * (zlib.crc32(n.encode()) % 1009 / 1009.0)
        return self.env[n]

    def real(self, name, *shape, lo=-2.0, hi=2.0, pos=False, nonneg=False, tiny=False, box=False, dtype=None,
             range=None, integer=False, vals=None):
        """Tensor of free reals.  lo, hi only steer the sample points (and are
        domain bounds when box=True)."""
        n = 1
        for s in shape:
            n *= s
        names = ["%s_%d" % (name, k) for k in __import__("builtins").range(n)] if shape else [name]
        if pos and lo <= 0:
            lo = 0.05
        if not self.sym:
            for nm in names:
                v = self._get(nm, max(lo, 0.05 if pos or nonneg else lo), hi)
                if (pos and not v > 0) or (nonneg and not v >= 0) or (box and not lo <= v <= hi) \
                        or (range is not None and not range[0] <= v <= range[1]):
                    self.assume_fail = True
            return self._num(names, shape, dtype)
        info = {}
        if pos or nonneg:
            info["nonneg"] = True
        if box:
            info["box"] = (Fraction(str(lo)), Fraction(str(hi)))
        if range is not None:
            info["range"] = range
            info["box"] = (Fraction(str(range[0])), Fraction(str(range[1])))
        ids = []
        for nm in names:
            def samp(rs, nm=nm):
                v = rs.uniform(lo, hi, NS)
                if vals is not None:
                    v = rs.choice(vals, NS)
                if tiny:
                    v = v * self.scales
                return v
            i = self._declare(nm, samp, **dict(info, nonneg=bool(pos or nonneg)))
            ids.append(i)
            if pos:
                self.pc_node(E.lt(0, i))
        return self._mk(ids, shape, dtype)

    def _unit_ids(self, names, sampler):
        """unit vector variables; sampler(rs) -> (len(names), NS) normalised"""
        ids = [E.var(nm) for nm in names]
        if names[0] not in self.samples:
            rs = np.random.RandomState((zlib.crc32(names[0].encode()) + self.seed * 7919 + self.batchno * 104729) & 0x7FFFFFFF)
            v = sampler(rs)
            for nm, x in zip(names, v):
                self.samples[nm] = x
        for i in ids:
            E.VINFO[i] = dict(E.VINFO.get(i, {}), unit=tuple(ids))
        return ids

    def unit(self, name, n):
        names = ["%s_%d" % (name, k) for k in range(n)]
        if not self.sym:
            return self._num(names, (n,))

        def samp(rs):
            v = rs.randn(n, NS)
            return v / np.linalg.norm(v, axis=0)
        return self._mk(self._unit_ids(names, samp), (n,))

    def quat(self, name, batch=None):
        """unit quaternion(s) (w, x, y, z)"""
        if batch is not None:
            return self.stack([self.quat("%s_b%d" % (name, b)) for b in range(batch)])
        names = ["%s_%s" % (name, k) for k in "xyzw"]
        if not self.sym:
            t = self._num(names, (4,))
            return t[[3, 0, 1, 2]]

        def samp(rs):
            v = rs.randn(4, NS)
            v[:3] *= self.scales
            return v / np.linalg.norm(v, axis=0)
        # w is eliminated first: its square is rewritten
        ids = self._unit_ids(names, samp)
        return self._mk([ids[3]] + ids[:3], (4,))

    def rot3(self, name, batch=None):
        """rotation matrices covering all of SO(3), via unit quaternions"""
        q = self.quat(name, batch)
        w, x, y, z = q.unbind(-1)
        R = torch.stack([
            1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
            2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
            2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)], dim=-1)
        R = R.reshape(R.shape[:-1] + (3, 3))

        def tangent(i, b=None):
            nm = name if batch is None else "%s_b%d" % (name, b)
            qq = q if batch is None else q[b]
            w, x, y, z = qq.unbind(-1)
            h = 0.5
            if i == 0:
                d = dict(w=-h * x, x=h * w, y=h * z, z=-h * y)
            elif i == 1:
                d = dict(w=-h * y, x=-h * z, y=h * w, z=h * x)
            else:
                d = dict(w=-h * z, x=h * y, y=-h * x, z=h * w)
            return {"%s_%s" % (nm, k): v for k, v in d.items()}
        return Rot(R, tangent, q)

    def rot3aa(self, name, lo=0.0, hi=math.pi, axis=None):
        """rotation from unit axis and angle in (lo, hi)"""
        n = self.unit(name + "_n", 3) if axis is None else self.const(axis)
        th = self.angle(name + "_th", lo, hi)
        s, c = th.sin(), th.cos()
        return Rot(self.rodrigues(n, s, c), None, (n, th))

    @staticmethod
    def rodrigues(n, s, c):
        x, y, z = n.unbind(-1)
        k = 1 - c
        R = torch.stack([
            c + k * x * x, k * x * y - s * z, k * x * z + s * y,
            k * x * y + s * z, c + k * y * y, k * y * z - s * x,
            k * x * z - s * y, k * y * z + s * x, c + k * z * z], dim=-1)
        return R.reshape(R.shape[:-1] + (3, 3))

    def angle(self, name, lo, hi):
        """an angle strictly inside (lo, hi)"""
        if not self.sym:
            if not lo < self.env[name] < hi:
                self.assume_fail = True
            return self._num([name], ())
        flo, fhi = Fraction(repr(lo)), Fraction(repr(hi))

        def samp(rs):
            u = rs.uniform(0.001, 0.999, NS)
            return float(flo) + u * float(fhi - flo)
        i = self._declare(name, samp, range=(lo, hi), box=(flo, fhi), nonneg=lo >= 0)
        self.pc_node(E.lt(E.const(flo), i))
        self.pc_node(E.lt(i, E.const(fhi)))
        return self._mk([i], ())

    def rot2(self, name, batch=None):
        """(cos, sin) pairs on the unit circle"""
        if batch is not None:
            rs = [self.rot2("%s_b%d" % (name, b)) for b in range(batch)]
            return Rot(torch.stack([r.mat for r in rs]), lambda i, b: rs[b].tangent(0), None)
        names = ["%s_c" % name, "%s_s" % name]
        if not self.sym:
            cs = self._num(names, (2,))
        else:
            def samp(rs):
                a = rs.uniform(-math.pi, math.pi, NS) * self.scales
                return np.stack([np.cos(a), np.sin(a)])
            cs = self._mk(self._unit_ids(names, samp), (2,))

        def tangent(i=0, b=None):
            return {names[0]: -cs[1], names[1]: cs[0]}
        return Rot(cs, tangent, None)

    def tangent_of(self, name, shape, k):
        """seed for the k-th entry of cx.real(name, *shape)"""
        return {("%s_%d" % (name, k) if shape else name): self.const(1.0)}

    def const(self, x, dtype=None):
        t = x if isinstance(x, torch.Tensor) else torch.tensor(x, dtype=dtype or self.dtype)
        if self.sym and not isinstance(t, T.SymTensor) and t.dtype.is_floating_point:
            with T._NoMode():
                return T.SymTensor(T.to_ids(t), t.dtype)
        return t

    def stack(self, ts, dim=0):
        return torch.stack(ts, dim)

    # -------------------------------------------------------------- assume
    def pc_node(self, n):
        if n == 1:
            return
        if n == 0:
            raise Infeasible()
        self.ex.assume_node(n)

    def assume(self, t):
        """t: boolean tensor (all elements must hold)"""
        if not self.sym:
            if not bool(torch.as_tensor(t).all()):
                self.assume_fail = True
            return
        ids = T.ids_list(t) if isinstance(t, torch.Tensor) else [1 if t else 0]
        for i in ids:
            self.pc_node(E.r2b(i))

    # ---------------------------------------------------------- assertions
    def eq(self, a, b, label, tol=None, numtol=None):
        a = torch.as_tensor(a, dtype=self.dtype) if not isinstance(a, torch.Tensor) else a
        b = torch.as_tensor(b, dtype=a.dtype) if not isinstance(b, torch.Tensor) else b
        if tuple(a.shape) != tuple(b.shape):
            self.true(False, label + " [shape %s vs %s]" % (tuple(a.shape), tuple(b.shape)))
            return
        if self.sym:
            for k, (x, y) in enumerate(zip(T.ids_list(a), T.ids_list(b))):
                self.obs.append(("eq", x, y, label, tol, k))
        else:
            self.checked += 1
            a = a.detach().to(torch.float64)
            b = b.detach().to(torch.float64)
            nt = numtol if numtol is not None else max(self.numtol, 3 * (tol or 0))
            with np.errstate(all="ignore"):
                err = (a - b).abs()
                sc = torch.clamp(torch.maximum(a.abs(), b.abs()), min=1.0)
                bad = ~(err <= nt * sc + self.deriv_err)
                # (undefined on both sides: outside the domain of the specification)
                bad = bad & ~(a == b) & ~(torch.isnan(a) & torch.isnan(b))
            if bad.any():
                k = int(bad.reshape(-1).nonzero()[0])
                self.fail.append((label, "element %d: %r vs %r" % (k, a.reshape(-1)[k].item(), b.reshape(-1)[k].item())))

    def le(self, a, b, label, numtol=None):
        a = torch.as_tensor(a, dtype=self.dtype) if not isinstance(a, torch.Tensor) else a
        b = torch.as_tensor(b, dtype=a.dtype) if not isinstance(b, torch.Tensor) else b
        if self.sym:
            for k, (x, y) in enumerate(zip(T.ids_list(a.expand(torch.broadcast_shapes(a.shape, b.shape))),
                                           T.ids_list(b.expand(torch.broadcast_shapes(a.shape, b.shape))))):
                self.obs.append(("le", x, y, label, None, k))
        else:
            self.checked += 1
            nt = numtol if numtol is not None else self.numtol
            sc = torch.clamp(torch.maximum(a.abs(), b.abs()), min=1.0)
            if not bool((a <= b + nt * sc + self.deriv_err).all()):
                self.fail.append((label, "%r > %r" % (a, b)))

    def true(self, t, label, raw=False):
        if self.sym:
            ids = T.ids_list(t) if isinstance(t, torch.Tensor) else [1 if t else 0]
            for k, x in enumerate(ids):
                self.obs.append(("true", E.r2b(x), None, label, raw, k))
        else:
            self.checked += 1
            if not bool(torch.as_tensor(t).all()):
                self.fail.append((label, "false"))

    def agree(self, a, b, label):
        """concrete agreement of values that mean nothing outside the run (object identities)"""
        self.true(a == b, label)

    def same(self, a, b, label):
        """plain python equality (shapes, names, orders, dtypes)"""
        self.true(a == b, label + ("" if a == b else " [%r != %r]" % (a, b)))

    def raises(self, exc, f, label):
        try:
            f()
        except exc:
            self.true(True, label)
            return
        self.true(False, label)

    # ---------------------------------------------------------- derivatives
    def deriv(self, out, seeds):
        """directional derivative of out along seeds (variable name -> value)"""
        k = self.dcount
        self.dcount += 1
        if self.sym:
            sd = {}
            for nm, v in seeds.items():
                sd[E.VARS[nm]] = T.ids_list(v)[0] if isinstance(v, torch.Tensor) else E.const(v)
            D = E.Diff(sd)
            return T.mk([D(i) for i in T.ids_list(out)], tuple(out.shape), out.dtype)
        if self.record is not None:
            if self.record == k:
                raise Recorded(out.detach().clone())
            return torch.zeros_like(out)
        est = []
        for h in (4e-5, 2e-5):
            res = []
            for s in (1, -1):
                env = dict(self.env)
                for nm, v in seeds.items():
                    env[nm] = env[nm] + s * h * float(v)
                c = Cx("num", env, self.dtype, record=k, seed=self.seed)
                c.case_fn, c.kwargs = self.case_fn, self.kwargs
                try:
                    self.case_fn(c, **self.kwargs)
                    raise RuntimeError("derivative point not reached")
                except Recorded as r:
                    res.append(r.value)
            est.append((res[0] - res[1]) / (2 * h))
        # the truncation error of the difference quotient widens the tolerance of the comparisons
        e = (est[0] - est[1]).abs()
        e = e[torch.isfinite(e)]
        if e.numel():
            self.deriv_err = max(self.deriv_err, 20 * float(e.max()))
        return (4 * est[1] - est[0]) / 3

    def jac(self, out, seedlist):
        """stack of directional derivatives along the last dimension"""
        return torch.stack([self.deriv(out, s) for s in seedlist], dim=-1)


# ------------------------------------------------------------------ explorer
class Explorer:
    def __init__(self, name, fn, kwargs, opts, seed=1, budget=240.0):
        self.name, self.fn, self.kwargs, self.opts = name, fn, kwargs, opts
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget
        self.max_paths = opts.get("max_paths", 200)
        self.z3t = opts.get("z3_timeout", 5.0)
        self.stats = dict(paths=0, leaves=0, forks=0, obligations=0, identities=0, z3_decided=0, definedness=0,
                          undecided=0, witnesses=0, vacuous_paths=0, raw=0, nodes=0, max_terms=0)
        self.violations = []
        self.known = []
        self.undecided = []
        self.errors = []
        self.functions = set()
        self.witness_env = None
        self.cands = set()
        self.cands_raw = set()
        self.rawleft = opts.get("raw_confirm", 6)

    def add_violation(self, v):
        for pat in self.opts.get("known", ()):
            if fnmatch.fnmatch(v["label"], pat):
                v["known"] = pat
                if not any(k["label"] == v["label"] for k in self.known):
                    self.known.append(v)
                return
        if not any(k["label"] == v["label"] for k in self.violations):
            self.violations.append(v)

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ------------------------------------------------- fork / assume hooks
    def feasible(self, norm, num, mask, c, val):
        """can atomic condition c take value val on the current path"""
        cm = num.mask(c)
        if not val:
            cm = ~cm
        m = mask & cm
        if m.any():
            return True, m
        k = norm.ckey(c)
        if k is True or k is False:
            return k == val, m
        key, pol = k
        v = val if pol else not val
        if self.left() < 0:
            raise Budget()
        atoms = smt.atoms_of(self.ring, dict(key[1])) if key[0] != "b" else {("b", key[1])}
        r, _, _ = smt.check_path(norm, lambda enc: [enc.fact(key, v)], self.opts.get("feas_timeout", self.z3t / 2), atoms=atoms)
        return str(r) != "unsat", m

    def resolve(self, norm, num, mask, node):
        """Decide a boolean node on a normaliser, yielding the atomic splits."""
        try:
            return norm.cond(node), None
        except NeedSplit as e:
            return None, e.cond

    def assume_node(self, node):
        """add a fact to the path (splitting disjunctions is not needed: the
        fact is a conjunction of literals, or is decided by forking)"""
        op, ar = E.OP[node], E.AR[node]
        if op == "and":
            self.assume_node(ar[0])
            self.assume_node(ar[1])
            return
        while True:
            v, c = self.resolve(self.norm, self.num, self.mask, node)
            if c is None:
                if not v:
                    raise Infeasible()
                return
            if c == node or (op == "not" and c == ar[0]):
                val = c == node
                ok, m = self.feasible(self.norm, self.num, self.mask, c, val)
                if not ok:
                    raise Infeasible()
                self._take(c, val, m)
                continue
            self._fork(c)

    def _take(self, c, val, m):
        self.norm.assume(c, val)
        E.KNOWN[c] = val
        self.mask = m

    def _fork(self, c):
        okt, mt = self.feasible(self.norm, self.num, self.mask, c, True)
        okf, mf = self.feasible(self.norm, self.num, self.mask, c, False)
        if okt and okf:
            self.stats["forks"] += 1
            if self.pos < len(self.prefix):
                val = self.prefix[self.pos]
            else:
                val = True
                self.pending.append(self.prefix[:self.pos] + [False])
                self.prefix = self.prefix[:self.pos] + [True]
            self.pos += 1
        elif okt or okf:
            val = okt
        else:
            raise Infeasible()
        self._take(c, val, mt if val else mf)

    def decide(self, node):
        while True:
            v, c = self.resolve(self.norm, self.num, self.mask, node)
            if c is None:
                return v
            self._fork(c)

    def zero(self, node):
        try:
            return self.norm.is_zero(self.norm.nf(node))
        except (NeedSplit, TooBig):
            return False

    def concretize(self, node):
        while True:
            try:
                f = self.norm.nf(node)
            except NeedSplit as e:
                self._fork(e.cond)
                continue
            q = self.norm.const_of(f)
            if q is not None:
                return q
            raise T.Unsupported("symbolic integer")

    # --------------------------------------------------------------- main
    def run(self, profile=True):
        self.pending = [[]]
        first = True
        while self.pending:
            if self.stats["paths"] >= self.max_paths:
                self.undecided.append("path limit: %d prefixes unexplored" % len(self.pending))
                break
            if self.left() < 0:
                self.undecided.append("time budget: %d prefixes unexplored" % len(self.pending))
                break
            pre = self.pending.pop()
            self.run_path(pre, profile and first)
            first = False
            if len(self.violations) >= 3:
                break
        return self

    def setup(self, batchno=0):
        E.reset()
        T.reset_cache()
        T._uninit_n[0] = 0
        self.ring = Ring(self.opts.get("max_terms", 60000))
        self.ring.exp_split = self.opts.get("exp_split", False)
        self.norm = Normalizer(self.ring)
        cx = Cx("sym", dtype=self.opts.get("dtype", torch.float64), seed=self.seed)
        cx.ex = self
        cx.batchno = batchno
        rs = np.random.RandomState(self.seed + 17 * batchno)
        cx.scales = rs.choice([1.0, 1.0, 1.0, 1e-3, 1e-4], NS)
        cx.scales[: NS // 4] = 1.0
        cx.samples = {}
        cx.case_fn, cx.kwargs = self.fn, self.kwargs
        self.num = Num(cx.samples, NS)
        self.mask = np.ones(NS, dtype=bool)
        T.Ctl.decide = self.decide
        T.Ctl.concretize = self.concretize
        T.Ctl.zero = self.zero
        T.Ctl.int_range = self.opts.get("int_range")
        T.Ctl.int_only = self.opts.get("int_only", False)
        T.Ctl.assume = self.assume_node
        T.Ctl.random = self.opts.get("random")
        return cx

    def run_path(self, prefix, profile):
        self.prefix = list(prefix)
        self.pos = 0
        cx = self.setup()
        self.cx = cx
        exc = None
        if profile:
            sys.setprofile(self._prof)
        try:
            with T.SymMode(), stubs.active():
                self.fn(cx, **self.kwargs)
        except Infeasible:
            sys.setprofile(None)
            self.stats["vacuous_paths"] += 1
            if os.environ.get("SYM_DEBUG"):
                traceback.print_exc(limit=-12)
            return
        except Budget:
            sys.setprofile(None)
            self.undecided.append("time budget during execution")
            return
        except (T.Unsupported, TooBig, NotImplementedError) as e:
            exc = e
        except Exception as e:
            exc = e
            self.exc_tb = traceback.format_exc()
        finally:
            sys.setprofile(None)
        self.stats["paths"] += 1
        self.stats["nodes"] = max(self.stats["nodes"], len(E.OP))
        if exc is not None and isinstance(exc, (T.Unsupported, TooBig, NotImplementedError)):
            self.undecided.append("%s: %s" % (type(exc).__name__, str(exc)[:200]))
            if os.environ.get("SYM_DEBUG"):
                traceback.print_exception(exc)
            self.fallback(cx)
            return
        if exc is not None:
            # the real code raised: replay on the path's witness
            wit = self.witness(self.norm, self.mask)
            if wit is None:
                r, _, _ = smt.check_path(self.norm, lambda enc: [], self.z3t)
                if str(r) == "unsat":
                    self.stats["vacuous_paths"] += 1
                    return
                if self.path_models(self.norm, None, "exception", str(exc)):
                    return
                self.undecided.append("exception without witness: %s" % (exc,))
                return
            if not self.try_violation(wit, "exception", "%s: %s" % (type(exc).__name__, exc), always=True):
                self.undecided.append("engine exception %s: %s" % (type(exc).__name__, str(exc)[:200]))
                if os.environ.get("SYM_DEBUG"):
                    print(self.exc_tb)
                self.fallback(cx)
            return
        # discharge
        try:
            self.discharge(self.norm, self.mask, list(range(len(cx.obs))), 0)
        except Budget:
            self.undecided.append("time budget during discharge")
        except TooBig:
            self.undecided.append("normal form too large")
            self.fallback(cx)
        # encoding validation on a witness of the path
        wit = self.witness(self.norm, self.mask)
        if wit is not None:
            self.validate(wit)
        else:
            r, m, enc = smt.check_path(self.norm, lambda enc: [], self.z3t, model=True)
            if str(r) == "unsat":
                self.stats["vacuous_paths"] += 1
            else:
                self.stats["unwitnessed_paths"] = self.stats.get("unwitnessed_paths", 0) + 1

    def _prof(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if "/repo/" in f or f.startswith("/repo"):
                q = frame.f_code.co_qualname
                if "<lambda>" not in q and "<genexpr>" not in q:
                    self.functions.add(f.split("/repo/")[-1] + ":" + q)

    # ------------------------------------------------------------ witnesses
    def witness(self, norm, mask):
        idx = np.nonzero(mask)[0]
        if len(idx):
            return {n: float(a[idx[0]]) for n, a in self.cx.samples.items()}
        return None

    def env_at(self, k):
        return {n: (float(a[k]) if np.asarray(a).dtype != bool else bool(a[k])) for n, a in self.cx.samples.items()}

    def numrun(self, env):
        cx = Cx("num", env, self.opts.get("dtype", torch.float64), seed=self.seed)
        cx.case_fn, cx.kwargs = self.fn, self.kwargs
        dec, con, rnd = T.Ctl.decide, T.Ctl.concretize, T.Ctl.random
        try:
            self.fn(cx, **self.kwargs)
        except Exception as e:
            cx.fail.append(("exception", "%s: %s" % (type(e).__name__, str(e)[:300])))
            cx.tb = traceback.format_exc()
        finally:
            T.Ctl.decide, T.Ctl.concretize, T.Ctl.random = dec, con, rnd
        return cx

    def validate(self, env):
        cx = self.numrun(env)
        if cx.assume_fail:
            self.stats["unwitnessed_paths"] = self.stats.get("unwitnessed_paths", 0) + 1
            return
        self.stats["witnesses"] += 1
        if self.witness_env is None:
            self.witness_env = dict(list(env.items())[:12])
        for label, msg in cx.fail:
            if True:
                self.add_violation(dict(case=self.name, label=label, msg=msg, env=env, source="path witness"))

    def fallback(self, cx):
        """the symbolic run could not be completed: run the witnesses only"""
        n = 0
        for k in range(NS):
            if not self.mask[k] or n >= 6:
                continue
            n += 1
            c = self.numrun(self.env_at(k))
            if c.assume_fail:
                continue
            for label, msg in c.fail:
                self.add_violation(dict(case=self.name, label=label, msg=msg, env=self.env_at(k), source="concrete fallback"))
                return

    def try_violation(self, env, label, msg, always=False, source="solver"):
        """replay; report only what reproduces"""
        c = self.numrun(env)
        if not c.assume_fail:
            for l, m in c.fail:
                if l == label or label.startswith(l) or l == "exception" or always:
                    self.add_violation(dict(case=self.name, label=l, msg=m, env=env, source=source))
                    return True
            if c.fail:
                l, m = c.fail[0]
                self.add_violation(dict(case=self.name, label=l, msg=m, env=env, source=source))
                return True
        self.cands.add((label, msg[:160]))
        return False

    # ------------------------------------------------------------ discharge
    def discharge(self, norm, mask, obs, depth):
        if self.left() < 0:
            raise Budget()
        groups = {}
        done = []
        for k in obs:
            kind, x, y, label, tol, el = self.cx.obs[k]
            try:
                if kind in ("eq", "le"):
                    if E.OP[x] in ("nan", "inf") or E.OP[y] in ("nan", "inf"):
                        ok = x == y and E.OP[x] == "inf"
                        if kind == "le":
                            ok = E.OP[x] != "nan" and E.OP[y] != "nan" and (x == E.NINF or y == E.PINF)
                        done.append((k, None, ok))
                        continue
                    if x == y:          # the same expression (hash-consed)
                        done.append((k, None, True))
                        continue
                    a, b = norm.nf(x), norm.nf(y)
                    done.append((k, norm.add(a, norm.neg(b)), None))
                    self.stats["max_terms"] = max(self.stats["max_terms"], len(a.n))
                elif kind == "true":
                    if tol and depth == 0:     # raw encoding first
                        if self.raw_true(norm, x):
                            self.stats["obligations"] += 1
                            self.stats["z3_decided"] += 1
                            continue
                    done.append((k, None, norm.cond(x)))
            except NeedSplit as e:
                groups.setdefault(e.cond, []).append(k)
            except ZeroDivisionError:
                done.append((k, None, False))
        if done:
            self.leaf(norm, mask, done)
        for c, ks in groups.items():
            if depth > 60:
                self.undecided.append("split depth")
                return
            for val in (True, False):
                if len(self.violations) >= 3:
                    return
                ok, m = self.feasible(norm, self.num, mask, c, val)
                if not ok:
                    continue
                ch = norm.child()
                ch.assume(c, val)
                # dependent memo entries: only those below ite nodes on c are
                # unresolved, so the parent's memo is valid in the child
                self.discharge(ch, m, ks, depth + 1)

    def raw_true(self, norm, x):
        facts = [n if v else E.not_(n) for n, v in E.KNOWN.items()]
        try:
            r, _, _ = smt.raw_check(facts + [E.not_(x)], self.opts.get("raw_timeout", 10.0))
        except (NotImplementedError, RecursionError):
            return False
        return str(r) == "unsat"

    def leaf(self, norm, mask, done):
        self.stats["leaves"] += 1
        nonzero = []
        for k, d, ok in done:
            kind, x, y, label, tol, el = self.cx.obs[k]
            self.stats["obligations"] += 1
            if d is None:
                if ok:
                    self.stats["identities"] += 1
                else:
                    nonzero.append((k, d))
                continue
            if kind == "eq" and (not d.n or norm.vanishes(d)):
                self.stats["identities"] += 1
                continue
            nonzero.append((k, d))
        # solver verdict for the leaf: path condition and (some residual nonzero)
        for k, d, ok in done:
            # the same obligation posed to the solver without normalisation
            if self.rawleft > 0 and d is not None and not d.n:
                kind, x, y, label, tol, el = self.cx.obs[k]
                if x == y or (label, "raw") in self.cands_raw:
                    continue
                self.cands_raw.add((label, "raw"))
                self.rawleft -= 1
                self.raw_confirm(x, y)
        for k, d in nonzero:
            if len(self.violations) >= 3:
                return
            self.residual(norm, mask, k, d)
        self.defined(norm, mask, done)

    def raw_confirm(self, x, y):
        if len(E.topo([x, y])) >= 200:
            return
        facts = [n if v else E.not_(n) for n, v in E.KNOWN.items()]
        try:
            r, _, _ = smt.raw_check(facts + [E.not_(E.eq(x, y))], 1.0)
        except (NotImplementedError, RecursionError):
            return
        if str(r) == "unsat":
            self.stats["raw_confirmed"] = self.stats.get("raw_confirmed", 0) + 1

    def residual(self, norm, mask, k, d):
        kind, x, y, label, tol, el = self.cx.obs[k]
        if self.left() < 0:
            raise Budget()
        # numeric evidence first: does any sample of the path violate it?
        bad = None
        if mask.any():
            if kind == "true":
                v = ~self.num.mask(x)
            else:
                a, b = self.num.arr(x), self.num.arr(y)
                with np.errstate(all="ignore"):
                    sc = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b)))
                    if kind == "eq":
                        nt = max(1e-6, 3 * (tol or 0))
                        v = ~(np.abs(a - b) <= nt * sc) & ~(a == b)
                    else:
                        v = ~(a <= b + 1e-6 * sc)
            v = v & mask
            idx = np.nonzero(v)[0]
            if len(idx):
                bad = idx
        if bad is not None:
            key = (label,)
            n = self.tried.get(key, 0) if hasattr(self, "tried") else 0
            if not hasattr(self, "tried"):
                self.tried = {}
            self.tried[key] = n + 1
            if n < 2:
                # the solver's verdict with the inputs fixed at the sample point
                for j in bad[:2]:
                    src = self.confirm(norm, k, d, j)
                    if self.try_violation(self.env_at(j), label, "element %s" % el, source=src):
                        return
            if any(vv["label"] == label for vv in self.violations + self.known):
                return
        # let the solver decide
        if kind == "true" or d is None:     # d is None: finite against infinite
            atoms = None
            r, m, enc = smt.check_path(norm, lambda enc: [], self.z3t, model=True)
            if str(r) == "unsat":
                self.stats["z3_decided"] += 1
                return
            if self.model_violation(norm, r, m, enc, label):
                return
        else:
            atoms = smt.atoms_of(self.ring, d.n)
            for i in d.den:
                smt.atoms_of(self.ring, self.ring.den_polys[i], atoms)

            def ex(enc):
                if kind == "eq" and tol is None:
                    return [enc.poly(d.n) != 0]
                t = enc.frac(d)
                if kind == "eq":
                    q = smt.qv(Fraction(str(tol)))
                    return [smt.z3.Or(t > q, t < -q)]
                return [t > 0]
            if kind == "eq" and tol is not None and smt.linear_tol(norm, d, tol):
                self.stats["z3_decided"] += 1
                return
            if kind == "le":
                # sign of the numerator when denominators are positive
                sp = norm.signpoly(d)
                if norm.sign_of(Frac({m_: -c for m_, c in sp.items()}, 1)) == 1:
                    self.stats["z3_decided"] += 1
                    return
                ex0 = ex

                def ex(enc):   # noqa
                    return [enc.poly(sp) > 0]
            r, m, enc = smt.check_path(norm, ex, self.opts.get("tol_timeout", self.z3t * 2), atoms=atoms, model=False)
            if str(r) == "unsat":
                self.stats["z3_decided"] += 1
                return
            if str(r) == "sat":
                r, m, enc = smt.check_path(norm, ex, self.z3t * 2, atoms=atoms, model=True)
                if self.model_violation(norm, r, m, enc, label):
                    return
                if not (kind == "eq" and self._tiny(d)) and self.path_models(norm, ex, label, ""):
                    return
            if kind == "eq" and self._tiny(d):
                self.stats["float_const"] = self.stats.get("float_const", 0) + 1
                return
        self.stats["undecided"] += 1
        self.undecided.append("%s[%s]: residual not decided (%s)" % (label, el, r))

    def confirm(self, norm, k, d, j):
        """query with all input variables fixed to the sample point"""
        try:
            env = self.env_at(j)

            def ex(enc):
                cs = []
                if d is not None:
                    cs.append(enc.poly(d.n) != 0)
                for i in list(enc.v):
                    inf = self.ring.info[i]
                    if inf["kind"] == "v" and "unit" not in E.VINFO.get(inf["node"], {}):
                        v = env.get(self.ring.names[i])
                        if v is not None:
                            cs.append(enc.v[i] == smt.qv(Fraction(v).limit_denominator(10 ** 6)))
                return cs
            if d is None or len(d.n) > 300:
                return "sample point of the path"
            r, _, _ = smt.check_path(Normalizer(self.ring), ex, 2.0, model=True)
            return "solver (%s at the sample point)" % r
        except Exception:
            return "sample point of the path"

    def path_models(self, norm, ex, label, msg):
        """models of the whole path condition (and the residual): free, with
        the variables outside equality facts held at sample points, ..."""
        key = ("pm", label)
        n = self.tries.get(key, 0) if hasattr(self, "tries") else 0
        if not hasattr(self, "tries"):
            self.tries = {}
        self.tries[key] = n + 1
        if n >= 4:
            return False
        ex = ex or (lambda enc: [])
        r, m, enc = smt.check_path(norm, ex, self.z3t, model=True)
        if str(r) == "unsat":
            return False
        if self.model_violation(norm, r, m, enc, label, always=label == "exception"):
            return True
        eqs = set()
        for k, v in norm.asg.items():
            if k[0] == "eq" and v:
                smt.atoms_of(self.ring, dict(k[1]), eqs)
        # samples ordered by how much of the path they satisfy
        score = np.zeros(NS)
        for c, v in E.KNOWN.items():
            try:
                mk = self.num.mask(c)
                score += mk if v else ~mk
            except Exception:
                pass
        for j in np.argsort(-score)[:3]:
            if self.left() < 2:
                return False
            env = self.env_at(int(j))

            def ex2(enc, env=env):
                cs = list(ex(enc))
                for k, v in norm.asg.items():
                    if k[0] != "b":
                        enc.poly(dict(k[1]))
                for i in list(enc.v):
                    inf = self.ring.info[i]
                    if inf["kind"] == "v" and i not in eqs and "unit" not in E.VINFO.get(inf["node"], {}):
                        v = env.get(self.ring.names[i])
                        if v is not None and not isinstance(v, bool):
                            cs.append(enc.v[i] == smt.qv(Fraction(v).limit_denominator(1 << 20)))
                return cs
            r, m, enc = smt.check_path(norm, ex2, self.z3t, model=True)
            if self.model_violation(norm, r, m, enc, label, always=label == "exception", base=int(j)):
                return True
        return False

    def model_violation(self, norm, r, m, enc, label, always=False, base=0):
        """turn a z3 model into an environment and replay it"""
        if m is None:
            return False
        env = {}
        for n in self.cx.samples:
            i = self.ring.keys.get(("v", n))
            val = None
            if i is not None and i in enc.v:
                z = m.eval(enc.v[i], model_completion=True)
                val = z3num(z)
            if val is None:
                val = self.cx.samples[n][base]
                val = bool(val) if np.asarray(val).dtype == bool else float(val)
            env[n] = val
        # angle variables: agree with the model's sine and cosine
        for inf in self.ring.info:
            sc = inf.get("sc")
            if sc and sc[0] in enc.v and sc[1] in enc.v:
                a = sc[2]
                if not a.den and len(a.n) == 1:
                    (mm, c), = a.n.items()
                    u = self.ring.unpack(mm)
                    if len(u) == 1 and u[0][1] == 1 and self.ring.info[u[0][0]]["kind"] == "v":
                        s, co = z3num(m.eval(enc.v[sc[0]], True)), z3num(m.eval(enc.v[sc[1]], True))
                        if s is not None and co is not None:
                            env[self.ring.names[u[0][0]]] = math.atan2(s, co) * a.cd / c
        # complete unit vectors
        for n in list(env):
            vi = E.VINFO.get(E.VARS.get(n), {})
            if "unit" in vi:
                nm = [E.AR[k][0] for k in vi["unit"]]
                v = np.array([env[q] for q in nm])
                l = np.linalg.norm(v)
                if abs(l - 1) > 1e-9 and l > 0:
                    for q, y in zip(nm, v / l):
                        env[q] = float(y)
        return self.try_violation(env, label, "z3 model", source="z3 model", always=always)

    def _tiny(self, d):
        """a residual that is only the rounding of a float literal"""
        big = max(abs(c) for c in d.n.values())
        return False if d.cd == 0 else (not d.den and big / d.cd < 1e-13)

    def defined(self, norm, mask, done):
        """no live division by zero or root of a negative number"""
        if not self.cx.definedness:
            return
        seen = self.__dict__.setdefault("dseen", {})
        roots = []
        for k, d, ok in done:
            kind, x, y = self.cx.obs[k][:3]
            roots.append(x)
            if y is not None:
                roots.append(y)
        live, st = set(), list(roots)
        dens = {}
        while st:
            n = st.pop()
            if n in live:
                continue
            live.add(n)
            op, ar = E.OP[n], E.AR[n]
            if op == "ite":
                try:
                    c = norm.cond(ar[0])
                except NeedSplit:
                    continue
                st.append(ar[1] if c else ar[2])
                continue
            if op == "div":
                dens[ar[1]] = "division"
            st.extend(E.children(n))
        asgk = frozenset(norm.asg.items())
        for n, what in dens.items():
            try:
                f = norm.nf(n)
            except (NeedSplit, ZeroDivisionError):
                continue
            if norm.const_of(f) not in (None, 0):
                continue
            g, p = self.ring.primitive(f.n) if f.n else (1, {})
            kk = (self.ring.pkey(p), asgk)
            if kk in seen:
                continue
            seen[kk] = True
            self.stats["definedness"] += 1
            if p.get(0, 0) > 0 and self.ring.poly_nonneg(p):
                continue
            if norm.asg.get(("pos", self.ring.pkey(p))) or norm.asg.get(("neg", self.ring.pkey(p))) \
                    or norm.asg.get(("eq", self.ring.pkey(p))) is False:
                continue
            atoms = smt.atoms_of(self.ring, p)
            r, m, enc = smt.check_path(norm, lambda enc: [enc.poly(p) == 0], self.z3t / 2, atoms=atoms, model=True)
            if str(r) == "unsat":
                continue
            if str(r) == "sat":
                label = self.cx.obs[done[0][0]][3]
                if self.model_violation(norm, r, m, enc, label):
                    return
            self.stats["definedness_open"] = self.stats.get("definedness_open", 0) + 1


def z3num(z):
    try:
        if smt.z3.is_rational_value(z):
            return float(z.as_fraction())
        if smt.z3.is_algebraic_value(z):
            return float(z.approx(20).as_fraction())
    except Exception:
        return None
    return None
