"""Models of the native sparse routines the repository calls (scipy, CHOLMOD),
active only while a case is executed symbolically.  Concrete replays run the
real libraries.

 csr_matrix/csc_matrix of symbolic values: an explicit list of entries; its
   products are the defining sums.
 numpy.array / torch.tensor / torch.Tensor / torch.from_numpy of symbolic
   values: the values themselves, rounded when the target type is narrower.
 sksparse.cholmod.analyze_AAt(P): a factor whose cholesky_AAt(A, beta) solves
   (A A^T + beta I) x = b exactly (the documented behaviour of CHOLMOD); the
   pattern of A must be the analysed one.
"""
import sys

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from . import tensor as T

try:
    import scipy.sparse as sps
except Exception:      # pragma: no cover
    sps = None
try:
    import sksparse.cholmod as cholmod
except Exception:      # pragma: no cover
    cholmod = None

_np_array, _np_asarray, _t_tensor, _t_as, _t_from = np.array, np.asarray, torch.tensor, torch.as_tensor, torch.from_numpy
_np_stack = np.stack


def _isym(x):
    return isinstance(x, (T.SymTensor, T.SymScalar))


def _hassym(x, depth=3):
    if _isym(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(_hassym(y, depth - 1) for y in x)
    return False


def _build(x):
    """nested lists of symbolic values -> SymTensor"""
    if isinstance(x, T.SymTensor):
        return x
    if isinstance(x, T.SymScalar):
        return T.mk([x.node], (), torch.float64)
    if isinstance(x, (list, tuple)):
        return torch.stack([_build(y) for y in x])
    return _t_as(x)


def _dt(dtype, x):
    if dtype is None:
        return x.dtype
    if isinstance(dtype, torch.dtype):
        return dtype
    return {np.dtype(np.float64): torch.float64, np.dtype(np.float32): torch.float32}[np.dtype(dtype)]


def np_array(x, dtype=None, *a, **k):
    if isinstance(x, T.SymTensor) and not x.dtype.is_floating_point:
        return _np_array(x.tolist(), dtype if dtype is not None else {torch.bool: bool}.get(x.dtype, np.int64), *a, **k)
    if _hassym(x):
        r = _build(x)
        return r.to(_dt(dtype, r)).clone()
    return _np_array(x, dtype, *a, **k)


def np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, T.SymTensor) and not x.dtype.is_floating_point:
        return np_array(x, dtype)
    if _hassym(x):
        r = _build(x)
        return r.to(_dt(dtype, r))
    return _np_asarray(x, dtype, *a, **k)


def np_stack(xs, axis=0, **k):
    if _hassym(list(xs)):
        return torch.stack([_build(x) for x in xs], axis)
    return _np_stack(xs, axis=axis, **k)


def t_tensor(x, *a, dtype=None, device=None, **k):
    if _hassym(x):
        r = _build(x)
        return r.detach().to(_dt(dtype, r)).clone()
    return _t_tensor(x, *a, dtype=dtype, device=device, **k)


def t_as(x, dtype=None, device=None):
    if _hassym(x):
        r = _build(x)
        return r.to(_dt(dtype, r))
    return _t_as(x, dtype=dtype, device=device)


def t_from(x):
    return x if isinstance(x, T.SymTensor) else _t_from(x)


class SymSparse:
    def __init__(self, fmt, data, indices, indptr, shape):
        self.fmt, self.data, self.shape = fmt, data, tuple(shape)
        self.indices = [int(i) for i in indices]
        self.indptr = [int(i) for i in indptr]
        assert len(self.indptr) == self.shape[0 if fmt == "csr" else 1] + 1

    def pattern(self):
        return self.fmt, self.shape, tuple(self.indices), tuple(self.indptr)

    def entries(self):
        for r in range(len(self.indptr) - 1):
            for k in range(self.indptr[r], self.indptr[r + 1]):
                yield (r, self.indices[k], k) if self.fmt == "csr" else (self.indices[k], r, k)

    def dot(self, v):
        v = v.reshape(-1) if v.dim() == 1 else v
        if v.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        out = [None] * self.shape[0]
        for i, j, k in self.entries():
            t = self.data[k] * v[j]
            out[i] = t if out[i] is None else out[i] + t
        z = torch.zeros_like(v[0]) * self.data.new_zeros(())
        return torch.stack([z if o is None else o for o in out])

    __matmul__ = __mul__ = dot

    @property
    def T(self):
        return SymSparse("csc" if self.fmt == "csr" else "csr", self.data, self.indices, self.indptr, self.shape[::-1])

    def transpose(self):
        return self.T

    def todense(self):
        n, m = self.shape
        out = [[torch.zeros((), dtype=self.data.dtype) for _ in range(m)] for _ in range(n)]
        for i, j, k in self.entries():
            out[i][j] = out[i][j] + self.data[k]
        return torch.stack([torch.stack(r) for r in out])

    toarray = todense


def _maker(fmt, real):
    def mk(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, tuple) and len(arg) == 3 and _isym(arg[0]):
            d = arg[0]
            return SymSparse(fmt, d.to(_dt(dtype, d)), arg[1], arg[2], shape)
        return real(arg, shape=shape, dtype=dtype, copy=copy)
    return mk


class SymChol:
    def __init__(self, A, beta, pattern):
        self.M = A.todense()
        self.n = A.shape[0]
        M = self.M @ self.M.transpose(0, 1)
        self.S = M + float(beta) * torch.eye(self.n, dtype=M.dtype) if not isinstance(beta, T.SymScalar) \
            else M + T.mk([beta.node], (), torch.float64) * torch.eye(self.n, dtype=M.dtype)

    def __call__(self, b):
        return torch.linalg.solve(self.S, b.double().reshape(self.n, -1)).reshape(b.shape)

    solve_A = __call__


class SymFactor:
    def __init__(self, P):
        self.P = P

    def cholesky_AAt(self, A, beta=0):
        if not isinstance(A, SymSparse):
            raise T.Unsupported("concrete factorisation")
        P = self.P
        if isinstance(P, SymSparse):
            same = P.pattern() == A.pattern()
        else:
            same = (P.shape == A.shape and list(P.indices) == A.indices and list(P.indptr) == A.indptr
                    and P.format == A.fmt)
        if not same:
            raise ValueError("matrix with a different pattern")
        return SymChol(A, beta, None)


class _TorchProxy:
    """torch as seen by a module: torch.Tensor(array) copies to float32"""
    def __init__(self):
        class Meta(type):
            def __instancecheck__(cls, x):
                return isinstance(x, torch.Tensor)

        class Tensor(metaclass=Meta):
            def __new__(cls, *a, **k):
                if len(a) == 1 and isinstance(a[0], T.SymTensor):
                    return a[0].to(torch.float32)
                return torch.Tensor(*a, **k)
        self.__dict__["Tensor"] = Tensor

    def __getattr__(self, k):
        return getattr(torch, k)


class ScalarMode(TorchFunctionMode):
    """a symbolic number given to a torch function acts as a 0-dim tensor of the
    other argument's type (converted to a C double it would become nan)"""
    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        sym = any(type(a) is T.SymScalar for a in args) or any(type(a) is T.SymScalar for a in kwargs.values())
        if not sym:
            return func(*args, **kwargs)
        ref = next((a for a in args if isinstance(a, torch.Tensor)), None)
        name = getattr(func, "__name__", "")
        dt = ref.dtype if ref is not None and ref.dtype.is_floating_point else (kwargs.get("dtype") or torch.get_default_dtype())

        def c(a):
            return T.mk([a.node], (), dt) if type(a) is T.SymScalar else a
        if name in ("full", "new_full", "full_like"):
            i = 2 if name == "new_full" else 1
            v = c(args[i] if len(args) > i else kwargs["fill_value"])
            size = (args[0] if name == "full" else args[1] if name == "new_full" else args[0].shape)
            return v.expand(tuple(size)).clone()
        if "alpha" in kwargs:
            raise T.Unsupported("symbolic alpha")
        if name in ("clamp", "clamp_", "clip"):
            lim = [None, None]
            for j, a in enumerate(args[1:3]):
                lim[j] = a
            for j, k in enumerate(("min", "max")):
                if k in kwargs:
                    lim[j] = kwargs[k]
            lim = [None if a is None else c(a) if type(a) is T.SymScalar else torch.as_tensor(a, dtype=dt) for a in lim]
            return func(args[0], *lim)
        return func(*[c(a) for a in args], **{k: c(v) for k, v in kwargs.items()})


ON = [False]


class active:
    """install the models for the duration of a symbolic execution"""
    def __enter__(self):
        self.undo = []
        if ON[0]:
            return self
        ON[0] = True
        self.top = True
        self.smode = ScalarMode()
        self.smode.__enter__()
        for mod, name, new in ((np, "array", np_array), (np, "asarray", np_asarray), (np, "stack", np_stack),
                               (torch, "tensor", t_tensor), (torch, "as_tensor", t_as), (torch, "from_numpy", t_from)):
            self._set(mod, name, new)
        reps = []
        if sps is not None:
            reps += [(sps.csr_matrix, _maker("csr", sps.csr_matrix)), (sps.csc_matrix, _maker("csc", sps.csc_matrix))]
        if cholmod is not None:
            reps += [(cholmod.analyze_AAt, SymFactor)]
        px = _TorchProxy()
        for nm, m in list(sys.modules.items()):
            if not nm.startswith("theseus") or m is None:
                continue
            d = vars(m)
            for k, v in list(d.items()):
                for old, new in reps:
                    if v is old:
                        self._set(m, k, new)
                if v is torch and nm.endswith("cholmod_sparse_autograd"):
                    self._set(m, k, px)
        np0 = self.np0 = T.SymTensor.numpy
        T.SymTensor.numpy = lambda t, *a, **k: t.detach() if t.dtype.is_floating_point else np0(t, *a, **k)
        return self

    def _set(self, mod, name, new):
        self.undo.append((mod, name, getattr(mod, name)))
        setattr(mod, name, new)

    def __exit__(self, *a):
        if getattr(self, "top", False):
            self.smode.__exit__(None, None, None)
            for mod, name, old in reversed(self.undo):
                setattr(mod, name, old)
            T.SymTensor.numpy = self.np0
            ON[0] = False
        return False
