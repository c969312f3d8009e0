"""SymTensor: a torch.Tensor whose elements are nodes of the expression DAG.

Data movement operators of ATen run unchanged on the int64 tensor of node ids
(aliasing views included); arithmetic operators build expression nodes.
Autograd sits above __torch_dispatch__, so the real autograd formulas and the
repository's custom autograd functions are executed symbolically as well.
"""
import math
from collections import Counter

from fractions import Fraction

import torch
from torch.utils._python_dispatch import TorchDispatchMode, return_and_correct_aliasing
from torch.utils._pytree import tree_map, tree_flatten

from . import expr as E

aten = torch.ops.aten
OPCOUNT = Counter()


class Unsupported(Exception):
    pass


class Ctl:
    """Hooks the explorer installs."""
    decide = None          # node -> bool
    concretize = None      # node -> Fraction
    int_range = None       # integers told apart by floor()
    int_only = False       # and its argument is assumed to lie between them
    assume = None          # node -> None
    zero = None            # node -> its normal form is zero
    random = None          # shape, kind -> ids list


_fcache = {}


def _cid(v, f32):
    k = (v, f32)
    if isinstance(v, float) and v != v:
        return E.NAN
    r = _fcache.get(k)
    if r is None or r >= len(E.OP):
        r = E.const(v, f32)
        _fcache[k] = r
    return r


def reset_cache():
    _fcache.clear()


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, ids, dtype, requires_grad=False):
        r = torch.Tensor._make_wrapper_subclass(
            cls, ids.shape, strides=ids.stride(), storage_offset=ids.storage_offset(),
            dtype=dtype, device=torch.device("cpu"), requires_grad=requires_grad)
        r._ids = ids
        return r

    __torch_function__ = torch._C._disabled_torch_function_impl

    def __repr__(self, **kw):
        try:
            with _NoMode():
                return "Sym%s(%s)" % (list(self.shape), [E.show(i, 3) for i in self._ids.flatten().tolist()[:6]])
        except Exception:
            return "Sym(?)"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def _one(self):
        with _NoMode():
            if self._ids.numel() != 1:
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
            return int(self._ids.item())

    def __bool__(self):
        return scalar_bool(self._one())

    def item(self):
        return scalar_item(self._one(), self.dtype)

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        return int(self.item())

    def tolist(self):
        ids = ids_list(self)
        out = [scalar_item(i, self.dtype) for i in ids]
        return _nest(out, tuple(self.shape))

    def numpy(self, *a, **k):
        import numpy as np
        vals = [scalar_item(i, self.dtype) for i in ids_list(self)]
        npdt = {torch.float32: np.float32, torch.float64: np.float64, torch.bool: np.bool_,
                torch.int64: np.int64}[self.dtype]
        return np.array(vals, dtype=npdt).reshape(tuple(self.shape))

    def __array__(self, *a, **k):
        return self.numpy()

    def __deepcopy__(self, memo):
        r = SymTensor(self._ids.clone(), self.dtype, self.requires_grad)
        memo[id(self)] = r
        return r

    def __hash__(self):
        return id(self)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


def _nest(flat, shape):
    if not shape:
        return flat[0]
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0] if shape[0] else 0
    return [_nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


class SymScalar(float):
    """A symbolic number that escaped through item(): prints as nan, and any
    comparison or arithmetic stays symbolic."""
    def __new__(cls, node):
        r = float.__new__(cls, math.nan)
        r.node = node
        return r

    @staticmethod
    def _n(o):
        if isinstance(o, SymScalar):
            return o.node
        if isinstance(o, SymTensor):
            return None
        return _cid(o, False)

    def _b(f):
        def g(self, o):
            n = SymScalar._n(o)
            if n is None:
                return NotImplemented
            return f(self.node, n)
        return g
    __add__ = __radd__ = _b(lambda a, b: wrap_scalar(E.add(a, b)))
    __sub__ = _b(lambda a, b: wrap_scalar(E.sub(a, b)))
    __rsub__ = _b(lambda a, b: wrap_scalar(E.sub(b, a)))
    __mul__ = __rmul__ = _b(lambda a, b: wrap_scalar(E.mul(a, b)))
    __truediv__ = _b(lambda a, b: wrap_scalar(E.div(a, b)))
    __rtruediv__ = _b(lambda a, b: wrap_scalar(E.div(b, a)))
    __lt__ = _b(lambda a, b: scalar_bool(E.lt(a, b)))
    __gt__ = _b(lambda a, b: scalar_bool(E.lt(b, a)))
    __le__ = _b(lambda a, b: scalar_bool(E.le(a, b)))
    __ge__ = _b(lambda a, b: scalar_bool(E.le(b, a)))
    __eq__ = _b(lambda a, b: scalar_bool(E.eq(a, b)))
    __ne__ = _b(lambda a, b: not scalar_bool(E.eq(a, b)))

    def __neg__(self):
        return wrap_scalar(E.neg(self.node))

    def __abs__(self):
        return wrap_scalar(E.absv(self.node))

    def __bool__(self):
        return scalar_bool(E.r2b(self.node))

    def __hash__(self):
        return hash(("sym", self.node))


def wrap_scalar(n):
    if E.OP[n] == "c":
        return float(E.cval(n))
    if E.OP[n] == "inf":
        return math.inf * E.AR[n][0]
    return SymScalar(n)


def scalar_bool(n):
    n = E.r2b(n)
    if n == 0:
        return False
    if n == 1:
        return True
    return Ctl.decide(n)


def scalar_item(n, dtype):
    if dtype == torch.bool:
        return scalar_bool(n)
    if not dtype.is_floating_point:
        return int(conc(n))
    return wrap_scalar(n)


def conc(n):
    if E.OP[n] == "c":
        return E.cval(n)
    if E.BOOL[n]:
        return 1 if Ctl.decide(n) else 0
    return Ctl.concretize(n)


class _NoMode:
    def __enter__(self):
        self.g = torch.utils._python_dispatch._disable_current_modes()
        self.g.__enter__()

    def __exit__(self, *a):
        return self.g.__exit__(*a)


# ------------------------------------------------------------ conversions
def to_ids(x, like_dtype=None):
    """Ids tensor for a SymTensor, plain tensor or python scalar."""
    if isinstance(x, SymTensor):
        return x._ids
    if isinstance(x, torch.Tensor):
        t = x.detach()
        f32 = t.dtype == torch.float32
        vals = t.reshape(-1).tolist()
        return torch.tensor([_cid(v, f32) for v in vals], dtype=torch.int64).reshape(t.shape)
    if isinstance(x, SymScalar):
        return torch.tensor(x.node)
    if isinstance(x, (int, float, bool)):
        return torch.tensor(_cid(x, False), dtype=torch.int64)
    raise Unsupported("operand %r" % type(x))


def ids_list(t):
    with _NoMode():
        return to_ids(t).reshape(-1).tolist()


def mk(idlist, shape, dtype):
    return SymTensor(torch.tensor(idlist, dtype=torch.int64).reshape(shape), dtype)


def _cat(dt):
    return 0 if dt == torch.bool else (1 if not dt.is_floating_point else 2)


def result_dtype(*xs):
    best = None; bestc = -1
    zd = None; zc = -1
    sc = -1; sdt = None
    for x in xs:
        if isinstance(x, torch.Tensor):
            c = _cat(x.dtype)
            if x.dim() > 0:
                best = x.dtype if best is None else torch.promote_types(best, x.dtype)
                bestc = max(bestc, c)
            else:
                zd = x.dtype if zd is None else torch.promote_types(zd, x.dtype)
                zc = max(zc, c)
        else:
            c = 0 if isinstance(x, bool) else (1 if isinstance(x, int) else 2)
            sc = max(sc, c)
    if best is None and zd is not None:
        best, bestc = zd, zc
    elif best is not None and zd is not None and zc > bestc:
        best = torch.promote_types(best, zd) if bestc else zd
        bestc = zc
    if sc > bestc:
        best = {0: torch.bool, 1: torch.int64, 2: torch.get_default_dtype()}[sc]
    return best


def cast_id(i, src, dst):
    if src == dst:
        return i
    if i in (0, 1):
        return i
    if src == torch.bool:
        return E.b2r(i)
    if dst == torch.bool:
        return E.r2b(i)
    if dst.is_floating_point:
        if src == torch.float64 and dst == torch.float32:
            return E.fn("rnd32", i)
        return i
    if src.is_floating_point:
        return i if E.integral(i) else E.fn("trunc", i)
    return i


def cast(t, dtype):
    if t.dtype == dtype:
        return t
    if not isinstance(t, SymTensor):
        t = SymTensor(to_ids(t), t.dtype)
    s = t.dtype
    return mk([cast_id(i, s, dtype) for i in t._ids.reshape(-1).tolist()], t.shape, dtype)


def dtype_of(x):
    if isinstance(x, torch.Tensor):
        return x.dtype
    return torch.bool if isinstance(x, bool) else (torch.int64 if isinstance(x, int) else torch.float64)


def elementwise(f, xs, out_dtype, numeric=True, boolean=False):
    """Apply f to broadcast ids.  numeric: booleans are converted to 0/1."""
    ids = [to_ids(x) for x in xs]
    if len(ids) > 1:
        ids = torch.broadcast_tensors(*ids)
    shape = ids[0].shape
    ls = []
    for x, i in zip(xs, ids):
        l = i.reshape(-1).tolist()
        if numeric and dtype_of(x) == torch.bool:
            l = [E.b2r(a) for a in l]
        if boolean and dtype_of(x) != torch.bool:
            l = [E.r2b(a) for a in l]
        ls.append(l)
    if len(ls) == 1:
        out = [f(a) for a in ls[0]]
    elif len(ls) == 2:
        out = [f(a, b) for a, b in zip(*ls)]
    else:
        out = [f(*a) for a in zip(*ls)]
    if not out_dtype.is_floating_point and out_dtype != torch.bool and out and all(E.OP[o] == "c" for o in out):
        return torch.tensor([int(E.cval(o)) for o in out], dtype=out_dtype).reshape(shape)
    return mk(out, shape, out_dtype)


HANDLERS = {}


def op(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


# ------------------------------------------------------------ arithmetic
def _fl(dt):
    return dt if dt.is_floating_point else torch.get_default_dtype()


@op("add")
def _add(a, b, *, alpha=1):
    dt = result_dtype(a, b)
    if alpha != 1:
        k = _cid(alpha, False) if not isinstance(alpha, SymScalar) else alpha.node
        return elementwise(lambda x, y: E.add(x, E.mul(k, y)), [a, b], dt)
    if dt == torch.bool:
        return elementwise(E.or_, [a, b], dt, numeric=False)
    return elementwise(E.add, [a, b], dt)


@op("sub")
def _sub(a, b, *, alpha=1):
    k = _cid(alpha, False)
    return elementwise(lambda x, y: E.sub(x, E.mul(k, y)), [a, b], result_dtype(a, b))


@op("rsub")
def _rsub(a, b, alpha=1):
    k = _cid(alpha, False)
    return elementwise(lambda x, y: E.sub(y, E.mul(k, x)), [a, b], result_dtype(a, b))


@op("mul")
def _mul(a, b):
    dt = result_dtype(a, b)
    if dt == torch.bool:
        return elementwise(E.and_, [a, b], dt, numeric=False)
    return elementwise(E.mul, [a, b], dt)


@op("div", "true_divide")
def _div(a, b, *, rounding_mode=None):
    if rounding_mode is not None:
        dt = result_dtype(a, b)
        nm = "floor" if rounding_mode == "floor" else "trunc"
        return elementwise(lambda x, y: E.fn(nm, E.div(x, y)), [a, b], dt)
    return elementwise(E.div, [a, b], _fl(result_dtype(a, b)))


@op("floor_divide")
def _fdiv(a, b):
    return elementwise(lambda x, y: E.fn("floor", E.div(x, y)), [a, b], result_dtype(a, b))


@op("remainder", "fmod")
def _rem(a, b):
    return elementwise(lambda x, y: E.sub(x, E.mul(y, E.fn("floor", E.div(x, y)))), [a, b], result_dtype(a, b))


@op("addcmul")
def _addcmul(s, a, b, *, value=1):
    k = _cid(value, False)
    return elementwise(lambda x, y, z: E.add(x, E.mul(k, E.mul(y, z))), [s, a, b], result_dtype(s, a, b))


@op("addcdiv")
def _addcdiv(s, a, b, *, value=1):
    k = _cid(value, False)
    return elementwise(lambda x, y, z: E.add(x, E.mul(k, E.div(y, z))), [s, a, b], result_dtype(s, a, b))


@op("lerp")
def _lerp(a, b, w):
    return elementwise(lambda x, y, z: E.add(x, E.mul(z, E.sub(y, x))), [a, b, w], result_dtype(a, b))


def powf(a, e):
    if E.OP[e] == "c":
        q = E.cval(e)
        if q.denominator == 1 and abs(q) < 64:
            return E.powi(a, int(q))
        if q.denominator == 2 and abs(q) < 16:
            return E.powi(E.sqrt(a), int(q * 2))
    return E.fn("exp", E.mul(e, E.fn("log", a)))


@op("pow")
def _pow(a, b):
    return elementwise(powf, [a, b], result_dtype(a, b))


@op("square")
def _square(a):
    return elementwise(lambda x: E.powi(x, 2), [a], a.dtype)


def _un(name, f, fl=True):
    def h(a):
        return elementwise(f, [a], _fl(a.dtype) if fl else a.dtype)
    HANDLERS[name] = h


_un("neg", E.neg, False)
_un("abs", E.absv, False)
_un("sign", E.sign, False)
_un("sgn", E.sign, False)
_un("reciprocal", lambda x: E.div(1, x))
_un("sqrt", E.sqrt)
_un("rsqrt", lambda x: E.div(1, E.sqrt(x)))
for _n in ["sin", "cos", "tan", "exp", "log", "atan", "asin", "acos", "tanh", "sigmoid", "log1p", "sinh", "cosh"]:
    _un(_n, (lambda nm: lambda x: E.fn(nm, x))(_n))


def _floor_node(x):
    """the integer below x: decided by forking within the case's int_range, an opaque integer outside"""
    if E.OP[x] == "c" or Ctl.int_range is None:
        return E.fn("floor", x)
    lo, hi = Ctl.int_range
    if Ctl.int_only:
        Ctl.assume(E.le(E.const(lo), x))
        Ctl.assume(E.lt(x, E.const(hi)))
        n = None
    elif Ctl.decide(E.lt(x, E.const(lo))):
        n, below = E.fn("floor", x), True
    elif not Ctl.decide(E.lt(x, E.const(hi))):
        n, below = E.fn("floor", x), False
    else:
        n = None
    if n is None:
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if Ctl.decide(E.lt(x, E.const(mid))):
                hi = mid
            else:
                lo = mid
        return E.const(lo)
    for f in (E.lt(n, E.const(lo)) if below else E.not_(E.lt(n, E.const(hi))), E.le(n, x), E.lt(x, E.add(n, 1))):
        Ctl.assume(f)
    return n


_un("floor", _floor_node, False)
for _n in ["ceil", "trunc", "round"]:
    _un(_n, (lambda nm: lambda x: E.fn(nm, x))(_n), False)
_un("expm1", lambda x: E.sub(E.fn("exp", x), 1))
_un("relu", lambda x: E.maxv(x, 0), False)
_un("positive", lambda x: x, False)
_un("frac", lambda x: E.sub(x, E.fn("trunc", x)), False)
_un("conj_physical", lambda x: x, False)
_un("_conj", lambda x: x, False)
_un("silu", lambda x: E.mul(x, E.fn("sigmoid", x)))
_un("softplus", lambda x: E.fn("log", E.add(1, E.fn("exp", x))))


@op("logit", "special_logit")
def _logit(a, eps=None):
    return elementwise(lambda x: E.AR[x][1] if E.OP[x] == "fn" and E.AR[x][0] == "sigmoid" else
                       E.sub(E.fn("log", x), E.fn("log", E.sub(1, x))), [a], _fl(a.dtype))


@op("atan2", "arctan2")
def _atan2(a, b):
    return elementwise(lambda y, x: E.fn("atan2", y, x), [a, b], _fl(result_dtype(a, b)))


@op("hypot")
def _hypot(a, b):
    return elementwise(lambda y, x: E.sqrt(E.add(E.powi(y, 2), E.powi(x, 2))), [a, b], result_dtype(a, b))


@op("maximum", "fmax")
def _maximum(a, b):
    return elementwise(E.maxv, [a, b], result_dtype(a, b))


@op("minimum", "fmin")
def _minimum(a, b):
    return elementwise(E.minv, [a, b], result_dtype(a, b))


@op("clamp", "clip")
def _clamp(a, min=None, max=None):
    r = a
    if min is not None:
        r = elementwise(E.maxv, [r, min], result_dtype(r, min) if isinstance(min, torch.Tensor) else a.dtype)
    if max is not None:
        r = elementwise(E.minv, [r, max], result_dtype(r, max) if isinstance(max, torch.Tensor) else a.dtype)
    return r if r is not a else HANDLERS["clone"](a)


@op("clamp_min")
def _clamp_min(a, b):
    return _clamp(a, min=b)


@op("clamp_max")
def _clamp_max(a, b):
    return _clamp(a, max=b)


@op("threshold_backward")
def _thb(g, s, t):
    tt = _cid(t, False)
    return elementwise(lambda x, y: E.ite(E.le(y, tt), 0, x), [g, s], g.dtype)


@op("nan_to_num")
def _nan_to_num(a, nan=None, posinf=None, neginf=None):
    return HANDLERS["clone"](a)


@op("heaviside")
def _heav(a, v):
    return elementwise(lambda x, y: E.ite(E.lt(x, 0), 0, E.ite(E.lt(0, x), 1, y)), [a, v], a.dtype)


@op("copysign")
def _copysign(a, b):
    return elementwise(lambda x, y: E.ite(E.lt(y, 0), E.neg(E.absv(x)), E.absv(x)), [a, b], result_dtype(a, b))


# autograd backward formulas that reach dispatch as single operators
@op("sigmoid_backward")
def _sigb(g, y):
    return elementwise(lambda a, b: E.mul(a, E.mul(b, E.sub(1, b))), [g, y], g.dtype)


@op("tanh_backward")
def _tanhb(g, y):
    return elementwise(lambda a, b: E.mul(a, E.sub(1, E.mul(b, b))), [g, y], g.dtype)


# ------------------------------------------------------------ comparisons
def _cmp(name, f):
    def h(a, b):
        return elementwise(f, [a, b], torch.bool)
    HANDLERS[name] = h


_cmp("lt", E.lt)
_cmp("le", E.le)
_cmp("gt", lambda a, b: E.lt(b, a))
_cmp("ge", lambda a, b: E.le(b, a))


@op("eq")
def _eq(a, b):
    bb = dtype_of(a) == torch.bool and dtype_of(b) == torch.bool
    return elementwise(E.iff if bb else E.eq, [a, b], torch.bool, numeric=not bb)


@op("ne")
def _ne(a, b):
    bb = dtype_of(a) == torch.bool and dtype_of(b) == torch.bool
    g = E.iff if bb else E.eq
    return elementwise(lambda x, y: E.not_(g(x, y)), [a, b], torch.bool, numeric=not bb)


def _lg(name, f):
    def h(a, b=None):
        xs = [a] if b is None else [a, b]
        return elementwise(f, xs, torch.bool, numeric=False, boolean=True)
    HANDLERS[name] = h


_lg("logical_and", E.and_)
_lg("logical_or", E.or_)
_lg("logical_xor", E.xor)
_lg("logical_not", E.not_)


def _bit(name, f):
    def h(a, b=None):
        if a.dtype != torch.bool:
            raise Unsupported(name + " on integers")
        return elementwise(f, [a] if b is None else [a, b], torch.bool, numeric=False, boolean=True)
    HANDLERS[name] = h


_bit("bitwise_and", E.and_); _bit("__and__", E.and_)
_bit("bitwise_or", E.or_); _bit("__or__", E.or_)
_bit("bitwise_xor", E.xor); _bit("__xor__", E.xor)
_bit("bitwise_not", E.not_)


@op("isnan")
def _isnan(a):
    return elementwise(lambda x: 1 if E.OP[x] == "nan" else 0, [a], torch.bool)


@op("isinf")
def _isinf(a):
    return elementwise(lambda x: 1 if E.OP[x] == "inf" else 0, [a], torch.bool)


@op("isfinite")
def _isfinite(a):
    return elementwise(lambda x: 0 if E.OP[x] in ("inf", "nan") else 1, [a], torch.bool)


@op("where")
def _where(c, a=None, b=None):
    if a is None:
        return torch.where(conc_mask(c))
    dt = result_dtype(a, b)
    ids = torch.broadcast_tensors(to_ids(c), to_ids(a), to_ids(b))
    sh = ids[0].shape
    da, db = dtype_of(a), dtype_of(b)
    if dt.is_floating_point:
        # python scalars and same-kind operands do not round
        da = dt if da.is_floating_point and (not isinstance(a, torch.Tensor) or a.dim() == 0) else da
        db = dt if db.is_floating_point and (not isinstance(b, torch.Tensor) or b.dim() == 0) else db
    out = [E.ite(E.r2b(x), cast_id(y, da, dt), cast_id(z, db, dt))
           for x, y, z in zip(*[i.reshape(-1).tolist() for i in ids])]
    if not dt.is_floating_point and dt != torch.bool and all(E.OP[o] == "c" for o in out):
        return torch.tensor([int(E.cval(o)) for o in out], dtype=dt).reshape(sh)
    return mk(out, sh, dt)


@op("masked_fill")
def _masked_fill(s, m, v):
    dt = s.dtype
    ids = torch.broadcast_tensors(to_ids(s), to_ids(m), to_ids(v))
    return mk([E.ite(E.r2b(c), x, y) for y, c, x in zip(*[i.reshape(-1).tolist() for i in ids])], ids[0].shape, dt)


# ------------------------------------------------------------ reductions
def _norm_dims(dim, nd):
    if dim is None:
        return list(range(nd))
    if isinstance(dim, int):
        dim = [dim]
    dim = list(dim)
    if not dim:
        return list(range(nd))
    return sorted(d % nd if nd else 0 for d in dim)


def reduce(f, t, dim, keepdim, out_dtype, pre=None):
    ids = to_ids(t)
    nd = ids.dim()
    if nd == 0:
        rows = [[int(ids)]]
        shape = []
    else:
        dims = _norm_dims(dim, nd)
        rest = [d for d in range(nd) if d not in dims]
        p = ids.permute(rest + dims)
        n = 1
        for d in dims:
            n *= ids.shape[d]
        shape = [1 if d in dims else ids.shape[d] for d in range(nd)] if keepdim else [ids.shape[d] for d in rest]
        m = 1
        for d in rest:
            m *= ids.shape[d]
        rows = p.reshape(m, n).tolist()
    if pre:
        rows = [[pre(x) for x in r] for r in rows]
    out = [f(r) for r in rows]
    if not out_dtype.is_floating_point and out_dtype != torch.bool and all(E.OP[o] == "c" for o in out):
        return torch.tensor([int(E.cval(o)) for o in out], dtype=out_dtype).reshape(shape)
    return mk(out, shape, out_dtype)


def ssum(r):
    a = 0
    for x in r:
        a = E.add(a, x)
    return a


def _pre(t):
    return E.b2r if t.dtype == torch.bool else None


@op("sum")
def _sum(t, dim=None, keepdim=False, *, dtype=None):
    dt = dtype or (t.dtype if t.dtype.is_floating_point else torch.int64)
    return reduce(ssum, t, dim, keepdim, dt, _pre(t))


@op("mean")
def _mean(t, dim=None, keepdim=False, *, dtype=None):
    return reduce(lambda r: E.div(ssum(r), E.const(len(r))), t, dim, keepdim, dtype or t.dtype, _pre(t))


def sprod(r):
    a = 1
    for x in r:
        a = E.mul(a, x)
    return a


@op("prod")
def _prod(t, dim=None, keepdim=False, *, dtype=None):
    dt = dtype or (t.dtype if t.dtype.is_floating_point else torch.int64)
    return reduce(sprod, t, dim, keepdim, dt, _pre(t))


def _all_(r):
    a = 1
    for x in r:
        a = E.and_(a, E.r2b(x))
    return a


def _any_(r):
    a = 0
    for x in r:
        a = E.or_(a, E.r2b(x))
    return a


@op("all")
def _all(t, dim=None, keepdim=False):
    return reduce(_all_, t, dim, keepdim, torch.bool)


@op("any")
def _any(t, dim=None, keepdim=False):
    return reduce(_any_, t, dim, keepdim, torch.bool)


def smax(r):
    a = r[0]
    for x in r[1:]:
        a = E.maxv(a, x)
    return a


def smin(r):
    a = r[0]
    for x in r[1:]:
        a = E.minv(a, x)
    return a


@op("amax")
def _amax(t, dim=(), keepdim=False):
    return reduce(smax, t, dim, keepdim, t.dtype)


@op("amin")
def _amin(t, dim=(), keepdim=False):
    return reduce(smin, t, dim, keepdim, t.dtype)


def order(ids, descending=False):
    """Stable sort of node ids by value; forks on comparisons."""
    out = []
    for k, x in enumerate(ids):
        pos = len(out)
        while pos > 0:
            y = out[pos - 1][1]
            c = E.lt(y, x) if descending else E.lt(x, y)
            if scalar_bool(c):
                pos -= 1
            else:
                break
        out.insert(pos, (k, x))
    return [k for k, _ in out]


def _argsel(t, dim, keepdim, descending):
    ids = to_ids(t)
    dim = dim % ids.dim() if ids.dim() else 0
    p = ids.movedim(dim, -1) if ids.dim() else ids.reshape(1)
    sh = p.shape[:-1]
    rows = p.reshape(-1, p.shape[-1]).tolist()
    v, ix = [], []
    for r in rows:
        b = 0
        for k in range(1, len(r)):
            c = E.lt(r[b], r[k]) if descending else E.lt(r[k], r[b])
            if scalar_bool(c):
                b = k
        v.append(r[b]); ix.append(b)
    vt = torch.tensor(v, dtype=torch.int64).reshape(sh)
    it = torch.tensor(ix, dtype=torch.int64).reshape(sh)
    if keepdim and ids.dim():
        vt = vt.unsqueeze(dim); it = it.unsqueeze(dim)
    return SymTensor(vt, t.dtype), it


@op("max")
def _max(t, dim=None, keepdim=False):
    if dim is None:
        return reduce(smax, t, None, False, t.dtype)
    if isinstance(dim, torch.Tensor):
        return _maximum(t, dim)
    return torch.return_types.max(_argsel(t, dim, keepdim, True))


@op("min")
def _min(t, dim=None, keepdim=False):
    if dim is None:
        return reduce(smin, t, None, False, t.dtype)
    if isinstance(dim, torch.Tensor):
        return _minimum(t, dim)
    return torch.return_types.min(_argsel(t, dim, keepdim, False))


@op("aminmax")
def _aminmax(t, *, dim=None, keepdim=False):
    return torch.return_types.aminmax((reduce(smin, t, dim, keepdim, t.dtype), reduce(smax, t, dim, keepdim, t.dtype)))


@op("argmax")
def _argmax(t, dim=None, keepdim=False):
    if dim is None:
        t, dim = SymTensor(to_ids(t).reshape(-1), t.dtype), 0
    return _argsel(t, dim, keepdim, True)[1]


@op("argmin")
def _argmin(t, dim=None, keepdim=False):
    if dim is None:
        t, dim = SymTensor(to_ids(t).reshape(-1), t.dtype), 0
    return _argsel(t, dim, keepdim, False)[1]


def _sort_impl(t, dim, descending):
    ids = to_ids(t)
    if ids.dim() == 0:
        return SymTensor(ids.clone(), t.dtype), torch.tensor(0)
    p = ids.movedim(dim, -1)
    rows = p.reshape(-1, p.shape[-1]).tolist()
    perm = [order(r, descending) for r in rows]
    it = torch.tensor(perm, dtype=torch.int64).reshape(p.shape)
    v = torch.gather(p, -1, it)
    return SymTensor(v.movedim(-1, dim).contiguous(), t.dtype), it.movedim(-1, dim).contiguous()


@op("sort")
def _sort(t, dim=-1, descending=False, stable=None, **kw):
    if isinstance(dim, bool) or dim is None:
        dim, descending = descending, stable
    return torch.return_types.sort(_sort_impl(t, kw.get("dim", dim), kw.get("descending", descending)))


def _sort_stable(t, *, stable=None, dim=-1, descending=False):
    return torch.return_types.sort(_sort_impl(t, dim, descending))


@op("argsort")
def _argsort(t, dim=-1, descending=False, **kw):
    return _sort_impl(t, kw.get("dim", dim), descending)[1]


@op("topk")
def _topk(t, k, dim=-1, largest=True, sorted=True):
    v, i = _sort_impl(t, dim, largest)
    with _NoMode():
        return torch.return_types.topk((SymTensor(v._ids.narrow(dim, 0, k).clone(), t.dtype), i.narrow(dim, 0, k).clone()))


@op("cumsum")
def _cumsum(t, dim, *, dtype=None):
    ids = to_ids(t)
    if t.dtype == torch.bool:
        ids = to_ids(cast(t, torch.int64))
    p = ids.movedim(dim, -1)
    out = []
    for r in p.reshape(-1, p.shape[-1]).tolist():
        a = 0
        for x in r:
            a = E.add(a, x)
            out.append(a)
    dt = dtype or (t.dtype if t.dtype.is_floating_point else torch.int64)
    return SymTensor(torch.tensor(out, dtype=torch.int64).reshape(p.shape).movedim(-1, dim).contiguous(), dt)


@op("linalg_vector_norm")
def _vnorm(t, ord=2, dim=None, keepdim=False, *, dtype=None):
    dt = dtype or t.dtype
    if ord == 2:
        f = lambda r: E.absv(r[0]) if len(r) == 1 else E.sqrt(ssum([E.powi(x, 2) for x in r]))
    elif ord == 1:
        f = lambda r: ssum([E.absv(x) for x in r])
    elif ord == math.inf:
        f = lambda r: smax([E.absv(x) for x in r])
    else:
        raise Unsupported("norm ord %s" % ord)
    return reduce(f, t, dim, keepdim, dt)


@op("norm")
def _norm(t, p=2, dim=None, keepdim=False, *, dtype=None):
    return _vnorm(t, 2 if p in (None, "fro") else p, dim, keepdim, dtype=dtype)


@op("count_nonzero")
def _cnz(t, dim=None):
    return reduce(lambda r: ssum([E.b2r(E.r2b(x)) for x in r]), t, dim, False, torch.int64)


@op("var")
def _var(t, dim=None, *, correction=1, keepdim=False):
    c = 1 if correction is None else correction

    def f(r):
        m = E.div(ssum(r), E.const(len(r)))
        return E.div(ssum([E.powi(E.sub(x, m), 2) for x in r]), E.const(len(r) - c))
    return reduce(f, t, dim, keepdim, t.dtype)


@op("std")
def _std(t, dim=None, *, correction=1, keepdim=False):
    return elementwise(E.sqrt, [_var(t, dim, correction=correction, keepdim=keepdim)], t.dtype)


@op("trace")
def _trace(t):
    return _sum(SymTensor(to_ids(t).diagonal(), t.dtype))


# ------------------------------------------------------------ matrix products
def _mm_rows(A, B):
    bt = list(zip(*B)) if B else []
    return [[ssum([E.mul(x, y) for x, y in zip(r, c)]) for c in bt] for r in A]


def mm_ids(a, b):
    n, m = a.shape
    p = b.shape[1]
    if m == 0:
        return torch.zeros(n, p, dtype=torch.int64)
    return torch.tensor(_mm_rows(a.tolist(), b.tolist()), dtype=torch.int64).reshape(n, p)


def _nums(t):
    return to_ids(cast(t, torch.get_default_dtype()) if isinstance(t, torch.Tensor) and t.dtype == torch.bool else t)


def _mmcheck(a, b):
    if a.dtype != b.dtype:
        raise RuntimeError("expected m1 and m2 to have the same dtype, but got: %s != %s" % (a.dtype, b.dtype))


@op("mm")
def _mm(a, b):
    _mmcheck(a, b)
    return SymTensor(mm_ids(to_ids(a), to_ids(b)), a.dtype)


@op("bmm")
def _bmm(a, b):
    _mmcheck(a, b)
    A, B = to_ids(a), to_ids(b)
    if A.shape[0] != B.shape[0]:
        raise RuntimeError("batch1 and batch2 must have same number of batches")
    if A.shape[0] == 0:
        return SymTensor(torch.zeros(0, A.shape[1], B.shape[2], dtype=torch.int64), a.dtype)
    return SymTensor(torch.stack([mm_ids(x, y) for x, y in zip(A, B)]), a.dtype)


@op("mv")
def _mv(a, b):
    _mmcheck(a, b)
    return SymTensor(mm_ids(to_ids(a), to_ids(b).unsqueeze(1)).squeeze(1), a.dtype)


@op("dot", "vdot")
def _dot(a, b):
    _mmcheck(a, b)
    return mk([ssum([E.mul(x, y) for x, y in zip(to_ids(a).tolist(), to_ids(b).tolist())])], [], a.dtype)


@op("addmm")
def _addmm(c, a, b, *, beta=1, alpha=1):
    return _lin(c, _mm(a, b), beta, alpha)


@op("baddbmm")
def _baddbmm(c, a, b, *, beta=1, alpha=1):
    return _lin(c, _bmm(a, b), beta, alpha)


@op("addmv")
def _addmv(c, a, b, *, beta=1, alpha=1):
    return _lin(c, _mv(a, b), beta, alpha)


def _lin(c, p, beta, alpha):
    kb, ka = _cid(beta, False), _cid(alpha, False)
    return elementwise(lambda x, y: E.add(E.mul(kb, x), E.mul(ka, y)), [c, p], p.dtype)


@op("addbmm")
def _addbmm(c, a, b, *, beta=1, alpha=1):
    return _lin(c, _sum(_bmm(a, b), 0), beta, alpha)


@op("linalg_cross")
def _cross(a, b, *, dim=-1):
    A, B = torch.broadcast_tensors(to_ids(a), to_ids(b))
    dim = dim % A.dim()
    A = A.movedim(dim, -1); B = B.movedim(dim, -1)
    out = []
    for x, y in zip(A.reshape(-1, 3).tolist(), B.reshape(-1, 3).tolist()):
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            out.append(E.sub(E.mul(x[j], y[k]), E.mul(x[k], y[j])))
    return SymTensor(torch.tensor(out, dtype=torch.int64).reshape(A.shape).movedim(-1, dim).contiguous(), result_dtype(a, b))


# ------------------------------------------------------------ dense linear algebra
def chol_rows(A):
    n = len(A)
    L = [[0] * n for _ in range(n)]
    for j in range(n):
        s = A[j][j]
        for k in range(j):
            s = E.sub(s, E.powi(L[j][k], 2))
        L[j][j] = E.sqrt(s)
        for i in range(j + 1, n):
            s = A[i][j]
            for k in range(j):
                s = E.sub(s, E.mul(L[i][k], L[j][k]))
            L[i][j] = E.div(s, L[j][j])
    return L


def _batched(t, f):
    ids = to_ids(t)
    sh = ids.shape[:-2]
    if 0 in sh:
        return SymTensor(ids.clone(), t.dtype)
    out = [torch.tensor(f(m), dtype=torch.int64) for m in ids.reshape(-1, *ids.shape[-2:]).tolist()]
    r = torch.stack(out)
    return SymTensor(r.reshape(*sh, *r.shape[1:]), t.dtype)


@op("linalg_cholesky_ex")
def _cholex(t, *, upper=False, check_errors=False):
    def f(m):
        L = chol_rows(m)
        return [list(r) for r in zip(*L)] if upper else L
    return torch.return_types.linalg_cholesky_ex((_batched(t, f), torch.zeros(t.shape[:-2], dtype=torch.int32)))


@op("cholesky")
def _chol(t, upper=False):
    return _cholex(t, upper=upper)[0]


def tri_solve(L, B, upper, unit=False):
    n = len(L)
    X = [None] * n
    rng = range(n - 1, -1, -1) if upper else range(n)
    for i in rng:
        row = list(B[i])
        ks = range(i + 1, n) if upper else range(i)
        for k in ks:
            row = [E.sub(x, E.mul(L[i][k], y)) for x, y in zip(row, X[k])]
        X[i] = row if unit else [E.div(x, L[i][i]) for x in row]
    return X


def _T(m):
    return [list(r) for r in zip(*m)]


def _batched2(a, b, f, dt):
    A, B = to_ids(a), to_ids(b)
    bs = torch.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = A.expand(*bs, *A.shape[-2:]); B = B.expand(*bs, *B.shape[-2:])
    if 0 in bs:
        e = torch.tensor(f(torch.eye(A.shape[-1], dtype=torch.int64).tolist(), torch.ones(B.shape[-2:], dtype=torch.int64).tolist()))
        return SymTensor(torch.zeros(*bs, *e.shape, dtype=torch.int64), dt)
    out = [torch.tensor(f(x, y), dtype=torch.int64) for x, y in
           zip(A.reshape(-1, *A.shape[-2:]).tolist(), B.reshape(-1, *B.shape[-2:]).tolist())]
    r = torch.stack(out)
    return SymTensor(r.reshape(*bs, *r.shape[1:]), dt)


@op("cholesky_solve", "_cholesky_solve_helper")
def _cholsolve(b, L, upper=False):
    _mmcheck(b, L)

    def f(l, y):
        if upper:
            l = _T(l)
        return tri_solve(_T(l), tri_solve(l, y, False), True)
    return _batched2(L, b, f, b.dtype)


@op("linalg_solve_triangular")
def _lst(A, B, *, upper, left=True, unitriangular=False):
    def f(a, b):
        if left:
            return tri_solve(a, b, upper, unitriangular)
        return _T(tri_solve(_T(a), _T(b), not upper, unitriangular))
    return _batched2(A, B, f, B.dtype)


@op("triangular_solve")
def _trs(b, A, upper=True, transpose=False, unitriangular=False):
    def f(a, y):
        return tri_solve(_T(a) if transpose else a, y, upper != transpose, unitriangular)
    return torch.return_types.triangular_solve((_batched2(A, b, f, b.dtype), A))


def det_rows(M):
    n = len(M)
    if n == 0:
        return 1
    if n == 1:
        return M[0][0]
    if n == 2:
        return E.sub(E.mul(M[0][0], M[1][1]), E.mul(M[0][1], M[1][0]))
    a = 0
    for j in range(n):
        if M[0][j] == 0:
            continue
        minor = [r[:j] + r[j + 1:] for r in M[1:]]
        t = E.mul(M[0][j], det_rows(minor))
        a = E.add(a, t) if j % 2 == 0 else E.sub(a, t)
    return a


def adj_inv(M):
    n = len(M)
    d = det_rows(M)
    R = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [r[:j] + r[j + 1:] for k, r in enumerate(M) if k != i]
            c = det_rows(minor)
            if (i + j) % 2:
                c = E.neg(c)
            R[j][i] = E.div(c, d)
    return R


def solve_rows(A, B):
    """Gaussian elimination without pivoting for larger systems, Cramer for small."""
    n = len(A)
    if n <= 4:
        return _mm_rows(adj_inv(A), B)
    A = [list(r) for r in A]; B = [list(r) for r in B]
    for k in range(n):
        if A[k][k] == 0:
            for r in range(k + 1, n):
                if A[r][k] != 0:
                    A[k], A[r] = A[r], A[k]; B[k], B[r] = B[r], B[k]
                    break
        for i in range(k + 1, n):
            if A[i][k] == 0:
                continue
            m = E.div(A[i][k], A[k][k])
            A[i] = [E.sub(x, E.mul(m, y)) for x, y in zip(A[i], A[k])]
            A[i][k] = 0
            B[i] = [E.sub(x, E.mul(m, y)) for x, y in zip(B[i], B[k])]
    return tri_solve(A, B, True)


@op("linalg_inv_ex")
def _invex(t, *, check_errors=False):
    n = t.shape[-1]

    def f(m):
        I = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        return solve_rows(m, I)
    return torch.return_types.linalg_inv_ex((_batched(t, f), torch.zeros(t.shape[:-2], dtype=torch.int32)))


@op("_linalg_det")
def _det(t):
    ids = to_ids(t)
    out = [det_rows(m) for m in ids.reshape(-1, *ids.shape[-2:]).tolist()]
    r = SymTensor(torch.tensor(out, dtype=torch.int64).reshape(ids.shape[:-2]), t.dtype)
    return (r, t, torch.zeros(t.shape[:-1], dtype=torch.int32))


@op("linalg_det")
def _det1(t):
    return _det(t)[0]


@op("_linalg_solve_ex")
def _solve_ex(A, B, *, left=True, check_errors=False):
    _mmcheck(A, B)
    vec = B.dim() == 1 or (B.dim() == A.dim() - 1 and tuple(B.shape) == tuple(A.shape[:-1]))
    Bi = to_ids(B)
    if vec:
        Bi = Bi.unsqueeze(-1)
    f = (lambda a, b: solve_rows(a, b)) if left else (lambda a, b: _T(solve_rows(_T(a), _T(b))))
    r = _batched2(A, SymTensor(Bi, B.dtype), f, B.dtype)
    if vec:
        r = SymTensor(r._ids.squeeze(-1), r.dtype)
    n = A.shape[-1]
    piv = torch.zeros(A.shape[:-1], dtype=torch.int32)
    # LU slot carries A itself (pivot value 0 marks it)
    return (r, SymTensor(to_ids(A).clone(), A.dtype), piv, torch.zeros(A.shape[:-2], dtype=torch.int32))


@op("linalg_solve_ex")
def _solve_ex2(A, B, *, left=True, check_errors=False):
    r = _solve_ex(A, B, left=left)
    return torch.return_types.linalg_solve_ex((r[0], r[3]))


@op("linalg_lu_factor_ex")
def _luf(A, *, pivot=True, check_errors=False):
    # info is nonzero exactly for a singular matrix
    ids = to_ids(A)
    out = [E.b2r(E.eq(det_rows(m), 0)) for m in ids.reshape(-1, *ids.shape[-2:]).tolist()]
    info = SymTensor(torch.tensor(out, dtype=torch.int64).reshape(ids.shape[:-2]), torch.int32)
    return torch.return_types.linalg_lu_factor_ex((SymTensor(ids.clone(), A.dtype),
                                                   torch.zeros(A.shape[:-1], dtype=torch.int32), info))


@op("linalg_lu_solve")
def _lus(LU, piv, B, *, left=True, adjoint=False):
    # LU carries the matrix itself, see _luf / _solve_ex
    def f(a, b):
        if adjoint:
            a = _T(a)
        return solve_rows(a, b) if left else _T(solve_rows(_T(a), _T(b)))
    return _batched2(LU, B, f, B.dtype)


SVD_STUB = []   # callables matrix SymTensor -> (U,S,V) or None


@op("_linalg_svd", "linalg_svd")
def _svd(A, full_matrices=False, compute_uv=True, *, driver=None):
    for s in SVD_STUB:
        r = s(A)
        if r is not None:
            U, S, V = r
            return (U, S, SymTensor(V._ids.transpose(-1, -2), V.dtype))
    raise Unsupported("svd")


# ------------------------------------------------------------ data movement
VIEW = {"view", "expand", "permute", "transpose", "t", "select", "slice", "squeeze", "unsqueeze",
        "diagonal", "as_strided", "detach", "alias", "split", "split_with_sizes", "unbind", "unfold",
        "_reshape_alias", "lift_fresh", "view_as_real", "narrow", "movedim", "_unsafe_view_", "swapdims", "chunk"}
MOVE = {"clone", "repeat", "flip", "roll", "tril", "triu", "constant_pad_nd", "diag_embed", "contiguous",
        "_unsafe_view", "rot90", "repeat_interleave", "unfold_copy", "take", "diag", "select_backward",
        "slice_backward", "diagonal_backward", "expand_copy", "view_copy", "permute_copy", "reshape",
        "lift_fresh_copy", "unsafe_split", "pixel_shuffle", "as_strided_copy", "detach_copy", "transpose_copy",
        "value_selecting_reduction_backward", "take_along_dim", "flatten", "resize_as"}
FILL = {"zeros_like": 0, "new_zeros": 0, "ones_like": 1, "new_ones": 1, "empty_like": None,
        "new_empty": None, "new_empty_strided": None}


def unwrap_ids(x):
    return x._ids if isinstance(x, SymTensor) else x


def wrap_ids(out, dtype):
    return tree_map(lambda o: SymTensor(o, dtype) if isinstance(o, torch.Tensor) else o, out)


def conc_mask(m):
    """Concrete bool tensor for a (possibly symbolic) mask: forks."""
    if not isinstance(m, SymTensor):
        return m
    ids = m._ids.reshape(-1).tolist()
    return torch.tensor([scalar_bool(i) for i in ids], dtype=torch.bool).reshape(m.shape)


def conc_index(i):
    if i is None or not isinstance(i, SymTensor):
        return i
    if i.dtype == torch.bool:
        return conc_mask(i)
    return torch.tensor([int(conc(x)) for x in i._ids.reshape(-1).tolist()], dtype=torch.int64).reshape(i.shape)


@op("index", "_unsafe_index")
def _index(t, indices):
    indices = [conc_index(i) for i in indices]
    if isinstance(t, SymTensor):
        return SymTensor(aten.index(t._ids, indices), t.dtype)
    return aten.index(t, indices)


def _store(t, ids):
    """Write ids into t in place."""
    if isinstance(t, SymTensor):
        t._ids.copy_(ids)
        return t
    vals = [E.OP[i] for i in ids.reshape(-1).tolist()]
    if any(v != "c" for v in vals):
        if not t.dtype.is_floating_point:
            l = [conc(i) for i in ids.reshape(-1).tolist()]
            t.copy_(torch.tensor([int(x) for x in l]).reshape(ids.shape))
            return t
        raise Unsupported("in-place symbolic write into a plain tensor")
    t.copy_(torch.tensor([float(E.cval(i)) for i in ids.reshape(-1).tolist()], dtype=t.dtype).reshape(ids.shape))
    return t


def _index_put_ids(t, indices, values, accumulate):
    indices = [conc_index(i) for i in indices]
    base = to_ids(t)
    v = cast(values, t.dtype) if isinstance(values, SymTensor) or values.dtype != t.dtype else values
    v = to_ids(v)
    if not accumulate:
        return aten.index_put(base, indices, v)
    pos = torch.arange(base.numel()).reshape(base.shape)
    sel = aten.index(pos, indices)
    v = v.expand(sel.shape)
    flat = base.reshape(-1).clone()
    fl = flat.tolist()
    for p, x in zip(sel.reshape(-1).tolist(), v.reshape(-1).tolist()):
        fl[p] = E.add(fl[p], x)
    return torch.tensor(fl, dtype=torch.int64).reshape(base.shape)


@op("index_put", "_index_put_impl", "_unsafe_index_put")
def _index_put(t, indices, values, accumulate=False, unsafe=False):
    if not isinstance(t, SymTensor) and not isinstance(values, SymTensor):
        return aten.index_put(t, [conc_index(i) for i in indices], values, accumulate)
    return SymTensor(_index_put_ids(t, indices, values, accumulate), t.dtype)


@op("gather")
def _gather(t, dim, index, *, sparse_grad=False):
    i = conc_index(index)
    if not isinstance(t, SymTensor):
        return aten.gather(t, dim, i)
    return SymTensor(aten.gather(t._ids, dim, i), t.dtype)


@op("index_select")
def _index_select(t, dim, index):
    i = conc_index(index)
    if not isinstance(t, SymTensor):
        return aten.index_select(t, dim, i)
    return SymTensor(aten.index_select(t._ids, dim, i), t.dtype)


@op("scatter")
def _scatter(t, dim, index, src, reduce=None):
    i = conc_index(index)
    b = to_ids(t)
    if isinstance(src, torch.Tensor):
        return SymTensor(aten.scatter(b, dim, i, to_ids(cast(src, t.dtype) if src.dtype != t.dtype else src)), t.dtype)
    return SymTensor(aten.scatter(b, dim, i, int(to_ids(src))), t.dtype)


def _accum(base, pos, vals):
    fl = base.reshape(-1).tolist()
    for p, x in zip(pos.reshape(-1).tolist(), vals.reshape(-1).tolist()):
        fl[p] = E.add(fl[p], x)
    return torch.tensor(fl, dtype=torch.int64).reshape(base.shape)


@op("scatter_add")
def _scatter_add(t, dim, index, src):
    i = conc_index(index)
    b = to_ids(t)
    pos = torch.arange(b.numel()).reshape(b.shape)
    s = to_ids(src)
    s = s[tuple(slice(0, n) for n in i.shape)]
    # position of every scattered element
    grid = list(torch.meshgrid(*[torch.arange(n) for n in i.shape], indexing="ij"))
    grid[dim] = i
    return SymTensor(_accum(b, pos[tuple(grid)], s), t.dtype)


@op("index_add")
def _index_add(t, dim, index, src, *, alpha=1):
    i = conc_index(index)
    b = to_ids(t)
    pos = torch.arange(b.numel()).reshape(b.shape).index_select(dim, i)
    s = to_ids(src)
    if alpha != 1:
        k = _cid(alpha, False)
        s = torch.tensor([E.mul(k, x) for x in s.reshape(-1).tolist()], dtype=torch.int64).reshape(s.shape)
    return SymTensor(_accum(b, pos, s.expand(pos.shape)), t.dtype)


@op("index_copy")
def _index_copy(t, dim, index, src):
    return SymTensor(aten.index_copy(to_ids(t), dim, conc_index(index), to_ids(src)), t.dtype)


@op("index_fill")
def _index_fill(t, dim, index, value):
    return SymTensor(aten.index_fill(to_ids(t), dim, conc_index(index), int(to_ids(value))), t.dtype)


@op("masked_select")
def _masked_select(t, m):
    m = conc_mask(m)
    return SymTensor(aten.masked_select(to_ids(t), m), t.dtype) if isinstance(t, SymTensor) else aten.masked_select(t, m)


@op("masked_scatter")
def _masked_scatter(t, m, src):
    return SymTensor(aten.masked_scatter(to_ids(t), conc_mask(m), to_ids(src)), t.dtype)


@op("nonzero")
def _nonzero(t):
    return aten.nonzero(conc_mask(t if t.dtype == torch.bool else _ne(t, 0)))


@op("cat", "concatenate")
def _catop(ts, dim=0):
    ts = [t for t in ts if not (t.dim() == 1 and t.numel() == 0)] or list(ts)
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    return SymTensor(torch.cat([to_ids(cast(t, dt)) if t.dtype != dt else to_ids(t) for t in ts], dim), dt)


@op("stack")
def _stackop(ts, dim=0):
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    return SymTensor(torch.stack([to_ids(cast(t, dt)) if t.dtype != dt else to_ids(t) for t in ts], dim), dt)


@op("block_diag")
def _block_diag(ts):
    return SymTensor(torch.block_diag(*[to_ids(t) for t in ts]), ts[0].dtype)


@op("_to_copy", "to")
def _to_copy(t, *a, dtype=None, **kw):
    dtype = dtype or t.dtype
    r = cast(t, dtype)
    return SymTensor(r._ids.clone(), dtype)


@op("copy")
def _copy(t, src, non_blocking=False):
    s = cast(src, t.dtype) if src.dtype != t.dtype else src
    return SymTensor(to_ids(s).expand(t.shape).contiguous(), t.dtype)


@op("fill")
def _fill(t, v):
    i = to_ids(cast(v, t.dtype) if isinstance(v, torch.Tensor) and v.dtype != t.dtype else v)
    return SymTensor(i.expand(t.shape).contiguous().clone(), t.dtype)


@op("zero")
def _zero(t):
    return SymTensor(torch.zeros(t.shape, dtype=torch.int64), t.dtype)


@op("full_like")
def _full_like(t, v, *, dtype=None, **kw):
    return SymTensor(torch.full(t.shape, int(to_ids(v)), dtype=torch.int64), dtype or t.dtype)


@op("new_full")
def _new_full(t, size, v, *, dtype=None, **kw):
    return SymTensor(torch.full(size, int(to_ids(v)), dtype=torch.int64), dtype or t.dtype)


@op("rand_like", "randn_like")
def _rand_like(t, **kw):
    return fresh_random(tuple(t.shape), kw.get("dtype") or t.dtype, "randn")


@op("normal")
def _normal(mean, std=None, *, generator=None, **kw):
    sh = torch.broadcast_shapes(mean.shape, std.shape if isinstance(std, torch.Tensor) else ())
    z = fresh_random(sh, mean.dtype, "randn")
    return _add(mean, _mul(z, std))


def fresh_random(shape, dtype, kind):
    n = 1
    for s in shape:
        n *= s
    if Ctl.random is None:
        raise Unsupported("random numbers")
    return mk(Ctl.random(n, kind), shape, dtype)


@op("equal")
def _equal(a, b):
    if a.shape != b.shape:
        return False
    return scalar_bool(_all_(to_ids(_eq(a, b)).reshape(-1).tolist()))


@op("_local_scalar_dense", "item")
def _lsd(t):
    n = int(t._ids.item())
    if t.dtype == torch.bool:
        return scalar_bool(n)
    if not t.dtype.is_floating_point:
        return int(conc(n))
    if E.OP[n] == "c":
        return float(E.cval(n))
    if E.OP[n] == "inf":
        return math.inf * E.AR[n][0]
    return math.nan


def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if x == y or (Ctl.zero is not None and atol >= 0 and Ctl.zero(E.sub(x, y))):
            return 1
        lim = E.add(E.const(Fraction(repr(float(atol)))), E.mul(E.const(Fraction(repr(float(rtol)))), E.absv(y)))
        return E.le(E.absv(E.sub(x, y)), lim)
    return elementwise(f, [a, b], torch.bool)


HANDLERS["isclose"] = _isclose


@op("allclose")
def _allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = 1
    for i in _isclose(a, b, rtol, atol)._ids.reshape(-1).tolist():
        r = E.and_(r, i)
    return bool(Ctl.decide(r)) if r not in (0, 1) else r == 1


@op("is_nonzero")
def _isnz(t):
    return scalar_bool(int(t._ids.item()))


@op("is_same_size")
def _iss(a, b):
    return tuple(a.shape) == tuple(b.shape)


@op("embedding")
def _emb(w, ix, *a, **k):
    return SymTensor(w._ids[conc_index(ix)], w.dtype)


@op("histc", "bucketize", "searchsorted")
def _unsup(*a, **k):
    raise Unsupported("bucketing operator")


@op("grid_sampler_2d")
def _gs(*a, **k):
    raise Unsupported("grid_sampler_2d")


INPLACE_SPECIAL = {}


def _has_sym(args):
    for a in args:
        if isinstance(a, SymTensor):
            return True
        if isinstance(a, (list, tuple)) and _has_sym(a):
            return True
    return False


def dispatch(func, args, kwargs):
    with _NoMode():
        return _dispatch(func, args, kwargs)


def _dispatch(func, args, kwargs):
    name = func._schema.name.split("::")[-1]
    overload = func._overloadname
    OPCOUNT[name] += 1
    if name in VIEW:
        t = args[0]
        a2 = tree_map(unwrap_ids, args)
        out = func(*a2, **kwargs)
        out = wrap_ids(out, t.dtype)
        return return_and_correct_aliasing(func, args, kwargs, out)
    if name in MOVE:
        t = args[0]
        dt = t.dtype
        kw = {k: v for k, v in kwargs.items() if k not in ("dtype", "device", "layout", "pin_memory")}
        if name == "constant_pad_nd":
            v = args[2] if len(args) > 2 else kw.pop("value", 0)
            a2 = (t._ids, args[1], int(to_ids(v)))
        else:
            a2 = tree_map(unwrap_ids, args)
        out = func(*a2, **kw)
        return wrap_ids(out, dt)
    if name in FILL:
        t = args[0]
        dt = kwargs.get("dtype") or t.dtype
        fillv = FILL[name]
        size = t.shape if name.endswith("_like") else args[1]
        if dt.is_floating_point or dt == torch.bool:
            if fillv is None:
                return uninit(tuple(size), dt)
            return SymTensor(torch.full(tuple(size), fillv, dtype=torch.int64), dt)
        return torch.full(tuple(size), fillv or 0, dtype=dt)
    if name == "set_":
        t, src = args[0], args[1]
        t._ids = src._ids
        return t
    inplace = name.endswith("_") and not name.startswith("__") and func._schema.is_mutable
    if name in ("squeeze_", "unsqueeze_", "t_", "transpose_"):
        # in-place change of shape
        t = args[0]
        n = SymTensor(getattr(aten, name[:-1])(t._ids, *args[1:]), t.dtype)
        t.data = n
        t._ids = n._ids
        return t
    base = name[:-1] if inplace else name
    if name == "sort" and overload == "stable":
        return _sort_stable(*args, **kwargs)
    h = HANDLERS.get(base)
    out_kw = None
    if func._schema.is_mutable and not inplace:
        kwargs = dict(kwargs)
        out_kw = kwargs.pop("out", None)
        if base == "_index_put_impl" or out_kw is None:
            out_kw = None
    if h is None and base == "_index_put_impl":
        h = HANDLERS["index_put"]
    if h is not None:
        if inplace and isinstance(args[0], torch.Tensor) and not isinstance(args[0], SymTensor):
            # plain destination
            if base in ("index_put", "_index_put_impl"):
                idx = [conc_index(i) for i in args[1]]
                val = args[2]
                if not isinstance(val, SymTensor):
                    return aten.index_put_(args[0], idx, val, *args[3:4])
                if not args[0].dtype.is_floating_point:
                    v = torch.tensor([int(conc(i)) for i in val._ids.reshape(-1).tolist()], dtype=args[0].dtype).reshape(val.shape)
                    return aten.index_put_(args[0], idx, v, *args[3:4])
        r = h(*args, **kwargs)
        if inplace:
            t = args[0]
            if isinstance(r, torch.Tensor) and not isinstance(r, SymTensor):
                if isinstance(t, SymTensor):
                    r = SymTensor(to_ids(r), r.dtype)
                else:
                    t.copy_(r)
                    return t
            if r.dtype != t.dtype:
                r = cast(r, t.dtype)
                if not isinstance(r, SymTensor):
                    r = SymTensor(to_ids(r), t.dtype)
            if tuple(r.shape) != tuple(t.shape):
                raise RuntimeError("output with shape %s doesn't match the broadcast shape %s"
                                   % (list(t.shape), list(r.shape)))
            return _store(t, r._ids)
        if out_kw is not None:
            return _store(out_kw, r._ids)
        return r
    # fall back: decompose
    if not (func._schema.is_mutable and inplace):
        from torch._decomp import decomposition_table
        d = decomposition_table.get(func)
        if d is not None:
            with SymMode():
                return d(*args, **kwargs)
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except Exception:
        pass
    if inplace:
        packet = getattr(aten, base, None)
        if packet is not None:
            r = packet(*args, **kwargs)
            if isinstance(r, SymTensor):
                return _store(args[0], r._ids)
    raise Unsupported("aten::%s.%s" % (name, overload))


_uninit_n = [0]


def uninit(shape, dt):
    """Uninitialised memory: fresh opaque values."""
    n = 1
    for s in shape:
        n *= s
    out = []
    for _ in range(n):
        _uninit_n[0] += 1
        out.append(E.var("uninit%d" % _uninit_n[0], uninit=True) if dt != torch.bool
                   else E.bvar("uninitb%d" % _uninit_n[0]))
    return mk(out, shape, dt)


RANDOM_OPS = {"rand", "randn", "normal_", "uniform_", "randint", "multinomial", "bernoulli", "randperm",
              "rand_like", "randn_like", "normal", "exponential_"}
UNINIT_OPS = {"empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided"}


class SymMode(TorchDispatchMode):
    """Factories return SymTensors, so that symbolic values can be written into them."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[-1]
        flat = tree_flatten((args, kwargs))[0]
        if any(isinstance(a, SymTensor) for a in flat):
            return dispatch(func, args, kwargs)
        if any(isinstance(a, SymScalar) for a in flat):
            raise Unsupported("symbolic scalar in factory %s" % name)
        if name in ("rand", "randn") and Ctl.random is not None:
            dt = kwargs.get("dtype") or torch.get_default_dtype()
            return fresh_random(tuple(args[0]), dt, name)
        out = func(*args, **kwargs)
        if name in VIEW and name not in ("lift_fresh",):
            return out
        if func._schema.is_mutable:
            return out
        if isinstance(out, torch.Tensor) and (out.dtype.is_floating_point or out.dtype == torch.bool):
            if name in UNINIT_OPS:
                return uninit(tuple(out.shape), out.dtype)
            return SymTensor(to_ids(out), out.dtype)
        return out
