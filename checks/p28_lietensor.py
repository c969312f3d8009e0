"""P28: Lie tensors of torchlie behave as elements of their group, and refuse what is not defined on it."""
import contextlib

import torch

import theseus as th
import torchlie as lie
import torchlie.functional as LF
import theseus.geometry.utils as gutils
from symtorch import tensor as T
from torchlie import lie_tensor as LT

PROPERTY = "P28"
EXPLAIN = ("LieTensor objects with symbolic data run the real methods, module functions, operators, constructors and in-place updates; results are compared with "
           "the functional group operations on the raw data (decided by P01-P04), with the documented update a*exp(alpha*project(a, g)), and with the plain tensor "
           "operations inside as_euclidean(); torch's SGD and Adam, and the group tensors of theseus, step through these updates.")
BOUNDS = ("every element, vector and matrix, batch 1 and 2; two optimizer steps; "
          "45 unsupported operations; one constant learning rate, momentum and weight per optimizer")
ASSUMPTIONS = ["real arithmetic instead of floating point", "the conversion of results that torch applies to tensor subclasses is modelled in the check for symbolic data",
               "foreach and fused optimizer implementations are not used"]
BUDGET = 60
L = {"SO3": lie.SO3, "SE3": lie.SE3}
F = {"SO3": LF.SO3, "SE3": LF.SE3}
DOF = {"SO3": 3, "SE3": 6}


class _Sub(T.SymTensor):
    """symbolic tensors of a subclass, with the default conversion of results torch applies to subclasses"""

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        with torch._C.DisableTorchFunctionSubclass():
            ret = func(*args, **(kwargs or {}))
        return torch.utils._pytree.tree_map_only(T.SymTensor, lambda x: _Wrap.apply(x, cls) if x.dtype.is_floating_point and not isinstance(x, cls) else x, ret)


class SymLie(LT.LieTensor, _Sub):
    pass


class SymGroup(gutils.LieGroupTensor, T.SymTensor):
    __torch_function__ = torch._C._disabled_torch_function_impl


class SymEucl(LT._EuclideanGrad, _Sub):
    def __new__(cls, x, *a):
        return _Wrap.apply(x, cls)

    def __init__(self, *a):
        pass


def _make(cls, x, requires_grad=False):
    with torch._C.DisableTorchFunctionSubclass():
        ids = x._ids
        r = torch.Tensor._make_wrapper_subclass(cls, ids.shape, strides=ids.stride(), storage_offset=ids.storage_offset(),
                                                dtype=x.dtype, device=torch.device("cpu"), requires_grad=bool(requires_grad))
    r._ids = ids
    return r


class _Wrap(torch.autograd.Function):
    @staticmethod
    def forward(ctx, x, cls):
        return _make(cls, x)

    @staticmethod
    def backward(ctx, g):
        return g, None


@contextlib.contextmanager
def lietensors(cx):
    if not cx.sym:
        yield
        return
    real = LT._LieTensorBase.__new__, torch.Tensor.as_subclass, LT._EuclideanGrad, gutils.LieGroupTensor.__new__

    def new(cls, data, ltype, requires_grad=False, _shared_memory=False):
        if isinstance(data, T.SymTensor):
            with torch._C.DisableTorchFunctionSubclass():
                d = data if _shared_memory else data.detach().clone()
            return _make(SymLie, d, requires_grad)
        return real[0](cls, data, ltype, requires_grad, _shared_memory)

    def as_subclass(self, cls):
        if isinstance(self, T.SymTensor) and cls is torch.Tensor:
            with torch._C.DisableTorchFunctionSubclass():
                return torch.ops.aten.alias(self)
        return real[1](self, cls)
    LT._LieTensorBase.__new__ = new
    torch.Tensor.as_subclass = as_subclass
    LT._EuclideanGrad = SymEucl
    gutils.LieGroupTensor.__new__ = lambda cls, group: _make(SymGroup, group.tensor.detach())
    try:
        yield
    finally:
        LT._LieTensorBase.__new__, torch.Tensor.as_subclass, LT._EuclideanGrad, gutils.LieGroupTensor.__new__ = real


def elem(cx, G, name, batch=1):
    R = cx.rot3(name + "R", batch).mat
    return R if G == "SO3" else torch.cat([R, cx.real(name + "t", batch, 3, 1)], -1)


def lt(a, G, **kw):
    return lie.LieTensor(a, L[G], **kw)


def raw(x):
    return x._t if isinstance(x, LT.LieTensor) else x


def ops(cx, G, batch, bb=None):
    """methods and module functions: the functional operations on the data"""
    a, b = elem(cx, G, "a", batch), elem(cx, G, "b", bb or batch)
    p = cx.real("p", bb or batch, 3)
    m = cx.real("m", batch, 3, 2)
    mp = cx.real("mp", batch, 3, 3 if G == "SO3" else 4)
    f = F[G]
    with lietensors(cx):
        A, B = lt(a, G), lt(b, G)

        def group(x, want, label):
            cx.true(isinstance(x, LT.LieTensor) and x.ltype is L[G], label + " is a Lie tensor")
            cx.eq(x._t, want, label)

        group(A.compose(B), f.compose(a, b), "compose")
        group(lie.compose(A, B), f.compose(a, b), "lie.compose")
        group(A * B, f.compose(a, b), "*")
        group(A.inv(), f.inv(a), "inv")
        group(lie.inv(A), f.inv(a), "lie.inv")
        for nm, x, args in (("adj", (), ()), ("transform", (p,), (p,)), ("untransform", (p,), (p,)), ("left_act", (m,), (m,)), ("left_project", (mp,), (mp,))):
            want = getattr(f, nm)(a, *args)
            for y, l in ((getattr(A, nm)(*x), nm), (getattr(lie, nm)(A, *x), "lie." + nm)):
                cx.true(not isinstance(y, LT.LieTensor), l + " is a plain tensor")
                cx.eq(y, want, l)
        cx.eq(A @ p, f.transform(a, p), "@")
        for nm, args, fa in (("compose", (B,), (b,)), ("inv", (), ()), ("transform", (p,), (p,)), ("untransform", (p,), (p,))):
            ref = []
            want = getattr(f, nm)(a, *fa, jacobians=ref)
            for jl, y in (getattr(A, "j" + nm)(*args), getattr(lie, "j" + nm)(A, *args)):
                cx.same(len(jl), len(ref), "j%s: number of jacobians" % nm)
                for i, (u, v) in enumerate(zip(jl, ref)):
                    cx.eq(u, v, "j%s: jacobian %d" % (nm, i))
                cx.eq(raw(y), want, "j%s: value" % nm)
                cx.same(isinstance(y, LT.LieTensor), nm in ("compose", "inv"), "j%s: type of the value" % nm)
        v = cx.real("v", batch, DOF[G])
        h = f.hat(v)
        cx.eq(L[G].hat(v), h, "hat")
        cx.eq(L[G].vee(h), v, "vee")
        mm = cx.real("mm", batch, 2, DOF[G])
        cx.eq(L[G].lift(mm), f.lift(mm), "lift")
        pr = cx.real("pr", batch, 3, 3 if G == "SO3" else 4)
        cx.eq(L[G].project(pr), f.project(pr), "project")
        eye = L[G].identity(2, dtype=cx.dtype)
        cx.same(isinstance(eye, LT.LieTensor) and eye.ltype is L[G], True, "identity is a Lie tensor")
        group(lt(eye._t[:1], G).compose(A), a, "the identity is neutral")
        # the operands are left alone
        cx.eq(A._t, a, "operand unchanged")
        cx.eq(B._t, b, "operand unchanged")


def explog(cx, G):
    """exp, log, retract and local"""
    v = cx.real("v", 1, DOF[G], lo=-1, hi=1)
    a = elem(cx, G, "a")
    f = F[G]
    with lietensors(cx):
        e = f.exp(v)
        E_ = L[G].exp(v)
        cx.same(isinstance(E_, LT.LieTensor) and E_.ltype is L[G], True, "exp is a Lie tensor")
        cx.eq(E_._t, e, "exp")
        ref = []
        f.exp(v, jacobians=ref)
        jl, y = L[G].jexp(v)
        cx.eq(jl[0], ref[0], "jexp")
        cx.eq(y._t, e, "jexp: value")
        A = lt(a, G)
        cx.eq(A.retract(v)._t, f.compose(a, e), "retract")
        cx.eq(LT.retract(A, v)._t, f.compose(a, e), "lie.retract")
        cx.raises(TypeError, lambda: A.retract(1.0), "retract of a number is refused")


def logs(cx, G):
    a, b = elem(cx, G, "a"), CONST(cx, G)
    f = F[G]
    with lietensors(cx):
        A, B = lt(a, G), lt(b, G)
        w = f.log(a)
        cx.eq(A.log(), w, "log")
        cx.eq(lie.log(A), w, "lie.log")
        ref = []
        f.log(a, jacobians=ref)
        jl, y = A.jlog()
        cx.eq(jl[0], ref[0], "jlog")
        cx.eq(y, w, "jlog: value")
        cx.eq(B.local(A), f.log(f.compose(f.inv(b), a)), "local")
        cx.eq(lie.local(B, A), f.log(f.compose(f.inv(b), a)), "lie.local")


def CONST(cx, G, k=0):
    from lie import CONST_G
    return torch.tensor([CONST_G[G][k]], dtype=cx.dtype)


def grads(cx, G):
    """gradients through the object interface are those of the functional one"""
    a, b = elem(cx, G, "a", 2), elem(cx, G, "b", 2)
    p = cx.real("p", 2, 3)
    g = cx.real("g", 2, 3)
    f = F[G]
    with lietensors(cx):
        x, y = a.clone().requires_grad_(True), b.clone().requires_grad_(True)
        want = torch.autograd.grad((f.transform(f.compose(f.inv(x), y), p) * g).sum(), [x, y])
        x, y = a.clone().requires_grad_(True), b.clone().requires_grad_(True)
        X, Y = lie.from_tensor(x, L[G]), lie.from_tensor(y, L[G])
        ((X.inv().compose(Y) @ p) * g).sum().backward()
        cx.eq(x.grad, want[0], "gradient, first operand")
        cx.eq(y.grad, want[1], "gradient, second operand")
        # leaves
        A, B = lt(a, G, requires_grad=True), lt(b, G, requires_grad=True)
        cx.same((A.is_leaf, A.requires_grad), (True, True), "a Lie tensor made from data is a leaf")
        ((A.inv().compose(B) @ p) * g).sum().backward()
        cx.eq(raw(A.grad).as_subclass(torch.Tensor), want[0], "gradient of a leaf")
        cx.eq(raw(B.grad).as_subclass(torch.Tensor), want[1], "gradient of a leaf")
        cx.same(isinstance(A.grad, LT._EuclideanGrad), True, "gradients are marked as euclidean")


def creation(cx, G):
    """which constructors share memory and history"""
    a, b = elem(cx, G, "a", 2), elem(cx, G, "b", 2)
    with lietensors(cx):
        for nm, mk, shared in (("LieTensor", lambda t: lie.LieTensor(t, L[G]), False), ("ltype", lambda t: L[G](t), False),
                               ("from_tensor", lambda t: lie.from_tensor(t, L[G]), True), ("as_lietensor", lambda t: lie.as_lietensor(t, L[G], dtype=cx.dtype), True),
                               ("cast", lambda t: lie.cast(t, L[G], dtype=cx.dtype), True),
                               ("new_lietensor", lambda t: CUR[0].new_lietensor(t), False)):
            CUR[0] = lie.LieTensor(b, L[G])
            t = a.clone()
            x = mk(t)
            cx.same((isinstance(x, LT.LieTensor), x.ltype is L[G], tuple(x.shape)), (True, True, tuple(a.shape)), nm)
            cx.eq(x._t, a, nm + ": data")
            t.copy_(b)
            cx.eq(x._t, b if shared else a, nm + (": shares memory" if shared else ": copies"))
            t = a.clone().requires_grad_(True)
            x = mk(t)
            cx.same(x.requires_grad and not x.is_leaf, shared, nm + ": history")
        A = lie.LieTensor(a, L[G])
        cx.same(lie.as_lietensor(A, L[G], dtype=cx.dtype) is A, True, "as_lietensor of a Lie tensor is the tensor")
        cx.raises(ValueError, lambda: lie.as_lietensor(a, dtype=cx.dtype), "a type is required")
        C = A.clone()
        C._t.copy_(b)
        cx.eq(A._t, a, "clones are independent")
        cx.same(C.ltype is L[G], True, "clones keep the type")
        C = lie.LieTensor(a, L[G])
        C.set_(lie.LieTensor(b, L[G]))
        cx.eq(C._t, b, "set_")
        for idx in (slice(0, 2), slice(1, 2), 1, 0, -1, torch.tensor([1, 0, 1]), torch.tensor([False, True])):
            S = A[idx]
            want = a[idx]
            want = want if want.ndim == 3 else want[None]
            cx.same((isinstance(S, LT.LieTensor), S.ltype is L[G]), (True, True), "indexing keeps the type")
            cx.eq(S._t, want, "indexing")
        cx.raises(NotImplementedError, lambda: A[0, 1], "only the batch is indexed")
        K = torch.cat([A, lie.LieTensor(b, L[G])])
        cx.same(isinstance(K, LT.LieTensor) and K.ltype is L[G], True, "concatenation keeps the type")
        cx.eq(K._t, torch.cat([a, b]), "concatenation")
        cx.true(not isinstance(torch.zeros_like(A), LT.LieTensor), "zeros_like is a plain tensor")
        cx.eq(torch.zeros_like(A), torch.zeros_like(a), "zeros_like")
        cx.same(A.ndim, 3, "ndim")


CUR = [None]

UNSUPPORTED = {
    "add": lambda A, t: A + t, "sub": lambda A, t: A - t, "radd": lambda A, t: t + A, "torch.add": lambda A, t: torch.add(A, t), "neg": lambda A, t: -A,
    "div": lambda A, t: A / 2, "torch.mul": lambda A, t: torch.mul(A, t), "sin": lambda A, t: torch.sin(A), "cos": lambda A, t: A.cos(), "sum": lambda A, t: A.sum(),
    "mean": lambda A, t: A.mean(), "norm": lambda A, t: A.norm(), "view": lambda A, t: A.view(-1), "reshape": lambda A, t: A.reshape(-1),
    "transpose": lambda A, t: A.transpose(1, 2), "permute": lambda A, t: A.permute(0, 2, 1), "expand": lambda A, t: A.expand(4, -1, -1),
    "repeat": lambda A, t: A.repeat(2, 1, 1), "stack": lambda A, t: torch.stack([A, A]), "matmul": lambda A, t: torch.matmul(A, t),
    "bmm": lambda A, t: torch.bmm(A, A), "einsum": lambda A, t: torch.einsum("nij->nji", A), "abs": lambda A, t: A.abs(), "pow": lambda A, t: A ** 2,
    "exp": lambda A, t: torch.exp(A), "where": lambda A, t: torch.where(t > 0, A, t), "clamp": lambda A, t: A.clamp(0, 1), "mul_": lambda A, t: A.mul_(2),
    "sub_": lambda A, t: A.sub_(t), "div_": lambda A, t: A.div_(2), "fill_": lambda A, t: A.fill_(0), "zero_": lambda A, t: A.zero_(),
    "copy_": lambda A, t: A.copy_(t), "lerp": lambda A, t: torch.lerp(A, t, 0.5), "sqrt": lambda A, t: A.sqrt(), "flatten": lambda A, t: A.flatten(),
    "unsqueeze": lambda A, t: A.unsqueeze(0), "squeeze": lambda A, t: A.squeeze(), "max": lambda A, t: A.max(), "det": lambda A, t: torch.linalg.det(A[:, :3, :3]),
    "round": lambda A, t: A.round(), "gt": lambda A, t: A > 0, "setitem": lambda A, t: A.__setitem__(0, t[0]), "cumsum": lambda A, t: A.cumsum(0), "roll": lambda A, t: A.roll(1),
}
MUT = {"mul_", "sub_", "div_", "fill_", "zero_", "copy_", "setitem"}


def refused(cx, G):
    """operations that are not defined on the group raise and leave the data alone; inside as_euclidean they act on the data"""
    a = elem(cx, G, "a", 2)
    other = "SE3" if G == "SO3" else "SO3"
    o = elem(cx, other, "o", 2)
    with lietensors(cx):
        for nm, f in UNSUPPORTED.items():
            A = lt(a, G)
            cx.raises((NotImplementedError, RuntimeError), lambda: f(A, a), nm + " is refused")
            cx.eq(A._t, a, nm + " leaves the data alone")
        A, O = lt(a, G), lt(o, other)
        for nm, f in (("compose", lambda: A.compose(O)), ("jcompose", lambda: A.jcompose(O)), ("local", lambda: A.local(O)), ("*", lambda: A * O),
                      ("cat", lambda: torch.cat([A, O]))):
            cx.raises(ValueError, f, nm + " of different types is refused")
        cx.raises(RuntimeError, lambda: A.set_(O), "set_ of a different type is refused")
        cx.raises(RuntimeError, lambda: A.set_(a), "set_ of a plain tensor is refused")
        cx.raises(TypeError, lambda: A * a, "* of a plain tensor is refused")
        cx.raises(TypeError, lambda: A @ lt(a, G), "@ of a Lie tensor is refused")
        cx.raises(TypeError, lambda: A.local(a), "local of a plain tensor is refused")
        for f in (lambda: A.add_(a), lambda: A.add_(a, alpha=2.0), lambda: A.addcdiv_(a, a), lambda: A.addcmul_(a, a)):
            cx.raises(RuntimeError, f, "a plain tensor is no gradient")
        cx.eq(A._t, a, "refused operations leave the data alone")
        with lie.as_euclidean():
            for nm in ("add", "sub", "torch.mul", "sin", "sum", "view", "transpose", "stack", "abs", "pow"):
                f = UNSUPPORTED[nm]
                A = lt(a, G)
                r = f(A, a)
                cx.true(not isinstance(r, LT.LieTensor), nm + " gives a plain tensor")
                cx.eq(r, f(a, a), nm + " acts on the data")
        cx.raises(NotImplementedError, lambda: A + a, "refused again outside")


def grad_of(cx, g):
    return LT._EuclideanGrad(g)


def step(f, a, u):
    """the documented update: a * exp(project(u))"""
    return f.compose(a, f.exp(f.left_project(a, u)))


def updates(cx, G, op, alpha):
    a = CONST(cx, G) if op != "add_" or G == "SE3" else elem(cx, G, "a")
    g = cx.real("g", *a.shape, lo=-0.5, hi=0.5)
    h = cx.real("h", *a.shape, lo=0.5, hi=1.5, pos=True)
    f = F[G]
    with lietensors(cx):
        A = lt(a, G)
        if op == "add_":
            u = g * alpha
            do = lambda: A.add_(grad_of(cx, g), alpha=alpha)  # noqa
        elif op == "addcmul_":
            u = alpha * g * h
            do = lambda: A.addcmul_(grad_of(cx, g), h, value=alpha)  # noqa
        elif op == "addcdiv_":
            u = alpha * g / h
            do = lambda: A.addcdiv_(grad_of(cx, g), h, value=alpha)  # noqa
        else:
            u = alpha * g / h
            do = lambda: A.addcdiv_(g, grad_of(cx, h), value=alpha)  # noqa
        do()
        cx.same(A.ltype is L[G], True, "type kept")
        cx.eq(A._t, step(f, a, u), op)


OPT = {
    "sgd": lambda p: torch.optim.SGD(p, lr=0.25, foreach=False),
    "momentum": lambda p: torch.optim.SGD(p, lr=0.25, momentum=0.5, foreach=False),
    "nesterov": lambda p: torch.optim.SGD(p, lr=0.25, momentum=0.5, nesterov=True, foreach=False),
    "adam": lambda p: torch.optim.Adam(p, lr=0.25, betas=(0.5, 0.75), eps=0.125, foreach=False),
}


def entries(cx, name, shape, sym, lo=0.2, hi=1.0):
    """constants, except for the listed entries"""
    n = 1
    for q in shape:
        n *= q
    c = [lo + (hi - lo) * ((7 * k + 3 + 5 * len(name)) % 11) / 11.0 for k in range(n)]
    x = cx.real(name, len(sym), lo=lo, hi=hi, box=True)
    t = torch.tensor(c, dtype=cx.dtype) + 0 * x[0]
    for i, k in enumerate(sym):
        t[k % n] = x[i]
    return t.reshape(shape)


def optimizer(cx, G, which, lib, steps, at):
    """a torch optimizer moves a group tensor along the projection of the step it would take on a plain tensor"""
    a = CONST(cx, G)
    f = F.get(G)
    d = th_of(G)
    gs = [entries(cx, "g" + "x" * k, a.shape, at) for k in range(steps)]
    # the steps torch takes on a plain tensor with the same gradients
    x = torch.zeros_like(a).requires_grad_(True)
    if cx.sym:
        x = (gs[0] * 0).detach().requires_grad_(True)
    ref = OPT[which]([x])
    us = []
    for g in gs:
        before = x.detach().clone()
        x.grad = g.clone()
        ref.step()
        us.append(x.detach() - before)
    want = a
    for u in us:
        if f is not None:
            want = step(f, want, u)
        else:
            grp = d(tensor=want, disable_checks=True)
            w = grp.project(u)
            want = grp.retract(w).tensor
    with lietensors(cx):
        if lib == "lie":
            A = lt(a if not cx.sym else a + gs[0] * 0, G, requires_grad=True)
        else:
            A = gutils.LieGroupTensor(d(tensor=a if not cx.sym else a + gs[0] * 0, disable_checks=True)).requires_grad_(True)
        opt = OPT[which]([A])
        for g in gs:
            A.grad = g.clone()
            with (th.enable_lie_tangent() if lib == "th" else contextlib.nullcontext()):
                opt.step()
        cx.eq(raw(A).detach().as_subclass(torch.Tensor), want, "%d steps" % steps)


def th_of(G):
    return {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}[G]


def group_tensor(cx, G, at):
    """theseus' group tensors: retraction inside the tangent context, plain updates outside"""
    a = CONST(cx, G)
    g = entries(cx, "g", a.shape, at, 0.1, 0.5)
    h = entries(cx, "h", a.shape, at[:1], 0.5, 1.5)
    grp = th_of(G)(tensor=a, disable_checks=True)
    with lietensors(cx):
        for nm, do, u in (("add_", lambda x: x.add_(g), g), ("add_ alpha", lambda x: x.add_(g, alpha=-0.5), -0.5 * g),
                          ("addcmul_", lambda x: x.addcmul_(g, h, value=0.5), 0.5 * g * h), ("addcdiv_", lambda x: x.addcdiv_(g, h, value=-2.0), -2.0 * g / h)):
            w = grp.project(u)
            x = gutils.LieGroupTensor(th_of(G)(tensor=a + 0 * g, disable_checks=True))
            with th.enable_lie_tangent():
                r = do(x)
            cx.same(r is x, True, nm + " returns the tensor")
            cx.eq(x.as_subclass(torch.Tensor), grp.retract(w).tensor, nm + " in the tangent context")
            x = gutils.LieGroupTensor(th_of(G)(tensor=a + 0 * g, disable_checks=True))
            r = do(x)
            cx.same(r is x, True, nm + " returns the tensor, outside")
            cx.eq(x.as_subclass(torch.Tensor), a + u, nm + " outside the tangent context")


def cases(tier):
    deep = tier != "quick"
    out = []
    for G in F:
        out += [("ops.%s.b%d%s" % (G, b, c or ""), ops, dict(G=G, batch=b, bb=c), {}) for b, c in ((1, None), (2, None))]
        out.append(("explog.%s" % G, explog, dict(G=G), {}))
        out.append(("logs.%s" % G, logs, dict(G=G), dict(budget=150)))
        out.append(("grads.%s" % G, grads, dict(G=G), {}))
        out.append(("creation.%s" % G, creation, dict(G=G), {}))
        out.append(("refused.%s" % G, refused, dict(G=G), {}))
        for op in ("add_", "addcmul_", "addcdiv_", "addcdiv_2"):
            for alpha in (1.0, -0.5) if deep else (-0.5,):
                out.append(("update.%s.%s%g" % (G, op, alpha), updates, dict(G=G, op=op, alpha=alpha), {}))
        for which in OPT:
            for steps in (1, 2) if deep or which == "momentum" else (1,):
                for at in ((1,), (5,), (2, 7)) if deep else ((2,) if steps > 1 else (5,),):
                    out.append(("optimizer.%s.%s.%d%s" % (G, which, steps, list(at)), optimizer, dict(G=G, which=which, lib="lie", steps=steps, at=at), {}))
    for G in ("SO2", "SE2", "SO3", "SE3"):
        for at in ((1,), (5,), (2, 7)) if deep else ((3,),):
            out.append(("theseus.%s.%s" % (G, list(at)), group_tensor, dict(G=G, at=at), {}))
        for which in OPT:
            if deep or which in ("sgd", "adam"):
                for at in ((1,), (5,), (2, 7)) if deep else ((5,),):
                    out.append(("optimizer.theseus.%s.%s.%s" % (G, which, list(at)), optimizer, dict(G=G, which=which, lib="th", steps=1, at=at), {}))
    return out
