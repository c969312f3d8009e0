"""P27: group elements made from data are valid, or refused; validation only inside its contexts."""
import contextlib
import math
import warnings

import torch

import theseus as th
import theseus.geometry.utils as gutils
import torchlie as lie
from lie import CONST_G, data_of, hat_of
from symtorch import tensor as T
from theseus.geometry.lie_group_check import _LieGroupCheckContext as THC
from theseus.geometry.lie_group_check import silence_internal_warnings
from theseus.global_params import _THESEUS_GLOBAL_PARAMS as TGP
from torchlie.functional import SE3 as LSE3
from torchlie.functional import SO3 as LSO3
from torchlie.functional import enable_checks
from torchlie.functional.check_contexts import _LieGroupCheckContext as LHC
from torchlie.global_params import _TORCHLIE_GLOBAL_PARAMS as LGP

PROPERTY = "P27"
EXPLAIN = ("The constructors of SO2, SE2, SO3 and SE3, normalize, vee, the validation functions of torchlie, the random and identity constructors and the "
           "context managers run on symbolic data; the decision to accept, normalize or refuse is compared with the defining condition within the configured "
           "tolerance, on every path, and the result with the nearest element.")
BOUNDS = ("batch 1 and 2; float64 tolerances, and float32 data for SO2/SE2; SO2/SE2 data, quaternions and hat vectors unrestricted; SO3/SE3 data: every rotation, and U diag(s) V^T with "
          "two pairs of constant U, V, both signs, and every ordered s between 0.05 and 3, and constant rotations disturbed in one entry by any amount; "
          "contexts nested to depth two, leaving normally or by an exception")
ASSUMPTIONS = ["real arithmetic instead of floating point", "torch.svd meets its specification (the symbolic run is given the factors the data is built from)"]
BUDGET = 60

CLS = {"SO2": th.SO2, "SE2": th.SE2, "SO3": th.SO3, "SE3": th.SE3}


def build(cx, G, data, strict):
    """(element or None when refused)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return CLS[G](tensor=data, strict_checks=strict)
        except ValueError:
            return None


def planar(cx, G, batch, strict, zero=False):
    # length and direction: every vector that is not zero
    r = cx.real("r", batch, lo=0.01, hi=1.5, pos=True)
    u = cx.rot2("u", batch).mat
    d = r.unsqueeze(1) * u
    eps = TGP.get_eps("so2", "matrix", cx.dtype)
    if zero:
        d = torch.cat([d[:1], torch.zeros(1, 2, dtype=cx.dtype)]) if batch > 1 else torch.zeros(1, 2, dtype=cx.dtype)
        r = torch.cat([r[:batch - 1], torch.zeros(1, dtype=cx.dtype)])
    cx.assume(r[:batch - 1 if zero else batch] > 1e-6)
    data = d
    if G == "SE2":
        t = cx.real("t", batch, 2)
        data = torch.cat([t, d], 1)
    before = data.clone()
    e = build(cx, G, data, strict)
    v = verdict([r - 1], eps)
    if e is None:
        cx.true(strict and v is not True, "valid data is accepted")
        return
    out = e.tensor
    cx.same(tuple(out.shape), tuple(before.shape), "shape")
    cx.same(out.dtype, cx.dtype, "dtype")
    cx.eq(data, before, "the input is left alone")
    if v is True:
        cx.eq(out, before, "valid data is unchanged")
        return
    cx.true(not strict or v is not False, "invalid data is refused")
    if G == "SE2":
        cx.eq(out[:, :2], t, "translation is unchanged")
        out = out[:, 2:]
    if v is None:
        o2 = (out * out).sum(1)
        cx.le((o2 - 1).abs().amax(), torch.tensor(3 * eps, dtype=cx.dtype), "the result is valid", numtol=0)
        return
    for b in range(batch):
        if zero and b == batch - 1:
            cx.eq(out[b], torch.tensor([1.0, 0.0], dtype=cx.dtype), "zero is normalized to the identity")
        else:
            cx.eq(out[b], u[b], "normalized to the nearest element")
    cx.eq(CLS[G].normalize(e.tensor), e.tensor, "normalizing is idempotent")


def verdict(errs, eps):
    """True: within the tolerance with a margin; False: out of it with a margin; None: near the border"""
    m = torch.cat([x.reshape(-1) for x in errs])
    if bool(((m < 0.9 * eps) & (m > -0.9 * eps)).all()):
        return True
    if bool(((m > 1.1 * eps) | (m < -1.1 * eps)).any()):
        return False
    return None


def so3_ok(M, eps):
    I = torch.eye(3, dtype=M.dtype)
    E_ = (M @ M.transpose(-1, -2) - I)
    det = (M[:, 0] * torch.stack([M[:, 1, 1] * M[:, 2, 2] - M[:, 1, 2] * M[:, 2, 1],
                                  M[:, 1, 2] * M[:, 2, 0] - M[:, 1, 0] * M[:, 2, 2],
                                  M[:, 1, 0] * M[:, 2, 1] - M[:, 1, 1] * M[:, 2, 0]], -1)).sum(-1)
    iu = torch.triu_indices(3, 3)
    return verdict([E_[:, iu[0], iu[1]], det - 1], eps)


PAIRS = [(0, 1), (2, 0)]


def svd_data(cx, k, refl, family):
    U = torch.tensor(CONST_G["SO3"][PAIRS[k][0]], dtype=cx.dtype)
    V = torch.tensor(CONST_G["SO3"][PAIRS[k][1]], dtype=cx.dtype)
    if refl:
        U = U @ torch.diag(torch.tensor([1., 1., -1.], dtype=cx.dtype))
    if family:
        # singular values a multiple of one number away from one
        x = cx.real("x", lo=1e-9, hi=1.0 if family == "far" else 2e-6, box=True)
        s = (1 + x * torch.tensor([2., 1.5, 1.] if k else [1., .5, -.5], dtype=cx.dtype))[None]
    else:
        s = cx.real("s", 1, 3, lo=0.05, hi=3, box=True)
        cx.assume(s[:, 1] > s[:, 2] * 1.0001)
        cx.assume(s[:, 0] > s[:, 1] * 1.0001)
    return U, s, V, U @ (s.unsqueeze(-1) * V.transpose(-1, -2))


def spatial(cx, G, k, refl, strict, family):
    """data built from singular values: the decision and the nearest rotation; family None: normalize alone"""
    U, s, V, M = svd_data(cx, k, refl, family)
    eps = LGP.get_eps("so3", "matrix", cx.dtype)
    data = M
    if G == "SE3":
        t = cx.real("t", 1, 3, 1)
        data = torch.cat([M, t], -1)
    before = data.clone()
    if cx.sym:
        T.SVD_STUB[:] = [lambda A: (U.expand(1, 3, 3), s, V.expand(1, 3, 3))]
    f = {"SO3": LSO3, "SE3": LSE3}[G]
    v = False
    try:
        if family is None:
            outs = [f.normalize(data), CLS[G].normalize(data)]
        else:
            v = so3_ok(M, eps)
            e = build(cx, G, data, strict)
            got = True
            f.check_group_tensor(data)                     # not checked outside the context
            with enable_checks():
                try:
                    f.check_group_tensor(data)
                except ValueError:
                    got = False
            cx.true(v is None or got == v, "data is accepted iff it is a rotation within the tolerance")
            if e is None:
                cx.true(strict and v is not True, "valid data is accepted")
                return
            cx.true(not strict or v is not False, "invalid data is refused")
            outs = [e.tensor]
    finally:
        T.SVD_STUB[:] = []
    cx.eq(data, before, "the input is left alone")
    D = torch.diag(torch.tensor([1., 1., -1. if refl else 1.], dtype=cx.dtype))
    for out in outs:
        cx.same(tuple(out.shape), tuple(before.shape), "shape")
        if v is True:
            cx.eq(out, before, "valid data is unchanged")
        if G == "SE3":
            cx.eq(out[..., 3:], t, "translation is unchanged")
        if v is False:
            cx.eq(out[0, :, :3], U @ D @ V.transpose(-1, -2), "normalized to the nearest rotation", numtol=1e-9)


def disturbed(cx, G, k, i, j, strict_only=True):
    """a rotation disturbed in one entry: refused iff out of tolerance"""
    R = torch.tensor(CONST_G["SO3"][k], dtype=cx.dtype)
    x = cx.real("x", lo=-2e-6, hi=2e-6)
    E_ = torch.zeros(3, 3, dtype=cx.dtype)
    E_[i, j] = 1
    M = (R + x * E_)[None]
    data = M if G == "SO3" else torch.cat([M, cx.real("t", 1, 3, 1)], -1)
    eps = LGP.get_eps("so3", "matrix", cx.dtype)
    e = build(cx, G, data, True)
    ok = so3_ok(M, eps)
    cx.true(ok is None or (e is not None) == ok, "accepted iff within the tolerance")
    if e is not None:
        cx.eq(e.tensor, data, "unchanged")
    # a second, valid, element does not hide it
    both = torch.cat([data_of(G, torch.eye(4 if G == "SE3" else 3, dtype=cx.dtype)[None]), data])
    e = build(cx, G, both, True)
    cx.true(ok is None or (e is not None) == ok, "accepted iff every element is")


def rotation(cx, G):
    """every rotation is accepted as it is"""
    R = cx.rot3("R", 1).mat
    data = R if G == "SO3" else torch.cat([R, cx.real("t", 1, 3, 1)], -1)
    for strict in (True, False):
        e = build(cx, G, data, strict)
        cx.true(e is not None, "accepted")
        cx.eq(e.tensor, data, "unchanged")


def off(cx, G, kind):
    """no validation inside the contexts that disable it"""
    n = {"SO2": (2,), "SE2": (4,), "SO3": (3, 3), "SE3": (3, 4)}[G]
    d = cx.real("d", 1, *n)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if kind == "arg":
            e = CLS[G](tensor=d, disable_checks=True)
        elif kind == "no":
            with th.no_lie_group_check(silent=True):
                e = CLS[G](tensor=d, strict_checks=True)
        else:
            with th.set_lie_group_check_enabled(False, silent=True):
                e = CLS[G](tensor=d)
    cx.eq(e.tensor, d, "unchanged")
    cx.same(len(w), 0, "silent")


def hats(cx, G, lib):
    """hat matrices are accepted, and vee inverts hat"""
    n = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}[G]
    v = cx.real("v", 2, n)
    H = hat_of(G, v)
    if lib == "th":
        cx.eq(CLS[G].hat(v), H, "hat")
        cx.eq(CLS[G].vee(H), v, "vee")
    else:
        f = {"SO3": LSO3, "SE3": LSE3}[G]
        with enable_checks():
            cx.eq(f.hat(v), H, "hat")
            cx.eq(f.vee(H), v, "vee")
            f.check_hat_tensor(H)
    cx.true(True, "accepted")


def hat_bad(cx, G, lib, i, j):
    """one entry disturbed: refused iff not of the form of a hat matrix, within the tolerance"""
    n = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}[G]
    v0 = torch.tensor([[0.5, -0.25, 1.5, 0.75, -1.0, 0.25][:n]], dtype=cx.dtype)
    H = hat_of(G, v0).repeat(2, 1, 1)
    x = cx.real("x", lo=-1, hi=1)
    m = H.shape[-1]
    E_ = torch.zeros(2, m, m, dtype=cx.dtype)
    E_[1, i, j] = 1
    M = H + x * E_
    try:
        if lib == "th":
            CLS[G].vee(M)
        else:
            f = {"SO3": LSO3, "SE3": LSE3}[G]
            with enable_checks():
                f.vee(M)
        got = True
    except ValueError:
        got = False
    r = 3 if m == 4 else m - 1 if G == "SE2" else m       # size of the rotation block
    if i < r and j < r:
        small = bool((x.abs() < (1e-11 if lib == 'th' else 1e-7)).all())
        large = bool((x.abs() > 1e-4).all())
        if large:
            cx.true(not got, "a matrix that is not skew is refused")
        if small:
            cx.true(got, "rounding is accepted")
    elif i < r:
        cx.true(got, "any translation is accepted")
    else:
        large = bool((x.abs() > 1e-4).all())
        if large and (G == "SE3" or j == m - 1):
            cx.true(not got, "a last row that is not zero is refused")


def quats(cx, batch):
    r = cx.real("r", batch, lo=0.01, hi=1.5, pos=True)
    q = r.unsqueeze(1) * cx.quat("q", batch)
    eps = LGP.get_eps("so3", "quat", cx.dtype)
    with enable_checks():
        try:
            LSO3.check_unit_quaternion(q)
            got = True
        except ValueError:
            got = False
    ok = verdict([r - 1], eps)
    cx.true(ok is None or got == ok, "accepted iff of unit length within the tolerance")
    LSO3.check_unit_quaternion(q)
    cx.true(True, "not checked outside")


@contextlib.contextmanager
def draws(cx):
    """torch.rand, torch.randn: any numbers"""
    k = [0]
    real = torch.rand, torch.randn

    def fake(kind):
        def f(*size, generator=None, dtype=None, device=None, requires_grad=False):
            if len(size) == 1 and not isinstance(size[0], int):
                size = tuple(size[0])
            k[0] += 1
            nm = "%s%d" % (kind, k[0])
            r = cx.real(nm, *size, lo=0.001, hi=0.999, box=True) if kind == "rand" else cx.real(nm, *size)
            if dtype is not None and dtype != cx.dtype:
                r = r.to(dtype)
            return r.clone().requires_grad_(requires_grad)
        return f
    torch.rand, torch.randn = fake("rand"), fake("randn")
    try:
        yield
    finally:
        torch.rand, torch.randn = real


def rand(cx, G, op, lib, grad):
    with draws(cx):
        if lib == "th":
            t = getattr(CLS[G], op)(2, dtype=cx.dtype, requires_grad=grad).tensor
        else:
            f = {"SO3": LSO3, "SE3": LSE3}[G]
            t = getattr(f, op)(2, dtype=cx.dtype, requires_grad=grad)
    cx.same(t.dtype, cx.dtype, "dtype")
    cx.same(bool(t.requires_grad), grad, "requires_grad")
    t = t.detach()
    cx.same(tuple(t.shape), {"SO2": (2, 2), "SE2": (2, 4), "SO3": (2, 3, 3), "SE3": (2, 3, 4)}[G], "shape")
    if G in ("SO2", "SE2"):
        cx.eq((t[:, -2:] ** 2).sum(1), torch.ones(2, dtype=cx.dtype), "unit length")
        return
    R = t[..., :3]
    for b in range(2):
        cx.eq(R[b] @ R[b].transpose(-1, -2), torch.eye(3, dtype=cx.dtype), "orthogonal")
        cx.eq(torch.linalg.det(R[b]), torch.ones((), dtype=cx.dtype), "determinant")


def identity(cx, G):
    x = cx.real("x", 1)      # noqa
    M = cx.rot3("R", 1).mat if G in ("SO3", "SE3") else cx.rot2("R", 1).mat
    if G == "SO3":
        t, a = LSO3.identity(1, dtype=cx.dtype), M
        o = LSO3.compose(t, a)
    elif G == "SE3":
        t, a = LSE3.identity(1, dtype=cx.dtype), torch.cat([M, cx.real("t", 1, 3, 1)], -1)
        o = LSE3.compose(t, a)
    elif G == "SO2":
        a = M
        o = th.SO2(dtype=cx.dtype).compose(th.SO2(tensor=a)).tensor
    else:
        a = torch.cat([cx.real("t", 1, 2), M], -1)
        o = th.SE2(dtype=cx.dtype).compose(th.SE2(tensor=a)).tensor
    cx.eq(o, a, "identity is neutral")
    if G in ("SO3", "SE3"):
        o = CLS[G](dtype=cx.dtype).compose(CLS[G](tensor=a)).tensor
        cx.eq(o, a, "the default element is the identity")


# ---------------------------------------------------------------- contexts
def state():
    return THC.get_context() + (LHC.get_context(), gutils._LieGroupContext.get_context(),
                                lie.lie_tensor._LieAsEuclideanContext.get_context())


def bits(cx, name, n):
    return [bool(b > 0) for b in cx.real(name, n, lo=-1, hi=1).unbind(0)]


CTX = {
    # name: (number of flags, make, state inside from (state before, flags))
    "set": (3, lambda m, s, q: th.set_lie_group_check_enabled(m, silent=s, silence_internal_warnings=q), lambda b, f: tuple(f) + b[3:]),
    "enable": (2, lambda s, q: th.enable_lie_group_check(silent=s, silence_internal_warnings=q), lambda b, f: (True,) + tuple(f) + b[3:]),
    "no": (2, lambda s, q: th.no_lie_group_check(silent=s, silence_internal_warnings=q), lambda b, f: (False,) + tuple(f) + b[3:]),
    "silence": (0, lambda: silence_internal_warnings(), lambda b, f: b[:2] + (True,) + b[3:]),
    "lie.enable_checks": (0, lambda: enable_checks(), lambda b, f: b[:3] + (True,) + b[4:]),
    "tangent": (0, lambda: th.enable_lie_tangent(), lambda b, f: b[:4] + (True,) + b[5:]),
    "no_tangent": (0, lambda: th.no_lie_tangent(), lambda b, f: b[:4] + (False,) + b[5:]),
    "set_tangent": (1, lambda m: th.set_lie_tangent_enabled(m), lambda b, f: b[:4] + tuple(f) + b[5:]),
    "as_euclidean": (0, lambda: lie.as_euclidean(), lambda b, f: b[:5] + (True,)),
}


class Boom(Exception):
    pass


def contexts(cx, outer, inner):
    """whatever the state before, a context sets what it documents, and restores the state on leaving it, normally or by an exception"""
    init = state()
    b4 = bits(cx, "s", 4)
    s0 = b4[:3] + [b4[3]] * 3 if outer in ("set", "enable", "no", "silence") else [b4[3]] * 3 + b4[:3]
    THC.set_context(s0[0], True, s0[2])
    THC.contexts.silent = s0[1]
    LHC.set_context(s0[3])
    gutils._LieGroupContext.set_context(s0[4])
    lie.lie_tensor._LieAsEuclideanContext.set_context(s0[5])
    boom = bits(cx, "boom", 2)
    out = open("/dev/null", "w")
    try:
        with contextlib.redirect_stdout(out):
            before = state()
            n, make, inside = CTX[outer]
            f = bits(cx, "f", n) if n else []
            caught = False
            try:
                with make(*f):
                    got1 = state()
                    want1 = inside(before, f)
                    if inner:
                        n2, make2, inside2 = CTX[inner]
                        f2 = bits(cx, "g", n2) if n2 else []
                        try:
                            with make2(*f2):
                                got2, want2 = state(), inside2(want1, f2)
                                if boom[1]:
                                    raise Boom
                        except Boom:
                            pass
                        after2 = state()
                    if boom[0]:
                        raise Boom
            except Boom:
                caught = True
            after = state()
    finally:
        out.close()
        THC.contexts.check_lie_group, THC.contexts.silent, THC.contexts.silence_internal_warnings = init[:3]
        LHC.set_context(init[3])
        gutils._LieGroupContext.set_context(init[4])
        lie.lie_tensor._LieAsEuclideanContext.set_context(init[5])
    cx.same(caught, boom[0], "exceptions pass through")
    cx.same(got1, want1, "state inside")
    if inner:
        cx.same(got2, want2, "state inside, nested")
        cx.same(after2, want1, "state restored, nested")
    cx.same(after, before, "state restored")


def cases(tier):
    deep = tier != "quick"
    out = []
    for G in ("SO2", "SE2"):
        for strict in (True, False):
            for batch in (1, 2):
                out.append(("construct.%s.%s.b%d" % (G, "strict" if strict else "normalize", batch), planar, dict(G=G, batch=batch, strict=strict), dict(max_paths=40)))
            out.append(("construct.%s.%s.zero" % (G, "strict" if strict else "normalize"), planar, dict(G=G, batch=2, strict=strict, zero=True), dict(max_paths=40)))
        out.append(("construct.%s.normalize.f32" % G, planar, dict(G=G, batch=1, strict=False), dict(max_paths=40, dtype=torch.float32)))
        out.append(("construct.%s.normalize.f32zero" % G, planar, dict(G=G, batch=1, strict=False, zero=True), dict(max_paths=40, dtype=torch.float32)))
    for G in ("SO3", "SE3"):
        out.append(("rotation.%s" % G, rotation, dict(G=G), {}))
        for k in range(2):
            for refl in (False, True):
                if not deep and (k, G) not in ((0, "SO3"), (1, "SE3")):
                    continue
                nm = "%s.%d%s" % (G, k, ".reflected" if refl else "")
                out.append(("nearest." + nm, spatial, dict(G=G, k=k, refl=refl, strict=False, family=None), {}))
                for family in ("near", "far"):
                    for strict in (True, False):
                        if refl and (family, strict) != ("far", deep):
                            continue
                        out.append(("svd.%s.%s.%s" % (family, "strict" if strict else "normalize", nm), spatial,
                                    dict(G=G, k=k, refl=refl, strict=strict, family=family), dict(max_paths=40)))
        for i in range(3):
            for j in range(3):
                k = (i + j) % 3
                if deep or (G == "SO3") or i == j:
                    out.append(("disturbed.%s.%d%d" % (G, i, j), disturbed, dict(G=G, k=k, i=i, j=j), dict(max_paths=60)))
    for G in CLS:
        for kind in ("arg", "no", "set"):
            if deep or kind == "arg" or G in ("SO2", "SE3"):
                out.append(("off.%s.%s" % (G, kind), off, dict(G=G, kind=kind), {}))
        out.append(("hat.%s" % G, hats, dict(G=G, lib="th"), {}))
        m = {"SO2": 2, "SE2": 3, "SO3": 3, "SE3": 4}[G]
        for i in range(m):
            for j in range(m):
                if G != "SE3":
                    out.append(("hat_bad.%s.%d%d" % (G, i, j), hat_bad, dict(G=G, lib="th", i=i, j=j), dict(max_paths=30)))
                if G in ("SO3", "SE3"):
                    out.append(("hat_bad.lie.%s.%d%d" % (G, i, j), hat_bad, dict(G=G, lib="lie", i=i, j=j), dict(max_paths=30)))
        if G in ("SO3", "SE3"):
            out.append(("hat.lie.%s" % G, hats, dict(G=G, lib="lie"), {}))
        out.append(("identity.%s" % G, identity, dict(G=G), {}))
        for op in ("rand", "randn"):
            for grad in (False, True):
                out.append(("%s.%s%s" % (op, G, ".grad" if grad else ""), rand, dict(G=G, op=op, lib="th", grad=grad), dict(max_paths=40)))
                if G in ("SO3", "SE3"):
                    out.append(("%s.lie.%s%s" % (op, G, ".grad" if grad else ""), rand, dict(G=G, op=op, lib="lie", grad=grad), dict(max_paths=40)))
    for b in (1, 2):
        out.append(("quaternion.b%d" % b, quats, dict(batch=b), {}))
    for o in CTX:
        out.append(("context.%s" % o, contexts, dict(outer=o, inner=None), dict(max_paths=2000)))
        for i in CTX:
            if deep and CTX[o][0] + CTX[i][0] < 4 or (o, i) in (("silence", "no"), ("no", "silence"), ("tangent", "no_tangent"), ("lie.enable_checks", "as_euclidean")):
                out.append(("context.%s.%s" % (o, i), contexts, dict(outer=o, inner=i), dict(max_paths=4000)))
    return out
