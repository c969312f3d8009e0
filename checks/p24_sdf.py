"""P24: signed distance queries interpolate the field and differentiate consistently."""
import itertools

import torch

import theseus as th
from hist import *  # noqa
from lie import *  # noqa

PROPERTY = "P24"
EXPLAIN = ("SignedDistanceField2D.signed_distance, Collision2D and EffectorObjectContactPlanar run on a free field, origin, cell size and query; every cell is a path. The distance is compared with the "
           "interpolation sum of S[i,j] max(0,1-|v-i|) max(0,1-|u-j|), which is continuous and needs no cell, the jacobians with its exact derivative, and the costs with the documented hinge.")
BOUNDS = ("fields of 1-4 rows and columns, 1-2 query points, batch 1-2 (any mix for field, origin, cell size, pose), points inside, on the border and outside the field at any distance")
ASSUMPTIONS = ["real arithmetic instead of floating point", "jacobians are decided off the grid lines and off the kinks of the costs, where the derivative exists",
               "the conversion of an occupancy map into a field (scipy distance transform) is not encoded"]
BUDGET = 200


def w1(cx):
    return th.ScaleCostWeight(th.Variable(torch.ones(1, 1, dtype=cx.dtype)))


def at(t, b):
    return t[b if t.shape[0] > 1 else 0]


NARROW = False


def coord(cx, name, n, far=False, off=False):
    """a coordinate in cells of a field of n rows or columns; in the quick tier the rows of further points are limited to one cell"""
    narrow = NARROW and name[0] == "v" and name.endswith("1")
    u = cx.real(name, lo=.1 if narrow else -1.7, hi=.9 if narrow else n + .7)
    if narrow:
        cx.assume(u > 0)
        cx.assume(u < 1)
    elif not far:
        cx.assume(u > -2)
        cx.assume(u < n + 1)
    if off:
        for k in range(-1, n + 1):
            cx.assume(u != float(k))
    return u


def tent(d):
    return torch.clamp(1 - d.abs(), min=0.0)


def outside(u, v, R, C):
    return (u < 0) | (u > C - 1.0) | (v < 0) | (v > R - 1.0)


def interp(S, u, v, boundary=0.0):
    """S: rows x cols"""
    R, C = S.shape
    tot = 0
    for i in range(R):
        for j in range(C):
            tot = tot + S[i, j] * tent(v - i) * tent(u - j)
    return torch.where(outside(u, v, R, C), torch.full_like(tot, boundary), tot)


def field(cx, R, C, bs, bo, bc):
    S = cx.real("S", bs, R, C)
    o = cx.real("o", bo, 2)
    c = cx.real("c", bc, 1, pos=True, lo=.2, hi=2)
    return S, o, c


def query(cx, R, C, B, N=1, bs=1, bo=1, bc=1, far=False, off=False, boundary=0.0, vec=True, jac=True):
    S, o, c = field(cx, R, C, bs, bo, bc)
    us = [[coord(cx, "u%d%d" % (b, k), C, far, off) for k in range(N)] for b in range(B)]
    vs = [[coord(cx, "v%d%d" % (b, k), R, far, off) for k in range(N)] for b in range(B)]
    n = max(B, bs, bo, bc)
    if B < n:
        # the same point for every field: its coordinates in cells differ
        assert bo == 1 and bc == 1
    px = torch.stack([torch.stack([at(o, b)[0] + at(c, b)[0] * us[b][k] for k in range(N)]) for b in range(B)])
    py = torch.stack([torch.stack([at(o, b)[1] + at(c, b)[0] * vs[b][k] for k in range(N)]) for b in range(B)])
    P = torch.stack([px, py], 1)
    sdf = th.eb.SignedDistanceField2D(th.Point2(tensor=o), th.Variable(c), th.Variable(S))
    sdf.sdf_boundary_value = boundary
    d, J = sdf.signed_distance(P)
    cx.same((tuple(d.shape), tuple(J.shape)), ((n, N), (n, N, 2)), "shapes")
    for b in range(n):
        for k in range(N):
            u, v = us[b % B][k], vs[b % B][k]
            want = interp(at(S, b), u, v, boundary)
            cx.eq(d[b, k], want, "bilinear interpolation of the field")
            if jac:
                for i, nm in enumerate("uv"):
                    dw = cx.deriv(want.reshape(1), {"%s%d%d" % (nm, b % B, k): 1.0})[0]
                    cx.eq(J[b, k, i] * at(c, b)[0], dw, "jacobian of the distance")


def ctor(cx, kind):
    """ways of giving the data, and replacing them"""
    R = C = 2
    S, o, c = field(cx, R, C, 1, 1, 1)
    S2, o2, c2 = [cx.real(n, *s, **kw) for n, s, kw in (("T", (1, R, C), {}), ("p", (1, 2), {}), ("k", (1, 1), dict(pos=True, lo=.2, hi=2)))]
    u, v = coord(cx, "u", C), coord(cx, "v", R)
    if kind == "tensors":
        sdf = th.eb.SignedDistanceField2D(o, c, S)
    elif kind == "flat":
        sdf = th.eb.SignedDistanceField2D(o, th.Variable(c.view(1)), S)
    else:
        sdf = th.eb.SignedDistanceField2D(o2, c2, S2)
        if kind == "update_data":
            sdf.update_data(o, S, c)
        elif kind == "variables":
            sdf.origin.update(o), sdf.sdf_data.update(S), sdf.cell_size.update(c)
    P = torch.stack([o[0, 0] + c[0, 0] * u, o[0, 1] + c[0, 0] * v]).view(1, 2, 1)
    row, col, out = sdf.convert_points_to_cell(P)
    cx.eq(row.reshape(1), v.reshape(1), "row")
    cx.eq(col.reshape(1), u.reshape(1), "column")
    d, _ = sdf.signed_distance(P)
    cx.eq(d[0, 0], interp(S[0], u, v), "bilinear interpolation of the field")


def collision(cx, ty, R, C, bp, bs=1, bo=1, bc=1, be=1, off=True, update=False):
    S, o, c = field(cx, R, C, bs, bo, bc)
    eps = cx.real("e", be, 1)
    n = max(bp, bs, bo, bc, be)
    us = [coord(cx, "u%d" % b, C, off=off) for b in range(bp)]
    vs = [coord(cx, "v%d" % b, R, off=off) for b in range(bp)]
    xy = torch.stack([torch.stack([at(o, b)[0] + at(c, b)[0] * us[b], at(o, b)[1] + at(c, b)[0] * vs[b]]) for b in range(bp)])
    if ty == "SE2":
        r = cx.rot2("r", bp)
        pose = th.SE2(tensor=torch.cat([xy, r.mat], 1), name="x", disable_checks=True)
        dof = 3
    else:
        pose = th.Point2(tensor=xy, name="x")
        dof = 2
    if update:
        z = lambda t: torch.full(t.shape, .5, dtype=cx.dtype)
        cf = th.eb.Collision2D(pose, th.Point2(tensor=z(o), name="o"), th.Variable(z(S), name="S"), th.Variable(z(c), name="c"), th.Variable(z(eps), name="e"), w1(cx))
        cf.sdf_origin.update(o), cf.sdf_data.update(S), cf.sdf_cell_size.update(c), cf.cost_eps.update(eps)
    else:
        cf = th.eb.Collision2D(pose, th.Point2(tensor=o, name="o"), th.Variable(S, name="S"), th.Variable(c, name="c"), th.Variable(eps, name="e"), w1(cx))
    e = cf.error()
    Js, e2 = cf.jacobians()
    J = Js[0]
    cx.same((len(Js), tuple(J.shape), tuple(e.shape)), (1, (n, 1, dof), (n, 1)), "shapes")
    for b in range(n):
        k = b % bp
        d = interp(at(S, b), us[k], vs[k])
        want = torch.clamp(at(eps, b)[0] - d, min=0.0)
        cx.eq(e[b, 0], want, "hinge of the distance")
        cx.eq(e2[b, 0], want, "hinge of the distance")
        if not off:
            continue
        cx.assume(d != at(eps, b)[0])
        g = [cx.deriv(want.reshape(1), {"%s%d" % (nm, k): 1.0})[0] / at(c, b)[0] for nm in "uv"]
        if ty == "SE2":
            cs = r.mat[k]
            g = [g[0] * cs[0] + g[1] * cs[1], -g[0] * cs[1] + g[1] * cs[0], torch.zeros_like(g[0])]
        for i in range(dof):
            cx.eq(J[b, 0, i], g[i], "jacobian of the hinge")


def contact(cx, R, C, b1=1, b2=1, bs=1, bo=1, bc=1, be=1, off=True):
    S, o, c = field(cx, R, C, bs, bo, bc)
    rad = cx.real("e", be, 1)
    n = max(b1, b2, bs, bo, bc, be)
    assert b1 == n or (b1 == b2)
    bp = b2
    us = [coord(cx, "u%d" % b, C, off=off) for b in range(bp)]
    vs = [coord(cx, "v%d" % b, R, off=off) for b in range(bp)]
    obj = Elem(cx, "SE2", "b", b1)
    r = cx.rot2("r", b2)
    q = [torch.stack([at(o, b)[0] + at(c, b)[0] * us[b], at(o, b)[1] + at(c, b)[0] * vs[b]]) for b in range(bp)]
    Rm = obj.M[:, :2, :2]
    p = torch.stack([at(obj.t, b) + at(Rm, b) @ q[b] for b in range(bp)])
    eff = th.SE2(tensor=torch.cat([p, r.mat], 1), name="f", disable_checks=True)
    cf = th.eb.EffectorObjectContactPlanar(obj.obj("b"), eff, th.Point2(tensor=o, name="o"), th.Variable(S, name="S"), th.Variable(c, name="c"), th.Variable(rad, name="e"), w1(cx))
    e = cf.error()
    Js, e2 = cf.jacobians()
    cx.same(([tuple(J.shape) for J in Js], tuple(e.shape)), ([(n, 1, 3)] * 2, (n, 1)), "shapes")
    for b in range(n):
        k = b % bp
        d = interp(at(S, b), us[k], vs[k])
        want = (d - at(rad, b)[0]).abs()
        cx.eq(e[b, 0], want, "distance to the contact")
        cx.eq(e2[b, 0], want, "distance to the contact")
        if not off:
            continue
        cx.assume(d != at(rad, b)[0])
        g = torch.stack([cx.deriv(want.reshape(1), {"%s%d" % (nm, k): 1.0})[0] / at(c, b)[0] for nm in "uv"])
        Re = rot2mat(r.mat[k])
        A = at(Rm, b).transpose(0, 1) @ Re
        je = g @ A
        z = torch.zeros_like(g[0])
        cx.eq(Js[1][b, 0], torch.stack([je[0], je[1], z]), "jacobian with respect to the effector")
        # moving the object moves the point the other way in its frame
        cx.eq(Js[0][b, 0], torch.stack([-g[0], -g[1], g[0] * q[k][1] - g[1] * q[k][0]]), "jacobian with respect to the object")


def cases(tier):
    global NARROW
    NARROW = tier == "quick"
    out = []

    def add(name, fn, opts=None, **kw):
        o = dict(max_paths=4000, feas_timeout=0.05, z3_timeout=5.0, int_range=(-2, 1 + max(kw.get("R", 2), kw.get("C", 2))))
        o.update(opts or {})
        out.append((name, fn, kw, o))
    for R, C in ((2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (1, 1), (3, 3)) + (((4, 3), (4, 4)) if tier != "quick" else ()):
        add("query.%dx%d" % (R, C), query, R=R, C=C, B=1, jac=False)
        add("jac.%dx%d" % (R, C), query, R=R, C=C, B=1, off=True)
    add("far.2x3", query, R=2, C=3, B=1, far=True, jac=False)
    add("far.jac.2x2", query, R=2, C=2, B=1, far=True, off=True)
    add("boundary", query, R=2, C=2, B=1, boundary=3.5, jac=False)
    add("boundary.jac", query, R=2, C=2, B=1, boundary=3.5, off=True)
    add("points", query, R=2, C=2, B=1, N=2, off=True)
    for nm, kw in (("field", dict(bs=2)), ("origin", dict(bo=2)), ("cell", dict(bc=2)), ("all", dict(bs=2, bo=2, bc=2)), ("none", {})):
        add("batch.%s" % nm, query, R=2, C=2, B=2, off=True, **kw)
    add("batch.onepoint", query, R=2, C=3, B=1, bs=2, off=True)
    for k in ("tensors", "flat", "update_data", "variables"):
        add("ctor." + k, ctor, kind=k)
    for ty in ("P2", "SE2"):
        add("collision.%s" % ty, collision, ty=ty, R=2, C=3, bp=1)
        add("collision.%s.grid" % ty, collision, ty=ty, R=3, C=2, bp=1, off=False)
        add("collision.%s.update" % ty, collision, ty=ty, R=2, C=2, bp=1, off=False, update=True)
        add("collision.%s.b2" % ty, collision, ty=ty, R=2, C=2, bp=2)
        add("collision.%s.eps" % ty, collision, ty=ty, R=2, C=2, bp=1, be=2)
        add("collision.%s.field" % ty, collision, ty=ty, R=2, C=2, bp=1, bs=2)
        add("collision.%s.b2all" % ty, collision, ty=ty, R=1, C=2, bp=2, bs=2, bo=2, bc=2, be=2)
    add("contact", contact, R=2, C=3)
    add("contact.grid", contact, R=3, C=2, off=False)
    add("contact.b2", contact, R=2, C=2, b1=2, b2=2)
    add("contact.obj1", contact, R=2, C=2, b1=1, b2=1, be=2)
    add("contact.field", contact, R=2, C=2, b1=1, b2=1, bs=2)
    add("contact.all", contact, R=1, C=2, b1=2, b2=2, bs=2, bo=2, bc=2, be=2)
    return out
