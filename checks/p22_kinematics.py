"""P22: robot forward kinematics, its jacobians and its hand-written gradient."""
import os
import random
import tempfile
import types

import torch

import torchkin
from torchkin import robot as RB
from torchkin.forward_kinematics import get_forward_kinematics_fns
from torchkin.joint import (PrismaticJointX, PrismaticJointY, PrismaticJointZ, RevoluteJoint, RevoluteJointX, RevoluteJointY, RevoluteJointZ)

import lie as L

PROPERTY = "P22"
EXPLAIN = ("Robots are built by Robot.from_urdf_file (from a model with symbolic joint origins and axes, and from URDF text through the real parser), "
           "and forward kinematics, its spatial and body jacobians and the gradient of its autograd function run on symbolic joint values.  "
           "The reference walks the tree as it was written: a product of the joint transforms, each from the closed form of the rotation about an axis.")
BOUNDS = ("14 trees of at most 8 joints (chains, branches, fixed joints at the root, in the middle, in a row and at the tips), joints and links defined in order, "
          "in reverse and shuffled; joint angles in (0.0101, 3.1), (-3.1, -0.0101) and at 0; batch 1-2; symbolic origins (any translation, an angle about "
          "one axis each; all three angles for single joints) and symbolic unit axes for single joints")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "axes have unit length, as URDF requires", "angles within 0.0101 of zero but not zero are covered through exp in P01"]
BUDGET = 60

X, Y, Z = (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)
NX, NY, NZ = (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, -1.0)
# joints: (name, type, parent, child, axis, origin); origin: None, or the axes of the symbolic angles with "t" for a translation
TREES = {
    "root": ("r", []),
    "revolute": ("r", [("j1", "revolute", "r", "a", Z, "tz")]),
    "continuous": ("r", [("j1", "continuous", "r", "a", NY, "tx")]),
    "prismatic": ("r", [("j1", "prismatic", "r", "a", X, "ty")]),
    "fixed": ("r", [("f1", "fixed", "r", "a", None, "tz"), ("f2", "fixed", "a", "b", None, "tx")]),
    "chain3": ("r", [("j1", "revolute", "r", "a", Z, "t"), ("j2", "prismatic", "a", "b", X, "tx"), ("j3", "revolute", "b", "c", Y, "tz")]),
    "chain-fixed": ("r", [("j1", "revolute", "r", "a", Z, "t"), ("f1", "fixed", "a", "b", None, "tx"),
                          ("j2", "revolute", "b", "c", X, "t"), ("f2", "fixed", "c", "d", None, "ty")]),
    "root-fixed": ("r", [("f1", "fixed", "r", "a", None, "tx"), ("f2", "fixed", "a", "b", None, "ty"),
                         ("j1", "prismatic", "b", "c", NZ, "t"), ("f3", "fixed", "c", "d", None, "tz"), ("f4", "fixed", "d", "e", None, "t")]),
    "branch": ("r", [("j1", "revolute", "r", "a", Z, "t"), ("j2", "revolute", "a", "b", X, "ty"), ("j3", "prismatic", "a", "c", Y, "tx"),
                     ("j4", "continuous", "r", "d", NX, "tz")]),
    "branch-fixed": ("r", [("j1", "revolute", "r", "a", Z, "t"), ("f1", "fixed", "a", "m", None, "tx"), ("j2", "revolute", "m", "b", X, "t"),
                           ("f2", "fixed", "m", "n", None, "tz"), ("j3", "prismatic", "n", "c", Y, None), ("f3", "fixed", "r", "s", None, "ty"),
                           ("j4", "revolute", "s", "d", NY, "t")]),
    "fixed-row": ("r", [("j1", "revolute", "r", "a", Y, None), ("f1", "fixed", "a", "b", None, "t"), ("f2", "fixed", "b", "c", None, "tz"),
                        ("f3", "fixed", "c", "d", None, "tx"), ("j2", "revolute", "d", "e", Z, "t"), ("j3", "prismatic", "b", "g", X, "t")]),
    "star": ("r", [("j1", "prismatic", "r", "a", X, "t"), ("f1", "fixed", "r", "b", None, "tx"), ("j2", "revolute", "r", "c", Y, "t"),
                   ("f2", "fixed", "r", "d", None, "tz"), ("j3", "prismatic", "d", "e", Z, "t")]),
    "deep": ("r", [("j1", "revolute", "r", "a", Z, None), ("j2", "revolute", "a", "b", X, "t"), ("j3", "revolute", "b", "c", NZ, "t"),
                   ("j4", "prismatic", "c", "d", Y, None)]),
    "tips": ("r", [("f1", "fixed", "r", "t0", None, "tz"), ("j1", "revolute", "r", "a", X, "t"), ("f2", "fixed", "a", "t1", None, "t"),
                   ("f3", "fixed", "a", "t2", None, "ty"), ("j2", "prismatic", "a", "b", Z, "t"), ("f4", "fixed", "b", "t3", None, "tx")]),
}


class Model:
    """what Robot.from_urdf_file reads of a parsed URDF"""

    def __init__(self, name, links, joints, root):
        self.name, self.links, self.joints, self._root = name, links, joints, root

    def get_root(self):
        return self._root


def lst(cx, t):
    """numbers for the parser's model; symbolic tensors as they are"""
    return t if cx.sym else t.tolist()


def shuffled(xs, order):
    xs = list(xs)
    if order == "reverse":
        xs.reverse()
    elif order == "shuffle":
        random.Random(3).shuffle(xs)
    return xs


def rpy_mat(rpy):
    """fixed-axis roll, pitch, yaw"""
    r, p, y = rpy.unbind(-1)
    e = torch.eye(3, dtype=rpy.dtype)
    return (L.exp_so3(e[2] * 1.0, y.sin(), 1 - y.cos()) @ L.exp_so3(e[1] * 1.0, p.sin(), 1 - p.cos())) @ L.exp_so3(e[0] * 1.0, r.sin(), 1 - r.cos())


def origin_of(cx, nm, spec):
    """(model of the <origin> element, 4x4 matrix)"""
    dt = cx.dtype
    if spec is None:
        return None, torch.eye(4, dtype=dt)
    xyz = rpy = None
    t, R = torch.zeros(3, dtype=dt), torch.eye(3, dtype=dt)
    if "t" in spec:
        t = xyz = cx.real("t" + nm, 3)
    ax = spec.replace("t", "")
    if ax:
        zero = torch.zeros((), dtype=dt)
        rpy = torch.stack([cx.angle("o" + nm + a, -3.1, 3.1) if a in ax else zero for a in "xyz"])
        R = rpy_mat(rpy)
    org = types.SimpleNamespace(xyz=None if xyz is None else lst(cx, xyz), rpy=None if rpy is None else lst(cx, rpy))
    return org, L.homog(R, t)


class Rig:
    """a robot and the tree it was written from"""

    def __init__(self, cx, tree, order="decl", axis=None, origin=None, dtype=None):
        self.cx = cx
        self.root, joints = TREES[tree] if isinstance(tree, str) else tree
        self.up, models = {}, []
        links = [self.root] + [j[3] for j in joints]
        for nm, typ, par, ch, ax, org in joints:
            a = axis(nm) if axis and typ != "fixed" else (None if ax is None else torch.tensor(ax, dtype=cx.dtype))
            o, M = origin_of(cx, nm, origin if origin is not None else org)
            self.up[ch] = (nm, typ, par, a, M)
            models.append(types.SimpleNamespace(name=nm, type=typ, parent=par, child=ch, origin=o, axis=None if a is None else lst(cx, a)))
        self.model = Model("bot", [types.SimpleNamespace(name=n) for n in shuffled(links, order)], shuffled(models, order), self.root)
        self.moving = [j[0] for j in joints if j[1] != "fixed"]
        self.names = links
        self.build(dtype)

    def build(self, dtype):
        old = RB.urdf.URDF.from_xml_file
        RB.urdf.URDF.from_xml_file = lambda *_: self.model
        try:
            self.robot = torchkin.Robot.from_urdf_file("bot", dtype=dtype or self.cx.dtype)
        finally:
            RB.urdf.URDF.from_xml_file = old

    def column(self, nm):
        return self.robot.joint_map[nm].id

    def angles(self, vals):
        """[B, dof] from {joint: [value per batch element]}"""
        dof = len(self.moving)
        batch = len(next(iter(vals.values())))
        rows = []
        for b in range(batch):
            row = [None] * dof
            for nm in self.moving:
                row[self.column(nm)] = vals[nm][b]
            rows.append(torch.stack(row))
        return torch.stack(rows)

    def joint_mat(self, typ, a, q):
        if typ == "prismatic":
            return L.homog(torch.eye(3, dtype=self.cx.dtype), a * q)
        return L.homog(L.exp_so3(a, q.sin(), 1 - q.cos()), torch.zeros(3, dtype=self.cx.dtype))

    def path(self, link):
        out = []
        while link != self.root:
            out.append(self.up[link])
            link = self.up[link][2]
        return out[::-1]

    def pose(self, link, q):
        M = torch.eye(4, dtype=self.cx.dtype)
        for nm, typ, _, a, O in self.path(link):
            M = M @ O
            if typ != "fixed":
                M = M @ self.joint_mat(typ, a, q[nm])
        return M

    def spatial(self, link, q):
        """{joint: spatial jacobian column}"""
        M, out = torch.eye(4, dtype=self.cx.dtype), {}
        for nm, typ, _, a, O in self.path(link):
            M = M @ O
            if typ == "fixed":
                continue
            w = M[:3, :3] @ a
            if typ == "prismatic":
                out[nm] = torch.cat([w, torch.zeros_like(w)])
            else:
                out[nm] = torch.cat([torch.linalg.cross(M[:3, 3], w), w])
            M = M @ self.joint_mat(typ, a, q[nm])
        return out


def values(cx, rig, batch, rng=(0.0101, 3.1), zero=()):
    """{joint: [value per batch element]}"""
    out = {}
    for nm in rig.moving:
        typ = next(u[1] for u in rig.up.values() if u[0] == nm)
        if nm in zero:
            out[nm] = [cx.const(0.0) for _ in range(batch)]
        elif typ == "prismatic":
            out[nm] = [cx.real("q%s_%d" % (nm, b)) for b in range(batch)]
        elif rng[0] < 0:
            out[nm] = [-cx.angle("q%s_%d" % (nm, b), -rng[1], -rng[0]) for b in range(batch)]
        else:
            out[nm] = [cx.angle("q%s_%d" % (nm, b), *rng) for b in range(batch)]
    return out


def structure(cx, rig):
    rob = rig.robot
    cx.same(rob.dof, len(rig.moving), "degrees of freedom")
    cx.same(sorted(rig.column(n) for n in rig.moving), list(range(rob.dof)), "joint ids are the columns")
    cx.same(sorted(rob.joint_map), sorted(u[0] for u in rig.up.values()), "joints")
    cx.same(sorted(rob.link_map), sorted(rig.names), "links")
    cx.same((rob.num_links, rob.num_joints), (len(rig.names), len(rig.up)), "counts")
    cx.same([rob.links[l.id] is l for l in rob.link_map.values()], [True] * len(rig.names), "links are listed by id")
    cx.same([rob.joints[j.id] is j for j in rob.joint_map.values()], [True] * len(rig.up), "joints are listed by id")


def selection(rig, select):
    if select is None:
        return None, [l.name for l in rig.robot.links]
    return list(select), list(select)


def poses(cx, tree, batch=1, select=None, order="decl", tol=None, **kw):
    """link poses"""
    opts = {k: kw.pop(k) for k in ("rng", "zero") if k in kw}
    rig = Rig(cx, tree, order, **kw) if not isinstance(tree, Rig) else tree
    structure(cx, rig)
    arg, names = selection(rig, select)
    fk, jb, js = get_forward_kinematics_fns(rig.robot, arg)
    q = values(cx, rig, batch, **opts)
    th = rig.angles(q) if rig.moving else torch.zeros(batch, 0, dtype=cx.dtype)
    out = fk(th)
    cx.same(len(out), len(names), "one pose per link")
    for n, p in zip(names, out):
        cx.same(tuple(p.shape), (batch, 3, 4), "pose shape")
        for b in range(batch):
            cx.eq(p[b], rig.pose(n, {k: v[b] for k, v in q.items()})[:3], "pose of a link", tol=tol)
    bad = torch.zeros(batch, len(rig.moving) + 1, dtype=cx.dtype)
    cx.raises(ValueError, lambda: fk(bad), "wrong number of joint values is rejected")


def jacobians(cx, tree, batch=1, select=None, order="decl", tol=None, **kw):
    """spatial and body jacobians"""
    opts = {k: kw.pop(k) for k in ("rng", "zero") if k in kw}
    rig = Rig(cx, tree, order, **kw) if not isinstance(tree, Rig) else tree
    arg, names = selection(rig, select)
    fk, jb, js = get_forward_kinematics_fns(rig.robot, arg)
    q = values(cx, rig, batch, **opts)
    th = rig.angles(q)
    jac, ps = js(th)
    jacb, psb = jb(th)
    cx.same((len(jac), len(ps), len(jacb), len(psb)), (len(names),) * 4, "one jacobian per link")
    for n, J, p, Jb, pb in zip(names, jac, ps, jacb, psb):
        cx.same((tuple(J.shape), tuple(Jb.shape)), ((batch, 6, len(rig.moving)),) * 2, "jacobian shape")
        for b in range(batch):
            qb = {k: v[b] for k, v in q.items()}
            M, cols = rig.pose(n, qb), rig.spatial(n, qb)
            cx.eq(p[b], M[:3], "pose next to the spatial jacobian", tol=tol)
            cx.eq(pb[b], M[:3], "pose next to the body jacobian", tol=tol)
            A = L.adj_of("SE3", L.inv_mat("SE3", M))
            for nm in rig.moving:
                c = cols.get(nm)
                ref = torch.zeros(6, dtype=cx.dtype) if c is None else c
                cx.eq(J[b, :, rig.column(nm)], ref, "spatial jacobian column", tol=tol)
                cx.eq(Jb[b, :, rig.column(nm)], A @ ref, "body jacobian column", tol=tol)


def reference(cx, tree, **kw):
    """the columns used as the reference are the derivatives of the poses"""
    rig = Rig(cx, tree, **kw)
    q = values(cx, rig, 1)
    qb = {k: v[0] for k, v in q.items()}
    for n in rig.names:
        M, cols = rig.pose(n, qb), rig.spatial(n, qb)
        for nm, c in cols.items():
            D = L.hat_of("SE3", c) @ M
            for i in range(3):
                for j in range(4):
                    cx.eq(cx.deriv(M[i, j], {"q%s_0" % nm: 1.0}), D[i, j], "column is the derivative")


def gradient(cx, tree, batch=1, select=None, order="decl", skip=(), **kw):
    """the autograd function: sum over links of <G, pose>"""
    opts = {k: kw.pop(k) for k in ("rng", "zero") if k in kw}
    rig = Rig(cx, tree, order, **kw) if not isinstance(tree, Rig) else tree
    arg, names = selection(rig, select)
    fk, _, _ = get_forward_kinematics_fns(rig.robot, arg)
    q = values(cx, rig, batch, **opts)
    th = rig.angles(q).detach().clone().requires_grad_(True)
    out = fk(th)
    G = [cx.real("G%d" % k, batch, 3, 4) for k in range(len(names))]
    loss = sum((g * p).sum() for k, (g, p) in enumerate(zip(G, out)) if k not in skip)
    g, = torch.autograd.grad(loss, [th])
    cx.same(tuple(g.shape), (batch, len(rig.moving)), "gradient shape")
    ref = [[torch.zeros((), dtype=cx.dtype) for _ in rig.moving] for _ in range(batch)]
    for b in range(batch):
        qb = {k: v[b] for k, v in q.items()}
        for k, n in enumerate(names):
            if k in skip:
                continue
            M = rig.pose(n, qb)
            for nm, c in rig.spatial(n, qb).items():
                d = rig.column(nm)
                ref[b][d] = ref[b][d] + (G[k][b] * (L.hat_of("SE3", c) @ M)[:3]).sum()
        for nm in rig.moving:
            cx.eq(g[b, rig.column(nm)], ref[b][rig.column(nm)], "gradient")


XYZ = {"rx": (RevoluteJointX, X), "ry": (RevoluteJointY, Y), "rz": (RevoluteJointZ, Z),
       "px": (PrismaticJointX, X), "py": (PrismaticJointY, Y), "pz": (PrismaticJointZ, Z)}


def axis_joint(cx, kind, batch, flat=False):
    """joints about a coordinate axis: relative pose, axis, identity of the arguments"""
    cls, ax = XYZ[kind]
    _, O = origin_of(cx, "j", "txyz")
    j = cls("joint", 3, origin=O[None, :3])
    cx.same((j.name, j.id, j.dof), ("joint", 3, 1), "name, id and degrees of freedom")
    q = torch.stack([cx.angle("q%d" % b, -3.1, 3.1) for b in range(batch)]) if kind[0] == "r" else cx.real("q", batch)
    a = torch.tensor(ax, dtype=cx.dtype)
    full = torch.cat([torch.zeros_like(a), a] if kind[0] == "r" else [a, torch.zeros_like(a)])
    cx.eq(j.axis[:, 0].to(cx.dtype), full, "axis")
    out = j.relative_pose(q if flat else q.view(-1, 1))
    cx.same(tuple(out.shape), (batch, 3, 4), "shape")
    for b in range(batch):
        M = L.homog(L.exp_so3(a, q[b].sin(), 1 - q[b].cos()), torch.zeros_like(a)) if kind[0] == "r" else \
            L.homog(torch.eye(3, dtype=cx.dtype), a * q[b])
        cx.eq(out[b], (O @ M)[:3], "relative pose")
    if kind[0] == "r":
        R = j.rotation(q.view(-1, 1))
        for b in range(batch):
            cx.eq(R[b], L.exp_so3(a, q[b].sin(), 1 - q[b].cos()), "rotation")
    else:
        t = j.translation(q.view(-1, 1))
        for b in range(batch):
            cx.eq(t[b], a * q[b], "translation")


URDF = """<robot name="arm">
%s
</robot>"""


def urdf_text(tree, order):
    root, joints = tree
    links = ['<link name="%s"/>' % n for n in [root] + [j[3] for j in joints]]
    js = []
    for nm, typ, par, ch, ax, org in joints:
        body = '<parent link="%s"/><child link="%s"/>' % (par, ch)
        if org is not None:
            body += "<origin%s%s/>" % ("" if org[0] is None else ' xyz="%s"' % org[0], "" if org[1] is None else ' rpy="%s"' % org[1])
        if ax is not None:
            body += '<axis xyz="%s"/>' % ax
        if typ in ("revolute", "prismatic"):
            body += '<limit effort="1" velocity="1" lower="-3" upper="3"/>'
        js.append('<joint name="%s" type="%s">%s</joint>' % (nm, typ, body))
    return URDF % "\n".join(shuffled(links + js, order))


FILES = {
    "arm": ("r", [("j1", "revolute", "r", "a", "0 0 1", ("0 0 0.333", "0 0 0")), ("f1", "fixed", "a", "m", None, ("0.1 0 0.2", "0.3 -0.2 0.1")),
                  ("j2", "continuous", "m", "b", "0 -1 0", ("0.0825 0 0", "1.57 0 0")), ("j3", "prismatic", "m", "c", "1 0 0", ("0 -0.316 0", None))]),
    "defaults": ("r", [("j1", "revolute", "r", "a", None, None), ("j2", "prismatic", "a", "b", None, ("0.5 0 0", None)),
                       ("f1", "fixed", "b", "c", None, (None, "0 0 0.5"))]),
}


def file_robot(cx, which, order, what):
    """through the real URDF parser; a joint without an axis turns about (1, 0, 0)"""
    root, joints = FILES[which]
    fd, path = tempfile.mkstemp(suffix=".urdf")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(urdf_text(FILES[which], order))
        rob = torchkin.Robot.from_urdf_file(path, dtype=cx.dtype)
    finally:
        os.remove(path)
    rig = Rig.__new__(Rig)
    rig.cx, rig.root, rig.robot, rig.up = cx, root, rob, {}
    for nm, typ, par, ch, ax, org in joints:
        t, r = org or (None, None)
        v = lambda s: torch.tensor([float(x) for x in s.split()], dtype=cx.dtype)   # noqa
        O = L.homog(torch.eye(3, dtype=cx.dtype) if r is None else rpy_mat(v(r)), torch.zeros(3, dtype=cx.dtype) if t is None else v(t))
        rig.up[ch] = (nm, typ, par, None if typ == "fixed" else v(ax or "1 0 0"), O)
    rig.moving = [j[0] for j in joints if j[1] != "fixed"]
    rig.names = [root] + [j[3] for j in joints]
    cx.same(rob.name, "arm", "name")
    what(cx, rig, tol=1e-9)


def joint_inputs(cx):
    """wrong joint inputs are rejected"""
    rig = Rig(cx, "chain-fixed")
    j, f = rig.robot.joint_map["j1"], rig.robot.joint_map["f1"]
    a = cx.real("a", 2, 2)
    cx.raises(ValueError, lambda: j.relative_pose(a), "angle of a revolute joint must be a vector")
    cx.raises(ValueError, lambda: j.relative_pose(), "revolute joint needs a value")
    cx.raises(ValueError, lambda: f.relative_pose(a[:, 0]), "fixed joint takes no value")
    cx.raises(ValueError, lambda: RevoluteJoint("x", torch.zeros(2, dtype=cx.dtype), dtype=cx.dtype), "axis needs 3 elements")
    bad = Model("bad", [types.SimpleNamespace(name="r"), types.SimpleNamespace(name="a")],
                [types.SimpleNamespace(name="j", type="floating", parent="r", child="a", origin=None, axis=None)], "r")
    rig.model = bad
    cx.raises(ValueError, lambda: rig.build(None), "unsupported joint types are rejected")


def pieces(cx, tree, batch):
    """relative poses of each joint of a robot alone"""
    rig = Rig(cx, tree)
    q = values(cx, rig, batch)
    for ch, (nm, typ, par, a, O) in rig.up.items():
        j = rig.robot.joint_map[nm]
        cx.same(j.dof, 0 if typ == "fixed" else 1, "degrees of freedom")
        if typ == "fixed":
            continue
        out = j.relative_pose(torch.stack(q[nm]))
        full = torch.cat([torch.zeros_like(a), a] if typ != "prismatic" else [a, torch.zeros_like(a)])
        cx.eq(j.axis[:, 0], full, "axis")
        for b in range(batch):
            # the origin of a joint behind fixed joints includes those
            M = torch.eye(4, dtype=cx.dtype)
            for n2, t2, _, _, O2 in rig.path(ch):
                M = (torch.eye(4, dtype=cx.dtype) if t2 != "fixed" and n2 != nm else M @ O2)
            cx.eq(out[b], (M @ rig.joint_mat(typ, a, q[nm][b]))[:3], "relative pose")


def cases(tier):
    thorough = tier == "thorough"
    out = []

    def add(name, fn, kw, **o):
        o.setdefault("random", True)
        out.append((name, fn, kw, o))
    moving = [t for t in TREES if t not in ("root", "fixed")]
    for t in TREES:
        for order in ("decl", "reverse", "shuffle"):
            if order != "decl" and len(TREES[t][1]) < 2:
                continue
            add("pose.%s.%s" % (t, order), poses, dict(tree=t, order=order))
        add("pose.batch2." + t, poses, dict(tree=t, batch=2))
    add("pose.batch3.star", poses, dict(tree="star", batch=3))
    for t in ("revolute", "chain-fixed", "branch"):
        add("pose.neg." + t, poses, dict(tree=t, rng=(-3.1, -0.0101)))
        add("pose.turns." + t, poses, dict(tree=t, rng=(3.2, 9.0)))
        add("pose.zero." + t, poses, dict(tree=t, zero=("j1",), batch=2))
    SEL = {"branch-fixed": [("c",), ("n", "d"), ("s", "r"), ("b", "b", "m"), ("d", "a")],
           "fixed-row": [("g",), ("d", "a"), ("c", "b")],
           "branch": [("c", "d"), ("r",), ("b",)],
           "tips": [("t3",), ("t0", "t2", "b"), ("t1", "t1")],
           "root-fixed": [("a",), ("e", "b")]}
    for t, sels in SEL.items():
        for k, s in enumerate(sels):
            add("pose.select%d.%s" % (k, t), poses, dict(tree=t, select=s, batch=2))
            add("jac.select%d.%s" % (k, t), jacobians, dict(tree=t, select=s, order="shuffle"))
            add("grad.select%d.%s" % (k, t), gradient, dict(tree=t, select=s, order="reverse"))
    for t in moving:
        add("jac." + t, jacobians, dict(tree=t))
        add("grad." + t, gradient, dict(tree=t))
        add("reference." + t, reference, dict(tree=t))
        add("joint." + t, pieces, dict(tree=t, batch=2))
        if thorough or t in ("chain3", "branch-fixed"):
            add("jac.batch2." + t, jacobians, dict(tree=t, batch=2, order="shuffle"))
            add("grad.batch2." + t, gradient, dict(tree=t, batch=2, order="shuffle"))
            add("jac.neg." + t, jacobians, dict(tree=t, rng=(-3.1, -0.0101)))
    add("grad.unused.branch", gradient, dict(tree="branch", skip=(0, 2)))
    add("grad.zero.chain3", gradient, dict(tree="chain3", zero=("j1",)))
    add("jac.zero.chain3", jacobians, dict(tree="chain3", zero=("j3",)))
    # any origin and any axis
    for t in ("revolute", "prismatic", "continuous"):
        add("origin." + t, poses, dict(tree=t, origin="txyz"))
        add("origin.jac." + t, jacobians, dict(tree=t, origin="txyz"))
        add("axis." + t, axis_case, dict(tree=t, what=poses))
        add("axis.jac." + t, axis_case, dict(tree=t, what=jacobians))
        add("axis.grad." + t, axis_case, dict(tree=t, what=gradient))
    add("axis.chain-fixed", axis_case, dict(tree="chain-fixed", what=poses))
    for k in XYZ:
        for b in (1, 2):
            add("xyz.%s.b%d" % (k, b), axis_joint, dict(kind=k, batch=b))
        add("xyz.%s.flat" % k, axis_joint, dict(kind=k, batch=2, flat=True))
    for w in FILES:
        for order in ("decl", "reverse"):
            add("file.pose.%s.%s" % (w, order), file_robot, dict(which=w, order=order, what=poses))
        add("file.jac." + w, file_robot, dict(which=w, order="shuffle", what=jacobians))
    add("inputs", joint_inputs, {})
    return out


def axis_case(cx, tree, what):
    """unit axes of any direction"""
    what(cx, tree, axis=lambda nm: cx.unit("ax" + nm, 3))
