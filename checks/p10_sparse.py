"""P10: sparse linearization."""
import torch

import theseus as th
from theseus.optimizer import DenseLinearization, SparseLinearization
from probs import *  # noqa

PROPERTY = "P10"
EXPLAIN = ("SparseLinearization (structure at construction, values at linearize) runs on objectives with free jacobians, errors and weights; the "
           "matrix spelled by A_row_ptr/A_col_ind/A_val and by structure() is compared entry by entry with the independently laid out weighted "
           "blocks, and Atb, Av, diagonal_scaling with the dense expressions.")
BOUNDS = ("6 graph structures of 1-4 variables (dof 1-3, vectors, SE2, SO3) and 1-4 costs of 1-3 rows, every variable ordering and (3 structures) "
          "every cost order, data and weight batches of 1 or 2, repeated linearization with new values, with and without vectorization")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "scipy's csr/csc matrix product is the defining sum (model in symtorch/stubs.py; replays use scipy)",
               "a cost function does not list the same variable twice"]
BUDGET = 110


def dense_of(row_ptr, col_ind, val, m, n, dtype):
    out = [[torch.zeros((), dtype=dtype) for _ in range(n)] for _ in range(m)]
    for r in range(m):
        for k in range(int(row_ptr[r]), int(row_ptr[r + 1])):
            out[r][int(col_ind[k])] = out[r][int(col_ind[k])] + val[k]
    return torch.stack([torch.stack(r) for r in out])


def check_system(cx, p, lin, names, vname="v", what="", products=True):
    A = [p.system(names, b) for b in range(p.batch)]
    n = sum(p.vars[v].dof() for v in names)
    m = sum(p.costs[i].dim() for i in p.order)
    cx.same((lin.num_rows, lin.num_cols), (m, n), what + "size")
    rp, ci = [int(i) for i in lin.A_row_ptr], [int(i) for i in lin.A_col_ind]
    cx.same((len(rp), rp[0], rp[-1]), (m + 1, 0, len(ci)), what + "row pointers")
    cx.same(all(x <= y for x, y in zip(rp, rp[1:])), True, what + "row pointers increase")
    cx.same(all(0 <= c < n for c in ci), True, what + "column indices in range")
    cx.same(all(x < y for r in range(m) for x, y in zip(ci[rp[r]:rp[r + 1]], ci[rp[r] + 1:rp[r + 1]])), True,
            what + "columns of a row are sorted and distinct")
    cx.same(tuple(lin.A_val.shape), (p.batch, len(ci)), what + "shape of the values")
    cx.same(lin.A_val.dtype, p.obj.dtype, what + "dtype")
    s = lin.structure()
    cx.same((s.num_rows, s.num_cols), (m, n), what + "structure size")
    mock = s.mock_csc_transpose()
    cx.same((mock.shape, [int(i) for i in mock.indices], [int(i) for i in mock.indptr]), ((n, m), ci, rp), what + "mock structure")
    if products:
        v = cx.real(vname, p.batch, n)
        Av = lin.Av(v)
        ds = lin.diagonal_scaling(v)
        ds2 = lin.diagonal_scaling(v)
        Atb = lin.Atb
        Atb2 = lin.Atb
        cx.same(tuple(Atb.shape), (p.batch, n, 1), what + "shape of Atb")
    for b, (Ab, bb) in enumerate(A):
        cx.eq(dense_of(rp, ci, lin.A_val[b], m, n, p.obj.dtype), Ab, what + "A")
        cx.eq(lin.b[b], bb, what + "b is minus the weighted error")
        val = lin.A_val[b].detach()
        cx.eq(torch.as_tensor(s.csr_straight(val).toarray()), Ab, what + "csr_straight is A")
        cx.eq(torch.as_tensor(s.csc_transpose(val).toarray()), Ab.T, what + "csc_transpose is the transpose of A")
        if products:
            H = Ab.T @ Ab
            cx.eq(Atb[b], (Ab.T @ bb).unsqueeze(1), what + "Atb")
            cx.eq(Atb2[b], (Ab.T @ bb).unsqueeze(1), what + "Atb again")
            cx.eq(Av[b], Ab @ v[b], what + "Av", numtol=1e-9)
            cx.eq(ds[b], H.diagonal() * v[b], what + "diagonal_scaling", numtol=1e-9)
            cx.eq(ds2[b], H.diagonal() * v[b], what + "diagonal_scaling again", numtol=1e-9)


def structure(cx, st, vec=False, detach=False, corders=False, batch=2):
    vars, costs = STRUCTS[st]
    corder = perms(range(len(costs))) if corders else [None]
    vorder = perms(vars) if not corders else [perms(vars)[-1]]
    for co in corder:
        p = Problem(cx, vars, costs, vec=vec, order=co, batch=batch)
        for vo in vorder:
            lin = SparseLinearization(p.obj, ordering=p.ordering(vo))
            lin.linearize(_detach_hessian=detach)
            cx.same(lin.detached_hessian, detach, "detached_hessian")
            check_system(cx, p, lin, vo)


def repeat(cx, st, vec=False):
    """values, products and cached quantities follow each linearization"""
    vars, costs = STRUCTS[st]
    p = Problem(cx, vars, costs, vec=vec)
    vo = perms(vars)[-1]
    lin = SparseLinearization(p.obj, ordering=p.ordering(vo))
    for rep in range(3):
        lin.linearize(_detach_hessian=rep == 1)
        cx.same(lin.detached_hessian, rep == 1, "detached_hessian of this linearization")
        check_system(cx, p, lin, vo, "v%d" % rep, "round %d " % rep)
        for i, c in enumerate(p.costs):
            e = cx.real("f%d%d" % (rep, i), *p.e[i].shape)
            c.e.update(e)
            p.e[i] = e
            for k, n in enumerate(p.J[i]):
                j = cx.real("K%d%d%s" % (rep, i, n), *p.J[i][n].shape)
                getattr(c, "J%d" % k).update(j)
                p.J[i][n] = j


def matches_dense(cx, st):
    """same objective, same ordering: both linearizations agree"""
    vars, costs = STRUCTS[st]
    p = Problem(cx, vars, costs)
    for vo in perms(vars):
        s = SparseLinearization(p.obj, ordering=p.ordering(vo))
        d = DenseLinearization(p.obj, ordering=p.ordering(vo))
        s.linearize()
        d.linearize()
        v = cx.real("v", p.batch, d.num_cols)
        for b in range(p.batch):
            cx.eq(dense_of(s.A_row_ptr, s.A_col_ind, s.A_val[b], d.num_rows, d.num_cols, cx.dtype), d.A[b], "A")
        cx.eq(s.b, d.b, "b")
        cx.eq(s.Atb, d.Atb, "Atb")
        cx.eq(s.Av(v), d.Av(v), "Av", numtol=1e-9)
        cx.eq(s.diagonal_scaling(v), d.diagonal_scaling(v), "diagonal_scaling", numtol=1e-9)


def precision(cx, st):
    """double precision data is never rounded to single precision on the way"""
    vars, costs = STRUCTS[st]
    p = Problem(cx, vars, costs)
    vo = perms(vars)[0]
    lin = SparseLinearization(p.obj, ordering=p.ordering(vo))
    lin.linearize()
    v = cx.real("v", p.batch, lin.num_cols)
    for b in range(p.batch):
        A, bb = p.system(vo, b)
        cx.eq(lin.diagonal_scaling(v)[b], (A * A).sum(0) * v[b], "diagonal_scaling", numtol=1e-12)
        cx.eq(lin.Av(v)[b], A @ v[b], "Av", numtol=1e-12)
        cx.eq(lin.Atb[b], (A.T @ bb).unsqueeze(1), "Atb", numtol=1e-12)


def cases(tier):
    out = []
    for st in STRUCTS:
        for vec in (False, True):
            out.append(("%s%s" % (st, ".vec" if vec else ""), structure, dict(st=st, vec=vec), {}))
        out.append((st + ".detach", structure, dict(st=st, detach=True), {}))
        out.append((st + ".repeat", repeat, dict(st=st), {}))
        out.append((st + ".dense", matches_dense, dict(st=st), {}))
        out.append((st + ".precision", precision, dict(st=st), {}))
    out.append(("mix.repeat.vec", repeat, dict(st="mix", vec=True), {}))
    for st in ("mix", "chain", "split"):
        out.append((st + ".costorders", structure, dict(st=st, corders=True), {}))
    out.append(("flat.batch1", structure, dict(st="flat", batch=1), {}))
    return out
