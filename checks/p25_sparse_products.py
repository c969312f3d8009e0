"""P25: sparse matrix products, their hand-written gradients, and gathering."""
import itertools

import numpy as np
import torch

from theseus.utils import gather_from_rows_cols
from theseus.utils.sparse_matrix_utils import mat_vec, sparse_mtv, sparse_mv, tmat_vec

PROPERTY = "P25"
EXPLAIN = ("sparse_mv, sparse_mtv, mat_vec and tmat_vec run on symbolic values and vectors; results are compared with the dense sums, and the gradients "
           "of autograd through the hand-written backward with the exact derivatives of the defining sums paired with the upstream gradient.")
BOUNDS = ("every sparsity pattern of at most 2x2 and 14 larger ones up to 4x4 (empty rows and columns, unsorted columns, dense, single row/column), "
          "batch 1-3, int32 and int64 indices; gathering: every index pair of 2x2 and 2x3 matrices, broadcast batches, repeated points")
ASSUMPTIONS = ["real arithmetic instead of floating point, except that narrowing to float32 is kept",
               "scipy's csr/csc matrix product is the defining sum (model in symtorch/stubs.py; replays use scipy)",
               "a row does not list the same column twice"]
BUDGET = 60

BIG = {
    "empty-first": (3, [[], [0, 2], [1]]),
    "empty-mid": (2, [[0], [], [], [0, 1]]),
    "empty-last": (3, [[0, 1], [2], []]),
    "empty-all": (3, [[], []]),
    "empty-col": (4, [[0, 2], [2], [0]]),
    "empty-lastcol": (4, [[0, 1], [1, 2]]),
    "unsorted": (3, [[2, 0], [1, 0, 2], [2, 1]]),
    "dense": (3, [[0, 1, 2], [0, 1, 2]]),
    "row": (4, [[0, 1, 3]]),
    "col": (1, [[0], [], [0], [0]]),
    "band": (4, [[0, 1], [0, 1, 2], [1, 2, 3], [2, 3]]),
    "perm": (4, [[2], [0], [3], [1]]),
    "arrow": (3, [[0, 1, 2], [1], [2], [0]]),
    "wide": (4, [[3], [0, 3]]),
}


def small():
    out = {}
    for m, n in ((1, 1), (1, 2), (2, 1), (2, 2)):
        for cells in itertools.product((0, 1), repeat=m * n):
            if any(cells):
                out["%dx%d-%s" % (m, n, "".join(map(str, cells)))] = \
                    (n, [[c for c in range(n) if cells[r * n + c]] for r in range(m)])
    return out


def setup(cx, n, rows, batch, idt):
    ptr = torch.tensor(np.cumsum([0] + [len(r) for r in rows]), dtype=idt)
    ind = torch.tensor([c for r in rows for c in r], dtype=idt)
    val = cx.real("A", batch, len(ind)) if len(ind) else torch.zeros(batch, 0, dtype=cx.dtype)
    return ptr, ind, val


def dense_mv(rows, val, v, n, transpose):
    """list of output entries: the defining sums"""
    m = len(rows)
    out = [torch.zeros((), dtype=val.dtype) for _ in range(n if transpose else m)]
    k = 0
    for r, cols in enumerate(rows):
        for c in cols:
            if transpose:
                out[c] = out[c] + val[k] * v[r]
            else:
                out[r] = out[r] + val[k] * v[c]
            k += 1
    return torch.stack(out)


def product(cx, n, rows, batch, transpose, idt=torch.int64):
    m = len(rows)
    ptr, ind, val = setup(cx, n, rows, batch, idt)
    nin, nout = (m, n) if transpose else (n, m)
    v = cx.real("v", batch, nin)
    G = cx.real("G", batch, nout)
    fn, raw = (sparse_mtv, tmat_vec) if transpose else (sparse_mv, mat_vec)
    y0 = raw(batch, n, ptr, ind, val, v)
    A = val.detach().clone().requires_grad_(True)
    x = v.detach().clone().requires_grad_(True)
    y = fn(n, ptr, ind, A, x)
    cx.same((tuple(y.shape), tuple(y0.shape)), ((batch, nout), (batch, nout)), "shape")
    gA, gx = torch.autograd.grad((y * G).sum(), [A, x])
    cx.same((tuple(gA.shape), tuple(gx.shape)), (tuple(A.shape), tuple(x.shape)), "gradient shapes")
    # one operand alone, and the product used twice
    gx1, = torch.autograd.grad((fn(n, ptr, ind, val, x) * G).sum(), [x])
    if len(ind):
        gA1, = torch.autograd.grad((fn(n, ptr, ind, A, v) * G).sum(), [A])
        cx.eq(gA1, gA, "gradient of the values alone")
    y2 = fn(n, ptr, ind, A, x) + 3.0 * fn(n, ptr, ind, A, 2.0 * x)
    g2A, g2x = torch.autograd.grad((y2 * G).sum(), [A, x])
    cx.eq(g2A, 7.0 * gA, "used twice, gradient of the values")
    cx.eq(g2x, 7.0 * gx, "used twice, gradient of the vector")
    cx.eq(gx1, gx, "gradient of the vector alone")
    for b in range(batch):
        ref = dense_mv(rows, val[b], v[b], n, transpose)
        cx.eq(y[b], ref, "product", numtol=1e-12)
        cx.eq(y0[b], ref, "raw product", numtol=1e-12)
        # transpose identity gives the vector gradient, the outer product the other
        cx.eq(gx[b], dense_mv(rows, val[b], G[b], n, not transpose), "gradient of the vector", numtol=1e-12)
        k = 0
        for r, cols in enumerate(rows):
            for c in cols:
                e = v[b, r] * G[b, c] if transpose else v[b, c] * G[b, r]
                cx.eq(gA[b, k], e, "gradient of the values", numtol=1e-12)
                k += 1
    z = (y * G).sum()
    for k in range(len(ind)):
        cx.eq(gA[batch - 1, k], cx.deriv(z, {"A_%d" % ((batch - 1) * len(ind) + k): 1.0}), "gradient is the derivative (values)")
    for j in range(nin):
        cx.eq(gx[0, j], cx.deriv(z, {"v_%d" % j: 1.0}), "gradient is the derivative (vector)")


def adjoint(cx, n, rows, batch):
    """<A v, w> = <v, A^T w>"""
    ptr, ind, val = setup(cx, n, rows, batch, torch.int64)
    v, w = cx.real("v", batch, n), cx.real("w", batch, len(rows))
    l = (sparse_mv(n, ptr, ind, val, v) * w).sum(1)
    r = (sparse_mtv(n, ptr, ind, val, w) * v).sum(1)
    cx.eq(l, r, "adjoint")


def gather(cx, bm, bi, shape):
    M = cx.real("M", bm, *shape)
    G = None
    pairs = list(itertools.product(range(shape[0]), range(shape[1])))
    k = len(pairs)
    # every index pair, another order per element, with a repeated point
    idx = [[pairs[(i * (b + 1) + b) % k] if k % (b + 1) else pairs[(i + b) % k] for i in range(k)] + [pairs[b % k]] for b in range(bi)]
    rows = torch.tensor([[p[0] for p in r] for r in idx])
    cols = torch.tensor([[p[1] for p in r] for r in idx])
    Mg = M.detach().clone().requires_grad_(True)
    y = gather_from_rows_cols(Mg, rows, cols)
    cx.same(tuple(y.shape), (bi, k + 1), "shape")
    G = cx.real("G", bi, k + 1)
    g, = torch.autograd.grad((y * G).sum(), [Mg])
    acc = {}
    for b in range(bi):
        for j, (r, c) in enumerate(idx[b]):
            mb = b if bm > 1 else 0
            cx.eq(y[b, j], M[mb, r, c], "element")
            acc[(mb, r, c)] = acc.get((mb, r, c), 0.0) + G[b, j]
    for b in range(bm):
        for r in range(shape[0]):
            for c in range(shape[1]):
                cx.eq(g[b, r, c], acc.get((b, r, c), torch.zeros((), dtype=cx.dtype)), "gradient of the gather")


def refused(cx):
    M = cx.real("M", 1, 2, 2)
    i = torch.tensor([[0, 1]])
    for r, c in ((torch.tensor([[0, 2]]), i), (i, torch.tensor([[2, 0]])), (torch.tensor([[-1, 0]]), i), (i, torch.tensor([[0, -1]])),
                 (torch.tensor([[0]]), i)):
        cx.raises(AssertionError, lambda: gather_from_rows_cols(M, r, c), "index out of range refused")


def cases(tier):
    out = []
    pats = dict(small())
    pats.update(BIG)
    for name, (n, rows) in pats.items():
        for tr in (False, True):
            t = "mtv" if tr else "mv"
            for batch in ((1, 2) if name in BIG or tier != "quick" else (2,)):
                out.append(("%s.%s.%d" % (t, name, batch), product, dict(n=n, rows=rows, batch=batch, transpose=tr), {}))
            if name in BIG:
                out.append(("%s.%s.i32" % (t, name), product, dict(n=n, rows=rows, batch=3 if len(sum(rows, [])) < 5 else 1, transpose=tr,
                                                                  idt=torch.int32), {}))
        out.append(("adjoint.%s" % name, adjoint, dict(n=n, rows=rows, batch=2), {}))
    for bm, bi in ((1, 1), (1, 2), (2, 2), (3, 3), (1, 3)):
        for shape in ((2, 2), (2, 3), (1, 2)):
            out.append(("gather.%d.%d.%dx%d" % ((bm, bi) + shape), gather, dict(bm=bm, bi=bi, shape=shape), {}))
    out.append(("gather.refused", refused, {}, {}))
    return out
