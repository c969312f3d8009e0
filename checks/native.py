"""Models of the native solver libraries that are not built here (BaSpaCho,
cuSOLVER and the CUDA sparse kernels), following their C++ sources in
theseus/extlib.  They are plain torch code: the same models serve the symbolic
execution and the concrete replays."""
import sys
import types

import torch


def dense_rows(val, ptrs, inds, n):
    """(batch, rows, n) dense matrix of CSR data"""
    ptrs, inds = [int(i) for i in ptrs], [int(i) for i in inds]
    b = val.shape[0]
    out = torch.zeros(b, len(ptrs) - 1, n, dtype=val.dtype)
    for r in range(len(ptrs) - 1):
        for k in range(ptrs[r], ptrs[r + 1]):
            out[:, r, inds[k]] = out[:, r, inds[k]] + val[:, k]
    return out


def need(t, dtype, dim, what):
    if t.dtype != dtype or t.dim() != dim:
        raise RuntimeError("%s: wrong dtype or dimension" % what)


class NumericDecomposition:
    def __init__(self, dec, batch):
        self.dec, self.batch = dec, batch
        self.M = torch.zeros(batch, dec.n, dec.n, dtype=torch.float64)
        self.factored = False

    def add_MtM(self, val, ptrs, inds):
        need(val, torch.float64, 2, "val")
        need(ptrs, torch.int64, 1, "ptrs")
        need(inds, torch.int64, 1, "inds")
        if val.shape[0] != self.batch or int(ptrs[-1]) != inds.shape[0] or val.shape[1] != inds.shape[0]:
            raise RuntimeError("sizes")
        A = dense_rows(val, ptrs, inds, self.dec.n)
        P, I = [int(i) for i in ptrs], [int(i) for i in inds]
        for q in range(len(P) - 1):
            for j in range(P[q], P[q + 1]):
                for i in range(P[q], j + 1):
                    self.dec.block(I[j], I[i])
        self.M = self.M + A.transpose(1, 2) @ A

    def damp(self, alpha, beta):
        for t in (alpha, beta):
            need(t, torch.float64, 1, "damping")
            if t.shape[0] != self.batch:
                raise RuntimeError("damping size")
        d = self.M.diagonal(dim1=1, dim2=2)
        self.M = self.M + torch.diag_embed(alpha.view(-1, 1) * d + beta.view(-1, 1))

    def factor(self):
        self.factored = True

    def solve(self, x):
        need(x, torch.float64, 2, "x")
        if not self.factored:
            raise RuntimeError("not factored")
        if tuple(x.shape) != (self.batch, self.dec.n):
            raise RuntimeError("shape of x")
        x.copy_(torch.linalg.solve(self.M, x.unsqueeze(2)).squeeze(2))


class SymbolicDecomposition:
    def __init__(self, param_size, ptrs, inds, dev):
        for t in (param_size, ptrs, inds):
            need(t, torch.int64, 1, "structure")
        self.sizes = [int(i) for i in param_size]
        self.n = sum(self.sizes)
        self.par = [p for p, s in enumerate(self.sizes) for _ in range(s)]
        P, I = [int(i) for i in ptrs], [int(i) for i in inds]
        self.blocks = {(r, I[k]) for r in range(len(P) - 1) for k in range(P[r], P[r + 1])}

    def block(self, r, c):
        a, b = self.par[r], self.par[c]
        if (a, b) not in self.blocks and (b, a) not in self.blocks:
            raise RuntimeError("entry outside the block structure")

    def create_numeric_decomposition(self, batch):
        return NumericDecomposition(self, batch)


class CusolverLUSolver:
    def __init__(self, batch_size, num_cols, rowPtr, colInd):
        need(rowPtr, torch.int32, 1, "rowPtr")
        need(colInd, torch.int32, 1, "colInd")
        self.batch_size, self.num_cols = batch_size, num_cols
        self.A_rowPtr, self.A_colInd = rowPtr, colInd
        self.factor_id = 0
        self.M = None

    def factor(self, val):
        need(val, torch.float64, 2, "val")
        if val.shape[0] != self.batch_size:
            raise RuntimeError("batch size")
        self.M = dense_rows(val, self.A_rowPtr, self.A_colInd, self.num_cols)
        self.factor_id += 1

    def solve(self, x):
        need(x, torch.float64, 2, "x")
        if x.shape[0] != self.batch_size:
            raise RuntimeError("batch size")
        x.copy_(torch.linalg.solve(self.M, x.unsqueeze(2)).squeeze(2))


def mult_MtM(batch, rp, ci, val, MtM_rp, MtM_ci):
    need(val, torch.float64, 2, "val")
    n = MtM_rp.shape[0] - 1
    A = dense_rows(val, rp, ci, n)
    M = A.transpose(1, 2) @ A
    out = []
    P, I = [int(i) for i in MtM_rp], [int(i) for i in MtM_ci]
    for r in range(n):
        for k in range(P[r], P[r + 1]):
            out.append(M[:, r, I[k]])
    return torch.stack(out, 1)


def apply_damping(batch, num_cols, rp, ci, val, alpha, beta):
    for t in (alpha, beta):
        need(t, torch.float64, 1, "damping")
        if t.shape[0] != batch:
            raise RuntimeError("damping size")
    P, I = [int(i) for i in rp], [int(i) for i in ci]
    for r in range(len(P) - 1):
        for k in range(P[r], P[r + 1]):
            if I[k] == r:
                val[:, k] = val[:, k] + alpha * val[:, k] + beta


def mat_vec(batch, num_cols, rp, ci, val, v):
    need(val, torch.float64, 2, "val")
    need(v, torch.float64, 2, "v")
    return (dense_rows(val, rp, ci, num_cols) @ v.unsqueeze(2)).squeeze(2)


def tmat_vec(batch, num_cols, rp, ci, val, v):
    need(val, torch.float64, 2, "val")
    need(v, torch.float64, 2, "v")
    return (dense_rows(val, rp, ci, num_cols).transpose(1, 2) @ v.unsqueeze(2)).squeeze(2)


class installed:
    """provide the models as theseus.extlib.* and pretend that CUDA exists"""

    def __init__(self, cuda=False):
        self.cuda = cuda

    def __enter__(self):
        import theseus.extlib as ext
        self.old = {}

        def put(name, **attrs):
            full = "theseus.extlib." + name
            self.old[name] = (sys.modules.get(full), getattr(ext, name, None))
            m = types.ModuleType(full)
            m.__dict__.update(attrs)
            sys.modules[full] = m
            setattr(ext, name, m)
        put("baspacho_solver", SymbolicDecomposition=SymbolicDecomposition, NumericDecomposition=NumericDecomposition)
        if self.cuda:
            put("cusolver_lu_solver", CusolverLUSolver=CusolverLUSolver)
            put("mat_mult", mult_MtM=mult_MtM, apply_damping=apply_damping, mat_vec=mat_vec, tmat_vec=tmat_vec)
            self.av, self.tc = torch.cuda.is_available, torch.Tensor.cuda
            torch.cuda.is_available = lambda: True
            torch.Tensor.cuda = lambda t, *a, **k: t
        return self

    def __exit__(self, *a):
        import theseus.extlib as ext
        for name, (m, attr) in self.old.items():
            full = "theseus.extlib." + name
            if m is None:
                sys.modules.pop(full, None)
            else:
                sys.modules[full] = m
            if attr is None:
                if hasattr(ext, name):
                    delattr(ext, name)
            else:
                setattr(ext, name, attr)
        if self.cuda:
            torch.cuda.is_available, torch.Tensor.cuda = self.av, self.tc
        return False
