"""Structured classes as users would define them, described by short names.

- `block:K`, `hier:K1,K2`: classes derived from the templates
- `TR(a|c|m,n)`, `BL(a|c|m,n)`: recursive templates with member classes `a`, `c` (any names,
  also nested) and `MAX_DIMS = (m, n)`
- `user:...`: direct children of `StructuredMatrix` that only define how to convert from and
  to dense matrices
"""

from __future__ import annotations

from functools import lru_cache

import numpy as np


def is_custom(name):
    return ":" in name or name.startswith(("TR(", "BL("))


def parts(name):
    """('TR' | 'BL', member a, member c, MAX_DIMS) of a recursive class."""
    kind, body = name[:2], name[3:-1]
    out, depth, cur = [], 0, ""
    for ch in body:
        depth += (ch == "(") - (ch == ")")
        if ch == "|" and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    a, c = out
    dims = tuple(float("inf") if v == "inf" else int(v) for v in cur.split(","))
    return kind, a, c, dims


def boundary(dims, dim):
    m, n = dims
    return max(0, dim - n) if m == float("inf") else min(m, dim)


@lru_cache(maxsize=None)
def make(name):
    from checks.common import cls_of
    from singd.structures import blockdiagonal, hierarchical, recursive

    label = "User" + "".join(ch if ch.isalnum() else "_" for ch in name)
    if name.startswith("block:"):
        return type(label, (blockdiagonal.BlockDiagonalMatrixTemplate,),
                    dict(BLOCK_DIM=int(name[6:])))
    if name.startswith("hier:"):
        k1, k2 = map(int, name[5:].split(","))
        return type(label, (hierarchical.HierarchicalMatrixTemplate,),
                    dict(MAX_K1=k1, MAX_K2=k2))
    if name.startswith("user:"):
        return user(name[5:].removesuffix("/quiet"), label, not name.endswith("/quiet"))
    kind, a, c, dims = parts(name)
    base = (recursive.RecursiveTopRightMatrixTemplate if kind == "TR"
            else recursive.RecursiveBottomLeftMatrixTemplate)
    return type(label, (base,), dict(MAX_DIMS=dims, CLS_A=cls_of(a), CLS_C=cls_of(c)))


def user(kind, label, loud):
    from singd.structures.base import StructuredMatrix

    import torch

    class Full(StructuredMatrix):
        """Any matrix."""

        def __init__(self, mat):
            super().__init__()
            self.register_tensor(mat, "mat")

        @classmethod
        def from_dense(cls, sym_mat):
            return cls(sym_mat.clone())

        def to_dense(self):
            return self.mat

    class Upper(StructuredMatrix):
        """Upper triangular: the diagonal, and the rows above it side by side."""

        def __init__(self, diag, rows):
            super().__init__()
            self.register_tensor(diag, "diag")
            self.register_tensor(rows, "rows")

        @classmethod
        def from_dense(cls, sym_mat):
            i, j = torch.triu_indices(*sym_mat.shape, offset=1)
            return cls(sym_mat.diag().clone(), sym_mat[i, j] + sym_mat[j, i])

        def to_dense(self):
            n = self.diag.shape[0]
            i, j = torch.triu_indices(n, n, offset=1)
            mat = torch.zeros(n, n, dtype=self.diag.dtype, device=self.diag.device)
            mat[i, j] = self.rows
            k = torch.arange(n)
            mat[k, k] = self.diag
            return mat

    class Checker(StructuredMatrix):
        """Even and odd coordinates do not interact."""

        def __init__(self, even, odd):
            super().__init__()
            self.register_tensor(even, "even")
            self.register_tensor(odd, "odd")

        @classmethod
        def from_dense(cls, sym_mat):
            return cls(sym_mat[::2, ::2].clone(), sym_mat[1::2, 1::2].clone())

        def to_dense(self):
            n = self.even.shape[0] + self.odd.shape[0]
            mat = torch.zeros(n, n, dtype=self.even.dtype, device=self.even.device)
            mat[::2, ::2] = self.even
            mat[1::2, 1::2] = self.odd
            return mat

    class Scalar(StructuredMatrix):
        """One number per half of the diagonal."""

        def __init__(self, first, second, n):
            super().__init__()
            self.n = n
            self.register_tensor(first, "first")
            self.register_tensor(second, "second")

        @classmethod
        def from_dense(cls, sym_mat):
            n = sym_mat.shape[0]
            d = sym_mat.diag()
            h = (n + 1) // 2
            halves = [v.mean(0, keepdim=True) if len(v) else v.clone() for v in (d[:h], d[h:])]
            return cls(*halves, n)

        def to_dense(self):
            h = (self.n + 1) // 2
            d = torch.zeros(self.n, dtype=self.first.dtype, device=self.first.device)
            d[:h] = self.first
            if self.n > h:
                d[h:] = self.second
            return d.diag()

    class Multiple(StructuredMatrix):
        """A multiple of the identity, kept as a number."""

        def __init__(self, value, n):
            super().__init__()
            self.n = n
            self.register_tensor(value, "value")

        @classmethod
        def from_dense(cls, sym_mat):
            return cls(sym_mat.diag().mean(), sym_mat.shape[0])

        def to_dense(self):
            return self.value.expand(self.n).diag()

    cls = dict(full=Full, upper=Upper, checker=Checker, scalar=Scalar, multiple=Multiple)[kind]
    cls.__name__ = cls.__qualname__ = label
    if not loud:
        cls.WARN_NAIVE = False
    return cls


def support(name, dim):
    from checks.common import _hier
    from checks.common import support as sup

    i, j = np.indices((dim, dim))
    if name.startswith("block:"):
        k = int(name[6:])
        return i // k == j // k
    if name.startswith("hier:"):
        return _hier(dim, *map(int, name[5:].split(",")))
    if name.startswith("user:"):
        kind = name[5:].removesuffix("/quiet")
        return dict(full=i == i, upper=i <= j, checker=(i - j) % 2 == 0, scalar=i == j,
                    multiple=i == j)[kind]
    kind, a, c, dims = parts(name)
    b = boundary(dims, dim)
    S = np.zeros((dim, dim), dtype=bool)
    S[:b, :b] = sup(a, b)
    S[b:, b:] = sup(c, dim - b)
    if kind == "TR":
        S[:b, b:] = True
    else:
        S[b:, :b] = True
    return S


def ties(name, dim):
    """Label of the number stored at every position (equal labels: the same number)."""
    from checks.common import ties as t

    i, j = np.indices((dim, dim))
    own = (i * dim + j).astype(object)
    if name.startswith("user:scalar"):
        h = (dim + 1) // 2
        return np.where(i == j, np.where(i < h, "first", "second"), own)
    if name.startswith("user:multiple"):
        return np.where(i == j, "all", own)
    if name.startswith(("block:", "hier:", "user:")):
        return own
    kind, a, c, dims = parts(name)
    b = boundary(dims, dim)
    for m, lo, hi, s in ((a, 0, b, "A"), (c, b, dim, "C")):
        sub = t(m, hi - lo)
        for p in np.ndindex(hi - lo, hi - lo):
            own[lo + p[0], lo + p[1]] = (s, sub[p])
    return own
