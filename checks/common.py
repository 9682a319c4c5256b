"""Shared pieces of the checks: structures, reference computations, models."""

from __future__ import annotations

import importlib
import zlib
from itertools import product

import numpy as np
import torch

from checks import custom

F32 = torch.float32
BF16 = torch.bfloat16
F16 = torch.float16
F64 = torch.float64
DT = {"f32": F32, "bf16": BF16, "f16": F16, "f64": F64}


# ----------------------------------------------------------------------------
# structures: class locations and supports as documented
# ----------------------------------------------------------------------------


def _cls(module, name):
    return getattr(importlib.import_module(f"singd.structures.{module}"), name)


CLASSES = {
    "dense": ("dense", "DenseMatrix"),
    "diagonal": ("diagonal", "DiagonalMatrix"),
    "block3": ("blockdiagonal", "Block3DiagonalMatrix"),
    "block30diagonal": ("blockdiagonal", "Block30DiagonalMatrix"),
    "hier3_2": ("hierarchical", "Hierarchical3_2Matrix"),
    "hierarchical15_15": ("hierarchical", "Hierarchical15_15Matrix"),
    "triltoeplitz": ("triltoeplitz", "TrilToeplitzMatrix"),
    "triutoeplitz": ("triutoeplitz", "TriuToeplitzMatrix"),
    "triltopleft": ("triltopleftdiag", "TrilTopLeftDiagonalMatrix"),
    "trilbottomright": ("trilbottomrightdiag", "TrilBottomRightDiagonalMatrix"),
    "triutopleft": ("triutopleftdiag", "TriuTopLeftDiagonalMatrix"),
    "triubottomright": ("triubottomrightdiag", "TriuBottomRightDiagonalMatrix"),
}
STRUCTS = ["dense", "diagonal", "block30diagonal", "hierarchical15_15", "triltoeplitz",
           "triutoeplitz"]  # selectable in the optimizer


# large dimensions (absent, full and partial blocks), used with part of the entries unknown
HUGE = {
    "dense": [129],
    "diagonal": [150],
    "block3": [100],
    "block30diagonal": [121, 150],
    "hier3_2": [101],
    "hierarchical15_15": [66, 130],
    "triltoeplitz": [130],
    "triutoeplitz": [130],
    "triltopleft": [130],
    "trilbottomright": [130],
    "triutopleft": [130],
    "triubottomright": [130],
}


def cls_of(name):
    if custom.is_custom(name):
        return custom.make(name)
    return _cls(*CLASSES[name])


def _hier(dim, k1, k2):
    if dim <= k1:
        a, d = dim, 0
    elif dim <= k1 + k2:
        a, d = k1, 0
    else:
        a, d = k1, dim - k1 - k2
    s = np.zeros((dim, dim), dtype=bool)
    s[:a, :] = True
    for i in range(a, a + d):
        s[i, i] = True
    s[a + d :, a:] = True
    return s


def support(name, dim):
    """Positions that can be non-zero, from the documented structure."""
    if custom.is_custom(name):
        return custom.support(name, dim)
    i, j = np.indices((dim, dim))
    if name == "dense":
        return np.ones((dim, dim), dtype=bool)
    if name == "diagonal":
        return i == j
    if name == "block3":
        return i // 3 == j // 3
    if name == "block30diagonal":
        return i // 30 == j // 30
    if name == "hier3_2":
        return _hier(dim, 3, 2)
    if name == "hierarchical15_15":
        return _hier(dim, 15, 15)
    if name == "triltoeplitz":
        return i >= j
    if name == "triutoeplitz":
        return i <= j
    if name == "triltopleft":
        return (i == j) | (i == dim - 1)
    if name == "trilbottomright":
        return (i == j) | (j == 0)
    if name == "triutopleft":
        return (i == j) | (j == dim - 1)
    if name == "triubottomright":
        return (i == j) | (i == 0)
    raise KeyError(name)


def ties(name, dim):
    """Label of the number stored at every position (equal labels: the same number)."""
    if custom.is_custom(name):
        return custom.ties(name, dim)
    i, j = np.indices((dim, dim))
    own = j - i if name in ("triltoeplitz", "triutoeplitz") else i * dim + j
    return own.astype(object)


def tied_groups(name, dim):
    """Lists of positions of the structure that share a number."""
    groups = {}
    T = ties(name, dim)
    for i, j in zip(*np.nonzero(support(name, dim))):
        groups.setdefault(T[i, j], []).append((int(i), int(j)))
    return groups


def project(ctx, name, M):
    """The structure's projection of a symmetric matrix (array of oracle numbers)."""
    dim = M.shape[0]
    S = support(name, dim)
    out = ctx.zeros(dim, dim)
    for i, j in zip(*np.nonzero(S)):
        v = M[i, j]
        if i != j and not S[j, i]:
            v = v + M[j, i]
        out[i, j] = v
    for pos in tied_groups(name, dim).values():
        if len(pos) > 1:
            t = ctx.total([out[p] for p in pos]) * ctx.frac(1, len(pos))
            for p in pos:
                out[p] = t
    return out


def avg_trace(ctx, M):
    n = M.shape[0]
    return ctx.total([M[i, i] for i in range(n)]) * ctx.frac(1, n)


def fresh_zeros(name, dim, dtype=F32):
    return cls_of(name).zeros(dim, dtype=dtype)


def arbitrary(ctx, name, dim, label, dtype=F32, density=None, near_eye=False, layout=None):
    """A structured matrix with arbitrary representable entries.

    Starts from the zero (identity) matrix of the class and overwrites its tensors with
    fresh unknowns; `density` keeps only about that many unknowns per tensor and fills
    the other entries with fixed small numbers.
    """
    mat = cls_of(name).eye(dim, dtype=dtype) if near_eye else fresh_zeros(name, dim, dtype)
    if layout is not None:
        relayout(mat, layout)
    fill(ctx, mat, label, density, near_eye)
    return mat


def relayout(mat, how):
    """Keep the entries of a structured matrix in non-contiguous storage.

    Matrices built from slices or transposes of a tensor look like this.
    """
    for nm, t in mat.named_tensors():
        if t.numel() == 0:
            continue
        if how == "transposed":
            u = torch.zeros(t.shape[::-1], dtype=t.dtype).permute(tuple(range(t.ndim))[::-1])
        elif how == "sliced":
            u = torch.zeros([2 * n + 1 for n in t.shape], dtype=t.dtype)
            for d in range(t.ndim):
                u = u.narrow(d, 1, 2 * t.shape[d] - 1)
            u = u[tuple(slice(None, None, 2) for _ in t.shape)]
        else:
            raise ValueError(how)
        u.copy_(t)
        t.data = u
    return mat


LAYOUTS = ("transposed", "sliced")


def fill(ctx, mat, label, density=None, keep=False):
    for k, (nm, t) in enumerate(mat.named_tensors()):
        if t.numel() == 0:
            continue
        mask = None
        if density is not None and t.numel() > density:
            mask = spread_mask(tuple(t.shape), density, f"{label}{nm}")
            if not keep:
                base = np.empty(tuple(t.shape), dtype=object)
                for n, idx in enumerate(np.ndindex(*t.shape)):
                    base[idx] = num(ctx, (n * 7 + 3 * k) % 5 - 2, 4)
                ctx.write(t, base)
        ctx.fill(t, f"{label}.{nm}", mask)


def num(ctx, a, b=1):
    return ctx.frac(a, b)


def spread_mask(shape, count, salt=""):
    """Mask with about `count` positions, including corners and edges."""
    n = int(np.prod(shape))
    m = np.zeros(n, dtype=bool)
    if count < 3:  # exactly that many, at positions that depend on the label
        h = zlib.crc32(str(salt).encode())
        for k in range(count):
            m[(h + k * (1 + (h >> 8) % max(1, n - 1))) % n] = True
        return m.reshape(shape)
    pos = {0, n - 1}
    if len(shape) >= 2 and shape[-1] > 1:
        pos |= {shape[-1] - 1, n - shape[-1], 1, n - 2}
    step = max(1, n // max(1, count))
    k = 0
    while len(pos) < count and k < 4 * n:
        pos.add((k * step + k * k) % n)
        k += 1
    m[list(p for p in pos if 0 <= p < n)] = True
    return m.reshape(shape)


def dense(ctx, mat):
    return ctx.read(mat.to_dense())


def check_spans(ctx, name, dim, D, label):
    """The arbitrary matrix reaches every position of the support, and no other."""
    S, T = support(name, dim), ties(name, dim)
    z = ctx.zeros(dim, dim)
    off = np.where(S, z, D)
    ctx.eq(f"{label} zero outside of the structure", off, z)
    if not ctx.sym:
        return
    seen = {}
    ok = True
    for i, j in zip(*np.nonzero(S)):
        p = D[i, j]
        key = T[i, j]
        if key in seen:
            ok &= p.same(seen[key])
        else:
            seen[key] = p
    ok &= len({q.key() for q in seen.values()}) == len(seen)
    ok &= all(not q.is_const() for q in seen.values())
    ctx.check(f"{label} spans the structure", ok)


def same_class(ctx, label, mat, name, dtype):
    ctx.check(f"{label} class", type(mat) is cls_of(name), type(mat).__name__)
    dts = {t.dtype for _, t in mat.named_tensors()}
    ctx.check(f"{label} dtype", dts <= {dtype}, dts)


def symmetric(ctx, label, dim, count=None, dtype=F32):
    """Symmetric tensor of unknowns (others fixed numbers)."""
    a = np.empty((dim, dim), dtype=object)
    m = spread_mask((dim, dim), count) if count and count < dim * dim else None
    u = ctx.array(label, dim, dim)
    for i in range(dim):
        for j in range(i + 1):
            if m is None or m[i, j] or m[j, i]:
                a[i, j] = a[j, i] = u[i, j]
            else:
                a[i, j] = a[j, i] = num(ctx, (3 * i + 5 * j) % 7 - 3, 4)
    t = torch.zeros(dim, dim, dtype=dtype)
    ctx.write(t, a)
    return t, ctx.read(t)


def some_tensor(ctx, label, shape, count=None, dtype=F32, value=None):
    """Tensor of unknowns; with `count`, only that many entries are unknown."""
    t = torch.zeros(shape, dtype=dtype)
    if t.numel() == 0:
        return t
    mask = None
    n = t.numel()
    if count is not None and n > count:
        mask = spread_mask(tuple(shape), count, label)
        base = np.empty(tuple(shape), dtype=object)
        for k, idx in enumerate(np.ndindex(*shape)):
            base[idx] = num(ctx, (k * 5) % 7 - 3, 4) if value is None else value
        ctx.write(t, base)
    ctx.fill(t, label, mask)
    return t


def outer(*lists):
    return list(product(*lists))


def scales_of(opt):
    """The optimizer's record of gradient scales by step, wherever it keeps it."""
    d = getattr(opt, "_grad_scales", None)
    if d is None:
        ds = [v for k, v in vars(opt).items() if isinstance(v, dict) and v and all(
            hasattr(i, "_sym_poly") or (isinstance(i, int) and -1 <= i <= 10**7) for i in v)]
        d = ds[0] if len(ds) == 1 else None
    return d


def start_at(opt, steps, **scales):
    """Pretend that `steps` steps went before; returns the number of the next step."""
    d = scales_of(opt)
    opt.steps = steps
    if d is None:  # not recorded by step
        return steps
    d.clear()
    d[steps - 1] = scales.get("last", 1.0)
    if "older" in scales:
        d[steps - 2] = scales["older"]
    return steps
