"""Reference model of the documented algorithm, on oracle arrays.

Written from the documentation (paper notation); it never calls the code under test. A
number is a symbolic term or a float, depending on the context.
"""

from __future__ import annotations

import numpy as np
import torch
from torch import nn

from checks.common import F32, cls_of, dense, project, avg_trace

STATE = ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs")


# ----------------------------------------------------------------------------
# statistics
# ----------------------------------------------------------------------------


def _mean(ctx, xs):
    xs = list(xs)
    return ctx.total(xs) * ctx.frac(1, len(xs))


def linear_rows(ctx, x, bias, approx):
    """Rows of the input matrix (unscaled) of a fully-connected layer."""
    b, d = x.shape[0], x.shape[-1]
    x = x.reshape(b, -1, d)
    s = x.shape[1]
    rows = []
    for n in range(b):
        if approx == "expand":
            rows += [list(x[n, k]) for k in range(s)]
        else:
            rows.append([_mean(ctx, x[n, :, i]) for i in range(d)])
    one = ctx.frac(1)
    return [r + [one] for r in rows] if bias else rows


def pad_index(i, n, mode):
    """Index of the source pixel, or None for a zero."""
    if 0 <= i < n:
        return i
    if mode == "zeros":
        return None
    if mode == "circular":
        return i % n
    if mode == "replicate":
        return min(max(i, 0), n - 1)
    if mode == "reflect":
        return -i if i < 0 else 2 * (n - 1) - i
    raise KeyError(mode)


def conv_geometry(layer):
    """((left, right) paddings per dimension), from the convolution's documentation."""
    pads = []
    for d in range(2):
        if layer.padding == "valid":
            pads.append((0, 0))
        elif layer.padding == "same":
            tot = layer.dilation[d] * (layer.kernel_size[d] - 1)
            pads.append((tot // 2, tot - tot // 2))
        else:
            pads.append((layer.padding[d], layer.padding[d]))
    return pads


def conv_rows(ctx, x, layer, approx, bias=None):
    """Rows of the patch matrix (unscaled) of a 2d convolution."""
    b, c_in, i1, i2 = x.shape
    groups = layer.groups
    k1, k2 = layer.kernel_size
    s, dil = layer.stride, layer.dilation
    pads = conv_geometry(layer)
    size = (i1, i2)
    out = [
        (size[d] + sum(pads[d]) - dil[d] * (layer.kernel_size[d] - 1) - 1) // s[d] + 1
        for d in range(2)
    ]
    zero, one = ctx.frac(0), ctx.frac(1)
    cg = c_in // groups

    def pixel(n, c, p, q):
        p = pad_index(p - pads[0][0], i1, layer.padding_mode)
        q = pad_index(q - pads[1][0], i2, layer.padding_mode)
        return zero if p is None or q is None else x[n, c, p, q]

    rows = []
    for n in range(b):
        mine = []
        for o1 in range(out[0]):
            for o2 in range(out[1]):
                row = []
                for c in range(cg):
                    for a in range(k1):
                        for e in range(k2):
                            p, q = o1 * s[0] + a * dil[0], o2 * s[1] + e * dil[1]
                            row.append(
                                _mean(
                                    ctx,
                                    [pixel(n, g * cg + c, p, q) for g in range(groups)],
                                )
                            )
                mine.append(row)
        if approx == "reduce":
            mine = [[_mean(ctx, col) for col in zip(*mine)]]
        rows += mine
    has_bias = layer.bias is not None if bias is None else bias
    return [r + [one] for r in rows] if has_bias else rows


def grad_rows(ctx, g, kind, loss_average, approx):
    """(rows, number of averaged loss terms) of the output gradients."""
    b = g.shape[0]
    if kind == "conv":
        d = g.shape[1]
        g = np.moveaxis(g, 1, -1)
    d = g.shape[-1]
    g = g.reshape(b, -1, d)
    s = g.shape[1]
    n = {None: 1, "batch": b, "batch+sequence": b * s}[loss_average]
    rows = []
    for i in range(b):
        if approx == "expand":
            rows += [list(g[i, k]) for k in range(s)]
        else:
            rows.append([ctx.total(g[i, :, j]) for j in range(d)])
    return rows, n


def second_moment(ctx, rows, factor):
    """factor * sum of outer products of the rows."""
    R = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            R[i, j] = v
    return ctx.mm(R.T, R) * factor


def sandwich(ctx, name, K, S):
    """Projection of Kᵀ S K."""
    return project(ctx, name, ctx.mm(K.T, S, K))


def kind_of(layer):
    return "conv" if isinstance(layer, nn.Conv2d) else "linear"


def input_moment(ctx, layer, x, approx):
    f = conv_rows(ctx, x, layer, approx) if kind_of(layer) == "conv" else linear_rows(
        ctx, x, layer.bias is not None, approx
    )
    return second_moment(ctx, f, ctx.frac(1, len(f)))


def grad_moment(ctx, layer, g, loss_average, approx):
    rows, n = grad_rows(ctx, g, kind_of(layer), loss_average, approx)
    return second_moment(ctx, rows, ctx.frac(n))


# ----------------------------------------------------------------------------
# update laws
# ----------------------------------------------------------------------------


def precond_update(ctx, st, K, C, mK, mC, HK, HC, *, lr_cov, damping, alpha1,
                   kfac_like=False, normalize=False):
    """One preconditioner update; HC belongs to unscaled gradients.

    Returns K, C, mK, mC; the old momenta are zero if Riemannian momentum is off.
    """
    one, half = ctx.frac(1), ctx.frac(1, 2)
    num = lambda v: ctx.num(v)  # noqa: E731
    a1 = num(alpha1)
    scale = half * (one - a1) if normalize else half
    lam = num(damping)
    KK, CC = (sandwich(ctx, s, M, ctx.eye(M.shape[0])) for s, M in zip(st, (K, C)))

    def law(H, other_H, PP, other_PP, old):
        wH = one if kfac_like else avg_trace(ctx, other_H)
        wP = one if kfac_like else avg_trace(ctx, other_PP)
        new = (H * wH + PP * (lam * wP) - ctx.eye(H.shape[0])) * scale
        return new if old is None else new + old * a1

    nK, nC = law(HK, HC, KK, CC, mK), law(HC, HK, CC, KK, mC)
    bK = bC = num(lr_cov)
    if normalize:
        bK = bK * ctx.inv(ctx.max([one] + [ctx.abs(v) for v in nK.reshape(-1)]))
        bC = bC * ctx.inv(ctx.max([one] + [ctx.abs(v) for v in nC.reshape(-1)]))
    return K - ctx.mm(K, nK) * bK, C - ctx.mm(C, nC) * bC, nK, nC


def natural_gradient(ctx, K, C, G):
    return ctx.mm(ctx.mm(C, C.T), G, ctx.mm(K, K.T))


def grad_matrix(ctx, gw, gb):
    """Concatenated gradient of a layer."""
    G = gw.reshape(gw.shape[0], -1)
    return G if gb is None else np.concatenate([G, gb.reshape(-1, 1)], axis=1)


def split_matrix(N, shape, bias):
    if bias:
        return N[:, :-1].reshape(shape), N[:, -1]
    return N.reshape(shape), None


def param_update(ctx, p, nat, buf, *, lr, momentum, weight_decay):
    """(new parameter, new momentum buffer or None)."""
    step = nat + p * ctx.num(weight_decay)
    if buf is not None:
        step = buf * ctx.num(momentum) + step
    return p - step * ctx.num(lr), (step if buf is not None else None)


# ----------------------------------------------------------------------------
# access to the real optimizer
# ----------------------------------------------------------------------------


def snapshot(ctx, opt, skip=()):
    """All state and parameter values as arrays."""
    out = {}
    for d in STATE:
        if d in skip:
            continue
        for name, mat in getattr(opt, d).items():
            out[f"{d}[{name}]"] = dense(ctx, mat)
    for gi, grp in enumerate(opt.param_groups):
        for pi, p in enumerate(grp["params"]):
            out[f"p{gi}.{pi}"] = ctx.read(p)
            buf = opt.state[p].get("momentum_buffer") if p in opt.state else None
            if buf is not None:
                out[f"buf{gi}.{pi}"] = ctx.read(buf)
    return out


def same_snapshot(ctx, label, a, b):
    ctx.check(f"{label} same entries", a.keys() == b.keys(),
              f"{sorted(a.keys() ^ b.keys())}")
    for k in a.keys() & b.keys():
        ctx.eq(f"{label} {k}", a[k], b[k])


def snap_eq(ctx, label, a, b, keys=None):
    same_snapshot(ctx, label, a, b)


def fill_state(ctx, mats, label, density=None):
    """Replace a structured matrix by unknowns, in place; its dense value."""
    from checks.common import fill

    fill(ctx, mats, label, density, keep=density is not None)
    return dense(ctx, mats)


def new_linear(ctx, d_in, d_out, bias, label, dtype=F32, count=None):
    layer = nn.Linear(d_in, d_out, bias=bias, dtype=dtype)
    fill_params(ctx, layer, label, count)
    return layer


def fill_params(ctx, module, label, count=None, recurse=True):
    for n, p in module.named_parameters(recurse=recurse):
        base = np.empty(tuple(p.shape), dtype=object)
        for k, idx in enumerate(np.ndindex(*p.shape)):
            base[idx] = ctx.frac((k * 5) % 7 - 3, 8)
        with torch.no_grad():
            ctx.write(p.data, base)
            if count == 0 or p.numel() == 0:
                continue
            from checks.common import spread_mask

            mask = None
            if count is not None and p.numel() > count:
                mask = spread_mask(tuple(p.shape), count, f"{label}{n}")
            ctx.fill(p.data, f"{label}.{n}", mask)


def reset_state(ctx, opt):
    """Write small fixed values into factors and momenta (keeps warm-up steps cheap)."""
    with torch.no_grad():
        for d in (opt.Ks, opt.Cs, opt.m_Ks, opt.m_Cs):
            for mat in d.values():
                for k, (_, t) in enumerate(mat.named_tensors()):
                    base = np.empty(tuple(t.shape), dtype=object)
                    for n, idx in enumerate(np.ndindex(*t.shape)):
                        base[idx] = ctx.frac((n * 3 + k) % 5 + 1, 4)
                    ctx.write(t, base)


def zero_grads(*modules):
    for m in modules:
        for p in m.parameters():
            if p.grad is not None:
                p.grad.zero_()
