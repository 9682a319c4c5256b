"""Compares the symbolic interpretation of PyTorch operators with the native one.

Every operator below runs natively on numbers, and symbolically on tensors some of whose
entries are symbols. The resulting terms, evaluated at the same numbers, must give the
native result. Run it with `/opt/venv/bin/python tools/selftest.py`.
"""

import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402
import torch  # noqa: E402
import torch.nn.functional as F  # noqa: E402
from torch import nn  # noqa: E402

from symtorch import engine as E  # noqa: E402
from symtorch import poly as P  # noqa: E402

warnings.simplefilter("ignore")
L = torch.linalg
OPS = {}


def op(f=None, **tensors):
    def deco(g):
        OPS[g.__name__ if g.__name__ != "<lambda>" else len(OPS)] = (g, tensors)
        return g

    return deco(f) if f else deco


def add(text, **tensors):
    """`text`: expression over tensors a, b, ... of the given shapes."""
    code = compile(text, text, "eval")

    def g(**kw):
        return eval(code, globals(), kw)

    OPS[text] = (g, tensors)


M22 = dict(a=(2, 2))
M23, M34 = dict(a=(2, 3)), dict(a=(2, 3), b=(3, 4))
EW = dict(a=(2, 3), b=(2, 3))
V = dict(a=(4,), b=(4,))
B3 = dict(a=(2, 2, 3), b=(2, 3, 2))
for e in """a + b;a - b;a * b;a / b;torch.rsub(b, a);a.add(b, alpha=2);a.sub(b, alpha=0.5);torch.mul(a, b)
torch.maximum(a, b);torch.minimum(a, b);torch.lerp(a, b, 0.25);a.lerp(b, torch.tensor(0.5))
torch.addcmul(a, b, b, value=0.5);torch.addcdiv(a, b, b.abs() + 1, value=2.0);a.where(b > 0, b)
torch.where(a > b, a, b);(a > b).to(a.dtype);(a == b).any();(a >= b).all();(a != b).sum()
torch.stack([a, b]);torch.stack([a, b]).max();torch.stack([a, b]).sum(0);torch.cat([a, b], 1)
torch.hstack([a, b]);torch.vstack([a, b]);torch.dstack([a, b]);torch.concat([a, b]);torch.column_stack([a, b])
a.mul(b).sum();(a * b).sum(dim=-1, keepdim=True);torch.einsum('ij,ij->', a, b);torch.einsum('ij,ij->i', a, b)
torch.einsum('ij,kj->ik', a, b);torch.tensordot(a, b, dims=2);torch.tensordot(a, b, dims=([1], [1]));torch.inner(a, b)
a @ b.T;a @ b.mT;a.T @ b;torch.mm(a, b.t());torch.matmul(a, b.transpose(-1, -2));F.linear(a, b)
F.linear(a, b, torch.ones(2));torch.kron(a, b);torch.outer(a[0], b[0]);torch.ger(a[0], b[1]);torch.dot(a[0], b[0])
torch.vdot(a[0], b[0]);a.mv(b[0]);torch.addmv(a[:, 0], a, b[0]);torch.addr(a, a[:, 0], b[0]);torch.cross(a, b, dim=1)
torch.cdist(a, b).pow(2);torch.dist(a, b);F.mse_loss(a, b);F.mse_loss(a, b, reduction='sum');F.l1_loss(a, b)
torch._foreach_add([a, b], [b, a]);torch._foreach_mul([a, b], 2.0);torch._foreach_mul([a], [b]);torch._foreach_div([a, b], 2.0)
torch._foreach_norm([a, b]);torch._foreach_sqrt([a.abs(), b.abs()]);torch._foreach_lerp([a], [b], 0.5);torch._foreach_neg([a])
torch.block_diag(a, b);torch.cartesian_prod(a[0], b[0]);torch.broadcast_to(a[0], (2, 3)) * b;torch.add(a, b, alpha=-1)
a.clone().add_(b);a.clone().copy_(b);a.clone().mul_(b);a.clone().addcmul_(b, b);a.clone().lerp_(b, 0.5);a.clone().sub_(b, alpha=2)
a.expand(2, 2, 3) * b;torch.logical_and(a > 0, b > 0);torch.allclose(a, a);torch.equal(a, b);torch.hypot(a, b);torch.true_divide(a, b)
sum([a, b]);torch.sum(torch.stack((a, b)), dim=(0, 1));torch.mean(torch.stack((a, b)), dim=0);a.ne(b);a.eq(a).all();torch.rsub(a, b)
a.masked_fill(b > 0, 0.0);a.clone().masked_fill_(b > 0, 1.5);a[b > 0].sum();a.clone().clamp_(min=b);torch.clamp(a, b - 1, b + 1)
torch.nn.functional.cosine_similarity(a, b);F.normalize(a, dim=1);torch.sub(1.0, a) if False else 1.0 - a;a.div(b);2 / b""".replace("\n", ";").split(";"):
    add(e, **EW)
for e in """a ** 2;a ** 3;a.pow(2);torch.pow(a, 2.0);a.square();a.abs().sqrt();a.abs().pow(0.5);(a * a + 1).rsqrt();a.reciprocal();a ** -1;a ** -2
-a;a.neg();+a;a.abs();a.sign();torch.sgn(a);a.relu();F.relu(a);F.leaky_relu(a, 0.1);F.hardtanh(a);F.relu6(a);a.clamp(min=0);a.clamp(-1, 1);a.clip(max=0.5);a.clamp_min(0.1);a.clamp_max(0.1)
a.sum();a.sum(0);a.sum(1);a.sum((0, 1));a.sum(-1, keepdim=True);a.mean();a.mean(0);a.mean((0, 1), keepdim=True);a.prod();a.prod(1);a.std();a.var(0);a.var(unbiased=False)
a.max();a.min();a.amax(1);a.amin(0);a.amax();a.max(1).values;a.max(dim=0)[0];a.min(0).values;a.aminmax();a.abs().max();max(a.flatten());max(t.max() for t in a);sorted(a.flatten().tolist())
a.cumsum(0);a.cumsum(1);a.cumprod(1);a.diff();a.trace() if a.shape[0] == a.shape[1] else a.sum();a.T;a.t();a.mT;a.transpose(0, 1);a.permute(1, 0);a.flatten();a.reshape(-1);a.view(3, 2);a.ravel()
a.unsqueeze(0);a[:, None];a[None];a[..., 0];a[1];a[1, 2];a[:, 1:];a[::1];a[:, [0, 2]];a[torch.tensor([1, 0])];a.flip(0);a.flip(0, 1);a.fliplr();a.flipud();a.roll(1, 0);a.rot90();a.repeat(2, 1);a.tile(2);a.repeat_interleave(2, 0)
a.split(1);a.split([1, 2], dim=1)[1];a.chunk(3, 1);a.unbind(0)[1];torch.unbind(a, 1);a.narrow(1, 1, 2);a.select(0, 1);a.index_select(1, torch.tensor([2, 0]));a.gather(1, torch.tensor([[0, 1, 2], [2, 1, 0]]));a.take(torch.tensor([0, 5]));torch.take_along_dim(a, torch.tensor([[0], [1]]), 1)
a.tril();a.triu();a.tril(-1);a.triu(1);a.diag();a.diagonal();torch.diag(a[0]);torch.diag_embed(a);torch.diagflat(a);a.diagonal(1);a.diag(1)
a.clone().fill_diagonal_(0.0);a.clone().diagonal().add_(1.0);a.clone().zero_();a.clone().fill_(2.0);a.clone().mul_(2.0);a.clone().div_(3);a.clone().add_(1.0);a.clone().sub_(1.0);a.clone().pow_(2);a.clone().neg_();a.clone().abs_();a.clone().sqrt_() if False else a.clone().square_()
F.pad(a, (1, 0));F.pad(a, (0, 1), value=1.0);F.pad(a, (1, 1, 1, 1));F.pad(a[None], (1, 1), mode='reflect');F.pad(a[None], (1, 1), mode='replicate');F.pad(a[None], (1, 1), mode='circular');torch.cat([a, a.new_ones(2, 1)], dim=1);torch.cat([a, torch.ones_like(a)])
torch.norm(a);a.norm();a.norm(p=1);a.norm(dim=0);a.norm(p=float('inf'));L.norm(a);L.vector_norm(a);L.vector_norm(a, 1);L.vector_norm(a, float('inf'));L.vector_norm(a, dim=1);L.matrix_norm(a);L.matrix_norm(a, 'fro');L.matrix_norm(a, 1);L.matrix_norm(a, float('inf'));torch.norm(a, 'fro');torch.linalg.multi_dot([a, a.T, a]);L.vecdot(a, a);L.diagonal(a)
a.unfold(0, 2, 1);a.unfold(1, 2, 1);a.as_strided((2, 2), (1, 1));a.new_zeros(2);a.new_full((2,), 3.0);torch.zeros_like(a) + a;torch.full_like(a, 2.0) * a;torch.empty_like(a).copy_(a);a.detach() * 2;a.data + 1;a.contiguous();a.numel() * a;a.expand(2, 2, 3);a.expand_as(torch.zeros(1, 2, 3));a.squeeze();a.double() * 2;a.float();a.to(torch.float64);a.type_as(a);a.half().float() if False else a
torch.scatter(torch.zeros(2, 3), 1, torch.tensor([[0, 1, 2], [2, 1, 0]]), a);torch.zeros(2, 3).scatter_add(1, torch.tensor([[0, 0, 2], [2, 1, 1]]), a);torch.zeros(3, 3).index_add(0, torch.tensor([0, 0]), a);torch.zeros(5).index_add_(0, torch.tensor([0, 1, 1, 0, 2, 4]), a.flatten());torch.zeros(5).index_add(0, torch.tensor([0, 1, 1]), a[0], alpha=2.0);torch.zeros(2, 2).index_add(1, torch.tensor([1, 1, 0]), a);torch.zeros(5).scatter_add_(0, torch.tensor([0, 1, 1, 0, 2, 4]), a.flatten());torch.zeros(5).scatter_reduce(0, torch.tensor([0, 1, 1, 0, 2, 4]), a.flatten(), 'sum')
torch.zeros(4, 3).index_copy(0, torch.tensor([3, 1]), a);torch.bincount(torch.tensor([0, 1, 1, 2, 2, 2]), weights=a.flatten().double());torch.zeros(3).index_put((torch.tensor([0, 0, 1]),), a[0], accumulate=True);torch.index_put(a, (torch.tensor([0]), torch.tensor([1])), torch.ones(1));a.index_fill(0, torch.tensor([1]), 2.0);torch.zeros(3).put_(torch.tensor([1, 2, 2]), a[0], accumulate=True)
torch.vander(a[0], N=3);torch.triu_indices(2, 2).float() + a[0, 0];torch.eye(2) @ a;torch.ones(3, 2) @ a;a.mul(torch.arange(3));a * torch.tensor([1, 0, 1], dtype=torch.bool);a.sum().item() * 2;float(a.sum());a[0, 0].item() > 0;math.sqrt(abs(a[0, 0].item()));torch.tensor([x for x in a[0].tolist()]);torch.as_tensor(a) * 1;torch.tensor(a[0, 0].item())
a.moveaxis(0, 1);a.movedim(1, 0);a.swapaxes(0, 1);a.unflatten(1, (3, 1));a.view_as(torch.zeros(3, 2));a.reshape(1, 2, 3).squeeze(0);torch.atleast_3d(a);torch.meshgrid(a[0], a[1], indexing='ij');torch.tril(a) + torch.triu(a, 1);torch.combinations(a[0]);torch.trapezoid(a, dim=1);torch.nan_to_num(a);torch.isfinite(a).all();torch.isnan(a).any();torch.isinf(a).any();a.isfinite().all().item();torch.count_nonzero(a);a.bool().sum();(a != 0).any().item();bool((a > 0).all());torch.any(a);torch.all(a);torch.logical_not(a);a.nonzero().numel()
rearrange(a, 'i j -> j i');rearrange(a, 'i j -> (i j)');reduce(a, 'i j -> i', 'sum');reduce(a, 'i j -> j', 'mean');reduce(a, 'i j -> i', 'max');repeat(a, 'i j -> i j k', k=2);eeinsum(a, a, 'i j, k j -> i k');pack([a, a], '* j')[0];a.round(decimals=0) * 0;a.sum().sqrt() if False else a.square().sum().sqrt();torch.sqrt(a.square().sum() / 6);a / a.norm();a / a.abs().max().clamp(min=1.0);torch.softmax(a * 0, 1);torch.empty(0).sum() + a;torch.as_strided(a, (3,), (1,));torch.special.xlogy(a * 0, torch.ones(1));F.dropout(a, 0.5, training=False);nn.Identity()(a);nn.Flatten()(a);F.threshold(a, 0.1, 0.0);F.softshrink(a, 0.1);F.hardshrink(a, 0.1);nn.ReLU()(a);nn.ReLU(inplace=True)(a.clone());F.elu(a.abs());F.prelu(a, torch.tensor([0.5]));F.hardsigmoid(a);F.hardswish(a);F.threshold(a, 0.0, 0.0)
torch.mul(a, a, out=torch.empty(2, 3));torch.add(a, 1, out=torch.empty(2, 3));torch.matmul(a, a.T, out=torch.empty(2, 2));torch.sum(a, 0, out=torch.empty(3));torch.cat([a, a], out=torch.empty(4, 3));a.addmm_(a, torch.eye(3)) if False else torch.addmm(a, a, torch.eye(3), beta=0.5, alpha=2);a.lerp(torch.zeros_like(a), 0.25);torch.baddbmm(a[None], a[None], torch.eye(3)[None]);torch.chain_matmul(a, a.T);a.unsqueeze(-1).matmul(a.unsqueeze(-2));torch.bmm(a[None], a.T[None])[0];a.mul(0.5).add(a, alpha=0.5);a.sum_to_size(1, 3);torch.bucketize(torch.zeros(1), torch.ones(1)) + a;a.new_tensor([1.0]) * a;a.masked_select(torch.ones(2, 3, dtype=torch.bool));torch.where(torch.ones(2, 3, dtype=torch.bool), a, 0.0);torch.where(torch.tensor([True, False, True]), a, torch.zeros(()));a.heaviside(torch.zeros(1));a.fmax(torch.zeros(1));a.fmin(torch.zeros(1));torch.maximum(a, torch.tensor(1.0));a.frac() * 0;torch.square(a).sum().sqrt_();a.logsumexp(1) * 0""".replace("\n", ";").split(";"):
    add(e, **M23)
for e in """a @ b;torch.mm(a, b);torch.einsum('ij,jk->ik', a, b);torch.addmm(torch.ones(2, 4), a, b, beta=2.0, alpha=0.5);torch.matmul(a, b[:, 0]);eeinsum(a, b, 'i j, j k -> k i');a.matmul(b);(b.T @ a.T).T;torch.einsum('ij,jk->i', a, b);torch.einsum('ij,jk', a, b)""".split(";"):
    add(e, **M34)
for e in """torch.bmm(a, b);a @ b;torch.einsum('nij,njk->nik', a, b);torch.baddbmm(torch.ones(2, 2, 2), a, b);a.matmul(b[0]);torch.matmul(a[0], b);torch.einsum('nij,njk->ik', a, b);torch.addbmm(torch.ones(2, 2), a, b);a.transpose(1, 2) @ b.transpose(1, 2);torch.einsum('nij,nji->', a, b);torch.einsum('nij->ji', a);a.sum((0, 2));a.flatten(0, 1);a.flatten(1) @ b.flatten(1).T;torch.einsum('n...,n...->n...', a, a);a.mean(0);a.amax((0, 1));torch.block_diag(*a);torch.einsum('nij,nij->i', a, a);rearrange(a, 'n i j -> (n i) j');reduce(a, 'n i j -> n j', 'sum');torch.vmap(torch.mm)(a, b) if False else a;a.diagonal(dim1=0, dim2=1);a.diagonal(dim1=1, dim2=2).sum(-1);torch.einsum('nii->n', a @ b);torch.einsum('nii->', a @ b);(a @ b).diagonal(dim1=1, dim2=2).sum()""".split(";"):
    add(e, **B3)
for e in """torch.dot(a, b);a.dot(b);torch.outer(a, b);torch.einsum('i,j->ij', a, b);a.unsqueeze(1) * b;a[:, None] @ b[None];a.diag() @ b;torch.conv1d(a[None, None], b[None, None, :2]);F.conv1d(a[None, None], b[None, None, :3], padding=2);F.conv1d(torch.stack([a, b]), a[None, None].expand(2, -1, -1), padding=3, groups=2);a.cumsum(0);a.flip(0);torch.cat([a, b]);torch.toeplitz(a) if False else a;torch.linalg.vecdot(a, b);a @ b;torch.inner(a, b);torch.vdot(a, b);torch.stack([a, b], 1);torch.where(a > 0, a, b);a.sub(b).abs().max();torch.einsum('i,i', a, b);a.unfold(0, 2, 1) @ b[:2];torch.diff(a);a.repeat(2);torch.tril(a.expand(4, 4));a[torch.tensor([[0, 1], [2, 3]])];a.scatter(0, torch.tensor([1]), 2.0);torch.diag_embed(a, 1);a.reshape(2, 2).inverse() if False else a;torch.logspace(0, 1, 4) * a;torch.linspace(0, 1, 4) * a;torch.full((4,), 2.0) + a;torch.arange(4, 0, step=-1).sqrt() * a;torch.arange(4, 0, step=-1, dtype=a.dtype).sqrt() * a""".split(";"):
    add(e, **V)
CONV = dict(a=(2, 2, 3, 3), b=(2, 2, 2, 2))
for e in """F.conv2d(a, b);F.conv2d(a, b, torch.ones(2), stride=2, padding=1);F.conv2d(a, b[:, :1], groups=2);F.conv2d(a, b, dilation=2);F.conv2d(a, b, padding='same');F.unfold(a, 2);F.unfold(a, 2, padding=1, stride=2);F.unfold(a, (2, 1), dilation=(1, 2));F.fold(F.unfold(a, 2), (3, 3), 2);F.avg_pool2d(a, 2);F.adaptive_avg_pool2d(a, 1);F.pad(a, (1, 1, 1, 1), mode='reflect');F.pad(a, (1, 1, 1, 1), mode='circular');F.pad(a, (1, 0, 2, 1), mode='replicate');a.mean((2, 3));rearrange(a, 'b c h w -> (b h w) c');reduce(a, 'b c h w -> b c', 'sum');reduce(a, 'b (g c) h w -> b c h w', 'mean', g=2);a.permute(0, 2, 3, 1).reshape(-1, 2);a.unfold(2, 2, 1).unfold(3, 2, 1);a.flatten(1);a.flatten(2).sum(2);a.unflatten(1, (2, 1)).mean(1);F.max_pool2d(a, 2);F.interpolate(a, scale_factor=2);eeinsum(a, b[0, 0], 'b c i j, k i2 -> b c') if False else a;a.movedim(1, -1);a.view(2, -1);torch.einsum('bchw->bc', a);F.conv_transpose2d(a, b);nn.functional.instance_norm(a) if False else a;a.amax((2, 3))""".split(";"):
    add(e, **CONV)
for e in """torch.trace(a);a.trace();a.inverse();L.inv(a);L.det(a);a.det();torch.linalg.solve(a, a);a.logdet() if False else a;a @ a @ a;torch.matrix_power(a, 2);torch.matrix_power(a, 3);a.tril().tril();a.diagonal().sum();a.diag().mean();torch.triu(a, 1) + torch.tril(a);a.T.contiguous().view(-1);a[range(2), range(2)];a[torch.arange(2), torch.arange(2)];a.clone().index_put_((torch.arange(2), torch.arange(2)), torch.ones(2), accumulate=True);a + torch.eye(2);a.fill_diagonal_(1.0) if False else a;torch.linalg.cross(torch.cat([a, a[:, :1]], 1), torch.cat([a, a[:, :1]], 1).flip(0));a.roll((1, 1), (0, 1));torch.tensordot(a, a, 1);L.matrix_norm(a);torch.cov(a);torch.corrcoef(a) if False else a;torch.linalg.cholesky(a @ a.T + torch.eye(2));a.adjoint();a.mH;a.H""".split(";"):
    add(e, **M22)


def _grads(f, *ts):
    ts = [t.detach().clone().requires_grad_(True) for t in ts]
    out = f(*ts)
    w = torch.arange(1.0, out.numel() + 1).reshape(out.shape).to(out.dtype)
    (out * w).sum().backward()
    return [t.grad for t in ts]


for e in """_grads(F.linear, a, b);_grads(torch.matmul, a, b.T);_grads(lambda x, y: x * y, a, b);_grads(lambda x: x.relu(), a);_grads(lambda x: F.leaky_relu(x, 0.1), a);_grads(lambda x: (x ** 2).mean(), a);_grads(F.mse_loss, a, b);_grads(lambda x: x.abs(), a);_grads(lambda x: x.clamp(min=0.0), a);_grads(lambda x, y: torch.cat([x, y]).sum(0), a, b);_grads(lambda x: x.transpose(0, 1).flatten(), a);_grads(lambda x: F.relu6(x), a);_grads(lambda x: F.hardtanh(x), a);_grads(lambda x: x[:, 1:], a);_grads(lambda x: x.mean(0), a);_grads(lambda x: x.pow(3), a);_grads(lambda x: F.threshold(x, 0.1, 0.0), a);_grads(lambda x, y: x / y, a, b);_grads(lambda x: x.square().sum().sqrt(), a);_grads(lambda x: x.norm(), a);_grads(lambda x: x.max(), a);_grads(lambda x: x.amax(1), a);_grads(lambda x: x.sum(1, keepdim=True).expand(2, 3), a);_grads(lambda x: F.dropout(x, 0.5, False), a);_grads(lambda x: x.var(), a);_grads(lambda x: F.layer_norm(x, (3,)), a);_grads(lambda x: x.prod(), a);_grads(lambda x: x.cumsum(1), a)""".split(";"):
    add(e, **EW)
for e in """_grads(F.conv2d, a, b);_grads(lambda x, w: F.conv2d(x, w, stride=2, padding=1), a, b);_grads(lambda x, w: F.conv2d(x, w[:, :1], groups=2), a, b);_grads(lambda x: F.avg_pool2d(x, 2), a);_grads(lambda x: F.unfold(x, 2), a);_grads(lambda x: F.adaptive_avg_pool2d(x, 1), a);_grads(lambda x: F.max_pool2d(x, 2), a);_grads(lambda x: F.pad(x, (1, 1, 1, 1), mode='circular'), a);_grads(lambda x: F.pad(x, (1, 1, 1, 1), mode='reflect'), a);_grads(lambda x: x.mean((2, 3)), a)""".split(";"):
    add(e, **CONV)
import math  # noqa: E402,F401

from einops import einsum as eeinsum  # noqa: E402,F401
from einops import pack, rearrange, reduce, repeat  # noqa: E402,F401


def flat(x, conv):
    if isinstance(x, torch.Tensor):
        return [np.asarray(v, dtype=float) for v in [conv(x)]]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y, conv)]
    if isinstance(x, bool) or x is None:
        return [np.asarray(float(bool(x)))]
    if hasattr(x, "_sym_poly") or E.is_sym_scalar(x):
        return [np.asarray(conv(x), dtype=float)]
    return [np.asarray(conv(x) if isinstance(x, float) and E.is_sym_scalar(x) else float(x))]


def run(text, dt, everything, seed):
    f, shapes = OPS[text]
    g = np.random.default_rng(seed)
    nums = {k: g.integers(-8, 9, size=s) / 4.0 + 0.03125 * (1 + i)
            for i, (k, s) in enumerate(shapes.items())}
    want = flat(f(**{k: torch.tensor(v, dtype=dt) for k, v in nums.items()}),
                lambda t: t.detach().double().numpy())
    P.reset()
    E.reset_tables()
    E.install_math_patches()
    env, ts = {}, {}
    for k, v in nums.items():
        a = np.empty(v.shape, dtype=object)
        for n, idx in enumerate(np.ndindex(*v.shape)):
            if everything or n % 2 == 0:
                nm = f"{k}{n}"
                a[idx] = P.Poly.of_var(P.R.new(nm))
                env[nm] = float(v[idx])
            else:
                a[idx] = P.lift(float(v[idx]))
        ts[k] = torch.zeros(v.shape, dtype=dt)
        E.write(ts[k], a)

    def value(p):
        return P.evaluate(p, env, {})

    def decider(rel, p):
        c = value(p)
        return {"<": c < 0, "<=": c <= 0, "==": c == 0}[rel]

    E.set_decider(decider)
    with E.symbolic():
        out = f(**ts)

    def conv(t):
        if hasattr(t, "_sym_poly"):
            return value(t._sym_poly)
        if isinstance(t, float):
            return value(E.scalar_poly(t)[0])
        if t.dtype not in E.FLOATS:
            return t.double().numpy()
        arr = E.read(t)
        r = np.empty(arr.shape)
        for i in np.ndindex(*arr.shape):
            r[i] = value(arr[i])
        return r

    got = flat(out, conv)
    assert len(got) == len(want), "structure"
    for x, y in zip(got, want):
        assert x.shape == y.shape, f"shape {x.shape} {y.shape}"
        if not np.allclose(x, y, rtol=1e-4, atol=1e-4):
            raise AssertionError(f"got {x.reshape(-1)[:6]}, expected {y.reshape(-1)[:6]}")


def main():
    only = sys.argv[1:]
    bad = un = n = 0
    for text in OPS:
        if only and not any(o in str(text) for o in only):
            continue
        n += 1
        for dt, every, seed in ((torch.float32, True, 0), (torch.float32, False, 1),
                                (torch.float64, True, 2)):
            if dt == torch.float64 and any(
                w in text for w in (".double", "torch.ones(", "torch.zeros(", "torch.eye(",
                                    "torch.tensor(", "out=")):
                continue
            try:
                run(text, dt, every, seed)
            except (P.NotSupported, NotImplementedError) as e:
                un += 1
                print("unsupported:", text, "-", str(e)[:100])
                break
            except AssertionError as e:
                bad += 1
                print("WRONG:", text, dt, "-", e)
                break
            except Exception as e:
                bad += 1
                print("CRASH:", text, dt, "-", type(e).__name__, str(e)[:150])
                if only:
                    raise
                break
    print(f"{n} operators, {bad} wrong or crashed, {un} unsupported")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
