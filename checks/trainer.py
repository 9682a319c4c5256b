"""Drives the real optimizer step by step next to the reference model."""

from __future__ import annotations

import warnings

from checks.common import *  # noqa: F403
from checks.model import *  # noqa: F403

DEFAULTS = dict(
    lr=0.5, momentum=0.5, damping=0.25, alpha1=0.5, weight_decay=0.0, T=1,
    loss_average="batch", lr_cov=0.25, structures=("dense", "dense"),
    kfac_approx="expand", kfac_like=False, normalize_lr_cov=False,
)


class Lay:
    """Reference state of one layer."""


class Trainer:
    """`layers` maps module names to (module, hyper-parameters of its group)."""

    def __init__(self, ctx, opt, layers, n=1, label="", init_scale=1.0, grads=True,
                 base=0, tol=None, warned=None):
        self.warned = warned
        self.ctx, self.opt, self.n, self.label = ctx, opt, n, label
        self.t, self.k = base, 0  # step counter, number of observed steps
        if not (type(base) is int and base == 0):  # any number of steps went before
            self.t = start_at(opt, base, last=init_scale)
        self.tol = tol  # of concrete runs, for half-precision factors
        self.scaler = None  # a real gradient scaler, if the history uses one
        self.grads = grads  # whether gradients reach the parameters at update steps
        self.L = {}
        self.prev = init_scale
        for name, (mod, hy) in layers.items():
            l = Lay()
            l.name, l.mod = name, mod
            l.hy = dict(DEFAULTS)
            l.hy.update(hy)
            if l.hy["kfac_like"]:
                l.hy["alpha1"] = 0.0
            l.HK = l.HC = None
            l.params = list(mod.parameters())
            l.trained = [True] * len(l.params)
            l.mom = self.has_mom(l)
            l.buf = [ctx.zeros(*p.shape) for p in l.params]
            self.L[name] = l
        self.read()

    def has_mom(self, l):
        a = l.hy["alpha1"]
        return not (isinstance(a, (int, float)) and a == 0.0)

    def read(self):
        """Take the real state as the reference state."""
        ctx, o = self.ctx, self.opt
        for nm, l in self.L.items():
            l.K, l.C = dense(ctx, o.Ks[nm]), dense(ctx, o.Cs[nm])
            l.mK = dense(ctx, o.m_Ks[nm]) if nm in o.m_Ks else None
            l.mC = dense(ctx, o.m_Cs[nm]) if nm in o.m_Cs else None
            l.P = [ctx.read(p) for p in l.params]

    def cut(self, n=None, params=True, momenta=True):
        """Replace factors, momenta and parameters by (partly) unknown ones."""
        n = self.n if n is None else n
        o = self.opt
        reset_state(self.ctx, o)
        for nm, l in self.L.items():
            for d, lb in ((o.Ks, "K"), (o.Cs, "C"), (o.m_Ks, "mK"), (o.m_Cs, "mC")):
                if nm in d and n and (momenta or lb in "KC"):
                    fill(self.ctx, d[nm], f"{self.label}{lb}{nm}@{self.k}", n, keep=True)
            if params:
                fill_params(self.ctx, l.mod, f"{self.label}P{nm}@{self.k}", n)
        self.read()

    # -- one pass ------------------------------------------------------------
    def data(self, l, shape, tag, nx=1, ng=1, overflow=False):
        ctx = self.ctx
        key = f"{self.label}{l.name}@{self.k}{tag}"
        if kind_of(l.mod) == "conv":
            m = l.mod
            im = tuple(k + 1 for k in m.kernel_size)
            dt = m.weight.dtype
            x = some_tensor(ctx, f"x{key}", (shape[0], m.in_channels) + im, nx, dtype=dt)
            gs = (shape[0], m.out_channels) + tuple(m(torch.zeros_like(x)).shape[2:])
        else:
            dt = l.mod.weight.dtype
            x = some_tensor(ctx, f"x{key}", tuple(shape) + (l.mod.in_features,), nx, dtype=dt)
            gs = tuple(shape) + (l.mod.out_features,)
        g = some_tensor(ctx, f"g{key}", gs, ng, dtype=dt)
        return x, g

    def active(self, l):
        return self.t % l.hy["T"] == 0

    def backward(self, shapes=((2,),), scale=1.0, tag="", nx=1, ng=1, names=None,
                 overflow=False, weight=None, between=False):
        """Backward passes of all layers with data of the given batch shapes."""
        ctx = self.ctx
        for nm, l in self.L.items():
            if names is not None and nm not in names:
                continue
            for k, sh in enumerate(shapes):
                with torch.no_grad():
                    x, g = self.data(l, sh, f"{tag}.{k}", nx, ng)
                y = l.mod(x)
                if between:  # unrelated passes between the forward and its backward
                    self.evaluate(f"{tag}i{k}", (nm,))
                gg = g if weight is None else g * weight
                if self.scaler is not None:
                    if overflow:
                        gg = ctx.overflow(gg)
                    self.scaler.scale((y * gg).sum()).backward()
                    sg = None
                elif isinstance(scale, float) and scale == 1.0:
                    sg = gg
                else:
                    sg = gg * scale
                if sg is not None:
                    if overflow:
                        sg = ctx.overflow(sg)
                    y.backward(sg)
                if overflow or not self.active(l):
                    continue
                st = l.hy["structures"]
                HK = sandwich(ctx, st[0], l.K,
                              input_moment(ctx, l.mod, ctx.read(x), l.hy["kfac_approx"]))
                HC = sandwich(ctx, st[1], l.C,
                              grad_moment(ctx, l.mod, ctx.read(gg), l.hy["loss_average"],
                                          l.hy["kfac_approx"]))
                l.HK = HK if l.HK is None else l.HK + HK
                l.HC = HC if l.HC is None else l.HC + HC

    def evaluate(self, tag="e", names=None):
        """Passes that must leave no trace."""
        for nm, l in self.L.items():
            if names is not None and nm not in names:
                continue
            with torch.no_grad():
                x, _ = self.data(l, (2,), tag)
                l.mod(x)
            l.mod(x)  # its backward never runs

    def check_pending(self, label=""):
        """Statistics exist exactly for layers whose update is due."""
        ctx, o = self.ctx, self.opt
        for nm, l in self.L.items():
            want = l.HK is not None
            ctx.check(f"{label} statistics of {nm} at {self.k}",
                      (nm in o.H_Ks) == want and (nm in o.H_Cs) == want)
            if want and nm in o.H_Ks:
                ctx.eq(f"{label} H_K {nm} at {self.k}", o.H_Ks[nm].to_dense(), l.HK, self.tol)

    def zero_grads(self):
        zero_grads(*(l.mod for l in self.L.values()))

    def fresh_grads(self):
        for l in self.L.values():
            for p in l.params:
                p.grad = None

    # -- one step ------------------------------------------------------------
    def expect(self, scale):
        """Advance the reference by one regular step."""
        ctx = self.ctx
        s = ctx.num(scale)
        for l in self.L.values():
            hy = l.hy
            if all(p.grad is None for p in l.params):
                l.HK = l.HC = None  # like other optimizers: no gradient, no step
                continue
            if self.active(l) and l.HK is not None:
                b = hy["lr_cov"]
                b = b(self.t) if callable(b) else b
                l.K, l.C, mK, mC = precond_update(
                    ctx, hy["structures"], l.K, l.C, l.mK, l.mC, l.HK, l.HC, lr_cov=b,
                    damping=hy["damping"], alpha1=hy["alpha1"],
                    kfac_like=hy["kfac_like"], normalize=hy["normalize_lr_cov"],
                )
                if self.has_mom(l):
                    l.mK, l.mC, l.mom = mK, mC, True
            l.HK = l.HC = None
            g = [ctx.read(p.grad) if t else ctx.zeros(*p.shape)
                 for p, t in zip(l.params, l.trained)]
            if not (isinstance(scale, float) and scale == 1.0):
                g = [a * ctx.inv(s) for a in g]
            G = grad_matrix(ctx, g[0], g[1] if len(g) == 2 else None)
            if ctx.sym and all(v.is_const() and v.same(ctx.frac(0)) for v in G.reshape(-1)):
                nats = [ctx.zeros(*p.shape) for p in l.params]
            else:
                N = natural_gradient(ctx, l.K, l.C, G)
                nats = split_matrix(N, tuple(l.mod.weight.shape), len(g) == 2)
            for k, (p, nat) in enumerate(zip(l.P, nats)):
                if not l.trained[k]:
                    continue
                l.P[k], nb = param_update(
                    ctx, p, nat, l.buf[k], lr=hy["lr"], momentum=hy["momentum"],
                    weight_decay=hy["weight_decay"],
                )
                m = hy["momentum"]
                if not (isinstance(m, (int, float)) and m == 0.0):
                    l.buf[k] = nb

    def communicate(self, mode, scale, overflow=False):
        """Tell the optimizer about the gradient scale, as a gradient scaler does."""
        ctx, o = self.ctx, self.opt

        def num_tensor(v):
            t = torch.zeros(())
            with torch.no_grad():
                ctx.write(t, ctx.scal(v))
            return t

        if mode == "none" or self.scaler is not None:
            if mode == "unscale":  # the documented way to clip gradients
                o.set_current_grad_scale(self.scaler.get_scale())
                self.scaler.unscale_(o)
            return
        if mode in ("explicit", "unscale", "twice"):
            o.set_current_grad_scale(scale)
        if mode in ("scaler", "both"):
            o.grad_scale = num_tensor(scale)
        if mode == "unscale":
            with torch.no_grad():
                for l in self.L.values():
                    for p in l.params:
                        p.grad.div_(scale)
            o.grad_scale = None
        if mode not in ("explicit", "early", "twice") or overflow:
            o.found_inf = torch.full((), 1.0 if overflow else 0.0)

    def finish(self, mode):
        for a in ("grad_scale", "found_inf"):
            if hasattr(self.opt, a):
                delattr(self.opt, a)

    def run_step(self):
        if self.scaler is None:
            return self.opt.step()
        self.scaler.step(self.opt)
        self.scaler.update()

    def step(self, mode="none", scale=1.0, overflow=False, label=""):
        ctx, o = self.ctx, self.opt
        if overflow and self.scaler is not None:
            pass  # (the scaler finds the overflow in the gradients)
        elif self.grads == "inactive":
            zero_grads(*(l.mod for l in self.L.values() if self.active(l)))
        elif not self.grads:
            self.zero_grads()
        self.communicate(mode, scale, overflow)
        if overflow:
            for l in self.L.values():
                l.HK = l.HC = None
            # `self.warned`: warnings of the whole history, recorded by the caller
            # under default filters (a repeated warning must not be swallowed)
            if self.warned is not None:
                w = self.warned
                before = len(w)
                self.run_step()
            else:
                before = 0
                with warnings.catch_warnings(record=True) as w:
                    warnings.resetwarnings()
                    self.run_step()
            ctx.check(f"{label} warning at {self.k}",
                      any(issubclass(x.category, UserWarning) for x in w[before:]))
        else:
            if mode == "unscale":
                self.expect(1.0)
            else:
                self.expect(scale)
            self.run_step()
        self.finish(mode)
        self.t += 1
        self.k += 1
        self.prev = scale
        self.check_state(f"{label} after {self.k - 1}")

    def check_state(self, label):
        ctx, o = self.ctx, self.opt
        ctx.check(f"{label}: step counter", o.steps == self.t, o.steps)
        ctx.check(f"{label}: nothing pending", not o.H_Ks and not o.H_Cs)
        for nm, l in self.L.items():
            st = l.hy["structures"]
            ctx.eq(f"{label}: K {nm}", o.Ks[nm].to_dense(), l.K, self.tol)
            ctx.eq(f"{label}: C {nm}", o.Cs[nm].to_dense(), l.C, self.tol)
            if l.mK is not None:
                ctx.eq(f"{label}: m_K {nm}", o.m_Ks[nm].to_dense(), l.mK, self.tol)
                ctx.eq(f"{label}: m_C {nm}", o.m_Cs[nm].to_dense(), l.mC, self.tol)
            ctx.check(f"{label}: momenta {nm}",
                      (nm in o.m_Ks) == (nm in o.m_Cs) == l.mom)
            ctx.check(f"{label}: structures {nm}", type(o.Ks[nm]) is cls_of(st[0])
                      and type(o.Cs[nm]) is cls_of(st[1]))
            for k, p in enumerate(l.params):
                ctx.eq(f"{label}: parameter {nm}.{k}", p, l.P[k], self.tol)


def small(ctx, *dims, bias=True, label="net", n=1):
    """Stack of small fully-connected layers, as a container."""
    mods = [nn.Linear(a, b, bias=bias) for a, b in zip(dims, dims[1:])]
    net = nn.Sequential(*mods)
    for k, m in enumerate(mods):
        fill_params(ctx, m, f"{label}{k}", n)
    return net


def build(ctx, net, hyper=None, groups=None, init_scale=1.0, cls=None):
    """Real optimizer for a container; `groups`: list of (layer names, overrides)."""
    if cls is None:
        from singd.optim.optimizer import SINGD as cls

    hy = dict(DEFAULTS)
    hy.update(hyper or {})
    mods = dict(net.named_modules())
    names = [n for n, m in mods.items() if isinstance(m, (nn.Linear, nn.Conv2d))]
    if groups is None:
        opt = cls(net, init_grad_scale=init_scale, **hy)
        per = {n: (mods[n], hy) for n in names}
    else:
        gs, per = [], {}
        for members, over in groups:
            gs.append(dict(params=[p for n in members for p in mods[n].parameters()], **over))
            for n in members:
                per[n] = (mods[n], {**hy, **over})
        opt = cls(net, params=gs, init_grad_scale=init_scale, **hy)
    return opt, per


def mirror(ctx, A, B, nets=None, label="", n=1):
    """Give several optimizers the same, partly unknown, state."""
    for o in (A, *B):
        reset_state(ctx, o)
    for d in ("Ks", "Cs", "m_Ks", "m_Cs"):
        for nm, m in getattr(A, d).items():
            if n:
                fill(ctx, m, f"{label}{d}{nm}", n, keep=True)
            for o in B:
                for (_, u), (_, v) in zip(m.named_tensors(), getattr(o, d)[nm].named_tensors()):
                    ctx.write(v, ctx.read(u))
    if nets:
        for k, (nm, p) in enumerate(nets[0].named_parameters()):
            for other in nets[1:]:
                q = dict(other.named_parameters())[nm]
                with torch.no_grad():
                    ctx.write(q.data, ctx.read(p))
