"""C13: gradient accumulation over micro-batches equals one large batch."""

from checks.trainer import *  # noqa: F403

PROP = "C13"
BOUNDS = (
    "1-17 micro-batches of 1-17 samples, up to three steps, update periods 1-2; single "
    "fully-connected layers (width up to 33) with 0-3 weight-shared dimensions, small convolutions and "
    "two-layer networks with a squared activation; losses averaged over the batch or over batch and sequence; "
    "both approximations; optional arbitrary gradient scale; inputs, per-sample "
    "gradients, factors, momenta, parameters partly symbolic; (parameters and factors are "
    "not symbolic in the same configuration at update steps)"
)
ASSUMPTIONS = ["losses are averaged per batch (or per batch and sequence), equal micro-batches"]


def per_sample(ctx, y, G, avg):
    """Loss averaged as the optimizer was told."""
    z = y * G
    if avg == "batch":
        return z.flatten(1).sum(1).mean()
    # mean over all positions, summed over features / channels
    if z.dim() == 4:
        z = z.movedim(1, -1)
    return z.sum(-1).mean()


def accumulate(ctx, cfg):
    M, b = cfg["M"], cfg["b"]
    nets = []
    for k in range(2):
        if cfg["net"] == "conv":
            net = nn.Sequential(nn.Conv2d(2, 2, (2, 1), bias=cfg["bias"], groups=cfg.get("groups", 1)))
            fill_params(ctx, net[0], f"net{k}", 0)
        else:
            net = small(ctx, *cfg["d"], bias=cfg["bias"], label=f"net{k}", n=0)
        nets.append(net)
    hy = dict(T=cfg.get("T", 1), structures=cfg["st"], weight_decay=0.125,
              loss_average=cfg["avg"], kfac_approx=cfg["approx"],
              kfac_like=bool(cfg.get("kfac_like")), alpha1=cfg.get("alpha1", 0.5),
              normalize_lr_cov=bool(cfg.get("normalize")))
    init = ctx.scalar2("scale-1") if cfg.get("scaled") else 1.0
    A, _ = build(ctx, nets[0], hy, init_scale=init)
    B, _ = build(ctx, nets[1], hy, init_scale=init)
    for t in range(cfg.get("steps", 1)):
        params = cfg.get("params")
        mirror(ctx, A, [B], nets, f"s{t}", n=0 if params else 1)
        scale = ctx.scalar2(f"scale{t}") if cfg.get("scaled") else 1.0
        N = M * b
        if cfg["net"] == "conv":
            xs = (N, 2, 3, 2)
        else:
            xs = (N,) + tuple(cfg.get("shared", ())) + (cfg["d"][0],)
        nx = 0 if params else cfg.get("nx", 1)
        x = some_tensor(ctx, f"x{t}", xs, nx)

        def forward(net, v):
            if cfg["net"] == "conv" or len(net) == 1:
                return net(v)
            h = net[0](v)
            return net[1](h * h)

        with torch.no_grad():
            shape = tuple(forward(nets[0], torch.zeros(xs)).shape)
        G = some_tensor(ctx, f"g{t}", shape, cfg.get("ng", 1))
        for net in nets:
            for p in net.parameters():
                p.grad = None
        (per_sample(ctx, forward(nets[0], x), G, cfg["avg"]) * scale).backward()
        for m in range(M):
            sl = slice(m * b, (m + 1) * b)
            loss = per_sample(ctx, forward(nets[1], x[sl]), G[sl], cfg["avg"]) / M
            (loss * scale).backward()
        for nm in A.H_Ks:
            for o, s in (("K", "C"), ("C", "K")):
                pa = ctx.arr(getattr(A, f"H_{o}s")[nm].to_dense()) * avg_trace(
                    ctx, ctx.arr(getattr(A, f"H_{s}s")[nm].to_dense()))
                pb = ctx.arr(getattr(B, f"H_{o}s")[nm].to_dense()) * avg_trace(
                    ctx, ctx.arr(getattr(B, f"H_{s}s")[nm].to_dense()))
                ctx.eq(f"product of statistics {o} {nm} at {t}", pb, pa)
        ctx.check(f"statistics exist at {t}", A.H_Ks.keys() == B.H_Ks.keys()
                  and A.H_Cs.keys() == B.H_Cs.keys())
        for (nm, p), q in zip(nets[0].named_parameters(), nets[1].parameters()):
            ctx.eq(f"gradient {nm} at {t}", q.grad, p.grad)
        if t % hy["T"] == 0 and not params:
            zero_grads(*nets)
        if cfg.get("scaled"):
            for o in (A, B):
                o.set_current_grad_scale(scale)
        A.step()
        B.step()
        ctx.check(f"nothing pending at {t}", not (B.H_Ks or B.H_Cs))
        same_snapshot(ctx, f"step {t}", snapshot(ctx, B), snapshot(ctx, A))


HARNESSES = {"accumulate": accumulate}


def configs(tier):
    out = []
    deep = tier == "thorough"
    n = 0
    for M, b in ((2, 1), (2, 2), (3, 1), (4, 1)) + (((3, 2), (4, 2), (5, 1)) if deep else ()):
        for avg, approx in outer(("batch", "batch+sequence"), ("expand", "reduce")):
            for sh in ((), (2,), (1, 2)):
                s, o = STRUCTS[n % 6], STRUCTS[(n // 6 + n) % 6]
                n += 1
                out.append(dict(h="accumulate", net="linear", M=M, b=b, avg=avg,
                                approx=approx, shared=sh, d=(1, 2) if n % 2 else (2, 1),
                                bias=bool(n % 3), st=(s, o), params=n % 2,
                                alpha1=0.0 if n % 5 == 0 else 0.5))
            out.append(dict(h="accumulate", net="conv", M=M, b=b, avg=avg, approx=approx,
                            bias=bool(n % 2), st=(STRUCTS[n % 6], STRUCTS[(n + 3) % 6]),
                            params=1, groups=1 + n % 2))
            out.append(dict(h="accumulate", net="linear", M=M, b=b, avg=avg, approx=approx,
                            d=(1, 1, 2), bias=bool(n % 2), params=1, nx=0,
                            st=(STRUCTS[n % 6], STRUCTS[(n + 2) % 6])))
    # many micro-batches, large batches, wider layers
    for k, (M, b, sh, d) in enumerate([(8, 1, (), (2, 2)), (17, 1, (), (1, 2)), (2, 17, (), (2, 1)),
                                       (2, 1, (9,), (1, 2)), (2, 2, (2, 1, 2), (1, 1)),
                                       (3, 5, (4,), (2, 1)), (2, 2, (), (31, 2)),
                                       (2, 1, (), (2, 33))]):
        for par in (0, 1):
            out.append(dict(h="accumulate", net="linear", M=M, b=b, shared=sh, d=d,
                            avg=("batch", "batch+sequence")[(k + par) % 2],
                            approx=("expand", "reduce")[(k // 2 + par) % 2], bias=bool(k % 3),
                            st=(STRUCTS[(k + par) % 6], STRUCTS[(k + 2) % 6]), params=par,
                            cost=5))
    for k, s in enumerate(STRUCTS):
        out.append(dict(h="accumulate", net="linear", M=2, b=1, avg="batch", approx="expand",
                        d=(1, 2), bias=True, st=(s, STRUCTS[(k + 1) % 6]), T=2, steps=3,
                        params=k % 2))
        out.append(dict(h="accumulate", net="linear", M=2, b=1, avg="batch", approx="expand",
                        d=(1, 1), bias=True, st=(s, STRUCTS[(k + 5) % 6]), T=1, steps=2,
                        scaled=1, params=(k + 1) % 2))
        out.append(dict(h="accumulate", net="linear", M=2, b=1, avg="batch", approx="reduce",
                        d=(2, 1), bias=False, st=(s, STRUCTS[(k + 3) % 6]), normalize=1,
                        params=1, ng=1))
    out.append(dict(h="accumulate", net="linear", M=2, b=1, avg="batch", approx="expand",
                    d=(1, 2), bias=True, st=("dense", "diagonal"), kfac_like=1, alpha1=0.0))
    return out
