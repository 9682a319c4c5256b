"""C15: data-parallel training equals single-process training."""

from checks.trainer import *  # noqa: F403
from symtorch.ctx import Workers

PROP = "C15"
BOUNDS = (
    "2-8 workers with 1-9 samples each, up to three steps, update periods 1-2, one to five "
    "micro-batches per worker; one or two fully-connected layers of width 1-33 (0-2 shared "
    "dimensions) or a small convolution, one or two parameter groups; optional gradient "
    "scaling and commonly skipped steps; factors, momenta, parameters, inputs, gradients "
    "partly symbolic; all-reduction of every matrix class at small dimensions"
)
ASSUMPTIONS = [
    "torch.distributed is replaced by a stand-in that combines the tensors of all workers "
    "exactly (sum or average) and gives every worker the result; workers run in lock-step",
    "losses are averaged per batch (or batch and sequence); equal shares",
]
OPTS = dict(own_modes=True)


def make(ctx, cfg, k):
    if cfg["net"] == "conv":
        ci, co = cfg.get("ch", (1, 2))
        net = nn.Sequential(nn.Conv2d(ci, co, (2, 1), bias=cfg["bias"], **cfg.get("conv", {})))
        fill_params(ctx, net[0], "net", 0)
    else:
        net = small(ctx, *cfg["d"], bias=cfg["bias"], label=f"net{k}", n=0)
    hy = dict(T=cfg.get("T", 1), structures=cfg["st"], weight_decay=0.125,
              loss_average=cfg["avg"], kfac_approx=cfg["approx"],
              kfac_like=bool(cfg.get("kfac_like")), alpha1=cfg.get("alpha1", 0.5),
              normalize_lr_cov=bool(cfg.get("normalize")))
    groups = None
    if cfg.get("groups"):
        groups = [(["0"], dict(lr=0.25)),
                  (["1"], dict(momentum=0.0, structures=cfg["st"][::-1], T=1, alpha1=0.0))]
    opt, _ = build(ctx, net, hy, groups=groups, init_scale=cfg.get("scale") or 1.0)
    return net, opt


def per_sample(y, G, avg):
    z = y * G
    if avg == "batch":
        return z.flatten(1).sum(1).mean()
    if z.dim() == 4:
        z = z.movedim(1, -1)
    return z.sum(-1).mean()


def forward(net, x):
    if len(net) == 1:
        return net(x)
    h = net[0](x)
    return net[1](h * h)


def parallel(ctx, cfg):
    W, b, steps, M = cfg["W"], cfg["b"], cfg["steps"], cfg.get("micro", 1)
    params = cfg.get("params")
    N = W * b * M
    with ctx.run():
        net, opt = make(ctx, cfg, "S")
        reps = [make(ctx, cfg, r) for r in range(W)]
    for t in range(steps):
        with ctx.run():
            if len(net) > 1:  # keeps later steps small
                fill_params(ctx, net, "p", 0)
            mirror(ctx, opt, [o for _, o in reps], [net] + [n for n, _ in reps], f"s{t}",
                   n=0 if params else 1)
            xs = (N, cfg.get("ch", (1, 2))[0], 3, 2) if cfg["net"] == "conv" else (
                (N,) + tuple(cfg.get("shared", ())) + (cfg["d"][0],))
            x = some_tensor(ctx, f"x{t}", xs, 0 if params else 1)
            with torch.no_grad():
                shape = tuple(forward(net, torch.zeros(xs)).shape)
            G = some_tensor(ctx, f"g{t}", shape, 1 + (params or 0))
            scale = ctx.scalar2(f"scale{t}") if cfg.get("scale") else 1.0
            if cfg.get("scale"):
                ctx.assume(scale != 1.0)
        zero = not params and (t % cfg.get("T", 1) == 0 or cfg.get("groups"))
        skip = t in cfg.get("skips", ())

        def one(net, opt, parts):
            for p in net.parameters():
                p.grad = None
            for sl in parts:
                loss = per_sample(forward(net, x[sl]), G[sl], cfg["avg"]) / len(parts)
                (loss * scale).backward()
            if zero:
                zero_grads(net)
            if cfg.get("scale"):
                opt.set_current_grad_scale(scale)
            if skip:
                opt.found_inf = torch.ones(())
            with warnings.catch_warnings(record=True):
                opt.step()
            if skip:
                del opt.found_inf

        with ctx.run():
            one(net, opt, [slice(None)])
            want = snapshot(ctx, opt)

        def worker(r):
            net, opt = reps[r]
            w = [slice((r * M + m) * b, (r * M + m + 1) * b) for m in range(M)]
            one(net, opt, w)

        Workers(ctx, W).run(worker)
        with ctx.run():
            for r, (_, o) in enumerate(reps):
                same_snapshot(ctx, f"step {t} worker {r}", snapshot(ctx, o), want)
                ctx.check(f"step {t} worker {r} counter", o.steps == opt.steps)


def reduce(ctx, cfg):
    """All-reduction of matrices, however their tensors are stored."""
    W, name, dim = cfg["W"], cfg["s"], cfg["d"]
    dist = torch.distributed
    mats = []
    for r in range(W):
        with ctx.run():
            m = arbitrary(ctx, name, dim, f"m{r}", density=cfg.get("n"))
            if cfg["layout"] != "plain":
                def relayout(t):
                    if t.dim() >= 2:
                        return t.detach().mT.contiguous().mT
                    z = torch.zeros(t.numel(), 2, dtype=t.dtype)
                    z[:, 0] = t
                    return z[:, 0]

                for _, t in m.named_tensors():
                    if t.numel() > 1:
                        t.data = relayout(t)
            mats.append(m)
    with ctx.run():
        D = [dense(ctx, m) for m in mats]
        want = D[0]
        for e in D[1:]:
            want = want + e
        if cfg["op"] == "AVG":
            want = want * ctx.frac(1, W)

    def worker(r):
        op = getattr(dist.ReduceOp, cfg["op"])
        if cfg["how"] == "default":
            mats[r].all_reduce()
        elif cfg["how"] == "sync":
            out = mats[r].all_reduce(op=op)
            ctx.check("synchronous reduction returns nothing", out is None)
        else:
            for h in mats[r].all_reduce(op=op, async_op=True):
                h.wait()

    Workers(ctx, W).run(worker)
    with ctx.run():
        for r in range(W):
            ctx.eq(f"reduced on worker {r}", mats[r].to_dense(), want)


HARNESSES = {"parallel": parallel, "reduce": reduce}


def configs(tier):
    out = []
    deep = tier == "thorough"
    n = 0
    for W, b, M in ((2, 1, 1), (2, 2, 1), (3, 1, 1), (2, 1, 2), (4, 1, 1)) + (
            ((3, 2, 2), (4, 2, 1), (5, 1, 1)) if deep else ()):
        for avg, approx in outer(("batch", "batch+sequence"), ("expand", "reduce")):
            for sh in ((), (2,)):
                n += 1
                out.append(dict(h="parallel", net="linear", W=W, b=b, micro=M, avg=avg,
                                approx=approx, shared=sh, d=(1, 2) if n % 2 else (2, 1),
                                bias=bool(n % 3), steps=1, params=n % 2,
                                st=(STRUCTS[n % 6], STRUCTS[(n // 6 + n + 1) % 6]),
                                alpha1=0.0 if n % 5 == 0 else 0.5,
                                kfac_like=int(M == 1 and n % 5 == 0)))
            out.append(dict(h="parallel", net="conv", W=W, b=b, micro=M, avg=avg,
                            approx=approx, bias=bool(n % 2), steps=1, params=n % 2,
                            st=(STRUCTS[n % 6], STRUCTS[(n + 2) % 6])))
    # many workers, larger shares, wider layers
    for k, (W, b, M, sh, d) in enumerate([(8, 1, 1, (), (1, 2)), (2, 9, 1, (), (2, 1)),
                                          (2, 1, 5, (), (1, 2)), (2, 1, 1, (7,), (1, 2)),
                                          (3, 2, 2, (2, 2), (1, 1)), (2, 1, 1, (), (31, 2)),
                                          (2, 1, 1, (), (2, 33))]):
        for par in (0, 1):
            out.append(dict(h="parallel", net="linear", W=W, b=b, micro=M, shared=sh, d=d,
                            avg=("batch", "batch+sequence")[(k + par) % 2],
                            approx=("expand", "reduce")[(k // 2 + par) % 2], bias=bool(k % 3),
                            steps=1, params=par,
                            st=(STRUCTS[(k + par) % 6], STRUCTS[(k + 2) % 6])))
    for k, (ch, kw) in enumerate([((2, 2), dict(groups=2)), ((2, 4), dict(groups=2, stride=2)),
                                  ((1, 1), dict(padding=1)), ((2, 1), dict(dilation=2))]):
        for par in (0, 1):
            out.append(dict(h="parallel", net="conv", W=2 + par, b=1, avg="batch",
                            approx=("expand", "reduce")[(k + par) % 2], bias=bool(k % 2),
                            steps=1 + par, params=par, ch=ch, conv=kw,
                            st=(STRUCTS[(k + par) % 6], STRUCTS[(k + 2) % 6])))
    for k, s in enumerate(STRUCTS):
        o = STRUCTS[(k + 1) % 6]
        for T in (1, 2):
            par = (k + T) % 2
            out.append(dict(h="parallel", net="linear", W=2, b=1, avg="batch",
                            approx="expand", d=(1, 1), bias=True, steps=3, T=T, params=par,
                            st=(s, o), scale=4.0 if k % 2 else 0))
            out.append(dict(h="parallel", net="linear", W=2, b=1, avg="batch",
                            approx="expand", d=(1, 2, 1), bias=bool(k % 2), steps=2, T=T,
                            params=1, st=(s, o), groups=k % 2, micro=1 + (k + T) % 2))
            out.append(dict(h="parallel", net="linear", W=2, b=1, avg="batch",
                            approx="reduce", d=(2, 1), bias=True, steps=3, T=T,
                            params=par, st=(s, o), skips=[T - 1], normalize=par))
    for name in CLASSES:
        for k, (layout, op) in enumerate(outer(("plain", "strided"), ("AVG", "SUM"))):
            d = {"block3": 7, "hier3_2": 8, "block30diagonal": 31, "hierarchical15_15": 33}
            out.append(dict(h="reduce", W=2 + k % 2, s=name, d=d.get(name, 4), layout=layout,
                            op=op, how=["default", "sync", "async", "sync"][k],
                            n=8 if "30" in name or "15" in name else None))
    return out
