"""C21: the KFAC-like mode tracks KFAC's moving average to first order."""

from checks.trainer import *  # noqa: F403

PROP = "C21"
BOUNDS = (
    "fully-connected layers of width 1-3 and 2d convolutions with 1-4 unfolded features, "
    "batch 1-2, one weight-sharing dimension; all approximations and loss averages; factors "
    "arbitrary (not only symmetric), damping and preconditioner learning rate symbolic, data "
    "partly or fully symbolic; single updates from arbitrary states, two updates in a row"
)
ASSUMPTIONS = [
    "the update is at most quadratic in the preconditioner learning rate, so that an error "
    "of second order is one that quadruples if the learning rate doubles",
]


def module(ctx, cfg):
    d = cfg["d"]
    if cfg.get("conv"):
        return nn.Conv2d(d[0], d[1], tuple(cfg["conv"]), bias=cfg.get("bias", True))
    return nn.Linear(d[0], d[1], bias=cfg.get("bias", True))


def data(ctx, cfg, tag, nx, ng):
    d = cfg["d"]
    if cfg.get("conv"):
        k = cfg["conv"]
        x = some_tensor(ctx, f"x{tag}", (cfg.get("b", 1), d[0], k[0] + 1, k[1]), nx)
        g = some_tensor(ctx, f"g{tag}", (cfg.get("b", 1), d[1], 2, 1), ng)
    else:
        sh = (cfg.get("b", 2),) + ((2,) if cfg.get("shared") else ())
        x = some_tensor(ctx, f"x{tag}", sh + (d[0],), nx)
        g = some_tensor(ctx, f"g{tag}", sh + (d[1],), ng)
    return x, g


def first_order(ctx, cfg):
    beta = ctx.scalar("beta", positive=True, hi=1)
    lam = ctx.scalar("damping", lo=0, sample=[0.25, 0.5, 1.0, 2.0])
    rates = [lambda s: beta, lambda s: beta * 2.0, lambda s: beta]
    if not cfg.get("schedule"):
        rates = [beta, beta * 2.0, beta]
    avg, ap = cfg.get("avg", "batch"), cfg.get("approx", "expand")
    hy = dict(structures=("dense", "dense"), kfac_like=True, alpha1=0.0, damping=lam,
              kfac_approx=ap, loss_average=avg, T=cfg.get("T", 1))
    init = cfg.get("scale", 1.0)
    nets, opts = [], []
    for r in rates:
        net = nn.Sequential(module(ctx, cfg))
        fill_params(ctx, net, f"net{len(nets)}", 0)
        nets.append(net)
        with warnings.catch_warnings(record=True):
            opts.append(build(ctx, net, dict(hy, lr_cov=r), init_scale=init)[0])
    n = cfg.get("n", 2)
    T = cfg.get("T", 1)
    for t in range(cfg.get("steps", 1)):
        for o in opts:  # every T-th step is an update step
            start_at(o, t * T, last=init)
        mirror(ctx, opts[0], opts[1:], nets, f"s{t}", n)
        K, C = dense(ctx, opts[0].Ks["0"]), dense(ctx, opts[0].Cs["0"])
        x, g = data(ctx, cfg, f"@{t}", cfg.get("nx", 2), cfg.get("ng", 2))
        # other data for the other factor: the factors evolve independently
        x2, g2 = data(ctx, cfg, f"other@{t}", 1, 1)
        for k, (net, o) in enumerate(zip(nets, opts)):
            for p in net.parameters():
                p.grad = None
            if k < 2:
                pairs = [(x, g)]
            else:
                pairs = [(x2, g)] if t % 2 == cfg.get("swap", 0) else [(x, g2)]
            for a, b in pairs:
                net(a).backward(b * init if init != 1.0 else b)
            zero_grads(net)
            if init != 1.0:
                o.set_current_grad_scale(init)
            o.step()
        m = nets[0][0]
        A = input_moment(ctx, m, ctx.read(x), ap)
        B = grad_moment(ctx, m, ctx.read(g), avg, ap)
        for nm, M, S in (("K", K, A), ("C", C, B)):
            D = S + ctx.eye(S.shape[0]) * ctx.num(lam)
            P = ctx.mm(M, M.T)
            slope = ctx.mm(P, D, P) - P
            err = []
            for k in (0, 1):
                N = dense(ctx, getattr(opts[k], nm + "s")["0"])
                b = ctx.num(beta) * ctx.frac(k + 1)
                err.append(ctx.mm(N, N.T) - P + slope * b)
            ctx.eq(f"{nm} at {t}: second-order error", err[1], err[0] * ctx.frac(4))
        # the factor whose data is the same must not notice the other one's data
        nm = "C" if t % 2 == cfg.get("swap", 0) else "K"
        ctx.eq(f"{nm} at {t}: independent of the other factor", getattr(opts[2], nm + "s")["0"].to_dense(),
               dense(ctx, getattr(opts[0], nm + "s")["0"]))


def fixed_point(ctx, cfg):
    """If the inverse already equals the damped factor, an update keeps it."""
    lam = ctx.scalar("damping", positive=True, sample=[0.25, 0.5, 1.0])
    beta = ctx.scalar("beta", positive=True, hi=1)
    net = nn.Sequential(nn.Linear(1, 1, bias=False))
    fill_params(ctx, net, "net", 0)
    opt, _ = build(ctx, net, dict(structures=("dense", "dense"), kfac_like=True, alpha1=0.0,
                                  damping=lam, lr_cov=beta, loss_average=cfg["avg"]))
    k, c = ctx.scalar("k", positive=True), ctx.scalar("c", positive=True)
    x, g = ctx.scalar("x", positive=True), ctx.scalar("g", positive=True)
    for D, v in ((opt.Ks, k), (opt.Cs, c)):
        with torch.no_grad():
            (_, t), = D["0"].named_tensors()
            ctx.write(t, np.full((1, 1), ctx.num(v), dtype=object))
    xt, gt = torch.zeros(1, 1), torch.zeros(1, 1)
    ctx.write(xt, np.full((1, 1), ctx.num(x), dtype=object))
    ctx.write(gt, np.full((1, 1), ctx.num(g), dtype=object))
    net(xt).backward(gt)
    zero_grads(net)
    opt.step()
    # K_new - K = - beta K (k² (x² + damping) - 1) / 2
    for nm, v, s in (("Ks", k, x), ("Cs", c, g)):
        v, s = ctx.num(v), ctx.num(s)
        res = v * v * (s * s + ctx.num(lam)) - ctx.frac(1)
        new = dense(ctx, getattr(opt, nm)["0"])[0, 0]
        ctx.eq(f"{nm}: change is proportional to the residual", as_arr(new - v),
               as_arr(v * res * ctx.num(beta) * ctx.frac(-1, 2)))


def as_arr(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


HARNESSES = {"first_order": first_order, "fixed_point": fixed_point}


def configs(tier):
    out = []
    deep = tier == "thorough"
    AVG = (None, "batch", "batch+sequence")
    for av in AVG:
        out.append(dict(h="fixed_point", avg=av))
    k = 0
    for ap, av, bias in outer(("expand", "reduce"), AVG, (True, False)):
        for d in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for shared in (0, 1):
                k += 1
                out.append(dict(h="first_order", d=d, approx=ap, avg=av, bias=bias,
                                shared=shared, n=3, nx=2, ng=2, swap=k % 2))
        k += 1
        out.append(dict(h="first_order", d=(2, 2), approx=ap, avg=av, bias=bias, steps=2,
                        n=2, nx=1, ng=1, swap=k % 2, schedule=1))
        out.append(dict(h="first_order", d=(1, 2), approx=ap, avg=av, bias=bias, steps=2,
                        n=2, nx=1, ng=1, swap=k % 2, scale=4.0))
        for d, kk in (((1, 2), (2, 1)), ((2, 1), (1, 1)), ((2, 2), (2, 1))):
            out.append(dict(h="first_order", d=d, conv=kk, approx=ap, avg=av, bias=bias,
                            n=2, nx=2, ng=2, swap=k % 2, b=1 + k % 2))
        out.append(dict(h="first_order", d=(3, 3), approx=ap, avg=av, bias=bias, n=2, nx=1,
                        ng=1, swap=k % 2, cost=3))
        if deep:
            out.append(dict(h="first_order", d=(2, 2), approx=ap, avg=av, bias=bias, n=9,
                            nx=4, ng=4, shared=1, cost=9))
            out.append(dict(h="first_order", d=(4, 3), approx=ap, avg=av, bias=bias, n=4,
                            nx=2, ng=2, cost=9))
    for k, c in enumerate(out):  # vary the update period
        if c["h"] == "first_order":
            c["T"] = (1, 2, 3, 1, 10)[k % 5]
    return out
