"""C11: training is invariant to gradient scaling."""

from checks.trainer import *  # noqa: F403

PROP = "C11"
BOUNDS = (
    "up to six steps, update periods 1-3, every scale and the initial scale an arbitrary "
    "positive number (quick: at most one of them exactly 1), scales communicated through scaler attributes, explicitly, or with "
    "gradients un-scaled beforehand (every mixture listed); layer widths 1-2 and small "
    "convolutions; factors, momenta, parameters, inputs, gradients partly symbolic"
)
ASSUMPTIONS = [
    "in histories with listed modes, a gradient scaler is represented by the attributes it "
    "sets (grad_scale, found_inf); in `amp` histories PyTorch's own gradient scaler runs",
]


def history(ctx, cfg):
    if cfg.get("conv"):
        net = nn.Sequential(nn.Conv2d(1, 2, (2, 1), bias=cfg["bias"]))
        fill_params(ctx, net[0], "net0", 1)
    else:
        net = small(ctx, *cfg["d"], bias=cfg["bias"])
    init = ctx.scalar2("scale-1") if cfg.get("init", 1) else 1.0
    if cfg.get("init", 1) and cfg.get("one", -1) != -1:
        ctx.assume(init != 1.0)
    hy = dict(T=cfg["T"], structures=cfg["st"], weight_decay=0.125,
              alpha1=cfg.get("alpha1", 0.5), kfac_like=bool(cfg.get("kfac_like")),
              kfac_approx=cfg.get("approx", "expand"),
              loss_average=cfg.get("avg", "batch"))
    opt, per = build(ctx, net, hy, init_scale=init)
    full = cfg.get("params")
    tr = Trainer(ctx, opt, per, n=cfg.get("n", 1), init_scale=init)
    for t, mode in enumerate(cfg["modes"]):
        if full:
            # factors are fixed numbers so that even update steps stay decidable
            tr.cut(n=0)
        else:
            tr.cut()
        tr.fresh_grads()
        tr.grads = bool(full) or not tr.active(tr.L["0"])
        scale = 1.0 if mode == "none" else ctx.scalar2(f"scale{t}")
        if mode != "none" and cfg.get("one", t) != t:
            ctx.assume(scale != 1.0)
        if mode in ("early", "both", "twice"):  # told before the backward pass
            opt.set_current_grad_scale(scale)
        if mode == "corrected":  # the last value told counts
            opt.set_current_grad_scale(scale * 2.0)
            opt.set_current_grad_scale(scale)
            mode = "early"
        for k in range(cfg.get("micro", 1)):
            tr.backward(scale=scale, nx=0 if full else 1, ng=1, tag=f"m{k}")
        if cfg.get("evaluate"):
            tr.evaluate()
        if mode == "unscale" and not tr.grads:
            mode = "explicit"
        tr.step(mode, scale)


def relational(ctx, cfg):
    """Two optimizers on the same data, one of them scaled; no reference model."""
    nets = [small(ctx, *cfg["d"], bias=True, label=f"net{k}", n=0) for k in range(2)]
    init = ctx.scalar2("scale-1")
    hy = dict(T=cfg["T"], structures=cfg["st"], weight_decay=0.125)
    A, pa = build(ctx, nets[0], hy)
    B, pb = build(ctx, nets[1], hy, init_scale=init)
    ta, tb = Trainer(ctx, A, pa), Trainer(ctx, B, pb, init_scale=init)
    for t in range(cfg["steps"]):
        s = ctx.scalar2(f"scale{t}")
        # same arbitrary state on both sides
        for o in (A, B):
            reset_state(ctx, o)
        if not cfg.get("params"):
            for d in ("Ks", "Cs", "m_Ks", "m_Cs"):
                for nm, m in getattr(A, d).items():
                    fill(ctx, m, f"{d}{nm}@{t}", 1, keep=True)
                    for (_, u), (_, v) in zip(m.named_tensors(),
                                              getattr(B, d)[nm].named_tensors()):
                        ctx.write(v, ctx.read(u))
        for k, (nm, l) in enumerate(ta.L.items()):
            x, g = ta.data(l, (2,), f"d{t}", 0 if cfg.get("params") else 1, 1)
            for p in l.params + tb.L[nm].params:
                p.grad = None
            l.mod(x).backward(g)
            tb.L[nm].mod(x).backward(g * s)
            active = t % cfg["T"] == 0
            if active and not cfg.get("params"):
                zero_grads(l.mod, tb.L[nm].mod)
        if t % 2:
            B.set_current_grad_scale(s)
        else:
            B.grad_scale = torch.zeros(())
            with torch.no_grad():
                ctx.write(B.grad_scale, ctx.scal(s))
            B.found_inf = torch.zeros(())
        A.step()
        B.step()
        tb.finish("x")
        ta.t = tb.t = ta.k = tb.k = t + 1
        sa, sb = snapshot(ctx, A), snapshot(ctx, B)
        same_snapshot(ctx, f"step {t}", sb, sa)


def amp(ctx, cfg):
    """The real gradient scaler of PyTorch, whose scale grows and shrinks."""
    net = small(ctx, *cfg["d"], bias=cfg["bias"])
    first = ctx.scalar2("first")
    own = cfg.get("own")  # the optimizer's initial scale differs from the scaler's
    init = ctx.scalar2("init") if own else 1.0 if own == 0 else first
    hy = dict(T=cfg["T"], structures=cfg["st"], weight_decay=0.125,
              alpha1=cfg.get("alpha1", 0.5))
    opt, per = build(ctx, net, hy, init_scale=init)
    tr = Trainer(ctx, opt, per, init_scale=init)
    tr.scaler = torch.amp.GradScaler("cpu", init_scale=first, growth_factor=4.0,
                                     backoff_factor=0.25, growth_interval=cfg["grow"])
    full = cfg.get("params")
    for t, mode in enumerate(cfg["modes"]):
        tr.cut(n=0 if full else 1)
        tr.fresh_grads()
        tr.grads = bool(full) or not tr.active(tr.L["0"])
        scale = tr.scaler.get_scale()
        if mode == "early":
            opt.set_current_grad_scale(scale)
        over = mode == "overflow"
        for k in range(cfg.get("micro", 1)):
            tr.backward(scale=scale, nx=0 if full else 1, ng=1, tag=f"m{k}", overflow=over)
        if mode == "unscale" and not tr.grads:
            mode = "scaler"
        tr.step(mode, scale, overflow=over)


HARNESSES = {"history": history, "relational": relational, "amp": amp}
MODES = [
    ["scaler"] * 4,
    ["explicit"] * 4,
    ["scaler", "explicit", "scaler", "none", "scaler"],
    ["none", "none", "scaler", "scaler"],
    ["explicit", "unscale", "unscale", "scaler"],
    ["scaler", "unscale", "scaler", "explicit"],
    ["scaler", "scaler", "none", "scaler", "explicit", "scaler"],
    ["early"] * 3,
    ["scaler", "both", "early", "twice", "unscale"],
    ["twice", "none", "early", "scaler"],
    ["corrected", "scaler", "corrected"],
]
AMP = [
    ["scaler"] * 5,
    ["scaler", "unscale", "scaler", "unscale"],
    ["unscale", "unscale", "early", "scaler"],
    ["overflow", "scaler", "overflow", "unscale", "scaler"],
    ["scaler", "overflow", "overflow", "scaler", "scaler"],
]


def configs(tier):
    out = []
    deep = tier == "thorough"
    for T in (1, 2, 3) + ((4, 5) if deep else ()):
        for k, modes in enumerate(MODES):
            a, b = STRUCTS[k % 6], STRUCTS[(k + T) % 6]
            out.append(dict(h="history", T=T, modes=modes, st=(a, b), d=(1, 2), bias=True,
                            cost=3))
            out.append(dict(h="history", T=T, modes=modes, st=(b, a), d=(2, 1), bias=False,
                            params=1, cost=3))
            out.append(dict(h="history", T=T, modes=modes, st=(b, a), d=(1, 1), bias=True,
                            init=0, micro=2, alpha1=0.0, kfac_like=k % 2))
        for ap, avg in outer(("expand", "reduce"), (None, "batch", "batch+sequence")):
            out.append(dict(h="history", T=T, modes=MODES[2], st=("dense", "diagonal"),
                            conv=1, bias=bool(T % 2), approx=ap, avg=avg, evaluate=1))
        for k, s in enumerate(STRUCTS):
            o = STRUCTS[(k + 2) % 6]
            for par in (0, 1):
                out.append(dict(h="relational", T=T, st=(s, o), d=(1, 2), steps=T + 2,
                                params=par))
        for k, modes in enumerate(AMP):
            a, b = STRUCTS[k % 6], STRUCTS[(k + T) % 6]
            out.append(dict(h="amp", T=T, modes=modes, st=(a, b), d=(1, 2), bias=True,
                            grow=1 + k % 3, own=(None, 1, 0)[(k + T) % 3]))
            out.append(dict(h="amp", T=T, modes=modes, st=(b, a), d=(2, 1), bias=False,
                            params=1, grow=1 + (k + T) % 2, micro=1 + k % 2,
                            own=(None, 1, 0)[k % 3]))
    if not deep:  # at most one of the scales may equal 1
        for k, c in enumerate(out):
            if c["h"] == "history":
                c["one"] = k % (len(c["modes"]) + 1) - 1
    return out
