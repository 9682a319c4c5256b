"""C12: a step with overflowing gradients is skipped without side effects."""

from checks.trainer import *  # noqa: F403

PROP = "C12"
BOUNDS = (
    "up to five steps, each of which may overflow or not (the subset of overflowing steps "
    "is symbolic, all are explored), update periods 1-3, arbitrary positive initial scale and "
    "scale of one step (thorough: of all steps), one "
    "or two backward passes per step; layer widths 1-2; factors, momenta, parameters, "
    "inputs and gradients partly symbolic"
)
ASSUMPTIONS = [
    "in histories without `amp`, a gradient scaler is represented by the attributes it sets "
    "(grad_scale, found_inf); with `amp`, PyTorch's own gradient scaler runs",
    "symbolic gradients are finite; that inf/nan themselves do not leak is checked in the "
    "native runs that validate every explored path",
]


def history(ctx, cfg):
    # one recording for the whole history: a repeated overflow must warn again
    with warnings.catch_warnings(record=True) as warned:
        warnings.resetwarnings()
        warnings.simplefilter("default")
        _history(ctx, cfg, warned)


def _history(ctx, cfg, warned):
    if cfg.get("conv"):
        net = nn.Sequential(nn.Conv2d(1, 2, (2, 1)))
        fill_params(ctx, net[0], "net0", 1)
    else:
        net = small(ctx, *cfg["d"])
    scaled = cfg.get("scaled", 1)
    init = ctx.scalar2("scale-1") if scaled else 1.0
    amp = cfg.get("amp")  # the real gradient scaler of PyTorch
    hy = dict(T=cfg["T"], structures=cfg["st"], weight_decay=0.125,
              alpha1=cfg.get("alpha1", 0.5))
    groups = None
    if cfg.get("periods"):  # layers with different update periods
        groups = [([str(k)], dict(T=T)) for k, T in enumerate(cfg["periods"])]
    opt, per = build(ctx, net, hy, groups=groups, init_scale=init)
    tr = Trainer(ctx, opt, per, init_scale=init, warned=warned)
    full = cfg.get("params")
    if amp:
        tr.scaler = torch.amp.GradScaler(
            "cpu", init_scale=ctx.scalar2("first") if "free" in cfg else 4.0,
            growth_factor=4.0, backoff_factor=0.25, growth_interval=amp)
    for t in range(cfg["steps"]):
        tr.cut(n=0 if full else 1)
        tr.fresh_grads()
        tr.grads = bool(full) or not any(tr.active(l) for l in tr.L.values())
        over = ctx.positive(ctx.num(ctx.scalar(f"overflow{t}", sample=[-1.0, 1.0])))
        scale = 1.0
        if scaled:
            # the scale of one step is arbitrary, the others are distinct numbers
            scale = ctx.scalar2(f"scale{t}") if cfg.get("free", t) == t else 2.0 ** (4 - t)
        if amp:
            scale = tr.scaler.get_scale()
        for k in range(cfg.get("micro", 1)):
            last = k == cfg.get("micro", 1) - 1
            tr.backward(scale=scale, nx=0 if full else 1, ng=1, tag=f"m{k}",
                        overflow=over and last)
        mode = "scaler" if (t + cfg.get("alt", 0)) % 2 == 0 else "explicit"
        if not scaled:
            mode = "scaler"
        if amp and (t + cfg.get("alt", 0)) % 3 == 2 and (tr.grads or over):
            mode = "unscale"
        tr.step(mode, scale, overflow=over)


HARNESSES = {"history": history}


def configs(tier):
    out = []
    deep = tier == "thorough"
    for T in (1, 2, 3):
        for k, s in enumerate(STRUCTS):
            o = STRUCTS[(k + T) % 6]
            out.append(dict(h="history", T=T, st=(s, o), d=(1, 2), steps=3 + (T > 1) + deep,
                            alt=k % 2, cost=5))
            out.append(dict(h="history", T=T, st=(o, s), d=(2, 1), steps=3, micro=2,
                            alt=(k + 1) % 2, params=1, cost=5))
        out.append(dict(h="history", T=T, st=("dense", "dense"), d=(1, 1, 1), steps=3 + deep,
                        scaled=0, cost=5))
        out.append(dict(h="history", T=T, st=("dense", "diagonal"), conv=1, steps=3,
                        alpha1=0.0, cost=5))
        for k, s in enumerate(STRUCTS):
            o = STRUCTS[(k + T + 1) % 6]
            if not deep and (k + T) % 2:
                continue
            out.append(dict(h="history", T=T, st=(s, o), d=(1, 2), steps=3 + deep, amp=1 + k % 2,
                            alt=k % 3, cost=5))
            out.append(dict(h="history", T=T, st=(o, s), d=(2, 1), steps=3 + deep, micro=1 + k % 2,
                            amp=1 + (k + T) % 3, alt=(k + 1) % 3, params=1, cost=5))
    for k, periods in enumerate([(2, 1), (1, 3), (2, 3), (3, 1, 2)]):
        for par in (0, 1):
            a, b = STRUCTS[(k + par) % 6], STRUCTS[(k + 3) % 6]
            out.append(dict(h="history", T=1, st=(a, b), d=(1,) * (len(periods) + 1),
                            periods=periods, steps=3 + deep, alt=k % 2, cost=5,
                            params=par, micro=1 + (k + par) % 2, amp=k % 3))
    if deep:
        for a, b in outer(STRUCTS, STRUCTS):
            out.append(dict(h="history", T=2, st=(a, b), d=(1, 2), steps=5, micro=2))
    if not deep:
        for k, c in enumerate(out):
            c["free"] = k % c["steps"]
    return out
