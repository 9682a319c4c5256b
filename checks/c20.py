"""C20: data types and structures persist through training."""

from checks.trainer import *  # noqa: F403

PROP = "C20"
BOUNDS = (
    "parameters in f32, bf16, f16 and f64 with factors in any combination of f32, bf16 and "
    "f16 (or the data type of the weight); all structures for both factors; layer widths 1-3 "
    "and small convolutions; layers and groups of different data types and structures in one "
    "model; two or three steps with update periods 1-2; weight decay, both "
    "momenta, gradient scales, automatic mixed precision; factors, momenta, parameters, "
    "inputs and gradients partly symbolic"
)
ASSUMPTIONS = [
    "'only by rounding': with conversions that lose nothing, results equal those of exact "
    "arithmetic; the size of rounding errors is not bounded",
    "in 'kept' configurations a conversion to a lower precision is an arbitrary function",
]


def typed(ctx, opt, tr, cfg, label, want):
    """Classes and data types of everything the optimizer stores."""
    for nm, l in tr.L.items():
        kd, cd = want[nm]
        st = l.hy["structures"]
        for d, s, dt in (("Ks", st[0], kd), ("m_Ks", st[0], kd), ("H_Ks", st[0], kd),
                         ("Cs", st[1], cd), ("m_Cs", st[1], cd), ("H_Cs", st[1], cd)):
            mat = getattr(opt, d).get(nm)
            if mat is None:
                continue
            ctx.check(f"{label}: class of {d} {nm}", type(mat) is cls_of(s), type(mat).__name__)
            dts = {t.dtype for _, t in mat.named_tensors()}
            ctx.check(f"{label}: data type of {d} {nm}", dts <= {dt}, dts)
            ctx.check(f"{label}: data type of dense {d} {nm}", mat.to_dense().dtype == dt)
        for k, p in enumerate(l.params):
            ctx.check(f"{label}: data type of parameter {nm}.{k}", p.dtype == l.dtypes[k], p.dtype)
            ctx.check(f"{label}: data type of gradient {nm}.{k}",
                      p.grad is None or p.grad.dtype == l.dtypes[k])
            buf = opt.state.get(p, {}).get("momentum_buffer")
            if buf is not None:
                ctx.check(f"{label}: data type of momentum {nm}.{k}",
                          buf.dtype == l.dtypes[k] and buf.shape == p.shape, buf.dtype)


def make(ctx, cfg, **over):
    dt = DT[cfg["dtype"]]
    mods = []
    dts = [DT[k] for k in cfg.get("dtypes", ())] or [dt] * len(cfg["layers"])
    for d, dt in zip(cfg["layers"], dts):
        if d == "conv":
            mods.append(nn.Conv2d(1, 2, (2, 1), dtype=dt))
        else:
            mods.append(nn.Linear(d[0], d[1], bias=d[2], dtype=dt))
        fill_params(ctx, mods[-1], f"net{len(mods)}", cfg.get("np", 1))
    net = nn.Sequential(*mods)
    pd = tuple(None if k is None else DT[k] for k in cfg.get("kdtype", (None, None)))
    hy = dict(T=cfg.get("T", 1), structures=tuple(cfg["st"]), weight_decay=cfg.get("wd", 0.0),
              alpha1=cfg.get("alpha1", 0.5), momentum=cfg.get("momentum", 0.5),
              kfac_approx=cfg.get("approx", "expand"), kfac_like=bool(cfg.get("kfac_like")),
              normalize_lr_cov=bool(cfg.get("normalize")), lr_cov=cfg.get("lr_cov", 0.25),
              preconditioner_dtype=pd)
    if cfg.get("kfac_like"):
        hy["alpha1"] = 0.0
    hy.update(over)
    with warnings.catch_warnings(record=True):
        groups = None
        types = {k: pd for k in range(len(mods))}
        if "groups" in cfg:  # groups with data types and structures of their own
            groups = []
            for members, kd, st in cfg["groups"]:
                over_ = {} if kd is None else dict(preconditioner_dtype=tuple(
                    None if k is None else DT[k] for k in kd))
                if st is not None:
                    over_["structures"] = tuple(st)
                groups.append(([str(k) for k in members], over_))
                types.update({k: over_.get("preconditioner_dtype", pd) for k in members})
        opt, per = build(ctx, net, hy, groups, init_scale=cfg.get("scale", 1.0))
    want = {str(k): tuple(dts[k] if p is None else p for p in types[k])
            for k in range(len(mods))}
    return net, opt, per, want


def train(ctx, cfg):
    """Exact arithmetic: every combination of data types follows the same law."""
    net, opt, per, want = make(ctx, cfg)
    half = {BF16, F16} & ({d for w in want.values() for d in w}
                          | {p.dtype for p in net.parameters()})
    tr = Trainer(ctx, opt, per, n=cfg.get("n", 1), init_scale=cfg.get("scale", 1.0),
                 tol=ctx.half_tol if half else None)
    for l in tr.L.values():
        l.dtypes = [p.dtype for p in l.params]
    typed(ctx, opt, tr, cfg, "initially", want)
    for t in range(cfg.get("steps", 2)):
        tr.cut(n=cfg.get("n", 1), momenta=True)
        tr.fresh_grads()
        tr.grads = not tr.active(tr.L["0"]) or bool(cfg.get("params"))
        sh = ((2, 2),) if cfg.get("shared") else ((2,),)
        tr.backward(shapes=sh * cfg.get("micro", 1), scale=cfg.get("scale", 1.0),
                    nx=cfg.get("nx", 1), ng=cfg.get("ng", 1))
        typed(ctx, opt, tr, cfg, f"pending {t}", want)
        tr.step("none" if not cfg.get("scale") else "explicit", cfg.get("scale", 1.0))
        typed(ctx, opt, tr, cfg, f"after {t}", want)


def kept(ctx, cfg):
    """Values are not rounded to another data type on the way through a step.

    Conversions to lower precision are arbitrary functions here, so that a value that
    went through one cannot be equal to the original.
    """
    ctx.set_cast_mode("opaque")
    net, opt, per, want = make(ctx, cfg, lr_cov=0.0, weight_decay=0.0)
    m = net[0]
    for t in range(cfg.get("steps", 2)):
        reset_state(ctx, opt)
        for d, lb in ((opt.Ks, "K"), (opt.Cs, "C")):
            fill(ctx, d["0"], f"{lb}@{t}", 3, keep=True)
        fill_params(ctx, m, f"P@{t}", 3)
        for k, p in enumerate(m.parameters()):
            p.grad = None
        K, C = dense(ctx, opt.Ks["0"]), dense(ctx, opt.Cs["0"])
        if isinstance(m, nn.Conv2d):
            x = some_tensor(ctx, f"x@{t}", (1, 1, 3, 1), 1, dtype=m.weight.dtype)
        else:
            x = some_tensor(ctx, f"x@{t}", (2, m.in_features), 1, dtype=m.weight.dtype)
        y = m(x)
        y.backward(torch.ones_like(y))
        zero_grads(m)
        bufs = []
        for k, p in enumerate(m.parameters()):
            st = opt.state[p]
            if cfg.get("momentum", 0.5):
                if "momentum_buffer" not in st:
                    st["momentum_buffer"] = torch.zeros_like(p)
                st["momentum_buffer"].zero_()
        P0 = [ctx.read(p) for p in m.parameters()]
        opt.step()
        ctx.eq(f"K at {t}", opt.Ks["0"].to_dense(), K)
        ctx.eq(f"C at {t}", opt.Cs["0"].to_dense(), C)
        for k, (p, b) in enumerate(zip(m.parameters(), P0)):
            ctx.eq(f"parameter {k} at {t}", p, b)


def unrounded(ctx, cfg):
    """High-precision parameters and buffers are updated in their own precision."""
    ctx.set_cast_mode("opaque")
    net, opt, per, want = make(ctx, cfg, lr_cov=0.0)
    m = net[0]
    wd, mu, lr = cfg.get("wd", 0.0), cfg.get("momentum", 0.5), 0.5
    reset_state(ctx, opt)
    fill_params(ctx, m, "P", 3)
    bufs = []
    for k, p in enumerate(m.parameters()):
        b = torch.zeros_like(p.data)
        ctx.fill(b, f"buf{k}")
        opt.state[p]["momentum_buffer"] = b
        p.grad = torch.zeros_like(p.data)
        bufs.append(ctx.read(b))
    P0 = [ctx.read(p) for p in m.parameters()]
    start_at(opt, 1)
    opt.step()
    for k, (p, p0, b0) in enumerate(zip(m.parameters(), P0, bufs)):
        nb = b0 * ctx.num(mu) + p0 * ctx.num(wd)
        ctx.eq(f"buffer {k}", opt.state[p]["momentum_buffer"], nb)
        ctx.eq(f"parameter {k}", p, p0 - nb * ctx.num(lr))


def amp(ctx, cfg):
    """Forward pass with automatic mixed precision: inputs and gradients of other types."""
    net, opt, per, want = make(ctx, cfg)
    m = net[0]
    tr = Trainer(ctx, opt, per, tol=ctx.half_tol)
    for l in tr.L.values():
        l.dtypes = [p.dtype for p in l.params]
    l = tr.L["0"]
    for t in range(cfg.get("steps", 2)):
        tr.cut(n=1)
        tr.fresh_grads()
        with torch.no_grad():
            x, g = tr.data(l, (2,), "", 1, 1)
        with torch.autocast("cpu", dtype=DT[cfg["auto"]]):
            y = m(x)
        ctx.check("autocast output", y.dtype == DT[cfg["auto"]], y.dtype)
        y.backward(g.to(y.dtype))
        st = l.hy["structures"]
        if tr.active(l):
            l.HK = sandwich(ctx, st[0], l.K, input_moment(ctx, m, ctx.read(x), l.hy["kfac_approx"]))
            l.HC = sandwich(ctx, st[1], l.C, grad_moment(ctx, m, ctx.read(g), l.hy["loss_average"],
                                                         l.hy["kfac_approx"]))
        typed(ctx, opt, tr, cfg, f"pending {t}", want)
        tr.check_pending("amp")
        tr.grads = not tr.active(l)
        tr.step()
        typed(ctx, opt, tr, cfg, f"after {t}", want)


HARNESSES = {"train": train, "kept": kept, "unrounded": unrounded, "amp": amp}
DTS = [None, "f32", "bf16", "f16"]


def configs(tier):
    out = []
    deep = tier == "thorough"
    k = 0
    for dt in ("f32", "bf16", "f16", "f64"):
        for kd in outer(DTS, DTS):
            if dt == "f64" and None in kd:
                continue  # factors in f64 are rejected (explicitly unsupported)
            for par in (0, 1):
                k += 1
                st = (STRUCTS[k % 6], STRUCTS[(k // 6 + k) % 6])
                out.append(dict(h="train", dtype=dt, kdtype=kd, st=st,
                                layers=[(2, 1, True) if k % 2 else (1, 2, False)],
                                T=1 + par, steps=2 + par, wd=0.25 * (k % 3 == 0),
                                params=par, n=1 - par, nx=1 - par, ng=1,
                                approx=("expand", "reduce")[k % 2], shared=k % 2))
            k += 1
            st = (STRUCTS[k % 6], STRUCTS[(k // 6 + k) % 6])
            out.append(dict(h="train", dtype=dt, kdtype=kd, st=st, layers=["conv"], T=1,
                            steps=2, approx=("expand", "reduce")[k % 2], alpha1=0.0,
                            kfac_like=k % 2))
            out.append(dict(h="kept", dtype=dt, kdtype=kd, st=st, alpha1=0.5,
                            layers=["conv" if k % 3 == 0 else (2, 2, k % 2 == 0)], steps=2))
            out.append(dict(h="unrounded", dtype=dt, kdtype=kd, st=st, wd=0.25 * (k % 2),
                            layers=["conv" if k % 3 == 1 else (2, 2, k % 2 == 0)]))
            out.append(dict(h="train", dtype=dt, kdtype=kd, st=st, layers=[(1, 1, True)],
                            normalize=1, steps=1, n=0, nx=0, ng=0, params=1))
    for s in STRUCTS:
        for o in STRUCTS:
            k += 1
            dt = ("f32", "bf16", "f16")[k % 3]
            kd = (DTS[k % 4], DTS[(k // 4) % 4])
            out.append(dict(h="train", dtype=dt, kdtype=kd, st=(s, o),
                            layers=[(2, 2, True), (2, 1, False)], T=1, steps=2, micro=2,
                            scale=4.0 if k % 2 else 1.0))
    # layers of different data types, groups with types and structures of their own
    L3 = [(2, 1, True), (1, 2, False), "conv"]
    for k in range(6):
        types = [("f32", "bf16", "f16")[(k + j * (1 + k // 3)) % 3] for j in range(3)]
        a, b = (DTS[(k + 1) % 4], DTS[(k + 3) % 4]), (DTS[(k + 2) % 4], DTS[k % 4])
        s, o, u = (STRUCTS[(k + j) % 6] for j in range(3))
        for n in (0, 1):
            base = dict(h="train", dtype="f32", layers=L3, st=(s, o), kdtype=a, T=1 + n,
                        steps=2 + n, n=n, nx=n, params=1 - n, approx=("expand", "reduce")[k % 2])
            out.append(dict(base, dtypes=types))
            out.append(dict(base, groups=[([1], b, (o, u)), ([2, 0], None, None)]))
            out.append(dict(base, groups=[([2], None, (u, u)), ([0], b, None), ([1], a[::-1], None)],
                            dtypes=types))
    for auto in ("bf16", "f16"):
        for kd in outer(DTS, DTS):
            k += 1
            st = (STRUCTS[k % 6], STRUCTS[(k // 6 + k) % 6])
            out.append(dict(h="amp", auto=auto, dtype="f32", kdtype=kd, st=st,
                            layers=["conv" if k % 3 == 0 else (2, 1, k % 2 == 0)], T=1 + k % 2,
                            steps=2 + k % 2))
    return out
