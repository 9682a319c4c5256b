"""C23: the optimizer's state stays bounded and is flushed."""

from checks.trainer import *  # noqa: F403

PROP = "C23"
BOUNDS = (
    "up to five steps (thorough: six) after any number of earlier steps (symbolic, up to a "
    "million, or none); every step is one of: plain, scale given explicitly, scale given by "
    "a gradient scaler, un-scaled beforehand, overflow, overflow without backward, no "
    "gradients at all, gradients removed before the step or taken by autograd.grad (the choice is symbolic at up to four of the steps); evaluation passes, "
    "passes without backward and two forward passes in between; update periods 1-4; one to "
    "three layers in one or two groups; scales symbolic"
)
ASSUMPTIONS = [
    "a gradient scaler is represented by the attributes it sets (grad_scale, found_inf)",
]

KINDS = ("plain", "explicit", "scaler", "overflow", "unscale", "lost", "idle", "dropped",
         "functional")


def scalar_tensor(ctx, v):
    t = torch.zeros(())
    with torch.no_grad():
        ctx.write(t, ctx.scal(v))
    return t


def choose(ctx, t, options):
    """A symbolic choice, resolved by branching."""
    for k, o in enumerate(options[:-1]):
        if ctx.positive(ctx.num(ctx.scalar(f"choice{t}.{k}", sample=[-1.0, 1.0]))):
            return o
    return options[-1]


def passes(ctx, net, mods, kind, scale, cfg, overflow):
    def one(m):
        if isinstance(m, nn.Conv2d):
            x = torch.ones(1, m.in_channels, 3, 1)
        else:
            x = torch.ones(2, m.in_features)
        return m(x)

    if cfg.get("before"):
        with torch.no_grad():
            for m in mods:
                one(m)
        for m in mods:
            one(m)
    if kind in ("lost", "idle"):
        return
    for m in mods:
        for _ in range(cfg.get("micro", 1)):
            y = one(m)
            g = torch.full_like(y, 0.5)
            if scale is not None:
                g = g * scale
            if kind == "functional":  # gradients that never reach the parameters
                torch.autograd.grad(y, list(m.parameters()), g)
            else:
                y.backward(ctx.overflow(g) if overflow else g)
    if kind == "dropped":
        for p in mods[0].parameters():
            p.grad = None
    if cfg.get("after"):
        for m in mods:
            one(m)


def history(ctx, cfg):
    from singd.optim.optimizer import SINGD

    mods = []
    for d in cfg["layers"]:
        mods.append(nn.Conv2d(1, 1, (2, 1)) if d == "conv" else nn.Linear(*d))
    net = nn.Sequential(*mods)
    groups = []
    for members, over in cfg["groups"]:
        groups.append(dict(params=[p for k in members for p in mods[k].parameters()], **over))
    base = ctx.int("before", 1, 10**6) if cfg.get("offset") else 0
    with warnings.catch_warnings(record=True):
        opt = SINGD(net, params=groups, T=cfg["T"], init_grad_scale=cfg.get("init", 1.0),
                    structures=tuple(cfg["st"]), damping=0.5, momentum=0.5, alpha1=0.5,
                    loss_average="batch", lr_cov=0.125)
    reset_state(ctx, opt)
    per = {}
    for gi, (members, over) in enumerate(cfg["groups"]):
        for k in members:
            per[str(k)] = (gi, dict(dict(momentum=0.5, alpha1=0.5, T=cfg["T"]), **over))
    if cfg.get("offset"):
        # `older`: what an earlier step may have left behind
        start_at(opt, base, last=ctx.scalar2("scale-1") if cfg.get("sym") else 2.0,
                 **({"older": 4.0} if cfg.get("more") else {}))
    hooks = {k: len(m._forward_hooks) for k, m in enumerate(mods)}
    entries = keys = None
    for t in range(cfg["steps"]):
        reset_state(ctx, opt)
        for p in net.parameters():
            with torch.no_grad():
                p.fill_(0.5)
            p.grad = None
        options = cfg["kinds"][t % len(cfg["kinds"])]
        kind = options[0] if len(options) == 1 else choose(ctx, t, options)
        over = kind == "overflow"
        scale = None
        if kind in ("explicit", "scaler", "unscale", "overflow", "lost"):
            scale = ctx.scalar2(f"scale{t}") if cfg.get("sym") else 2.0 ** (t + 1)
        passes(ctx, net, mods, kind, scale, cfg, over)
        for k in opt.H_Ks.keys() | opt.H_Cs.keys():
            ctx.check(f"at {t}: pending only where due", k in opt.H_Ks and k in opt.H_Cs
                      and opt.steps % per[k][1]["T"] == 0)
        n = opt.steps
        if kind in ("explicit", "unscale") or (kind == "overflow" and t % 2):
            opt.set_current_grad_scale(scale)
        elif kind in ("scaler", "overflow", "lost"):
            opt.grad_scale = scalar_tensor(ctx, scale)
        if kind == "unscale":
            for p in net.parameters():
                if p.grad is not None:
                    p.grad.div_(scale)
            opt.grad_scale = None
        if kind not in ("plain", "explicit", "idle", "dropped", "functional"):
            opt.found_inf = torch.full((), 1.0 if kind in ("overflow", "lost") else 0.0)
        with warnings.catch_warnings(record=True):
            warnings.resetwarnings()
            opt.step()
        for a in ("grad_scale", "found_inf"):
            if hasattr(opt, a):
                delattr(opt, a)
        lb = f"after {t}"
        ctx.check(f"{lb}: counter advanced by one", opt.steps == n + 1, opt.steps)
        ctx.check(f"{lb}: no statistics pending", not opt.H_Ks and not opt.H_Cs,
                  f"{list(opt.H_Ks)} {list(opt.H_Cs)}")
        sc = scales_of(opt)
        if sc is not None:
            ctx.check(f"{lb}: at most two gradient scales", len(sc) <= 2, len(sc))
            if n in sc:
                ctx.eq(f"{lb}: last scale", sc[n], ctx.arr(1.0 if scale is None else scale))
        ctx.check(f"{lb}: factors", set(opt.Ks) == set(per) and set(opt.Cs) == set(per))
        for k, (gi, hy) in per.items():
            want = hy["alpha1"] != 0
            ctx.check(f"{lb}: Riemannian momentum of {k}",
                      (k in opt.m_Ks) == want and (k in opt.m_Cs) == want)
            for p in mods[int(k)].parameters():
                has = "momentum_buffer" in opt.state.get(p, {})
                ctx.check(f"{lb}: momentum of {k}", not has or hy["momentum"] != 0)
                ctx.check(f"{lb}: state of {k}", set(opt.state.get(p, {})) <= {"momentum_buffer"})
        for p in opt.state:
            ctx.check(f"{lb}: only parameters have state",
                      any(p is q for q in net.parameters()))
        ctx.check(f"{lb}: momenta only for layers",
                  set(opt.m_Ks) <= set(per) and set(opt.m_Cs) <= set(per))
        ctx.check(f"{lb}: hooks", hooks == {k: len(m._forward_hooks) for k, m in enumerate(mods)})
        size = {d: len(getattr(opt, d)) for d in STATE}
        ctx.check(f"{lb}: entries are constant", entries is None or entries == size, size)
        entries = size
        now = set(opt.state_dict())
        ctx.check(f"{lb}: saved state", keys is None or keys == now, now)
        keys = now
        # the largest tensors of the state are those of the factors
        for d in ("Ks", "Cs", "m_Ks", "m_Cs"):
            for k, mat in getattr(opt, d).items():
                dim = mat.to_dense().shape
                ctx.check(f"{lb}: size of {d}", dim == (opt.Ks if d.endswith("Ks") else opt.Cs)[
                    k].to_dense().shape)


HARNESSES = {"history": history}


def configs(tier):
    out = []
    deep = tier == "thorough"
    L2 = [(1, 2), (2, 1)]
    sets = [
        [["plain", "scaler", "overflow"]],
        [["plain", "explicit", "overflow"]],
        [["explicit", "scaler"], ["overflow", "plain"]],
        [["scaler"], ["unscale", "overflow"], ["explicit", "plain"]],
        [["idle", "plain"], ["scaler", "lost"]],
        [["overflow", "idle"], ["explicit", "lost", "scaler"]],
        [["dropped", "scaler"], ["functional", "plain"]],
        [list(KINDS), ["scaler", "plain", "overflow", "idle"]],
    ]
    if deep:
        sets.append([["explicit", "functional", "lost", "dropped"], list(KINDS)])
    g1 = [([0, 1], {})]
    g2 = [([1], dict(momentum=0.0)), ([0], dict(alpha1=0.0, T=2))]
    for T in (1, 2, 3, 4):
        for k, ks in enumerate(sets):
            n = 3 if len(ks) > 1 else (4 if deep else 3)
            if len(KINDS) in map(len, ks):
                n = 1  # plus one if there are several sets
            st = (STRUCTS[k % 6], STRUCTS[(k + T) % 6])
            out.append(dict(h="history", T=T, layers=L2, groups=g1, st=st, steps=n + (len(ks) > 1),
                            kinds=ks, offset=1, before=k % 2, after=1 - k % 2, cost=5))
            out.append(dict(h="history", T=T, layers=L2, groups=g2, st=st, steps=n,
                            kinds=ks, micro=2, before=1 - k % 2, cost=3))
            out.append(dict(h="history", T=T, layers=[(1, 1)], groups=[([0], {})], st=st,
                            steps=2, kinds=ks, offset=1, more=1, sym=1, cost=2))
        out.append(dict(h="history", T=T, layers=["conv", (1, 1), (2, 1)], steps=5 + deep,
                        groups=[([0], dict(T=T)), ([2, 1], dict(T=1, momentum=0.0, alpha1=0.0))],
                        st=("dense", "diagonal"), init=4.0,
                        kinds=[["plain"], ["scaler", "overflow"], ["explicit"],
                               ["overflow", "plain"], ["scaler"], ["unscale", "idle"]]))
        out.append(dict(h="history", T=T, layers=["conv", (1, 1)], steps=6,
                        groups=[([1], dict(alpha1=0.0)), ([0], dict(T=3))],
                        st=("triltoeplitz", "dense"), init=2.0,
                        kinds=[["explicit"], ["plain", "lost"], ["scaler"], ["idle", "explicit"]]))
    return out
