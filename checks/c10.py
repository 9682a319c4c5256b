"""C10: statistics and preconditioner updates happen exactly every T steps."""

from checks.trainer import *  # noqa: F403

PROP = "C10"
BOUNDS = (
    "update periods 1-5, up to 2T+2 steps from the start and T+1 steps after any number (up to a million) of earlier steps, two-layer models (optionally in parameter groups with periods of their own, optionally changed during training) with layer "
    "widths 1-2 (convolutions with 2x1 kernels); evaluation passes and passes without "
    "backward before, between and after the backward pass; factors, momenta, parameters, "
    "inputs and output gradients partly or fully symbolic at every step"
)


def history(ctx, cfg):
    if cfg.get("conv"):
        net = nn.Sequential(nn.Conv2d(1, 1, (2, 1)), nn.Conv2d(1, 2, (1, 1), bias=False))
        for k, m in enumerate(net):
            fill_params(ctx, m, f"net{k}", 1)
    else:
        net = small(ctx, *cfg.get("dims", (1, 2, 1)), bias=cfg.get("bias", True))
    hy = dict(T=cfg["T"], structures=cfg["st"], kfac_approx=cfg.get("approx", "expand"),
              alpha1=cfg.get("alpha1", 0.5), kfac_like=bool(cfg.get("kfac_like")),
              lr_cov=cfg.get("lr_cov", 0.25))
    if cfg.get("schedule"):
        vals = {}

        def lr_cov(step):
            if step not in vals:
                vals[step] = ctx.scalar(f"beta{step}", positive=True)
            return vals[step]

        hy["lr_cov"] = lr_cov
    groups = None
    if "Ts" in cfg:  # one parameter group per layer, in the given order
        groups = [([str(k)], {} if T is None else dict(T=T)) for k, T in cfg["Ts"]]
    opt, per = build(ctx, net, hy, groups=groups)
    base = ctx.int("before", 1, 10**6) if cfg.get("offset") else 0
    tr = Trainer(ctx, opt, per, n=cfg.get("n", 1), base=base)
    passes = cfg.get("passes", "bma")
    for t in range(cfg["steps"]):
        tr.cut()
        tr.fresh_grads()
        for k, T in cfg.get("change", {}).get(t, ()):
            # the user changes the period of a group during training
            opt.param_groups[k]["T"] = T
            for nm, l in tr.L.items():
                if "Ts" not in cfg or cfg["Ts"][k][0] == int(nm):
                    l.hy["T"] = T
        # (parameters at update steps are the subject of C09)
        tr.grads = "inactive"
        if "v" in passes:  # fine-tuning with dropout and batch norm in evaluation mode
            net.train(t % 2 == 1)
        before = snapshot(ctx, opt)
        if "b" in passes:
            tr.evaluate("e0")
            tr.check_pending("evaluation only")
        tr.backward(((2,),) * cfg.get("micro", 1), nx=cfg.get("nx", 1), ng=cfg.get("ng", 1),
                    between="i" in passes)
        tr.check_pending("backward")
        if "m" in passes:
            tr.evaluate("e1")
            tr.check_pending("evaluation after backward")
        same_snapshot(ctx, f"passes at {t} keep", snapshot(ctx, opt, ("H_Ks", "H_Cs")), before)
        tr.step()
        if "a" in passes:
            after = snapshot(ctx, opt)
            tr.t, tr.k = tr.t - 1, tr.k - 1
            tr.evaluate("e2")
            tr.t, tr.k = tr.t + 1, tr.k + 1
            same_snapshot(ctx, f"evaluation after {t}", snapshot(ctx, opt), after)


def modes(ctx, cfg):
    """Disabled gradients in all their forms contribute nothing."""
    net = small(ctx, 2, 1)
    opt, per = build(ctx, net, dict(T=cfg["T"]))
    tr = Trainer(ctx, opt, per)
    x = some_tensor(ctx, "xx", (2, 2), 2)
    for t in range(3):
        tr.fresh_grads()
        with torch.no_grad():
            net(x)
            net[0](x)
        with torch.enable_grad():
            net(x)
        with torch.set_grad_enabled(False):
            net(x)
        net.eval()
        net(x)
        net.train()
        tr.check_pending("no backward")
        tr.backward(nx=1, ng=1)
        tr.check_pending("backward")
        tr.zero_grads()
        tr.step()
        reset_state(ctx, opt)
        tr.read()


HARNESSES = {"history": history, "modes": modes}


def configs(tier):
    out = []
    deep = tier == "thorough"
    for T in range(1, 6 if not deep else 8):
        for k, s in enumerate(STRUCTS):
            o = STRUCTS[(k + T) % 6]
            out.append(dict(h="history", T=T, st=(s, o), steps=2 * T + 2, cost=T))
            out.append(dict(h="history", T=T, st=(o, s), steps=T + 2, n=9, nx=4, ng=4,
                            dims=(1, 2), cost=T))
            out.append(dict(h="history", T=T, st=(o, s), steps=T + 1, offset=1, cost=T))
        out.append(dict(h="modes", T=T))
        for ap in ("expand", "reduce"):
            out.append(dict(h="history", T=T, st=("dense", "diagonal"), steps=T + 2, conv=1,
                            approx=ap, cost=T))
        out.append(dict(h="history", T=T, st=("dense", "dense"), steps=T + 2, alpha1=0.0))
        out.append(dict(h="history", T=T, st=("dense", "dense"), steps=2 * T + 1,
                        schedule=1, passes=""))
        out.append(dict(h="history", T=T, st=("diagonal", "dense"), steps=T + 1,
                        kfac_like=1, micro=2))
        U = T % 3 + 2
        for k, Ts in enumerate(([(0, T), (1, U)], [(1, U), (0, T)], [(0, None), (1, U)],
                                [(1, None), (0, U)])):
            out.append(dict(h="history", T=T, Ts=Ts, st=(STRUCTS[(k + T) % 6], "dense"),
                            steps=max(T, U) + 2, passes="bma"[: 1 + k % 3], cost=T))
        out.append(dict(h="history", T=T, Ts=[(0, U), (1, None)], st=("dense", "diagonal"),
                        steps=T + 1, offset=1, cost=T))
        out.append(dict(h="history", T=T, st=("dense", "dense"), steps=T + 4,
                        change={2: [(0, U)], T + 1: [(0, 1)]}, cost=T))
        out.append(dict(h="history", T=T, Ts=[(1, T), (0, U)], st=("dense", "dense"),
                        steps=T + 4, change={1: [(0, U)], 3: [(1, T), (0, 1)]}, cost=T))
        for ps in ("b", "m", "a", "bm", "i", "bi", "v", "bmav"):
            out.append(dict(h="history", T=T, st=("dense", "triltoeplitz"), steps=T + 1,
                            passes=ps, bias=False))
    return out
