"""C08: the preconditioner follows the documented update law."""

from checks.common import *  # noqa: F403
from checks.model import *  # noqa: F403

PROP = "C08"
BOUNDS = (
    "one update from an arbitrary state (factors, momenta, statistics all symbolic) for "
    "factor dimensions 1-4 of all structure pairs, and up to 131 with part of the entries "
    "symbolic; damping, Riemannian momentum, preconditioner learning rate symbolic; "
    "histories of three updates from the initial state whose intermediate statistics are "
    "symbolic; step-dependent learning rates as arbitrary functions of the step"
)


def setup(ctx, cfg, layer):
    from singd.optim.optimizer import SINGD

    hyper = dict(
        damping=ctx.scalar("damping"),
        alpha1=ctx.scalar("alpha1", positive=True) if cfg.get("alpha", True) else 0.0,
    )
    if cfg.get("kfac_like") or not cfg.get("alphas", (1,))[0]:
        hyper["alpha1"] = 0.0
    if cfg.get("schedule"):
        betas = {}

        def lr_cov(step):
            if step not in betas:
                betas[step] = ctx.scalar(f"beta{step}", positive=True)
            return betas[step]

        value = lr_cov
        hyper["lr_cov"] = lr_cov
    else:
        b = ctx.scalar("beta", positive=True)
        hyper["lr_cov"] = b

        def value(step):
            return b

    opt = SINGD(
        layer, structures=tuple(cfg["st"]), T=cfg.get("T", 1),
        kfac_like=bool(cfg.get("kfac_like")),
        normalize_lr_cov=bool(cfg.get("normalize")), lr=0.5, momentum=0.0, **hyper,
    )
    return opt, hyper, value


def zero_mat(ctx, M):
    return ctx.zeros(*M.shape)


def step_once(ctx, cfg, opt, layer, hyper, value, t, n, fill_all):
    """Backward, overwrite the state by unknowns, step, compare with the law."""
    st = cfg["st"]
    d_in, d_out = cfg["d"]
    T = cfg.get("T", 1)
    update = t % T == 0
    before = {}
    if "alphas" in cfg:  # the user changes the Riemannian momentum between steps
        on = cfg["alphas"][t]
        hyper["alpha1"] = ctx.scalar(f"alpha1@{t}", positive=True) if on else 0.0
        opt.param_groups[0]["alpha1"] = hyper["alpha1"]
    mom = not (isinstance(hyper["alpha1"], float) and hyper["alpha1"] == 0.0)
    for nm, k in (("K", opt.Ks), ("C", opt.Cs)):
        before[nm] = fill_state(ctx, k[""], f"{nm}{t}", n) if fill_all else dense(ctx, k[""])
    if mom:
        for nm, k in (("mK", opt.m_Ks), ("mC", opt.m_Cs)):
            before[nm] = (
                None if "" not in k  # no momentum yet
                else fill_state(ctx, k[""], f"{nm}{t}", n) if fill_all
                else dense(ctx, k[""])
            )
    else:
        before["mK"] = before["mC"] = None
    x = torch.ones(2, d_in)
    layer.zero_grad()
    layer(x).sum().backward()
    if update:
        for nm, k in (("HK", opt.H_Ks), ("HC", opt.H_Cs)):
            before[nm] = fill_state(ctx, k[""], f"{nm}{t}", n)
    zero_grads(layer)  # parameters are the subject of C09
    opt.step()
    if not update:
        ctx.eq(f"K kept at {t}", opt.Ks[""].to_dense(), before["K"])
        ctx.eq(f"C kept at {t}", opt.Cs[""].to_dense(), before["C"])
        if mom and before["mK"] is not None:
            ctx.eq(f"m_K kept at {t}", opt.m_Ks[""].to_dense(), before["mK"])
            ctx.eq(f"m_C kept at {t}", opt.m_Cs[""].to_dense(), before["mC"])
        return
    K, C, mK, mC = precond_update(
        ctx, st, before["K"], before["C"], before["mK"], before["mC"], before["HK"],
        before["HC"], lr_cov=value(t), damping=hyper["damping"], alpha1=hyper["alpha1"],
        kfac_like=bool(cfg.get("kfac_like")), normalize=bool(cfg.get("normalize")),
    )
    ctx.eq(f"K after {t}", opt.Ks[""].to_dense(), K)
    ctx.eq(f"C after {t}", opt.Cs[""].to_dense(), C)
    if mom:
        ctx.eq(f"m_K after {t}", opt.m_Ks[""].to_dense(), mK)
        ctx.eq(f"m_C after {t}", opt.m_Cs[""].to_dense(), mC)
        same_class(ctx, f"m_K {t}", opt.m_Ks[""], st[0], F32)
        same_class(ctx, f"m_C {t}", opt.m_Cs[""], st[1], F32)
    elif "alphas" not in cfg:
        ctx.check("no momenta", not opt.m_Ks and not opt.m_Cs)
    same_class(ctx, f"K {t}", opt.Ks[""], st[0], F32)
    same_class(ctx, f"C {t}", opt.Cs[""], st[1], F32)


def one_update(ctx, cfg):
    layer = new_linear(ctx, *cfg["d"], cfg.get("bias", True), "W", count=0)
    opt, hyper, value = setup(ctx, cfg, layer)
    t0 = cfg.get("t0", 0)
    for t in range(t0):
        layer.zero_grad()
        layer(torch.ones(1, cfg["d"][0])).sum().backward()
        zero_grads(layer)
        opt.step()
        reset_state(ctx, opt)
    step_once(ctx, cfg, opt, layer, hyper, value, t0, cfg.get("n"), True)


def history(ctx, cfg):
    """From the initial state: identity factors and zero momenta, then the law."""
    layer = new_linear(ctx, *cfg["d"], cfg.get("bias", True), "W", count=0)
    opt, hyper, value = setup(ctx, cfg, layer)
    K, C = dense(ctx, opt.Ks[""]), dense(ctx, opt.Cs[""])
    dK, dC = cfg["d"][0] + bool(cfg.get("bias", True)), cfg["d"][1]
    ctx.eq("initial K", K, ctx.eye(dK))
    ctx.eq("initial C", C, ctx.eye(dC))
    if opt.m_Ks:
        ctx.eq("initial m_K", opt.m_Ks[""].to_dense(), ctx.zeros(dK, dK))
        ctx.eq("initial m_C", opt.m_Cs[""].to_dense(), ctx.zeros(dC, dC))
    for t in range(cfg["steps"]):
        step_once(ctx, cfg, opt, layer, hyper, value, t, cfg.get("n"),
                  bool(t > cfg.get("free", 1)))


HARNESSES = {"update": one_update, "history": history}


def configs(tier):
    out = []
    deep = tier == "thorough"
    for a, b in outer(STRUCTS, STRUCTS):
        out.append(dict(h="update", st=(a, b), d=(2, 2)))
        out.append(dict(h="update", st=(a, b), d=(2, 3), kfac_like=1))
    for k, s in enumerate(STRUCTS):
        o = STRUCTS[(k + 1) % 6]
        for d in ((1, 1), (1, 2), (3, 2), (3, 4)):
            out.append(dict(h="update", st=(s, o), d=d, cost=5))
        out.append(dict(h="update", st=(s, o), d=(2, 2), bias=False, alpha=False))
        out.append(dict(h="update", st=(s, o), d=(2, 2), schedule=1, t0=k % 4))
        out.append(dict(h="update", st=(s, o), d=(1, 2), normalize=1, cost=50))
        out.append(dict(h="update", st=(s, o), d=(1, 1), normalize=1, kfac_like=1,
                        schedule=1, t0=1, cost=5))
        out.append(dict(h="history", st=(s, o), d=(1, 2), steps=3, schedule=k % 2, cost=5))
        out.append(dict(h="history", st=(o, s), d=(2, 1), steps=5, T=2, schedule=1,
                        free=2, cost=5))
        for al in ((0, 1, 1), (0, 0, 1), (1, 1, 0), (1, 0)):
            out.append(dict(h="history", st=(s, o), d=(1, 2), steps=len(al), alphas=al,
                            T=1, cost=5))
        out.append(dict(h="history", st=(s, o), d=(1, 2), steps=4, alphas=(0, 1, 1, 1), T=2,
                        cost=5))
        for d in ((30, 31), (15, 16), (60, 2), (31, 33)) if deep else ((30, 31), (16, 33)):
            out.append(dict(h="update", st=(s, s), d=d, n=3, cost=20))
        out.append(dict(h="update", st=(s, "diagonal"), d=(15, 2), n=3, kfac_like=1, cost=9))
        for d in ((64, 1), (1, 97), (130, 1)):
            out.append(dict(h="update", st=(s, s), d=d, n=2, cost=50, kfac_like=k % 2))
    if deep:
        for a, b in outer(STRUCTS, STRUCTS):
            for k in range(2):
                out.append(dict(h="update", st=(a, b), d=(3, 3), schedule=k, t0=2 * k,
                                bias=bool(k)))
                out.append(dict(h="update", st=(a, b), d=(1, 2), normalize=1, kfac_like=k))
                out.append(dict(h="history", st=(a, b), d=(2, 2), steps=7, T=3, schedule=1,
                                kfac_like=k, free=3))
    return out
