"""C24: normalised updates never exceed the preconditioner learning rate."""

from checks.trainer import *  # noqa: F403

PROP = "C24"
BOUNDS = (
    "fully-connected layers of width 1-3 and convolutions with 1-2 channels, all structures, "
    "factors that are an arbitrary multiple of the identity (bounds) or arbitrary (direction), "
    "preconditioner learning rate, Riemannian momentum and damping symbolic where marked, "
    "one to three entries of every momentum (or of the data) symbolic; two consecutive updates; "
    "gradient scales; schedules"
)
ASSUMPTIONS = ["exact arithmetic: rounding of the quotient is not considered"]


def entries(ctx, M, S):
    return [(i, M[i]) for i in np.ndindex(*M.shape) if S[i]]


def update(ctx, cfg):
    d = cfg["d"]
    if cfg.get("conv"):
        net = nn.Sequential(nn.Conv2d(d[0], d[1], (1, 1), bias=cfg.get("bias", False)))
    else:
        net = nn.Sequential(nn.Linear(d[0], d[1], bias=cfg.get("bias", False)))
    fill_params(ctx, net[0], "net", 0)
    beta = ctx.scalar("beta", positive=True) if cfg.get("beta") else 0.25
    a1 = cfg.get("alpha1", 0.5)
    if a1 == "sym":
        a1 = ctx.scalar("alpha1", positive=True, hi=1)
    lam = ctx.scalar("damping", lo=0, sample=[0.25, 0.5, 2.0]) if cfg.get("damping") else 0.25
    hy = dict(structures=tuple(cfg["st"]), normalize_lr_cov=True, alpha1=a1, damping=lam,
              lr_cov=(lambda step: beta) if cfg.get("schedule") else beta,
              kfac_like=bool(cfg.get("kfac_like")))
    init = 4.0 if cfg.get("scaled") else 1.0
    opt, _ = build(ctx, net, hy, init_scale=init)
    if cfg.get("twin"):
        # without Riemannian momentum the un-normalised change is that of a twin
        other = nn.Sequential(type(net[0])(d[0], d[1], (1, 1), bias=cfg.get("bias", False))
                              if cfg.get("conv") else
                              nn.Linear(d[0], d[1], bias=cfg.get("bias", False)))
        fill_params(ctx, other[0], "net", 0)
        topt, _ = build(ctx, other, dict(hy, normalize_lr_cov=False), init_scale=init)
    for t in range(cfg.get("steps", 1)):
        reset_state(ctx, opt)
        K0 = {}
        for which, D in (("K", opt.Ks), ("C", opt.Cs)):
            mat = D["0"]
            dim = mat.to_dense().shape[0]
            if cfg.get("general"):
                fill(ctx, mat, f"{which}@{t}", cfg["general"], keep=True)
            else:
                k = ctx.scalar(f"size{which}@{t}", positive=True) if cfg.get("size") == which else 0.5
                eye = cls_of(cfg["st"][which == "C"]).eye(dim)
                for (_, u), (_, v) in zip(mat.named_tensors(), eye.named_tensors()):
                    ctx.write(u, ctx.read(v) * ctx.num(k))
                K0[which] = ctx.num(k)
            m = (opt.m_Ks if which == "K" else opt.m_Cs).get("0")
            if m is not None and cfg.get("nm", 2):
                fill(ctx, m, f"m{which}@{t}", cfg.get("nm", 2), keep=True)
        if cfg.get("twin"):
            mirror_into(ctx, opt, topt)
        old = {"K": dense(ctx, opt.Ks["0"]), "C": dense(ctx, opt.Cs["0"])}
        shape = (2, d[0]) if not cfg.get("conv") else (1, d[0], 2, 1)
        gshape = (2, d[1]) if not cfg.get("conv") else (1, d[1], 2, 1)
        x = some_tensor(ctx, f"x@{t}", shape, cfg.get("nx", 0))
        g = some_tensor(ctx, f"g@{t}", gshape, cfg.get("ng", 0))
        if not cfg.get("nx"):
            with torch.no_grad():
                x *= cfg.get("big", 1.0)
        nets = [(net, opt)] + ([(other, topt)] if cfg.get("twin") else [])
        for nt, o in nets:
            for p in nt.parameters():
                p.grad = None
            nt(x).backward(g * 4.0 if cfg.get("scaled") else g)
            zero_grads(nt)
            if cfg.get("scaled"):
                o.set_current_grad_scale(4.0)
            o.step()
        for k, which in enumerate("KC"):
            S = support(cfg["st"][k], old[which].shape[0])
            new = dense(ctx, (opt.Ks if which == "K" else opt.Cs)["0"])
            D = new - old[which]
            if cfg.get("twin"):
                U = dense(ctx, (topt.Ks if which == "K" else topt.Cs)["0"]) - old[which]
                mom = None
                if not cfg.get("general"):
                    mom = -U * (ctx.inv(K0[which]) * ctx.inv(ctx.num(beta)))
            else:
                mom = dense(ctx, (opt.m_Ks if which == "K" else opt.m_Cs)["0"])
                U = -ctx.mm(old[which], mom) * ctx.num(beta)
            lb = f"{which} at {t}"
            # direction
            E_ = entries(ctx, D, S)
            for n, (i, a) in enumerate(E_):
                if n + 1 < len(E_):
                    j, b = E_[n + 1]
                    ctx.eq(f"{lb}: direction {i} {j}", as_arr(a * U[j]), as_arr(b * U[i]))
            if cfg.get("general") or mom is None:
                continue
            # bound and equality
            unit = ctx.inv(K0[which]) * ctx.inv(ctx.num(beta))
            one = ctx.frac(1)
            small_ = True
            for i, v in entries(ctx, mom, S):
                if ctx.positive(v - one) or ctx.positive(-v - one):
                    small_ = False
                    break
            tol = ctx.num(0.0 if ctx.sym else 1e-4)
            for i, v in E_:
                r = v * unit
                ctx.check(f"{lb}: bound {i}", not ctx.positive(r - one - tol)
                          and not ctx.positive(-r - one - tol))
                ctx.check(f"{lb}: sign {i}", not ctx.positive(r * mom[i] - tol))
                if small_:
                    ctx.eq(f"{lb}: full change {i}", as_arr(v), as_arr(U[i]))


def as_arr(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def mirror_into(ctx, A, B):
    for d in ("Ks", "Cs", "m_Ks", "m_Cs"):
        for nm, m in getattr(A, d).items():
            for (_, u), (_, v) in zip(m.named_tensors(), getattr(B, d)[nm].named_tensors()):
                ctx.write(v, ctx.read(u))


HARNESSES = {"update": update}


def configs(tier):
    out = []
    deep = tier == "thorough"
    for k, s in enumerate(STRUCTS):
        o = STRUCTS[(k + 1) % 6]
        base = dict(h="update", st=(s, o))
        for d, nm in (((1, 1), 1), ((2, 1), 2), ((1, 2), 2), ((2, 2), 2)):
            out.append(dict(base, d=d, nm=nm, cost=3))
            out.append(dict(base, d=d, nm=1, beta=1, size=None if d == (1, 2) else "KC"[k % 2], big=0.25))
            out.append(dict(base, d=d, nm=1, beta=1, size="CK"[k % 2], big=4.0))
        out.append(dict(base, d=(1, 1), nm=0, alpha1="sym"))
        out.append(dict(base, d=(2, 1), nm=1, damping=1))
        out.append(dict(base, d=(2, 2), nm=1, bias=True, schedule=1, beta=1))
        out.append(dict(base, d=(2, 1), nm=1, kfac_like=1, alpha1=0.0, twin=1))
        out.append(dict(base, d=(2, 1), nm=1, scaled=1, beta=1))
        out.append(dict(base, d=(2, 1), nm=1, conv=1, bias=True, beta=1))
        out.append(dict(base, d=(2, 2), nm=1, general=1))
        out.append(dict(base, d=(3, 2), nm=1, general=1, beta=1))
        out.append(dict(base, d=(1, 1), steps=2, nm=1))
        out.append(dict(base, d=(1, 1), alpha1=0.0, twin=1, nx=1, ng=0, beta=1))
        out.append(dict(base, d=(1, 1), alpha1=0.0, twin=1, nx=0, ng=1))
        out.append(dict(base, d=(2, 2), alpha1=0.0, twin=1, nx=0, ng=0, beta=1))
        out.append(dict(base, d=(2, 2), alpha1=0.0, twin=1, nx=0, ng=0, beta=1, big=4.0))
        out.append(dict(base, d=(2, 1), alpha1=0.0, twin=1, nx=1, general=1))
        out.append(dict(base, d=(2, 1), nm=0, kfac_like=1, alpha1=0.0, twin=1, beta=1, big=8.0))
        out.append(dict(base, d=(1, 2), nm=0, kfac_like=1, alpha1=0.0, twin=1, nx=0, ng=1,
                        size="CK"[k % 2], big=8.0))
        out.append(dict(base, d=(1, 1), nm=0, kfac_like=1, alpha1=0.0, twin=1, nx=1, big=8.0))
        if deep:
            out.append(dict(base, d=(3, 3), nm=3, beta=1))
            out.append(dict(base, d=(2, 2), alpha1=0.0, twin=1, nx=1, ng=1))
            out.append(dict(base, d=(2, 3), steps=2, nm=2, beta=1))
    return out
