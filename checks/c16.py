"""C16: parameter groups are isolated and honoured."""

from checks.trainer import *  # noqa: F403

PROP = "C16"
BOUNDS = (
    "two to four layers (widths 1-2, fully-connected and one small convolution) in two or "
    "three groups in any order, up to three steps with values of one group changed between "
    "steps; learning rates, damping, momenta, weight decay, preconditioner learning rates "
    "symbolic where marked; factors, momenta, parameters, inputs, gradients partly symbolic"
)
ASSUMPTIONS = ["structures and data types of a group are fixed at construction"]

# alternative values of every hyper-parameter
ALT = dict(
    lr=[0.5, 0.25, 0.125], momentum=[0.5, 0.0, 0.25], damping=[0.25, 1.0, 0.0],
    alpha1=[0.5, 0.25, 0.0], weight_decay=[0.0, 0.25, 0.125], T=[1, 2, 3],
    loss_average=["batch", None, "batch+sequence"], lr_cov=[0.25, 0.5, 0.125],
    structures=[("dense", "diagonal"), ("diagonal", "triltoeplitz"),
                ("triutoeplitz", "dense")],
    kfac_approx=["expand", "reduce", "expand"], kfac_like=[False, True, False],
    normalize_lr_cov=[False, True, False],
    preconditioner_dtype=[(None, None), (BF16, F32), (F32, BF16)],
)
NUMBERS = ("lr", "momentum", "damping", "alpha1", "weight_decay", "lr_cov")


def network(ctx, cfg):
    mods = []
    for k, d in enumerate(cfg["layers"]):
        if d == "conv":
            mods.append(nn.Conv2d(1, 1, (2, 1)))
        else:
            mods.append(nn.Linear(d[0], d[1], bias=d[2]))
        fill_params(ctx, mods[-1], f"net{k}", cfg.get("n", 1))
    if cfg.get("nested"):
        net = nn.Sequential(nn.Sequential(*mods[:1]), nn.ModuleDict({"a": nn.Sequential(*mods[1:])}))
    else:
        net = nn.Sequential(*mods)
    names = {m: n for n, m in net.named_modules()}
    return net, [names[m] for m in mods]


def symbolic(ctx, cfg, key, gi, v):
    if key in cfg.get("sym", ()) and v != 0 and not isinstance(v, bool):
        hi = {"lr": None, "damping": None}.get(key, 1)
        return ctx.scalar(f"{key}{gi}", positive=True, hi=hi)
    return v


def scheduler(ctx, opt, kind):
    """Learning-rate schedulers of PyTorch, with arbitrary factors where they are free."""
    from torch.optim import lr_scheduler as S

    if kind == "lambda":  # arbitrary factor per group and step
        fs = {}

        def factor(g):
            def f(t):
                if t == 0:
                    return 1.0
                if (g, t) not in fs:
                    fs[g, t] = ctx.scalar(f"factor{g}@{t}", positive=True, hi=2)
                return fs[g, t]
            return f

        return S.LambdaLR(opt, [factor(g) for g in range(len(opt.param_groups))])
    if kind == "step":
        return S.StepLR(opt, step_size=2, gamma=0.5)
    if kind == "warmup":
        return S.SequentialLR(opt, [S.LinearLR(opt, 0.25, total_iters=2),
                                    S.ExponentialLR(opt, 0.5)], milestones=[2])
    if kind == "cyclic":  # also cycles the momentum
        return S.OneCycleLR(opt, max_lr=[0.5, 0.25], total_steps=8, base_momentum=0.25,
                            max_momentum=0.75)
    raise KeyError(kind)


def groups(ctx, cfg):
    net, names = network(ctx, cfg)
    defaults = {}
    spec = []
    for gi, (members, over) in enumerate(cfg["groups"]):
        o = {}
        for key, alt in over.items():
            v = ALT[key][alt]
            if key == "lr_cov" and cfg.get("schedule"):
                # different user-supplied schedules, as uninterpreted functions
                o[key] = ctx.uf(f"schedule{gi}", lambda t, g=gi: 0.5 / (1.0 + g + float(t)))
            else:
                o[key] = symbolic(ctx, cfg, key, gi, v)
        spec.append(([names[m] for m in members], o))
    with warnings.catch_warnings(record=True):
        opt, per = build(ctx, net, defaults, groups=spec)
    half = any("preconditioner_dtype" in over for _, over in cfg["groups"])
    tr = Trainer(ctx, opt, per, n=cfg.get("n", 1), tol=ctx.half_tol if half else None)
    left = [names[k] for k in range(len(names)) if names[k] not in per]
    mods = dict(net.named_modules())
    ctx.check("layers in no group are not observed",
              not any(n in d for n in left for d in (opt.Ks, opt.Cs, opt.m_Ks, opt.m_Cs)))
    for gi, (members, o) in enumerate(cfg["groups"]):
        for key in o:
            if key != "alpha1" and not cfg.get("schedule"):
                ctx.check(f"group {gi} keeps {key}",
                          opt.param_groups[gi][key] is spec[gi][1][key]
                          or opt.param_groups[gi][key] == spec[gi][1][key])
    order = list(tr.L)
    sched = None
    if "scheduler" in cfg:
        with warnings.catch_warnings(record=True):
            sched = scheduler(ctx, opt, cfg["scheduler"])
    for t in range(cfg["steps"]):
        if sched is not None:
            for gi, (members, _) in enumerate(cfg["groups"]):
                for m in members:
                    tr.L[names[m]].hy["lr"] = sched.get_last_lr()[gi]
                    tr.L[names[m]].hy["momentum"] = opt.param_groups[gi]["momentum"]
        for gi, key, alt in [c[1:] for c in cfg.get("changes", ()) if c[0] == t]:
            v = ALT[key][alt]
            if cfg.get("symchange"):
                v = ctx.scalar(f"new{key}@{t}", positive=True, hi=1)
            opt.param_groups[gi][key] = v
            for m in cfg["groups"][gi][0]:
                tr.L[names[m]].hy[key] = v
        tr.cut(n=cfg.get("n", 1), momenta=True)
        tr.fresh_grads()
        tr.backward(shapes=((2, 2),) if cfg.get("shared") else ((2,),),
                    nx=cfg.get("nx", 1), ng=1,
                    names=order if t % 2 == 0 else order)
        if cfg.get("idle") and left:
            # layers outside of all groups run as well and are left alone
            for n in left:
                m = mods[n]
                x = torch.ones(1, 1, 3, 2) if isinstance(m, nn.Conv2d) else torch.ones(2, m.in_features)
                m(x).sum().backward()
        tr.check_pending("group")
        before = {n: [ctx.read(p) for p in mods[n].parameters()] for n in left}
        if cfg.get("nograd"):
            for l in tr.L.values():
                if tr.active(l):
                    zero_grads(l.mod)
        tr.step()
        if sched is not None:
            with warnings.catch_warnings(record=True):
                sched.step()
        for n in left:
            for p, b in zip(mods[n].parameters(), before[n]):
                ctx.eq(f"layer {n} outside of all groups", p, b)


def alone(ctx, cfg):
    """A layer in a multi-group model moves exactly like the same layer alone."""
    hy = [{k: ALT[k][a] for k, a in h.items()} for h in cfg["hyper"]]
    net, names = network(ctx, dict(cfg, n=0))
    tol = ctx.half_tol if any("preconditioner_dtype" in h for h in cfg["hyper"]) else None
    spec = [([names[i]], hy[i]) for i in cfg["order"]]
    singles = []
    with warnings.catch_warnings(record=True):
        opt, _ = build(ctx, net, {}, groups=spec)
        for i in range(len(hy)):
            d = cfg["layers"][i]
            m = nn.Sequential(nn.Conv2d(1, 1, (2, 1)) if d == "conv"
                              else nn.Linear(d[0], d[1], bias=d[2]))
            so, _ = build(ctx, m, hy[i])
            singles.append((m, so))
    mods = dict(net.named_modules())
    for t in range(cfg["steps"]):
        reset_state(ctx, opt)
        for _, so in singles:
            reset_state(ctx, so)
        for i, (m, so) in enumerate(singles):
            mine = mods[names[i]]
            for d in ("Ks", "Cs", "m_Ks", "m_Cs"):
                if cfg.get("n") and names[i] in getattr(opt, d):
                    a, b = getattr(opt, d)[names[i]], getattr(so, d)["0"]
                    fill(ctx, a, f"{d}{i}@{t}", cfg["n"], keep=True)
                    for (_, u), (_, v) in zip(a.named_tensors(), b.named_tensors()):
                        ctx.write(v, ctx.read(u))
            for p, q in zip(mine.parameters(), m.parameters()):
                with torch.no_grad():
                    ctx.write(q, ctx.read(p))
                p.grad = q.grad = None
            if isinstance(mine, nn.Conv2d):
                x = some_tensor(ctx, f"x{i}@{t}", (1, 1, 3, 2), cfg.get("n", 0))
                g = some_tensor(ctx, f"g{i}@{t}", (1, 1, 2, 2), cfg.get("ng", 1))
            else:
                x = some_tensor(ctx, f"x{i}@{t}", (2, 2, mine.in_features), cfg.get("n", 0))
                g = some_tensor(ctx, f"g{i}@{t}", (2, 2, mine.out_features), cfg.get("ng", 1))
            mine(x).backward(g)
            m[0](x).backward(g)
            if cfg.get("n") and t % ALT["T"][cfg["hyper"][i].get("T", 0)] == 0:
                zero_grads(mine, m[0])
        opt.step()
        for i, (m, so) in enumerate(singles):
            so.step()
            for d in STATE:
                a, b = getattr(opt, d).get(names[i]), getattr(so, d).get("0")
                ctx.check(f"{d} of layer {i} at {t}", (a is None) == (b is None))
                if a is not None and b is not None:
                    ctx.check(f"class of {d} {i}", type(a) is type(b))
                    ctx.check(f"data type of {d} {i}", a.to_dense().dtype == b.to_dense().dtype)
                    ctx.eq(f"{d} of layer {i} at {t}", a.to_dense(), ctx.arr(b.to_dense()), tol)
            for k, (p, q) in enumerate(zip(mods[names[i]].parameters(), m.parameters())):
                ctx.eq(f"parameter {k} of layer {i} at {t}", p, ctx.arr(q), tol)


HARNESSES = {"groups": groups, "alone": alone}
L3 = [(1, 2, True), (2, 1, True), (1, 2, False)]


def pairwise():
    """Mixes of hyper-parameters such that every pair of values occurs in some layer."""
    keys = list(ALT)
    todo = {((a, i), (b, j)) for x, a in enumerate(keys) for b in keys[x + 1:]
            for i in range(3) for j in range(3)}
    rows = []
    k = 0
    while todo:
        (a, i), (b, j) = min(todo, key=str)
        row = {a: i, b: j}
        for c in keys:
            if c not in row:
                row[c] = max(range(3), key=lambda v: (sum(
                    tuple(sorted([(c, v), (d, row[d])], key=lambda q: keys.index(q[0]))) in todo
                    for d in row), -((v + k) % 3)))
        todo -= {(p, q) for p in row.items() for q in row.items()}
        rows.append(row)
        k += 1
    return rows


def configs(tier):
    out = []
    deep = tier == "thorough"
    # every hyper-parameter differs between groups on its own
    for key in ALT:
        for par in (0, 1):
            a = (1, 2) if par else (2, 1)
            out.append(dict(h="groups", layers=[(1, 2, True), (1, 2, True)],
                            groups=[([1], {key: a[0]}), ([0], {key: a[1]})], steps=3 if key == "T" else 1 if key.startswith("norm") else 2,
                            n=1 - par, nx=1 - par, nograd=1 - par, shared=1))
    # symbolic values
    for keys in (("lr", "weight_decay"), ("damping",), ("alpha1", "lr_cov"), ("momentum",)):
        for par in (0, 1):
            out.append(dict(h="groups", layers=[(1, 2, True), (2, 1, False)], sym=list(keys),
                            groups=[([0], {k: 0 if k != "weight_decay" else 1 for k in keys}),
                                    ([1], {k: 0 if k != "weight_decay" else 2 for k in keys})],
                            steps=2, n=0 if par else 1, nx=0, nograd=1 - par))
    # values changed between steps
    for key in NUMBERS + ("T", "loss_average", "kfac_approx", "normalize_lr_cov"):
        for gi in (0, 1):
            out.append(dict(h="groups", layers=L3,
                            groups=[([0, 2], {key: 0}), ([1], {key: 0})], shared=1,
                            changes=[[1, gi, key, 1], [2, gi, key, 2]], steps=3,
                            n=gi, nx=gi, nograd=gi))
            if key in ("lr", "damping", "weight_decay", "momentum", "lr_cov"):
                out.append(dict(h="groups", layers=L3[:2], symchange=1,
                                groups=[([0], {key: 0}), ([1], {key: 0})],
                                changes=[[1, gi, key, 1]], steps=2, n=0, nx=0))
    for gi in (0, 1):
        out.append(dict(h="groups", layers=L3[:2], groups=[([0], dict(alpha1=2)), ([1], dict(alpha1=2, lr=1))],
                        changes=[[1, gi, "alpha1", 0], [2, 1 - gi, "alpha1", 1]], steps=4,
                        n=gi, nx=gi, nograd=gi))
        out.append(dict(h="groups", layers=L3[:2], schedule=1, n=1, nograd=1,
                        groups=[([0], {"lr_cov": 0, "T": gi}), ([1], {"lr_cov": 0})], steps=3))
    # learning rates under PyTorch's schedulers
    for kind in ("lambda", "step", "warmup", "cyclic"):
        for n in (0, 1):
            out.append(dict(h="groups", layers=[(1, 2, True), (2, 1, True), (1, 1, False)],
                            groups=[([1], dict(lr=1, T=1)), ([0, 2], dict(momentum=1 + n))],
                            scheduler=kind, steps=4, n=n, nx=n, nograd=n))
    # several layers per group, layers in no group, nested containers
    out.append(dict(h="groups", layers=[(1, 1, True)] * 4, idle=1, steps=2, n=1, nograd=1,
                    groups=[([2], dict(T=1, lr=1)), ([3, 0], dict(T=0, momentum=1))]))
    out.append(dict(h="groups", layers=[(1, 1, True)] * 4, idle=1, steps=2, n=0, nx=0,
                    groups=[([2], dict(weight_decay=1, lr=1)), ([0, 3], dict(alpha1=1))]))
    out.append(dict(h="groups", layers=[(1, 2, True), (2, 1, True), "conv"], nested=1,
                    steps=3, n=0, nx=0,
                    groups=[([2, 0], dict(structures=2)), ([1], dict(structures=1, T=1))]))
    mixes = [
        [dict(T=0, lr=0), dict(T=1, momentum=1, structures=1), dict(T=2, alpha1=2, damping=1)],
        [dict(loss_average=0, kfac_approx=1), dict(loss_average=1), dict(loss_average=2, lr_cov=2)],
        [dict(kfac_like=1, structures=2), dict(normalize_lr_cov=1, damping=2), dict(weight_decay=2)],
    ]
    from itertools import permutations

    for h in mixes:
        for order in permutations(range(3)):
            for n in (0, 1) if deep else (sum(order[:2]) % 2,):
                norm = any("normalize_lr_cov" in d for d in h)
                out.append(dict(h="alone", layers=[(1, 2, True), "conv", (2, 1, False)], hyper=h,
                                order=list(order), steps=2 if norm else 3, n=n))
    # all pairs of hyper-parameter values, in groups that differ from each other
    rows = pairwise()
    for k in range(0, len(rows), 2):
        h = [rows[k], rows[(k + 1) % len(rows)]]
        norm = any(d["normalize_lr_cov"] == 1 for d in h)
        out.append(dict(h="alone", layers=[(1, 2, True), (2, 1, bool(k % 4))], hyper=h,
                        order=[1, 0] if k % 4 else [0, 1], steps=3, n=0,
                        ng=1 if deep or not norm else 0))
    return out
