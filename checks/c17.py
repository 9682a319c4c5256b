"""C17: only requested parameters are trained."""

import re

from checks.trainer import *  # noqa: F403

PROP = "C17"
BOUNDS = (
    "networks of up to five layers (fully-connected, convolution, their subclasses, "
    "normalisation, embedding, transposed and 1d convolution), every subset of the listed "
    "parameters of up to three supported layers being requested or frozen, up to three steps, layers optionally unused in some of them, "
    "update periods 1-2; widths 1-2; factors, momenta, parameters, inputs and gradients "
    "partly symbolic"
)
ASSUMPTIONS = []


class MyLinear(nn.Linear):
    pass


class Box(nn.Module):
    """Container with a parameter of its own."""

    def __init__(self, *mods, req=True):
        super().__init__()
        self.body = nn.ModuleList(mods)
        self.scale = nn.Parameter(torch.ones(2), requires_grad=req)


class MyConv(nn.Conv2d):
    pass


def layer(kind):
    return {
        "lin": lambda: nn.Linear(1, 2),
        "lin2": lambda: nn.Linear(2, 1),
        "nobias": lambda: nn.Linear(2, 1, bias=False),
        "sub": lambda: MyLinear(1, 2),
        "conv": lambda: nn.Conv2d(1, 2, (2, 1)),
        "subconv": lambda: MyConv(1, 1, (1, 2)),
        "bn": lambda: nn.BatchNorm1d(2),
        "ln": lambda: nn.LayerNorm(2),
        "emb": lambda: nn.Embedding(3, 2),
        "conv1d": lambda: nn.Conv1d(1, 1, 1),
        "convT": lambda: nn.ConvTranspose2d(1, 1, 1),
        "bilinear": lambda: nn.Bilinear(1, 1, 1),
        "frozenln": lambda: nn.LayerNorm(2),
    }[kind]()


def supported(m):
    return isinstance(m, (nn.Linear, nn.Conv2d))


def move(net, mods, how):
    """Put parameters to other places in memory, keeping their values."""
    ps = list(net.parameters())
    with torch.no_grad():
        if how == "vector":
            vec = nn.utils.parameters_to_vector(ps)
            nn.utils.vector_to_parameters(vec, ps)
        elif how == "weights":
            for m in mods:
                m.weight.data = m.weight.data.clone()
        elif how == "exchange":  # everyone lives where another one of its size lived before
            for k, p in enumerate(ps):
                for q in ps[k + 1:]:
                    if p.shape == q.shape:
                        old = p.data.clone()
                        a, b = p.data, q.data
                        a.copy_(b)
                        b.copy_(old)
                        p.data, q.data = b, a


def train(ctx, cfg):
    mods = [layer(k) for k in cfg["layers"]]
    for k, m in enumerate(mods):
        fill_params(ctx, m, f"l{k}", cfg.get("n", 1) if supported(m) else 1)
    if cfg.get("nested"):
        net = nn.Sequential(nn.Sequential(*mods[:2]), nn.ModuleDict({"b": nn.Sequential(*mods[2:])}))
    else:
        net = nn.Sequential(*mods)
    boxes = []
    if cfg.get("box"):
        boxes = [Box(net, req=cfg["box"] > 0)]
        net = nn.Sequential(*boxes) if cfg["box"] > 1 else boxes[0]
        fill_params(ctx, boxes[0], "own", 2, recurse=False)
    names = {m: n for n, m in net.named_modules()}
    for k, kind in enumerate(cfg["layers"]):
        if kind.startswith("frozen"):
            for p in mods[k].parameters():
                p.requires_grad_(False)
    for k, j in cfg.get("freeze", ()):
        list(mods[k].parameters())[j].requires_grad_(False)
    # what is requested
    asked = cfg.get("ask")
    if asked is None:
        want = {id(p) for m in mods if supported(m) for p in m.parameters() if p.requires_grad}
        args = {}
    else:
        lst = [list(mods[k].parameters())[j] for k, j in asked]
        how = cfg.get("how", "list")
        args = {"list": lambda: lst, "iter": lambda: iter(lst),
                "group": lambda: [dict(params=lst)],
                "groups": lambda: [dict(params=[list(mods[k].parameters())[j]
                                                for k, j in asked if k == m])
                                   for m in sorted({k for k, _ in asked}, reverse=True)]}[how]()
        args = dict(params=args)
        want = {id(p) for p in lst if p.requires_grad}
    from singd.optim.optimizer import SINGD

    hy = dict(DEFAULTS)
    hy.update(T=cfg.get("T", 1), structures=cfg["st"], weight_decay=0.125)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        opt = SINGD(net, **args, **hy, **({"warn_unsupported": cfg["warn"]} if "warn" in cfg else {}))
    told = [str(w.message) for w in rec]
    if asked is None:
        bad = [names[m] for m in mods + boxes if not supported(m)
               and any(p.requires_grad for p in m.parameters(recurse=False))]
        if cfg.get("warn", True):
            text = " ".join(told)
            for n in bad:
                word = n or type(dict(net.named_modules())[n]).__name__
                ctx.check(f"warning names {word}",
                          re.search(rf"(?<![\w.]){re.escape(word)}(?![\w.])", text), told)
            ctx.check("warnings only about unsupported layers", bool(bad) or not told, told)
        else:
            ctx.check("no warnings", not told, told)
    else:
        ctx.check("no warnings", not told, told)
    # the reference covers the layers with at least one requested parameter
    mine = {names[m]: (m, hy) for m in mods
            if supported(m) and any(id(p) in want for p in m.parameters())}
    asked_layers = {names[m] for m in mods if supported(m) and (
        asked is None and names[m] in mine or asked is not None
        and any(m is mods[k] for k, _ in asked))}
    ctx.check("observed layers", set(mine) <= set(opt.Ks) <= asked_layers,
              f"{set(opt.Ks)} {set(mine)}")
    tr = Trainer(ctx, opt, mine, n=cfg.get("n", 1))
    for l in tr.L.values():
        l.trained = [id(p) in want for p in l.params]
    rest = [(names[m], k, p) for m in mods for k, p in enumerate(m.parameters())
            if id(p) not in want]
    rest += [(names[m], "scale", m.scale) for m in boxes]
    for t in range(cfg["steps"]):
        tr.cut(n=cfg.get("n", 1))
        for p in net.parameters():
            p.grad = None
        move(net, mods, cfg.get("move") if t >= cfg.get("when", 1) else None)
        idle = [names[mods[k]] for k in cfg.get("unused", {}).get(t, ())]
        tr.backward(nx=cfg.get("n", 1), ng=1, names=[n for n in tr.L if n not in idle])
        for n in idle:  # stale gradients are either absent or zero
            for p in tr.L[n].params:
                p.grad = torch.zeros_like(p) if cfg.get("stale") else None
        # everything else gets gradients, too
        for k, m in enumerate(mods):
            if names[m] in mine:
                continue
            if supported(m):  # runs in front of and behind trained layers
                if isinstance(m, nn.Conv2d):
                    x = torch.ones(1, m.in_channels, 3, 2)
                else:
                    x = torch.ones(2, m.in_features)
                m(x)
                x.requires_grad_(True)
                m(x).sum().backward()
            for p in m.parameters():
                if p.requires_grad or cfg.get("leftover"):
                    p.grad = some_tensor(ctx, f"pg{t}.{names[m]}.{p.dim()}.{p.numel()}.{id(p) == id(m.weight)}",
                                         tuple(p.shape), 1)
        for m in boxes:
            m.scale.grad = some_tensor(ctx, f"box{t}", (2,), 1)
        if cfg.get("leftover"):  # frozen parameters may still have an old gradient
            for l in tr.L.values():
                for k, p in enumerate(l.params):
                    if not p.requires_grad:
                        p.grad = some_tensor(ctx, f"old{t}.{l.name}.{k}", tuple(p.shape), 1)
        before = [ctx.read(p) for _, _, p in rest]
        if cfg.get("n", 1) and tr.active(next(iter(tr.L.values()))):
            zero_grads(*(l.mod for l in tr.L.values()))
        tr.step()
        ctx.check(f"nothing pending {t}", not opt.H_Ks and not opt.H_Cs)
        for (n, k, p), b in zip(rest, before):
            ctx.eq(f"parameter {k} of {n} was not requested (step {t})", p, b)
        ctx.check(f"no state for others {t}", all(p not in opt.state or not opt.state[p]
                                                  for _, _, p in rest))


HARNESSES = {"train": train}


def configs(tier):
    out = []
    deep = tier == "thorough"
    nets = [["lin", "bn", "lin2"], ["conv", "ln", "nobias", "emb"],
            ["sub", "conv1d", "subconv", "frozenln"], ["convT", "lin", "bilinear"]]
    q = 0
    for i, n in enumerate(nets):
        for par in (0, 1):
            for warn in (True, False, None):
                q += 1
                c = dict(h="train", layers=n, n=1 - par, st=(STRUCTS[q % 6], STRUCTS[(q + 2) % 6]),
                         steps=2, T=1 + q % 2, nested=q % 2)
                if warn is not None:
                    c["warn"] = warn
                out.append(c)
    # every subset of requested / frozen parameters of two layers
    from itertools import combinations

    idx = [(0, 0), (0, 1), (1, 0), (1, 1)]
    for r in range(1, 5):
        for sub in combinations(idx, r):
            for k, how in enumerate(("list", "iter", "group", "groups")):
                q += 1
                par = q % 2
                if not deep and (q // 4 + k) % 2:
                    continue
                out.append(dict(h="train", layers=["lin", "conv" if q % 3 else "lin2"], ask=list(sub), how=how,
                                n=1 - par, st=(STRUCTS[q % 6], STRUCTS[(q + 1) % 6]), steps=2,
                                T=1 + (q // 2) % 2))
            frozen = [x for x in idx if x not in sub]
            q += 1
            out.append(dict(h="train", layers=["lin", "conv" if q % 3 else "lin2"], freeze=frozen,
                            n=q % 2, st=(STRUCTS[q % 6], STRUCTS[(q + 1) % 6]), steps=2,
                            T=1 + q % 2))
            if frozen:
                out.append(dict(out[-1], leftover=1, n=q // 2 % 2))
            if len(sub) == 4:
                for k, (un, stale) in enumerate(outer(({0: [0]}, {1: [1]}, {0: [1], 1: [0, 1]},
                                                       {0: [0, 1], 1: [0]}), (0, 1))):
                    for T in (1, 2):
                        out.append(dict(h="train", layers=["lin", "conv" if k % 2 else "lin2"],
                                        steps=3, unused=un, stale=stale, n=(k + T) % 2,
                                        st=(STRUCTS[k % 6], STRUCTS[(k + T) % 6]), T=T))
            if frozen:  # frozen, but requested anyway
                q += 1
                out.append(dict(h="train", layers=["lin", "lin2"], freeze=frozen, ask=idx,
                                n=q % 2, st=(STRUCTS[q % 6], STRUCTS[(q + 1) % 6]), steps=2))
                out.append(dict(out[-1], n=(q + 1) % 2))
    for k, (box, n) in enumerate(outer((-1, 1, 2), nets[:2])):
        for warn in (True, False, None):
            c = dict(h="train", layers=n, box=box, n=k % 2, steps=2, nested=k // 2 % 2,
                     st=(STRUCTS[k % 6], STRUCTS[(k + 2) % 6]))
            if warn is not None:
                c["warn"] = warn
            out.append(c)
        out.append(dict(h="train", layers=["lin", "lin2"], box=box, n=k % 2, steps=2,
                        st=("dense", "dense"), ask=[(0, 0), (1, 1)][: 1 + k % 2]))
    # the memory of parameters is replaced between steps
    for k, (how, ask) in enumerate(outer(
            ("vector", "weights", "exchange"),
            (None, [(0, 0)], [(1, 0), (1, 1)], [(0, 1), (2, 0)]))):
        for when in (0, 1):
            par = (k + when) % 2
            c = dict(h="train", layers=["lin", "lin2", "lin"] if k % 3 else ["lin", "ln", "lin"],
                     move=how, when=when, steps=2, n=par, T=1 + k % 2,
                     st=(STRUCTS[k % 6], STRUCTS[(k + 2) % 6]))
            if ask:
                c["ask"] = ask if c["layers"][1] == "lin2" else [
                    (2 if a == 1 else a, b) for a, b in ask]
                c["how"] = ("list", "groups")[k % 2]
            out.append(c)
    # everything requested, including parameters of unsupported layers
    out.append(dict(h="train", layers=["lin", "bn", "lin2"], steps=2, st=("dense", "dense"), n=0,
                    ask=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]))
    out.append(dict(h="train", layers=["ln", "conv", "emb", "lin"], steps=2, n=1,
                    st=("diagonal", "dense"), how="iter",
                    ask=[(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (3, 1)]))
    out.append(dict(h="train", layers=["ln", "conv", "lin", "lin2"], steps=2, n=0,
                    st=("diagonal", "dense"), how="group", ask=[(0, 1), (2, 0), (2, 1)]))
    return out
