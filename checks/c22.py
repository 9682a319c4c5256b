"""C22: the optimizer is invisible to the computation it observes."""

from checks.trainer import *  # noqa: F403

PROP = "C22"
BOUNDS = (
    "models with 1-4 fully-connected layers and 2d convolutions (widths 1-3, batch 1-2, one "
    "weight-sharing dimension, images up to 4x3, strides, paddings, dilations, groups), "
    "relu, pooling, reshapes and skip connections; losses with dense, expanded and sliced "
    "gradients; one to three backward passes of a graph, several forward passes, double "
    "backward, evaluation passes, frozen parameters, up to three steps; deep, pickled, averaged "
    "and shallow copies, functional calls with own, other and shifted parameters, grad, vmap and "
    "jacrev (jvp is not encoded); parameter and factor data types f32, f64, bf16 and f16; inputs, gradients, parameters and factors partly symbolic"
)
ASSUMPTIONS = [
    "a value that an operator writes to a tensor and later restores exactly is not observed",
]


class Net(nn.Module):
    """Model from a list of layer descriptions; keeps its intermediate results."""

    def __init__(self, spec, dtype):
        super().__init__()
        self.spec = spec
        self.seq = nn.ModuleList()
        for s in spec:
            if s[0] == "lin":
                self.seq.append(nn.Linear(s[1], s[2], bias=s[3], dtype=dtype))
            elif s[0] == "conv":
                self.seq.append(nn.Conv2d(s[1], s[2], tuple(s[3]), dtype=dtype, **dict(s[4])))
        self.inter = []

    def forward(self, x, keep=True, kw=False):
        k = 0
        inter = []
        for s in self.spec:
            if s[0] in ("lin", "conv"):
                x = self.seq[k](input=x) if kw else self.seq[k](x)
                k += 1
            elif s[0] == "relu":
                x = torch.relu_(x) if s[1:] == ("inplace",) else torch.relu(x)
            elif s[0] == "pool":
                x = x.mean(dim=(2, 3))
            elif s[0] == "flat":
                x = x.flatten(1)
            elif s[0] == "t":
                x = x.transpose(1, 2)
            elif s[0] == "skip":
                x = x + inter[-1 - s[1]]
            elif s[0] == "expand":
                x = x[:1].expand_as(x)
            elif s[0] == "cl":
                x = x.to(memory_format=torch.channels_last)
            elif s[0] == "half":
                x = x[:, : x.shape[1] // 2 + 1]
            inter.append(x)
        if keep:
            self.inter = inter
        return x


def loss(ctx, kind, out, g):
    if kind == "sum":
        return out.sum()
    if kind == "mean":
        return (out * g).mean()
    if kind == "square":
        return 0.5 * (out * out * g).sum()
    if kind == "part":
        return (out[:1] * g[:1]).sum() + out[:, -1].sum()
    return (out * g).sum()


def pair(ctx, cfg):
    """The same model with and without the optimizer."""
    from singd.optim.optimizer import SINGD

    dt, n = DT[cfg.get("dtype", "f32")], cfg.get("n", 2)
    nets = [Net(cfg["net"], dt) for _ in range(2)]
    fill_params(ctx, nets[0], "net", cfg.get("np", 1))
    with torch.no_grad():
        for p, q in zip(nets[0].parameters(), nets[1].parameters()):
            ctx.write(q.data, ctx.read(p))
    for k in cfg.get("frozen", ()):
        for net in nets:
            list(net.parameters())[k].requires_grad_(False)
    kd = cfg.get("kdtype")
    hy = dict(structures=tuple(cfg["st"]), kfac_approx=cfg.get("approx", "expand"),
              loss_average=cfg.get("avg", "batch"), T=cfg.get("T", 1), lr=0.5, momentum=0.5,
              init_grad_scale=cfg.get("scale", 1.0),
              preconditioner_dtype=(None, None) if kd is None else tuple(DT[k] for k in kd))
    params = None
    if "only" in cfg:
        params = [dict(params=[p for k in cfg["only"] for p in nets[0].seq[k].parameters()])]
    opt = SINGD(nets[0], params=params, **hy)
    reset_state(ctx, opt)
    if kd is None and dt == F32 and cfg.get("nk", 1):
        for nm in opt.Ks:
            fill_state(ctx, opt.Ks[nm], f"K{nm}", cfg.get("nk", 1))
            fill_state(ctx, opt.Cs[nm], f"C{nm}", cfg.get("nk", 1))
    return nets, opt


def same(ctx, label, a, b):
    ctx.check(f"{label} presence", (a is None) == (b is None))
    if a is None or b is None:
        return
    ctx.check(f"{label} layout", a.dtype == b.dtype and a.shape == b.shape
              and a.requires_grad == b.requires_grad)
    ctx.eq(label, a, ctx.arr(b))


def compare(ctx, cfg):
    dt, n = DT[cfg.get("dtype", "f32")], cfg.get("n", 2)
    if dt in (BF16, F16) or cfg.get("kdtype"):
        ctx.set_cast_mode("opaque")
    nets, opt = pair(ctx, cfg)
    for t in range(cfg.get("steps", 1)):
        if t:
            # (what a step does to the parameters is the subject of other properties)
            reset_state(ctx, opt)
            fill_params(ctx, nets[0], f"net@{t}", cfg.get("np", 1))
            with torch.no_grad():
                for p, q in zip(nets[0].parameters(), nets[1].parameters()):
                    ctx.write(q.data, ctx.read(p))
        for net in nets:
            net.inter = []
            net.train(not cfg.get("eval"))
            for p in net.parameters():
                if not (cfg.get("accumulate") and t):
                    p.grad = None
        for rep in range(cfg.get("forwards", 1)):
            x0 = some_tensor(ctx, f"x{t}.{rep}", tuple(cfg["shape"]), n, dtype=dt)
            if cfg.get("strided"):
                x0 = x0.transpose(0, 1).contiguous().transpose(0, 1)
            X = ctx.read(x0)
            got = []
            g = None
            for which, net in enumerate(nets):
                x = x0.detach().clone() if cfg.get("own", 1) else x0.detach()
                if cfg.get("xgrad", 1):
                    x.requires_grad_(True)
                seen = {}
                handles = []
                if cfg.get("user"):
                    for k, m in enumerate(net.seq):
                        def fh(mod, i, o, k=k, seen=seen):
                            seen[f"forward {k}"] = o
                            if o.requires_grad:
                                o.register_hook(
                                    lambda v, k=k, seen=seen: seen.__setitem__(f"grad {k}", v))
                        handles.append(m.register_forward_hook(fh))
                if cfg.get("idle"):
                    with torch.no_grad():
                        net(x, keep=False)
                out = net(x, kw=bool(cfg.get("kw")))
                if g is None:
                    g = some_tensor(ctx, f"g{t}.{rep}", tuple(out.shape), n, dtype=dt)
                    g0 = ctx.read(g)
                leaves = [p for p in net.parameters() if p.requires_grad]
                extra = []
                if cfg.get("double"):
                    L = loss(ctx, cfg.get("loss", "dot"), out, g)
                    first = torch.autograd.grad(L, [x] + leaves, create_graph=True,
                                                allow_unused=True)
                    extra = [v for v in first if v is not None]
                    pen = sum((v * v).sum() for v in extra)
                    (L + pen * 0.25).backward()
                elif cfg.get("functional"):
                    L = loss(ctx, cfg.get("loss", "dot"), out, g)
                    extra = torch.autograd.grad(L, ([x] if x.requires_grad else []) + leaves,
                                                allow_unused=True)
                elif cfg.get("seed"):
                    for _ in range(cfg.get("backwards", 1)):
                        out.backward(g, retain_graph=True)
                else:
                    L = loss(ctx, cfg.get("loss", "dot"), out, g)
                    for k in range(cfg.get("backwards", 1)):
                        L.backward(retain_graph=k + 1 < cfg.get("backwards", 1)
                                   or bool(cfg.get("retain")))
                for h in handles:
                    h.remove()
                got.append((out, x, net.inter, seen, list(extra)))
                ctx.eq(f"data {which}", x0, X)
                ctx.eq(f"input {which}", x, X)
                ctx.eq(f"loss gradient {which}", g, g0)
            a, b = got
            lb = f"at {t}.{rep}:"
            same(ctx, f"{lb} output", a[0], b[0])
            same(ctx, f"{lb} input gradient", a[1].grad, b[1].grad)
            for k, (u, v) in enumerate(zip(a[2], b[2])):
                same(ctx, f"{lb} activation {k}", u, v)
            ctx.check(f"{lb} hooks", a[3].keys() == b[3].keys())
            for k in a[3].keys() & b[3].keys():
                same(ctx, f"{lb} user hook {k}", a[3][k], b[3][k])
            for k, (u, v) in enumerate(zip(a[4], b[4])):
                same(ctx, f"{lb} returned gradient {k}", u, v)
            for (nm, p), q in zip(nets[0].named_parameters(), nets[1].parameters()):
                same(ctx, f"{lb} parameter {nm}", p, q)
                same(ctx, f"{lb} gradient of {nm}", p.grad, q.grad)
        if cfg.get("steps", 1) > 1:
            if cfg.get("scale", 1.0) != 1.0:
                opt.set_current_grad_scale(cfg["scale"])
            if not cfg.get("accumulate"):
                zero_grads(nets[0])
                zero_grads(nets[1])
            before = [ctx.read(p.grad) if p.grad is not None else None
                      for p in nets[0].parameters()]
            opt.step()
            for k, (p, b) in enumerate(zip(nets[0].parameters(), before)):
                if b is not None:
                    ctx.eq(f"step {t} keeps gradient {k}", p.grad, b)


def stats(ctx, opt):
    return {(d, nm): dense(ctx, m) for d in ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs")
            for nm, m in getattr(opt, d).items()}


def copies(ctx, cfg):
    """Copies of the model, and passes with other parameters, ignore the optimizer."""
    import copy
    import pickle
    from torch.func import functional_call

    n, how = cfg.get("n", 2), cfg["how"]
    nets, opt = pair(ctx, cfg)
    net, ref = nets
    x0 = some_tensor(ctx, "x", tuple(cfg["shape"]), n)
    with torch.no_grad():
        g = some_tensor(ctx, "g", tuple(ref(x0, keep=False).shape), n)
    if cfg.get("pending"):
        (net(x0, keep=False) * g).sum().backward()
        net.zero_grad()
    for t in range(cfg.get("skip", 0)):  # (steps without gradients only count)
        opt.step()
    before = stats(ctx, opt)
    args = {}
    if how == "deepcopy":
        other = copy.deepcopy(net)
    elif how == "pickle":
        other = pickle.loads(pickle.dumps(net))
    elif how == "average":
        other = torch.optim.swa_utils.AveragedModel(net)
        other.update_parameters(net)
        args = dict(own=other.module)
    elif how == "layer":  # a copied layer in a model of its own
        other = copy.deepcopy(ref)
        other.seq[0] = copy.deepcopy(net.seq[0])
    elif how == "shallow":
        other = copy.deepcopy(ref)
        other.seq[0] = copy.copy(net.seq[0])
    else:
        other = None
    if other is not None:
        results = []
        for m in (other, ref):
            x = x0.detach().clone().requires_grad_(True)
            for p in m.parameters():
                p.grad = None
            for _ in range(cfg.get("passes", 1)):
                y = m(x, keep=False)
                (y * g).sum().backward()
            results.append((y, x.grad, *(p.grad for p in m.parameters())))
        ctx.check("gradients", len(results[0]) == len(results[1]))
        for k, (a, b) in enumerate(zip(*results)):
            same(ctx, f"{how} {k}", a, b)
        after = stats(ctx, opt)
        ctx.check("same matrices", after.keys() == before.keys())
        for k in after.keys() & before.keys():
            ctx.eq(f"matrix {k}", after[k], before[k])
    else:
        results = []
        for m in nets:
            x = x0.detach().clone().requires_grad_(True)
            P = {k: p.detach().clone() for k, p in m.named_parameters()}
            if how == "call own":
                P = dict(m.named_parameters())
            elif how == "call shifted":
                P = {k: p * 2.0 + 1.0 for k, p in m.named_parameters()}
            if how.startswith("call"):
                leaves = [p.requires_grad_(True) if p.is_leaf else p for p in P.values()]
                y = functional_call(m, P, (x,), dict(keep=False))
                results.append((y, *torch.autograd.grad((y * g).sum(), [x] + leaves)))
                continue

            def fn(P, v, w):
                return (functional_call(m, P, (v,), dict(keep=False)) * w).sum()

            x = x.detach()
            if how == "grad":
                r = torch.func.grad(fn)(P, x, g)
                results.append(tuple(r[k] for k in P))
            elif how == "per sample":
                r = torch.func.vmap(torch.func.grad(lambda P, v, w: fn(P, v[None], w[None])),
                                    in_dims=(None, 0, 0))(P, x, g)
                results.append(tuple(r[k] for k in P))
            elif how == "jacobian":
                r = torch.func.jacrev(lambda v: functional_call(m, P, (v,), dict(keep=False)))(x)
                results.append((r,))
        for k, (a, b) in enumerate(zip(*results)):
            same(ctx, f"{how} {k}", a, b)
        for nm, p in net.named_parameters():
            ctx.check(f"parameter {nm} kept its place", dict(net.named_parameters())[nm] is p)
        if not how.startswith("call"):
            after = stats(ctx, opt)
            ctx.check("same matrices", after.keys() == before.keys())
            for k in after.keys() & before.keys():
                ctx.eq(f"matrix {k}", after[k], before[k])
    if cfg.get("pending"):
        return
    # the model itself is still trained
    opt.zero_grad()
    opt.H_Ks.clear(), opt.H_Cs.clear()
    (net(x0, keep=False) * g).sum().backward()
    active = opt.steps % cfg.get("T", 1) == 0
    ctx.check("original observed", set(opt.H_Ks) == (set(opt.Ks) if active else set()))
    for p in net.parameters():
        ctx.write(p.grad, np.zeros_like(ctx.read(p)) + ctx.frac(0))
    opt.step()


HARNESSES = {"compare": compare, "copies": copies}


def L(a, b, bias=True):
    return ("lin", a, b, bias)


def V(a, b, k, **kw):
    return ("conv", a, b, k, tuple(kw.items()))


NETS = {
    "lin": ([L(2, 2)], (2, 2)),
    "lin nobias": ([L(2, 3, False)], (2, 2)),
    "lin shared": ([L(2, 2, False)], (2, 2, 2)),
    "lin shared bias": ([L(2, 2)], (2, 2, 2)),
    "lin one": ([L(2, 1, False)], (1, 2)),
    "mlp": ([L(1, 2), ("relu",), L(2, 1, False)], (1, 1)),
    "mlp inplace": ([L(1, 2, False), ("relu", "inplace"), L(2, 1)], (1, 1)),
    "deep": ([L(2, 2), L(2, 2, False), ("skip", 1), L(2, 1)], (2, 2)),
    "views": ([L(2, 2), ("t",), L(2, 2, False), ("t",), L(2, 1)], (1, 2, 2)),
    "expanded": ([L(2, 2, False), ("expand",), L(2, 2)], (2, 2)),
    "sliced": ([L(2, 3), ("half",), L(2, 2, False)], (2, 2)),
    "conv": ([V(1, 2, (2, 1))], (2, 1, 3, 2)),
    "conv 1x1": ([V(2, 2, (1, 1), bias=False)], (2, 2, 2, 1)),
    "conv 1x1 one": ([V(1, 2, (1, 1), bias=False)], (1, 1, 2, 1)),
    "conv stride": ([V(1, 2, (2, 2), stride=2, padding=1, bias=False)], (1, 1, 4, 3)),
    "conv groups": ([V(2, 2, (2, 1), groups=2)], (1, 2, 3, 2)),
    "conv dilation": ([V(1, 1, (2, 1), dilation=(2, 1))], (2, 1, 4, 2)),
    "conv same": ([V(1, 2, (3, 1), padding="same", bias=False)], (1, 1, 3, 2)),
    "conv circular": ([V(1, 1, (2, 2), padding=1, padding_mode="circular")], (1, 1, 3, 2)),
    "conv reflect": ([V(1, 1, (2, 2), padding=1, padding_mode="reflect", bias=False)], (1, 1, 3, 2)),
    "cnn": ([V(1, 2, (2, 1)), ("pool",), L(2, 2, False)], (2, 1, 3, 2)),
    "cnn flat": ([V(1, 1, (2, 1), bias=False), V(1, 2, (1, 2)), ("flat",), L(4, 1)], (1, 1, 3, 2)),
    "cnn last": ([("cl",), V(2, 2, (2, 1)), ("cl",), V(2, 1, (1, 1), bias=False)], (1, 2, 3, 2)),
}


def configs(tier):
    out = []
    deep = tier == "thorough"
    losses = ("dot", "sum", "mean", "part", "square")
    k = 0

    def add(name, **kw):
        nonlocal k
        k += 1
        net, shape = NETS[name]
        c = dict(h="compare", name=name, net=net, shape=shape,
                 st=(STRUCTS[k % 6], STRUCTS[(k + 1 + k // 6) % 6]),
                 approx=("expand", "reduce")[k % 2],
                 avg=(None, "batch", "batch+sequence")[k % 3])
        c.update(kw)
        out.append(c)

    for name in NETS:
        for ap in ("expand", "reduce"):
            for av in (None, "batch", "batch+sequence"):
                add(name, approx=ap, avg=av, loss=losses[k % 5])
            add(name, approx=ap, user=1, loss=losses[(k + 1) % 5])
            add(name, approx=ap, seed=1, backwards=1 + k % 2, own=k % 2, xgrad=k % 2)
            add(name, approx=ap, backwards=3, loss=losses[(k + 2) % 5], forwards=1 + k % 2)
            add(name, approx=ap, functional=1, retain=1)
            add(name, approx=ap, steps=2, T=1 + k % 2, accumulate=k % 4 == 0, np=0,
                nk=0, idle=1)
            add(name, approx=ap, eval=1, scale=4.0)
            add(name, approx=ap, steps=2, T=1 + k % 3, accumulate=1, np=0, nk=0, scale=4.0,
                n=1)
            add(name, approx=ap, strided=1, loss="sum", own=0, xgrad=0)
            for dts in (("bf16", None), ("f32", ("bf16", "bf16")), ("f64", ("f32", "f32")),
                        ("f16", ("f32", "f32")), ("f64", ("f32", "f16")),
                        ("bf16", ("f32", "bf16"))):
                if name in ("lin", "lin shared", "lin one", "conv 1x1 one", "conv", "cnn",
                            "deep") or deep:
                    add(name, approx=ap, dtype=dts[0], kdtype=dts[1], n=1, np=0, nk=0,
                        seed=k % 2)
        if name not in ("cnn", "cnn flat", "cnn last"):
            add(name, kw=1)
        if name.startswith("lin") or name in ("deep", "views"):
            add(name, double=1, np=1, n=1, loss="square")
    for name, fr in (("deep", (0,)), ("deep", (1, 2)), ("cnn", (0, 1)), ("cnn", (2,)),
                     ("lin", (1,)), ("mlp", (0, 1)), ("conv", (0,))):
        add(name, frozen=fr, xgrad=1, np=0)
        add(name, frozen=fr, xgrad=0, backwards=2)
    for name in NETS:
        if name in ("expanded", "sliced", "cnn last", "conv same"):
            continue
        for how in ("deepcopy", "pickle", "average", "layer", "shallow", "call own",
                    "call other", "call shifted", "grad", "per sample", "jacobian"):
            if name in ("mlp inplace",) and how in ("jacobian", "per sample"):
                continue
            if deep or k % 3 == 0 or name in ("lin", "cnn", "deep"):
                add(name, h="copies", how=how, pending=k % 2, passes=1 + k % 2, np=1, nk=1,
                    n=1 if "relu" in str(NETS[name]) else 2, T=1 + k % 2, skip=(k // 2) % 3)
            else:
                k += 1
    for name, only in (("deep", (1,)), ("deep", (0, 2)), ("cnn", (1,)), ("cnn", (0,))):
        add(name, only=only, user=1)
        add(name, only=only, steps=2, T=2, np=0, nk=0)
    return out
