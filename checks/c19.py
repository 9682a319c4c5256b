"""C19: in-place activations, several consumers, and layers used several times."""

from checks.trainer import *  # noqa: F403

PROP = "C19"
BOUNDS = (
    "fully-connected layers and 2d convolutions with 1-3 features (channels), batch 1-2, "
    "one weight-sharing dimension; in-place relu, leaky relu, scaling, addition and writes "
    "to slices and views (the signs of the activations are symbolic, all are explored); up "
    "to three consumers of an output; 1-4 uses of a layer in one forward pass, with "
    "different batch sizes, nested uses, and uses that reach the loss only in part; activation checkpointing (both "
    "kinds, nested, sequential); inputs, "
    "gradients, weights and factors partly or fully symbolic"
)

ACTS = ("relu", "relu_module", "leaky", "mul", "add", "slice", "view", "mul_relu", "none")


def act(name, y, other):
    """Overwrite a layer's output."""
    if name == "relu":
        return torch.relu_(y)
    if name == "relu_module":
        return nn.ReLU(inplace=True)(y)
    if name == "leaky":
        return nn.LeakyReLU(0.25, inplace=True)(y)
    if name == "mul":
        return y.mul_(3.0)
    if name == "add":
        y += other
        return y
    if name == "slice":
        y[:, 0] *= 2.0
        return y
    if name == "view":
        y.view(-1).mul_(2.0)
        return y
    if name == "mul_relu":
        return torch.relu_(y.mul_(2.0))
    return y


def act_oracle(ctx, name, Y, other):
    """(activation, its derivative) for every entry of the layer's output."""
    Z, D = Y.copy(), ctx.zeros(*Y.shape)
    for i in np.ndindex(*Y.shape):
        v = Y[i]
        if name in ("relu", "relu_module", "leaky", "mul_relu"):
            slope = ctx.frac(1) if ctx.positive(v) else (
                ctx.frac(1, 4) if name == "leaky" else ctx.frac(0)
            )
            if name == "mul_relu":
                slope = slope * ctx.frac(2)
        elif name == "mul":
            slope = ctx.frac(3)
        elif name == "slice":
            slope = ctx.frac(2 if i[1] == 0 else 1)
        elif name == "view":
            slope = ctx.frac(2)
        else:
            slope = ctx.frac(1)
        D[i] = slope
        Z[i] = v * slope + (other[i] if name == "add" else ctx.frac(0))
    return Z, D


def forward_oracle(ctx, layer, X):
    """Output of a fully-connected layer or a stride-one convolution without padding."""
    W = ctx.read(layer.weight)
    b = None if layer.bias is None else ctx.read(layer.bias)
    if kind_of(layer) == "linear":
        out = np.empty(X.shape[:-1] + (W.shape[0],), dtype=object)
        for i in np.ndindex(*out.shape):
            v = ctx.total([X[i[:-1] + (k,)] * W[i[-1], k] for k in range(W.shape[1])])
            out[i] = v if b is None else v + b[i[-1]]
        return out
    k1, k2 = W.shape[2:]
    out = np.empty((X.shape[0], W.shape[0], X.shape[2] - k1 + 1, X.shape[3] - k2 + 1),
                   dtype=object)
    for n, o, p, q in np.ndindex(*out.shape):
        v = ctx.total([X[n, c, p + a, q + e] * W[o, c, a, e]
                       for c in range(W.shape[1]) for a in range(k1) for e in range(k2)])
        out[n, o, p, q] = v if b is None else v + b[o]
    return out


def back_oracle(ctx, layer, G, shape):
    """Gradient with respect to the input of a layer."""
    W = ctx.read(layer.weight)
    out = ctx.zeros(*shape)
    if kind_of(layer) == "linear":
        for i in np.ndindex(*shape):
            out[i] = ctx.total([G[i[:-1] + (k,)] * W[k, i[-1]] for k in range(W.shape[0])])
        return out
    k1, k2 = W.shape[2:]
    for n, o, p, q in np.ndindex(*G.shape):
        for c in range(W.shape[1]):
            for a in range(k1):
                for e in range(k2):
                    out[n, c, p + a, q + e] = out[n, c, p + a, q + e] + G[n, o, p, q] * W[o, c, a, e]
    return out


def module(ctx, kind, a, b, label, bias=True, n=None):
    m = nn.Linear(a, b, bias=bias) if kind == "linear" else nn.Conv2d(a, b, (2, 1), bias=bias)
    fill_params(ctx, m, label, n)
    return m


def optimizer(ctx, net, cfg, n):
    from singd.optim.optimizer import SINGD

    opt = SINGD(net, structures=tuple(cfg["st"]), kfac_approx=cfg.get("approx", "expand"),
                loss_average=cfg.get("avg", "batch"), T=1)
    for nm in opt.Ks:
        if n:
            fill_state(ctx, opt.Ks[nm], f"K{nm}", n)
            fill_state(ctx, opt.Cs[nm], f"C{nm}", n)
    return opt


def expect(ctx, opt, cfg, layer, nm, uses, label=""):
    """Statistics of a layer are the sum over its uses (input, output gradient)."""
    st, ap, avg = cfg["st"], cfg.get("approx", "expand"), cfg.get("avg", "batch")
    if not uses:
        ctx.check(f"{label} no statistics of {nm}", nm not in opt.H_Ks and nm not in opt.H_Cs)
        return
    K, C = dense(ctx, opt.Ks[nm]), dense(ctx, opt.Cs[nm])
    HK = HC = None
    for X, G in uses:
        a = sandwich(ctx, st[0], K, input_moment(ctx, layer, X, ap))
        b = sandwich(ctx, st[1], C, grad_moment(ctx, layer, G, avg, ap))
        HK, HC = (a, b) if HK is None else (HK + a, HC + b)
    ctx.check(f"{label} statistics of {nm}", nm in opt.H_Ks and nm in opt.H_Cs)
    ctx.eq(f"{label} H_K {nm}", opt.H_Ks[nm].to_dense(), HK)
    ctx.eq(f"{label} H_C {nm}", opt.H_Cs[nm].to_dense(), HC)


def shape_in(kind, cfg, d, batch=None):
    b = cfg.get("batch", 2) if batch is None else batch
    if kind == "conv":
        return (b, d, 3, 1)
    return (b,) + ((2,) if cfg.get("shared") else ()) + (d,)


def inplace(ctx, cfg):
    """Layer, in-place activation, and a second layer behind it."""
    kind, name = cfg["kind"], cfg["act"]
    d = cfg["d"]
    n = cfg.get("n")
    first = module(ctx, kind, d[0], d[1], "W1", cfg.get("bias", True), n)
    bias = not cfg.get("bias", True)
    if kind == "conv":
        second = nn.Conv2d(d[1], d[2], (1, 1), bias=bias)
    else:
        second = nn.Linear(d[1], d[2], bias=bias)
    fill_params(ctx, second, "W2", n)
    net = nn.Sequential(first, second)
    opt = optimizer(ctx, net, cfg, cfg.get("nk", 1))
    x = some_tensor(ctx, "x", shape_in(kind, cfg, d[0]), n)
    X = ctx.read(x)
    Y = forward_oracle(ctx, first, X)
    other = some_tensor(ctx, "o", Y.shape, 1)
    y = first(x)
    z = act(name, y, other)
    Z, D = act_oracle(ctx, name, Y, ctx.read(other))
    out = second(z)
    g = some_tensor(ctx, "g", tuple(out.shape), n)
    G = ctx.read(g)
    if cfg.get("tail"):  # the last output is overwritten as well
        out = out.mul_(2.0)
        G = G * ctx.frac(2)
    out.backward(g)
    G1 = back_oracle(ctx, second, G, Z.shape) * D
    expect(ctx, opt, cfg, first, "0", [(X, G1)])
    expect(ctx, opt, cfg, second, "1", [(Z, G)])
    ctx.eq("x kept", x, X)


def branches(ctx, cfg):
    """An output with several consumers, some of which do not reach the loss."""
    kind = cfg["kind"]
    d = cfg["d"]
    n = cfg.get("n")
    stem = module(ctx, kind, d[0], d[1], "W0", True, n)
    heads = []
    for k in range(cfg["heads"]):
        m = nn.Linear(d[1], d[2], bias=k % 2 == 0) if kind == "linear" else nn.Conv2d(
            d[1], d[2], (1, 1), bias=k % 2 == 0)
        fill_params(ctx, m, f"W{k + 1}", n)
        heads.append(m)
    net = nn.ModuleList([stem] + heads)
    opt = optimizer(ctx, net, cfg, cfg.get("nk", 1))
    x = some_tensor(ctx, "x", shape_in(kind, cfg, d[0]), n)
    X = ctx.read(x)
    Y = forward_oracle(ctx, stem, X)
    y = stem(x)
    total = 0.0
    Gy = ctx.zeros(*Y.shape)
    uses = {k: [] for k in range(len(heads))}
    if cfg.get("skip"):  # skip connection to the loss
        g = some_tensor(ctx, "gskip", Y.shape, n)
        total = total + (y * g).sum()
        Gy = Gy + ctx.read(g)
    if cfg.get("part"):  # a slice of the output reaches the loss on its own
        total = total + 2.0 * y[:1].sum()
        for i in np.ndindex(*Y.shape):
            if i[0] == 0:
                Gy[i] = Gy[i] + ctx.frac(2)
    for k, m in enumerate(heads):
        o = m(y)
        if k in cfg.get("dead", ()):
            continue
        if k in cfg.get("detached", ()):
            o = m(y.detach())
        g = some_tensor(ctx, f"g{k}", tuple(o.shape), n)
        total = total + (o * g).sum()
        uses[k].append((Y, ctx.read(g)))
        if k not in cfg.get("detached", ()):
            Gy = Gy + back_oracle(ctx, m, ctx.read(g), Y.shape)
    if cfg.get("separate"):
        total.backward(retain_graph=False)
    else:
        total.backward()
    expect(ctx, opt, cfg, stem, "0", [(X, Gy)])
    for k, m in enumerate(heads):
        expect(ctx, opt, cfg, m, str(k + 1), uses[k])


def reuse(ctx, cfg):
    """A layer used several times in one forward pass, next to separate passes."""
    kind = cfg["kind"]
    d = cfg["d"]
    n = cfg.get("n")
    layer = module(ctx, kind, d, d, "W", cfg.get("bias", True), n)
    net = nn.ModuleDict({"a": layer, "b": nn.Linear(1, 1)})
    if cfg.get("alias"):  # the same module under two names
        net = nn.ModuleDict({"a": layer, "b": nn.Sequential(layer), "c": nn.Linear(1, 1)})
    opt = optimizer(ctx, net, cfg, cfg.get("nk", 1))
    nm = [k for k in opt.Ks if k not in ("b", "c")]
    ctx.check("one entry for the layer", nm == ["a"], nm)
    uses, total = [], None
    for k, how in enumerate(cfg["uses"]):
        b = 1 + (k + cfg.get("batch", 1)) % 2
        x = some_tensor(ctx, f"x{k}", shape_in(kind, cfg, d, b), n)
        X = ctx.read(x)
        y = layer(x)
        Y = forward_oracle(ctx, layer, X)
        if how == "dead":
            continue
        if how == "nograd":
            with torch.no_grad():
                layer(x)
        if how == "nested":  # the output is fed back into the layer
            mid, MID = y, Y
            if kind == "conv":
                pad = nn.functional.pad(mid, (0, 0, 0, 1))
                P_ = ctx.zeros(*(MID.shape[:2] + (MID.shape[2] + 1, MID.shape[3])))
                P_[:, :, :-1] = MID
                mid, MID2 = pad, P_
            else:
                MID2 = MID
            y2 = layer(mid)
            g = some_tensor(ctx, f"g{k}", tuple(y2.shape), n)
            G2 = ctx.read(g)
            G1 = back_oracle(ctx, layer, G2, MID2.shape)
            if kind == "conv":
                G1 = G1[:, :, :-1]
            uses += [(MID2, G2), (X, G1)]
            term = (y2 * g).sum()
        elif how == "double":  # both outputs reach the loss
            y2 = layer(x)
            g = some_tensor(ctx, f"g{k}", tuple(y.shape), n)
            G = ctx.read(g)
            term = ((y + y2) * g).sum()
            uses += [(X, G), (X, G)]
        else:
            g = some_tensor(ctx, f"g{k}", tuple(y.shape), n)
            term = (y * g).sum()
            uses.append((X, ctx.read(g)))
        total = term if total is None else total + term
    total.backward()
    expect(ctx, opt, cfg, layer, "a", uses)


def versus(ctx, cfg):
    """One pass with several uses moves the model like one pass per use."""
    kind, d = cfg["kind"], cfg["d"]
    nets, opts = [], []
    for k in range(2):
        m = nn.Linear(d, d) if kind == "linear" else nn.Conv2d(d, d, (2, 1))
        net = nn.Sequential(m)
        fill_params(ctx, net, "net", 0)
        nets.append(net)
        with warnings.catch_warnings(record=True):
            opts.append(build(ctx, net, dict(structures=tuple(cfg["st"]),
                                             kfac_approx=cfg.get("approx", "expand"),
                                             loss_average=cfg.get("avg", "batch")))[0])
    for t in range(cfg.get("steps", 1)):
        mirror(ctx, opts[0], [opts[1]], nets, f"s{t}", cfg.get("n", 1))
        total = None
        for net in nets:
            for p in net.parameters():
                p.grad = None
        for k in range(cfg["uses"]):
            x = some_tensor(ctx, f"x{k}@{t}", shape_in(kind, cfg, d, 1 + k % 2), cfg.get("n", 1))
            y = nets[0](x)
            g = some_tensor(ctx, f"g{k}@{t}", tuple(y.shape), 1)
            term = (y * g).sum()
            total = term if total is None else total + term
            nets[1](x).backward(g)
        total.backward()
        for a, b in zip(nets[0].parameters(), nets[1].parameters()):
            ctx.eq(f"gradients at {t}", a.grad, ctx.arr(b.grad))
        if cfg.get("n", 1):
            zero_grads(*nets)
        for o in opts:
            o.step()
        same_snapshot(ctx, f"step {t}", snapshot(ctx, opts[0]), snapshot(ctx, opts[1]))


def recompute(ctx, cfg):
    """Activation checkpointing runs a forward pass twice, but counts it once."""
    from torch.utils.checkpoint import checkpoint, checkpoint_sequential

    kind, name, d, n = cfg["kind"], cfg["act"], cfg["d"], cfg.get("n")
    first = module(ctx, kind, d[0], d[1], "W1", cfg.get("bias", True), n)
    bias = not cfg.get("bias", True)
    if kind == "conv":
        second = nn.Conv2d(d[1], d[2], (1, 1), bias=bias)
    else:
        second = nn.Linear(d[1], d[2], bias=bias)
    fill_params(ctx, second, "W2", n)
    net = nn.Sequential(first, second)
    opt = optimizer(ctx, net, cfg, cfg.get("nk", 1))
    re = cfg["reentrant"]

    def ck(fn, *args):
        if re is None:
            return fn(*args)
        return checkpoint(fn, *args, use_reentrant=re)

    uses = {"0": [], "1": []}
    total = None
    for k in range(cfg.get("passes", 1)):
        x = some_tensor(ctx, f"x{k}", shape_in(kind, cfg, d[0]), n)
        X = ctx.read(x)
        x.requires_grad_(True)
        Y = forward_oracle(ctx, first, X)
        other = some_tensor(ctx, f"o{k}", Y.shape, 1)
        Z, D = act_oracle(ctx, name, Y, ctx.read(other))

        def front(v, other=other):
            return act(name, first(v), other)

        how = cfg["how"]
        if how == "front":
            out = second(ck(front, x))
        elif how == "both":
            out = ck(lambda v, f=front: second(f(v)), x)
        elif how == "each":
            out = ck(second, ck(front, x))
        elif how == "nested":
            out = ck(lambda v, f=front: second(ck(f, v)), x)
        elif how == "tail":
            out = ck(second, front(x))
        else:
            class Act(nn.Module):
                def forward(self, y, other=other):
                    return act(name, y.clone(), other)

            out = checkpoint_sequential([first, Act(), second], 3, x, use_reentrant=bool(re))
        g = some_tensor(ctx, f"g{k}", tuple(out.shape), n)
        G = ctx.read(g)
        if cfg.get("dead") == k:
            continue
        G1 = back_oracle(ctx, second, G, Z.shape) * D
        uses["0"].append((X, G1))
        uses["1"].append((Z, G))
        term = (out * g).sum()
        total = term if total is None else total + term
    total.backward()
    expect(ctx, opt, cfg, first, "0", uses["0"])
    expect(ctx, opt, cfg, second, "1", uses["1"])
    for k, m in enumerate((first, second)):
        W = None
        for X, G in uses[str(k)]:
            if kind != "linear":
                break
            A, B = X.reshape(-1, X.shape[-1]), G.reshape(-1, G.shape[-1])
            P = ctx.mm(B.T, A)
            W = P if W is None else W + P
        if W is not None:
            ctx.eq(f"gradient {k}", m.weight.grad, W)


HARNESSES = {"inplace": inplace, "branches": branches, "reuse": reuse, "versus": versus,
             "recompute": recompute}


def configs(tier):
    out = []
    deep = tier == "thorough"
    pairs = [(STRUCTS[k], STRUCTS[(k + 2) % 6]) for k in range(6)]
    k = 0
    for kind in ("linear", "conv"):
        for a in ACTS:
            for ap in ("expand", "reduce"):
                st = pairs[k % 6]
                k += 1
                fork = a.startswith(("relu", "leaky"))
                out.append(dict(h="inplace", kind=kind, act=a, approx=ap, st=st,
                                d=(1, 1, 1) if fork else (2, 2, 1), bias=k % 2 == 0,
                                batch=2, tail=k % 3 == 0,
                                n=2 if fork else 3, nk=1))
                if kind == "linear":
                    out.append(dict(h="inplace", kind=kind, act=a, approx=ap, shared=1,
                                    st=pairs[k % 6], d=(2, 1 if fork else 2, 1), n=2,
                                    avg=(None, "batch", "batch+sequence")[k % 3],
                                    batch=1 if fork and not deep else 2, bias=k % 2 == 1))
        for st in pairs:
            for heads, dead, det, skip, part in (
                (2, (), (), 0, 0), (2, (), (), 1, 1), (3, (1,), (), 0, 1), (2, (0,), (), 1, 0),
                (2, (), (1,), 0, 0), (2, (), (0,), 1, 0), (1, (), (), 1, 1), (3, (), (2,), 1, 1),
            ):
                k += 1
                out.append(dict(h="branches", kind=kind, heads=heads, dead=dead,
                                detached=det, skip=skip, part=part, d=(1, 2, 1), st=st,
                                approx=("expand", "reduce")[k % 2], n=2,
                                avg=(None, "batch", "batch+sequence")[k % 3],
                                shared=(k // 2) % 2))
            for uses in (("plain", "plain"), ("plain", "plain", "plain"), ("nested",),
                         ("nested", "plain"), ("double",), ("plain", "dead", "plain"),
                         ("nograd", "double"), ("double", "nested", "plain")):
                k += 1
                out.append(dict(h="reuse", kind=kind, uses=uses, d=1 + k % 2, st=st,
                                approx=("expand", "reduce")[k % 2], n=2, bias=k % 3 != 0,
                                avg=(None, "batch", "batch+sequence")[k % 3], batch=k % 2,
                                shared=(k // 2) % 2, alias=k % 4 == 0))
            for uses in (2, 3) if not deep else (2, 3, 4):
                for n in (0, 1):
                    k += 1
                    out.append(dict(h="versus", kind=kind, uses=uses, d=2, st=st, n=n,
                                    approx=("expand", "reduce")[k % 2], steps=2,
                                    shared=k % 2))
    k = 0
    for kind in ("linear", "conv"):
        for how in ("front", "both", "each", "nested", "tail", "sequential"):
            for re in (False, True):
                for a in ("none", "mul", "relu", "mul_relu", "add"):
                    k += 1
                    if not deep and (k + (kind == "conv")) % 2:
                        continue
                    fork = a.endswith("relu")
                    out.append(dict(h="recompute", kind=kind, how=how, reentrant=re, act=a,
                                    d=(1, 1, 1) if fork else (2, 2, 1), n=2, nk=1,
                                    batch=1 + k % 2, bias=k % 3 != 0, st=pairs[k % 6],
                                    approx=("expand", "reduce")[k % 2],
                                    passes=1 if fork else 1 + k % 3,
                                    dead=1 if k % 4 == 0 else None,
                                    avg=(None, "batch", "batch+sequence")[k % 3],
                                    shared=(k // 2) % 2 if kind == "linear" else 0))
    return out
