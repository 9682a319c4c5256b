"""C09: parameters move along the preconditioned gradient."""

from checks.common import *  # noqa: F403
from checks.model import *  # noqa: F403

PROP = "C09"
BOUNDS = (
    "up to four consecutive steps from arbitrary factors (not symmetric), gradients, "
    "parameters; layer widths 1-4 fully symbolic and up to 131 partly symbolic; linear "
    "layers and convolutions (kernels up to 3x3), with and without bias; learning rate, "
    "momentum and weight decay symbolic (zero included); all structure pairs"
)


def make(ctx, cfg, n):
    if cfg.get("conv"):
        ci, co, k, gr = cfg["conv"]
        layer = nn.Conv2d(ci, co, tuple(k), bias=cfg["bias"], groups=gr)
        x = torch.ones(1, ci, *k)
    else:
        layer = nn.Linear(*cfg["d"], bias=cfg["bias"])
        x = torch.ones(1, cfg["d"][0])
    fill_params(ctx, layer, "P", n)
    return layer, x


def hyper(ctx, cfg):
    out = dict(lr=ctx.scalar("lr", lo=0))
    out["momentum"] = ctx.scalar("momentum", lo=0) if cfg.get("mom", 1) else 0.0
    out["weight_decay"] = ctx.scalar("wd", lo=0) if cfg.get("wd", 1) else 0.0
    return out


def grads(ctx, layer, label, n):
    """Arbitrary gradients; as arrays (weight, bias or None)."""
    out = []
    for nm, p in layer.named_parameters():
        g = some_tensor(ctx, f"{label}.{nm}", tuple(p.shape), n)
        with torch.no_grad():
            if p.grad is None:
                p.grad = g
            else:
                p.grad.copy_(g)
        out.append(ctx.read(p.grad))
    return out if len(out) == 2 else out + [None]


def tell(ctx, cfg, opt, scale):
    """Communicate the gradient scale of this step."""
    if cfg.get("scale") == "explicit":
        opt.set_current_grad_scale(scale)
    elif cfg.get("scale") == "scaler":
        opt.grad_scale = torch.zeros(())
        ctx.write(opt.grad_scale, ctx.scal(scale))
        opt.found_inf = torch.zeros(())


def expected(ctx, opt, layer, G, P, buf, h):
    K, C = dense(ctx, opt.Ks[""]), dense(ctx, opt.Cs[""])
    N = natural_gradient(ctx, K, C, grad_matrix(ctx, *G))
    nats = split_matrix(N, tuple(layer.weight.shape), layer.bias is not None)
    out, bufs = [], []
    for k, (p, nat) in enumerate(zip(P, nats)):
        if p is None:
            continue
        b = buf[k] if buf is not None else ctx.zeros(*p.shape)
        q, nb = param_update(ctx, p, nat, b, **h)
        out.append(q)
        bufs.append(nb)
    return out, bufs


def steps(ctx, cfg):
    """Several steps; the factors are arbitrary at every one."""
    from singd.optim.optimizer import SINGD

    n = cfg.get("n")
    layer, x = make(ctx, cfg, n)
    h = hyper(ctx, cfg)
    opt = SINGD(layer, T=100, structures=tuple(cfg["st"]), **h)
    # step 0 updates the preconditioner
    layer(x).sum().backward()
    zero_grads(layer)
    P = [ctx.read(p) for p in layer.parameters()]
    tell(ctx, cfg, opt, 2.0)
    opt.step()
    # zero gradients: only weight decay acts
    G0 = [ctx.zeros(*p.shape) for p in P] + [None]
    want, buf = expected(ctx, opt, layer, G0[:2], P, None, h)
    for k, p in enumerate(layer.parameters()):
        ctx.eq(f"parameter {k} at 0", p, want[k])
    for t in range(1, 1 + cfg.get("steps", 2)):
        # parameters and factors become arbitrary, momentum buffers are kept
        fill_params(ctx, layer, f"P{t}", n)
        if cfg.get("factors", 1) or t == 1:
            fill_state(ctx, opt.Ks[""], f"K{t}", n)
            fill_state(ctx, opt.Cs[""], f"C{t}", n)
        P = [ctx.read(p) for p in layer.parameters()]
        G = grads(ctx, layer, f"G{t}", n)
        K, C = dense(ctx, opt.Ks[""]), dense(ctx, opt.Cs[""])
        V = G
        if cfg.get("scale"):  # the gradients carry a scale
            s = ctx.scalar(f"scale{t}", positive=True)
            tell(ctx, cfg, opt, s)
            V = [g if g is None else g * ctx.inv(ctx.num(s)) for g in G]
        opt.step()
        G_, G = G, V
        want, buf = expected(ctx, opt, layer, G, P, buf, h)
        for k, p in enumerate(layer.parameters()):
            ctx.eq(f"parameter {k} at {t}", p, want[k])
            ctx.eq(f"gradient {k} at {t} kept", p.grad, G_[k])
        ctx.eq(f"K kept at {t}", opt.Ks[""].to_dense(), K)
        ctx.eq(f"C kept at {t}", opt.Cs[""].to_dense(), C)


def updated(ctx, cfg):
    """At update steps the new factors precondition the gradient."""
    from singd.optim.optimizer import SINGD

    layer, x = make(ctx, cfg, 2)
    h = hyper(ctx, dict(mom=0, wd=0))
    opt = SINGD(layer, T=1, structures=tuple(cfg["st"]), lr_cov=0.5, damping=0.25,
                alpha1=0.0, **h)
    bufs = None
    for t in range(2):
        layer(x).sum().backward()
        P = [ctx.read(p) for p in layer.parameters()]
        G = grads(ctx, layer, f"G{t}", None)
        old = dense(ctx, opt.Cs[""])
        # the factors change by an arbitrary amount at this step
        fill_state(ctx, opt.H_Cs[""], f"HC{t}", 2)
        if t == 1:
            reset_state(ctx, opt)
        opt.step()
        if ctx.sym:
            new = dense(ctx, opt.Cs[""])
            same = all(a.same(b) for a, b in zip(old.reshape(-1), new.reshape(-1)))
            ctx.check(f"factors moved at {t}", not same)
        want, _ = expected(ctx, opt, layer, G, P, None, h)
        for k, p in enumerate(layer.parameters()):
            ctx.eq(f"parameter {k} at {t}", p, want[k])
            ctx.eq(f"gradient {k} at {t} kept", p.grad, G[k])


def descent(ctx, cfg):
    """<G, step> = -lr |C.T G K|^2: the linearised loss never increases."""
    from singd.optim.optimizer import SINGD

    layer, x = make(ctx, cfg, None)
    lr = ctx.scalar("lr", lo=0)
    opt = SINGD(layer, T=100, structures=tuple(cfg["st"]), lr=lr, momentum=0.0)
    layer(x).sum().backward()
    zero_grads(layer)
    opt.step()
    K = fill_state(ctx, opt.Ks[""], "K")
    C = fill_state(ctx, opt.Cs[""], "C")
    P = [ctx.read(p) for p in layer.parameters()]
    G = grads(ctx, layer, "G", None)
    opt.step()
    change = []
    for k, p in enumerate(layer.parameters()):
        d = ctx.read(p) - P[k]
        change += [a * b for a, b in zip(d.reshape(-1), G[k].reshape(-1))]
    M = ctx.mm(C.T, grad_matrix(ctx, *G), K)
    sq = ctx.total([v * v for v in M.reshape(-1)])
    total = ctx.total(change)
    ctx.eq("linearised change", total, -(ctx.num(lr) * sq))


HARNESSES = {"steps": steps, "updated": updated, "descent": descent}
CONVS = [(1, 2, (2, 1), 1), (2, 2, (1, 2), 2), (2, 1, (1, 1), 1), (1, 1, (2, 2), 1)]


def configs(tier):
    out = []
    deep = tier == "thorough"
    for a, b in outer(STRUCTS, STRUCTS):
        out.append(dict(h="steps", st=(a, b), d=(2, 2), bias=True))
    for k, s in enumerate(STRUCTS):
        o = STRUCTS[(k + 1) % 6]
        for bias in (True, False):
            for d in ((1, 1), (2, 3), (3, 2)):
                out.append(dict(h="steps", st=(s, o), d=d, bias=bias, factors=0, steps=3,
                                cost=3))
            out.append(dict(h="steps", st=(s, o), conv=CONVS[k % 4], bias=bias, cost=3))
            for sc in ("explicit", "scaler"):
                out.append(dict(h="steps", st=(s, o), d=(1, 2), bias=bias, scale=sc, mom=0,
                                wd=int(bias), factors=0, cost=3))
            out.append(dict(h="steps", st=(s, "diagonal"), conv=CONVS[(k + 2) % 4], bias=bias,
                            scale="explicit", mom=int(bias), wd=0, n=2, cost=3))
            out.append(dict(h="steps", st=(o, s), conv=CONVS[(k + 1) % 4], bias=bias,
                            mom=bias, wd=not bias, cost=3))
            out.append(dict(h="updated", st=(s, o), d=(2, 2), bias=bias, cost=5))
        out.append(dict(h="updated", st=(s, o), conv=CONVS[k % 4], bias=True, cost=5))
        out.append(dict(h="descent", st=(s, o), d=(2, 2), bias=True))
        for d in ((31, 32), (15, 16), (2, 61)):
            out.append(dict(h="steps", st=(s, s), d=d, bias=True, n=3, steps=1, cost=20))
        out.append(dict(h="steps", st=(s, s), conv=(4, 16, (2, 2), 1), bias=True, n=3,
                        steps=2, cost=20))
        for d in ((130, 2), (3, 129)):
            out.append(dict(h="steps", st=(s, s), d=d, bias=bool(k % 2), n=2, steps=1, cost=50))
        out.append(dict(h="steps", st=(s, s), conv=(8, 34, (3, 3), 2), bias=bool(k % 2), n=2,
                        steps=1, cost=50))
    if deep:
        for a, b in outer(STRUCTS, STRUCTS):
            for bias in (True, False):
                for c in CONVS:
                    out.append(dict(h="steps", st=(a, b), conv=c, bias=bias, steps=3))
                out.append(dict(h="steps", st=(a, b), d=(3, 3), bias=bias, steps=4))
                out.append(dict(h="updated", st=(a, b), d=(2, 2), bias=bias))
            out.append(dict(h="steps", st=(a, b), d=(33, 34), bias=True, n=4, steps=2))
    return out
