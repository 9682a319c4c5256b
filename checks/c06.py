"""C06: statistics of fully-connected layers."""

from checks.common import *  # noqa: F403
from checks.model import *  # noqa: F403

PROP = "C06"
BOUNDS = (
    "batch 1-3, up to two weight-sharing dimensions (sizes 1-3), layer widths 1-5 "
    "fully symbolic; batches up to 257, sequences up to 70, widths 14-130 with part of the entries symbolic; both approximations, "
    "all three loss averages, with and without bias, all selectable structures for both "
    "factors; inputs, output gradients and the current preconditioner symbolic"
)


def run_layer(ctx, cfg, layer, tag=""):
    from singd.optim.optimizer import SINGD

    return SINGD(layer, structures=tuple(cfg["st"]), kfac_approx=cfg["approx"],
                 loss_average=cfg["avg"], T=1)


def stats(ctx, cfg):
    st, approx, avg = cfg["st"], cfg["approx"], cfg["avg"]
    d_in, d_out = cfg["d"]
    n = cfg.get("n")
    layer = new_linear(ctx, d_in, d_out, cfg["bias"], "W", count=n)
    opt = run_layer(ctx, cfg, layer)
    K = fill_state(ctx, opt.Ks[""], "K", n)
    C = fill_state(ctx, opt.Cs[""], "C", n)
    x = some_tensor(ctx, "x", tuple(cfg["shape"]) + (d_in,), n)
    g = some_tensor(ctx, "g", tuple(cfg["shape"]) + (d_out,), n)
    X, G = ctx.read(x), ctx.read(g)
    y = layer(x)
    ctx.check("no statistics before backward", not opt.H_Ks and not opt.H_Cs)
    y.backward(g)
    HK = sandwich(ctx, st[0], K, input_moment(ctx, layer, X, approx))
    HC = sandwich(ctx, st[1], C, grad_moment(ctx, layer, G, avg, approx))
    ctx.eq("H_K", opt.H_Ks[""].to_dense(), HK)
    ctx.eq("H_C", opt.H_Cs[""].to_dense(), HC)
    same_class(ctx, "H_K", opt.H_Ks[""], st[0], F32)
    same_class(ctx, "H_C", opt.H_Cs[""], st[1], F32)
    ctx.eq("K kept", opt.Ks[""].to_dense(), K)
    ctx.eq("C kept", opt.Cs[""].to_dense(), C)
    ctx.eq("x kept", x, X)
    ctx.eq("g kept", g, G)
    if cfg.get("twice"):
        # statistics accumulate over backward passes until they are used, and belong
        # to the data of their own pass
        shape2 = tuple(cfg["twice"])
        x2 = some_tensor(ctx, "x2", shape2 + (d_in,), n)
        g2 = some_tensor(ctx, "g2", shape2 + (d_out,), n)
        X2, G2 = ctx.read(x2), ctx.read(g2)
        layer(x2).backward(g2)
        HK2 = sandwich(ctx, st[0], K, input_moment(ctx, layer, X2, approx))
        HC2 = sandwich(ctx, st[1], C, grad_moment(ctx, layer, G2, avg, approx))
        ctx.eq("H_K accumulated", opt.H_Ks[""].to_dense(), HK + HK2)
        ctx.eq("H_C accumulated", opt.H_Cs[""].to_dense(), HC + HC2)


def in_network(ctx, cfg):
    """Hidden layers: true inputs and output gradients as autograd sees them."""
    st, approx, avg = cfg["st"], cfg["approx"], cfg["avg"]
    d = cfg["d"]
    a = new_linear(ctx, d[0], d[1], cfg["bias"], "W1")
    b = new_linear(ctx, d[1], d[2], not cfg["bias"], "W2")
    model = nn.Sequential(a, nn.Flatten(start_dim=len(cfg["shape"])), b)
    opt = run_layer(ctx, cfg, model)
    x = some_tensor(ctx, "x", tuple(cfg["shape"]) + (d[0],))
    t = some_tensor(ctx, "t", tuple(cfg["shape"]) + (d[2],))
    X, Tt = ctx.read(x), ctx.read(t)
    ((model(x) * t).sum() * 0.5).backward()
    W1, W2 = ctx.read(a.weight), ctx.read(b.weight)
    h = np.empty(X.shape[:-1] + (d[1],), dtype=object)
    for i in np.ndindex(*X.shape[:-1]):
        for o in range(d[1]):
            h[i + (o,)] = ctx.total([X[i + (k,)] * W1[o, k] for k in range(d[0])])
            if a.bias is not None:
                h[i + (o,)] = h[i + (o,)] + ctx.read(a.bias)[o]
    g2 = Tt * ctx.frac(1, 2)
    g1 = ctx.mm(g2.reshape(-1, d[2]), W2).reshape(h.shape)
    for nm, layer, inp, gr in (("0", a, X, g1), ("2", b, h, g2)):
        K, C = dense(ctx, opt.Ks[nm]), dense(ctx, opt.Cs[nm])
        ctx.eq(f"H_K {nm}", opt.H_Ks[nm].to_dense(),
               sandwich(ctx, st[0], K, input_moment(ctx, layer, inp, approx)))
        ctx.eq(f"H_C {nm}", opt.H_Cs[nm].to_dense(),
               sandwich(ctx, st[1], C, grad_moment(ctx, layer, gr, avg, approx)))


HARNESSES = {"stats": stats, "network": in_network}
AVGS = (None, "batch", "batch+sequence")


def configs(tier):
    out = []
    deep = tier == "thorough"
    # every setting on small layers
    shapes = [(1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)]
    for approx, avg, bias in outer(("expand", "reduce"), AVGS, (True, False)):
        for k, sh in enumerate(shapes):
            st = (STRUCTS[k % 6], STRUCTS[(k + 3 + bias) % 6])
            out.append(dict(h="stats", st=st, approx=approx, avg=avg, bias=bias, d=(2, 2),
                            shape=sh))
        out.append(dict(h="stats", st=("dense", "dense"), approx=approx, avg=avg,
                        bias=bias, d=(2, 2), shape=(2, 2), twice=(3,)))
        out.append(dict(h="network", st=("dense", "diagonal"), approx=approx, avg=avg,
                        bias=bias, d=(2, 2, 1), shape=(2, 2)))
    # every pair of structures
    for a, b in outer(STRUCTS, STRUCTS):
        for approx in ("expand", "reduce"):
            out.append(dict(h="stats", st=(a, b), approx=approx, avg="batch",
                            bias=True, d=(2, 3), shape=(2, 2)))
    for s in STRUCTS:
        out.append(dict(h="stats", st=(s, s), approx="expand", avg="batch", bias=True,
                        d=(1, 1), shape=(2,)))
        out.append(dict(h="stats", st=(s, s), approx="expand", avg="batch", bias=True,
                        d=(3, 4), shape=(3,), cost=5))
        for d in ((31, 32), (30, 16), (61, 2), (14, 15)):
            out.append(dict(h="stats", st=(s, s), approx="expand", avg="batch",
                            bias=True, d=d, shape=(2,), n=4, cost=20))
    # large batches, long sequences, wide layers; a few entries are unknown
    for k, sh in enumerate([(33,), (65,), (130,), (17, 5), (3, 40), (2, 9, 4), (2, 2, 1, 2),
                            (1, 70), (257,)]):
        for approx, bias in outer(("expand", "reduce"), (True, False)):
            st = (STRUCTS[k % 6], STRUCTS[(k + 3 + bias) % 6])
            out.append(dict(h="stats", st=st, approx=approx, avg=AVGS[(k + bias) % 3],
                            bias=bias, d=(2, 3), shape=sh, n=5, cost=20))
        out.append(dict(h="stats", st=st[::-1], approx="expand", avg=AVGS[k % 3],
                        bias=True, d=(3, 2), shape=(2,) + sh[1:], n=5, twice=sh, cost=20))
    for k, s in enumerate(STRUCTS):
        for d in ((70, 3), (3, 130), (129, 1)):
            out.append(dict(h="stats", st=(s, s), approx=("expand", "reduce")[k % 2],
                            avg=AVGS[k % 3], bias=bool(k % 2), d=d, shape=(2, 2), n=4, cost=50))
    if deep:
        for approx, avg, bias, s in outer(("expand", "reduce"), AVGS, (True, False), STRUCTS):
            for sh in shapes + [(4,), (3, 2), (2, 2, 2)]:
                out.append(dict(h="stats", st=(s, s), approx=approx, avg=avg, bias=bias,
                                d=(3, 2), shape=sh, twice=(2,) + sh[1:], cost=3))
    return out
