"""C07: statistics of 2d convolutions."""

from checks.common import *  # noqa: F403
from checks.model import *  # noqa: F403

PROP = "C07"
BOUNDS = (
    "images up to 6x6, batch 1-2, up to 4 input / 4 output channels, kernels up to 3x3 "
    "(rectangular included), strides 1-3, paddings 0-2 (numeric, 'same', 'valid'; padding "
    "modes zeros, circular, replicate, reflect), dilation 1-2, 1-4 groups; both "
    "approximations, all loss averages, with and without bias; all image values, output "
    "gradients and preconditioner entries symbolic (part of them for the larger layers); "
    "with part of the values symbolic: images up to 16x13, kernels up to 7x5, strides up to 5, "
    "padding up to 4, dilation 3, 8 groups, 40 channels, batches up to 33"
)


def make(ctx, cfg):
    layer = nn.Conv2d(
        cfg["ch"][0], cfg["ch"][1], tuple(cfg["k"]), stride=tuple(cfg.get("s", (1, 1))),
        padding=cfg["p"] if isinstance(cfg.get("p", 0), str) else tuple(cfg.get("p", (0, 0))),
        dilation=tuple(cfg.get("dil", (1, 1))), groups=cfg.get("groups", 1),
        bias=cfg["bias"], padding_mode=cfg.get("mode", "zeros"),
    )
    return layer


def stats(ctx, cfg):
    from singd.optim.optimizer import SINGD

    st, approx, avg, n = cfg["st"], cfg["approx"], cfg["avg"], cfg.get("n")
    layer = make(ctx, cfg)
    fill_params(ctx, layer, "W", count=2)
    opt = SINGD(layer, structures=tuple(st), kfac_approx=approx, loss_average=avg, T=1)
    K = fill_state(ctx, opt.Ks[""], "K", n)
    C = fill_state(ctx, opt.Cs[""], "C", n)
    x = some_tensor(ctx, "x", (cfg["b"], cfg["ch"][0]) + tuple(cfg["im"]), cfg.get("nx"))
    X = ctx.read(x)
    y = layer(x)
    pads = conv_geometry(layer)
    for d in range(2):
        size = (cfg["im"][d] + sum(pads[d]) - layer.dilation[d] * (layer.kernel_size[d] - 1)
                - 1) // layer.stride[d] + 1
        ctx.check("output size", y.shape[2 + d] == size)
    g = some_tensor(ctx, "g", tuple(y.shape), cfg.get("ng"))
    G = ctx.read(g)
    y.backward(g)
    ctx.eq("H_K", opt.H_Ks[""].to_dense(),
           sandwich(ctx, st[0], K, input_moment(ctx, layer, X, approx)))
    ctx.eq("H_C", opt.H_Cs[""].to_dense(),
           sandwich(ctx, st[1], C, grad_moment(ctx, layer, G, avg, approx)))
    same_class(ctx, "H_K", opt.H_Ks[""], st[0], F32)
    same_class(ctx, "H_C", opt.H_Cs[""], st[1], F32)
    ctx.eq("x kept", x, X)
    ctx.eq("g kept", g, G)


def patches(ctx, cfg):
    """The rows of the patch matrix reproduce the convolution itself (oracle check)."""
    layer = make(ctx, cfg)
    fill_params(ctx, layer, "W")
    x = some_tensor(ctx, "x", (cfg["b"], cfg["ch"][0]) + tuple(cfg["im"]))
    y = ctx.read(layer(x))
    R = conv_rows(ctx, ctx.read(x), layer, "expand")
    W = ctx.read(layer.weight).reshape(layer.weight.shape[0], -1)
    if layer.bias is not None:
        W = np.concatenate([W, ctx.read(layer.bias).reshape(-1, 1)], axis=1)
    M = np.array([list(r) for r in R], dtype=object)
    Y = np.moveaxis(y, 1, -1).reshape(-1, W.shape[0])
    ctx.eq("convolution", Y, ctx.mm(M, W.T))


HARNESSES = {"stats": stats, "oracle": patches}
AVGS = (None, "batch", "batch+sequence")

# geometry corners
GEO = [
    dict(ch=(1, 1), k=(1, 1), im=(1, 1)),
    dict(ch=(1, 2), k=(2, 2), im=(3, 3)),
    dict(ch=(2, 1), k=(2, 2), im=(2, 2)),
    dict(ch=(1, 2), k=(2, 1), im=(3, 2), s=(2, 1)),
    dict(ch=(1, 1), k=(1, 3), im=(2, 4), s=(1, 2)),
    dict(ch=(1, 1), k=(2, 3), im=(4, 3), s=(2, 1), p=(1, 0)),
    dict(ch=(1, 1), k=(2, 2), im=(3, 3), p=(1, 1), s=(2, 2)),
    dict(ch=(1, 1), k=(2, 2), im=(4, 3), dil=(2, 1)),
    dict(ch=(1, 1), k=(2, 2), im=(3, 3), dil=(2, 2), p=(1, 1), s=(1, 2)),
    dict(ch=(1, 1), k=(3, 3), im=(3, 3), p="same"),
    dict(ch=(1, 1), k=(3, 1), im=(3, 2), p="same", dil=(1, 2)),
    dict(ch=(1, 1), k=(2, 2), im=(3, 3), p="valid", s=(2, 1)),
    dict(ch=(2, 2), k=(2, 1), im=(3, 2), groups=2),
    dict(ch=(4, 2), k=(1, 2), im=(2, 3), groups=2, s=(1, 2)),
    dict(ch=(3, 3), k=(2, 2), im=(2, 3), groups=3, p=(0, 1)),
    dict(ch=(1, 1), k=(2, 2), im=(5, 4), s=(3, 3)),
    dict(ch=(1, 1), k=(3, 3), im=(2, 2), p=(2, 2), s=(2, 3)),
    dict(ch=(1, 1), k=(2, 2), im=(3, 2), p=(1, 1), mode="circular"),
    dict(ch=(1, 1), k=(2, 3), im=(3, 3), p=(1, 2), mode="reflect"),
    dict(ch=(1, 1), k=(3, 2), im=(2, 3), p=(2, 1), s=(2, 1), mode="replicate"),
    dict(ch=(1, 1), k=(3, 3), im=(3, 2), p="same", mode="circular"),
    dict(ch=(1, 2), k=(3, 1), im=(3, 3), p="same", mode="reflect"),
    dict(ch=(2, 2), k=(2, 2), im=(2, 2), p=(1, 0), groups=2, mode="replicate"),
]
BIG = [
    dict(ch=(3, 16), k=(3, 3), im=(4, 4), p=(1, 1), n=4, nx=6, ng=4),
    dict(ch=(4, 31), k=(3, 3), im=(5, 5), s=(2, 2), n=4, nx=6, ng=4),
    dict(ch=(6, 4), k=(3, 2), im=(6, 5), s=(2, 1), dil=(1, 2), groups=2, n=4, nx=6, ng=4),
    dict(ch=(8, 62), k=(2, 2), im=(3, 3), groups=2, n=3, nx=5, ng=4),
]
# larger images, kernels, strides, batches; a few entries are unknown
LARGE = [
    dict(ch=(1, 2), k=(5, 5), im=(9, 8), p=(2, 2)),
    dict(ch=(1, 1), k=(7, 4), im=(16, 11), s=(4, 2), p=(3, 0)),
    dict(ch=(3, 2), k=(3, 3), im=(10, 9), dil=(3, 2), p=(2, 1)),
    dict(ch=(8, 8), k=(2, 1), im=(4, 3), groups=8),
    dict(ch=(6, 3), k=(2, 3), im=(5, 6), groups=3, s=(1, 3), p=(1, 1)),
    dict(ch=(2, 1), k=(1, 1), im=(12, 13)),
    dict(ch=(1, 3), k=(4, 5), im=(4, 5)),
    dict(ch=(1, 1), k=(2, 2), im=(3, 3), b=17),
    dict(ch=(2, 2), k=(2, 1), im=(3, 2), b=33, groups=2),
    dict(ch=(1, 1), k=(3, 5), im=(7, 6), p="same", dil=(2, 1)),
    dict(ch=(1, 1), k=(5, 3), im=(6, 7), p=(4, 2), mode="circular"),
    dict(ch=(1, 1), k=(3, 3), im=(6, 6), p=(3, 3), s=(5, 4), mode="replicate"),
    dict(ch=(40, 1), k=(1, 2), im=(2, 2)),
]


def configs(tier):
    out = []
    deep = tier == "thorough"
    for k, geo in enumerate(GEO):
        if "groups" not in geo:
            out.append(dict(h="oracle", b=1, bias=bool(k % 2), **geo))
        for approx in ("expand", "reduce"):
            for bias in (True, False):
                st = (STRUCTS[k % 6], STRUCTS[(k + 2 + bias) % 6])
                out.append(dict(h="stats", st=st, approx=approx, avg=AVGS[(k + bias) % 3],
                                bias=bias, b=1, **geo))
            out.append(dict(h="stats", st=("diagonal", "dense"), approx=approx,
                            avg=AVGS[(k + 2) % 3], bias=True, b=2, **geo))
    for approx, avg, bias in outer(("expand", "reduce"), AVGS, (True, False)):
        for geo in (GEO[1], GEO[6], GEO[12]):
            out.append(dict(h="stats", st=("dense", "dense"), approx=approx, avg=avg,
                            bias=bias, b=2, **geo))
    for s in STRUCTS:
        for approx in ("expand", "reduce"):
            for geo in BIG if approx == "expand" or deep else BIG[:2]:
                out.append(dict(h="stats", st=(s, s), approx=approx, avg="batch", bias=True,
                                b=2, cost=10, **geo))
    for k, geo in enumerate(LARGE):
        for approx, bias in outer(("expand", "reduce"), (True, False)):
            st = (STRUCTS[(k + bias) % 6], STRUCTS[(k + 2) % 6])
            out.append(dict(dict(h="stats", st=st, approx=approx, avg=AVGS[(k + bias) % 3],
                                 bias=bias, b=2, n=3, nx=5, ng=5, cost=20), **geo))
    if deep:
        for geo in GEO:
            for approx, avg, bias, s in outer(("expand", "reduce"), AVGS, (True, False),
                                              STRUCTS):
                out.append(dict(h="stats", st=(s, s), approx=approx, avg=avg, bias=bias,
                                b=2, **geo))
    return out
