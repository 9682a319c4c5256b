"""C03: extraction into a structure is the group-structure projection."""

from checks.common import *  # noqa: F403

PROP = "C03"
BOUNDS = (
    "all 12 classes; symmetric matrices with all entries symbolic (from_dense); "
    "inner products with every entry of K symbolic at small dimensions, and with "
    "24-60 symbolic entries of K and 12-24 of X spread over blocks/corners (others fixed "
    "non-zero numbers) at dimensions up to 61; 1-3 columns of X"
)


def from_dense(ctx, cfg):
    name, dim = cfg["s"], cfg["dim"]
    dt = DT[cfg.get("dt", "f32")]
    m, M = symmetric(ctx, "M", dim, cfg.get("n"), dtype=dt)
    a = cls_of(name).from_dense(m)
    same_class(ctx, "from_dense", a, name, dt)
    ctx.eq("from_dense", a.to_dense(), project(ctx, name, M))
    ctx.eq("M kept", m, M)


def inner(ctx, cfg):
    name, dim = cfg["s"], cfg["dim"]
    dt = DT[cfg.get("dt", "f32")]
    nK, nX = cfg.get("nK"), cfg.get("nX")
    k = arbitrary(ctx, name, dim, "K", dt, density=nK, layout=cfg.get("layout"))
    K = dense(ctx, k)
    if nK is None:
        check_spans(ctx, name, dim, K, "K")
    h = k.from_inner()
    same_class(ctx, "from_inner()", h, name, dt)
    ctx.eq("from_inner()", h.to_dense(), project(ctx, name, ctx.mm(K.T, K)))
    for n in cfg["cols"]:
        if cfg.get("tr"):
            x = some_tensor(ctx, f"X{n}", (n, dim), nX, dt).T
        else:
            x = some_tensor(ctx, f"X{n}", (dim, n), nX, dt)
        X = ctx.read(x)
        Y = ctx.mm(K.T, X)
        h = k.from_inner(X=x)
        same_class(ctx, "from_inner(X)", h, name, dt)
        ctx.eq(f"from_inner(X)#{n}", h.to_dense(), project(ctx, name, ctx.mm(Y, Y.T)))
        h = cls_of(name).from_mat_inner(x)
        same_class(ctx, "from_mat_inner(X)", h, name, dt)
        ctx.eq(f"from_mat_inner(X)#{n}", h.to_dense(),
               project(ctx, name, ctx.mm(X, X.T)))
        ctx.eq("X kept", x, X)
    s, S = symmetric(ctx, "S", dim, cfg.get("nS"), dt)
    h = k.from_inner2(s)
    same_class(ctx, "from_inner2(S)", h, name, dt)
    ctx.eq("from_inner2(S)", h.to_dense(), project(ctx, name, ctx.mm(K.T, S, K)))
    ctx.eq("S kept", s, S)
    ctx.eq("K kept", k.to_dense(), K)


HARNESSES = {"from_dense": from_dense, "inner": inner}

FD = {
    "dense": [1, 3],
    "diagonal": [1, 6],
    "block3": [1, 2, 3, 4, 6, 8],
    "hier3_2": [1, 2, 3, 4, 5, 6, 8, 9],
    "block30diagonal": [1, 2, 29, 30, 31, 60, 61],
    "hierarchical15_15": [1, 2, 14, 15, 16, 29, 30, 31, 33],
    "triltoeplitz": [1, 2, 3, 8],
    "triutoeplitz": [1, 2, 3, 8],
    "triltopleft": [1, 2, 5],
    "trilbottomright": [1, 2, 5],
    "triutopleft": [1, 2, 5],
    "triubottomright": [1, 2, 5],
}
IN = {
    "dense": [1, 2, 3, 4],
    "diagonal": [1, 2, 6],
    "block3": [1, 2, 3, 4, 5, 7],
    "hier3_2": [1, 2, 3, 4, 5, 6, 7],
    "triltoeplitz": [1, 2, 3, 5],
    "triutoeplitz": [1, 2, 3, 5],
    "triltopleft": [1, 2, 4, 6],
    "trilbottomright": [1, 2, 4, 6],
    "triutopleft": [1, 2, 4, 6],
    "triubottomright": [1, 2, 4, 6],
}
BIG = {
    "block30diagonal": [1, 2, 29, 30, 31, 61],
    "hierarchical15_15": [1, 2, 14, 15, 16, 29, 30, 31, 33],
    "dense": [12],
    "triltoeplitz": [14],
    "triutoeplitz": [14],
    "diagonal": [30],
}
MORE = {
    "block30diagonal": [3, 28, 59, 60, 62, 91],
    "hierarchical15_15": [3, 13, 17, 28, 32, 34, 46],
    "block3": [9, 10, 16],
    "hier3_2": [8, 9, 16],
    "dense": [6, 20],
    "triltoeplitz": [25],
    "triutoeplitz": [25],
    "triltopleft": [16],
    "trilbottomright": [16],
    "triutopleft": [16],
    "triubottomright": [16],
}


def configs(tier):
    out = []
    for s, ds in HUGE.items():
        for d in ds:
            out.append(dict(h="from_dense", s=s, dim=d, n=8, cost=5 * d))
            if d <= 130:
                out.append(dict(h="inner", s=s, dim=d, cols=[2], nK=3, nX=3, nS=3, cost=500))
        out.append(dict(h="inner", s=s, dim=7, cols=[70], nK=4, nX=4, nS=4, tr=1))
    for s, ds in FD.items():
        for d in ds:
            out.append(dict(h="from_dense", s=s, dim=d, cost=d / 4))
        out.append(dict(h="from_dense", s=s, dim=4, dt="bf16"))
        out.append(dict(h="from_dense", s=s, dim=4, dt="f16"))
    for s, ds in IN.items():
        for d in ds:
            full = dict(h="inner", s=s, dim=d, cost=d * d)
            if d <= 4:
                out.append(dict(full, cols=[1, 2]))
            else:
                out.append(dict(full, cols=[1, 2], nX=8, nS=8))
        out.append(dict(h="inner", s=s, dim=4, cols=[3], nK=8, nX=6, nS=6, tr=1))
        out.append(dict(h="inner", s=s, dim=4, cols=[2], nK=4, nX=4, nS=4, dt="bf16"))
        for lay in LAYOUTS:
            out.append(dict(h="inner", s=s, dim=6, cols=[2], nK=8, nX=6, nS=6, layout=lay))
        out.append(dict(h="inner", s=s, dim=4, cols=[2], nK=4, nX=4, nS=4, dt="f16"))
    for s, ds in BIG.items():
        for d in ds:
            out.append(dict(h="inner", s=s, dim=d, cols=[2], nK=16, nX=8, nS=8,
                            cost=d * d))
    if tier == "thorough":
        for s, ds in MORE.items():
            for d in ds:
                out.append(dict(h="from_dense", s=s, dim=d, cost=d))
                out.append(dict(h="inner", s=s, dim=d, cols=[1, 3], nK=40, nX=16, nS=20,
                                tr=1, cost=d * d))
        for s, ds in IN.items():
            if ds[-1] > 4:
                out.append(dict(h="inner", s=s, dim=ds[-1], cols=[1], cost=1000))
    return out
