"""C01: products of structured matrices equal the dense products."""

from checks.common import *  # noqa: F403

PROP = "C01"
BOUNDS = (
    "classes: all 12 (6 selectable ones, Block3, Hierarchical3_2, 4 triangular "
    "arrow ones); dimensions listed per configuration, chosen so that every block is "
    "absent, partial, full; 1-4 columns; every entry of every operand symbolic and "
    "unconstrained (blocks need not be symmetric); dimensions up to 300 and up to 65 columns "
    "with part of the entries symbolic and the others fixed numbers"
)
ASSUMPTIONS = []


def products(ctx, cfg):
    name, dim, cols = cfg["s"], cfg["dim"], cfg["cols"]
    dt = DT[cfg.get("dt", "f32")]
    n = cfg.get("n")  # number of unknown entries of every tensor (default: all)
    a = arbitrary(ctx, name, dim, "A", dt, layout=cfg.get("layout"), density=n)
    b = arbitrary(ctx, name, dim, "B", dt, layout=cfg.get("layout"), density=n)
    A, B = dense(ctx, a), dense(ctx, b)
    if n is None:
        check_spans(ctx, name, dim, A, "A")
    c = a @ b
    same_class(ctx, "A@B", c, name, dt)
    ctx.eq("A@B", c.to_dense(), ctx.mm(A, B))
    ctx.eq("A unchanged", a.to_dense(), A)
    # products stay usable: their blocks are arbitrary, too
    if dim <= cfg.get("chain", 5):
        d = c @ a
        same_class(ctx, "A@B@A", d, name, dt)
        ctx.eq("A@B@A", d.to_dense(), ctx.mm(A, B, A))
    for k in cols:
        x = some_tensor(ctx, f"X{k}", (dim, k), n, dtype=dt)
        X = ctx.read(x)
        y = a @ x
        ctx.check("A@X dtype", y.dtype == dt, y.dtype)
        ctx.eq(f"A@X#{k}", y, ctx.mm(A, X))
        y = a.rmatmat(x)
        ctx.check("A.T@X dtype", y.dtype == dt, y.dtype)
        ctx.eq(f"A.T@X#{k}", y, ctx.mm(A.T, X))
        ctx.eq(f"X unchanged#{k}", x, X)


def transposed_input(ctx, cfg):
    """Non-contiguous right factors (as passed by the optimizer)."""
    name, dim = cfg["s"], cfg["dim"]
    a = arbitrary(ctx, name, dim, "A")
    A = dense(ctx, a)
    x = some_tensor(ctx, "X", (cfg["cols"], dim)).T
    X = ctx.read(x)
    ctx.eq("A@X.T", a @ x, ctx.mm(A, X))
    ctx.eq("A.T@X.T", a.rmatmat(x), ctx.mm(A.T, X))
    big = some_tensor(ctx, "Y", (2 * dim, 2 * cfg["cols"]))
    y = big[::2, ::2]
    Y = ctx.read(y)
    ctx.eq("A@Y strided", a @ y, ctx.mm(A, Y))
    ctx.eq("A.T@Y strided", a.rmatmat(y), ctx.mm(A.T, Y))


HARNESSES = {"products": products, "transposed": transposed_input}

SMALL = {
    "dense": [1, 2, 4],
    "diagonal": [1, 2, 5],
    "block3": [1, 2, 3, 4, 6, 8],
    "hier3_2": [1, 2, 3, 4, 5, 6, 8],
    "triltoeplitz": [1, 2, 3, 6],
    "triutoeplitz": [1, 2, 3, 6],
    "triltopleft": [1, 2, 4],
    "trilbottomright": [1, 2, 4],
    "triutopleft": [1, 2, 4],
    "triubottomright": [1, 2, 4],
}
LARGE = {
    "block30diagonal": [1, 2, 29, 30, 31, 60, 61],
    "hierarchical15_15": [1, 2, 14, 15, 16, 29, 30, 31, 33],
    "dense": [12],
    "diagonal": [40],
    "triltoeplitz": [17],
    "triutoeplitz": [17],
    "triltopleft": [9],
    "trilbottomright": [9],
    "triutopleft": [9],
    "triubottomright": [9],
}
MORE = {
    "block30diagonal": [59, 62, 90, 91],
    "hierarchical15_15": [13, 17, 28, 32, 45, 60],
    "block3": [5, 7, 9, 10, 13],
    "hier3_2": [7, 9, 12, 15],
    "dense": [3, 5, 8, 20],
    "triltoeplitz": [4, 5, 10, 32],
    "triutoeplitz": [4, 5, 10, 32],
    "triltopleft": [3, 5, 16],
    "trilbottomright": [3, 5, 16],
    "triutopleft": [3, 5, 16],
    "triubottomright": [3, 5, 16],
}
# large dimensions, with only part of the entries unknown
HUGE = {
    "dense": [(50, 33), (129, 2)],
    "diagonal": [(130, 65), (300, 3)],
    "block3": [(61, 5), (100, 2)],
    "block30diagonal": [(121, 3), (150, 40), (260, 2)],
    "hier3_2": [(40, 3), (101, 2)],
    "hierarchical15_15": [(66, 3), (130, 33), (260, 2)],
    "triltoeplitz": [(40, 33), (130, 3)],
    "triutoeplitz": [(40, 33), (130, 3)],
    "triltopleft": [(130, 3)],
    "trilbottomright": [(130, 3)],
    "triutopleft": [(130, 3)],
    "triubottomright": [(130, 3)],
}


def configs(tier):
    out = []
    for s, dims in HUGE.items():
        for d, c in dims:
            out.append(dict(h="products", s=s, dim=d, cols=[c], n=8, cost=5 * d))
    for s, dims in SMALL.items():
        for d in dims:
            out.append(dict(h="products", s=s, dim=d, cols=[1, 2, 3], cost=d))
        out.append(dict(h="transposed", s=s, dim=dims[-1], cols=2))
    for s, dims in LARGE.items():
        for d in dims:
            out.append(dict(h="products", s=s, dim=d, cols=[1, 2], cost=d * 10))
    out.append(dict(h="transposed", s="block30diagonal", dim=31, cols=2, cost=50))
    out.append(dict(h="transposed", s="hierarchical15_15", dim=31, cols=2, cost=50))
    for s in CLASSES:
        out.append(dict(h="products", s=s, dim=4, cols=[2], dt="bf16"))
        out.append(dict(h="products", s=s, dim=4, cols=[2], dt="f16"))
        for lay in LAYOUTS:
            out.append(dict(h="products", s=s, dim=5, cols=[2], layout=lay))
    if tier == "thorough":
        for s, dims in MORE.items():
            for d in dims:
                out.append(dict(h="products", s=s, dim=d, cols=[1, 4], cost=d * 10))
    return out
