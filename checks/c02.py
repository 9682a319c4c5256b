"""C02: sums, scalings and diagonal shifts equal the dense ones."""

from checks.common import *  # noqa: F403

PROP = "C02"
BOUNDS = (
    "all 12 classes, dimensions per configuration; all matrix entries and all scalars "
    "(scale, alpha, diagonal shift) symbolic and unconstrained; chains of two in-place "
    "operations; float32, float16, bfloat16"
)


def linear_ops(ctx, cfg):
    name, dim = cfg["s"], cfg["dim"]
    dt = DT[cfg.get("dt", "f32")]
    nA = cfg.get("n")
    a = arbitrary(ctx, name, dim, "A", dt, layout=cfg.get("layout"), density=nA)
    b = arbitrary(ctx, name, dim, "B", dt, layout=cfg.get("layout"), density=nA)
    A, B = dense(ctx, a), dense(ctx, b)
    if nA is None:
        check_spans(ctx, name, dim, A, "A")
    s, t, u = ctx.scalar("s"), ctx.scalar("t"), ctx.scalar("u")
    S, T, U = ctx.num(s), ctx.num(t), ctx.num(u)
    EYE = ctx.eye(dim)

    c = a + b
    same_class(ctx, "A+B", c, name, dt)
    ctx.eq("A+B", c.to_dense(), A + B)
    c = a * s
    same_class(ctx, "A*s", c, name, dt)
    ctx.eq("A*s", c.to_dense(), A * S)
    ctx.eq("A*const", (a * 2.5).to_dense(), A * ctx.frac(5, 2))
    ctx.eq("A*0", (a * 0.0).to_dense(), ctx.zeros(dim, dim))
    # operands are intact
    ctx.eq("A kept", a.to_dense(), A)
    ctx.eq("B kept", b.to_dense(), B)

    # in-place
    r = a.add_(b, alpha=s)
    ctx.check("add_ returns self", r is a)
    same_class(ctx, "A.add_", a, name, dt)
    V = A + B * S
    ctx.eq("A.add_(B,s)", a.to_dense(), V)
    ctx.eq("B kept by add_", b.to_dense(), B)
    r = a.add_(b)
    ctx.check("add_ returns self (default)", r is a)
    V = V + B
    ctx.eq("A.add_(B)", a.to_dense(), V)
    r = b.mul_(t)
    ctx.check("mul_ returns self", r is b)
    same_class(ctx, "B.mul_", b, name, dt)
    ctx.eq("B.mul_(t)", b.to_dense(), B * T)
    r = b.diag_add_(u)
    ctx.check("diag_add_ returns self", r is b)
    same_class(ctx, "B.diag_add_", b, name, dt)
    ctx.eq("B.diag_add_(u)", b.to_dense(), B * T + EYE * U)
    r = b.diag_add_(-1.0).mul_(s).diag_add_(t)
    ctx.check("chained in-place returns self", r is b)
    W = (B * T + EYE * U - EYE) * S + EYE * T
    ctx.eq("chain", b.to_dense(), W)
    # operations keep working after in-place shifts, and self-addition is safe
    c = b + b
    ctx.eq("B+B", c.to_dense(), W + W)
    b.add_(b, alpha=2.0)
    ctx.eq("B.add_(B,2)", b.to_dense(), W * ctx.frac(3, 1))
    ctx.eq("A untouched by ops on B", a.to_dense(), V)


def views(ctx, cfg):
    """In-place operations on a matrix built from user-supplied storage."""
    name, dim = cfg["s"], cfg["dim"]
    m, M = symmetric(ctx, "M", dim)
    a = cls_of(name).from_dense(m)
    A = dense(ctx, a)
    # every selectable operation gives the same on a copy with own storage
    s = ctx.scalar("s")
    S = ctx.num(s)
    # ... and in place (on slices of the given matrix)
    a.diag_add_(s)
    A = A + ctx.eye(dim) * S
    ctx.eq("diag shift in place", a.to_dense(), A)
    if name != "dense":
        a.mul_(0.5)
        A = A * ctx.frac(1, 2)
        ctx.eq("scaled in place", a.to_dense(), A)
    b = a * 1.0
    b.diag_add_(s)
    ctx.eq("diag shift", b.to_dense(), A + ctx.eye(dim) * S)
    b.mul_(s)
    ctx.eq("scaled", b.to_dense(), (A + ctx.eye(dim) * S) * S)
    b.add_(a, alpha=s)
    ctx.eq("added", b.to_dense(), (A + ctx.eye(dim) * S) * S + A * S)
    ctx.eq("A kept", a.to_dense(), A)


HARNESSES = {"linear": linear_ops, "views": views}

DIMS = {
    "dense": [1, 3, 7],
    "diagonal": [1, 4, 11],
    "block3": [1, 2, 3, 4, 6, 7, 8],
    "hier3_2": [1, 2, 3, 4, 5, 6, 8],
    "block30diagonal": [1, 29, 30, 31, 60, 61],
    "hierarchical15_15": [1, 14, 15, 16, 29, 30, 31, 33],
    "triltoeplitz": [1, 2, 7],
    "triutoeplitz": [1, 2, 7],
    "triltopleft": [1, 2, 5],
    "trilbottomright": [1, 2, 5],
    "triutopleft": [1, 2, 5],
    "triubottomright": [1, 2, 5],
}
MORE = {
    "dense": [2, 16, 30],
    "diagonal": [2, 64],
    "block3": [5, 9, 10, 16],
    "hier3_2": [7, 9, 14],
    "block30diagonal": [2, 15, 32, 59, 90, 91, 120],
    "hierarchical15_15": [2, 13, 17, 28, 32, 34, 45, 64],
    "triltoeplitz": [3, 31],
    "triutoeplitz": [3, 31],
    "triltopleft": [3, 20],
    "trilbottomright": [3, 20],
    "triutopleft": [3, 20],
    "triubottomright": [3, 20],
}


def configs(tier):
    out = []
    for s, ds in HUGE.items():
        for d in ds:
            out.append(dict(h="linear", s=s, dim=d, n=8, cost=5 * d))
    dims = {k: v + (MORE[k] if tier == "thorough" else []) for k, v in DIMS.items()}
    for s, ds in dims.items():
        for d in ds:
            out.append(dict(h="linear", s=s, dim=d, cost=d))
        out.append(dict(h="views", s=s, dim=5))
        for lay in LAYOUTS:
            for d in (1, 2, 5, 7):
                out.append(dict(h="linear", s=s, dim=d, layout=lay))
        out.append(dict(h="linear", s=s, dim=4, dt="bf16"))
        out.append(dict(h="linear", s=s, dim=4, dt="f16"))
        if s in ("dense", "diagonal"):
            out.append(dict(h="linear", s=s, dim=4, dt="f64"))
    return out
