"""C05: operations leave their operands alone and results do not share memory."""

from checks.common import *  # noqa: F403

PROP = "C05"
BOUNDS = (
    "all 12 classes, dimensions with absent/partial/full blocks; every operation on "
    "symbolic operands, followed by overwriting the result (or the operands) with fresh "
    "unknowns and by every in-place operation with symbolic factors"
)


def ops(ctx, cfg):
    """(label, operands, thunk) of every operation that is not in-place."""
    name, dim = cfg["s"], cfg["dim"]
    a = arbitrary(ctx, name, dim, "A", layout=cfg.get("layout"), density=cfg.get("n"))
    b = arbitrary(ctx, name, dim, "B", layout=cfg.get("layout"), density=cfg.get("n"))
    x = some_tensor(ctx, "X", (dim, 2), cfg.get("n"))
    sym, _ = symmetric(ctx, "S", dim, cfg.get("n"))
    f = ctx.scalar("f")
    return a, b, x, sym, {
        "A+B": lambda: a + b,
        "A*f": lambda: a * f,
        "A*2": lambda: a * 2.0,
        "A@B": lambda: a @ b,
        "B@A": lambda: b @ a,
        "A@A": lambda: a @ a,
        "A+A": lambda: a + a,
        "A@X": lambda: a @ x,
        "A.T@X": lambda: a.rmatmat(x),
        "inner": lambda: a.from_inner(),
        "inner X": lambda: a.from_inner(X=x),
        "mat inner": lambda: a.from_mat_inner(x),
        "inner2": lambda: a.from_inner2(sym),
    }


READ_ONLY = ("average_trace", "infinity_vector_norm", "frobenius_norm", "to_dense")


def state(ctx, a, b, x, sym):
    return [dense(ctx, a), dense(ctx, b), ctx.read(x), ctx.read(sym)]


def unchanged(ctx, label, now, before):
    for k, (u, v) in enumerate(zip(now, before)):
        ctx.eq(f"{label} operand {k}", u, v)


def tensors(r):
    return [r] if isinstance(r, torch.Tensor) else [t for _, t in r.named_tensors()]


def value(ctx, r):
    return ctx.read(r) if isinstance(r, torch.Tensor) else dense(ctx, r)


def overwrite(ctx, t, label, cfg):
    n = cfg.get("n")
    if n:  # every entry changes, some of them to unknown values
        t.mul_(0.5).add_(1.5)
    ctx.fill(t, label, spread_mask(tuple(t.shape), n) if n and n < t.numel() else None)


def pure(ctx, cfg):
    """No operation changes an operand, now or when its result is modified later."""
    a, b, x, sym, table = ops(ctx, cfg)
    before = state(ctx, a, b, x, sym)
    for k, (label, op) in enumerate(table.items()):
        r = op()
        unchanged(ctx, label, state(ctx, a, b, x, sym), before)
        # a second evaluation gives an independent object
        r2 = op()
        val2 = value(ctx, r2)
        for j, t in enumerate(tensors(r)):
            if t.numel():
                with torch.no_grad():
                    overwrite(ctx, t, f"R{k}.{j}", cfg)
        unchanged(ctx, f"{label} result overwritten:", state(ctx, a, b, x, sym), before)
        ctx.eq(f"{label} evaluated twice", value(ctx, r2), val2)
        if not isinstance(r2, torch.Tensor):
            # in-place operations on the result
            r2.mul_(0.5)
            r2.diag_add_(1.25)
            r2.add_(a, alpha=-0.75)
            unchanged(ctx, f"{label} result updated:", state(ctx, a, b, x, sym), before)
        else:
            r2.mul_(0.5).add_(1.0)
            unchanged(ctx, f"{label} result updated:", state(ctx, a, b, x, sym), before)


def reading(ctx, cfg):
    """Traces, norms and conversions change nothing."""
    a, b, x, sym, _ = ops(ctx, cfg)
    before = state(ctx, a, b, x, sym)
    for fn in READ_ONLY:
        getattr(a, fn)()
        unchanged(ctx, fn, state(ctx, a, b, x, sym), before)


def kept(ctx, cfg):
    """Results keep their value when operands are modified later."""
    a, b, x, sym, table = ops(ctx, cfg)
    res = {k: op() for k, op in table.items()}
    vals = {k: value(ctx, r) for k, r in res.items()}
    a.mul_(2.0)
    b.diag_add_(1.0)
    x.add_(1.0)
    sym.mul_(3.0)
    a.add_(b, alpha=0.5)
    for k, r in res.items():
        ctx.eq(f"{k} kept after in-place operations", value(ctx, r), vals[k])
    for m, lb in ((a, "A2"), (b, "B2")):
        fill(ctx, m, lb, cfg.get("n"))
    overwrite(ctx, x, "X2", cfg)
    overwrite(ctx, sym, "S2", cfg)
    for k, r in res.items():
        ctx.eq(f"{k} kept after overwriting", value(ctx, r), vals[k])


def inplace(ctx, cfg):
    """In-place operations change the object they are called on and nothing else."""
    name, dim = cfg["s"], cfg["dim"]
    a = arbitrary(ctx, name, dim, "A", layout=cfg.get("layout"), density=cfg.get("n"))
    b = arbitrary(ctx, name, dim, "B", layout=cfg.get("layout"), density=cfg.get("n"))
    f, g = ctx.scalar("f"), ctx.scalar("g")
    A, B = dense(ctx, a), dense(ctx, b)
    r = a.add_(b, alpha=f)
    ctx.check("add_ returns its object", r is a)
    ctx.eq("add_", a.to_dense(), A + B * ctx.num(f))
    ctx.eq("add_ operand", b.to_dense(), B)
    r = a.mul_(g)
    ctx.check("mul_ returns its object", r is a)
    A = (A + B * ctx.num(f)) * ctx.num(g)
    ctx.eq("mul_", a.to_dense(), A)
    ctx.eq("mul_ other", b.to_dense(), B)
    r = a.diag_add_(f)
    ctx.check("diag_add_ returns its object", r is a)
    A = A + ctx.eye(dim) * ctx.num(f)
    ctx.eq("diag_add_", a.to_dense(), A)
    ctx.eq("diag_add_ other", b.to_dense(), B)
    # afterwards the two objects are independent
    fill(ctx, b, "B2", cfg.get("n"))
    ctx.eq("operand overwritten", a.to_dense(), A)
    B = dense(ctx, b)
    fill(ctx, a, "A2", cfg.get("n"))
    ctx.eq("target overwritten", b.to_dense(), B)
    # with itself
    A = dense(ctx, a)
    a.add_(a, alpha=f)
    ctx.eq("add_ itself", a.to_dense(), A * (ctx.frac(1) + ctx.num(f)))


HARNESSES = {"pure": pure, "kept": kept, "reading": reading, "inplace": inplace}
DIMS = {
    "dense": [1, 2, 3],
    "diagonal": [1, 3],
    "block3": [1, 2, 3, 4, 6],
    "hier3_2": [1, 3, 4, 5, 6],
    "block30diagonal": [1, 2],
    "hierarchical15_15": [1, 2],
    "triltoeplitz": [1, 2, 3],
    "triutoeplitz": [1, 2, 3],
    "triltopleft": [1, 2, 3],
    "trilbottomright": [1, 2, 3],
    "triutopleft": [1, 2, 3],
    "triubottomright": [1, 2, 3],
}
# larger dimensions, with part of the entries unknown
MORE = {
    "block30diagonal": [30, 31, 61],
    "hierarchical15_15": [15, 16, 30, 31, 33],
    "dense": [20],
    "diagonal": [40],
    "block3": [10],
    "hier3_2": [12],
    "triltoeplitz": [33],
    "triutoeplitz": [33],
}


def configs(tier):
    out = []
    for s, ds in MORE.items():
        for k, d in enumerate(ds):
            for h in HARNESSES:
                out.append(dict(h=h, s=s, dim=d, n=3, cost=3 * d))
    for s, ds in DIMS.items():
        if tier == "thorough":
            ds = sorted(set(ds + [4, 5, 7]))
        for d in ds:
            for h in HARNESSES:
                out.append(dict(h=h, s=s, dim=d, cost=d))
        for k, h in enumerate(HARNESSES):
            out.append(dict(h=h, s=s, dim=4, layout=LAYOUTS[k % 2], cost=4))
    return out
