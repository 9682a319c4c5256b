"""C04: zero, identity, trace and norms equal the dense ones."""

from checks.common import *  # noqa: F403

PROP = "C04"
BOUNDS = (
    "all 12 classes; dimensions per configuration; all entries symbolic and "
    "unconstrained; constructors in float32, float16, bfloat16, float64 and the default"
)


def constructors(ctx, cfg):
    name, dim = cfg["s"], cfg["dim"]
    for dt in (None, F32, BF16, F16, F64):
        cls = cls_of(name)
        kw = {} if dt is None else {"dtype": dt}
        z, e = cls.zeros(dim, **kw), cls.eye(dim, **kw)
        dt = dt or torch.get_default_dtype()
        same_class(ctx, f"zeros {dt}", z, name, dt)
        same_class(ctx, f"eye {dt}", e, name, dt)
        ctx.eq(f"zeros#{dt}", z.to_dense(), ctx.zeros(dim, dim))
        ctx.eq(f"eye#{dt}", e.to_dense(), ctx.eye(dim))
        # two constructions are independent of each other
        if dt == F32:
            lb = "default" if not kw else "f32"
            n = cfg.get("n")
            fill(ctx, z, f"Z{lb}", n)
            Z = dense(ctx, z)
            fill(ctx, e, f"E{lb}", n)
            if n is None:
                check_spans(ctx, name, dim, Z, "zeros filled")
                check_spans(ctx, name, dim, dense(ctx, e), "eye filled")
            ctx.eq("second zeros", cls.zeros(dim, **kw).to_dense(), ctx.zeros(dim, dim))
            ctx.eq("second eye", cls.eye(dim, **kw).to_dense(), ctx.eye(dim))
            ctx.eq("filled zeros kept", z.to_dense(), Z)


def norms(ctx, cfg):
    name, dim = cfg["s"], cfg["dim"]
    dt = DT[cfg.get("dt", "f32")]
    a = arbitrary(ctx, name, dim, "A", dt, density=cfg.get("nA"), layout=cfg.get("layout"))
    A = dense(ctx, a)
    ent = list(A.reshape(-1))
    tr = a.average_trace()
    ctx.eq("average trace", tr, avg_trace(ctx, A))
    ctx.check("trace is a scalar", tuple(tr.shape) == ())
    n = a.infinity_vector_norm()
    ctx.eq("largest entry", n, ctx.max([ctx.abs(x) for x in ent]))
    f = a.frobenius_norm()
    ctx.eq("Frobenius norm", f, ctx.sqrt(ctx.total([x * x for x in ent])))
    ctx.eq("A kept", a.to_dense(), A)


HARNESSES = {"constructors": constructors, "norms": norms}

DIMS = {
    "dense": [1, 2, 5],
    "diagonal": [1, 2, 9],
    "block3": [1, 2, 3, 4, 6, 8],
    "hier3_2": [1, 2, 3, 4, 5, 6, 8],
    "block30diagonal": [1, 2, 29, 30, 31, 60, 61],
    "hierarchical15_15": [1, 2, 14, 15, 16, 29, 30, 31, 33],
    "triltoeplitz": [1, 2, 3, 8],
    "triutoeplitz": [1, 2, 3, 8],
    "triltopleft": [1, 2, 3, 6],
    "trilbottomright": [1, 2, 3, 6],
    "triutopleft": [1, 2, 3, 6],
    "triubottomright": [1, 2, 3, 6],
}
MORE = {
    "dense": [16],
    "diagonal": [40],
    "block3": [5, 7, 9, 12],
    "hier3_2": [7, 9, 16],
    "block30diagonal": [28, 59, 62, 90, 91],
    "hierarchical15_15": [13, 17, 28, 32, 34, 50],
    "triltoeplitz": [30],
    "triutoeplitz": [30],
    "triltopleft": [15],
    "trilbottomright": [15],
    "triutopleft": [15],
    "triubottomright": [15],
}


def configs(tier):
    out = []
    for s, ds in HUGE.items():
        for d in ds:
            out.append(dict(h="constructors", s=s, dim=d, n=8, cost=5 * d))
            out.append(dict(h="norms", s=s, dim=d, nA=3, cost=5 * d))
    dims = {k: v + (MORE[k] if tier == "thorough" else []) for k, v in DIMS.items()}
    for s, ds in dims.items():
        for d in ds:
            out.append(dict(h="constructors", s=s, dim=d))
            out.append(dict(h="norms", s=s, dim=d, cost=d))
        out.append(dict(h="norms", s=s, dim=4, dt="bf16"))
        for lay in LAYOUTS:
            out.append(dict(h="norms", s=s, dim=4, layout=lay))
        out.append(dict(h="norms", s=s, dim=4, dt="f16"))
    return out
