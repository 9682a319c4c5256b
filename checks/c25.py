"""C25: structures defined by the user work like the built-in ones."""

from checks import c01, c02, c03, c04, c05, c15
from checks.trainer import *  # noqa: F403

PROP = "C25"
BOUNDS = (
    "block sizes 1-7, hierarchical borders 0-4, recursive templates in both orientations with "
    "every built-in class as either member, both MAX_DIMS orders (sizes 0-4) and up to three "
    "levels of nesting, five classes that define only the two conversions; dimensions 1-13 "
    "(and up to 40 with part of the entries symbolic), so that members are absent, partial "
    "and full; one to three training steps of layers of width 1-5, two workers"
)
ASSUMPTIONS = [
    "a user-defined class keeps matrices that already have the structure when extracting",
    "user-defined classes register tensors that hold matrix entries",
]
OPTS = dict(own_modes=True)
INF = "inf"


def ops(ctx, cfg):
    """Every operation of the interface gives the dense result."""
    kind = cfg["k"]
    with ctx.run():
        if kind == "products":
            c01.products(ctx, dict(cfg, cols=[1, 2]))
        elif kind == "linear":
            c02.linear_ops(ctx, cfg)
        elif kind == "from_dense":
            c03.from_dense(ctx, cfg)
        elif kind == "inner":
            c03.inner(ctx, dict(cfg, cols=[2], nK=cfg.get("n"), nX=4, nS=4))
        elif kind in c05.HARNESSES:
            c05.HARNESSES[kind](ctx, cfg)
        elif kind == "constructors":
            c04.constructors(ctx, cfg)
        else:
            c04.norms(ctx, dict(cfg, nA=cfg.get("n", None if cfg["dim"] < 4 else 2 if cfg["dim"] < 7 else 1)))


def reduce(ctx, cfg):
    c15.reduce(ctx, cfg)


def subclass(names):
    """Optimizer that knows the structures, like users register them."""
    from singd.optim.optimizer import SINGD

    table = dict(SINGD.SUPPORTED_STRUCTURES)
    table.update({n: cls_of(n) for n in names})
    return type("Mine", (SINGD,), dict(SUPPORTED_STRUCTURES=table))


def train(ctx, cfg):
    """Steps with user-defined structures for one or both factors follow the method."""
    with ctx.run():
        net = small(ctx, *cfg["d"], bias=cfg["bias"], n=0)
        hy = dict(structures=tuple(cfg["st"]), T=cfg.get("T", 1), weight_decay=0.125,
                  alpha1=cfg.get("alpha1", 0.5), kfac_like=bool(cfg.get("kfac_like")),
                  kfac_approx=cfg.get("approx") or "expand")
        with warnings.catch_warnings(record=True):
            opt, layers = build(ctx, net, hy, cls=subclass(cfg["st"]))
            tr = Trainer(ctx, opt, layers, n=1, grads="inactive")
            for t in range(cfg["steps"]):
                tr.cut(1, params=False, momenta=cfg.get("momenta", t == 0))
                tr.backward(((2,),) if cfg.get("approx") is None else ((1, 2),))
                tr.check_pending()
                tr.step()
                tr.fresh_grads()


METHODS = {
    "__matmul__": lambda a, b, d: a @ b,
    "__mul__": lambda a, b, d: a * 2.0,
    "__add__": lambda a, b, d: a + b,
    "rmatmat": lambda a, b, d: a.rmatmat(d),
    "from_inner": lambda a, b, d: a.from_inner(),
    "from_mat_inner": lambda a, b, d: a.from_mat_inner(d),
    "from_inner2": lambda a, b, d: a.from_inner2(d + d.T),
    "average_trace": lambda a, b, d: a.average_trace(),
    "diag_add_": lambda a, b, d: a.diag_add_(1.0),
    "frobenius_norm": lambda a, b, d: a.frobenius_norm(),
    "zeros": lambda a, b, d: a.zeros(2),
    "eye": lambda a, b, d: a.eye(2),
}


def warns(ctx, cfg):
    """Falling back to dense matrices is announced, unless the class asks not to."""
    with ctx.run():
        base = cls_of("user:upper")
        dim = cfg["dim"]
        d = some_tensor(ctx, "D", (dim, dim))
        m, _ = symmetric(ctx, "M", dim)
        for name, call in METHODS.items():
            for how in ("loud", "quiet", "except", "other"):
                over = {"loud": {}, "quiet": dict(WARN_NAIVE=False),
                        "except": dict(WARN_NAIVE_EXCEPTIONS={name, "from_mat_inner"}),
                        "other": dict(WARN_NAIVE_EXCEPTIONS=set(METHODS) - {name})}[how]
                cls = type("Custom", (base,), over)
                a, b = cls.from_dense(m), cls.from_dense(m)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    call(a, b, d)
                    quiet = how in ("quiet", "except")
                    text = [str(x.message) for x in w]
                    ctx.check(f"{name} {how}", (not text) if quiet else any(
                        f"Custom.{name}" in s for s in text), text)
        # nothing warns when the class defines the operation itself
        own = type("Own", (base,), dict(__mul__=lambda s, o: s, average_trace=lambda s: d[0, 0]))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            a = own.from_dense(m)
            a * 2.0
            a.average_trace()
            a.mul_(2.0).add_(a).infinity_vector_norm()
            ctx.check("own operations do not warn", not w)


HARNESSES = {"ops": ops, "reduce": reduce, "train": train, "warns": warns}
OPS = ("products", "linear", "from_dense", "inner", "constructors", "norms")
BUILTIN = list(CLASSES)
USER = ["user:full", "user:upper", "user:checker", "user:scalar", "user:multiple"]


def rec(kind, a, c, m, n):
    return f"{kind}({a}|{c}|{m},{n})"


def names():
    """(name, dimensions), small ones with all entries unknown."""
    out = [(f"block:{k}", ds) for k, ds in (
        (1, [1, 4]), (2, [1, 2, 3, 5]), (4, [3, 4, 5, 9]), (7, [6, 8]))]
    out += [(f"hier:{a},{b}", ds) for a, b, ds in (
        (0, 0, [1, 4]), (0, 2, [1, 2, 3, 5]), (2, 0, [1, 2, 3, 5]), (1, 1, [1, 2, 3, 5]),
        (2, 3, [2, 4, 5, 7]), (4, 1, [4, 5, 7]))]
    out += [(u, [1, 2, 3, 5]) for u in USER]
    k = 0
    for s in BUILTIN + USER[:-1]:  # (a number cannot be absent)
        for kind in ("TR", "BL"):
            o = BUILTIN[(k * 5 + 1) % 12]
            m, n = ((2, INF), (INF, 2), (3, INF), (INF, 1))[k % 4]
            a, c = (s, o) if k % 2 else (o, s)
            out.append((rec(kind, a, c, m, n), [1, 2, 3, 6] if k % 3 else [1, 4, 7]))
            k += 1
        # members that are larger than their own blocks
        kind = ("TR", "BL")[k % 2]
        out.append((rec(kind, "dense", s, 1, INF), [7]))
        out.append((rec(kind, s, "diagonal", INF, 1), [7]))
        k += 1
    out.append((rec("TR", "dense", "dense", 0, INF), [1, 3]))
    out.append((rec("BL", "dense", "triltoeplitz", INF, 0), [1, 3]))
    inner = rec("BL", "diagonal", "dense", 1, INF)
    inner2 = rec("TR", "hier3_2", "triutoeplitz", INF, 2)
    out.append((rec("TR", inner, "diagonal", 3, INF), [1, 3, 5]))
    out.append((rec("BL", "triltoeplitz", inner2, INF, 4), [2, 4, 6]))
    out.append((rec("TR", inner2, inner, 3, INF), [2, 5, 8]))
    out.append((rec("BL", rec("TR", inner, "block:2", 2, INF), "hier:1,1", INF, 3), [3, 5]))
    return out


BIG = [("block:11", [23, 40]), ("hier:5,9", [14, 31]),
       (rec("TR", "triltopleft", "block30diagonal", 4, INF), [40]),
       (rec("BL", "triutoeplitz", "hierarchical15_15", INF, 34), [36]),
       ("user:checker", [31])]


def configs(tier):
    out = [dict(h="warns", dim=2)]
    all_names = names()
    for k, (s, dims) in enumerate(all_names):
        for j, dim in enumerate(dims):
            for q, op in enumerate(OPS):
                c = dict(h="ops", k=op, s=s, dim=dim, cost=dim)
                if op == "inner" and dim > 4:
                    c["n"] = 10
                if op == "products":
                    c["chain"] = 4
                if op == "linear" and dim > 6:
                    c["n"] = 24
                out.append(c)
            if (k + j) % 2:
                out.append(dict(h="ops", k=OPS[(k + j) % 6], s=s, dim=dim, dt="bf16", n=4))
            out.append(dict(h="ops", k=("products", "linear", "norms", "inner")[(k + j) % 4],
                            s=s, dim=dim, layout=LAYOUTS[j % 2], n=6))
        dim = dims[min(1, len(dims) - 1)]
        for j, op in enumerate(c05.HARNESSES):
            if tier == "thorough" or op in ("pure", "kept") or (j + k) % 2:
                out.append(dict(h="ops", k=op, s=s, dim=dim, n=4 if dim > 2 else None, cost=dim))
        out.append(dict(h="reduce", W=2, s=s, d=dims[-1], op=("AVG", "SUM")[k % 2],
                        layout=("plain", "strided")[k // 2 % 2], n=8,
                        how=("default", "sync", "async")[k % 3 if k % 2 == 0 else 1]))
    for s, dims in BIG:
        for dim in dims:
            for op in OPS:
                out.append(dict(h="ops", k=op, s=s, dim=dim, n=3, cost=5 * dim))
    for k, (s, dims) in enumerate(all_names):
        o = all_names[(k * 7 + 3) % len(all_names)][0]
        st = (s, o) if k % 2 else (s, STRUCTS[k % 6])
        d = [(2, 1), (1, 2), (3, 2), (2, 3)][k % 4]
        out.append(dict(h="train", st=st[::-1] if k % 3 else st, d=d, bias=bool(k % 2),
                        steps=1 + k % 2, kfac_like=int(k % 5 == 0),
                        alpha1=0.0 if k % 4 == 0 else 0.5,                       approx="reduce" if k % 6 == 2 else None, cost=20))
    if tier == "thorough":
        for k, (s, dims) in enumerate(all_names):
            for dim in range(1, 14):
                if dim not in dims:
                    for op in OPS:
                        out.append(dict(h="ops", k=op, s=s, dim=dim, n=12, cost=dim))
            for j in range(3):
                out.append(dict(h="train", st=(s, all_names[(k + 5 * j + 1) % len(all_names)][0]),
                                d=(2, 2), bias=True, steps=2, cost=30))
    return out
