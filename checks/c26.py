"""C26: parts that do not fit together are refused, fitting ones accepted."""

from checks.trainer import *  # noqa: F403
from symtorch import engine as E

PROP = "C26"
BOUNDS = (
    "all non-negative extents of every part and all class-level sizes (block size, border "
    "sizes, MAX_DIMS) symbolic integers up to 1000, parts with 0-4 dimensions; "
    "arguments of step: any closure, from states with symbolic entries"
)
ASSUMPTIONS = [
    "constructors look at nothing but number of dimensions and extents of the parts, which "
    "are given as stand-ins for tensors while the extents are unknown",
]


HIGH = 1000


class Shape(tuple):
    def numel(self):
        n = 1
        for k in self:
            n = n * k
        return n


class Part:
    """Stand-in for a tensor of which only the shape is known."""

    def __init__(self, *shape, dtype=torch.float32):
        self.shape = Shape(shape)
        self.ndim = len(shape)
        self.dtype, self.device = dtype, torch.device("cpu")

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    ndimension = dim

    def numel(self):
        return self.shape.numel()

    def __len__(self):
        if isinstance(self.shape[0], E.SymInt):
            raise E.NotSupported("len() of a shape stand-in")
        return self.shape[0]

    @property
    def T(self):
        return Part(*self.shape[::-1])

    mT = T

    def detach(self):
        return self

    clone = contiguous = detach

    def __getattr__(self, name):
        raise E.NotSupported(f"shape stand-in: {name}")


def part(ctx, *shape):
    if any(isinstance(n, E.SymInt) for n in shape):
        return Part(*shape)
    return torch.empty(*shape, device="meta") if len(shape) else torch.empty((), device="meta")


def extents(ctx, label, n):
    return [ctx.int(f"{label}{k}", lo=0, hi=HIGH) for k in range(n)]


def verdict(ctx, label, ok, make):
    """The constructor accepts exactly if the parts fit."""
    if ok:
        try:
            return make()
        except ValueError as e:
            ctx.check(f"{label} accepted", False, str(e))
            return None
    ctx.raises(ValueError, make, f"{label} refused")
    return None


def blocks(ctx, cfg):
    from singd.structures.blockdiagonal import BlockDiagonalMatrixTemplate

    size = ctx.int("block size", lo=1, hi=HIGH)
    cls = type("Mine", (BlockDiagonalMatrixTemplate,), dict(BLOCK_DIM=size))
    b, r = extents(ctx, "b", cfg["nd"][0]), extents(ctx, "r", cfg["nd"][1])
    ok = len(b) == 3 and len(r) == 2
    ok = ok and b[1] == size and b[2] == size and r[0] == r[1] and r[0] < size
    verdict(ctx, "blocks", ok, lambda: cls(part(ctx, *b), part(ctx, *r)))


def hierarchical(ctx, cfg):
    from singd.structures.hierarchical import HierarchicalMatrixTemplate

    k1, k2 = ctx.int("k1", lo=0, hi=HIGH), ctx.int("k2", lo=0, hi=HIGH)
    cls = type("Mine", (HierarchicalMatrixTemplate,), dict(MAX_K1=k1, MAX_K2=k2))
    A, B, C, D, F = (extents(ctx, nm, n) for nm, n in zip("ABCDE", cfg["nd"]))
    ok = list(cfg["nd"]) == [2, 2, 1, 2, 2]
    ok = ok and A[0] == A[1] and F[0] == F[1] and A[0] <= k1 and F[0] <= k2
    ok = ok and D[0] == F[0] and D[1] == C[0] and B[0] == A[0] and B[1] == C[0] + F[0]
    m = verdict(ctx, "parts", ok, lambda: cls(*(part(ctx, *s) for s in (A, B, C, D, F))))
    if m is not None:
        ctx.check("tensors", [nm for nm, _ in m.named_tensors()] == list("ABCDE"))


def recursive(ctx, cfg):
    from singd.structures import recursive as R
    from singd.structures.base import StructuredMatrix

    class Square(StructuredMatrix):
        def __init__(self, n):
            super().__init__()
            self.register_tensor(part(ctx, n, n), "mat")

        def to_dense(self):
            return self.mat

        @classmethod
        def from_dense(cls, sym_mat):
            return cls(sym_mat.shape[0])

    class Other(Square):
        pass

    base = (R.RecursiveTopRightMatrixTemplate if cfg["kind"] == "TR"
            else R.RecursiveBottomLeftMatrixTemplate)
    lim = ctx.int("limit", lo=0, hi=HIGH)
    dims = (lim, float("inf")) if cfg["first"] else (float("inf"), lim)
    cls = type("Mine", (base,), dict(MAX_DIMS=dims, CLS_A=cfg_cls(cfg["A"], Square, Other),
                                     CLS_C=cfg_cls(cfg["C"], Square, Other)))
    a, c = ctx.int("a", lo=0, hi=HIGH), ctx.int("c", lo=0, hi=HIGH)
    B = extents(ctx, "B", cfg["nd"])
    A = cfg_cls(cfg["a"], Square, Other)(a)
    C = cfg_cls(cfg["c"], Square, Other)(c)
    ok = isinstance(A, cls.CLS_A) and isinstance(C, cls.CLS_C) and len(B) == 2
    rows, cols = (a, c) if cfg["kind"] == "TR" else (c, a)
    ok = ok and B[0] == rows and B[1] == cols
    ok = ok and (a if cfg["first"] else c) <= lim
    m = verdict(ctx, "parts", ok, lambda: cls(A, part(ctx, *B), C))
    if m is not None:
        ctx.check("members", m.A is A and m.C is C)


def cfg_cls(k, *options):
    return options[k]


def names(ctx, cfg):
    """Every tensor and member has a name of its own."""
    from singd.structures import recursive as R

    cls = type("Mine", (R.RecursiveTopRightMatrixTemplate,), dict(
        MAX_DIMS=(1, float("inf")), CLS_A=cls_of("dense"), CLS_C=cls_of("diagonal")))
    m, M = symmetric(ctx, "M", 3)
    s = cls.from_dense(m)
    D = dense(ctx, s)
    other = some_tensor(ctx, "T", (2, 2))
    for taken in ("A", "B", "C", "MAX_DIMS", "to_dense"):
        ctx.raises(ValueError, lambda: s.register_tensor(other, taken), f"tensor {taken}")
        ctx.raises(ValueError, lambda: s.register_substructure(s.C, taken), f"member {taken}")
    ctx.eq("unchanged", s.to_dense(), D)
    ctx.check("names", sorted(n for n, _ in s.named_substructures()) == ["A", "C"])
    s.register_tensor(other, "extra")
    ctx.check("registered", any(t is other for _, t in s.named_tensors()) and s.extra is other)
    own = [t for _, t in s.named_tensors(include_substructures=False)]
    ctx.check("own tensors", len(own) == 2 and own[0] is s.B and own[1] is other)
    ctx.check("distinct names", len({n for n, _ in s.named_tensors()}) == 4)


def limits(ctx, cfg):
    """Exactly one of the two limits is infinite, the other one a number."""
    inf = float("inf")
    m, M = symmetric(ctx, "M", cfg["dim"])
    n = cfg["n"]
    base = "TR" if cfg["tr"] else "BL"
    good = custom.make(f"{base}(dense|diagonal|{n},inf)")
    for k, dims in enumerate([(inf, inf), (n, n), (n,), (), (n, inf, inf), (float(n), inf),
                              (inf, float(n))]):
        cls = type("Mine", (good,), dict(MAX_DIMS=dims))
        ctx.raises(ValueError, lambda: cls.from_dense(m), f"MAX_DIMS {k}")
    for first in (True, False):
        cls = type("Mine", (good,), dict(MAX_DIMS=(n, inf) if first else (inf, n)))
        s = cls.from_dense(m)
        a, c = s.A.to_dense().shape[0], s.C.to_dense().shape[0]
        ctx.check(f"split {first}", a + c == cfg["dim"] and (a if first else c) ==
                  min(n, cfg["dim"]))
    d = cfg["dim"]
    for k, shape in enumerate([(d, d + 1), (d + 1, d), (d, 2 * d), (2 * d, d), (d, 0), (0, d),
                               (d,), (d, d, d), (1, d, d), (d, d, 1), ()]):
        x = some_tensor(ctx, f"X{k}", shape, 2)
        for name in ("hier3_2", "hierarchical15_15", "hier:0,1", "triltopleft",
                     "trilbottomright", "triutopleft", "triubottomright",
                     f"{base}(diagonal|dense|inf,{n})"):
            ctx.raises(ValueError, lambda: cls_of(name).from_dense(x), f"{name} from {shape}")


def closure(ctx, cfg):
    """`step` refuses closures, at any point, and changes nothing."""
    net = small(ctx, 2, 1)
    opt, per = build(ctx, net, dict(structures=tuple(cfg["st"]), T=cfg["T"]))
    tr = Trainer(ctx, opt, per, n=1, grads="inactive")
    tr.cut(1, params=False)
    calls = []
    for t in range(cfg["steps"]):
        tr.backward()
        g = [ctx.read(p.grad) for p in net.parameters()]
        pend = {n: ctx.read(m.to_dense()) for n, m in opt.H_Ks.items()}
        for fn in (lambda: calls.append(1), lambda: 0.0):
            ctx.raises(NotImplementedError, lambda: opt.step(fn), f"closure at {t}")
            ctx.raises(NotImplementedError, lambda: opt.step(closure=fn), f"closure= at {t}")
        ctx.check(f"closure not called at {t}", not calls)
        for k, p in enumerate(net.parameters()):
            ctx.eq(f"gradient {k} at {t}", p.grad, g[k])
        for n, H in pend.items():
            ctx.eq(f"statistics {n} at {t}", opt.H_Ks[n].to_dense(), H)
        for nm, l in tr.L.items():
            ctx.eq(f"K {nm} at {t}", opt.Ks[nm].to_dense(), l.K)
            for k, p in enumerate(l.params):
                ctx.eq(f"parameter {nm}.{k} at {t}", p, l.P[k])
        tr.step()
        tr.fresh_grads()


HARNESSES = {"blocks": blocks, "hierarchical": hierarchical, "recursive": recursive,
             "names": names, "limits": limits, "closure": closure}


def configs(tier):
    out = [dict(h="names")]
    for b in range(5):
        for r in range(4):
            out.append(dict(h="blocks", nd=(b, r)))
    good = (2, 2, 1, 2, 2)
    out.append(dict(h="hierarchical", nd=good))
    for k in range(5):
        for n in range(4):
            if n != good[k]:
                out.append(dict(h="hierarchical", nd=good[:k] + (n,) + good[k + 1:]))
    for kind, first in outer(("TR", "BL"), (True, False)):
        for A, a, C, c in outer((0, 1), (0, 1), (0, 1), (0, 1)):
            out.append(dict(h="recursive", kind=kind, first=first, A=A, a=a, C=C, c=c, nd=2))
        for nd in (0, 1, 3):
            out.append(dict(h="recursive", kind=kind, first=first, A=0, a=0, C=0, c=0, nd=nd))
    for dim in (1, 2, 4, 6):
        for n in (0, 1, 3):
            out.append(dict(h="limits", dim=dim, n=n, tr=(dim + n) % 2))
    for k, s in enumerate(STRUCTS):
        out.append(dict(h="closure", st=(s, STRUCTS[(k + 1) % 6]), T=1 + k % 2, steps=2))
    return out
