"""C18: invalid optimizer settings are rejected, valid ones accepted unaltered."""

from torch.nn.parallel import DistributedDataParallel

from checks.trainer import *  # noqa: F403
from symtorch import engine as E

PROP = "C18"
BOUNDS = (
    "every real and every integer value of each numeric setting (all at once symbolic), "
    "every string for the approximation and the loss average, given as argument or in a "
    "parameter group; all partitions of two layers' parameters into at most three groups; "
    "all pairs of structures and data types"
)
ASSUMPTIONS = ["strings are compared, not taken apart, by the constructor"]
NUMS = ("lr", "lr_cov", "momentum", "alpha1", "weight_decay")
TABLE = ["expand", "reduce", "batch", "batch+sequence", "Expand", "", "mean", "sum", "sequence"]


class SymStr(str):
    """An unknown string: comparisons with literals are decided by the solver."""

    def __new__(cls, code):
        self = str.__new__(cls, "<unknown string>")
        self.code = code
        return self

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, str):
            return False
        if o not in TABLE:
            TABLE.append(str.__str__(o))
        return bool(self.code == TABLE.index(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise E.NotSupported("hash of an unknown string")

    def __deepcopy__(self, memo):
        return self


def unknown_string(ctx, name):
    code = ctx.int(name, lo=0, hi=60)
    if isinstance(code, E.SymInt):
        return SymStr(code)
    return TABLE[code] if code < len(TABLE) else f"unknown{code}"


def model(kind="two"):
    if kind == "nested":
        return nn.Sequential(nn.Sequential(nn.Sequential(nn.Linear(1, 2))),
                             nn.ModuleDict(dict(a=nn.ModuleList([nn.Conv2d(1, 1, (1, 2))]))))
    if kind == "two":
        return nn.Sequential(nn.Linear(1, 2), nn.Conv2d(1, 1, (1, 2)))
    return nn.Sequential(nn.Linear(2, 1))


def construct(net, **kw):
    from singd.optim.optimizer import SINGD

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        opt = SINGD(net, **kw)
    return opt, [str(w.message) for w in rec]


def same(ctx, label, got, want):
    if isinstance(want, (float, int)) and not isinstance(want, bool) and not callable(got):
        ctx.eq(label, ctx.scal(got), ctx.scal(want))
    else:
        ctx.check(label, got is want or got == want, f"{got} {want}")


def negative(ctx, v):
    return ctx.positive(-ctx.num(v))


def numbers(ctx, cfg):
    """Every combination of values: an error exactly if one of them is negative."""
    kw = {}
    for k, kind in cfg["sym"].items():
        kw[k] = ctx.int(k, lo=-4, hi=6) if kind == "int" else ctx.scalar(k)
    if cfg.get("callable"):
        kw["lr_cov"] = ctx.uf("schedule", lambda t: 0.25)
    kw["kfac_like"] = bool(cfg.get("kfac_like"))
    bad = False
    exc = None
    told = []
    try:
        opt, told = construct(model(), **kw)
    except ValueError as e:
        exc = e
    for k in cfg["sym"]:
        if negative(ctx, kw[k]):
            bad = True
    ctx.check("rejected exactly if negative", (exc is not None) == bad, f"{exc} {kw}")
    if exc is None:
        for g in opt.param_groups:
            for k, v in kw.items():
                if k == "alpha1" and kw["kfac_like"]:
                    same(ctx, "alpha1 disabled", g[k], 0.0)
                    on = ctx.positive(ctx.num(v))
                    ctx.check("warning about the Riemannian momentum",
                              any("alpha1" in s for s in told) == on, told)
                else:
                    same(ctx, f"{k} unaltered", g[k], v)
        if not kw["kfac_like"]:
            ctx.check("no warnings", not told, told)


def strings(ctx, cfg):
    """Unknown strings, as arguments or in a parameter group."""
    net = model()
    kw = {}
    ok = dict(kfac_approx=("expand", "reduce"), loss_average=("batch", "batch+sequence"))
    for k in cfg["keys"]:
        kw[k] = unknown_string(ctx, k)
    where = cfg["where"]
    ps = [list(m.parameters()) for m in net]
    if where == "args":
        args = kw
    elif where == "first":
        args = dict(params=[dict(params=ps[0], **kw), dict(params=ps[1])])
    else:
        args = dict(params=[dict(params=ps[0]), dict(params=ps[1], **kw)])
    exc = None
    try:
        opt, told = construct(net, **args)
    except ValueError as e:
        exc = e
    good = all(any(v == o for o in ok[k]) for k, v in kw.items())
    ctx.check("rejected exactly if unknown", (exc is None) == good, f"{exc} {kw}")
    if exc is None:
        gi = dict(args=0, first=0, second=1)[where]
        for k, v in kw.items():
            ctx.check(f"{k} unaltered", opt.param_groups[gi][k] is v
                      or opt.param_groups[gi][k] == v)


def partition(ctx, cfg):
    """Parameters of two layers distributed over groups; -1: not passed."""
    net = model(cfg.get("model", "two"))
    ps = list(net.parameters())
    n = max(cfg["to"]) + 1
    groups = [dict(params=[p for p, g in zip(ps, cfg["to"]) if g == i],
                   lr=ctx.scalar(f"lr{i}", positive=True)) for i in range(n)]
    split = any(len({g for g in cfg["to"][2 * i : 2 * i + 2] if g >= 0}) > 1 for i in range(2))
    if split:
        ctx.raises(ValueError, lambda: construct(net, params=groups), "split layer")
        return
    opt, told = construct(net, params=groups)
    ctx.check("groups", len(opt.param_groups) == n)
    for g, h in zip(opt.param_groups, groups):
        ctx.check("parameters of the group", [id(p) for p in g["params"]]
                  == [id(p) for p in h["params"]])
        ctx.eq("lr of the group", ctx.scal(g["lr"]), ctx.scal(h["lr"]))


def wrapped(ctx, cfg):
    net = model()
    if cfg["how"] == "custom":  # user-defined wrapper classes
        class Wrapper(nn.DataParallel):
            pass

        w = Wrapper(net)
    elif cfg["how"] == "dp":
        w = nn.DataParallel(net)
    else:  # created without a process group
        w = DistributedDataParallel.__new__(DistributedDataParallel)
        nn.Module.__init__(w)
        w.module = net
    ctx.raises(TypeError, lambda: construct(w), "wrapped model")
    opt, _ = construct(net)
    ctx.check("plain model accepted", len(opt.param_groups) == 1)


def accepted(ctx, cfg):
    """Documented settings are accepted and stored as given."""
    kw = dict(cfg["kw"])
    if "preconditioner_dtype" in kw:
        kw["preconditioner_dtype"] = tuple(d and DT[d] for d in kw["preconditioner_dtype"])
    for k in cfg.get("sym", ()):
        kw[k] = ctx.int(k, lo=1, hi=50) if k == "T" else ctx.scalar(k, positive=True)
    net = model(cfg.get("model", "two"))
    group = {}
    if cfg.get("group"):
        group = {k: kw.pop(k) for k in list(kw) if k not in ("init_grad_scale", "warn_unsupported")}
        opt, told = construct(net, params=[dict(params=list(net.parameters()), **group)], **kw)
    else:
        opt, told = construct(net, **kw)
    g = opt.param_groups[0]
    for k, v in {**kw, **group}.items():
        if k == "init_grad_scale":
            if scales_of(opt) is not None:
                ctx.eq("initial scale", ctx.scal(scales_of(opt)[-1]), ctx.scal(v))
        elif k != "warn_unsupported":
            same(ctx, f"{k} unaltered", g[k], v)
    st = g["structures"]
    for nm in opt.Ks:
        ctx.check("structures", type(opt.Ks[nm]) is cls_of(st[0])
                  and type(opt.Cs[nm]) is cls_of(st[1]))
    ctx.check("no warnings", not told, told)


def like(ctx, cfg):
    """The KFAC-like mode of one group disables the Riemannian momentum of that group."""
    net = nn.Sequential(*[nn.Linear(1, 1) for _ in range(cfg["n"])])
    al = [ctx.scalar(f"alpha{k}", positive=True) for k in range(cfg["n"])]
    groups = []
    for k, m in enumerate(net):
        g = dict(params=list(m.parameters()), kfac_like=k == cfg["on"])
        if not (cfg.get("default") and k == cfg["on"]):
            g["alpha1"] = al[k]
        groups.append(g)
    opt, told = construct(net, params=groups)
    ctx.check("one warning", len([s for s in told if "alpha1" in s]) == 1, told)
    for k, g in enumerate(opt.param_groups):
        ctx.check("kfac_like of the group", g["kfac_like"] == (k == cfg["on"]))
        ctx.eq(f"alpha1 of group {k}", ctx.scal(g["alpha1"]),
               ctx.frac(0) if k == cfg["on"] else ctx.scal(al[k]))
        ctx.check(f"momenta of layer {k}", (str(k) in opt.m_Ks) == (k != cfg["on"]))


HARNESSES = {"like": like, "numbers": numbers, "strings": strings, "partition": partition,
             "wrapped": wrapped, "accepted": accepted}


def configs(tier):
    out = []
    for k in NUMS:
        for kind in ("int", "float"):
            out.append(dict(h="numbers", sym={k: kind}))
    for kind in ("int", "float"):
        out.append(dict(h="numbers", sym={k: kind for k in NUMS}))
        out.append(dict(h="numbers", sym={k: kind for k in NUMS if k != "lr_cov"}, callable=1))
        out.append(dict(h="numbers", sym={"alpha1": kind}, kfac_like=1))
        out.append(dict(h="numbers", sym={"alpha1": kind, "lr": kind}, kfac_like=1, callable=1))
    for keys in (["kfac_approx"], ["loss_average"], ["kfac_approx", "loss_average"]):
        for w in ("args", "first", "second"):
            out.append(dict(h="strings", keys=keys, where=w))
    for to in outer(*[range(-1, 3)] * 4):
        used = sorted({g for g in to if g >= 0})
        if used and used == list(range(len(used))):
            out.append(dict(h="partition", to=list(to)))
            if len(out) % 3 == 0:
                out.append(dict(h="partition", to=list(to), model="nested"))
    out += [dict(h="wrapped", how="dp"), dict(h="wrapped", how="ddp"),
            dict(h="wrapped", how="custom")]
    for n, on in outer((2, 3), (0, 1, 2)):
        if on < n:
            out.append(dict(h="like", n=n, on=on))
            out.append(dict(h="like", n=n, on=on, default=1))
    k = 0
    for a, b in outer(STRUCTS, STRUCTS):
        k += 1
        out.append(dict(h="accepted", kw=dict(structures=(a, b)), group=k % 2))
    for a, b in outer((None, "f32", "bf16", "f16"), repeat := (None, "f32", "bf16", "f16")):
        out.append(dict(h="accepted", kw=dict(preconditioner_dtype=(a, b)), group=k % 2))
        k += 1
    for la, ka, nl, kl in outer((None, "batch", "batch+sequence"), ("expand", "reduce"),
                                (False, True), (False, True)):
        out.append(dict(h="accepted", group=k % 2, sym=["T", "damping", "lr", "weight_decay"],
                        kw=dict(loss_average=la, kfac_approx=ka, normalize_lr_cov=nl,
                                kfac_like=kl, alpha1=0.0)))
        k += 1
    out.append(dict(h="accepted", kw=dict(lr=0, momentum=0, alpha1=0, weight_decay=0, lr_cov=0)))
    out.append(dict(h="accepted", kw=dict(lr=0.0, momentum=0.0, alpha1=0.0, damping=0.0)))
    out.append(dict(h="accepted", kw=dict(warn_unsupported=False), sym=["init_grad_scale", "T"]))
    out.append(dict(h="accepted", kw=dict(warn_unsupported=True), model="one",
                    sym=["init_grad_scale", "T", "damping", "lr", "lr_cov", "momentum",
                         "alpha1", "weight_decay"]))
    return out
