"""C14: saving and restoring the optimizer resumes training exactly."""

import copy
import io

from checks.trainer import *  # noqa: F403

PROP = "C14"
BOUNDS = (
    "one or two fully-connected layers of width 1-2 or a small convolution in one or two "
    "groups, update periods 1-3, saving at any of up to four steps and before the forward "
    "pass, between micro-batches, between backward and step, after a regular or a skipped "
    "step; up to three further steps; several restores of one snapshot; in-memory copies "
    "and torch.save; factors, momenta, parameters, inputs, gradients, scales and learning "
    "rates partly symbolic"
)
ASSUMPTIONS = [
    "the snapshot is taken with copy.deepcopy or torch.save, as state_dict() refers to "
    "live state (PyTorch convention)",
    "gradients on parameters are restored by the user when saving between backward and step",
]


def fingerprint(ctx, x):
    """Nested copy of a state dictionary with all numbers read out."""
    if isinstance(x, torch.Tensor):
        return ("T", tuple(x.shape), str(x.dtype), ctx.read(x))
    if isinstance(x, dict):
        return {("k", str(k)): fingerprint(ctx, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [fingerprint(ctx, v) for v in x]
    if hasattr(x, "named_tensors"):
        return {"class": type(x).__name__, **{n: fingerprint(ctx, t) for n, t in x.named_tensors()}}
    if isinstance(x, float):
        return ("T", (), "float", ctx.scal(x))
    return ("O", x)


def same_print(ctx, label, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ctx.check(f"{label} entries", list(a) == list(b), f"{list(a)} {list(b)}")
        for k in a:
            if k in b:
                same_print(ctx, f"{label}/{k[-1] if isinstance(k, tuple) else k}", a[k], b[k])
    elif isinstance(a, list) and isinstance(b, list):
        ctx.check(f"{label} length", len(a) == len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            same_print(ctx, f"{label}/{i}", u, v)
    elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "T":
        ctx.check(f"{label} kind", a[1:3] == b[1:3], f"{a[1:3]} {b[1:3]}")
        ctx.eq(label, a[3], b[3])
    else:
        ctx.check(f"{label} value", a == b, f"{a} {b}")


def copied(how, state):
    if how == "deepcopy":
        return copy.deepcopy(state)
    f = io.BytesIO()
    torch.save(state, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


def resume(ctx, cfg):
    counter = [0]

    def create(init):
        counter[0] += 1
        if cfg["net"] == "conv":
            net = nn.Sequential(nn.Conv2d(1, 2, (2, 1), bias=True))
        else:
            net = small(ctx, *cfg["d"], bias=cfg.get("bias", True), label=f"net{counter[0]}", n=0)
        for k, m in enumerate(net):
            fill_params(ctx, m, "x", 0)
            if counter[0] > 2:  # restored models start from other values
                with torch.no_grad():
                    for p in m.parameters():
                        ctx.write(p, ctx.read(p) + ctx.frac(counter[0], 2))
        groups = None
        hy = dict(structures=cfg["st"], weight_decay=0.125, T=cfg["T"],
                  alpha1=cfg.get("alpha1", 0.5), momentum=cfg.get("momentum", 0.5),
                  kfac_like=bool(cfg.get("kfac_like")))
        if cfg.get("groups"):
            groups = [(["0"], dict(lr=0.25, T=cfg["T"])),
                      (["1"], dict(lr=0.5, T=1, alpha1=0.0, momentum=0.0,
                                   structures=cfg["st"][::-1]))]
        opt, _ = build(ctx, net, hy, groups=groups, init_scale=init)
        return net, opt

    init = ctx.scalar2("scale-1") if cfg.get("scaled") else 1.0
    runs = {"U": create(init), "A": create(init)}  # uninterrupted, saved
    params = cfg.get("params")

    def backward(t, nets, tag, scale):
        for k in range(len(next(iter(nets))[0])):
            m0 = next(iter(nets))[0][k]
            if isinstance(m0, nn.Conv2d):
                x = some_tensor(ctx, f"x{t}{tag}.{k}", (1, 1, 3, 2), 0 if params else 1)
                g = some_tensor(ctx, f"g{t}{tag}.{k}", (1, 2, 2, 2), 1)
            else:
                x = some_tensor(ctx, f"x{t}{tag}.{k}", (2, m0.in_features), 0 if params else 1)
                g = some_tensor(ctx, f"g{t}{tag}.{k}", (2, m0.out_features), 1)
            for net, _ in nets:
                net[k](x).backward(g * scale)

    saved = {}

    def save(kind, t, phase):
        if cfg["at"] != [t, phase]:
            return
        net, opt = runs["A"]
        how = cfg.get("how", "deepcopy")
        ms, os_ = copied(how, net.state_dict()), copied(how, opt.state_dict())
        saved["model"], saved["opt"] = ms, os_
        before = fingerprint(ctx, os_)
        for nm in ("B", "C")[: 2 if cfg.get("twice", 1) else 1]:
            n2, o2 = create(cfg.get("other_init", 1.0))
            n2.load_state_dict(ms)
            o2.load_state_dict(os_)
            if cfg["at"][1] not in ("start", "end"):
                for p, q in zip(net.parameters(), n2.parameters()):
                    q.grad = None if p.grad is None else p.grad.clone()
            runs[nm] = (n2, o2)
            same_print(ctx, f"snapshot after restore {nm}", fingerprint(ctx, os_), before)
        saved["print"] = before
        compare(f"restored at {t} {phase}")

    def compare(label):
        u = snapshot(ctx, runs["U"][1])
        for nm in runs:
            if nm == "U":
                continue
            o = runs[nm][1]
            same_snapshot(ctx, f"{label}: {nm}", snapshot(ctx, o), u)
            ctx.check(f"{label}: {nm} step", o.steps == runs["U"][1].steps)
            a, b = (scales_of(x) or {} for x in (o, runs["U"][1]))
            ctx.check(f"{label}: {nm} scales", a.keys() == b.keys(), f"{a} {b}")
            for k in a.keys() & b.keys():
                ctx.eq(f"{label}: {nm} scale {k}", ctx.scal(a[k]), ctx.scal(b[k]))
            for gi, (g, h) in enumerate(zip(o.param_groups, runs["U"][1].param_groups)):
                ctx.check(f"{label}: {nm} group {gi}", g.keys() == h.keys())
                ctx.eq(f"{label}: {nm} lr {gi}", ctx.scal(g["lr"]), ctx.scal(h["lr"]))
                for key in g.keys() & h.keys():
                    if key in ("params", "lr"):
                        continue
                    ctx.check(f"{label}: {nm} {key} {gi}", g[key] == h[key])

    for t in range(cfg["steps"]):
        others = [runs[k] for k in runs if k != "U"]
        nets = [r[0] for r in runs.values()]
        mirror(ctx, runs["U"][1], [o for _, o in others], nets, f"s{t}", n=0 if params else 1)
        for net, _ in runs.values():
            for p in net.parameters():
                p.grad = None
        if t == 1 and cfg.get("schedule"):
            lr = ctx.scalar("lr1", positive=True)
            for _, o in runs.values():
                o.param_groups[-1]["lr"] = lr
        if cfg.get("changes") and t == min(1, cfg["at"][0]):
            # values other than those of the constructor (which restored optimizers have)
            for _, o in runs.values():
                for gi, g in enumerate(o.param_groups):
                    g.update({k: v[gi] if isinstance(v, list) else v
                              for k, v in cfg["changes"].items()})
        scale = ctx.scalar2(f"scale{t}") if cfg.get("scaled") else 1.0
        if cfg.get("scaled"):  # none of these scales is exactly 1 (see C11)
            ctx.assume(scale != 1.0)
        save("x", t, "start")
        skip = t in cfg.get("skips", ())
        backward(t, list(runs.values()), "a", scale)
        save("x", t, "mid")
        if cfg.get("micro"):
            backward(t, list(runs.values()), "b", scale)
        if not params and (t % cfg["T"] == 0 or cfg.get("groups")):
            zero_grads(*[n for n, _ in runs.values()])
        if cfg.get("scaled"):
            for _, o in runs.values():
                o.set_current_grad_scale(scale)
        save("x", t, "backward")
        for _, o in runs.values():
            if skip:
                o.found_inf = torch.ones(())
            with warnings.catch_warnings(record=True):
                o.step()
            if skip:
                del o.found_inf
        compare(f"step {t}")
        save("x", t, "end")
    if "print" in saved:
        same_print(ctx, "snapshot after training", fingerprint(ctx, saved["opt"]),
                   saved["print"])
    ctx.check("snapshot was taken", "print" in saved)


HARNESSES = {"resume": resume}
ALT2 = dict(T=2, lr_cov=0.125, alpha1=0.75, damping=0.5, momentum=0.75, weight_decay=0.25,
            kfac_approx="expand", loss_average=None)


def configs(tier):
    out = []
    deep = tier == "thorough"
    n = 0
    phases = ["start", "mid", "backward", "end"]
    for T in (1, 2, 3):
        for t in range(3):
            for ph in phases:
                s, o = STRUCTS[n % 6], STRUCTS[(n // 6 + n + 1) % 6]
                n += 1
                out.append(dict(
                    h="resume", net="linear", d=(1, 2) if n % 2 else (2, 1), st=(s, o), T=T,
                    at=[t, ph], steps=min(t + 2 + (T > 1), 4), params=n % 2,
                    how="save" if n % 4 == 3 else "deepcopy", micro=int(n % 3 == 0),
                    alpha1=0.0 if n % 7 == 0 else 0.5, momentum=0.0 if n % 5 == 0 else 0.5,
                    schedule=int(n % 4 == 0), kfac_like=int(n % 7 == 0)))
    for k, ph in enumerate(phases):
        for T in (1, 2):
            out.append(dict(h="resume", net="linear", d=(1, 1), st=("dense", "diagonal"), T=T,
                            at=[1, ph], steps=4, params=k % 2, scaled=1, other_init=2.0))
            out.append(dict(h="resume", net="linear", d=(1, 1, 1), T=T, at=[1, ph], steps=3,
                            st=("dense", "triltoeplitz"), params=k % 2, groups=1, schedule=1))
            out.append(dict(h="resume", net="linear", d=(1, 1), T=T, at=[1, ph], steps=3,
                            st=("dense", "diagonal"), params=k % 2, skips=[0, 1]))
            out.append(dict(h="resume", net="conv", T=T, at=[1, ph], steps=3,
                            st=("block30diagonal", "hierarchical15_15"), params=k % 2))
    for k, ch in enumerate([dict(T=2), dict(T=1), dict(T=3, lr_cov=0.5), dict(alpha1=0.25),
                            dict(damping=1.0, momentum=0.25), dict(weight_decay=0.5),
                            dict(kfac_approx="reduce", loss_average="batch+sequence"),
                            dict(normalize_lr_cov=True), dict(momentum=0.0)]):
        for par in (0, 1):
            norm = "normalize_lr_cov" in ch
            out.append(dict(h="resume", net="linear", d=(1, 1), T=2 if ch.get("T") == 1 else 1,
                            st=("dense", "diagonal"), changes=ch, steps=4,
                            at=[1 + par, phases[k % 4]], params=1 if norm else par, cost=3))
            if not norm:
                ch2 = {a: [v, ALT2[a]] for a, v in ch.items()}
                out.append(dict(h="resume", net="linear", d=(1, 1, 1), T=1, groups=1,
                                st=("dense", "triltoeplitz"), changes=ch2, steps=4,
                                at=[1 + par, phases[(k + 2) % 4]], params=par))
    if deep:
        for (a, b), T in outer(outer(STRUCTS, STRUCTS), (1, 2)):
            for ph in phases:
                out.append(dict(h="resume", net="linear", d=(2, 2), st=(a, b), T=T,
                                at=[2, ph], steps=5, params=n % 2, how="save", micro=1))
                n += 1
    return out
