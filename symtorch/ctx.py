"""Harness contexts: the same harness runs symbolically and on concrete numbers."""

from __future__ import annotations

import math
import random
import threading
import warnings
from fractions import Fraction

import numpy as np
import torch
from torch import Tensor

from symtorch import engine as E
from symtorch import poly as P
from symtorch.poly import NotSupported, Poly


class HarnessAssume(BaseException):
    """The path lies outside of the assumptions of the property."""


def _rng(seed, name):
    return random.Random(f"{seed}/{name}")


class Base:
    """Common interface of the symbolic and the concrete context."""

    sym = False

    def __init__(self):
        self.records = []  # (label, actual ndarray, expected ndarray, tol)
        self.checks = []  # (label, ok, info)
        self.specs = {}  # input name -> (lo, hi, kind)

    # -- assertions ----------------------------------------------------------
    def eq(self, label, actual, expected, tol=None):
        """Assert that two tensors/arrays/scalars are equal."""
        a = self.arr(actual)
        e = self.arr(expected)
        if a.shape != e.shape:
            self.checks.append((label, False, f"shape {a.shape} instead of {e.shape}"))
            return
        if tol is None:
            half = (torch.float16, torch.bfloat16)
            tol = self.half_tol if getattr(actual, "dtype", None) in half else self.tol
        self.records.append((label, a, e, tol))

    def check(self, label, ok, info=""):
        self.checks.append((label, bool(ok), str(info)))

    def raises(self, exc, fn, label):
        """Assert that a call raises an exception of the given type."""
        try:
            fn()
        except exc:
            self.checks.append((label, True, ""))
            return True
        except (NotSupported, P.TooBig):
            raise
        except Exception as e:  # noqa: BLE001
            self.checks.append((label, False, f"raised {type(e).__name__}: {e}"))
            return False
        self.checks.append((label, False, "no exception"))
        return False

    def arr(self, x):
        if isinstance(x, Tensor):
            return self.read(x)
        if isinstance(x, np.ndarray):
            return x
        return self.scal(x)

    def assume(self, ok):
        """Restrict the path (symbolic booleans fork)."""
        if not ok:
            raise HarnessAssume()

    # -- oracle helpers ------------------------------------------------------
    def zeros(self, *shape):
        a = np.empty(shape, dtype=object)
        a.fill(P.ZERO if self.sym else 0.0)
        return a

    def eye(self, n):
        a = self.zeros(n, n)
        for i in range(n):
            a[i, i] = P.ONE if self.sym else 1.0
        return a

    def mm(self, *ms):
        r = ms[0]
        for m in ms[1:]:
            r = self._mm2(r, m)
        return r

    def total(self, xs):
        if self.sym:
            return P.psum(list(xs))
        return sum(xs, 0.0)

    tol = 2e-3
    half_tol = 0.08

    def grid(self, shape):
        return np.ndindex(*shape)


class SymCtx(Base):
    sym = True

    def __init__(self, explorer):
        super().__init__()
        self.x = explorer

    def _input(self, name, lo, hi, integer=False):
        self.specs[name] = (lo, hi, integer)
        return Poly.of_var(P.R.new(name, lo=lo, hi=hi, integer=integer))

    def scalar(self, name, lo=None, hi=None, positive=False, sample=None):
        v = P.R.new(name, lo=_frac(0 if positive and lo is None else lo), hi=_frac(hi))
        v.nonzero = positive
        self.specs[name] = (lo, hi, False, positive, sample)
        return E.SymFloat(Poly.of_var(v))

    def scalar2(self, name, lo=None, hi=None, sample=None):
        """Positive scalar that is the square of a positive unknown."""
        v = P.R.new(name, lo=_frac(0 if lo is None else lo), hi=_frac(hi))
        v.nonzero = True
        self.specs[name] = (lo, hi, False, True, sample)
        p = Poly.of_var(v)
        return E.SymFloat(p * p)

    def int(self, name, lo=None, hi=None):
        v = P.R.new(name, lo=lo, hi=hi, integer=True)
        self.specs[name] = (lo, hi, True, False, None)
        return E.SymInt(Poly.of_var(v))

    def array(self, name, *shape, sample=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            n = f"{name}[{','.join(map(str, i))}]"
            self.specs[n] = (None, None, False, False, sample)
            a[i] = Poly.of_var(P.R.new(n))
        return a

    def tensor(self, name, *shape, dtype=torch.float32, sample=None):
        a = self.array(name, *shape, sample=sample)
        with E._disable_current_modes():
            t = torch.zeros(shape, dtype=dtype)
        E.write(t, a)
        return t

    def fill(self, t, name, mask=None, sample=None):
        """Overwrite an existing tensor in place with fresh unknowns."""
        a = self.array(name, *t.shape, sample=sample)
        if mask is not None:
            old = E.read(t)
            a = np.where(mask, a, old)
        E.write(t, a)
        return a

    def read(self, t):
        return E.read(t)

    def write(self, t, a):
        E.write(t, a)

    def scal(self, x):
        p = E._as_poly(x)
        if p is None:
            raise NotSupported(f"harness scalar {type(x)}")
        return E.obj(p)

    def num(self, x):
        """Scalar as an oracle number."""
        return self.scal(x)[()]

    def _mm2(self, a, b):
        return E.np_matmul(a, b)

    def sqrt(self, x):
        return P.sqrt(P.lift(x))

    def abs(self, x):
        return P.absval(P.lift(x))

    def max(self, xs):
        return P.maximum([P.lift(x) for x in xs])

    def inv(self, x):
        return P.inverse(P.lift(x))

    def relu(self, x):
        return E._relu1(P.lift(x))

    def positive(self, x):
        """Whether an oracle number is positive (forks)."""
        return E.decide("<", -P.lift(x))

    def uf(self, name, fn):
        def f(*args):
            ps = [E._as_poly(a) for a in args]
            return E.SymFloat(P.apply_uf(name, fn, ps))

        return f

    def frac(self, a, b=1):
        return Poly.const(Fraction(a, b))

    def overflow(self, t):
        """Gradients with overflow: any value at all."""
        self._over = getattr(self, "_over", 0) + 1
        t = t.clone()
        self.fill(t, f"overflow[{self._over}]")
        return t

    def run(self):
        return E.symbolic()

    def set_cast_mode(self, m):
        E.T.cast_mode = m

    def same_term(self, a, b):
        return a.same(b)


class ConcCtx(Base):
    """Runs the harness on the real code with concrete numbers."""

    def __init__(self, env, seed=0, scale=1.0):
        super().__init__()
        self.env = dict(env)
        self.seed = seed
        self.scale = scale
        self.used = {}

    def _val(self, name, lo=None, hi=None, integer=False, positive=False, sample=None):
        if name in self.env:
            v = self.env[name]
        else:
            v = default_sample(
                _rng(self.seed, name), lo, hi, integer, positive, sample, self.scale
            )
            self.env[name] = v
        self.used[name] = v
        return int(round(v)) if integer else float(v)

    def scalar(self, name, lo=None, hi=None, positive=False, sample=None):
        self.specs[name] = (lo, hi, False, positive, sample)
        return self._val(name, lo, hi, False, positive, sample)

    def scalar2(self, name, lo=None, hi=None, sample=None):
        self.specs[name] = (lo, hi, False, True, sample)
        v = self._val(name, lo, hi, False, True, sample)
        return v * v

    def int(self, name, lo=None, hi=None):
        self.specs[name] = (lo, hi, True, False, None)
        return self._val(name, lo, hi, True)

    def array(self, name, *shape, sample=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            n = f"{name}[{','.join(map(str, i))}]"
            self.specs[n] = (None, None, False, False, sample)
            a[i] = self._val(n, sample=sample)
        return a

    def tensor(self, name, *shape, dtype=torch.float32, sample=None):
        a = self.array(name, *shape, sample=sample)
        t = torch.zeros(shape, dtype=dtype)
        self.write(t, a)
        return t

    def fill(self, t, name, mask=None, sample=None):
        a = self.array(name, *t.shape, sample=sample)
        if mask is not None:
            a = np.where(mask, a, self.read(t))
        self.write(t, a)
        return a

    def read(self, t):
        return np.asarray(
            t.detach().to(torch.float64).contiguous().numpy(), dtype=object
        ).copy()

    def write(self, t, a):
        with torch.no_grad():
            t.detach().copy_(
                torch.from_numpy(np.asarray(a, dtype=np.float64).reshape(t.shape))
            )

    def scal(self, x):
        o = np.empty((), dtype=object)
        o[()] = float(x)
        return o

    def num(self, x):
        return float(x)

    def _mm2(self, a, b):
        return np.asarray(
            np.asarray(a, dtype=np.float64) @ np.asarray(b, dtype=np.float64),
            dtype=object,
        )

    def sqrt(self, x):
        return math.sqrt(max(0.0, x))

    def abs(self, x):
        return abs(x)

    def max(self, xs):
        return max(xs)

    def inv(self, x):
        return 1.0 / x

    def relu(self, x):
        return max(0.0, x)

    def positive(self, x):
        return x > 0

    def uf(self, name, fn):
        return lambda *a: float(fn(*a))

    def frac(self, a, b=1):
        return a / b

    def overflow(self, t):
        """Non-finite gradients, like the ones of a real overflow."""
        t = t.clone()
        t.view(-1)[0::2] = math.inf
        t.view(-1)[1::2] = math.nan
        return t

    def run(self):
        class _N:
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return None

        return _N()

    def set_cast_mode(self, m):
        pass


def _frac(x):
    return None if x is None else Fraction(x).limit_denominator(10**6)


def default_sample(rng, lo, hi, integer, positive, sample, scale):
    """Random value of an input, exactly representable in all data types."""
    if callable(sample):
        return sample(rng)
    if sample is not None:
        return rng.choice(sample)
    if integer:
        a = lo if lo is not None else -10
        b = hi if hi is not None else a + 40
        return rng.randint(int(a), int(b))
    if lo is not None and hi is not None:
        k = rng.randint(1, 15)
        return float(lo) + (float(hi) - float(lo)) * k / 16
    v = rng.randint(2, 31) / 16 * scale
    if lo is not None or positive:
        return (lo or 0) + v
    if hi is not None:
        return hi - v
    return v if rng.random() < 0.5 else -v


# ----------------------------------------------------------------------------
# simulated data-parallel workers
# ----------------------------------------------------------------------------


class Workers:
    """Runs W ranks in lock-step threads with a stubbed `torch.distributed`.

    Exactly one rank runs at any time; ranks hand over at collective operations, so
    executions are deterministic. Collectives combine the tensors of all ranks.
    """

    def __init__(self, ctx, W):
        self.ctx, self.W = ctx, W
        self.cv = threading.Condition()
        self.turn = 0
        self.alive = [True] * W
        self.pending = {}
        self.round = [0] * W
        self.results = {}
        self.error = None
        self.local = threading.local()
        self.calls = 0

    def _next(self, r):
        for k in range(1, self.W + 1):
            q = (r + k) % self.W
            if self.alive[q]:
                return q
        return None

    def _yield(self, r):
        with self.cv:
            self.turn = self._next(r)
            self.cv.notify_all()
            while self.turn != r and self.error is None:
                self.cv.wait(60)
            if self.error is not None and self.turn != r:
                raise RuntimeError("another worker failed")

    def all_reduce(self, tensor, op=None, group=None, async_op=False):
        dist = torch.distributed
        op = dist.ReduceOp.SUM if op is None else op
        r = self.local.rank
        n = self.round[r]
        self.round[r] += 1
        self.calls += 1
        val = self.ctx.read(tensor)
        slot = self.pending.setdefault(n, {})
        slot[r] = (val, str(op), tuple(tensor.shape), tensor.dtype)
        W = self.W

        def finish():
            spins = 0
            while len(self.pending[n]) < W:
                spins += 1
                if spins > 4 * W or not all(
                    self.alive[q] or q in self.pending[n] for q in range(W)
                ):
                    raise RuntimeError("collective mismatch: a worker never joined")
                self._yield(r)
            entries = [self.pending[n][q] for q in range(W)]
            if len({e[1:] for e in entries}) != 1:
                raise RuntimeError(f"collective mismatch: {[e[1:] for e in entries]}")
            out = np.empty(val.shape, dtype=object)
            o = str(op)
            for i in np.ndindex(*val.shape):
                xs = [e[0][i] for e in entries]
                if "SUM" in o:
                    out[i] = self.ctx.total(xs)
                elif "AVG" in o:
                    t = self.ctx.total(xs)
                    out[i] = t * self.ctx.frac(1, W) if self.ctx.sym else t / W
                else:
                    raise NotSupported(f"reduction {o}")
            self.ctx.write(tensor, out)

        if not async_op:
            finish()
            return None

        class Handle:
            def wait(self, *a):
                finish()
                return True

        return Handle()

    def run(self, fn):
        """Run `fn(rank)` on all ranks, returns their results."""
        dist = torch.distributed
        names = {
            "is_initialized": lambda: True,
            "is_available": lambda: True,
            "all_reduce": self.all_reduce,
            "get_world_size": lambda group=None: self.W,
            "get_rank": lambda group=None: self.local.rank,
            "barrier": lambda *a, **k: self._yield(self.local.rank),
        }
        saved = {k: getattr(dist, k) for k in names}
        out = [None] * self.W

        def body(r):
            self.local.rank = r
            with self.cv:
                while self.turn != r and self.error is None:
                    self.cv.wait(60)
            try:
                if self.error is None:
                    with self.ctx.run():
                        out[r] = fn(r)
            except BaseException as e:  # noqa: BLE001
                if self.error is None:
                    self.error = e
            finally:
                with self.cv:
                    self.alive[r] = False
                    self.turn = self._next(r)
                    self.cv.notify_all()

        for k, v in names.items():
            setattr(dist, k, v)
        try:
            with warnings.catch_warnings():
                ths = [threading.Thread(target=body, args=(r,)) for r in range(self.W)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
        finally:
            for k, v in saved.items():
                setattr(dist, k, v)
        if self.error is not None:
            raise self.error
        return out
