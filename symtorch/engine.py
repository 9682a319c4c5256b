"""Symbolic execution of PyTorch programs at the ATen operator level.

Elements of ordinary tensors carry symbolic terms as bit patterns that index a term
table. Data movement runs natively; arithmetic operators are interpreted on terms.
"""

from __future__ import annotations

import math
import warnings
from fractions import Fraction

import numpy as np
import torch
from torch import Tensor
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes

from symtorch import poly as P
from symtorch.poly import NotSupported, Poly

warnings.filterwarnings("ignore", message=".*ComplexHalf.*")

aten = torch.ops.aten

# ----------------------------------------------------------------------------
# term tables
# ----------------------------------------------------------------------------

F32_BASE = 0x70000000
F32_MAX = 0x0F000000
F64_BASE = 0x6A00000000000000


def _half_patterns(exp_bits, man_bits, lo, hi):
    """16-bit patterns whose exponent lies outside of [lo, hi] (unbiased)."""
    bias = (1 << (exp_bits - 1)) - 1
    out = []
    for e in range(1, (1 << exp_bits) - 1):
        if lo <= e - bias <= hi:
            continue
        for s in (0, 1):
            for m in range(1 << man_bits):
                if man_bits and m == 0:
                    continue  # keep powers of two available for real constants
                out.append((s << 15) | (e << man_bits) | m)
    return np.array(out, dtype=np.int64)


HALF = {
    torch.bfloat16: _half_patterns(8, 7, -24, 24),
    torch.float16: _half_patterns(5, 10, -9, 9),
}
REL = {
    torch.float64: 4e-15,
    torch.float32: 3e-7,
    torch.float16: 1.5e-3,
    torch.bfloat16: 1.2e-2,
}
FLOATS = set(REL)
INT_VIEW = {torch.float32: torch.int32, torch.float64: torch.int64}
PREC = {torch.bfloat16: 0, torch.float16: 0, torch.float32: 2, torch.float64: 3}


class Tables:
    """Term tables of one symbolic execution."""

    def __init__(self):
        self.vals = {dt: [] for dt in FLOATS}
        self.cons = {dt: {} for dt in FLOATS}  # normal form -> id
        self.half_inv = {}
        for dt, pats in HALF.items():
            inv = np.full(1 << 16, -1, dtype=np.int64)
            inv[pats] = np.arange(len(pats))
            self.half_inv[dt] = inv
        self.cast_mode = "ideal"  # or "opaque"
        self.stats = {"ops": 0, "arith": 0}
        self.opnames = set()

    def intern(self, p: Poly, dt) -> int:
        vals = self.vals[dt]
        if dt in HALF or len(p.t) <= 64:
            c = self.cons[dt]
            k = p.key()
            i = c.get(k)
            if i is None:
                i = c[k] = len(vals)
                vals.append(p)
        else:
            i = len(vals)
            vals.append(p)
        if dt in HALF and i >= len(HALF[dt]):
            raise P.TooBig("half precision term table is full")
        return i


T = Tables()


def reset_tables():
    global T
    T = Tables()
    return T


_int_cache = {i: Poly.const(i) for i in range(-64, 65)}


def _raw_bits(t: Tensor) -> np.ndarray:
    """Bit patterns as numpy int64 array (modes must be disabled)."""
    t = t.detach()
    if t.dtype == torch.float32:
        return t.contiguous().view(torch.int32).numpy().astype(np.int64)
    if t.dtype == torch.float64:
        return t.contiguous().view(torch.int64).numpy()
    return t.contiguous().view(torch.int16).numpy().astype(np.int64) & 0xFFFF


def _sym_ids(t: Tensor):
    """Term ids (or -1) of a floating point tensor."""
    bits = _raw_bits(t)
    dt = t.dtype
    n = len(T.vals[dt])
    if n == 0:
        return None
    if dt == torch.float32:
        ids = bits - F32_BASE
    elif dt == torch.float64:
        ids = bits - F64_BASE
    else:
        ids = T.half_inv[dt][bits]
    ids = np.where((ids >= 0) & (ids < n), ids, -1)
    return ids


def has_sym(t: Tensor) -> bool:
    if t.dtype not in FLOATS or t.numel() == 0:
        return False
    ids = _sym_ids(t)
    return ids is not None and bool((ids >= 0).any())


def decode(t: Tensor) -> np.ndarray:
    """Terms held by a tensor (modes must be disabled)."""
    out = np.empty(tuple(t.shape), dtype=object)
    flat = out.reshape(-1)
    if t.dtype in FLOATS:
        ids = _sym_ids(t)
        vals = T.vals[t.dtype]
        conc = t.detach().to(torch.float64).contiguous().numpy().reshape(-1)
        rel = REL[t.dtype]
        if ids is None:
            for i, x in enumerate(conc):
                flat[i] = P.ZERO if x == 0 else P.lift_float(float(x), rel)
        else:
            ids = ids.reshape(-1)
            for i, j in enumerate(ids):
                if j >= 0:
                    flat[i] = vals[j]
                else:
                    x = conc[i]
                    flat[i] = P.ZERO if x == 0 else P.lift_float(float(x), rel)
    elif t.dtype == torch.bool:
        conc = t.detach().contiguous().numpy().reshape(-1)
        for i, x in enumerate(conc):
            flat[i] = P.ONE if x else P.ZERO
    elif t.dtype.is_complex:
        raise NotSupported("complex tensor")
    else:
        conc = t.detach().contiguous().numpy().reshape(-1)
        for i, x in enumerate(conc):
            x = int(x)
            p = _int_cache.get(x)
            flat[i] = p if p is not None else Poly.const(x)
    return out


_const_store: dict = {}


def _code_f64(p: Poly) -> float:
    """Encode a term as a Python float."""
    if p.is_const():
        c = p.const_value()
        f = c.numerator / c.denominator
        if P.lift_float(f).same(p):
            return f
    i = T.intern(p, torch.float64)
    return float(np.int64(F64_BASE + i).view(np.float64))


def _plain(c) -> bool:
    """Constants stored as ordinary numbers; others stay exact terms."""
    n, d = abs(c.numerator), c.denominator
    return n <= 16 and d == 1 or n == 1 and d in (2, 4)


def encode_into(t: Tensor, arr: np.ndarray):
    """Overwrite the elements of a tensor with terms (modes must be disabled)."""
    dt = t.dtype
    arr = np.asarray(arr, dtype=object)
    if tuple(arr.shape) != tuple(t.shape):
        arr = np.broadcast_to(arr, tuple(t.shape))
    flat = arr.reshape(-1)
    n = flat.shape[0]
    if n == 0:
        return
    if dt not in FLOATS:
        vals = []
        for p in flat:
            if not p.is_const() or p.const_value().denominator != 1:
                raise NotSupported(f"symbolic value stored in {dt}")
            vals.append(int(p.const_value()))
        src = torch.tensor(vals, dtype=dt).reshape(t.shape)
        t.detach().copy_(src)
        return
    np_dt = {torch.float32: np.float32, torch.float64: np.float64}.get(dt)
    if np_dt is not None:
        buf = np.empty(n, dtype=np_dt)
        ib = buf.view(np.int32 if dt == torch.float32 else np.int64)
        base = F32_BASE if dt == torch.float32 else F64_BASE
    else:
        buf = None
        ib = np.empty(n, dtype=np.int64)
        pats = HALF[dt]
    rel = REL[dt]
    for i, p in enumerate(flat):
        if not p.t:
            if buf is not None:
                buf[i] = 0
            else:
                ib[i] = 0
            continue
        if p.is_const():
            c = p.const_value()
            ck = (c, dt)
            b = _const_store.get(ck)
            if b is None and not _plain(c):
                b = _const_store[ck] = False
            if b is None:
                f = torch.tensor(c.numerator / c.denominator, dtype=dt)
                ff = float(f)
                ok = ff == ff and 1e-30 < abs(ff) < 1e24
                if ok and dt in HALF:
                    bits = int(f.view(torch.int16)) & 0xFFFF
                    ok = T.half_inv[dt][bits] < 0
                if ok:
                    ok = P.lift_float(ff, rel).same(p)
                b = f if ok else False
                _const_store[ck] = b
            if b is not False:
                if buf is not None:
                    buf[i] = float(b)
                else:
                    ib[i] = int(b.view(torch.int16)) & 0xFFFF
                continue
        j = T.intern(p, dt)
        if buf is not None:
            if dt == torch.float32 and j >= F32_MAX:
                raise P.TooBig("term table is full")
            ib[i] = base + j
        else:
            ib[i] = pats[j]
    if buf is not None:
        src = torch.from_numpy(buf).reshape(t.shape)
    else:
        src = torch.from_numpy(ib.astype(np.uint16).view(np.int16)).view(dt).reshape(
            t.shape
        )
    t.detach().copy_(src)


def scalar_poly(x):
    """Term of a Python scalar argument of an operator, and whether it is symbolic."""
    if isinstance(x, Poly):
        return x, True
    s = getattr(x, "_sym_poly", None)
    if s is not None:
        return s, True
    if isinstance(x, bool):
        return (P.ONE if x else P.ZERO), False
    if isinstance(x, int):
        return Poly.const(x), False
    if isinstance(x, float):
        i = int(np.float64(x).view(np.int64)) - F64_BASE
        if 0 <= i < len(T.vals[torch.float64]):
            return T.vals[torch.float64][i], True
        if 1e28 < abs(x) < 1e39:
            b = int(np.float32(x).view(np.int32)) - F32_BASE
            if 0 <= b < len(T.vals[torch.float32]) and float(np.float32(x)) == x:
                return T.vals[torch.float32][b], True
        return P.lift_float(x), False
    raise NotSupported(f"scalar {type(x)}")


_isinf = math.isinf


def is_sym_scalar(x) -> bool:
    if isinstance(x, float):
        if getattr(x, "_sym_poly", None) is not None:
            return True
        if x == 0 or x != x or _isinf(x):
            return False
        if abs(x) > 1e28:
            return scalar_poly_or_none(x)
    elif isinstance(x, int) and getattr(x, "_sym_poly", None) is not None:
        return True
    return False


def scalar_poly_or_none(x):
    try:
        return scalar_poly(x)[1]
    except NotSupported:
        raise


# ----------------------------------------------------------------------------
# symbolic Python scalars
# ----------------------------------------------------------------------------

_decider = [None]


def set_decider(fn):
    _decider[0] = fn


def decide(rel: str, p: Poly) -> bool:
    """Truth value of `p rel 0` on the current path."""
    if p.is_const():
        c = p.const_value()
        return {"<": c < 0, "<=": c <= 0, "==": c == 0}[rel]
    fn = _decider[0]
    if fn is None:
        raise NotSupported("branch on a symbolic value outside of an exploration")
    return fn(rel, p)


def _cmp(a: Poly, b: Poly, op: str) -> bool:
    if op == "<":
        return decide("<", a - b)
    if op == "<=":
        return decide("<=", a - b)
    if op == ">":
        return decide("<", b - a)
    if op == ">=":
        return decide("<=", b - a)
    if op == "==":
        return decide("==", a - b)
    if op == "!=":
        return not decide("==", a - b)
    raise ValueError(op)


_kept: dict = {}


def _keep(x):
    """Pickle symbolic numbers by name (they are only ever revived in this process)."""
    _kept[len(_kept)] = x
    return len(_kept) - 1


def _revive(i):
    return _kept[i]


class SymFloat(float):
    """A Python float standing for a term."""

    def __new__(cls, p: Poly):
        if p.is_const():
            # constants stay symbolic objects only if they are not representable
            c = p.const_value()
            f = c.numerator / c.denominator
            if P.lift_float(f).same(p):
                return f
        self = float.__new__(cls, _code_f64(p))
        self._sym_poly = p
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _revive, (_keep(self),)

    def __int__(self):
        raise NotSupported("int() of a symbolic integer")

    def _bin(self, o, f):
        if isinstance(o, Tensor):
            return NotImplemented
        q = _as_poly(o)
        if q is None:
            return NotImplemented
        return SymFloat(f(self._sym_poly, q))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: divide(a, b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: divide(b, a))

    def __pow__(self, o, mod=None):
        return self._bin(o, lambda a, b: a**b)

    def __rpow__(self, o):
        raise NotSupported("symbolic exponent")

    def __neg__(self):
        return SymFloat(-self._sym_poly)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(P.absval(self._sym_poly))

    def __floordiv__(self, o):
        raise NotSupported("floor division of a symbolic float")

    __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __rdivmod__ = __floordiv__

    def _c(self, o, op):
        if isinstance(o, Tensor):
            return NotImplemented
        if isinstance(o, float) and math.isinf(o):
            if op in ("<", "<="):
                return o > 0
            if op in (">", ">="):
                return o < 0
            return op == "!="
        q = _as_poly(o)
        if q is None:
            return NotImplemented
        return _cmp(self._sym_poly, q, op)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        if o is self:
            return True
        return self._c(o, "==")

    def __ne__(self, o):
        if o is self:
            return False
        return self._c(o, "!=")

    def __hash__(self):
        return 0x5EED

    def __bool__(self):
        return not decide("==", self._sym_poly)

    def __int__(self):
        raise NotSupported("integer part of a symbolic float")

    __trunc__ = __floor__ = __ceil__ = __round__ = __int__

    def is_integer(self):
        raise NotSupported("is_integer of a symbolic float")


def divide(a: Poly, b: Poly) -> Poly:
    if not b.is_const():
        # a denominator that may vanish on this path
        if not _known_nonzero(b) and decide("==", b):
            raise ZeroDivisionError("float division by zero")
    return a / b


def _known_nonzero(b: Poly) -> bool:
    if len(b.t) == 1:
        ((k, _),) = b.t.items()
        return all(
            P.R.by_prime[p].nonzero for p, _ in P.mono_factor(k)
        )
    return False


class SymInt(int):
    """A Python int standing for an integer-valued term."""

    def __new__(cls, p: Poly):
        if p.is_const():
            return int(p.const_value())
        self = int.__new__(cls, 10**15 + 7)
        self._sym_poly = p
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return _revive, (_keep(self),)

    def _bin(self, o, f):
        if isinstance(o, Tensor):
            raise NotSupported("tensor and symbolic integer")
        q = _as_poly(o)
        if q is None:
            return NotImplemented
        r = f(self._sym_poly, q)
        if isinstance(o, float):
            return SymFloat(r)
        return SymInt(r)

    __add__ = SymFloat.__add__
    __radd__ = SymFloat.__add__
    __sub__ = SymFloat.__sub__
    __rsub__ = SymFloat.__rsub__
    __mul__ = SymFloat.__mul__
    __rmul__ = SymFloat.__mul__

    def __truediv__(self, o):
        q = _as_poly(o)
        return NotImplemented if q is None else SymFloat(divide(self._sym_poly, q))

    def __rtruediv__(self, o):
        q = _as_poly(o)
        return NotImplemented if q is None else SymFloat(divide(q, self._sym_poly))

    def __neg__(self):
        return SymInt(-self._sym_poly)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    def __pow__(self, o, mod=None):
        if mod is not None:
            raise NotSupported("modular power")
        if isinstance(o, int) and o >= 0:
            return SymInt(self._sym_poly**o)
        return SymFloat(self._sym_poly ** _as_poly(o))

    def __rpow__(self, o):
        raise NotSupported("symbolic exponent")

    def _divmod(self, m):
        if isinstance(m, float) or getattr(m, "_sym_poly", None) is not None:
            raise NotSupported("division by a symbolic integer")
        if m == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        p = self._sym_poly
        key = ("divmod", p.key(), m)
        c = P.R.cache.get(key)
        if c is None:
            n = len(P.R.order)
            q = P.R.new(f"quot{n}", "quot", defn=(p, m), integer=True)
            r = P.R.new(f"mod{n}", "mod", defn=(p, m), integer=True)
            c = P.R.cache[key] = (q, r)
        q, r = c
        return SymInt(Poly.of_var(q)), SymInt(Poly.of_var(r))

    def __mod__(self, m):
        return self._divmod(m)[1]

    def __floordiv__(self, m):
        return self._divmod(m)[0]

    def __divmod__(self, m):
        return self._divmod(m)

    def __rmod__(self, m):
        raise NotSupported("division by a symbolic integer")

    __rfloordiv__ = __rdivmod__ = __rmod__

    _c = SymFloat._c
    __lt__ = SymFloat.__lt__
    __le__ = SymFloat.__le__
    __gt__ = SymFloat.__gt__
    __ge__ = SymFloat.__ge__
    __eq__ = SymFloat.__eq__
    __ne__ = SymFloat.__ne__

    def __hash__(self):
        return 0x5EED

    def __bool__(self):
        return not decide("==", self._sym_poly)

    def __float__(self):
        return SymFloat(self._sym_poly)

    def __int__(self):
        return self

    def __index__(self):
        raise NotSupported("symbolic integer used as an index")


def _as_poly(o):
    s = getattr(o, "_sym_poly", None)
    if s is not None:
        return s
    if isinstance(o, (bool, int, float)):
        return scalar_poly(o)[0]
    if isinstance(o, (Fraction, Poly)):
        return P.lift(o)
    if isinstance(o, (np.floating, np.integer)):
        return scalar_poly(o.item())[0]
    return None


_math_sqrt = math.sqrt


def _patched_sqrt(x):
    p = getattr(x, "_sym_poly", None)
    if p is not None:
        return SymFloat(P.sqrt(p))
    if isinstance(x, Tensor):
        return _patched_sqrt(x.item())
    return _math_sqrt(x)


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    return bool(abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))


def _hypot(*xs):
    return _patched_sqrt(sum(x * x for x in xs))


def _prod(xs, *, start=1):
    for x in xs:
        start = start * x
    return start


_MATH = {
    "pow": lambda x, y: x**y,
    "fabs": abs,
    "isclose": _isclose,
    "hypot": _hypot,
    "prod": _prod,
    "fsum": sum,
    "isfinite": lambda x: True,
    "isnan": lambda x: False,
    "isinf": lambda x: False,
    "copysign": lambda x, y: abs(x) if y >= 0 else -abs(x),
    **dict.fromkeys(
        "exp expm1 log log1p log2 log10 floor ceil trunc fmod modf frexp ldexp".split()
    ),
}


def _math_patch(name, f, g):
    def call(*args, **kwargs):
        if name in ("prod", "fsum") and args and not isinstance(args[0], Tensor):
            args = (list(args[0]), *args[1:])
        flat = args[0] if name in ("prod", "fsum") and args else args
        if any(hasattr(a, "_sym_poly") or isinstance(a, Tensor) for a in flat):
            lift = lambda a: _wrap_scalar(a.item()) if isinstance(a, Tensor) else a  # noqa: E731
            if isinstance(args[0], list):
                args = ([lift(a) for a in args[0]], *args[1:])
            else:
                args = tuple(lift(a) for a in args)
            flat = args[0] if isinstance(args[0], list) else args
            if any(hasattr(a, "_sym_poly") for a in flat):
                if g is None:
                    raise NotSupported(f"math.{name} of a symbolic number")
                return g(*args, **kwargs)
        return f(*args, **kwargs)

    call.__name__ = name
    return call


def install_math_patches():
    """Make `math.sqrt` & co. aware of symbolic floats (before the code is imported)."""
    math.sqrt = _patched_sqrt
    for name, g in _MATH.items():
        setattr(math, name, _math_patch(name, getattr(math, name), g))


class _NumberMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.base)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.base)

    def __eq__(cls, o):
        return o is cls or o is cls.base

    def __hash__(cls):
        return hash(cls.base)

    def __getattr__(cls, name):
        return getattr(cls.base, name)

    def __call__(cls, *args):
        if len(args) == 1:
            x = args[0]
            if isinstance(x, Tensor):
                x = _wrap_scalar(x.item())
            if hasattr(x, "_sym_poly"):
                return cls.convert(x)
        return cls.base(*args)


class _Float(metaclass=_NumberMeta):
    """Stands for `float` inside the code under test: keeps symbolic numbers."""

    base = float

    @staticmethod
    def convert(x):
        return SymFloat(x._sym_poly)


class _Int(metaclass=_NumberMeta):
    base = int

    @staticmethod
    def convert(x):
        if isinstance(x, int):
            return x
        raise NotSupported("integer part of a symbolic float")


def install_number_patches(modules):
    """Make `float(...)` and `int(...)` in these modules keep symbolic numbers."""
    for m in modules:
        m.__dict__.setdefault("float", _Float)
        m.__dict__.setdefault("int", _Int)


# ----------------------------------------------------------------------------
# operators
# ----------------------------------------------------------------------------

MOVE = {
    # views
    "view", "_unsafe_view", "reshape", "_reshape_alias", "t", "transpose", "permute",
    "expand", "slice", "select", "unsqueeze", "squeeze", "detach", "alias", "as_strided",
    "diagonal", "split", "split_with_sizes", "unbind", "chunk", "narrow", "unfold",
    "view_as", "unsafe_split", "unsafe_split_with_sizes", "unsafe_chunk", "lift",
    "swapaxes", "movedim", "flatten", "expand_as", "lift_fresh", "set_", "detach_",
    "t_", "transpose_", "squeeze_", "unsqueeze_", "resize_", "_conj", "resolve_conj",
    "resolve_neg", "view_dtype",
    # copies
    "clone", "cat", "stack", "index", "index_select", "gather", "scatter", "scatter_",
    "flip", "roll", "repeat", "tile", "constant_pad_nd", "diag_embed", "tril", "triu",
    "tril_", "triu_", "im2col", "diagonal_copy", "slice_scatter", "select_scatter",
    "diagonal_scatter", "as_strided_scatter", "reflection_pad1d", "reflection_pad2d",
    "replication_pad1d", "replication_pad2d", "_reshape_copy", "contiguous", "zero_",
    "take", "masked_select", "index_copy", "index_copy_", "block_diag", "narrow_copy",
    "rot90", "repeat_interleave", "unfold_copy", "expand_copy", "view_copy",
    "transpose_copy", "t_copy", "permute_copy", "slice_copy", "select_copy",
    "detach_copy", "alias_copy", "unsqueeze_copy", "squeeze_copy", "split_copy",
    "hstack", "vstack", "concat", "pixel_shuffle", "pixel_unshuffle", "new_empty",
    "channel_shuffle", "where",
    # structure only
    "empty", "empty_like", "empty_strided", "new_empty_strided", "zeros", "zeros_like",
    "new_zeros", "ones", "ones_like", "new_ones", "eye", "arange", "rand_like",
    "randn_like", "sym_size", "sym_stride", "sym_numel", "is_same_size", "_has_same_storage_numel", "_version",
    "isnan", "isinf", "isfinite", "is_nonzero_concrete", "isposinf", "isneginf",
    "normal_", "uniform_", "random_", "record_stream", "_is_zerotensor", "fill__c",
}


class Skip(Exception):
    """Handler declines, the operator is run natively."""


HANDLERS: dict = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f

    return deco


def _np_bin(f):
    u = np.frompyfunc(f, 2, 1)

    def g(a, b):
        r = u(a, b)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            return o
        return r

    return g


def _np_un(f):
    u = np.frompyfunc(f, 1, 1)

    def g(a):
        r = u(a)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            return o
        return r

    return g


n_add = _np_bin(lambda a, b: a + b)
n_sub = _np_bin(lambda a, b: a - b)
n_mul = _np_bin(lambda a, b: P.mul(a, b))
n_neg = _np_un(lambda a: -a)
n_abs = _np_un(P.absval)
n_sqrt = _np_un(P.sqrt)


def _div1(a, b):
    if b.is_const() and b.const_value() == 0:
        raise NotSupported("tensor division by exact zero")
    if not a.t:
        return P.ZERO
    return a / b


n_div = _np_bin(_div1)
n_inv = _np_un(P.inverse)
n_max = _np_bin(lambda a, b: P.maximum([a, b]))
n_min = _np_bin(lambda a, b: P.minimum([a, b]))


def obj(p):
    o = np.empty((), dtype=object)
    o[()] = p
    return o


def np_matmul(a, b):
    """Product of object matrices [n, k] @ [k, m]."""
    n, k = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    cols = [list(b[:, j]) for j in range(m)]
    for i in range(n):
        row = list(a[i])
        nz = [q for q in range(k) if row[q].t]
        if len(nz) == k:
            for j in range(m):
                out[i, j] = P.dot(row, cols[j])
        else:
            r = [row[q] for q in nz]
            for j in range(m):
                c = cols[j]
                out[i, j] = P.dot(r, [c[q] for q in nz])
    return out


def np_reduce(a, dims, keepdim, f):
    nd = a.ndim
    if dims is None or (isinstance(dims, (list, tuple)) and len(dims) == 0):
        dims = list(range(nd))
    if isinstance(dims, int):
        dims = [dims]
    if nd == 0:
        return obj(f([a[()]]))
    dims = sorted(d % nd for d in dims)
    keep = [d for d in range(nd) if d not in dims]
    b = a.transpose(keep + dims)
    kshape = [a.shape[d] for d in keep]
    out = np.empty(tuple(kshape), dtype=object)
    b = b.reshape(kshape + [-1]) if b.size else b.reshape(
        kshape + [int(np.prod([a.shape[d] for d in dims], dtype=int))]
    )
    for idx in np.ndindex(*kshape):
        out[idx] = f(list(b[idx]))
    if keepdim:
        out = out.reshape([1 if d in dims else a.shape[d] for d in range(nd)])
    return out


@handler("add", "sub", "rsub")
def _add(op, a, b, alpha=None):
    if alpha is not None:
        if op == "rsub":
            a = n_mul(a, alpha)
        else:
            b = n_mul(b, alpha)
    if op == "add":
        return n_add(a, b)
    return n_sub(a, b) if op == "sub" else n_sub(b, a)


@handler("mul")
def _mul(op, a, b):
    return n_mul(a, b)


@handler("div", "true_divide")
def _div(op, a, b, rounding_mode=None):
    if rounding_mode is not None:
        raise NotSupported("rounding division")
    return n_div(a, b)


@handler("reciprocal")
def _reciprocal(op, a):
    return n_inv(a)


@handler("neg")
def _neg(op, a):
    return n_neg(a)


@handler("abs")
def _abs(op, a):
    return n_abs(a)


@handler("sqrt")
def _sqrt(op, a):
    return n_sqrt(a)


@handler("rsqrt")
def _rsqrt(op, a):
    return n_inv(n_sqrt(a))


@handler("square")
def _square(op, a):
    return n_mul(a, a)


@handler("pow")
def _pow(op, a, b):
    return _np_bin(lambda x, y: x**y)(a, b)


@handler("maximum", "fmax")
def _maximum(op, a, b):
    return n_max(a, b)


@handler("minimum", "fmin")
def _minimum(op, a, b):
    return n_min(a, b)


@handler("clamp")
def _clamp(op, a, lo=None, hi=None):
    if lo is not None:
        a = n_max(a, lo)
    if hi is not None:
        a = n_min(a, hi)
    return a


@handler("clamp_min")
def _clamp_min(op, a, lo):
    return n_max(a, lo)


@handler("clamp_max")
def _clamp_max(op, a, hi):
    return n_min(a, hi)


@handler("lerp")
def _lerp(op, a, b, w):
    return n_add(a, n_mul(w, n_sub(b, a)))


@handler("addcmul")
def _addcmul(op, a, b, c, value=None):
    r = n_mul(b, c)
    return n_add(a, r if value is None else n_mul(value, r))


@handler("addcdiv")
def _addcdiv(op, a, b, c, value=None):
    r = n_div(b, c)
    return n_add(a, r if value is None else n_mul(value, r))


@handler("sum")
def _sum(op, a, dims=None, keepdim=False, dtype=None):
    return np_reduce(a, dims, keepdim, P.psum)


@handler("nansum")
def _nansum(op, a, dims=None, keepdim=False, dtype=None):
    return np_reduce(a, dims, keepdim, P.psum)


@handler("mean")
def _mean(op, a, dims=None, keepdim=False, dtype=None):
    return np_reduce(a, dims, keepdim, lambda xs: P.psum(xs).scale(1, len(xs)))


@handler("prod")
def _prod(op, a, dims=None, keepdim=False, dtype=None):
    def f(xs):
        r = P.ONE
        for x in xs:
            r = r * x
        return r

    return np_reduce(a, dims, keepdim, f)


def _variance(op, a, dims=None, unbiased=True, keepdim=False, correction=None):
    if isinstance(dims, bool):  # `var(a, unbiased)`
        dims, unbiased = None, dims
    if correction is not None:
        corr = correction[()].const_value() if isinstance(correction, np.ndarray) else correction
    else:
        corr = 1 if unbiased else 0

    def f(xs):
        m = P.psum(xs).scale(1, len(xs))
        r = P.psum([(x - m) * (x - m) for x in xs]) * Poly.const(Fraction(1) / (len(xs) - corr))
        return P.sqrt(r) if op == "std" else r

    return np_reduce(a, dims, keepdim, f)


HANDLERS["var"] = HANDLERS["std"] = _variance


@handler("hypot")
def _hypot(op, a, b):
    return _np_bin(lambda x, y: P.sqrt(x * x + y * y))(a, b)


@handler("cumprod")
def _cumprod(op, a, dim, dtype=None):
    out = a.copy()
    for i in range(1, a.shape[dim]):
        s1, s0 = [slice(None)] * a.ndim, [slice(None)] * a.ndim
        s1[dim], s0[dim] = slice(i, i + 1), slice(i - 1, i)
        out[tuple(s1)] = n_mul(out[tuple(s1)], out[tuple(s0)])
    return out


@handler("trace")
def _trace(op, a):
    return obj(P.psum([a[i, i] for i in range(min(a.shape))]))


@handler("mm")
def _mm(op, a, b):
    return np_matmul(a, b)


@handler("bmm")
def _bmm(op, a, b):
    out = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        out[i] = np_matmul(a[i], b[i])
    return out


def _lin(c, r, beta, alpha):
    if alpha is not None:
        r = n_mul(alpha, r)
    if beta is not None:
        if beta.shape == () and not beta[()].t:
            return r
        c = n_mul(beta, c)
    return n_add(c, r)


@handler("addmm")
def _addmm(op, c, a, b, beta=None, alpha=None):
    return _lin(c, np_matmul(a, b), beta, alpha)


@handler("baddbmm")
def _baddbmm(op, c, a, b, beta=None, alpha=None):
    return _lin(c, _bmm(op, a, b), beta, alpha)


@handler("addbmm")
def _addbmm(op, c, a, b, beta=None, alpha=None):
    return _lin(c, np_reduce(_bmm(op, a, b), [0], False, P.psum), beta, alpha)


@handler("mv")
def _mv(op, a, b):
    return np_matmul(a, b[:, None])[:, 0]


@handler("addmv")
def _addmv(op, c, a, b, beta=None, alpha=None):
    return _lin(c, _mv(op, a, b), beta, alpha)


@handler("addr")
def _addr(op, c, a, b, beta=None, alpha=None):
    return _lin(c, n_mul(a[:, None], b[None, :]), beta, alpha)


@handler("dot", "vdot")
def _dot(op, a, b):
    return obj(P.dot(list(a), list(b)))


@handler("outer", "ger")
def _outer(op, a, b):
    return n_mul(a[:, None], b[None, :])


@handler("cumsum")
def _cumsum(op, a, dim, dtype=None):
    out = a.copy()
    n = a.shape[dim]
    sl = [slice(None)] * a.ndim
    for i in range(1, n):
        s1, s0 = list(sl), list(sl)
        s1[dim], s0[dim] = slice(i, i + 1), slice(i - 1, i)
        out[tuple(s1)] = n_add(out[tuple(s1)], out[tuple(s0)])
    return out


def _norm_of(a, ordv, dims, keepdim):
    o = 2.0 if ordv is None else ordv
    if isinstance(o, np.ndarray):
        c = o[()].const_value()
        o = float(c)
    if o == 2:
        f = lambda xs: P.sqrt(P.dot(xs, xs))  # noqa: E731
    elif o == 1:
        f = lambda xs: P.psum([P.absval(x) for x in xs])  # noqa: E731
    elif o == math.inf:
        f = lambda xs: P.maximum([P.absval(x) for x in xs])  # noqa: E731
    else:
        raise NotSupported(f"norm of order {o}")
    return np_reduce(a, dims, keepdim, f)


@handler("linalg_vector_norm")
def _lvn(op, a, ordv=2, dims=None, keepdim=False, dtype=None):
    return _norm_of(a, ordv, dims, keepdim)


@handler("norm")
def _norm(op, a, p=2, dims=None, keepdim=False, dtype=None):
    return _norm_of(a, p, dims, keepdim)


@handler("frobenius_norm")
def _fnorm(op, a, dims=None, keepdim=False):
    return _norm_of(a, 2.0, dims, keepdim)


@handler("amax")
def _amax(op, a, dims=None, keepdim=False):
    return np_reduce(a, dims, keepdim, P.maximum)


@handler("amin")
def _amin(op, a, dims=None, keepdim=False):
    return np_reduce(a, dims, keepdim, P.minimum)


@handler("max")
def _max(op, a, b=None, *rest):
    if b is None:
        return np_reduce(a, None, False, P.maximum)
    if isinstance(b, np.ndarray):
        return n_max(a, b)
    raise NotSupported("max with indices")


@handler("min")
def _min(op, a, b=None, *rest):
    if b is None:
        return np_reduce(a, None, False, P.minimum)
    if isinstance(b, np.ndarray):
        return n_min(a, b)
    raise NotSupported("min with indices")


def _relu1(x):
    if x.is_const():
        return x if x.const_value() > 0 else P.ZERO
    return x if decide("<", -x) else P.ZERO


@handler("relu")
def _relu(op, a):
    return _np_un(_relu1)(a)


@handler("threshold_backward")
def _thr(op, g, a, thr):
    t = thr[()]
    return _np_bin(lambda gg, x: P.ZERO if decide("<=", x - t) else gg)(g, a)


def _lrelu1(s):
    def f(x):
        if x.is_const():
            return x if x.const_value() > 0 else x * s
        return x if decide("<", -x) else x * s

    return f


@handler("leaky_relu")
def _lrelu(op, a, slope=None):
    s = slope[()] if slope is not None else Poly.const(Fraction(1, 100))
    return _np_un(_lrelu1(s))(a)


@handler("leaky_relu_backward")
def _lrelub(op, g, a, slope, is_result):
    s = slope[()]
    return _np_bin(lambda gg, x: gg if decide("<", -x) else gg * s)(g, a)


def _cmp_handler(op):
    sym = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[op]
    return lambda _op, a, b: _np_bin(
        lambda x, y: P.ONE if _cmp(x, y, sym) else P.ZERO
    )(a, b)


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    HANDLERS[_n] = _cmp_handler(_n)


@handler("sign", "sgn")
def _sign(op, a):
    def f(x):
        if decide("==", x):
            return P.ZERO
        return P.ONE if decide("<", -x) else -P.ONE

    return _np_un(f)(a)


@handler("logical_not")
def _lnot(op, a):
    return _np_un(lambda x: P.ONE if decide("==", x) else P.ZERO)(a)


@handler("any")
def _any(op, a, dims=None, keepdim=False):
    def f(xs):
        return P.ONE if any(not decide("==", x) for x in xs) else P.ZERO

    return np_reduce(a, dims, keepdim, f)


@handler("all")
def _all(op, a, dims=None, keepdim=False):
    def f(xs):
        return P.ONE if all(not decide("==", x) for x in xs) else P.ZERO

    return np_reduce(a, dims, keepdim, f)


@handler("fill")
def _fill(op, a, v):
    return np.broadcast_to(v, a.shape)


@handler("full", "full_like", "new_full", "scalar_tensor")
def _full(op, *a):
    raise NotSupported("handled separately")


@handler("masked_fill")
def _masked_fill(op, a, m, v):
    return _np_tern(lambda x, c, y: y if c.t else x)(a, m, v)


def _np_tern(f):
    u = np.frompyfunc(f, 3, 1)

    def g(a, b, c):
        r = u(a, b, c)
        return r if isinstance(r, np.ndarray) else obj(r)

    return g


def _conv(x, w, b, stride, padding, dilation, groups):
    """Convolution of object arrays [B, C, *I] with [O, C/g, *K]."""
    nd = x.ndim - 2
    stride, padding, dilation = (
        list(v) * nd if len(v) == 1 else list(v) for v in (stride, padding, dilation)
    )
    B, C = x.shape[:2]
    O, Cg = w.shape[:2]
    K = w.shape[2:]
    inp = x.shape[2:]
    out_sp = [
        (inp[i] + 2 * padding[i] - dilation[i] * (K[i] - 1) - 1) // stride[i] + 1
        for i in range(nd)
    ]
    out = np.empty((B, O, *out_sp), dtype=object)
    for o in range(O):
        g = o // (O // groups)
        taps = [
            (c, k, w[(o, c, *k)])
            for c in range(Cg)
            for k in np.ndindex(*K)
            if w[(o, c, *k)].t
        ]
        for n in range(B):
            for pos in np.ndindex(*out_sp):
                xs, ws = [], []
                for c, k, wv in taps:
                    loc = tuple(
                        pos[i] * stride[i] + k[i] * dilation[i] - padding[i]
                        for i in range(nd)
                    )
                    if all(0 <= loc[i] < inp[i] for i in range(nd)):
                        xv = x[(n, g * Cg + c, *loc)]
                        if xv.t:
                            xs.append(xv)
                            ws.append(wv)
                v = P.dot(xs, ws)
                if b is not None:
                    v = v + b[o]
                out[(n, o, *pos)] = v
    return out


def _conv_bwd(g, x, w, stride, padding, dilation, groups, mask):
    nd = x.ndim - 2
    stride, padding, dilation = (
        list(v) * nd if len(v) == 1 else list(v) for v in (stride, padding, dilation)
    )
    B, C = x.shape[:2]
    O, Cg = w.shape[:2]
    K = w.shape[2:]
    inp = x.shape[2:]
    out_sp = g.shape[2:]
    gx_terms = {}
    gw_terms = {}
    for n in range(B):
        for o in range(O):
            grp = o // (O // groups)
            for pos in np.ndindex(*out_sp):
                gv = g[(n, o, *pos)]
                if not gv.t:
                    continue
                for c in range(Cg):
                    for k in np.ndindex(*K):
                        loc = tuple(
                            pos[i] * stride[i] + k[i] * dilation[i] - padding[i]
                            for i in range(nd)
                        )
                        if all(0 <= loc[i] < inp[i] for i in range(nd)):
                            xi = (n, grp * Cg + c, *loc)
                            wi = (o, c, *k)
                            if mask[0]:
                                gx_terms.setdefault(xi, []).append((gv, w[wi]))
                            if mask[1]:
                                gw_terms.setdefault(wi, []).append((gv, x[xi]))

    def build(shape, terms):
        r = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            ts = terms.get(idx, ())
            r[idx] = P.dot([a for a, _ in ts], [b for _, b in ts])
        return r

    gx = build(x.shape, gx_terms) if mask[0] else None
    gw = build(w.shape, gw_terms) if mask[1] else None
    gb = (
        np_reduce(g, [0, *range(2, g.ndim)], False, P.psum) if mask[2] else None
    )
    return gx, gw, gb


# ----------------------------------------------------------------------------
# the dispatch mode
# ----------------------------------------------------------------------------


def _flat_tensors(x, out):
    if isinstance(x, Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _flat_tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _flat_tensors(y, out)


def _any_sym_scalar(x):
    if isinstance(x, (list, tuple)):
        return any(_any_sym_scalar(y) for y in x)
    return is_sym_scalar(x)


def _strip_scalars(x):
    """Replace symbolic scalars by 1.0 for the native run."""
    if isinstance(x, tuple):
        return tuple(_strip_scalars(y) for y in x)
    if isinstance(x, list):
        return [_strip_scalars(y) for y in x]
    if isinstance(x, float) and is_sym_scalar(x):
        return 1.0
    if isinstance(x, int) and getattr(x, "_sym_poly", None) is not None:
        return 1
    return x


def _to_terms(x):
    if isinstance(x, Tensor):
        return decode(x)
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, (int, float)):
        return obj(scalar_poly(x)[0])
    return x


# arguments that stay plain Python values
RAW_ARGS = {
    "sum": {1, 2, 3}, "nansum": {1, 2, 3}, "mean": {1, 2, 3}, "prod": {1, 2, 3},
    "amax": {1, 2}, "amin": {1, 2}, "any": {1, 2}, "all": {1, 2}, "cumsum": {1, 2},
    "linalg_vector_norm": {1, 2, 3, 4}, "norm": {1, 2, 3, 4},
    "frobenius_norm": {1, 2}, "leaky_relu_backward": {3}, "cumprod": {1, 2},
    "var": {1, 2, 3}, "std": {1, 2, 3},
}


def _lower(a, b):
    return PREC[b] < PREC[a]


def cast_terms(arr, src, dst):
    """Terms after a data type conversion."""
    if src in FLOATS and dst in FLOATS:
        if T.cast_mode == "opaque" and _lower(src, dst):
            name = str(dst).replace("torch.", "")
            return _np_un(lambda p: P.rounded(p, name))(arr)
        return arr
    if dst in FLOATS:
        return arr
    if dst == torch.bool:
        return _np_un(lambda p: P.ZERO if decide("==", p) else P.ONE)(arr)
    return arr  # encode_into rejects non-integers


_decomp_table = None


def _decompositions():
    global _decomp_table
    if _decomp_table is None:
        with _disable_current_modes():
            from torch._decomp import decomposition_table

            _decomp_table = decomposition_table
    return _decomp_table


def _half(*ts) -> bool:
    """Whether the tensors include half precision numbers."""
    return any(t.dtype in HALF and t.numel() for t in ts)


class SymMode(TorchDispatchMode):
    """Interprets arithmetic on terms, runs data movement natively."""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        name = func._schema.name.split("::")[1]
        T.stats["ops"] += 1
        with torch._C.DisableTorchFunction():
            return self.run(func, name, args, kwargs)

    def run(self, func, name, args, kwargs):
        ns = func._schema.name.split("::")[0]
        inplace = name.endswith("_") and not name.endswith("__")
        base = name[:-1] if inplace else name
        if base.startswith("_foreach_"):
            return self.foreach(base, inplace, func, args, kwargs)
        if name == "_local_scalar_dense":
            t = args[0]
            if t.dtype in FLOATS and has_sym(t):
                return _code_f64(decode(t)[()])
            return func(*args, **kwargs)
        if name in ("_to_copy", "to"):
            return self.to_copy(func, args, kwargs)
        if name in ("copy_", "copy"):
            return self.copy_(func, args, kwargs, name)
        if name in ("fill_", "full", "full_like", "new_full", "scalar_tensor"):
            return self.full(func, name, args, kwargs)
        if name in ("_index_put_impl_", "index_put_", "index_put"):
            return self.index_put(func, name, args, kwargs)
        if name in ("scatter_add_", "scatter_add", "index_add", "index_add_"):
            return self.scatter_add(func, name, args, kwargs)
        if name == "_amp_foreach_non_finite_check_and_unscale_":
            return self.amp_unscale(func, args)
        if name == "_amp_update_scale_":
            return self.amp_update(func, args)
        if name == "equal":
            return self.equal(func, args, kwargs)
        if name == "nonzero":
            return self.nonzero(func, args, kwargs)
        if name == "put_":
            return self.put_(func, args, kwargs)
        if name == "avg_pool2d" and has_sym(args[0]):
            return self.pool(func, args, kwargs)
        if name == "isfinite":
            return torch.ones(args[0].shape, dtype=torch.bool) if has_sym(args[0]) and bool(
                func(*args, **kwargs).all()) else func(*args, **kwargs)
        if name == "scatter_reduce" or name == "scatter_reduce_":
            if (args[4] if len(args) > 4 else kwargs.get("reduce")) == "sum" and (
                args[5] if len(args) > 5 else kwargs.get("include_self", True)
            ):
                f = aten.scatter_add_ if name.endswith("_") else aten.scatter_add
                with self:
                    return f(*args[:4])
        if name in ("scatter", "scatter_") and (len(args) > 4 or "reduce" in kwargs):
            raise NotSupported("scatter with reduction")
        if name in MOVE or base in MOVE and name not in HANDLERS:
            ts = []
            if name == "constant_pad_nd" and len(args) > 2 and is_sym_scalar(args[2]):
                raise NotSupported("symbolic padding value")
            if kwargs.get("out") is not None and any(
                has_sym(t) for t in (args[0] if isinstance(args[0], (list, tuple)) else args)
                if isinstance(t, Tensor)
            ):
                return self.out_variant(func, name, args, kwargs)
            if name == "where":
                ts = [a for a in args if isinstance(a, Tensor)]
                if len(ts) == 3 and ts[1].dtype != ts[2].dtype and any(map(has_sym, ts)):
                    dt = torch.result_type(ts[1], ts[2])
                    with self:
                        ts[1:] = [t.to(dt) for t in ts[1:]]
                        return func(*ts)
                if any(a.dtype in FLOATS for a in ts[:1]):
                    raise NotSupported("where on a symbolic condition")
                if any(_any_sym_scalar(a) for a in args):
                    raise NotSupported("where with symbolic scalar")
                fl = [a.dtype for a in ts[1:]]
                if len(set(fl)) > 1 and any(has_sym(a) for a in ts[1:]):
                    raise NotSupported("where with mixed types")
            if name in ("cat", "stack", "concat"):
                ts = [t for t in args[0]]
                if len({t.dtype for t in ts}) > 1 and any(has_sym(t) for t in ts):
                    return self.promote_cat(func, args, kwargs)
            return func(*args, **kwargs)

        ts = []
        _flat_tensors(args, ts)
        _flat_tensors(kwargs, ts)
        sym = any(has_sym(t) for t in ts) or any(
            _any_sym_scalar(a) for a in list(args) + list(kwargs.values())
        )
        if not sym:
            # arithmetic on half precision numbers is interpreted, too, so that it is exact
            if not _half(*ts) or base not in HANDLERS or kwargs.get("out") is not None:
                return func(*args, **kwargs)
        T.opnames.add(name)
        T.stats["arith"] += 1
        if "out" in kwargs and kwargs["out"] is not None:
            return self.out_variant(func, name, args, kwargs)
        if name in ("convolution", "_convolution"):
            return self.convolution(func, args, kwargs)
        if name == "convolution_backward":
            return self.convolution_backward(func, args, kwargs)
        if name in ("native_batch_norm", "native_layer_norm", "_softmax"):
            raise NotSupported(f"operator {func}")
        h = HANDLERS.get(base)
        if h is None or ns not in ("aten", "prims"):
            return self.decompose(func, args, kwargs)
        if base in ("max", "min") and "dim" in func._overloadname:
            return self.extremum(base, func, args, kwargs)
        raw = RAW_ARGS.get(base, ())
        targs = [x if i in raw else _to_terms(x) for i, x in enumerate(args)]
        tkw = {
            k: (x if k in ("keepdim", "dim", "dtype", "rounding_mode", "correction",
                           "unbiased") else _to_terms(x))
            for k, x in kwargs.items()
        }
        if "dim" in tkw:
            tkw["dims"] = tkw.pop("dim")
        if "self" in tkw:
            raise NotSupported(f"keyword self in {func}")
        for k in ("memory_format",):
            tkw.pop(k, None)
        if base in ("sum", "nansum", "mean", "prod") and func._overloadname == "":
            targs, tkw = targs[:1], {}
        res = h(base, *targs, **tkw)
        out = func(*_strip_scalars(args), **{k: _strip_scalars(v) for k, v in kwargs.items()})
        if not isinstance(out, Tensor):
            raise NotSupported(f"operator {func} returns {type(out)}")
        encode_into(out, res)
        return out

    def decompose(self, func, args, kwargs):
        """Run an operator without interpretation through its decomposition."""
        f = _decompositions().get(func)
        if f is None and not func.name().startswith("prims::"):
            with self:
                r = func.decompose(*args, **kwargs)
            if r is not NotImplemented:
                return r
        if f is None:
            raise NotSupported(f"operator {func} on symbolic data")
        with self:
            return f(*args, **kwargs)

    def out_variant(self, func, name, args, kwargs):
        out = kwargs["out"]
        rest = {k: v for k, v in kwargs.items() if k != "out"}
        base = func.overloadpacket
        r = self.run(self._functional(base, args, rest), name, args, rest)
        out.resize_(r.shape)
        return self.copy_(aten.copy_.default, (out, r), {}, "copy_")

    def _functional(self, packet, args, kwargs):
        for ov in packet.overloads():
            if ov.endswith("out"):
                continue
            f = getattr(packet, ov)
            if len(f._schema.arguments) >= len(args) + len(kwargs):
                return f
        raise NotSupported(f"out variant of {packet}")

    def foreach(self, base, inplace, func, args, kwargs):
        op = base[len("_foreach_") :]
        packet = getattr(aten, op + ("_" if inplace else ""))
        n = len(args[0])
        outs = []
        for i in range(n):
            a = [
                x[i] if isinstance(x, (list, tuple)) and len(x) == n else x
                for x in args
            ]
            with self:
                outs.append(packet(*a, **kwargs))
        return None if inplace else outs

    def amp_unscale(self, func, args):
        """Gradient scaler: look for overflow in gradients, then un-scale them."""
        grads, found, inv = args
        if not any(map(has_sym, (*grads, inv))):
            return func(*args)
        T.opnames.add("_amp_foreach_non_finite_check_and_unscale_")
        with self:
            for g in grads:
                if has_sym(g) and any(
                    v.name.startswith("overflow[") for p in decode(g).reshape(-1)
                    for v in p.variables()
                ) or not bool(torch.isfinite(g).all()):
                    found.fill_(1.0)
                g.mul_(inv)

    def amp_update(self, func, args):
        """Gradient scaler: adapt the scale."""
        scale, tracker, found, growth, backoff, interval = args
        if not any(map(has_sym, (scale, found))):
            return func(*args)
        T.opnames.add("_amp_update_scale_")
        with self:
            if found.item():
                scale.mul_(backoff)
                tracker.fill_(0)
            else:
                n = tracker.item() + 1
                if n == interval:
                    scale.mul_(growth)
                    n = 0
                tracker.fill_(n)
        return scale

    def to_copy(self, func, args, kwargs):
        src = args[0]
        if not has_sym(src):
            out = func(*args, **kwargs)
            if _half(out) and src.dtype != out.dtype:
                encode_into(out, decode(src))
            return out
        arr = decode(src)
        out = func(*args, **kwargs)
        if out.dtype != src.dtype:
            T.opnames.add("_to_copy")
            encode_into(out, cast_terms(arr, src.dtype, out.dtype))
        return out

    def copy_(self, func, args, kwargs, name):
        dst, src = args[0], args[1]
        if dst.dtype == src.dtype or not (has_sym(src) or _half(dst)):
            return func(*args, **kwargs)
        arr = decode(src)
        out = func(*args, **kwargs)
        encode_into(out, cast_terms(arr, src.dtype, dst.dtype))
        return out

    def promote_cat(self, func, args, kwargs):
        arrs = []
        dim = args[1] if len(args) > 1 else kwargs.get("dim", 0)
        out = func(*args, **kwargs)
        arrs = [cast_terms(decode(t), t.dtype, out.dtype) for t in args[0]]
        arrs = [a for a in arrs if not (a.ndim == 1 and a.shape[0] == 0)]
        res = (
            np.stack(arrs, axis=dim)
            if "stack" in func._schema.name
            else np.concatenate(arrs, axis=dim)
        )
        encode_into(out, res)
        return out

    def full(self, func, name, args, kwargs):
        pos = {"fill_": 1, "full": 1, "full_like": 1, "new_full": 2, "scalar_tensor": 0}[
            name
        ]
        if len(args) > pos:
            v = args[pos]
        else:
            v = kwargs.get("fill_value", kwargs.get("value", kwargs.get("s")))
        if isinstance(v, Tensor):
            if not has_sym(v):
                return func(*args, **kwargs)
            p = decode(v)
        else:
            if not is_sym_scalar(v):
                out = func(*args, **kwargs)
                if _half(out) and v == v and not math.isinf(v):
                    encode_into(out, obj(scalar_poly(v)[0]))
                return out
            p = obj(scalar_poly(v)[0])
        out = func(*_strip_scalars(args), **{k: _strip_scalars(x) for k, x in kwargs.items()})
        encode_into(out, np.broadcast_to(p, tuple(out.shape)))
        return out

    def index_put(self, func, name, args, kwargs):
        acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
        t, idx, val = args[0], args[1], args[2]
        if not acc:
            return func(*args, **kwargs)
        if not (has_sym(t) or has_sym(val) or _half(t)):
            return func(*args, **kwargs)
        pos = torch.arange(t.numel()).reshape(t.shape)
        sel = aten.index.Tensor(pos, list(idx)).numpy()
        v = np.broadcast_to(decode(val), sel.shape)
        a = decode(t).copy()
        flat = a.reshape(-1)
        for i, p in zip(sel.reshape(-1), v.reshape(-1)):
            flat[i] = flat[i] + p
        out = func(*args, **kwargs)
        encode_into(out, flat.reshape(a.shape))
        return out

    def scatter_add(self, func, name, args, kwargs):
        t, dim, index, src = args[:4]
        if not (has_sym(t) or has_sym(src) or _half(t)):
            return func(*args, **kwargs)
        T.opnames.add(name)
        alpha = scalar_poly(kwargs.get("alpha", 1))[0]
        a = decode(t).copy()
        s = decode(src)
        ind = index.numpy()
        accs: dict = {}
        if name.startswith("index_add"):
            a2 = np.moveaxis(a, dim, 0)
            s2 = np.moveaxis(s, dim, 0)
            for i, j in enumerate(ind):
                a2[j : j + 1] = n_add(a2[j : j + 1], n_mul(obj(alpha), s2[i : i + 1]))
        else:
            for pos in np.ndindex(*ind.shape):
                tgt = list(pos)
                tgt[dim] = int(ind[pos])
                accs.setdefault(tuple(tgt), []).append(s[pos])
            for k, v in accs.items():
                a[k] = P.psum([a[k], *v])
        out = func(*args, **kwargs)
        encode_into(out, a)
        return out

    def extremum(self, base, func, args, kwargs):
        """Maximum or minimum along a dimension, with its position."""
        t = args[0]
        outs = func(*args, **kwargs)
        dim = args[1] if len(args) > 1 else kwargs["dim"]
        keep = args[2] if len(args) > 2 else kwargs.get("keepdim", False)
        a = decode(t)
        if a.ndim == 0:
            encode_into(outs[0], a)
            return outs
        a = np.moveaxis(a, dim, -1)
        val = np.empty(a.shape[:-1], dtype=object)
        pos = np.zeros(a.shape[:-1], dtype=np.int64)
        for idx in np.ndindex(*a.shape[:-1]):
            best = 0
            for j in range(1, a.shape[-1]):
                d = a[idx][j] - a[idx][best]
                if decide("<", -d if base == "max" else d):
                    best = j
            val[idx], pos[idx] = a[idx][best], best
        if keep:
            val, pos = np.expand_dims(val, dim), np.expand_dims(pos, dim)
        encode_into(outs[0], val)
        outs[1].copy_(torch.from_numpy(np.array(pos)))
        return outs

    def nonzero(self, func, args, kwargs):
        t = args[0]
        if not has_sym(t):
            return func(*args, **kwargs)
        a = decode(t)
        m = torch.zeros(t.shape, dtype=torch.bool)
        for i in np.ndindex(*a.shape):
            m[i] = not decide("==", a[i])
        return func(m, *args[1:], **kwargs)

    def finite(self, name, func, args, kwargs):
        """Symbols are finite."""
        return func(*args, **kwargs)

    def put_(self, func, args, kwargs):
        t, index, src = args[:3]
        acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
        if not (has_sym(t) or has_sym(src) or _half(t)) or not acc:
            return func(*args, **kwargs)
        a = decode(t).copy()
        shape = a.shape
        flat = a.reshape(-1)
        for i, p in zip(index.reshape(-1).tolist(), decode(src).reshape(-1)):
            flat[i] = flat[i] + p
        out = func(*args, **kwargs)
        encode_into(out, flat.reshape(shape))
        return out

    def pool(self, func, args, kwargs):
        """Average pooling through patches (default options only)."""
        x, k = args[0], list(args[1])
        rest = list(args[2:])
        if len(rest) > 2 and any(rest[2:3]) or len(rest) > 4 and rest[4] is not None:
            raise NotSupported("average pooling options")
        pad = rest[1] if len(rest) > 1 else 0
        count_pad = rest[3] if len(rest) > 3 else True
        if any(pad if isinstance(pad, (list, tuple)) else [pad]) and not count_pad:
            raise NotSupported("average pooling options")
        stride = list(rest[0]) if rest and rest[0] else k
        with self:
            b, c = x.shape[0], x.shape[1]
            out = torch.empty_like(func(torch.zeros(x.shape, dtype=x.dtype), *args[1:]))
            u = aten.im2col(x.reshape(b * c, 1, *x.shape[2:]), k, [1, 1],
                            list(pad) if isinstance(pad, (list, tuple)) else [pad] * 2, stride)
            return u.mean(1).reshape(out.shape)

    def equal(self, func, args, kwargs):
        a, b = args
        if not (has_sym(a) or has_sym(b)):
            return func(*args, **kwargs)
        if a.shape != b.shape:
            return False
        return all(
            decide("==", x - y)
            for x, y in zip(decode(a).reshape(-1), decode(b).reshape(-1))
        )

    def convolution(self, func, args, kwargs):
        x, w, b, stride, padding, dilation, transposed, _, groups = args[:9]
        if transposed:
            raise NotSupported("transposed convolution")
        res = _conv(
            decode(x), decode(w), None if b is None else decode(b), stride, padding,
            dilation, groups,
        )
        out = func(*args, **kwargs)
        encode_into(out, res)
        return out

    def convolution_backward(self, func, args, kwargs):
        (g, x, w, bias_sizes, stride, padding, dilation, transposed, _, groups, mask) = (
            args[:11]
        )
        if transposed:
            raise NotSupported("transposed convolution")
        res = _conv_bwd(
            decode(g), decode(x), decode(w), stride, padding, dilation, groups, mask
        )
        outs = func(*args, **kwargs)
        for o, r in zip(outs, res):
            if o is not None and r is not None:
                encode_into(o, r)
        return outs


def _wrap_scalar(x):
    if isinstance(x, float) and not hasattr(x, "_sym_poly") and is_sym_scalar(x):
        return SymFloat(scalar_poly(x)[0])
    if isinstance(x, list):
        return [_wrap_scalar(y) for y in x]
    return x


def _sym_leaf(x):
    if isinstance(x, (list, tuple)):
        return any(_sym_leaf(y) for y in x)
    return is_sym_scalar(x)


def _tensor_of(func, args, kwargs, data):
    """`torch.tensor` & co. of numbers some of which are symbolic."""

    def strip(x):
        return [strip(y) for y in x] if isinstance(x, (list, tuple)) else _strip_scalars(x)

    def terms(x):
        return [terms(y) for y in x] if isinstance(x, (list, tuple)) else scalar_poly(x)[0]

    if "data" in kwargs:
        out = func(*args, **{**kwargs, "data": strip(data)})
    else:
        out = func(*args[:-1], strip(data), **kwargs)
    arr = np.empty(tuple(out.shape), dtype=object)
    vals = terms(data)
    for i in np.ndindex(*out.shape):
        v = vals
        for j in i:
            v = v[j]
        arr[i] = v
    write(out, arr)
    return out


class SymFn(TorchFunctionMode):
    """Turns symbolic results of `.item()` & co. into symbolic floats."""

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if func is Tensor.__float__ or func is Tensor.__int__:
            x = Tensor.item(args[0])
            x = _wrap_scalar(x)
            if hasattr(x, "_sym_poly"):
                if func is Tensor.__int__:
                    raise NotSupported("integer part of symbolic tensor")
                return x
            return func(*args, **kwargs)
        if func in (torch.tensor, torch.as_tensor, torch.scalar_tensor) or (
            func in (Tensor.new_tensor,)
        ):
            data = args[-1] if args else kwargs.get("data")
            if isinstance(data, (list, tuple, float, int)) and _sym_leaf(data):
                return _tensor_of(func, args, kwargs, data)
        if func is Tensor.__format__ or func is Tensor.__repr__:
            return "<tensor>"
        out = func(*args, **kwargs)
        if isinstance(out, (float, list)):
            return _wrap_scalar(out)
        return out


class symbolic:
    """Context in which torch code runs symbolically."""

    def __enter__(self):
        self.f = SymFn()
        self.m = SymMode()
        self.f.__enter__()
        self.m.__enter__()
        return self

    def __exit__(self, *a):
        self.m.__exit__(*a)
        self.f.__exit__(*a)


def read(t: Tensor) -> np.ndarray:
    with _disable_current_modes(), torch._C.DisableTorchFunctionSubclass():
        return decode(t)


def write(t: Tensor, arr):
    with _disable_current_modes(), torch._C.DisableTorchFunctionSubclass():
        with torch.no_grad():
            encode_into(t, np.asarray(arr, dtype=object))
