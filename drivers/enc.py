"""Encoding of observations as 32-bit integers for TLC."""
import math
import numpy as np

BAD = 2000000001          # NaN, infinity, overflow, or not a number
NONINT = 2000000002       # a value that must be integral but is not
_rnd = [1]


def seed(n):
    _rnd[0] = n % 2147483647


def coin():
    """Reproducible choice between equivalent forms of a call."""
    _rnd[0] = (_rnd[0] * 1103515245 + 12345) % 2147483648
    return bool(_rnd[0] >> 17 & 1)


def omit(kw, **dflt):
    """Leaves out some of the arguments that have their default values."""
    return {k: v for k, v in kw.items()
            if not (k in dflt and v == dflt[k] and coin())}


def fx(x, scale=100000):
    """Fixed point: round(x * scale)."""
    try:
        x = float(x) * scale
    except Exception:
        return BAD
    if math.isnan(x) or math.isinf(x) or abs(x) > 1.9e9:
        return BAD
    return int(round(x))


def iv(x, mul=1, tol=1e-6):
    """Value that must be an integer after multiplication with mul."""
    try:
        x = float(x) * mul
    except Exception:
        return BAD
    if math.isnan(x) or math.isinf(x) or abs(x) > 1.9e9:
        return BAD
    r = round(x)
    if abs(x - r) > tol:
        return NONINT
    return int(r)


def cx(z, scale=100000):
    """Complex number as a fixed-point pair."""
    try:
        z = complex(z)
    except Exception:
        return [BAD, BAD]
    return [fx(z.real, scale), fx(z.imag, scale)]


def civ(z, mul=1):
    """Complex number with integral parts."""
    try:
        z = complex(z)
    except Exception:
        return [BAD, BAD]
    return [iv(z.real, mul), iv(z.imag, mul)]


def mat(m, scale=100000):
    """Complex matrix as rows of fixed-point pairs."""
    m = np.asarray(m)
    if m.ndim != 2:
        return []
    return [[cx(z, scale) for z in row] for row in m]


def vec(v, scale=100000):
    v = np.asarray(v)
    if v.ndim != 1:
        return []
    return [fx(x, scale) for x in v]


def cvec(v, scale=100000):
    v = np.asarray(v)
    if v.ndim != 1:
        return []
    return [cx(x, scale) for x in v]


def rvec2(m, scale=100000):
    """Real matrix as rows of fixed-point numbers."""
    m = np.asarray(m)
    if m.ndim != 2:
        return []
    return [[fx(x, scale) for x in row] for row in m]
