"""Helpers shared by the drivers that replay scenarios on the real code."""
import contextlib, io, logging, math, os, sys, traceback
import numpy as np
import jax
import standin
import jax_fem.solver            # enables x64
import jax_fem
logging.getLogger('jax_fem').setLevel(logging.ERROR)
jax_fem.logger.setLevel(logging.ERROR)
import jax.numpy as jnp

BIG = 1000000000


class Observed(Exception):
    def __init__(self, ev, text):
        self.ev, self.text = ev, text


def fx(x, scale=1000000):
    """Nested lists of fixed-point integers (non-finite and huge values are clamped to +-10^9)."""
    a = np.asarray(x, dtype=float)
    with np.errstate(all='ignore'):
        a = np.where(np.isnan(a), BIG / scale, a) * scale
        a = np.clip(a, -BIG, BIG)
        return np.rint(a).astype(int).tolist()


def ints(x):
    a = np.asarray(x)
    return a.astype(int).tolist()


def err_text(e):
    return f'{type(e).__name__}: {e}'[:300]


def call(fn, *args, **kw):
    """(result, None) or (None, error text): exceptions of the code under test are observations."""
    try:
        return fn(*args, **kw), None
    except Exception as e:       # noqa
        traceback.print_exc()
        return None, err_text(e)


def dec(x):
    """Decimal floats <<m, e>> with eight significant digits (Dec.tla), element-wise over nested lists."""
    a = np.asarray(x, dtype=float)
    if a.ndim:
        return [dec(v) for v in a]
    v = float(a)
    if not math.isfinite(v):
        return [0, 9999]
    if v == 0:
        return [0, 0]
    s = f'{v:.7e}'
    m, e = s.split('e')
    m = int(m.replace('.', ''))
    return [m, int(e) - 7]
