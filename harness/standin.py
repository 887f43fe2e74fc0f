"""Recording stand-ins for the linear solvers of the libraries underneath, installed before jax_fem is imported."""
import numpy as np
import scipy.sparse.linalg
import jax.scipy.sparse.linalg
from petsc4py import PETSc

SINK = None          # a function of (kind, ksp, pc, pre, norm of the right-hand side), or None


def note(kind, b, ksp='', pc='', pre=True):
    if SINK is not None:
        try:
            n = float(np.linalg.norm(np.asarray(b)))
        except Exception:
            n = float('nan')
        SINK(kind, ksp, pc, bool(pre), n)


class KSP(PETSc.KSP):
    def solve(self, b, x, *a, **kw):
        note('petsc', b.getArray(), str(self.getType()), str(self.getPC().getType()))
        return super().solve(b, x, *a, **kw)


_spsolve, _bicgstab = scipy.sparse.linalg.spsolve, jax.scipy.sparse.linalg.bicgstab


def spsolve(A, b, *a, **kw):
    note('spsolve', b)
    return _spsolve(A, b, *a, **kw)


def bicgstab(A, b, x0=None, *, M=None, **kw):
    note('jax', b, pre=M is not None)
    return _bicgstab(A, b, x0, M=M, **kw)


PETSc.KSP = KSP
scipy.sparse.linalg.spsolve = spsolve
jax.scipy.sparse.linalg.bicgstab = bicgstab
