"""Stand-in for the `quadpy` dependency (not installable offline).

Only the four entry points Hyperstatic calls are provided.  `scheme.integrate`
has quadpy's calling convention: the integrand receives points of shape
(2, npts) and returns an array whose *last* axis runs over the points.

* c2.get_good_scheme(d): tensor Gauss-Legendre rule, exact to degree >= d.
* t2.get_good_scheme(d): collapsed (Duffy) Gauss-Legendre rule, exact to
  degree >= d on any triangle.
"""
from . import c2, t2

__version__ = "0.16.999+verif-shim"
__all__ = ["c2", "t2"]
