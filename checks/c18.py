"""C18: the symbolic building blocks of the elements: interpolation functions, Jacobian, strain operators, isotropic tensor."""
import numpy as np
from hv.core import Skip

PROP = "C18"
RULE = ("the interpolation functions evaluated at random points and used on random polynomial fields, Jacobians of random polygons and random functions, strain operators on "
        "random polynomial displacement fields, matrix products of operators, numbers and symbols, stresses of random strains; non-trivial: every execution; distinct by data")
MUST_SEE = ["oracle:lagrange-nodal-values", "oracle:lagrange-partition-of-unity", "oracle:lagrange-reproduces", "oracle:hermite-end-values", "oracle:hermite-reproduces",
            "oracle:hermite-surface-end-values", "oracle:hermite-surface-reproduces", "oracle:jacobian-is-derivative-of-map", "oracle:jacobian-area", "oracle:plane-strain-operator",
            "oracle:space-strain-operator", "oracle:rigid-motion-has-no-strain", "oracle:operator-product", "oracle:hooke", "oracle:calls-are-independent"]
ASSUMPTIONS = ["sympy differentiates and evaluates correctly"]


def prepare(tier):
    from hv import core
    core.setup_path()


def imports():
    import hyperstatic.core.fe_model.meta.interpolate.Lagrange, hyperstatic.core.fe_model.meta.interpolate.Hermite
    import hyperstatic.core.fe_model.meta.jacobi, hyperstatic.core.fe_model.meta.operator, hyperstatic.core.fe_model.meta.isotropy


def value(e, **kw):
    """a symbolic expression at a point, symbols by name"""
    import sympy as syp
    e = syp.sympify(e)
    left = {str(s) for s in e.free_symbols} - set(kw)
    assert not left, left
    return float(e.subs({s: kw[str(s)] for s in e.free_symbols}))


def poly(c, x):
    return sum(a * x**k for k, a in enumerate(c))


def dpoly(c, x):
    return sum(k * a * x**(k - 1) for k, a in enumerate(c) if k)


def lagrange(rng, m):
    from hyperstatic.core.fe_model.meta.interpolate import Lagrange as L
    n1, n2 = L.N1D(), L.N2D()
    m.same("lagrange-count", (len(n1), len(n2)), (2, 4))
    m.close("lagrange-nodal-values", [[value(N, xi=a) for a in (-1, 1)] for N in n1], np.eye(2), 1e-14)
    corners = [(-1, -1), (-1, 1), (1, -1), (1, 1)]
    m.close("lagrange-nodal-values", [[value(N, xi=a, eta=b) for a, b in corners] for N in n2], np.eye(4), 1e-14)
    x, y = [float(v) for v in rng.uniform(-1.5, 1.5, 2)]
    c = rng.normal(size=4)
    v1, v2 = np.array([value(N, xi=x) for N in n1]), np.array([value(N, xi=x, eta=y) for N in n2])
    m.close("lagrange-partition-of-unity", [v1.sum(), v2.sum()], [1, 1], 1e-13)
    m.close("lagrange-reproduces", v1 @ [c[0] - c[1], c[0] + c[1]], c[0] + c[1] * x, 1e-12, 10)
    f = lambda a, b: c[0] + c[1] * a + c[2] * b + c[3] * a * b
    m.close("lagrange-reproduces", v2 @ [f(a, b) for a, b in corners], f(x, y), 1e-12, 10)
    n1.clear()
    m.same("calls-are-independent", len(L.N1D()), 2)
    m.describe(at=(x, y), c=c)
    m.distinct("lagrange", x, y)


def hermite(rng, m):
    import sympy as syp
    from hyperstatic.core.fe_model.meta.interpolate import Hermite as H
    n1, n2 = H.N1D(), H.N2D()
    m.same("hermite-count", (len(n1), len(n2)), (4, 16))
    l = float(10 ** rng.uniform(-1, 1))
    xi, eta = syp.symbols("xi eta")
    # values and slopes at the ends: the slope functions carry the length, so that their slope along x = xi * l is one
    ends = np.array([[value(N, xi=0, l=l), value(syp.diff(N, xi), xi=0, l=l) / l, value(N, xi=1, l=l), value(syp.diff(N, xi), xi=1, l=l) / l] for N in n1])
    m.close("hermite-end-values", ends, np.eye(4), 1e-13)
    x, y = [float(v) for v in rng.uniform(-0.2, 1.2, 2)]
    c = rng.normal(size=4)
    X = x * l
    v = np.array([value(N, xi=x, l=l) for N in n1])
    m.close("hermite-reproduces", v @ [c[0], c[1], poly(c, l), dpoly(c, l)], poly(c, X), 1e-11, np.abs(c) @ (max(1, l) ** np.arange(4)) * 10)
    # the sixteen surface functions: value, slope, slope and twist at (0,0), (1,0), (0,1), (1,1)
    spots = [(0, 0), (1, 0), (0, 1), (1, 1)]
    T = np.zeros((16, 16))
    for a, N in enumerate(n2):
        d = [N, syp.diff(N, xi) / l, syp.diff(N, eta) / l, syp.diff(N, xi, eta) / l**2]
        T[a] = [value(g, xi=p, eta=q, l=l) for g in d for p, q in spots]
    m.close("hermite-surface-end-values", T, np.eye(16), 1e-12)
    a, b = rng.normal(size=4), rng.normal(size=4)
    v = np.array([value(N, xi=x, eta=y, l=l) for N in n2])
    g = [(poly, poly), (dpoly, poly), (poly, dpoly), (dpoly, dpoly)]
    data = [f(a, p * l) * h(b, q * l) for f, h in g for p, q in spots]
    big = (np.abs(a) @ (max(1, l) ** np.arange(4))) * (np.abs(b) @ (max(1, l) ** np.arange(4)))
    m.close("hermite-surface-reproduces", v @ data, poly(a, X) * poly(b, y * l), 1e-10, big * 30)
    m.describe(at=(x, y), l=l, c=c)
    m.distinct("hermite", x, y, l)


def random_expression(rng, syms, deg=3):
    import sympy as syp
    e = syp.Integer(0)
    for _ in range(int(rng.integers(1, 5))):
        t = syp.Rational(int(rng.integers(-5, 6)), int(rng.integers(1, 5)))
        for s in syms:
            t = t * s ** int(rng.integers(0, deg))
        e = e + t
    if rng.random() < 0.3:
        e = e + syp.sin(syms[0]) * syms[-1]
    return e


def jacobian(rng, m):
    import sympy as syp
    from hyperstatic.core.fe_model.meta.jacobi import J2D
    from hyperstatic.core.fe_model.meta.interpolate import Lagrange as L
    xi, eta = syp.symbols("xi eta")
    n = int(rng.integers(3, 8))
    N = [random_expression(rng, (xi, eta)) for _ in range(n)] if rng.random() < 0.6 else L.N2D()
    n = len(N)
    X = rng.normal(size=(n, 2)) * 10 ** rng.uniform(-1, 1)
    keep = X.copy()
    J = J2D(N, X)
    m.true("argument-untouched", np.array_equal(X, keep))
    m.same("jacobian-shape", tuple(J.shape), (2, 2))
    a, b, h = float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1)), 1e-5
    got = np.array([[value(J[i, j], xi=a, eta=b) for j in range(2)] for i in range(2)])
    at = lambda p, q: np.array([value(f, xi=p, eta=q) for f in N]) @ X
    dN = np.array([[value(syp.diff(f, s), xi=a, eta=b) for f in N] for s in (xi, eta)])
    big = np.abs(dN) @ np.abs(X) + 1e-300
    m.close("jacobian-is-derivative-of-map", got, dN @ X, 1e-11, big)
    num = np.array([(at(a + h, b) - at(a - h, b)), (at(a, b + h) - at(a, b - h))]) / 2 / h
    m.close("jacobian-is-derivative-of-map", got, num, 1e-4, np.max(big) * 10 + np.max(np.abs(X)) * 10)
    # the determinant integrates to the area of a quadrilateral
    Q = L.N2D()
    P = np.array([[-1.0, -1], [-1, 1], [1, -1], [1, 1]]) + rng.uniform(-0.3, 0.3, (4, 2))
    P = P * 10 ** rng.uniform(-1, 1)
    D = syp.expand(syp.Matrix(J2D(Q, P)).det())
    g = 1 / np.sqrt(3)
    got = sum(value(D, xi=u, eta=v) for u in (-g, g) for v in (-g, g))
    R = P[[0, 2, 3, 1]]
    x, y = R.T
    m.close("jacobian-area", got, 0.5 * np.sum(x * np.roll(y, -1) - y * np.roll(x, -1)), 1e-10)
    m.describe(N=[str(f) for f in N], X=X)
    m.distinct("jacobian", X)


def strains(rng, m):
    import sympy as syp
    from hyperstatic.core.fe_model.meta.operator import L2, L3, operator_dot
    names = [("x", "y"), ("xi", "eta"), ("r", "s")][int(rng.integers(3))]
    x, y = syp.symbols(names)
    cols = int(rng.integers(1, 4))
    u = np.array([[random_expression(rng, (x, y)) for _ in range(cols)] for _ in range(2)], dtype=object)
    e = operator_dot(L2(x, y), u if rng.random() < 0.5 else syp.Matrix(u))
    m.same("operator-shape", tuple(e.shape), (3, cols))
    for k in range(cols):
        w = [syp.diff(u[0, k], x), syp.diff(u[1, k], y), syp.diff(u[0, k], y) + syp.diff(u[1, k], x)]
        m.true("plane-strain-operator", all(syp.expand(e[i, k] - w[i]) == 0 for i in range(3)), lambda: "%s of %s" % (e[:, k], u[:, k]))
    # asked again, of the directions in the other order and of others
    t = syp.symbols(str(rng.choice(["t", "z", "eta"])))
    for p, q in [((y, x), (x, t), (x, y))[int(k)] for k in rng.permutation(3)]:
        e = operator_dot(L2(p, q), u)
        w = [syp.diff(u[0, 0], p), syp.diff(u[1, 0], q), syp.diff(u[0, 0], q) + syp.diff(u[1, 0], p)]
        m.true("plane-strain-operator", all(syp.expand(e[i, 0] - w[i]) == 0 for i in range(3)), lambda: "%s of %s along %s and %s" % (e[:, 0], u[:, 0], p, q))
    X = syp.symbols("x y z")
    v = np.array([[random_expression(rng, X)] for _ in range(3)], dtype=object)
    e = operator_dot(L3, v)
    m.same("operator-shape", tuple(e.shape), (6, 1))
    d = lambda i, j: syp.diff(v[i, 0], X[j])
    w = [d(0, 0), d(1, 1), d(2, 2), d(0, 1) + d(1, 0), d(1, 2) + d(2, 1), d(2, 0) + d(0, 2)]
    m.true("space-strain-operator", all(syp.expand(e[i, 0] - w[i]) == 0 for i in range(6)), lambda: "%s of %s" % (e.T, v.T))
    a = [syp.Rational(int(k), 7) for k in rng.integers(-20, 20, 6)]
    r = np.array([[a[0] + a[4] * X[2] - a[5] * X[1]], [a[1] + a[5] * X[0] - a[3] * X[2]], [a[2] + a[3] * X[1] - a[4] * X[0]]], dtype=object)
    m.true("rigid-motion-has-no-strain", all(syp.expand(q) == 0 for q in operator_dot(L3, r)), "space")
    r2 = np.array([[a[0] - a[2] * y], [a[1] + a[2] * x]], dtype=object)
    m.true("rigid-motion-has-no-strain", all(syp.expand(q) == 0 for q in operator_dot(L2(x, y), r2)), "plane")
    m.describe(u=[[str(q) for q in z] for z in u])
    m.distinct("strains", u)


def tiny(e, symbols):
    """nothing but rounding left"""
    return all(abs(complex(e.subs(dict(zip(symbols, at))).evalf())) < 1e-12 for at in ([0.3, -0.7, 1.1], [-1.3, 0.4, 0.6], [0.9, 1.2, -0.5]))


def product(rng, m):
    """a matrix of functions, numbers and symbols times a matrix of expressions"""
    import sympy as syp
    from hyperstatic.core.fe_model.meta.operator import operator_dot
    p, q, r = [int(v) for v in rng.integers(1, 5, 3)]
    x, y, c = syp.symbols("x y c")
    ops = [(0, lambda f: 0), (lambda f: syp.diff(f, x), lambda f: syp.diff(f, x)), (lambda f: syp.diff(f, y, 2), lambda f: syp.diff(f, y, 2)), (3, lambda f: 3 * f), (-1.5, lambda f: -1.5 * f),
           (c, lambda f: c * f), (lambda f: f * f, lambda f: f * f)]
    pick = [[int(rng.integers(len(ops))) for _ in range(q)] for _ in range(p)]
    A = np.empty((p, q), dtype=object)
    for i in range(p):
        for j in range(q):
            A[i, j] = ops[pick[i][j]][0]
    f = np.array([[random_expression(rng, (x, y)) for _ in range(r)] for _ in range(q)], dtype=object).reshape(q, r)
    got = operator_dot(A, f)
    m.same("operator-shape", tuple(got.shape), (p, r))
    for i in range(p):
        for j in range(r):
            w = sum(ops[pick[i][k]][1](f[k, j]) for k in range(q))
            m.true("operator-product", syp.expand(got[i, j]) == syp.expand(w) or syp.expand(got[i, j] - w) == 0 or tiny(got[i, j] - w, (x, y, c)), lambda: "entry %d %d: %s instead of %s" % (i, j, got[i, j], w))
    try:
        operator_dot(A, f[:-1] if q > 1 else np.vstack([f, f]))
        ok = False
    except AssertionError:
        ok = True
    m.true("operator-sizes-refused", ok, "sizes that do not fit were multiplied")
    m.describe(pick=pick)
    m.distinct("product", pick, f)


def hooke(rng, m):
    import hyperstatic.core.fe_model.meta.isotropy as iso
    E, nu = float(10 ** rng.uniform(0, 11)), float(rng.uniform(0, 0.49))
    e = rng.normal(size=6) * 1e-3
    sub = dict(zip(("\\epsilon_{xx}", "\\epsilon_{yy}", "\\epsilon_{zz}", "\\gamma_{xy}", "\\gamma_{yz}", "\\gamma_{zx}"), e), E=E, nu=nu)
    exx, eyy, ezz, gxy, gyz, gzx = e
    eps = np.array([[exx, gxy / 2, gzx / 2], [gxy / 2, eyy, gyz / 2], [gzx / 2, gyz / 2, ezz]])
    G, lam = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
    want = 2 * G * eps + lam * np.trace(eps) * np.eye(3)
    m.close("hooke", [[value(iso.sig[i, j], **sub) for j in range(3)] for i in range(3)], want, 1e-11)
    D = np.array([[[[value(iso.D_ijkl(i, j, k, l), **sub) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)])
    m.close("hooke", np.tensordot(D, eps), want, 1e-11)
    m.close("hooke", [[value(iso.eps[i, j], **sub) for j in range(3)] for i in range(3)], eps, 1e-13)
    m.describe(E=E, nu=nu, strain=e)
    m.distinct("hooke", E, nu, e)


KINDS = {"lagrange": (lagrange, 160, 1280), "hermite": (hermite, 160, 1280), "jacobian": (jacobian, 320, 2560), "strains": (strains, 320, 2560), "product": (product, 480, 3840), "hooke": (hooke, 80, 640)}
