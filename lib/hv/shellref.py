"""Independent numpy formulations of the shell kernels (stiffness density at a point
of the parent element) and of the elements built from them."""
import numpy as np

R23 = np.sqrt(2.0 / 3.0)
RULE4 = [((R23, 0.0), 1.0), ((-R23, 0.0), 1.0), ((0.0, R23), 1.0), ((0.0, -R23), 1.0)]
XI = np.array([1.0, 1, -1, -1])
ETA = np.array([-1.0, 1, 1, -1])


def plane_stress(E, mu):
    return E / (1 - mu**2) * np.array([[1, mu, 0], [mu, 1, 0], [0, 0, (1 - mu) / 2]])


def bilinear(xi, eta, sx, sy):
    dN = np.array([sx * (1 + sy * eta), sy * (1 + sx * xi)]) / 4
    return (1 + sx * xi) * (1 + sy * eta) / 4, dN


def gq12_B(xi, eta, X, corner_sign=False):
    """strain matrix (3 x 12) of the membrane; per node u, v, drilling; corner_sign: with each corner's own xi in
    the bubble along xi instead of the running coordinate"""
    x, y = X[:, 0], X[:, 1]
    N, dN = bilinear(xi, eta, XI, ETA)
    J = dN @ X
    Ji = np.linalg.inv(J)
    a1, a2, a3 = XI @ x / 4, ETA @ x / 4, (XI * ETA) @ x / 4
    b1, b2, b3 = XI @ y / 4, ETA @ y / 4, (XI * ETA) @ y / 4
    d = Ji @ dN
    B = np.zeros((3, 12))
    for i in range(4):
        h, k = XI[i], ETA[i]
        # bubble(p, q): s (1-xi^2)(p1+p3 k)(1+k eta) + k (1-eta^2)(p2+p3 h)(1+h xi), s = xi or h
        s, ds = (h, 0.0) if corner_sign else (xi, 1.0)

        def grad(p1, p2, p3):
            gx = (ds * (1 - xi**2) - 2 * xi * s) * (p1 + p3 * k) * (1 + k * eta) + k * (1 - eta**2) * (p2 + p3 * h) * h
            ge = s * (1 - xi**2) * (p1 + p3 * k) * k - 2 * eta * k * (p2 + p3 * h) * (1 + h * xi)
            return Ji @ np.array([gx, ge]) / 8
        gu = grad(b1, b2, b3)
        gv = -grad(a1, a2, a3)
        B[:, 3 * i] = [d[0, i], 0, d[1, i]]
        B[:, 3 * i + 1] = [0, d[1, i], d[0, i]]
        B[:, 3 * i + 2] = [gu[0], gv[1], gu[1] + gv[0]]
    return B, np.linalg.det(J)


def gq12(E, mu, t, xi, eta, X, corner_sign=False):
    B, det = gq12_B(xi, eta, X, corner_sign)
    return t * det * B.T @ plane_stress(E, mu) @ B


def serendipity(xi, eta):
    """derivatives (2 x 8) of the eight-node functions, corners then mid-sides 12, 23, 34, 41 (corners counter-clockwise from (-1,-1))"""
    d = np.zeros((2, 8))
    for i, (h, k) in enumerate(((-1, -1), (1, -1), (1, 1), (-1, 1))):
        # N = (1+h xi)(1+k eta)(h xi + k eta - 1)/4
        d[0, i] = h * (1 + k * eta) * (2 * h * xi + k * eta) / 4
        d[1, i] = k * (1 + h * xi) * (h * xi + 2 * k * eta) / 4
    d[:, 4] = [-xi * (1 - eta), -(1 - xi**2) / 2]
    d[:, 5] = [(1 - eta**2) / 2, -eta * (1 + xi)]
    d[:, 6] = [-xi * (1 + eta), (1 - xi**2) / 2]
    d[:, 7] = [-(1 - eta**2) / 2, -eta * (1 - xi)]
    return d


def dkq_B(xi, eta, X, swapped=True):
    """Batoz and Ben Tahar's DKQ; per node w, theta_x, theta_y.  `swapped`: with the diagonal of the inverse Jacobian
    interchanged, as the repository has it"""
    d = serendipity(xi, eta)
    Hx, Hy = np.zeros((2, 12)), np.zeros((2, 12))
    a, b, c, dd, e = (np.zeros(4) for _ in range(5))
    for k in range(4):
        v = X[k] - X[(k + 1) % 4]
        l2 = v @ v
        a[k], dd[k] = -v[0] / l2, -v[1] / l2
        b[k] = 0.75 * v[0] * v[1] / l2
        c[k] = (0.25 * v[0]**2 - 0.5 * v[1]**2) / l2
        e[k] = (-0.5 * v[0]**2 + 0.25 * v[1]**2) / l2
    for i in range(4):
        s, p = i, (i - 1) % 4          # side leaving the node, side arriving at it
        S, P, N = d[:, 4 + s], d[:, 4 + p], d[:, i]
        Hx[:, 3 * i] = 1.5 * (a[s] * S - a[p] * P)
        Hx[:, 3 * i + 1] = b[s] * S + b[p] * P
        Hx[:, 3 * i + 2] = N - c[s] * S - c[p] * P
        Hy[:, 3 * i] = 1.5 * (dd[s] * S - dd[p] * P)
        Hy[:, 3 * i + 1] = -N + e[s] * S + e[p] * P
        Hy[:, 3 * i + 2] = -Hx[:, 3 * i + 1]
    _, dN = bilinear(xi, eta, np.array([-1.0, 1, 1, -1]), np.array([-1.0, -1, 1, 1]))
    J = dN @ X
    det = np.linalg.det(J)
    j = np.array([[J[1, 1], -J[0, 1]], [-J[1, 0], J[0, 0]]]) / det
    if swapped:
        j[0, 0], j[1, 1] = j[1, 1], j[0, 0]
    B = np.array([j[0] @ Hx, j[1] @ Hy, j[0] @ Hy + j[1] @ Hx])
    return B, det


def dkq(E, mu, t, xi, eta, X, swapped=True):
    B, det = dkq_B(xi, eta, X, swapped)
    return t**3 / 12 * det * B.T @ plane_stress(E, mu) @ B


def t9(E, mu, t, X, flawed=True):
    """three-node membrane stiffness density.  `flawed`: the derivative along y taken with the coefficient of x"""
    x, y = X[:, 0], X[:, 1]
    A2 = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0])
    b = np.array([y[1] - y[2], y[2] - y[0], y[0] - y[1]]) / A2
    c = np.array([x[2] - x[1], x[0] - x[2], x[1] - x[0]]) / A2
    if flawed:
        c = b
    B = np.zeros((3, 6))
    B[0, 0::2] = b
    B[1, 1::2] = c
    B[2, 0::2] = c
    B[2, 1::2] = b
    return B.T @ plane_stress(E, mu) @ B


def dkt_B(xi, eta, X):
    """DKT from its discrete Kirchhoff constraints: rotations quadratic over the triangle, linear normal slope on each side,
    cubic deflection along it; per node w, theta_x = dw/dy, theta_y = -dw/dx.  beta_x = theta_y..., area coordinates (1-xi-eta, xi, eta)"""
    L = np.array([1 - xi - eta, xi, eta])
    dL = np.array([[-1.0, 1, 0], [-1.0, 0, 1]])
    # quadratic functions: corners, then mid-sides 12, 23, 31
    dN = np.zeros((2, 6))
    for i in range(3):
        dN[:, i] = (4 * L[i] - 1) * dL[:, i]
    for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
        dN[:, 3 + k] = 4 * (dL[:, i] * L[j] + L[i] * dL[:, j])
    # G: rotations (beta_x = -dw/dx, beta_y = -dw/dy) at the six points from the nine freedoms
    G = np.zeros((2, 6, 9))
    for i in range(3):
        G[0, i, 3 * i + 2] = 1        # beta_x = theta_y
        G[1, i, 3 * i + 1] = -1       # beta_y = -theta_x
    for k, (i, j) in enumerate(((0, 1), (1, 2), (2, 0))):
        v = X[j] - X[i]
        l = np.linalg.norm(v)
        s = v / l
        n = np.array([-s[1], s[0]])
        bi, bj = G[:, i], G[:, j]
        # along the side: dw/ds at the middle of the cubic through w_i, w_j and slopes -beta.s
        ws = np.zeros(9)
        ws[3 * i] -= 1.5 / l
        ws[3 * j] += 1.5 / l
        ws += 0.25 * (s @ bi + s @ bj)
        bs, bn = -ws, 0.5 * (n @ bi + n @ bj)
        G[:, 3 + k] = np.outer(s, bs) + np.outer(n, bn)
    J = dL @ X
    d = np.linalg.inv(J) @ dN
    bx, by = G[0], G[1]
    return np.array([d[0] @ bx, d[1] @ by, d[1] @ bx + d[0] @ by])


def dkt(E, mu, t, xi, eta, X):
    B = dkt_B(xi, eta, X)
    return t**3 / 12 * B.T @ plane_stress(E, mu) @ B


def integrate4(f):
    return sum(w * f(*p) for p, w in RULE4)


def tria_points():
    g, w = np.polynomial.legendre.leggauss(6)
    g, w = (g + 1) / 2, w / 2
    return [((u, v * (1 - u)), a * b * (1 - u)) for u, a in zip(g, w) for v, b in zip(g, w)]


def local(P, tria=False):
    """local axes of a shell (rows) and in-plane coordinates about the centre of the corners"""
    P = np.asarray(P, float)
    n = np.cross(P[0] - P[1], P[1] - P[2])
    n /= np.linalg.norm(n)
    g = np.array([0, 1.0, 0]) if abs(abs(n[2]) - 1) < 1e-12 and np.linalg.norm(n[:2]) < 1e-6 else np.array([0, 0, 1.0])
    u = np.cross(g, n)
    u /= np.linalg.norm(u)
    R = np.array([u, np.cross(n, u), n])
    return R, (P - P.mean(axis=0)) @ R.T[:, :2]


def quad_K(E, mu, t, X, kind="shell", swapped=True, corner_sign=False):
    """24 x 24 in local axes"""
    K = np.zeros((24, 24))
    if kind in ("membrane", "shell"):
        Km = integrate4(lambda a, b: gq12(E, mu, t, a, b, X, corner_sign))
        ix = np.array([6 * i + k for i in range(4) for k in (0, 1, 5)])
        K[np.ix_(ix, ix)] += Km
    if kind in ("plate", "shell"):
        Kp = integrate4(lambda a, b: dkq(E, mu, t, a, b, X, swapped))
        ix = np.array([6 * i + k for i in range(4) for k in (2, 3, 4)])
        K[np.ix_(ix, ix)] += Kp
    return K


def tria_K(E, mu, t, X, flawed=True):
    """18 x 18 in local axes; `flawed`: the repository's membrane, which also counts the area twice"""
    K = np.zeros((18, 18))
    A2 = abs((X[1, 0] - X[0, 0]) * (X[2, 1] - X[0, 1]) - (X[2, 0] - X[0, 0]) * (X[1, 1] - X[0, 1]))
    Kp = A2 * sum(w * dkt(E, mu, t, p[0], p[1], X) for p, w in tria_points())
    ix = np.array([6 * i + k for i in range(3) for k in (2, 3, 4)])
    K[np.ix_(ix, ix)] += Kp
    Km = t9(E, mu, t, X, flawed) * t * (A2 if flawed else A2 / 2)
    ix = np.array([6 * i + k for i in range(3) for k in (0, 1)])
    K[np.ix_(ix, ix)] += Km
    return K


def tmq_sides(X, t, mu):
    """per side k (corner k to k+1): unit vector, length, shear parameter, and the rows (over w, dw/dx-like rotations psi_x, psi_y) of
    its constant shear strain and of the tangential rotation at its middle; Timoshenko beam along the side"""
    out = []
    for k in range(4):
        j = (k + 1) % 4
        v = X[j] - X[k]
        l = np.linalg.norm(v)
        s = v / l
        d = (t / l)**2 / (5 / 6 * (1 - mu) + 2 * (t / l)**2)
        pi, pj = np.zeros((2, 12)), np.zeros((2, 12))
        pi[0, 3 * k + 1] = pi[1, 3 * k + 2] = pj[0, 3 * j + 1] = pj[1, 3 * j + 2] = 1
        chord = np.zeros(12)
        chord[3 * j], chord[3 * k] = 1 / l, -1 / l
        gamma = d * (2 * chord - s @ pi - s @ pj)
        mid = 1.5 * (1 - 2 * d) * chord - 0.25 * (1 - 6 * d) * (s @ pi + s @ pj)
        n = np.array([-s[1], s[0]])
        out.append((s, n, gamma, np.outer(s, mid) + np.outer(n, 0.5 * (n @ pi + n @ pj))))
    return out


def tmqb(E, mu, t, xi, eta, X):
    """bending of the four-node Timoshenko-Mindlin plate (w, psi_x, psi_y per node)"""
    d = serendipity(xi, eta)
    sides = tmq_sides(X, t, mu)
    psi = np.zeros((2, 2, 12))        # derivative, component, freedom
    for i in range(4):
        psi[:, 0, 3 * i + 1] += d[:, i]
        psi[:, 1, 3 * i + 2] += d[:, i]
        psi += d[:, 4 + i][:, None, None] * sides[i][3][None]
    _, dN = bilinear(xi, eta, np.array([-1.0, 1, 1, -1]), np.array([-1.0, -1, 1, 1]))
    J = dN @ X
    g = np.einsum("ab,bcf->acf", np.linalg.inv(J), psi)
    B = np.array([g[0, 0], g[1, 1], g[0, 1] + g[1, 0]])
    return t**3 / 12 * np.linalg.det(J) * B.T @ plane_stress(E, mu) @ B


def tmqs(E, mu, t, xi, eta, X):
    """shear of the same plate, shear area 5/6 t"""
    sides = tmq_sides(X, t, mu)
    N, dN = bilinear(xi, eta, np.array([-1.0, 1, 1, -1]), np.array([-1.0, -1, 1, 1]))
    B = np.zeros((2, 12))
    for i in range(4):
        a, b = sides[i], sides[(i - 1) % 4]
        B += N[i] * np.linalg.solve(np.array([a[0], b[0]]), np.array([a[2], b[2]]))
    return 5 / 6 * E / 2 / (1 + mu) * t * np.linalg.det(dN @ X) * B.T @ B
