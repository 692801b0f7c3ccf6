"""Independent reference: linear Euler-Bernoulli space frames by the direct
stiffness method, written from the textbook definitions (shape-function
integrals by Gauss quadrature, explicit extra unknowns for end releases) and
sharing no code with the repository."""
import numpy as np

_G4 = np.polynomial.legendre.leggauss(6)


def axes(xi, xj, rot=0.0):
    """rows: local 1 (along the member), 2, 3.  Axis 2 lies in the plane of the
    member and the global Z axis (X for vertical members); rot turns 2,3 about 1."""
    xi, xj = np.asarray(xi, float), np.asarray(xj, float)
    d = xj - xi
    e1 = d / np.linalg.norm(d)
    up = np.array([1.0, 0, 0]) if np.max(np.abs(d[:2])) < 2e-9 else np.array([0, 0, 1.0])
    e3 = np.cross(e1, up)
    e3 = e3 / np.linalg.norm(e3)
    e2 = np.cross(e3, e1)
    if rot:
        c, s = np.cos(rot), np.sin(rot)
        e2, e3 = c * e2 + s * e3, -s * e2 + c * e3
    return np.array([e1, e2, e3])


def hermite(x, l):
    """cubic Hermite functions for [w_i, slope_i, w_j, slope_j] at distance x"""
    s = x / l
    return np.array([1 - 3 * s**2 + 2 * s**3, l * (s - 2 * s**2 + s**3), 3 * s**2 - 2 * s**3, l * (s**3 - s**2)])


def hermite1(x, l):
    s = x / l
    return np.array([(-6 * s + 6 * s**2) / l, 1 - 4 * s + 3 * s**2, (6 * s - 6 * s**2) / l, 3 * s**2 - 2 * s])


def hermite2(x, l):
    s = x / l
    return np.array([(-6 + 12 * s) / l**2, (-4 + 6 * s) / l, (6 - 12 * s) / l**2, (6 * s - 2) / l])


# positions and signs of [w_i, slope_i, w_j, slope_j] in the 12 end DOFs:
# deflection along 2 turns about +3, deflection along 3 turns about -2
_P2, _S2 = np.array([1, 5, 7, 11]), np.array([1.0, 1, 1, 1])
_P3, _S3 = np.array([2, 4, 8, 10]), np.array([1.0, -1, 1, -1])


def k_local(E, G, A, I2, I3, J, l):
    k = np.zeros((12, 12))
    k[np.ix_([0, 6], [0, 6])] = E * A / l * np.array([[1, -1], [-1, 1]])
    k[np.ix_([3, 9], [3, 9])] = G * J / l * np.array([[1, -1], [-1, 1]])
    for P, S, I in ((_P2, _S2, I3), (_P3, _S3, I2)):
        b = np.zeros((4, 4))
        for g, w in zip(*_G4):
            n = hermite2((g + 1) / 2 * l, l)
            b += E * I * np.outer(n, n) * w * l / 2
        k[np.ix_(P, P)] += b * np.outer(S, S)
    return k


def m_consistent(rho, A, J, l):
    m = np.zeros((12, 12))
    lin = rho * l / 6 * np.array([[2, 1], [1, 2]])
    m[np.ix_([0, 6], [0, 6])] = lin * A
    m[np.ix_([3, 9], [3, 9])] = lin * J
    for P, S in ((_P2, _S2), (_P3, _S3)):
        b = np.zeros((4, 4))
        for g, w in zip(*_G4):
            n = hermite((g + 1) / 2 * l, l)
            b += rho * A * np.outer(n, n) * w * l / 2
        m[np.ix_(P, P)] += b * np.outer(S, S)
    return m


def m_lumped(rho, A, l):
    m = np.zeros(12)
    m[[0, 1, 2, 6, 7, 8]] = rho * A * l / 2
    return np.diag(m)


def f_dist(v, l):
    """v = pi,pj,qi2,qj2,qi3,qj3,ti,tj"""
    pi, pj, q2i, q2j, q3i, q3j, ti, tj = v
    f = np.zeros(12)
    for g, w in zip(*_G4):
        s = (g + 1) / 2
        x, dw = s * l, w * l / 2
        at = lambda a, b: a * (1 - s) + b * s
        f[[0, 6]] += np.array([1 - s, s]) * at(pi, pj) * dw
        f[[3, 9]] += np.array([1 - s, s]) * at(ti, tj) * dw
        f[_P2] += _S2 * hermite(x, l) * at(q2i, q2j) * dw
        f[_P3] += _S3 * hermite(x, l) * at(q3i, q3j) * dw
    return f


def f_conc(v, l):
    """v = F1,F2,F3,M1,M2,M3,r"""
    F1, F2, F3, M1, M2, M3, r = v
    x = r * l
    f = np.zeros(12)
    f[[0, 6]] += np.array([1 - r, r]) * F1
    f[[3, 9]] += np.array([1 - r, r]) * M1
    f[_P2] += _S2 * (hermite(x, l) * F2 + hermite1(x, l) * M3)
    f[_P3] += _S3 * (hermite(x, l) * F3 - hermite1(x, l) * M2)
    return f


class Frame:
    """nodes: ordered {name: xyz}; beams: list of dicts with name,i,j,E,mu,A,I2,I3,J,rho,rot,rel"""

    def __init__(self, spec, twin=False):
        self.twin = twin
        self.names = [n for n, _ in spec["nodes"]]
        self.xyz = {n: np.array(x, float) for n, x in spec["nodes"]}
        self.id = {n: k for k, n in enumerate(self.names)}
        self.beams = {b["name"]: b for b in spec["beams"]}
        self.spec = spec
        self.n = 6 * len(self.names)
        extra = self.n
        self.geo = {}
        self.cond = 0.0     # the worst found by solve
        self.blur = 0.0     # how far rounding of the coordinates may turn a member's axes
        for b in spec["beams"]:
            xi, xj = self.xyz[b["i"]], self.xyz[b["j"]]
            l = np.linalg.norm(xj - xi)
            R = axes(xi, xj, b.get("rot", 0.0))
            flat = np.hypot(R[0, 0], R[0, 1])
            self.blur = max(self.blur, 1.2e-16 * (np.max(np.abs(xi)) + np.max(np.abs(xj))) / (l * (flat if flat > 1e-9 else 1.0)))
            T = np.kron(np.eye(4), R)
            dofs = np.r_[6 * self.id[b["i"]] + np.arange(6), 6 * self.id[b["j"]] + np.arange(6)]
            rel = np.array(b.get("rel") or [False] * 12, bool)
            ex = {}
            for r in np.nonzero(rel)[0]:
                ex[int(r)] = extra
                extra += 1
            G = b["E"] / 2 / (1 + b["mu"])
            self.geo[b["name"]] = dict(l=l, R=R, T=T, dofs=dofs, ex=ex, rel=rel,
                                       k=k_local(b["E"], G, b["A"], b["I2"], b["I3"], b["J"], l))
        self.ntot = extra

    def gather(self, name):
        """12 x ntot matrix taking all unknowns to the member's local end displacements"""
        g = self.geo[name]
        B = np.zeros((12, self.ntot))
        B[:, g["dofs"]] = g["T"]
        for r, c in g["ex"].items():
            B[r, :] = 0
            B[r, c] = 1
        return B

    def K(self):
        K = np.zeros((self.ntot, self.ntot))
        for name, g in self.geo.items():
            B = self.gather(name)
            nz = np.nonzero(np.any(B != 0, axis=0))[0]
            Bz = B[:, nz]
            K[np.ix_(nz, nz)] += Bz.T @ g["k"] @ Bz
        return (K + K.T) / 2

    def stiffest(self):
        """per unknown, what the members there would offer at most in any direction"""
        d = np.zeros(self.ntot)
        for g in self.geo.values():
            k = np.diag(g["k"]).reshape(4, 3).max(axis=1)
            d[g["dofs"]] += np.repeat(k, 3)
            for r, c in g["ex"].items():
                d[c] = k[r // 3]
        return d

    def pattern_member_f(self, pat, name):
        g = self.geo[name]
        f = np.zeros(12)
        if name in pat["dist"]:
            f += f_dist(pat["dist"][name], g["l"])
        if name in pat["conc"]:
            f += f_conc(pat["conc"][name], g["l"])
        return f

    def case_member_f(self, case, name):
        f = np.zeros(12)
        for p, factor in case["patterns"].items():
            f += factor * self.pattern_member_f(self.spec["patterns"][p], name)
        return f

    def case_f(self, case):
        f = np.zeros(self.ntot)
        for p, factor in case["patterns"].items():
            for node, v in self.spec["patterns"][p]["nodal"].items():
                if node in self.id:
                    f[6 * self.id[node]:6 * self.id[node] + 6] += factor * np.array(v, float)
        for name in self.geo:
            fe = self.case_member_f(case, name)
            if np.any(fe):
                f += self.gather(name).T @ fe
        return f

    def fixed(self, case):
        rest = case["rest"] or self.spec["rest"]
        return sorted({6 * self.id[n] + k for n, v in rest.items() for k in range(6) if v[k]})

    def M_diag_nodal(self):
        m = np.zeros(self.n)
        for n, v in self.spec.get("mass", {}).items():
            m[6 * self.id[n]:6 * self.id[n] + 6] += np.array(v, float)
        return m

    def M_lumped(self):
        """translations carry half of each member's mass at either end, plus nodal masses"""
        m = self.M_diag_nodal()
        M = np.diag(m)
        for name, g in self.geo.items():
            b = self.beams[name]
            d = g["dofs"]
            M[np.ix_(d, d)] += g["T"].T @ m_lumped(b["rho"], b["A"], g["l"]) @ g["T"]
        return M

    def solve(self, case, K=None):
        """returns (u over all unknowns, scale per unknown, condition number, the latter
        raised where the geometry itself is only known up to rounding)"""
        K = self.K() if K is None else K
        f = self.case_f(case)
        fix = self.fixed(case)
        free = np.setdiff1d(np.arange(self.ntot), fix)
        Kf = K[np.ix_(free, free)]
        dg = np.diag(Kf)
        if not len(free) or np.any(dg <= 0):
            return None, None, np.inf
        s = 1 / np.sqrt(dg)
        Ks = Kf * np.outer(s, s)
        w = np.linalg.eigvalsh(Ks)
        cond = w[-1] / w[0] if w[0] > 0 else np.inf
        if not cond < 1e12:
            return None, None, np.inf
        cond += 100 * self.blur / 1e-13
        # a freedom held only by what is left of far stiffer members is known no better than they are rounded
        cond += 3e-3 * np.max(self.stiffest()[free] / dg)
        self.cond = max(self.cond, cond)
        b = f[free] * s
        y = np.linalg.solve(Ks, b)
        for _ in range(3):      # refinement with the residual in extended precision
            r = (b.astype(np.longdouble) - Ks.astype(np.longdouble) @ y.astype(np.longdouble)).astype(float)
            y = y + np.linalg.solve(Ks, r)
        u = np.zeros(self.ntot)
        u[free] = y * s
        sc = np.zeros(self.ntot)
        sc[free] = np.linalg.norm(y) * s
        if self.blur > 1e-14 and not self.twin:
            # how much coordinates differing in their last digits change the solution
            rng = np.random.default_rng(1)
            e = 4.5e-16 * max(np.max(np.abs(x)) for x in self.xyz.values())
            for _ in range(2):
                near = Frame(dict(self.spec, nodes=[(n, x + e * rng.choice([-1, 0, 1], 3)) for n, x in self.xyz.items()]), twin=True)
                v = near.solve(case)[0]
                cond += np.inf if v is None else 30 * np.max(np.abs(u - v)[free] / (sc[free] + 1e-300), initial=0) / 1e-12
            self.cond = max(self.cond, cond)
        return u, sc, cond

    def end_force(self, case, name, u):
        """forces the member's ends receive from the nodes, local axes: k u - f"""
        return self.geo[name]["k"] @ (self.gather(name) @ u) - self.case_member_f(case, name)
