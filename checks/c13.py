"""C13: stiffness of quadrilateral shells."""
import numpy as np
from hv import ext, shellref as S
from hv.core import Skip, Violation

PROP = "C13"
RULE = ("random planar convex quadrilaterals (squares, rectangles, distorted; horizontal, vertical, inclined; any corner first, either side up), thicknesses, materials "
        "and kinds, created through the model or the Api on rebuilt native kernels; non-trivial: every element; distinct by its data")
MUST_SEE = ["oracle:symmetric", "oracle:no-negative-energy", "oracle:rigid-motion-free", "oracle:membrane-constant-strain", "oracle:plate-constant-curvature", "oracle:axes",
            "oracle:equals-reference", "oracle:kinds-add", "oracle:membrane-plate-uncoupled", "oracle:scales-with-thickness", "oracle:scales-with-E", "oracle:translation", "oracle:units",
            "oracle:area", "kind:membrane", "kind:plate", "kind:shell", "square", "horizontal", "vertical", "inclined", "almost level or plumb", "out of level by a hair", "face down", "executions:api", "one of a family"]
ASSUMPTIONS = ["GQ12 membrane and DKQ plate re-derived in numpy (lib/hv/shellref.py), integrated with the same four-point rule",
               "recorded defects of the two kernels: an element equal to the recorded form is counted under its known finding, one equal to the published form is accepted"]
KIND = ["membrane", "plate", "shell"]
MEM = np.array([6 * i + k for i in range(4) for k in (0, 1, 5)])
PLT = np.array([6 * i + k for i in range(4) for k in (2, 3, 4)])


def prepare(tier):
    ext.prepare(tier)


def imports():
    import hyperstatic.core, hyperstatic.core.fe_model.model


def frame(rng, m=None):
    """a random plane: (rows u, v, n), its name"""
    k = int(rng.choice(4, p=[0.3, 0.3, 0.3, 0.1]))
    if k == 3:
        # level or plumb but for little
        lean = 10 ** rng.uniform(-5, -1.5)
        n = np.eye(3)[int(rng.integers(3))] * rng.choice([-1.0, 1])
        if rng.random() < 0.4:
            n = np.roll([0.6, 0, 0.8], int(rng.integers(3)))
        w = np.cross(n, rng.normal(size=3)) if rng.random() < 0.5 else np.cross(n, np.eye(3)[int(rng.integers(3))])
        if np.linalg.norm(w) < 0.1:
            w = np.cross(n, [1.0, 2, 3])
        n = n + lean * w / np.linalg.norm(w)
        n /= np.linalg.norm(n)
        u = np.cross(n, rng.normal(size=3))
        u /= np.linalg.norm(u)
        name = "almost level or plumb"
    elif k == 0:
        n = np.array([0, 0, float(rng.choice([-1, 1]))])
        a = rng.choice([0.0, rng.uniform(0, 2 * np.pi)])
        u = np.array([np.cos(a), np.sin(a), 0])
        name = "horizontal"
    elif k == 1:
        a = rng.choice([0, 0.5, 1, 1.5, rng.uniform(0, 2)]) * np.pi
        n = np.array([np.cos(a), np.sin(a), 0])
        u = np.array([-np.sin(a), np.cos(a), 0])
        name = "vertical"
    else:
        while True:
            n = rng.normal(size=3)
            n /= np.linalg.norm(n)
            if 1e-2 < np.linalg.norm(n[:2]) and abs(n[2]) > 1e-2:
                break
        u = np.cross(n, rng.normal(size=3))
        u /= np.linalg.norm(u)
        name = "inclined"
    return np.array([u, np.cross(n, u), n]), name


def planar(rng):
    """corners counter-clockwise in the plane, roughly unit size; and the shape's name"""
    k = int(rng.integers(4))
    sq = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])
    if k == 0:
        return sq * 0.5, "square"
    if k == 1:
        return sq * 0.5 * [1, 10 ** rng.uniform(-1, 1)], "rectangle"
    while True:
        X = sq * 0.5 * [1, 10 ** rng.uniform(-0.5, 0.5)] + rng.uniform(-0.25, 0.25, size=(4, 2))
        X = X @ np.array([[1, rng.uniform(-0.5, 0.5)], [0, 1]])
        e = np.roll(X, -1, axis=0) - X
        cr = e[:, 0] * np.roll(e, -1, axis=0)[:, 1] - e[:, 1] * np.roll(e, -1, axis=0)[:, 0]
        l = np.linalg.norm(e, axis=1)
        if np.all(cr > 0.15 * l * np.roll(l, -1)):
            return X, "distorted"


def draw(rng):
    R, pl = frame(rng)
    X, shape = planar(rng)
    X = np.roll(X, int(rng.integers(4)), axis=0)
    size = float(10 ** rng.uniform(-1.5, 1.5))
    o = rng.normal(size=3) * size * rng.choice([0, 1, 20])
    P = (X * size) @ R[:2] + o
    if pl == "horizontal":
        P[:, 2] = o[2]
    return dict(P=[[float(v) for v in p] for p in P], t=float(size * 10 ** rng.uniform(-3, -0.5)), E=float(10 ** rng.uniform(0, 11)),
                mu=float(rng.choice([0.0, 0.3, rng.uniform(0, 0.49)])), kind=KIND[int(rng.integers(3))], plane=pl, shape=shape,
                down=bool(R[2][2] < -0.5))


def model(d, via="model"):
    from hyperstatic.core.fe_model.model import Model
    md = Model()
    md.add_isotropic_material("mat", 7850.0, d["E"], d["mu"], 1e-5)
    md.add_shell_section("sec", "mat", d["t"], d["kind"])
    for k, p in enumerate(d["P"]):
        md.add_node("n%d" % k, *p)
    md.add_shell("s", "sec", *["n%d" % k for k in range(len(d["P"]))])
    return md


def dense(x):
    return np.asarray(x.todense() if hasattr(x, "todense") else x, dtype=float)


def stiffness(d):
    return dense(model(d).get_shell_K("s"))


def scale(K, eps=0.0):
    g = np.sqrt(np.abs(np.diag(K)))
    return np.outer(g, g) + eps


def classify(m, K, d, X, tol=1e-8):
    """K is one of the recorded and the published forms, membrane and plate apart; returns (plate published?, membrane published?)"""
    res = []
    for name, ix, part, opts, key in (("plate", PLT, "plate", "swapped", "dkq-inverse-jacobian-diagonal"), ("membrane", MEM, "membrane", "corner_sign", "gq12-drilling-bubble")):
        if d["kind"] not in (name, "shell"):
            m.true("equals-reference", np.all(K[np.ix_(ix, ix)] == 0), "a %s has %s stiffness" % (d["kind"], name))
            res.append(True)
            continue
        got = K[np.ix_(ix, ix)]
        right = S.quad_K(d["E"], d["mu"], d["t"], X, part, swapped=False, corner_sign=True)[np.ix_(ix, ix)]
        rec = S.quad_K(d["E"], d["mu"], d["t"], X, part, swapped=True, corner_sign=False)[np.ix_(ix, ix)]
        m.event("oracle:equals-reference")
        if np.all(np.abs(got - right) <= tol * scale(right)):
            res.append(True)
        elif np.all(np.abs(got - rec) <= tol * scale(rec)):
            m.known_finding(key, d)
            res.append(False)
        else:
            with np.errstate(all="ignore"):
                e = np.abs(got - rec) / scale(rec)
            k = np.unravel_index(int(np.nanargmax(e)), e.shape)
            raise Violation("equals-reference", "%s stiffness entry %s is %.10g, neither %.10g (recorded) nor %.10g (published)" % (
                name, tuple(int(v) for v in k), got[k], rec[k], right[k]))
    return res


def rigid(X):
    """six rigid motions (24 x 6) in local axes; drilling zero"""
    u = np.zeros((24, 6))
    for i, (x, y) in enumerate(X):
        u[6 * i, 0] = u[6 * i + 1, 1] = u[6 * i + 2, 2] = 1
        u[6 * i + 2, 3], u[6 * i + 3, 3] = y, 1          # about x
        u[6 * i + 2, 4], u[6 * i + 4, 4] = -x, 1         # about y
        u[6 * i, 5], u[6 * i + 1, 5] = -y, x             # about the normal, drilling being relative to the element
    return u


def common(m, K, d, X):
    m.true("finite", np.all(np.isfinite(K)) and K.shape == (24, 24), lambda: repr(K))
    g = scale(K)
    m.true("symmetric", np.all(np.abs(K - K.T) <= 1e-9 * g + 1e-13 * np.max(np.abs(K))), "stiffness is not symmetric")
    s = np.sqrt(np.diag(K))
    nz = s > 0
    m.true("no-negative-energy", np.all(np.diag(K) >= 0), "negative diagonal")
    Kn = K[np.ix_(nz, nz)] / np.outer(s[nz], s[nz])
    w = np.linalg.eigvalsh((Kn + Kn.T) / 2)
    m.true("no-negative-energy", w[0] > -1e-9, lambda: "eigenvalue %g of the scaled stiffness" % w[0])
    U = rigid(X)
    lim = np.abs(K) @ np.abs(U) + 1e-300
    m.true("rigid-motion-free", np.all(np.abs(K @ U) <= 1e-8 * lim), lambda: "rigid motions leave forces of %s of their terms" % (np.abs(K @ U) / lim).max(axis=0))
    rank = int(np.sum(w > 1e-9))
    m.true("rank", rank <= {"membrane": 9, "plate": 9, "shell": 18}[d["kind"]], "rank %d" % rank)
    off = np.array([[a in MEM, a in PLT] for a in range(24)])
    m.true("membrane-plate-uncoupled", np.all(K[np.ix_(np.flatnonzero(off[:, 0]), np.flatnonzero(off[:, 1]))] == 0), "membrane and plate freedoms are coupled")


def physics(m, K, d, X, plate_ok):
    E, mu, t = d["E"], d["mu"], d["t"]
    C = S.plane_stress(E, mu)
    rng = np.random.default_rng(5)
    p, q = X[2] - X[0], X[3] - X[1]
    A = 0.5 * abs(p[0] * q[1] - p[1] * q[0])
    if d["kind"] != "plate":
        for _ in range(3):
            G = rng.normal(size=(2, 2))
            u = np.zeros(24)
            u[0::6], u[1::6] = X @ G[0], X @ G[1]
            s = t * C @ [G[0, 0], G[1, 1], G[0, 1] + G[1, 0]]
            g = np.zeros((4, 2))
            for i in range(4):
                j = (i + 1) % 4
                e = X[j] - X[i]
                n = np.array([e[1], -e[0]])
                q = np.array([s[0] * n[0] + s[2] * n[1], s[2] * n[0] + s[1] * n[1]]) / 2
                g[i] += q
                g[j] += q
            f = K @ u
            m.close("membrane-constant-strain", np.stack([f[0::6], f[1::6]], axis=1), g, 1e-8, np.max(np.abs(K)[np.ix_(MEM, MEM)] @ np.abs(u)[MEM]))
    if d["kind"] != "membrane" and plate_ok:
        for _ in range(3):
            k = rng.normal(size=3)                       # w = k0 x^2/2 + k1 y^2/2 + k2 x y
            x, y = X[:, 0], X[:, 1]
            u = np.zeros(24)
            u[2::6] = k[0] * x * x / 2 + k[1] * y * y / 2 + k[2] * x * y
            u[3::6] = k[1] * y + k[2] * x                # rotation about x: dw/dy
            u[4::6] = -(k[0] * x + k[2] * y)
            kap = np.array([k[0], k[1], 2 * k[2]])
            e = t**3 / 12 * A * kap @ C @ kap
            m.close("plate-constant-curvature", u @ K @ u, e, 1e-8, np.abs(u) @ np.abs(K) @ np.abs(u))


def axes(m, md, d):
    """the transformation turns global into local: blocks of one orthonormal right-handed set, normal to the shell"""
    P = np.array(d["P"])
    T = dense(md.get_shell_transform_matrix("s"))
    n = 6 * len(P)
    m.same("axes", T.shape, (n, n))
    R = T[:3, :3]
    m.close("axes", T, np.kron(np.eye(2 * len(P)), R), 1e-15, 1.0)
    m.close("axes", R @ R.T, np.eye(3), 1e-10, 1.0)
    m.close("axes", np.linalg.det(R), 1.0, 1e-10)
    L = np.max(np.linalg.norm(P - P[0], axis=1))
    m.close("axes", (P - P[0]) @ R[2], np.zeros(len(P)), 1e-9 * (1 + np.max(np.abs(P)) / L), L, "the third local axis is not normal to the shell")
    c = np.cross(P[1] - P[0], P[2] - P[1])
    m.true("axes", c @ R[2] > 0, "the normal points to the side from which the corners run clockwise")
    if "lean" in d:         # which way the first axis points is up to rounding
        return (P - P.mean(axis=0)) @ R.T[:, :2]
    W, X = S.local(P)
    m.close("axes", R, W, 1e-9, 1.0)
    return X


def seen(m, d):
    for k in ("kind:" + d["kind"], d["shape"], d["plane"]):
        m.event(k)
    if d["down"]:
        m.event("face down")


def element(rng, m):
    d = draw(rng)
    m.describe(**d)
    judge(m, d)
    m.distinct(d)


def hair(rng, m):
    """a shell out of level by less than anyone could measure has axes normal to it and the stiffness it has anywhere else"""
    d = draw(rng)
    X = S.local(np.array(d["P"]))[1]
    lean = float(10 ** rng.uniform(-13, -5)) if rng.random() < 0.6 else float(rng.uniform(0.5e-9, 4e-9))
    a = rng.uniform(0, 2 * np.pi) if rng.random() < 0.5 else rng.integers(4) * np.pi / 2
    Y = X if rng.random() < 0.5 else X[::-1] if rng.random() < 0.5 else (X * [1, -1])[::-1]
    P = np.c_[Y, Y @ [np.cos(a), np.sin(a)] * lean]
    d.update(P=P.tolist(), lean=lean, plane="out of level by a hair", down=False)
    m.describe(**d)
    judge(m, d)
    m.event("out of level by a hair")
    m.distinct(d)


def kin(rng, d, roll=None):
    """a shell that has much in common with another: all sides, all but one corner, its mirror image, all but thickness or material, the place of another corner"""
    R, X = S.local(np.array(d["P"]))
    n, o = len(X), np.mean(d["P"], axis=0)
    e = dict(d, shape="kin")
    how = str(rng.choice(["lean", "corner", "mirror", "roll", "t", "E", "mu", "kind", "turn", "shift"]))
    Y = np.array(X)
    if how == "lean" and n == 4:
        a = rng.uniform(-0.4, 0.4)
        c, s = np.cos(a), np.sin(a)
        p = X[0] + np.array([[c, -s], [s, c]]) @ (X[3] - X[0])
        q = X[1]                                 # the corner between keeps its distance from both
        r1, r2, h = np.linalg.norm(X[2] - X[1]), np.linalg.norm(X[3] - X[2]), np.linalg.norm(p - q)
        x = (h * h + r1 * r1 - r2 * r2) / (2 * h)
        if r1 * r1 <= x * x:
            return None
        u = (p - q) / h
        Y[3], Y[2] = p, q + x * u + np.sqrt(r1 * r1 - x * x) * np.array([u[1], -u[0]])
    elif how == "corner":
        k = int(rng.integers(n))
        Y[k] += rng.uniform(-0.1, 0.1, 2) * np.linalg.norm(X[1] - X[0])
    elif how == "mirror":
        Y = (X * [-1, 1])[[1, 0] + list(range(n - 1, 1, -1))]
    elif how == "roll":
        Y = np.roll(X, 1, axis=0)
    elif how == "turn":
        a = rng.uniform(0, 2 * np.pi)
        Y = X @ np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    elif how == "shift":
        o = o + rng.normal(size=3) * np.linalg.norm(X[1] - X[0])
    elif how == "kind":
        e["kind"] = KIND[int(rng.integers(3))]
    elif how == "mu":
        e["mu"] = float(rng.choice([0.0, rng.uniform(0, 0.49), d["mu"] + 1e-5]))
    elif how in "tE":
        e[how] = float(d[how] * (1 + rng.choice([1e-5, -1e-3, 0.1, 1.0])))
    f = np.roll(Y, -1, axis=0) - Y
    g = np.roll(f, -1, axis=0)
    l = np.linalg.norm(f, axis=1)
    if not np.all(f[:, 0] * g[:, 1] - f[:, 1] * g[:, 0] > 0.1 * l * np.roll(l, -1)):
        return None
    e["P"] = [[float(v) for v in p] for p in (Y - Y.mean(axis=0)) @ R[:2] + o]
    return e


def family(rng, m):
    """shells that have much in common, one after the other in one process"""
    d = draw(rng)
    run = [d]
    m.describe(shells=run)
    judge(m, d)
    for _ in range(int(rng.integers(2, 6))):
        e = kin(rng, run[int(rng.integers(len(run)))])
        if e is None:
            continue
        run.append(e)
        judge(m, e)
        m.event("one of a family")
    judge(m, d)
    m.distinct(run)


def judge(m, d):
    md = model(d)
    X = axes(m, md, d)
    K = dense(md.get_shell_K("s"))
    common(m, K, d, X)
    pl, me = classify(m, K, d, X)
    both = S.quad_K(1.0, 0.3, 1.0, X, "plate", True), S.quad_K(1.0, 0.3, 1.0, X, "plate", False)
    same = np.max(np.abs(both[0] - both[1])) <= 1e-9 * np.max(np.abs(both[1]))
    physics(m, K, d, X, pl or same)
    seen(m, d)
    m.same("nodes", tuple(md.get_shell_connection("s")), ("n0", "n1", "n2", "n3"))
    m.close("nodes", np.array(md.get_shell_location("s"), dtype=float), np.array(d["P"]), 1e-14, np.max(np.abs(d["P"])) + 1e-300)


def relations(rng, m):
    """the same quadrilateral under other parameters"""
    d = draw(rng)
    m.describe(**d)
    seen(m, d)
    K = {k: stiffness(dict(d, kind=k)) for k in KIND}
    g = scale(K["shell"]) + 1e-14 * np.max(np.abs(K["shell"]))
    m.close("kinds-add", K["membrane"] + K["plate"], K["shell"], 1e-12, g)
    default = dict(d, kind="shell")
    c = float(10 ** rng.uniform(-1, 1))
    Kt = stiffness(dict(default, t=d["t"] * c))
    want = np.zeros((24, 24))
    want[np.ix_(MEM, MEM)] = c * K["shell"][np.ix_(MEM, MEM)]
    want[np.ix_(PLT, PLT)] = c**3 * K["shell"][np.ix_(PLT, PLT)]
    m.close("scales-with-thickness", Kt, want, 1e-10, scale(want))
    m.close("scales-with-E", stiffness(dict(default, E=d["E"] * c)), c * K["shell"], 1e-10, scale(c * K["shell"]))
    P = np.array(d["P"])
    L = np.max(np.linalg.norm(P - P[0], axis=1))
    o = rng.normal(size=3) * L * 5
    m.close("translation", stiffness(dict(default, P=(P + o).tolist())), K["shell"], 1e-8 * (1 + (np.max(np.abs(P)) + np.max(np.abs(o))) / L * 1e-3), g)
    # lengths in other units: forces per displacement scale with c (E in force per area unchanged), rotations with c^2 and c^3
    b = np.tile([1, 1, 1, c, c, c], 4)
    Ku = stiffness(dict(default, P=(P * c).tolist(), t=d["t"] * c))
    wantu = c * K["shell"] * np.outer(b, b)
    m.close("units", Ku, wantu, 1e-8, scale(wantu) + 1e-14 * np.max(np.abs(wantu)))
    m.distinct(d, c)


def api(rng, m):
    """one shell on two supports, loaded at the others, through the Api"""
    from hyperstatic.core import Api
    d = draw(rng)
    d["kind"] = "shell"
    K = stiffness(d)
    T = dense(model(d).get_shell_transform_matrix("s"))
    Kg = T.T @ K @ T
    k = int(rng.integers(4))
    sup = sorted([k, (k + 1) % 4])
    free = np.array([6 * i + j for i in range(4) if i not in sup for j in range(6)])
    s = np.sqrt(np.diag(Kg)[free])
    if np.any(s == 0):
        raise Skip()
    Kn = Kg[np.ix_(free, free)] / np.outer(s, s)
    if np.linalg.cond(Kn) > 1e7:
        raise Skip()
    L = np.max(np.ptp(np.array(d["P"]), axis=0))
    F = rng.normal(size=24) * np.tile([1, 1, 1, L, L, L], 4) * d["E"] * d["t"] * L * 1e-3
    m.describe(loads=F.tolist(), supports=sup, **d)
    seen(m, d)
    a = Api(m.tmp())
    ok = [a.add_isotropic_material("mat", 7850.0, d["E"], d["mu"], 1e-5), a.add_shell_section("sec", "mat", d["t"], d["kind"])]
    ok += [a.add_node("n%d" % i, *p) for i, p in enumerate(d["P"])]
    ok.append(a.add_shell("s", "n0", "n1", "n2", "n3", "sec"))
    ok += [a.set_nodal_restraint("n%d" % i, True, True, True, True, True, True) for i in sup]
    ok.append(a.add_loadpattern("p"))
    ok += [a.set_nodal_load("p", "n%d" % i, *F[6 * i:6 * i + 6].tolist()) for i in range(4)]
    ok += [a.add_static_case("c"), a.add_case_pattern("c", "p", 1.0), a.assemble(), a.solve_static("c")]
    m.true("api-accepts", all(r is True for r in ok), repr(ok))
    m.same("nodes", tuple(a.get_shell_node_names("s")), ("n0", "n1", "n2", "n3"))
    m.same("nodes", list(a.get_shell_names()), ["s"])
    got = np.concatenate([np.asarray(a.result_get_nodal_displacement("n%d" % i, "c"), dtype=float).ravel() for i in range(4)])
    u = np.zeros(24)
    u[free] = np.linalg.solve(Kn, F[free] / s) / s
    sc = np.zeros(24)
    sc[free] = np.linalg.norm(s * u[free]) / s
    m.close("api-solution", got, u, 1e-7, sc + 1e-300)
    m.distinct(d, sup)


def area(rng, m):
    from hyperstatic.core.fe_model.element.quad.DKGQ import DKGQ
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.shell_section import ShellSection
    from hyperstatic.core.fe_model.node import Node
    d = draw(rng)
    m.describe(**d)
    sec = ShellSection("sec", IsotropicMaterial("mat", 1.0, d["E"], d["mu"], 0.0), d["t"], d["kind"])
    q = DKGQ("q", sec, *[Node("n%d" % k, *p) for k, p in enumerate(d["P"])])
    P = np.array(d["P"])
    A = 0.5 * np.linalg.norm(np.cross(P[1] - P[0], P[2] - P[0])) + 0.5 * np.linalg.norm(np.cross(P[2] - P[0], P[3] - P[0]))
    m.close("area", q.area, A, 1e-9 * (1 + np.max(np.abs(P)) / np.sqrt(A) * 1e-3))
    m.close("same-through-element", dense(q.integrate_K()), stiffness(d), 1e-13, scale(stiffness(d)))
    m.distinct(d)


KINDS = {"element": (element, 480, 6000), "relations": (relations, 160, 2000), "api": (api, 96, 1000), "area": (area, 96, 1000), "family": (family, 120, 1500), "hair": (hair, 160, 2000)}
