"""C11: coordinate systems stay orthonormal and right-handed and turn by exactly what was asked."""
import numpy as np

PROP = "C11"
RULE = ("random histories of up to 12 operations (turns about own and global axes and free vectors, re-definition by three points, new origins, alignment, "
        "rejected re-definitions) on coordinate systems made from three points or a normal, followed by an executable model; "
        "non-trivial: at least one operation; distinct by start and history")
MUST_SEE = ["oracle:axes-follow-model", "oracle:orthonormal-right-handed", "oracle:origin-follows-model", "oracle:three-points", "oracle:from-normal", "oracle:node-place", "oracle:node-axes",
            "oracle:line-rejected", "oracle:rejected-leaves-unchanged", "oracle:independent", "op:x", "op:y", "op:z", "op:ex", "op:ey", "op:ez", "op:vec", "op:3pts", "op:origin", "op:align", "op:bad3pts", "nearly as before"]
ASSUMPTIONS = ["Rodrigues rotation as the model"]


def imports():
    import hyperstatic.common.csys, hyperstatic.core.fe_model.node


def rodrigues(k, a):
    k = np.asarray(k, float) / np.linalg.norm(k)
    X = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * X + (1 - np.cos(a)) * X @ X


def frame3(O, A, B):
    a, b = np.asarray(A, float) - O, np.asarray(B, float) - O
    x = a / np.linalg.norm(a)
    y = b - (b @ x) * x
    y /= np.linalg.norm(y)
    return np.array([x, y, np.cross(x, y)])


def points(rng):
    """three points clearly not in a line"""
    while True:
        s = 10 ** rng.uniform(-1, 3)
        O = rng.normal(size=3) * s if rng.random() < 0.7 else rng.integers(-3, 4, 3).astype(float) * int(rng.integers(2))
        if rng.random() < 0.3:
            a, b = rng.integers(-3, 4, 3).astype(float), rng.integers(-3, 4, 3).astype(float)
        else:
            a, b = rng.normal(size=3) * s, rng.normal(size=3) * s
        c = np.linalg.norm(np.cross(a, b))
        if c > 0.02 * np.linalg.norm(a) * np.linalg.norm(b) and c > 1e-3:
            return O, O + a, O + b


def form(rng, p):
    k = int(rng.integers(3))
    if np.all(np.asarray(p) == np.round(p)) and np.max(np.abs(p)) < 1e6 and rng.random() < 0.6:
        return [tuple(int(v) for v in p), [int(v) for v in p], np.array(p).astype(int)][k]
    return [tuple(float(v) for v in p), [float(v) for v in p], np.array(p, float)][k]


def scribble(rng, args):
    """the caller goes on using its own lists and arrays"""
    for p in args:
        if not isinstance(p, tuple):
            for k in range(3):
                p[k] = float(rng.normal())


def observe(m, c, T, O, tol, what):
    G = np.asarray(c.transform_matrix, dtype=float)
    m.close("axes-follow-model", G, T, tol, 1.0, what)
    m.close("axes-follow-model", np.array([c.x, c.y, c.z]), T, tol, 1.0, what)
    m.close("orthonormal-right-handed", np.r_[(G @ G.T).ravel(), np.linalg.det(G)], np.r_[np.eye(3).ravel(), 1], 1e-11, 1.0, what)
    m.close("origin-follows-model", np.asarray(c.origin, dtype=float), O, 1e-14, np.abs(O) + 1e-12, what)


def history(rng, m):
    from hyperstatic.common.csys import Cartesian
    O, A, B = points(rng)
    nm = "csys%d" % rng.integers(100)
    args = [form(rng, p) for p in (O, A, B)]
    c = Cartesian(*args, name=nm)
    twin = Cartesian(*args)
    T = frame3(O, A, B)
    T0, O0 = T.copy(), O.copy()
    scribble(rng, args)
    observe(m, c, T, O, 1e-9, "at creation")
    m.close("three-points", T, np.asarray(c.transform_matrix, float), 1e-9, 1.0)
    m.same("name-kept", c.name, nm)
    m.true("own-name", isinstance(twin.name, str) and twin.name != nm, twin.name)
    log = []
    n = int(rng.integers(1, 13))
    for k in range(n):
        op = str(rng.choice(["x", "y", "z", "ex", "ey", "ez", "vec", "vec", "3pts", "origin", "align", "bad3pts"]))
        a = float(rng.choice([rng.uniform(-7, 7), np.pi / 2, -np.pi / 2, np.pi, 0.0, 2 * np.pi, rng.normal() * 1e-6]))
        m.event("op:" + op)
        if op in "xyz":
            i = "xyz".index(op)
            getattr(c, "rotate_about_" + op)(a)
            T = T @ rodrigues(T[i], a).T
        elif op[0] == "e":
            i = "xyz".index(op[1])
            getattr(c, "rotate_about_external_" + op[1])(a)
            T = T @ rodrigues(np.eye(3)[i], a).T
        elif op == "vec":
            v = rng.normal(size=3) * 10 ** (rng.uniform(-2, 3) if rng.random() < 0.7 else rng.uniform(-9, 9))
            if rng.random() < 0.3:
                v = np.eye(3)[int(rng.integers(3))] * rng.choice([-2.0, 5.0])
            c.rotate_about_vec(float(v[0]), float(v[1]), float(v[2]), a)
            T = T @ rodrigues(v, a).T
            log.append([float(x) for x in v])
        elif op == "3pts":
            O, A, B = points(rng)
            if rng.random() < 0.3:      # nearly as it stands
                m.event("nearly as before")
                t, k = 10 ** rng.uniform(-13, -3, 3) * rng.choice([-1, 0, 1], 3), 10 ** rng.uniform(-1, 2, 2)
                A, B = O + k[0] * (T[0] + t[0] * T[1] + t[1] * T[2]), O + k[1] * (T[1] + 0.3 * T[0] + t[2] * T[2])
            args = [form(rng, p) for p in (O, A, B)]
            c.set_by_3pts(*args)
            scribble(rng, args)
            T = frame3(O, A, B)
            log.append([O, A, B])
        elif op == "origin":
            O = rng.normal(size=3) * 10 ** rng.uniform(-2, 4) if rng.random() < 0.8 else rng.integers(-9, 10, 3).astype(float)
            p = form(rng, O)
            c.origin = p
            scribble(rng, [p])
            log.append(O)
        elif op == "align":
            c.align_with_global()
            T = np.eye(3)
        else:
            P, d = rng.integers(-5, 6, 3).astype(float), rng.integers(1, 5, 3).astype(float) * rng.choice([-1, 1], 3)
            try:
                c.set_by_3pts(tuple(P), tuple(P + d), tuple(P + int(rng.choice([-2, 2, 3])) * d))
            except Exception:
                pass
            else:
                m.true("line-rejected", False, "three points in a line were accepted")
            m.event("oracle:line-rejected")
            m.event("oracle:rejected-leaves-unchanged")
        log.append([op, a])
        observe(m, c, T, O, 1e-8, "after %r" % (log,))
    observe(m, twin, T0, O0, 1e-9, "the other system after turning this one")
    m.event("oracle:independent")
    m.describe(O=O0, start=T0, log=log)
    m.distinct(O0, T0, log)


def normal(rng, m):
    from hyperstatic.common.csys import Cartesian
    O = rng.normal(size=3) * 10 ** rng.uniform(-1, 3)
    n = rng.normal(size=3) * 10 ** rng.uniform(-2, 2)
    g = np.array([0, 0, 1.0])
    kw = {}
    if rng.random() < 0.5:
        g = rng.normal(size=3) * 10 ** rng.uniform(-2, 2)
        kw = {"guide": form(rng, g)}
    un, ug = n / np.linalg.norm(n), g / np.linalg.norm(g)
    if np.linalg.norm(np.cross(un, ug)) < 0.05:
        n = n + np.array([1.0, 0.3, 0]) * np.linalg.norm(n)
        un = n / np.linalg.norm(n)
        if np.linalg.norm(np.cross(un, ug)) < 0.05:
            return
    m.describe(O=O, normal=n, guide=g)
    args = [form(rng, O), form(rng, n)]
    c = Cartesian.create_by_normal(*args, **kw)
    scribble(rng, args)
    x = np.cross(ug, un)
    x /= np.linalg.norm(x)
    T = np.array([x, np.cross(un, x), un])
    m.close("from-normal", np.asarray(c.transform_matrix, float), T, 1e-9, 1.0 + np.max(np.abs(O)) * 1e-3)
    observe(m, c, T, O, 1e-9 * (1 + np.max(np.abs(O))), "from normal")
    a = float(rng.uniform(-4, 4))
    c.rotate_about_z(a)
    m.close("from-normal", c.z, un, 1e-9 * (1 + np.max(np.abs(O))), 1.0, "after turning about the normal")
    for sgn in (1, -1):
        try:
            Cartesian.create_by_normal(tuple(O), tuple(sgn * g * 3), **kw)
        except Exception:
            m.event("oracle:normal-along-guide-rejected")
        else:
            m.true("normal-along-guide-rejected", False, "guide parallel to the normal was accepted")
    m.distinct(O, n, g)


def line(rng, m):
    from hyperstatic.common.csys import Cartesian
    P, d = rng.integers(-50, 51, 3).astype(float), rng.integers(-4, 5, 3).astype(float)
    k = int(rng.choice([-3, -1, 2, 5, 0, 1]))
    m.describe(P=P, d=d, k=k)
    try:
        Cartesian(tuple(P), tuple(P + d), tuple(P + k * d))
    except Exception:
        m.event("oracle:line-rejected")
    else:
        m.true("line-rejected", False, "three points in a line were accepted")
    m.distinct(P, d, k)


def node(rng, m):
    """a node stands where it was put, with global axes until it is turned"""
    from hyperstatic.core.fe_model.node import Node
    O = rng.normal(size=3) * 10 ** rng.uniform(-2, 5)
    nodes = [Node(nm, *[float(v) for v in p]) for nm, p in (("a", O), ("b", O + 1))]
    T, log = np.eye(3), []
    for k in range(int(rng.integers(1, 8))):
        j, a = int(rng.integers(4)), float(rng.choice([rng.uniform(-7, 7), np.pi / 2, -np.pi]))
        if j == 3 and rng.random() < 0.5:
            nodes[0].initialize_csys()
            T = np.eye(3)
        elif j < 3:
            getattr(nodes[0], "rotate_about_%daxis" % (j + 1))(a)
            T = T @ rodrigues(T[j], a).T
        log.append([j, a])
        for n, t, o in ((nodes[0], T, O), (nodes[1], np.eye(3), O + 1)):
            m.close("node-place", [n.x, n.y, n.z], o, 1e-14, np.abs(o) + 1e-12, log)
            m.close("node-place", np.asarray(n.loc, dtype=float), o, 1e-14, np.abs(o) + 1e-12, log)
            m.close("node-axes", np.asarray(n.transform_matrix, dtype=float), np.kron(np.eye(2), t), 1e-8, 1.0, log)
            m.close("node-axes", np.asarray(n.local_csys.transform_matrix, dtype=float), t, 1e-8, 1.0, log)
    m.same("node-name", [n.name for n in nodes], ["a", "b"])
    m.describe(O=O, log=log)
    m.distinct(O, log)


KINDS = {"node": (node, 7500, 60000), "history": (history, 15000, 120000), "normal": (normal, 7500, 60000), "line": (line, 2500, 20000)}
