"""C08: beam element matrices and interpolation."""
import numpy as np
from hv import gen, ref
from checks.c01 import imports

PROP = "C08"
RULE = ("beams of random position, direction (vertical and nearly vertical included), roll, section and material, of both member types, asked "
        "for stiffness, mass, axes and shape functions; non-trivial: every beam; distinct by its data")
MUST_SEE = ["oracle:stiffness-equals-reference", "oracle:rigid-motion-free", "oracle:rank-six", "oracle:transform", "oracle:lumped-mass", "oracle:consistent-mass",
            "oracle:shape-functions", "oracle:shape-derivatives", "oracle:roll-is-absolute", "oracle:each-for-itself", "oracle:almost-upright", "out of plumb by a hair", "alike but for one property", "vertical", "almost vertical", "inclined"]
ASSUMPTIONS = ["Euler-Bernoulli beam integrated from shape functions in lib/hv/ref.py", "axis 3 of members out of plumb by 0.9e-9 to 1e-7 is either convention"]


def beam(rng):
    x = rng.normal(size=3) * 10 ** rng.uniform(-1, 2)
    d = rng.normal(size=3)
    k = int(rng.integers(7))
    if k < 3:
        d = np.eye(3)[k] * rng.choice([-1, 1])
    elif k < 5:
        # leaning from the upright by anything from a tenth to a millionth
        a, lean = rng.uniform(0, 2 * np.pi) if rng.random() < 0.7 else rng.integers(4) * np.pi / 2, 10 ** rng.uniform(-6, -1)
        d = np.array([lean * np.cos(a), lean * np.sin(a), rng.choice([-1.0, 1])])
        x *= 0.1
    l = float(10 ** rng.uniform(-1.5, 2))
    d = d / np.linalg.norm(d) * l
    if k == 2:
        y = x + d
        y[:2] = x[:2]
    else:
        y = x + d
    A = float(l * l * 10 ** rng.uniform(-5, -1))
    I2, I3 = [float(A * l * l * 10 ** rng.uniform(-5, -1)) for _ in "23"]
    if rng.random() < 0.15:         # nearly as stiff both ways
        I3 = I2 * float(1 + 10 ** rng.uniform(-7, -2) * rng.choice([-1, 0, 1]))
    return dict(name="b", i="i", j="j", kind=str(rng.choice(["simple", "general"])), E=float(10 ** rng.uniform(2, 12)), mu=float(rng.uniform(0, 0.49)) if rng.random() < 0.9 else 0.0,
                A=A, I2=I2, I3=I3, J=float(A * l * l * 10 ** rng.uniform(-5, -1)),
                rho=float(10 ** rng.uniform(0, 4)), rot=float(rng.choice([0.0, rng.uniform(-7, 7)])), rel=[False] * 12), [float(v) for v in x], [float(v) for v in y]


def build(rng, m, weightless=0):
    b, x, y = beam(rng)
    if rng.random() < weightless:
        b["rho"] = 0.0
    spec = dict(nodes=[("i", x), ("j", y)], beams=[b], rest={})
    m.describe(beam=b, i=x, j=y)
    model = gen.build_model(spec)
    frame = ref.Frame(dict(spec, patterns={}))
    g = frame.geo["b"]
    d = np.array(y) - x
    m.event("vertical" if max(abs(d[0]), abs(d[1])) < 1e-9 else "almost vertical" if np.hypot(d[0], d[1]) < 1e-2 * abs(d[2]) else "inclined")
    m.distinct(b, x, y)
    return b, model, frame, g, np.array(x), np.array(y)


def unit(l):
    """scales making rotations comparable to displacements"""
    return np.tile([1.0, 1, 1, l, l, l], 2)


def stiffness(rng, m):
    b, model, frame, g, x, y = build(rng, m)
    l = g["l"]
    T = model.get_beam_transform_matrix("b").toarray()
    m.close("transform", T, g["T"], 1e-9 + 50 * frame.blur, 1.0)
    m.close("transform-orthogonal", T @ T.T, np.eye(12), 1e-12, 1.0)
    m.close("length", model.get_beam_length("b"), l, 1e-12)
    K = model.get_beam_K("b").toarray()
    sc = np.sqrt(np.outer(np.diag(g["k"]), np.diag(g["k"])))
    m.close("stiffness-equals-reference", K, g["k"], 1e-10, sc)
    m.close("stiffness-symmetric", K, K.T, 1e-13, sc)
    Kg = model.get_beam_K("b", local=False).toarray()
    m.close("stiffness-global", Kg, T.T @ K @ T, 1e-9, np.max(np.abs(K) / np.outer(unit(l), unit(l))) * np.outer(unit(l), unit(l)))
    # rigid motions cost nothing
    c = rng.normal(size=3) * l + x
    for k in range(6):
        u = np.zeros(12)
        for o, p in ((0, x), (6, y)):
            if k < 3:
                u[o + k] = 1
            else:
                w = np.eye(3)[k - 3] / l
                u[o:o + 3] = np.cross(w, p - c)
                u[o + 3:o + 6] = w
        f = K @ (T @ u)
        m.close("rigid-motion-free", f, np.zeros(12), 1e-9, np.abs(K) @ np.abs(T @ u) + np.max(np.abs(K) @ np.abs(T @ u) / unit(l)) * unit(l))
    D = 1 / np.sqrt(np.diag(K))
    w = np.linalg.eigvalsh(K * np.outer(D, D))
    m.true("rank-six", np.all(np.abs(w[:6]) < 1e-9) and np.all(w[6:] > 1e-9), "eigenvalues %r" % w)


def mass(rng, m):
    b, model, frame, g, x, y = build(rng, m, weightless=0.05)
    l = g["l"]
    M = model.get_beam_M("b").toarray()
    big = b["rho"] * b["A"] * l / 2
    if big == 0:
        m.true("weightless", not np.any(M[np.ix_([0, 1, 2, 6, 7, 8], [0, 1, 2, 6, 7, 8])]), "%r" % M)
        return
    want = ref.m_lumped(b["rho"], b["A"], l)
    m.close("lumped-mass", M[np.ix_([0, 1, 2, 6, 7, 8], [0, 1, 2, 6, 7, 8])], want[np.ix_([0, 1, 2, 6, 7, 8], [0, 1, 2, 6, 7, 8])], 1e-12, big)
    m.close("lumped-mass", M - np.diag(np.diag(M)), np.zeros((12, 12)), 1e-13, big, "off-diagonal")
    r = np.diag(M)[[3, 4, 5, 9, 10, 11]]
    m.true("lumped-rotational-inertia-positive-negligible", np.all(r > 0) and np.all(r <= max(1e-11, 1e-6 * big * l * l)), "%r" % r)
    from hyperstatic.core.fe_model.element.line.beam import Beam
    from hyperstatic.core.fe_model.element.line.simple_beam import SimpleBeam
    from hyperstatic.core.fe_model.node import Node
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.beam_section import BeamSection
    ni, nj = Node("i", *[float(v) for v in x]), Node("j", *[float(v) for v in y])
    if b["kind"] == "simple":
        e = SimpleBeam("b", ni, nj, b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"])
    else:
        mat = IsotropicMaterial("m", b["rho"], b["E"], b["mu"], 0.0)
        e = Beam("b", ni, nj, BeamSection("s", mat, "general", [], b["A"], b["A"], b["A"], b["J"], b["I2"], b["I3"], 1.0, 1.0))
    C = e.integrate_M(consistent=True).toarray()
    want = ref.m_consistent(b["rho"], b["A"], b["J"], l)
    sc = np.sqrt(np.outer(np.diag(want), np.diag(want)))
    m.close("consistent-mass", C, want, 1e-10, sc)
    for k in range(3):      # a rigid translation carries the whole mass
        u = np.zeros(12)
        u[[k, k + 6]] = 1
        m.close("total-mass", [u @ C @ u, u @ M @ u], [2 * big, 2 * big], 1e-10)


def shapes(rng, m):
    b, model, frame, g, x, y = build(rng, m)
    l = g["l"]
    xi = float(rng.choice([rng.uniform(0, 1), 0.0, 1.0, 0.5], p=[0.7, 0.1, 0.1, 0.1]))
    h, h1 = ref.hermite(xi * l, l), ref.hermite1(xi * l, l)
    S3 = np.array([1.0, -1, 1, -1])
    want = np.r_[1 - xi, xi, h, h * S3, 1 - xi, xi]
    want1 = np.r_[-1 / l, 1 / l, h1, h1 * S3, -1 / l, 1 / l]
    sc = np.array([1, 1] + [1, l, 1, l] * 2 + [1, 1.0])
    m.close("shape-functions", np.asarray(model.get_beam_interpolate("b", xi), dtype=float).ravel(), want, 1e-12, sc)
    m.close("shape-functions", [f(xi) for f in model.get_beam_shape_function("b")], want, 1e-12, sc)
    m.close("shape-derivatives", np.asarray(model.get_beam_interpolate1("b", xi), dtype=float).ravel(), want1, 1e-12, sc / l)


def roll(rng, m):
    """setting the roll angle sets it, whatever it was before; a full turn is no turn; names do not leak into other members"""
    b, x, y = beam(rng)
    a = float(rng.uniform(-7, 7))
    seq = [float(v) for v in rng.uniform(-7, 7, int(rng.integers(0, 4)))] + [a]
    spec = dict(nodes=[("i", x), ("j", y)], beams=[dict(b, rot=0.0), dict(b, name="c", rot=0.0)], rest={})
    model = gen.build_model(spec)
    T0 = model.get_beam_transform_matrix("c").toarray()
    m.describe(beam=b, i=x, j=y, angles=seq)
    for v in seq:
        model.set_beam_rotation("b", v)
    T = model.get_beam_transform_matrix("b").toarray()
    c, s = np.cos(a), np.sin(a)
    R = np.array([[1, 0, 0], [0, c, s], [0, -s, c]])
    m.close("roll-is-absolute", T, np.kron(np.eye(4), R) @ T0, 1e-11, 1.0)
    m.close("other-member-unturned", model.get_beam_transform_matrix("c").toarray(), T0, 1e-15, 1.0)
    m.distinct(b, x, y, seq)


def hair(rng, m):
    """a member out of plumb by less than anyone could measure has sound axes along it and the stiffness it has turned any other way"""
    b, x, y = beam(rng)
    h = float(10 ** rng.uniform(-2, 2)) * float(rng.choice([-1.0, 1]))
    a = rng.uniform(0, 2 * np.pi) if rng.random() < 0.5 else rng.integers(4) * np.pi / 2
    lean = float(10 ** rng.uniform(-12, -6)) if rng.random() < 0.5 else float(rng.uniform(0.5e-9, 4e-9))
    x = np.array([0.0, 0.0, float(rng.normal())])
    y = x + [lean * np.cos(a), lean * np.sin(a), h]
    b["rot"] = 0.0
    spec = dict(nodes=[("i", [float(v) for v in x]), ("j", [float(v) for v in y])], beams=[b], rest={})
    m.describe(beam=b, i=x.tolist(), j=y.tolist())
    model = gen.build_model(spec)
    T = model.get_beam_transform_matrix("b").toarray()
    V = T[:3, :3]
    l = abs(h)
    m.close("almost-upright", T, np.kron(np.eye(4), V), 1e-15, 1.0, "one turn for all")
    m.close("almost-upright", V @ V.T, np.eye(3), 1e-12, 1.0, "orthonormal")
    m.close("almost-upright", np.linalg.det(V), 1.0, 1e-12, 1.0, "right-handed")
    m.close("almost-upright", V[0], (y - x) / np.linalg.norm(y - x), 1e-12 + 4e-16 * (abs(x[2]) + abs(y[2])) / l, 1.0, "along the member")
    # the convention of an upright member below the tolerance, the plane through the member and the vertical above it
    if lean < 0.9e-9 or lean > 1e-7:
        up = np.array([1.0, 0, 0]) if lean < 0.9e-9 else np.array([0, 0, 1.0])
        z = np.cross(V[0], up)
        m.close("almost-upright", V[2], z / np.linalg.norm(z), 1e-9 if lean < 0.9e-9 else 1e-9 + 1e-15 * (abs(x[2]) + abs(y[2])) / lean, 1.0, "axis 3")
    g = ref.Frame(dict(spec, patterns={})).geo["b"]
    m.close("almost-upright", model.get_beam_K("b").toarray(), g["k"], 1e-9 + 1e-14 * (abs(x[2]) + abs(y[2])) / l, np.sqrt(np.outer(np.diag(g["k"]), np.diag(g["k"]))))
    m.event("out of plumb by a hair")
    m.distinct(b, x.tolist(), y.tolist())


def among(rng, m):
    """members next to each other, of one make or another and almost or exactly as long, some of a few millimetres: each answers for itself, in any order"""
    n = int(rng.integers(2, 5))
    b0 = beam(rng)[0]
    l0 = float(10 ** rng.uniform(-3, 2))
    d = np.eye(3)[int(rng.integers(3))] if rng.random() < 0.5 else rng.normal(size=3)
    # the same in all but one thing, to the last digit
    but = str(rng.choice(["E", "mu", "A", "I2", "I3", "J", "rho", "kind"])) if rng.random() < 0.4 else ""
    if but:
        l0, d = float(2.0 ** rng.integers(-4, 5)), np.eye(3)[int(rng.integers(3))]
        m.event("alike but for one property")
    d /= np.linalg.norm(d)
    x, nodes, beams = np.zeros(3), [("0", [0.0] * 3)], []
    for k in range(n):
        l = l0 if but else l0 * float(1 + rng.choice([0, 1]) * 10 ** rng.uniform(-7, -0.5))
        x = x + d * l
        nodes.append((str(k + 1), [float(v) for v in x]))
        b = dict(b0, name="b%d" % k, i=str(k), j=str(k + 1))
        s = (l0 / 1.0) ** 2
        A = float(s * 10 ** rng.uniform(-5, -1)) if rng.random() < 0.5 else s * 1e-2
        b.update(A=A, I2=A * s * 1e-3, I3=A * s * 2e-3, J=A * s * 1e-3)
        if rng.random() < 0.3:
            b["kind"] = "simple" if b["kind"] == "general" else "general"
        if rng.random() < 0.3:
            b["E"] *= float(1 + 10 ** rng.uniform(-6, -1))
        if but and beams:
            keep = b[but]
            b = dict(beams[0], name=b["name"], i=b["i"], j=b["j"])
            b[but] = ("simple" if b["kind"] == "general" else "general") if but == "kind" else float(rng.uniform(0, 0.49)) if but == "mu" else keep * float(rng.uniform(0.5, 2))
        beams.append(b)
    spec = dict(nodes=nodes, beams=beams, rest={})
    m.describe(spec=spec)
    model, frame = gen.build_model(spec), ref.Frame(dict(spec, patterns={}))
    xs = [float(v) for v in rng.uniform(0, 1, 2)] + [0.0, 1.0, 0.5]
    xs += [xs[0] + 1e-7 * float(rng.uniform(0, 1))]
    S3 = np.array([1.0, -1, 1, -1])
    for _ in range(12):
        k, xi = int(rng.integers(n)), xs[int(rng.integers(len(xs)))]
        b, g = beams[k], frame.geo["b%d" % k]
        l, ask = g["l"], int(rng.integers(5))
        # a length is known to rounding of the coordinates it comes from
        tol = 1e-12 + 1e-14 * np.linalg.norm(x) / l
        sc = np.array([1, 1] + [1, l, 1, l] * 2 + [1, 1.0])
        h, h1 = ref.hermite(xi * l, l), ref.hermite1(xi * l, l)
        if ask == 0:
            got = np.asarray(model.get_beam_interpolate(b["name"], xi), dtype=float).ravel()
            m.close("each-for-itself", got, np.r_[1 - xi, xi, h, h * S3, 1 - xi, xi], tol, sc, "shape functions of %s at %r" % (b["name"], xi))
        elif ask == 1:
            got = np.asarray(model.get_beam_interpolate1(b["name"], xi), dtype=float).ravel()
            m.close("each-for-itself", got, np.r_[-1 / l, 1 / l, h1, h1 * S3, -1 / l, 1 / l], tol, sc / l, "their slopes of %s at %r" % (b["name"], xi))
        elif ask == 2:
            m.close("each-for-itself", model.get_beam_K(b["name"]).toarray(), g["k"], 1e-10 + 10 * tol, np.sqrt(np.outer(np.diag(g["k"]), np.diag(g["k"]))), "stiffness of " + b["name"])
        elif ask == 3:
            M, at = model.get_beam_M(b["name"]).toarray(), np.ix_([0, 1, 2, 6, 7, 8], [0, 1, 2, 6, 7, 8])
            m.close("each-for-itself", M[at], ref.m_lumped(b["rho"], b["A"], l)[at], tol, b["rho"] * b["A"] * l / 2, "mass of " + b["name"])
        else:
            m.close("each-for-itself", model.get_beam_length(b["name"]), l, tol, l, "length of " + b["name"])
        if ask != 4 and rng.random() < 0.3:
            try:
                got[:] = 1e9        # what was handed out is the caller's
            except (NameError, ValueError):
                pass
    m.distinct(spec)


KINDS = {"hair": (hair, 4000, 32000), "among": (among, 3000, 24000), "stiffness": (stiffness, 12000, 96000), "mass": (mass, 8000, 64000), "shapes": (shapes, 8000, 64000), "roll": (roll, 4000, 32000)}
