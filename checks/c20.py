"""C20: the assembled structure is the sum of its members, shells and nodes, each once and in its place."""
import os
import numpy as np
from hv import ext, gen, ref
from hv.core import Skip
from checks.c13 import dense

PROP = "C20"
RULE = ("random structures of members, quadrilaterals and triangles that share nodes (folded patches with stiffening members, frames, single elements), with masses and supports on "
        "model and cases, assembled and solved on rebuilt native kernels; every assembled matrix compared with the sum of what the elements answer one by one; non-trivial: at least "
        "two elements share a node; distinct by structure")
MUST_SEE = ["oracle:stiffness-is-the-sum", "oracle:mass-is-the-sum", "oracle:load-is-the-sum", "oracle:symmetric", "oracle:rigid-motion-free", "oracle:boundary-drops-the-supports",
            "oracle:free-freedoms", "oracle:one-element-more", "oracle:order-of-elements", "oracle:order-of-nodes", "oracle:solution", "oracle:reactions", "oracle:assembling-changes-nothing",
            "quadrilaterals", "triangles", "members", "members and shells", "folded", "executions:many",
            "masses of no or negative sum", "layers between the same nodes", "regular grid", "described again elsewhere", "oracle:described-again"]
ASSUMPTIONS = ["the element matrices themselves are decided under C08, C13 and C17", "shells carry no mass and no load of their own"]


TIMEOUT = 400


def prepare(tier):
    ext.prepare(tier)


def imports():
    import hyperstatic.core, hyperstatic.core.fe_model.model, hyperstatic.core.fe_solver.static, hyperstatic.core.fe_post.node, hyperstatic.core.fe_model.assembly


def draw(rng, m):
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if rng.random() < 0.05:
        nx, ny = int(rng.integers(4, 8)), int(rng.integers(4, 8))
    L = float(10 ** rng.uniform(-0.5, 1))
    fold = bool(rng.random() < 0.5)
    xs, ys = np.cumsum(rng.uniform(0.6, 1.4, nx + 1)), np.cumsum(rng.uniform(0.6, 1.4, ny + 1))
    even = bool(rng.random() < 0.25)             # a regular grid, its parts alike but for one thing
    if even:
        xs, ys, fold = np.arange(nx + 1.0), np.arange(ny + 1.0), False
    bend = rng.normal() * 0.7
    Q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.random() < 0.6 else np.eye(3)[rng.permutation(3)]
    pts = {}
    for i in range(nx + 1):
        z = 0.0
        if fold and i >= 1:
            z = bend * (xs[i] - xs[1]) if i > 1 else 0.0
        for j in range(ny + 1):
            pts[(i, j)] = Q @ (np.array([xs[i], ys[j], z]) * L)
    fmt = gen.NAMES[int(rng.integers(len(gen.NAMES)))]
    keys = [list(pts)[k] for k in rng.permutation(len(pts))]
    name = {k: fmt % int(v) for k, v in zip(keys, rng.permutation(3 * len(keys)))}
    nodes = [(name[k], [float(v) for v in pts[k]]) for k in keys]
    shells, beams = [], []
    E = float(10 ** rng.uniform(3, 11))
    for i in range(nx):
        for j in range(ny):
            c = [name[(i, j)], name[(i + 1, j)], name[(i + 1, j + 1)], name[(i, j + 1)]]
            if rng.random() < 0.5:
                c.reverse()
            r = int(rng.integers(4))
            c = c[r:] + c[:r]
            k = rng.random()
            t = float(L * 10 ** rng.uniform(-2, -1))
            kind = str(rng.choice(["shell", "shell", "membrane", "plate"]))
            if k < 0.45:
                shells.append(dict(nodes=c, t=t, E=E * float(rng.uniform(0.5, 2)), mu=float(rng.uniform(0, 0.45)), kind=kind))
            elif k < 0.8:
                for tri in ((0, 1, 2), (0, 2, 3)):
                    if rng.random() < 0.85:
                        shells.append(dict(nodes=[c[v] for v in tri], t=t, E=E * float(rng.uniform(0.5, 2)), mu=float(rng.uniform(0, 0.45)), kind=kind))
    edges = [((i, j), (i + 1, j)) for i in range(nx) for j in range(ny + 1)] + [((i, j), (i, j + 1)) for i in range(nx + 1) for j in range(ny)]
    edges += [((i, j), (i + 1, j + 1)) for i in range(nx) for j in range(ny)]
    if shells and rng.random() < 0.3:
        # layers: another shell between the same nodes, or three of them
        for _ in range(int(rng.integers(1, 3))):
            e = shells[int(rng.integers(len(shells)))]
            c = e["nodes"] if len(e["nodes"]) == 3 or rng.random() < 0.5 else [e["nodes"][v] for v in ((0, 1, 2), (0, 2, 3))[int(rng.integers(2))]]
            q = int(rng.integers(len(c)))
            c = c[q:] + c[:q]
            shells.append(dict(e, nodes=c[::-1] if rng.random() < 0.3 else c, t=e["t"] * float(rng.uniform(0.5, 2)), E=e["E"] * float(rng.choice([1.0, rng.uniform(0.5, 2)]))))
        m.event("layers between the same nodes")
    dens = rng.choice([0.0, 0.3, 0.8, 1.0])
    for e, (a, b) in enumerate(edges):
        if rng.random() < dens:
            if rng.random() < 0.5:
                a, b = b, a
            A = L * L * rng.uniform(1e-3, 1e-2)
            beams.append(dict(i=name[a], j=name[b], kind=str(rng.choice(["simple", "general"])), E=E * float(rng.uniform(0.5, 2)), mu=0.3, A=float(A), I2=float(A * L * L * rng.uniform(1e-3, 1e-2)),
                              I3=float(A * L * L * rng.uniform(1e-3, 1e-2)), J=float(A * L * L * rng.uniform(1e-3, 1e-2)), rho=float(10 ** rng.uniform(0, 4)),
                              rot=float(rng.choice([0, rng.uniform(-3, 3)])), rel=gen.random_release(rng) if rng.random() < 0.2 else [False] * 12))
    if not shells and not beams:
        raise Skip()
    if even:
        for parts, props in ((beams, ["E", "mu", "A", "I2", "I3", "J", "rho", "rot", "rel", "kind"]), (shells, ["E", "mu", "t", "kind"])):
            for b in parts[1:]:
                keep = props[int(rng.integers(len(props)))] if rng.random() < 0.5 else props[0] if len(props) < 5 else "rel"
                b.update({k: parts[0][k] for k in props if k != keep})
        m.event("regular grid")
    bn = rng.permutation(3 * (len(beams) + len(shells)))
    for k, b in enumerate(beams):
        b["name"] = "b%d" % bn[k]
    for k, s in enumerate(shells):
        s["name"] = "s%d" % bn[len(beams) + k]
    for o in (beams, shells):
        rng.shuffle(o)
    names = [n for n, _ in nodes]
    spec = dict(nodes=nodes, beams=beams, shells=shells, rest={}, mass={}, L=L, E=E)
    for n in names:
        if rng.random() < 0.3:
            # also taken away, or adding up to nothing
            spec["mass"][n] = [float(v) for v in rng.uniform(0, 5, 6)] if rng.random() < 0.5 else gen.nodal_load(rng, [float(v) for v in rng.normal(size=6) * 3])
            if sum(spec["mass"][n]) < 1e-12:
                m.event("masses of no or negative sum")
        if rng.random() < 0.3:
            spec["rest"][n] = [bool(v) for v in rng.random(6) < 0.6]
    if shells:
        m.event("quadrilaterals", sum(len(s["nodes"]) == 4 for s in shells))
        m.event("triangles", sum(len(s["nodes"]) == 3 for s in shells))
        if beams:
            m.event("members and shells")
        if fold and nx > 1:
            m.event("folded")
    m.event("members", len(beams))
    return spec


def build(spec):
    model = gen.build_model(dict(spec))
    for s in spec["shells"]:
        model.add_isotropic_material("m" + s["name"], 7850.0, s["E"], s["mu"], 1e-5)
        model.add_shell_section("h" + s["name"], "m" + s["name"], s["t"], s["kind"])
        model.add_shell(s["name"], "h" + s["name"], *s["nodes"])
    return model


def summed(model, spec, order):
    """stiffness, its size, and lumped mass, from the answers of the elements"""
    n = 6 * len(order)
    K, A, M = np.zeros((n, n)), np.zeros((n, n)), np.zeros((n, n))
    parts = [(b["name"], [b["i"], b["j"]], dense(model.get_beam_K(b["name"], condensate=True)), dense(model.get_beam_transform_matrix(b["name"]))) for b in spec["beams"]]
    parts += [(s["name"], s["nodes"], dense(model.get_shell_K(s["name"])), dense(model.get_shell_transform_matrix(s["name"]))) for s in spec["shells"]]
    for _, ns, k, T in parts:
        d = np.concatenate([6 * order.index(x) + np.arange(6) for x in ns])
        g = T.T @ k @ T
        K[np.ix_(d, d)] += g
        A[np.ix_(d, d)] += np.abs(T.T) @ np.abs(k) @ np.abs(T)
    for b in spec["beams"]:
        T = dense(model.get_beam_transform_matrix(b["name"]))
        d = np.concatenate([6 * order.index(x) + np.arange(6) for x in (b["i"], b["j"])])
        l = model.get_beam_length(b["name"])
        M[np.ix_(d, d)] += T.T @ ref.m_lumped(b["rho"], b["A"], l) @ T
    for x, v in spec["mass"].items():
        d = 6 * order.index(x) + np.arange(6)
        M[d, d] += v
    return K, A, M


def parts(rng, m):
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    spec = draw(rng, m)
    order = [n for n, _ in spec["nodes"]]
    model = build(spec)
    pat = LoadPattern("p")
    loads, member = {}, {}
    for n in order:
        if rng.random() < 0.5:
            loads[n] = [float(v) for v in rng.normal(size=6)]
            pat.set_nodal_load(n, *loads[n])
    for b in spec["beams"]:
        if rng.random() < 0.4:
            member[b["name"]] = [float(v) for v in rng.normal(size=8)]
            pat.set_beam_load_dist(b["name"], *member[b["name"]])
    case, own = StaticCase("c"), StaticCase("own")
    k = float(rng.normal())
    case.add_pattern(pat, k)
    rest2 = {n: [bool(v) for v in rng.random(6) < 0.5] for n in order if rng.random() < 0.4}
    for n, v in rest2.items():
        own.set_nodal_restraint(n, *v)
    m.describe(spec=spec, loads=loads, member=member, own=rest2)
    K, A, M = summed(model, spec, order)
    asb = Assembly(model, [case, own])
    G = asb.assemble_K()
    m.same("shape", tuple(G.shape), K.shape)
    G = dense(G)
    # a cancelled stiffness is no more accurate than its terms
    s = np.sqrt(np.diag(A)) + 1e-300
    m.close("stiffness-is-the-sum", G, K, 1e-12, A + 1e-6 * np.outer(s, s) + 1e-300)
    m.close("symmetric", G, G.T, 1e-9, np.outer(s, s))
    x = np.array([p for _, p in spec["nodes"]])
    x = x - x.mean(axis=0)
    w = rng.normal(size=(2, 3)) * [[spec["L"]], [1.0]]
    u = np.zeros((len(order), 6))
    u[:, :3], u[:, 3:] = w[0] + np.cross(w[1], x), w[1]
    # shells: of the rigid motions only translations, for what is recorded under C13 and C17 lets some elements resist rotations
    if not any(any(b["rel"]) for b in spec["beams"]):
        if spec["shells"]:
            u[:, :3], u[:, 3:] = w[0], 0
        size = np.abs(A) @ np.abs(u.ravel()) + s * np.max(s * np.abs(u.ravel()))
        m.close("rigid-motion-free", G @ u.ravel(), np.zeros(6 * len(order)), 1e-7, size + 1e-300)
    if not any(any(b["rel"]) for b in spec["beams"]):
        mm = dense(asb.assemble_M())
        tot = np.max(np.abs(M)) if np.any(M) else 1.0
        m.close("mass-is-the-sum", mm, M, 1e-9, tot + 1.0)
    f = np.zeros(6 * len(order))
    fa = np.zeros(6 * len(order))
    for n, v in loads.items():
        f[6 * order.index(n):][:6] += np.array(v) * k
    fa += np.abs(f)
    for b in spec["beams"]:
        if b["name"] in member:
            fl = k * ref.f_dist(member[b["name"]], model.get_beam_length(b["name"]))
            fl = dense(model.get_beam_condensated_f(b["name"], fl)).ravel()
            T = dense(model.get_beam_transform_matrix(b["name"]))
            d = np.concatenate([6 * order.index(q) + np.arange(6) for q in (b["i"], b["j"])])
            f[d] += T.T @ fl
            fa[d] += np.linalg.norm(fl)
    F = asb.assemble_f("c")
    m.same("shape", tuple(F.shape), (len(f), 1))
    m.close("load-is-the-sum", dense(F).ravel(), f, 1e-11, fa + 1e-300)
    # supports
    for cn, rest in (("c", spec["rest"]), ("own", rest2 or spec["rest"])):
        fix = sorted(6 * order.index(n) + j for n, v in rest.items() for j in range(6) if v[j])
        free = np.setdiff1d(np.arange(len(f)), fix)
        if len(free) > 0:
            B = dense(asb.assemble_boundary(cn, asb.assemble_K()))
            m.close("boundary-drops-the-supports", B, G[np.ix_(free, free)], 1e-13, A[np.ix_(free, free)] + 1e-300, cn)
            v = dense(asb.assemble_boundary(cn, asb.assemble_f("c"))).ravel()
            m.close("boundary-drops-the-supports", v, dense(F).ravel()[free], 1e-15, np.max(np.abs(f)) + 1e-300, cn)
        if cn == "own":
            m.same("supports-listed", sorted(int(q) for q in asb.restraintDOF("own")), sorted(6 * order.index(n) + j for n, v in rest2.items() for j in range(6) if v[j]))
    fix = sorted(6 * order.index(n) + j for n, v in spec["rest"].items() for j in range(6) if v[j])
    m.same("supports-listed", sorted(int(q) for q in asb.restraintDOF()), fix)
    m.same("free-freedoms", (int(asb.DOF), asb.node_count), (len(f) - len(fix), len(order)))
    m.true("assembling-changes-nothing", np.array_equal(dense(asb.assemble_K()), G) and np.array_equal(dense(asb.assemble_f("c")), dense(F)), "a second assembly differs")
    # one element more adds its own matrix
    m2 = build(spec)
    if spec["shells"] and rng.random() < 0.6:
        e = spec["shells"][int(rng.integers(len(spec["shells"])))]
        m2.add_shell("one more", "h" + spec["shells"][int(rng.integers(len(spec["shells"])))]["name"], *e["nodes"])
        ke, T, ns = dense(m2.get_shell_K("one more")), dense(m2.get_shell_transform_matrix("one more")), e["nodes"]
    else:
        i, j = [int(v) for v in rng.permutation(len(order))[:2]]
        m2.add_simple_beam("one more", order[i], order[j], spec["E"], 0.3, 0.01, 1e-4, 2e-4, 1e-4, 1.0)
        ke, T, ns = dense(m2.get_beam_K("one more")), dense(m2.get_beam_transform_matrix("one more")), [order[i], order[j]]
    W = G.copy()
    d = np.concatenate([6 * order.index(q) + np.arange(6) for q in ns])
    W[np.ix_(d, d)] += T.T @ ke @ T
    A2 = A.copy()
    A2[np.ix_(d, d)] += np.abs(T.T) @ np.abs(ke) @ np.abs(T)
    s2 = np.sqrt(np.diag(A2)) + 1e-300
    m.close("one-element-more", dense(Assembly(m2, [case]).assemble_K()), W, 1e-12, A2 + 1e-6 * np.outer(s2, s2) + 1e-300)
    # a part described again under its name is where it is now
    moved = dict(spec, beams=[dict(b) for b in spec["beams"]], shells=[dict(b) for b in spec["shells"]])
    m3 = build(spec)
    if rng.random() < 0.7:
        Assembly(m3, [case]).assemble_K()
    for b in moved["beams"]:
        if rng.random() < 0.4:
            b["i"], b["j"] = [order[int(v)] for v in rng.permutation(len(order))[:2]] if rng.random() < 0.7 else (b["j"], b["i"])
            b["rel"], b["rot"] = [False] * 12, 0.0
            b["kind"] = "simple"
            m3.add_simple_beam(b["name"], b["i"], b["j"], b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"])
            m.event("described again elsewhere")
    for e in moved["shells"]:
        if rng.random() < 0.4:
            src = spec["shells"][int(rng.integers(len(spec["shells"])))]["nodes"]
            e["nodes"] = src[1:] + src[:1]
            m3.add_shell(e["name"], "h" + e["name"], *e["nodes"])
            m.event("described again elsewhere")
    K3, A3, M3 = summed(m3, moved, order)
    s3 = np.sqrt(np.diag(A3)) + 1e-300
    m.close("described-again", dense(Assembly(m3, [case]).assemble_K()), K3, 1e-12, A3 + 1e-6 * np.outer(s3, s3) + 1e-300)
    # order of description
    other = dict(spec, beams=[spec["beams"][q] for q in rng.permutation(len(spec["beams"]))], shells=[spec["shells"][q] for q in rng.permutation(len(spec["shells"]))])
    m.close("order-of-elements", dense(Assembly(build(other), []).assemble_K()), G, 1e-12, A + 1e-6 * np.outer(s, s) + 1e-300)
    perm = rng.permutation(len(order))
    P = np.concatenate([6 * q + np.arange(6) for q in perm])
    other = dict(spec, nodes=[spec["nodes"][q] for q in perm])
    m.close("order-of-nodes", dense(Assembly(build(other), []).assemble_K()), G[np.ix_(P, P)], 1e-12, (A + 1e-6 * np.outer(s, s))[np.ix_(P, P)] + 1e-300)
    if len(spec["beams"]) + len(spec["shells"]) > 1:
        m.distinct(spec)


def solve(rng, m):
    """supported patches, solved: the stored displacements balance the loads, and the supports take the rest"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_solver.static import StaticSolver
    from hyperstatic.core.fe_post.node import NodeResultResolver
    spec = draw(rng, m)
    order = [n for n, _ in spec["nodes"]]
    n = 6 * len(order)
    model = build(spec)
    K, A, M = summed(model, spec, order)
    K = (K + K.T) / 2
    rest = {}
    for k in rng.permutation(len(order))[:max(1, len(order) // 3)]:
        rest[order[int(k)]] = [True] * 6
    # freedoms without stiffness of their own are supported as well
    for k, x in enumerate(order):
        v = [bool(np.diag(K)[6 * k + j] <= 1e-9 * np.max(np.diag(K)[6 * k:6 * k + 6])) if np.any(np.diag(K)[6 * k:6 * k + 6]) else True for j in range(6)]
        if any(v) or x in rest:
            rest[x] = [a or b for a, b in zip(v, rest.get(x, [False] * 6))]
    fix = [6 * order.index(x) + j for x, v in rest.items() for j in range(6) if v[j]]
    free = np.setdiff1d(np.arange(n), fix)
    if not len(free):
        raise Skip()
    s = np.sqrt(np.diag(K)[free])
    Ks = K[np.ix_(free, free)] / np.outer(s, s)
    cond = np.linalg.cond(Ks)
    if not cond < 1e7 or np.linalg.eigvalsh(Ks)[0] <= 0:
        m.event("redrawn: unstable or ill-conditioned")
        raise Skip()
    pat = LoadPattern("p")
    f = np.zeros(n)
    for k, x in enumerate(order):
        if rng.random() < 0.6:
            v = rng.normal(size=6) * np.r_[np.ones(3), np.full(3, spec["L"])]
            pat.set_nodal_load(x, *[float(q) for q in v])
            f[6 * k:6 * k + 6] = v
    if not np.any(f[free]):
        raise Skip()
    case = StaticCase("c")
    case.add_pattern(pat, 1.0)
    target = case if rng.random() < 0.5 else model
    if target is case:
        pass
    else:
        model = build(dict(spec, rest={}))
        target = model
    for x, v in rest.items():
        target.set_nodal_restraint(x, *v)
    m.describe(spec=spec, rest=rest, on="case" if target is case else "model")
    path = m.tmp()
    Assembly(model, [case]).save(path, "w.asb")
    StaticSolver(path, "w.asb").solve_linear("c")
    got = np.load(os.path.join(path, "c.d.npy")).ravel()
    y = np.linalg.solve(Ks, f[free] / s)
    u = np.zeros(n)
    u[free] = y / s
    tol = 1e-8 + 1e-12 * cond
    sc = np.zeros(n)
    sc[free] = np.linalg.norm(y) / s
    m.close("solution", got, u, tol, sc + 1e-300)
    m.true("restrained-dof-exactly-zero", np.all(got[fix] == 0))
    R = K @ u - f
    nr = NodeResultResolver(path, "w.asb")
    r = np.hstack([np.asarray(nr.resolve_nodal_reaction(x, "c"), dtype=float) for x in order])
    want = np.zeros(n)
    want[fix] = R[fix]
    size = np.abs(f) + A @ np.abs(u) + np.sqrt(np.abs(np.diag(A))) * np.linalg.norm(y)
    m.close("reactions", r, want, tol * 10, size + 1e-300)
    if spec["shells"]:
        m.distinct(spec, rest)


def many(rng, m):
    """thousands of nodes: indices grow past what small structures ever need"""
    import scipy.sparse as sp
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_model.model import Model
    from hyperstatic.core.fe_solver.static import StaticSolver
    n = int(rng.integers(5500, 6400))
    perm = rng.permutation(n)
    L = float(rng.uniform(1, 5))
    model = Model()
    xyz = np.cumsum(rng.uniform(0.3, 1.0, (n, 3)) * rng.choice([-1, 1, 1, 1], (n, 3)), axis=0) * L
    names = [str(int(v)) for v in rng.permutation(2 * n)[:n]]
    order = [names[int(k)] for k in perm]
    for k in perm:
        model.add_node(names[int(k)], *[float(v) for v in xyz[k]])
    ends = [(k, k + 1) if rng.random() < 0.5 else (k + 1, k) for k in range(n - 1)]
    prop = rng.uniform(0.5, 2, (n - 1, 4))
    for k in rng.permutation(n - 1):
        i, j = ends[k]
        model.add_simple_beam("b%d" % k, names[i], names[j], 2e11 * prop[k, 0], 0.3, 0.01, 2e-5 * prop[k, 1], 3e-5 * prop[k, 2], 1e-5 * prop[k, 3], 1000.0)
    every = int(rng.integers(15, 30))
    held = [k for k in range(n) if k % every == 0 or k == n - 1]
    pat, case = LoadPattern("p"), StaticCase("c")
    case.add_pattern(pat, 1.0)
    for k in held:
        model.set_nodal_restraint(names[k], *[True] * 6)
    at = {names[int(k)]: q for q, k in enumerate(perm)}
    f = np.zeros(6 * n)
    for k in rng.permutation(n)[:n // 3]:
        v = [float(x) for x in rng.normal(size=6) * 1000]
        pat.set_nodal_load(names[int(k)], *v)
        f[6 * at[names[int(k)]]:][:6] += v
    rows, cols, vals = [], [], []
    for k, (i, j) in enumerate(ends):
        T = dense(model.get_beam_transform_matrix("b%d" % k))
        g = T.T @ dense(model.get_beam_K("b%d" % k)) @ T
        d = np.concatenate([6 * at[names[e]] + np.arange(6) for e in (i, j)])
        rows.append(np.repeat(d, 12))
        cols.append(np.tile(d, 12))
        vals.append(g.ravel())
    want = sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(6 * n, 6 * n)).tocsr()
    fix = np.sort(np.concatenate([6 * at[names[k]] + np.arange(6) for k in held]))
    free = np.setdiff1d(np.arange(6 * n), fix)
    m.describe(nodes=n, held=len(held), free=len(free))
    asb = Assembly(model, [case])
    m.same("free-freedoms", (int(asb.DOF), asb.node_count), (len(free), n))
    raw = asb.assemble_K()
    K = sp.csr_matrix(raw, copy=True)
    big = np.max(np.abs(want.data))
    m.same("shape", K.shape, want.shape)
    m.close("stiffness-is-the-sum", np.max(np.abs((K - want).data), initial=0), 0.0, 1e-12, big)
    B, v = asb.assemble_boundary("c", raw), np.asarray(dense(asb.assemble_boundary("c", asb.assemble_f("c")))).ravel()
    m.close("boundary-drops-the-supports", np.max(np.abs((sp.csr_matrix(B) - want[free][:, free]).data), initial=0), 0.0, 1e-12, big)
    m.close("boundary-drops-the-supports", v, f[free], 1e-15, 1000.0)
    m.same("supports-listed", sorted(int(q) for q in asb.restraintDOF()), fix.tolist())
    path = m.tmp()
    asb.save(path, "w.asb")
    StaticSolver(path, "w.asb").solve_linear("c")
    d = np.load(os.path.join(path, "c.d.npy")).ravel()
    m.true("solution", np.all(d[fix] == 0), "a support moved")
    r = (want @ d - f)[free]
    size = (abs(want) @ np.abs(d) + np.abs(f))[free]
    m.close("solution", r, np.zeros(len(r)), 1e-9, size + 1e-3 * np.linalg.norm(size) / np.sqrt(len(size)))
    m.event("nodes in large structures", n)
    m.distinct(n, names[0])


KINDS = {"many": (many, 1, 12), "parts": (parts, 160, 3000), "solve": (solve, 160, 3000)}
