"""C10: reactions, member end forces and member deformations agree with the solved displacements and with statics."""
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw

PROP = "C10"
RULE = ("random frames (loads on nodes and members, end releases, rolled members, supports on model or case) solved, then asked for reactions of every "
        "node, end forces of every member and deformations at random stations; non-trivial: a reaction or end force is not zero; distinct by spec")
MUST_SEE = ["oracle:reaction-equals-reference", "oracle:no-reaction-without-support", "oracle:reactions-balance-loads", "oracle:end-force-equals-reference",
            "oracle:member-in-equilibrium", "oracle:node-in-equilibrium", "oracle:released-end-carries-nothing", "oracle:deformation-at-ends",
            "oracle:deformation-inside", "oracle:cut-member-agrees", "executions:core", "executions:api", "executions:tower", "executions:large", "executions:row"]
ASSUMPTIONS = ["reference frame solver of lib/hv/ref.py", "interior deformations are compared on members without load or release, where the cubic is exact",
               "reactions are compared after the solve of the assembly on disk"]


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.static, hyperstatic.core.fe_post.beam, hyperstatic.core.fe_post.node


def applied(frame, case):
    """applied loads as global forces and moments at the nodes, members as rigid carriers (statically equivalent, releases play no part)"""
    F, M = np.zeros(3), np.zeros(3)
    for p, k in case["patterns"].items():
        pat = frame.spec["patterns"][p]
        for n, v in pat["nodal"].items():
            v = k * np.array(v)
            F = F + v[:3]
            M = M + v[3:] + np.cross(frame.xyz[n], v[:3])
    for b, g in frame.geo.items():
        f = frame.case_member_f(case, b)
        for o, n in ((0, "i"), (6, "j")):
            ff, mm = g["R"].T @ f[o:o + 3], g["R"].T @ f[o + 3:o + 6]
            x = frame.xyz[frame.beams[b][n]]
            F = F + ff
            M = M + mm + np.cross(x, ff)
    return F, M


def load_size(frame, case, l):
    r = 1e-300
    w = np.array([1, 1, 1, 1 / l, 1 / l, 1 / l])
    for p, k in case["patterns"].items():
        for v in frame.spec["patterns"][p]["nodal"].values():
            r += np.sum(np.abs(k * np.array(v) * w))
    return r + sum(np.sum(np.abs(frame.case_member_f(case, b)) * np.tile(w, 2)) for b in frame.geo)


def judge(m, spec, frame, cname, reaction, endforce, deformation, rng, some=None):
    """`some`: of large structures, the nodes and members that are asked; each reaction costs the package an assembly"""
    case = spec["cases"][cname]
    K = frame.K()
    u, sc, cond = frame.solve(case, K)
    tol = 1e-9 + 1e-12 * cond
    f = frame.case_f(case)
    fix = frame.fixed(case)
    n = frame.n
    y = np.max(sc * np.sqrt(np.abs(np.diag(K))))       # norm of the displacements in energy
    scale = np.sqrt(np.abs(np.diag(K))) * y + np.abs(f) + np.abs(K) @ np.abs(u) + 1e-300
    lmax = max(g["l"] for g in frame.geo.values())
    size = load_size(frame, case, lmax)
    unit = np.array([1, 1, 1, lmax, lmax, lmax])
    scale[:n] += size * np.tile(unit, n // 6)
    # displacements: also no finer than rounding of the applied loads
    free = np.setdiff1d(np.arange(n), fix)
    flex = 1 / np.sqrt(np.diag(K)[free])
    sc = sc[:n].copy()
    sc[free] += flex * np.sum(flex * size * np.tile(unit, n // 6)[free])
    R = K @ u - f
    want = np.zeros(n)
    want[fix] = R[fix]
    if some:
        fix = np.array(fix)
        foot = [x for x in frame.names if np.any(fix // 6 == frame.id[x])]
        for x in [foot[int(k)] for k in rng.permutation(len(foot))[:some]] + [frame.names[int(k)] for k in rng.permutation(len(frame.names))[:some]]:
            q = slice(6 * frame.id[x], 6 * frame.id[x] + 6)
            m.close("reaction-equals-reference", np.asarray(reaction(x), dtype=float), want[q], tol, scale[q], "%s at %s" % (cname, x))
        for b in [list(frame.geo)[int(k)] for k in rng.permutation(len(frame.geo))[:8 * some]]:
            k, d = frame.geo[b]["k"], frame.gather(b) @ u
            s = np.sqrt(np.diag(k)) * y + np.abs(k) @ np.abs(d) + np.abs(frame.case_member_f(case, b)) + size * np.tile(unit, 2)
            m.close("end-force-equals-reference", np.asarray(endforce(b), dtype=float).ravel(), frame.end_force(case, b, u), tol, s, b)
        m.distinct(spec["nodes"], spec["beams"], case)
        return
    got = np.hstack([np.asarray(reaction(x), dtype=float) for x in frame.names])
    m.close("reaction-equals-reference", got, want, tol, scale[:n], cname)
    m.close("no-reaction-without-support", got[free], np.zeros(len(free)), tol, scale[free], cname)
    F, M = applied(frame, case)
    sizeF = np.linalg.norm(scale[:n].reshape(-1, 6)[:, :3])
    L = max(np.linalg.norm(x) for x in frame.xyz.values()) + spec["L"]
    sizeM = np.linalg.norm(scale[:n].reshape(-1, 6)[:, 3:]) + L * sizeF
    g = got.reshape(-1, 6)
    m.close("reactions-balance-loads", g[:, :3].sum(axis=0) + F, np.zeros(3), tol * 10, sizeF, "forces")
    mom = g[:, 3:].sum(axis=0) + sum(np.cross(frame.xyz[x], g[frame.id[x], :3]) for x in frame.names) + M
    m.close("reactions-balance-loads", mom, np.zeros(3), tol * 10, sizeM, "moments")
    # members
    shared = float(rng.uniform(0, 1)) if rng.random() < 0.5 else None
    sumF = np.zeros(n)
    for b, gg in frame.geo.items():
        k = gg["k"]
        d = frame.gather(b) @ u
        fm = frame.case_member_f(case, b)
        q = np.asarray(endforce(b), dtype=float).ravel()
        s = np.sqrt(np.diag(k)) * y + np.abs(k) @ np.abs(d) + np.abs(fm) + size * np.tile(unit, 2)
        m.close("end-force-equals-reference", q, frame.end_force(case, b, u), tol, s, b)
        # statics: forces the nodes put on the member and the loads on it
        l = gg["l"]
        t = q + fm
        fs = s[:3] + s[6:9]
        m.close("member-in-equilibrium", t[:3] + t[6:9], np.zeros(3), tol * 10, fs, b)
        r = [t[3] + t[9], t[4] + t[10] - t[8] * l, t[5] + t[11] + t[7] * l]
        m.close("member-in-equilibrium", r, np.zeros(3), tol * 10, s[3:6] + s[9:12] + l * np.array([0, s[8], s[7]]), b)
        if np.any(gg["rel"]):
            m.close("released-end-carries-nothing", q[gg["rel"]], np.zeros(gg["rel"].sum()), tol, s[gg["rel"]], b)
        sumF[gg["dofs"]] += gg["T"].T @ q
        # deformations
        loaded = np.any(fm) or any(b in spec["patterns"][p][w] for p in case["patterns"] for w in ("dist", "conc"))
        if not np.any(gg["rel"]):
            dd = gg["T"] @ u[gg["dofs"]]
            su = np.max(sc.reshape(-1, 6)[:, :3])
            sr = np.max(sc.reshape(-1, 6)[:, 3:])
            su, sr = su + sr * l, sr + su / l
            ss = np.array([su, su, su, sr, sr, sr]) + 1e-300
            for e, o in ((0.0, 0), (1.0, 6)):
                m.close("deformation-at-ends", np.asarray(deformation(b, e), dtype=float), dd[o:o + 6][[0, 1, 2, 3, 5, 4]], tol, ss, "%s at %g" % (b, e))
            if not loaded:
                x = float(rng.uniform(0, 1)) if shared is None else shared
                S3 = np.array([1.0, -1, 1, -1])
                h, h1 = ref.hermite(x * l, l), ref.hermite1(x * l, l)
                p2, p3 = dd[[1, 5, 7, 11]], dd[[2, 4, 8, 10]] * S3
                want = [dd[0] * (1 - x) + dd[6] * x, h @ p2, h @ p3, dd[3] * (1 - x) + dd[9] * x, h1 @ p2, -(h1 @ p3)]
                m.close("deformation-inside", np.asarray(deformation(b, x), dtype=float), want, tol, ss, "%s at %g" % (b, x))
    # every node: what it gets from outside and from the ground goes into the members
    ext = np.zeros(n)
    for p, kf in case["patterns"].items():
        for node, v in spec["patterns"][p]["nodal"].items():
            ext[6 * frame.id[node]:][:6] += kf * np.array(v)
    m.close("node-in-equilibrium", sumF, ext + got, tol * 10, scale[:n] * 10, cname)
    if np.any(np.abs(R[fix]) > 0):
        m.distinct(spec["nodes"], spec["beams"], spec["patterns"], case)


def core(rng, m):
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    from hyperstatic.core.fe_post.node import NodeResultResolver
    spec, frame = draw(rng, m, names=True, ncases=2, case_rest=0.4, releases=0.3, rotations=0.3)
    m.describe(spec=spec)
    path = m.tmp()
    gen.assemble(spec, path)
    for c in spec["cases"]:
        gen.solve_core(spec, path, c, asb=False)
    nr, br = NodeResultResolver(path, "w.asb"), BeamResultResolver(path, "w.asb")
    for c in spec["cases"]:
        judge(m, spec, frame, c, lambda n: nr.resolve_nodal_reaction(n, c), lambda b: br.resolve_beam_end_force(b, c),
              lambda b, x: br.resolve_beam_deformation(b, x, c), rng)


def api(rng, m):
    spec, frame = draw(rng, m, names=True, ncases=2, case_rest=0.4, releases=0.3)
    m.describe(spec=spec)
    a = gen.build_api(spec, os.path.join(m.tmp(), "w"), m)
    m.same("api-reports-success", a.assemble(), True)
    for c in spec["cases"]:
        m.same("api-reports-success", a.solve_static(c), True)
    for c in spec["cases"]:
        judge(m, spec, frame, c, lambda n: a.result_get_nodal_reaction(n, c), lambda b: a.result_get_beam_end_force(b, c),
              lambda b, x: a.result_get_beam_deformation(b, x, c), rng)
    for r in (a.result_get_nodal_reaction("no such node", c), a.result_get_beam_end_force("no such beam", c), a.result_get_beam_deformation("no such beam", 0.5, c),
              a.result_get_nodal_displacement(frame.names[0], "no such case"), a.result_get_nodal_reaction(frame.names[0], "no such case")):
        m.true("unknown-name-gives-none", r is None, "%r" % (r,))


def cut(rng, m):
    """the deformation reported inside a member is the displacement of a node put there"""
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    spec, frame = draw(rng, m, ncases=1, no_member_loads=True, rotations=0.3)
    path = m.tmp()
    d = gen.solve_core(spec, path, "case0")[0]
    b = spec["beams"][int(rng.integers(len(spec["beams"])))]
    x = float(rng.uniform(0.15, 0.85))
    got = BeamResultResolver(path, "w.asb").resolve_beam_deformation(b["name"], x, "case0")
    p = (1 - x) * frame.xyz[b["i"]] + x * frame.xyz[b["j"]]
    two = dict(spec, nodes=spec["nodes"] + [("cut", [float(v) for v in p])],
               beams=[w for w in spec["beams"] if w["name"] != b["name"]] + [dict(b, name="first", j="cut"), dict(b, name="second", i="cut")])
    m.describe(spec=spec, beam=b["name"], at=x)
    if max(abs(np.diff([frame.xyz[b["i"]][:2], frame.xyz[b["j"]][:2]], axis=0)).ravel()) < 1e-5:
        raise Skip()                     # rounding could turn the axes of a vertical part
    d2 = gen.solve_core(two, m.tmp(), "case0")[0]
    g = frame.geo[b["name"]]
    dd = np.kron(np.eye(2), g["R"]) @ d2[-6:]
    u, sc, cond = frame.solve(spec["cases"]["case0"])
    su, sr = np.max(sc[:frame.n].reshape(-1, 6)[:, :3]), np.max(sc[:frame.n].reshape(-1, 6)[:, 3:])
    su, sr = su + sr * g["l"], sr + su / g["l"]
    m.close("cut-member-agrees", got, dd[[0, 1, 2, 3, 5, 4]], 1e-7 + 1e-12 * cond, np.array([su, su, su, sr, sr, sr]) + 1e-300)
    m.distinct(spec["nodes"], spec["beams"], x)


def tower(rng, m, size=(20, 60), npatterns=6, sides=((1, 5), (1, 5), (2, 7)), some=None):
    """buildings: many members at a node, many nodes that carry no support"""
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    from hyperstatic.core.fe_post.node import NodeResultResolver
    spec = gen.tower(rng, size, npatterns, 2, sides=sides)
    frame = ref.Frame(spec)
    through_api = bool(rng.random() < 0.5)
    m.describe(spec=spec, api=through_api)
    path = os.path.join(m.tmp(), "w")
    if through_api:
        a = gen.build_api(spec, path, m)
        m.same("api-reports-success", [a.assemble()] + [a.solve_static(c) for c in spec["cases"]], [True] * (1 + len(spec["cases"])))
        get = lambda c: (lambda n: a.result_get_nodal_reaction(n, c), lambda b: a.result_get_beam_end_force(b, c), lambda b, x: a.result_get_beam_deformation(b, x, c))
    else:
        gen.assemble(spec, path)
        for c in spec["cases"]:
            gen.solve_core(spec, path, c, asb=False)
        nr, br = NodeResultResolver(path, "w.asb"), BeamResultResolver(path, "w.asb")
        get = lambda c: (lambda n: nr.resolve_nodal_reaction(n, c), lambda b: br.resolve_beam_end_force(b, c), lambda b, x: br.resolve_beam_deformation(b, x, c))
    for c in list(spec["cases"])[::-1]:
        judge(m, spec, frame, c, *get(c), rng, some)
    m.event("nodes of towers", len(spec["nodes"]))


def row(rng, m):
    """members in a row, almost of one length, of millimetres or kilometres: what holds for one does not for the next"""
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    from hyperstatic.core.fe_post.node import NodeResultResolver
    n = int(rng.integers(3, 9))
    l0 = float(10 ** rng.uniform(-3, 3))
    d = np.eye(3)[int(rng.integers(3))] if rng.random() < 0.5 else rng.normal(size=3)
    d /= np.linalg.norm(d)
    names = gen.alike(rng, n)
    x, nodes, beams = np.zeros(3), [], []
    A = l0 * l0 * 10 ** rng.uniform(-3, -1.5)
    spread = 10 ** rng.uniform(-4, -0.3)
    for k in range(n):
        nodes.append((names[k], [float(v) for v in x]))
        x = x + d * l0 * (1 + spread * rng.uniform(-0.9, 0.9))
    bend = float(rng.uniform(0, 0.5)) * l0 if rng.random() < 0.5 else 0.0
    nodes = [(a, [float(v) for v in np.array(p) + bend * (k % 2) * np.array([d[1], d[2], d[0]])]) for k, (a, p) in enumerate(nodes)]
    for k in range(n - 1):
        a, b = (k, k + 1) if rng.random() < 0.7 else (k + 1, k)
        r = rng.uniform(0.03, 0.15, 2) ** 2 * l0 * l0
        beams.append(dict(name="b%d" % k, i=names[a], j=names[b], kind="simple" if rng.random() < 0.5 else "general", E=2e11, mu=0.3, A=float(A), I2=float(A * r[0]), I3=float(A * r[1]),
                          J=float(A * r.sum() / 2), rho=7850.0, rot=0.0, rel=[False] * 12))
    spec = dict(nodes=[nodes[int(k)] for k in rng.permutation(n)], beams=[beams[int(k)] for k in rng.permutation(n - 1)], rest={names[0]: [True] * 6}, patterns={}, cases={}, L=l0)
    if rng.random() < 0.5:
        spec["rest"][names[-1]] = [True, True, True, False, False, False]
    for p in range(2):
        spec["patterns"]["P%d" % p] = gen.pattern(rng, spec, 2e11, A, l0, bool(rng.random() < 0.7))
    spec["cases"]["c"] = dict(patterns={"P0": 1.0, "P1": float(rng.normal())}, rest={})
    frame = ref.Frame(spec)
    u, _, cond = frame.solve(spec["cases"]["c"])
    if u is None or cond > 1e7:
        raise Skip()
    m.describe(spec=spec)
    path = m.tmp()
    gen.solve_core(spec, path, "c")
    nr, br = NodeResultResolver(path, "w.asb"), BeamResultResolver(path, "w.asb")
    judge(m, spec, frame, "c", lambda v: nr.resolve_nodal_reaction(v, "c"), lambda b: br.resolve_beam_end_force(b, "c"), lambda b, v: br.resolve_beam_deformation(b, v, "c"), rng)


def large(rng, m):
    tower(rng, m, (200, 330), 2, ((4, 8), (4, 8), (5, 9)), 6)


KINDS = {"large": (large, 2, 16), "row": (row, 240, 1920), "tower": (tower, 16, 128), "core": (core, 800, 6400), "api": (api, 480, 3840), "cut": (cut, 480, 3840)}
