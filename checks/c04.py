"""C04: what supports mean, and that load cases do not disturb each other."""
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw, imports, compare, well_posed
from checks.c02 import scales

PROP = "C04"
RULE = ("random frames with several cases, some with supports of their own, solved in random order, alone and repeatedly; supports set several "
        "times, added and taken away; non-trivial: a displacement field compared with the reference is not zero; distinct by spec and order")
MUST_SEE = ["oracle:displacement-equals-reference", "oracle:case-alone-equals-case-in-company", "oracle:restrained-dof-exactly-zero",
            "oracle:last-setting-wins", "oracle:support-at-rest-changes-nothing", "oracle:support-never-softens", "override seen", "inherit seen",
            "oracle:ground-answers-for-the-loads", "free freedoms left: 0", "free freedoms left: 1", "free freedoms left: 2"]
ASSUMPTIONS = ["reference frame solver of lib/hv/ref.py", "a load case that names supports of its own replaces all supports of the model"]


def cases(rng, m):
    """each case is solved under exactly its own supports, whatever else was solved and in whatever order"""
    spec, frame = draw(rng, m, names=True, ncases=4, case_rest=0.5, npatterns=3, releases=0.2, rotations=0.2)
    m.describe(spec=spec)
    path = m.tmp()
    gen.assemble(spec, path)
    names = list(spec["cases"])
    order = [names[int(k)] for k in rng.permutation(len(names) * 2) % len(names)]
    first = {}
    for c in order:
        d = gen.solve_core(spec, path, c, asb=False)
        m.true("repeat-is-identical", c not in first or np.array_equal(first[c], d), "solving %s again changed it" % c)
        first[c] = d
    for c in names:
        case = spec["cases"][c]
        m.event("override seen" if case["rest"] else "inherit seen")
        compare(m, spec, frame, c, np.load(os.path.join(path, c + ".d.npy"))[0], "case %s in order %s" % (c, order))
    c = names[int(rng.integers(len(names)))]
    alone = dict(spec, cases={c: spec["cases"][c]})
    d = gen.solve_core(alone, m.tmp(), c)
    m.close("case-alone-equals-case-in-company", d[0], first[c][0], 1e-9, scales(frame, None, d[0]), "case %s, order %s" % (c, order))


def api_cases(rng, m):
    spec, frame = draw(rng, m, names=True, ncases=3, case_rest=0.6, npatterns=2)
    m.describe(spec=spec)
    api = gen.build_api(spec, os.path.join(m.tmp(), "w"), m)
    m.same("assemble", api.assemble(), True)
    names = list(spec["cases"])
    for k in rng.permutation(len(names)):
        m.same("solve", api.solve_static(names[int(k)]), True)
    for c in names:
        m.event("override seen" if spec["cases"][c]["rest"] else "inherit seen")
        d = np.hstack([api.result_get_nodal_displacement(n, c) for n in frame.names])
        compare(m, spec, frame, c, d, "case " + c)
        got = api.get_node_restraints(c)
        m.same("case-restraints-reported", {k: [bool(x) for x in v] for k, v in got.items()}, spec["cases"][c]["rest"])
    got = api.get_node_restraints()
    m.same("model-restraints-reported", {k: [bool(x) for x in v] for k, v in got.items()}, spec["rest"])


def again(rng, m):
    """the last setting of a node's supports replaces the earlier ones, at the model and at the case"""
    spec, frame = draw(rng, m, ncases=1, case_rest=0.5)
    m.describe(spec=spec)
    model = gen.build_model(dict(spec, rest={}))
    cs = gen.build_cases(spec, gen.build_patterns(spec))
    lc = cs["case0"]
    own = bool(spec["cases"]["case0"]["rest"])
    settings = [(n, [bool(v) for v in rng.random(6) < 0.5]) for n in spec["rest"] for _ in range(int(rng.integers(0, 3)))]
    for n, v in [settings[int(k)] for k in rng.permutation(len(settings))] + list(spec["rest"].items()):
        model.set_nodal_restraint(n, *v)
    if own:
        for n in spec["cases"]["case0"]["rest"]:
            lc.set_nodal_restraint(n, *[bool(v) for v in rng.random(6) < 0.5])
        for n, v in spec["cases"]["case0"]["rest"].items():
            lc.set_nodal_restraint(n, *v)
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.static import StaticSolver
    path = m.tmp()
    Assembly(model, [lc]).save(path, "w.asb")
    StaticSolver(path, "w.asb").solve_linear("case0")
    d = np.load(os.path.join(path, "case0.d.npy"))[0]
    u, sc, cond = frame.solve(spec["cases"]["case0"])
    m.close("last-setting-wins", d, u[:frame.n], 1e-9 + 1e-13 * cond, sc[:frame.n] + 1e-300)
    compare(m, spec, frame, "case0", d, "after resetting supports")


def extra(rng, m):
    """a support where nothing moves changes nothing; any other support never makes the structure softer"""
    spec, frame = draw(rng, m, ncases=1, no_member_loads=True, releases=0.2)
    case = spec["cases"]["case0"]
    fix = set(frame.fixed(case))
    free = [k for k in range(frame.n) if k not in fix]
    if not free:
        raise Skip()
    k = free[int(rng.integers(len(free)))]
    rest = {n: list(v) for n, v in spec["rest"].items()}
    node = frame.names[k // 6]
    rest.setdefault(node, [False] * 6)[k % 6] = True
    more = dict(spec, rest=rest)
    m.describe(spec=spec, added=[node, k % 6])
    d = gen.solve_core(spec, m.tmp(), "case0")[0]
    d2 = gen.solve_core(more, m.tmp(), "case0")[0]
    f = frame.case_f(case)[:frame.n]
    size = np.abs(d) @ np.abs(f) + np.abs(d2) @ np.abs(f) + 1e-300
    m.true("support-never-softens", f @ d2 <= f @ d + 1e-8 * size, "compliance rose from %g to %g" % (f @ d, f @ d2))
    m.true("restrained-dof-exactly-zero", d2[k] == 0, "%r" % d2[k])
    # support reaction known: push the DOF back with the load that holds it, and support it: nothing changes
    K = frame.K()
    if frame.ntot == frame.n:
        r = (K @ d2)[k] - f[k]
        pat = [0.0] * 6
        pat[k % 6] = float(r)
        hold = dict(spec, patterns=dict(spec["patterns"], hold=dict(nodal={node: pat}, dist={}, conc={})),
                    cases={"case0": dict(case, patterns=dict(case["patterns"], hold=1.0))})
        d3 = gen.solve_core(hold, m.tmp(), "case0")[0]
        sc = scales(frame, None, d, d2)
        m.close("support-at-rest-changes-nothing", d3, d2, 1e-7, sc, "supported DOF against the same DOF held by its reaction")


def held(rng, m):
    """nothing may move, or one or two freedoms only: what cannot move stays, and the ground answers for the loads"""
    from hyperstatic.core.fe_post.node import NodeResultResolver
    spec, frame = draw(rng, m, names=True, ncases=2, case_rest=0.5, rotations=0.2, wide=False)
    n = frame.n
    K = frame.K()
    path = None
    for c, case in spec["cases"].items():
        some = [int(v) for v in rng.choice(n, size=int(rng.integers(0, 3)), replace=False)]
        s = np.sqrt(np.abs(np.diag(K)[some]))
        if len(some) > 1 and np.linalg.cond(K[np.ix_(some, some)] / np.outer(s, s)) > 1e6:
            some = some[:1]                      # the two would slide off together
        where = case["rest"] if case["rest"] else spec["rest"]
        where.update({x: [6 * frame.id[x] + j not in some for j in range(6)] for x in [frame.names[int(v)] for v in rng.permutation(len(frame.names))]})
    m.describe(spec=spec)
    path = m.tmp()
    gen.assemble(spec, path)
    nr = NodeResultResolver(path, "w.asb")
    for c, case in spec["cases"].items():
        f, fix = frame.case_f(case), frame.fixed(case)
        free = np.setdiff1d(np.arange(n), fix)
        u = np.zeros(n)
        if len(free):
            u[free] = np.linalg.solve(K[np.ix_(free, free)], f[free])
        d = gen.solve_core(spec, path, c, asb=False)
        m.same("stored-shape", d.shape, (1, n))
        m.true("restrained-dof-exactly-zero", np.all(d[0][fix] == 0), "a restrained DOF moved: %r" % d[0][fix])
        m.close("displacement-equals-reference", d[0], u, 1e-8, np.max(np.abs(u)) + 1e-300, "case %s with %d free" % (c, len(free)))
        want = np.where(np.isin(np.arange(n), fix), K @ u - f, 0)
        got = np.hstack([np.asarray(nr.resolve_nodal_reaction(x, c), dtype=float) for x in frame.names])
        lmax = max(g["l"] for g in frame.geo.values())
        size = np.sum(np.abs(f).reshape(-1, 6) / [1, 1, 1, lmax, lmax, lmax]) * np.tile([1, 1, 1, lmax, lmax, lmax], n // 6)
        m.close("ground-answers-for-the-loads", got, want, 1e-8, size + np.abs(K) @ np.abs(u) + 1e-300, c)
        m.event("free freedoms left: %d" % len(free))
    m.distinct(spec)


KINDS = {"held": (held, 200, 1600), "cases": (cases, 750, 6000), "api_cases": (api_cases, 300, 2400), "again": (again, 500, 4000), "extra": (extra, 600, 4800)}
