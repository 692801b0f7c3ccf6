"""Random structures as plain specs, and their construction through the public
interface of the code under test."""
import inspect
import os
import zlib
import numpy as np

NAMES = ["%d", "n%d", "N-%d", "节点%d", "a b %d", "%d-0", "x.%d", "#%d"]


def frame(rng, nmax=8, releases=0.0, rotations=0.0, loads=True, lattice=None, ncases=1, npatterns=2,
          partial=True, extra_edges=2, masses=False, case_rest=0.0, min_free=None, straight=False, simple_only=False,
          no_member_loads=False, wide=True):
    n = int(rng.integers(2, nmax + 1))
    lattice = bool(rng.random() < 0.4) if lattice is None else lattice
    L = float(10 ** rng.uniform(-0.3, 1.0))
    # now and then: lengths in mm or km, far from the origin, members side by side, almost upright, a node of its own, tiny or huge loads
    odd = rng.random(6) < 0.12 if wide else [False] * 6
    if wide == "metres":
        odd[0] = False
    if odd[0]:
        L = float(10 ** rng.choice([rng.uniform(2, 4.5), rng.uniform(-2, -0.5)]))
    pts = []
    while len(pts) < n:
        if lattice:
            p = rng.integers(-2, 3, 3).astype(float) * L
        elif rng.random() < 0.15 and pts:
            p = np.array(pts[int(rng.integers(len(pts)))]) + np.array([0, 0, rng.choice([-1, 1]) * L * rng.uniform(0.5, 2)])
        else:
            p = rng.uniform(-2, 2, 3) * L
        if odd[2] and pts and rng.random() < 0.4:
            p = np.array(pts[int(rng.integers(len(pts)))]) + np.array([*(rng.normal(size=2) * L * 10 ** rng.uniform(-5, -2)), rng.choice([-1, 1]) * L])
        if all(np.linalg.norm(p - q) > 0.4 * L for q in pts):
            pts.append(p)
    if odd[1]:
        away = rng.normal(size=3) * L * 10 ** rng.uniform(0, 3)
        pts = [p + away for p in pts]
    fmt = NAMES[int(rng.integers(len(NAMES)))]
    labels = rng.permutation(n * 3)[:n]
    nodes = [(fmt % int(labels[k]), [float(v) for v in pts[k]]) for k in range(n)]
    names = [m for m, _ in nodes]
    edges = []
    order = rng.permutation(n)
    for k in range(1, n):
        a = int(order[k])
        cand = [int(order[q]) for q in range(k)]
        dist = [np.linalg.norm(pts[a] - pts[c]) for c in cand]
        c = cand[int(np.argmin(dist))] if rng.random() < 0.5 else cand[int(rng.integers(len(cand)))]
        edges.append((a, c))
    for _ in range(int(rng.integers(0, extra_edges + 1))):
        if n < 3:
            break
        a, c = [int(v) for v in rng.permutation(n)[:2]]
        if (a, c) not in edges and (c, a) not in edges:
            edges.append((a, c))
    if odd[3]:
        edges.append(edges[int(rng.integers(len(edges)))])
    E0 = float(10 ** rng.uniform(3, 11.5))
    A0 = float(L * L * 10 ** rng.uniform(-3, -1.5))
    beams = []
    bfmt = NAMES[int(rng.integers(len(NAMES)))]
    blabels = rng.permutation(len(edges) * 3)
    for k in rng.permutation(len(edges)):
        a, c = edges[k]
        if rng.random() < 0.5:
            a, c = c, a
        A = A0 * rng.uniform(0.5, 2)
        r2 = (L * rng.uniform(0.03, 0.15)) ** 2
        r3 = (L * rng.uniform(0.03, 0.15)) ** 2
        b = dict(name=bfmt % int(blabels[k]), i=names[a], j=names[c],
                 kind="simple" if simple_only or rng.random() < 0.5 else "general",
                 E=E0 * float(rng.uniform(0.5, 2)), mu=float(rng.uniform(0.0, 0.45)) if rng.random() < 0.93 else 0.0,
                 A=float(A), I2=float(A * r2), I3=float(A * r3), J=float(A * (r2 + r3) * rng.uniform(0.2, 1)),
                 rho=float(10 ** rng.uniform(0, 4)), rot=0.0, rel=[False] * 12)
        if rng.random() < rotations:
            b["rot"] = float(rng.uniform(-np.pi, np.pi))
        if rng.random() < releases:
            b["rel"] = random_release(rng)
        beams.append(b)
    if rng.random() < 0.35:
        # members alike but for one thing, so that nothing can be taken over from another
        for b in beams[1:]:
            keep = [[], ["E"], ["mu"], ["A"], ["I2"], ["I3"], ["J"], ["rho"], ["rot"], ["rel"], ["kind"]][int(rng.integers(11))]
            b.update({k: v for k, v in beams[0].items() if k not in ["name", "i", "j"] + keep})
    spec = dict(nodes=nodes, beams=beams, rest=restraints(rng, names, pts, partial), patterns={}, cases={}, L=L)
    if masses:
        spec["mass"] = {m: nodal_mass(rng, A0 * L * 1000) for m in names if rng.random() < 0.4}
    if odd[4] and n > 2:
        pts.append(pts[0] + L * rng.uniform(3, 4, 3))
        spec["nodes"].insert(int(rng.integers(n + 1)), ("alone", [float(v) for v in pts[-1]]))
        names.append("alone")
        spec["rest"]["alone"] = [True] * 6
    if loads:
        tiny = 10 ** rng.uniform(-9, 2) if odd[5] else 1.0
        for p in range(npatterns):
            spec["patterns"]["P%d" % p] = pattern(rng, spec, E0 * tiny, A0, L, no_member_loads)
    for c in range(ncases):
        pats = [p for p in spec["patterns"] if rng.random() < 0.8] or list(spec["patterns"])[:1]
        spec["cases"]["case%d" % c] = dict(
            patterns={p: float(rng.choice([1.0, -1.0, rng.uniform(-3, 3), 0.0, 1000.0], p=[0.32, 0.32, 0.32, 0.02, 0.02])) for p in pats},
            rest=restraints(rng, names, pts, partial) if rng.random() < case_rest else {})
        if spec["cases"]["case%d" % c]["rest"] and "alone" in names:
            spec["cases"]["case%d" % c]["rest"]["alone"] = [True] * 6
    return whole(spec) if wide and rng.random() < 0.15 else spec


def whole(spec):
    """the same in whole numbers, where there is room for them"""
    pts = [[float(round(v)) for v in x] for _, x in spec["nodes"]]
    apart = min([np.linalg.norm(np.subtract(p, q)) for k, p in enumerate(pts) for q in pts[:k]] or [spec["L"]])
    out = dict(spec)
    if apart > 0.3 * spec["L"]:
        out["nodes"] = [(n, p) for (n, _), p in zip(spec["nodes"], pts)]
    r = lambda v: float(round(v)) if abs(v) >= 1 else v
    out["beams"] = [dict(b, E=r(b["E"]), rho=r(b["rho"])) for b in spec["beams"]]
    out["patterns"] = {p: {k: {n: [r(x) for x in f] for n, f in v[k].items()} for k in v} for p, v in spec["patterns"].items()}
    out["cases"] = {c: dict(v, patterns={p: r(f) for p, f in v["patterns"].items()}) for c, v in spec["cases"].items()}
    if "mass" in spec:
        out["mass"] = {n: [r(x) for x in v] for n, v in spec["mass"].items()}
    return out


def nodal_mass(rng, size):
    """mostly in all directions; also none that moves, none that turns, one component, nothing"""
    v = np.r_[rng.uniform(0.1, 5, 3), rng.uniform(0, 2, 3)] * size
    kind = int(rng.choice(5, p=[0.6, 0.12, 0.12, 0.12, 0.04]))
    if kind == 1:
        v[:3] = 0
    elif kind == 2:
        v[3:] = 0
    elif kind == 3:
        v[np.arange(6) != rng.integers(6)] = 0
    elif kind == 4:
        v[:] = 0
    return [float(x) for x in v]


def member_load(rng, v):
    """the eight numbers of a trapezoidal load, now and then of a simple shape: constant, cancelling, triangular, a single number"""
    v = list(v)
    kind = int(rng.choice(5, p=[0.7, 0.08, 0.08, 0.07, 0.07]))
    if kind == 4:
        k = int(rng.integers(8))
        return [x if q == k else 0.0 for q, x in enumerate(v)]
    for q in range(0, 8, 2):
        if kind == 1:
            v[q + 1] = v[q]
        elif kind == 2:
            v[q + 1] = -v[q]
        elif kind == 3:
            v[q + int(rng.integers(2))] = 0.0
    return v


def nodal_load(rng, v):
    """six numbers, now and then one alone, or adding up to nothing"""
    v = list(v)
    kind = int(rng.choice(4, p=[0.8, 0.08, 0.06, 0.06]))
    if kind == 1:
        k = int(rng.integers(6))
        return [x if q == k else 0.0 for q, x in enumerate(v[:6])] + v[6:]
    if kind >= 2:
        a, b = [int(x) for x in rng.permutation(3)[:2] + (0 if kind == 2 else 3)]
        v = [0.0] * 6 + v[6:] if v[a] == 0 else [v[a] if q == a else -v[a] if q == b else 0.0 for q in range(6)] + v[6:]
    return v


FAMILIES = [["case", "Case", "CASE", "cASE", "casE"], ["c", "c.1", "c.2", "c.d", "c.d.1", ".c"], ["1", "01", "001", "1.0", "1e0", "+1", "-1"],
            ["a", "a ", " a", "a  ", "\ta"], ["\u00e9", "e\u0301", "e", "E\u0301", "\u00c9"], ["c1", "c10", "c11", "c100", "1c", "c"], ["a-b", "a_b", "a b", "ab", "b-a", "a+b"],
            ["节点", "节点1", "节 点", "節點", "节点１"], ["0", "00", "False", "None", "nan", "-0"], ["x[1]", "x[0]", "x(1)", "x%d", "x*", "x?"]]


def alike(rng, n):
    """n different names that are easily taken for one another"""
    fam = FAMILIES[int(rng.integers(len(FAMILIES)))]
    out = [fam[k % len(fam)] + ("" if k < len(fam) else "·%d" % (k // len(fam))) for k in range(n)]
    return [out[int(k)] for k in rng.permutation(n)]


def relabel(rng, spec, p=0.3):
    """the same structure with nodes, members, patterns and cases under names alike"""
    if rng.random() >= p:
        return spec
    names = [n for n, _ in spec["nodes"]]
    nn, bb, pp, cc = [dict(zip(old, alike(rng, len(old)))) for old in (names, [b["name"] for b in spec["beams"]], list(spec["patterns"]), list(spec["cases"]))]
    keys = lambda d, m: {m[k]: v for k, v in d.items()}
    out = dict(spec, nodes=[(nn[n], x) for n, x in spec["nodes"]], beams=[dict(b, name=bb[b["name"]], i=nn[b["i"]], j=nn[b["j"]]) for b in spec["beams"]],
               rest=keys(spec["rest"], nn),
               patterns={pp[k]: dict(nodal=keys(v["nodal"], nn), dist=keys(v["dist"], bb), conc=keys(v["conc"], bb)) for k, v in spec["patterns"].items()},
               cases={cc[k]: dict(patterns=keys(v["patterns"], pp), rest=keys(v["rest"], nn)) for k, v in spec["cases"].items()})
    if "mass" in spec:
        out["mass"] = keys(spec["mass"], nn)
    return out


def tower(rng, nodes=(30, 120), npatterns=12, ncases=2, masses=False, sides=((1, 6), (1, 6), (2, 8))):
    """a regular building frame of many members, clamped at its foot, with many load patterns"""
    while True:
        k = [int(rng.integers(*v)) for v in sides]
        n = k[0] * k[1] * k[2]
        if nodes[0] <= n <= nodes[1]:
            break
    L = float(rng.uniform(2, 6))
    gx, gy, gz = [np.cumsum(rng.uniform(0.7, 1.3, v)) * L for v in k]
    ids = rng.permutation(2 * n)
    grid = [(a, b, c) for a in range(k[0]) for b in range(k[1]) for c in range(k[2])]
    grid = [grid[int(v)] for v in rng.permutation(n)]
    name = {g: str(int(ids[q])) for q, g in enumerate(grid)}
    nodes = [(name[g], [float(gx[g[0]]), float(gy[g[1]]), float(gz[g[2]])]) for g in grid]
    E0, A0 = float(10 ** rng.uniform(9, 11)), float(L * L * 10 ** rng.uniform(-3, -2))
    beams = []
    for g in grid:
        for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            h = tuple(x + y for x, y in zip(g, d))
            if h not in name or d != (0, 0, 1) and g[2] == 0:
                continue
            a, b = (g, h) if rng.random() < 0.5 else (h, g)
            A = A0 * rng.uniform(0.5, 2)
            r2, r3 = rng.uniform(0.03, 0.15, 2) ** 2 * L * L
            beams.append(dict(name="b%d" % len(beams), i=name[a], j=name[b], kind="simple" if rng.random() < 0.7 else "general", E=E0 * float(rng.uniform(0.5, 2)), mu=0.25,
                              A=float(A), I2=float(A * r2), I3=float(A * r3), J=float(A * (r2 + r3) * 0.5), rho=float(10 ** rng.uniform(2, 4)), rot=0.0,
                              rel=[False] * 12 if rng.random() < 0.9 else [False] * 4 + [True, False] + [False] * 4 + [False, True]))
    beams = [beams[int(v)] for v in rng.permutation(len(beams))]
    spec = dict(nodes=nodes, beams=beams, rest={name[g]: [True] * 6 for g in grid if g[2] == 0}, patterns={}, cases={}, L=L)
    if masses:
        spec["mass"] = {m: nodal_mass(rng, A0 * L * 1000) for m in name.values() if rng.random() < 0.4}
    for p in range(npatterns):
        spec["patterns"]["P%d" % p] = pattern(rng, spec, E0, A0, L)
    for c in range(ncases):
        spec["cases"]["case%d" % c] = dict(patterns={p: float(rng.uniform(-3, 3)) for p in spec["patterns"] if rng.random() < 0.7 or p == "P0"}, rest={})
    return spec


def random_release(rng):
    """a set of end releases that leaves the member itself statically stable"""
    while True:
        rel = [False] * 12
        for _ in range(int(rng.integers(1, 5))):
            k = int(rng.choice([3, 4, 5, 9, 10, 11, 4, 5, 10, 11, 0, 1, 2, 6, 7, 8]))
            rel[k] = True
        if release_stable(rel):
            return rel


def release_stable(rel):
    """the released ends can still be eliminated: every released DOF meets stiffness"""
    if rel[0] and rel[6] or rel[3] and rel[9]:
        return False
    for i, j, k, l in ((1, 5, 7, 11), (2, 4, 8, 10)):
        if sum([rel[i], rel[j], rel[k], rel[l]]) > 2 or (rel[i] and rel[k]):
            return False
    return True


def restraints(rng, names, pts, partial=True):
    n = len(names)
    rest = {}
    if n >= 3 and partial and rng.random() < 0.3:
        ks = [int(v) for v in rng.permutation(n)[:3]]
        for k in ks:
            rest[names[k]] = [True, True, True] + [bool(rng.random() < 0.3) for _ in range(3)]
    else:
        rest[names[int(rng.integers(n))]] = [True] * 6
    if partial:
        for k in range(n):
            if names[k] not in rest and rng.random() < 0.3 and len(rest) < n - 1:
                rest[names[k]] = [bool(rng.random() < 0.4) for _ in range(6)]
    items = list(rest.items())
    return dict(items[int(k)] for k in rng.permutation(len(items)))


def pattern(rng, spec, E0, A0, L, no_member_loads=False):
    F = E0 * A0 * 1e-4
    names = [m for m, _ in spec["nodes"]]
    pat = dict(nodal={}, dist={}, conc={})
    z = lambda k, s: [float(v) for v in rng.normal(size=k) * s * (rng.random(k) < 0.7)]
    for m in names:
        if rng.random() < 0.5:
            pat["nodal"][m] = nodal_load(rng, z(3, F) + z(3, F * L))
    if not no_member_loads:
        for b in spec["beams"]:
            if rng.random() < 0.4:
                pat["dist"][b["name"]] = member_load(rng, z(6, F / L) + z(2, F))
            if rng.random() < 0.4:
                r = float(rng.choice([rng.uniform(0, 1), 0.0, 1.0, 0.5], p=[0.7, 0.1, 0.1, 0.1]))
                pat["conc"][b["name"]] = nodal_load(rng, z(3, F) + z(3, F * L) + [r])
    if not (pat["nodal"] or pat["dist"] or pat["conc"]):
        pat["nodal"][names[int(rng.integers(len(names)))]] = [float(v) for v in np.r_[rng.normal(size=3) * F, rng.normal(size=3) * F * L]]
    return pat


# ---------------------------------------------------------------- construction
def spell(rng, fn, *args):
    """the call with all arguments, or leaving out zeros and falses it need not name (a point load not named stands in the middle)"""
    args = plain(rng, args)
    style = rng.random()
    if style < 0.5:
        return fn(*args)
    pars = list(inspect.signature(fn).parameters.values())[:len(args)]
    if len(pars) < len(args):
        return fn(*args)
    idle = [q.default is not q.empty and (a == 0.5 if q.name == "r" else not isinstance(a, str) and a == 0) for q, a in zip(pars, args)]
    if style < 0.75:
        n = len(args)
        while n and idle[n - 1]:
            n -= 1
        return fn(*args[:n])
    first = next((k for k, q in enumerate(pars) if q.default is not q.empty), len(args))
    return fn(*args[:first], **{q.name: a for q, a, z in list(zip(pars, args, idle))[first:] if not z})


def plain(rng, args):
    """whole numbers as such, half of the time"""
    if rng.random() < 0.5:
        return list(args)
    return [int(a) if isinstance(a, float) and abs(a) < 1e15 and a == int(a) else a for a in args]


def shuffled(spec):
    """some order of construction, always the same for the same structure"""
    return np.random.default_rng(zlib.crc32(repr((spec["nodes"], spec["beams"], spec["rest"], spec["cases"] if "cases" in spec else 0)).encode()))


def interleave(rng, *lists):
    """one order of all steps that keeps the order within each list; as they are, half of the time"""
    if rng.random() < 0.5:
        return [x for w in lists for x in w]
    owner = rng.permutation([k for k, w in enumerate(lists) for _ in w])
    its = [iter(w) for w in lists]
    return [next(its[int(k)]) for k in owner]


def members(spec, add_material, add_section):
    """name of the section of each general member; equal materials and sections are shared"""
    mats, secs, name = {}, {}, {}
    for b in spec["beams"]:
        if b["kind"] != "simple":
            mat = (b["rho"], b["E"], b["mu"])
            if mat not in mats:
                mats[mat] = "m" + b["name"]
                add_material(mats[mat], *mat, 1e-5)
            sec = (mats[mat], b["A"], b["A"], b["A"], b["I2"], b["I3"], b["J"], 1.0, 1.0)
            if sec not in secs:
                secs[sec] = "s" + b["name"]
                add_section(secs[sec], *sec)
            name[b["name"]] = secs[sec]
    return name


def build_model(spec):
    from hyperstatic.core.fe_model.model import Model
    model = Model()
    rng = shuffled(spec)
    how = np.random.default_rng(len(repr(spec["rest"])))
    sec = members(spec, lambda *a: model.add_isotropic_material(*plain(how, a)), model.add_beam_section_general)
    for name, p in spec["nodes"]:
        model.add_node(name, *plain(how, p))

    def add(b):
        if b["kind"] == "simple":
            return lambda: model.add_simple_beam(*plain(how, [b["name"], b["i"], b["j"], b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"]]))
        return lambda: model.add_beam(b["name"], b["i"], b["j"], sec[b["name"]])

    def details(b):
        if b.get("rot"):
            yield lambda: model.set_beam_rotation(b["name"], b["rot"])
        if any(b.get("rel") or []):
            yield lambda: spell(how, model.set_beam_releases, b["name"], *[bool(v) for v in b["rel"]])

    if rng.random() < 0.5:
        beams = [step for b in spec["beams"] for step in [add(b), *details(b)]]
    else:
        beams = [add(b) for b in spec["beams"]] + [step for k in rng.permutation(len(spec["beams"])) for step in list(details(spec["beams"][int(k)]))[::-1]]
    rest = [lambda n=n, v=v: spell(how, model.set_nodal_restraint, n, *v) for n, v in spec["rest"].items()]
    mass = [lambda n=n, v=v: model.set_nodal_mass(n, *plain(how, v)) for n, v in spec.get("mass", {}).items()]
    for step in interleave(rng, beams, rest, mass):
        step()
    return model


def build_patterns(spec):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    pats = {}
    how = np.random.default_rng(len(repr(spec["patterns"])))
    for p, v in spec["patterns"].items():
        lp = LoadPattern(p)
        for m, f in v["nodal"].items():
            spell(how, lp.set_nodal_load, m, *f)
        for b, f in v["dist"].items():
            spell(how, lp.set_beam_load_dist, b, *f)
        for b, f in v["conc"].items():
            spell(how, lp.set_beam_load_conc, b, *f)
        pats[p] = lp
    return pats


def build_cases(spec, pats):
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    cases = {}
    how = np.random.default_rng(len(repr(spec["cases"])))
    for c, v in spec["cases"].items():
        lc = StaticCase(c)
        for p, factor in v["patterns"].items():
            lc.add_pattern(pats[p], *plain(how, [factor]))
        for m, r in v["rest"].items():
            spell(how, lc.set_nodal_restraint, m, *r)
        cases[c] = lc
    return cases


kept = {}


def assemble(spec, path, fname="w.asb", model=None):
    """build, save the assembly in `path`; returns (model, cases, assembly)"""
    kept.clear()
    from hyperstatic.core.fe_model.assembly import Assembly
    model = build_model(spec) if model is None else model
    cases = build_cases(spec, build_patterns(spec))
    asb = Assembly(model, list(cases.values()))
    asb.save(path, fname)
    return model, cases, asb


def solve_core(spec, path, case, fname="w.asb", asb=True):
    """displacements stored by the static solver for one case, as a flat vector"""
    from hyperstatic.core.fe_solver.static import StaticSolver
    if asb:
        assemble(spec, path, fname)
        solver = StaticSolver(path, fname)
    else:                                        # one solver for a case after the other, or a new one
        s = os.stat(os.path.join(path, fname))
        at = (path, fname, s.st_mtime_ns, s.st_ino, s.st_size)
        solver = kept.get(at) or StaticSolver(path, fname)
        kept.clear()
        if zlib.crc32(repr((spec["nodes"], case)).encode()) % 3:
            kept[at] = solver
    solver.solve_linear(case)
    return np.load(os.path.join(path, case + ".d.npy"))


def build_api(spec, path, m=None, api=None):
    """the same structure through the Api facade; `m` checks the returned flags"""
    if api is None:
        from hyperstatic.core import Api
        api = Api(path)

    def ok(what, r):
        if m is not None:
            m.true("api-reports-success", r is True, "%s returned %r" % (what, r))
    rng = shuffled(spec)
    how = np.random.default_rng(len(repr(spec["beams"])))
    call = lambda what, *p: ok(what, spell(how, getattr(api, what), *p))
    steps = lambda rows: [lambda r=r: call(*r) for r in rows]
    assert not any(b.get("rot") for b in spec["beams"])
    model = []
    sec = members(spec, lambda *p: model.append(("add_isotropic_material", *p)), lambda *p: model.append(("add_beam_section_general", *p)))
    model += [("add_node", n, *p) for n, p in spec["nodes"]]
    release = [("set_beam_release", b["name"], *[bool(v) for v in b["rel"]]) for b in spec["beams"] if any(b.get("rel") or [])]
    late = rng.random() < 0.5
    for b in spec["beams"]:
        if b["kind"] == "simple":
            model.append(("add_simple_beam", b["name"], b["i"], b["j"], b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"]))
        else:
            model.append(("add_beam", b["name"], b["i"], b["j"], sec[b["name"]]))
        if not late:
            model += [r for r in release if r[1] == b["name"]]
    model += [release[int(k)] for k in rng.permutation(len(release))] if late else []
    model += [("set_nodal_restraint", n, *v) for n, v in spec["rest"].items()] + [("set_nodal_mass", n, *v) for n, v in spec.get("mass", {}).items()]
    cases, loads = [], []
    for p, v in spec["patterns"].items():
        cases.append(("add_loadpattern", p))
        loads += [("set_nodal_load", p, n, *f) for n, f in v["nodal"].items()] + [("set_beam_load_distributed", p, b, *f) for b, f in v["dist"].items()]
        loads += [("set_beam_load_concentrated", p, b, *f) for b, f in v["conc"].items()]
    for c, v in spec["cases"].items():
        cases.append(("add_static_case", c))
        cases += [("add_case_pattern", c, p, factor) for p, factor in v["patterns"].items()] + [("set_loadcase_nodal_restraint", c, n, *r) for n, r in v["rest"].items()]
    # loads before or after their pattern joined its cases, cases before, after or between nodes and members
    first, rest = [r for r in cases if r[0] == "add_loadpattern"], [r for r in cases if r[0] != "add_loadpattern"]
    for step in interleave(rng, steps(model), steps(first + interleave(rng, loads, rest))):
        step()
    return api


def spoil(*answers):
    """what a caller may do with what it was handed: write to it"""
    for a in answers:
        if isinstance(a, np.ndarray):
            if a.flags.writeable and a.dtype != object:
                a[...] = ~a if a.dtype == bool else a + 1
        elif isinstance(a, dict):
            spoil(*a.values())
            a.clear()
        elif isinstance(a, (list, tuple)):
            spoil(*a)
            if isinstance(a, list):
                a.clear()
