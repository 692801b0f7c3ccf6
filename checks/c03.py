"""C03: the solution does not depend on how the same structure is described."""
import copy
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw, imports
from checks.c02 import scales

PROP = "C03"
RULE = ("random frames solved twice by the code under test: as generated, and after a change of description that leaves the structure the same "
        "(translation, rotation about Z, general rotation of doubly symmetric members, renaming, reordering, swapping member ends, splitting "
        "members, changing between the two member types, change of units); non-trivial: the field moves; distinct by spec and transformation")
MUST_SEE = ["oracle:translation", "oracle:rotation-z", "oracle:rotation-any", "oracle:renaming", "oracle:reversal", "oracle:subdivision", "oracle:member-type", "oracle:units"]
ASSUMPTIONS = ["equal up to 1e-8 of each DOF's natural scale plus conditioning; frames with a condition number above 1e7 are skipped"]
TOL = 1e-8


def solve(spec, m):
    c = list(spec["cases"])[0]
    return gen.solve_core(spec, m.tmp(), c)[0]


def by_node(spec, d):
    return {n: d[6 * k:6 * k + 6] for k, (n, _) in enumerate(spec["nodes"])}


def check(m, oracle, frame, spec, d, got, rename=None, R=None, detail=""):
    """got: displacements by new name; the expected are those of d turned by R"""
    sc = scales(frame, None, d)
    for c in spec["cases"].values():
        frame.solve(c)
    W = np.kron(np.eye(2), R) if R is not None else np.eye(6)
    for k, (n, _) in enumerate(spec["nodes"]):
        lim = np.max(sc[6 * k:6 * k + 3]) * np.ones(6)
        lim[3:] = np.max(sc[6 * k + 3:6 * k + 6])
        m.close(oracle, got[rename[n] if rename else n], W @ d[6 * k:6 * k + 6], TOL + 3e-13 * frame.cond, lim, "node %s %s" % (n, detail))
    if np.any(d):
        m.distinct(oracle, spec, detail)


def vertical(spec, b):
    p = dict(spec["nodes"])
    return max(abs(p[b["i"]][0] - p[b["j"]][0]), abs(p[b["i"]][1] - p[b["j"]][1])) < 1e-9


def translation(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.2)
    m.describe(spec=spec)
    d = solve(spec, m)
    new = copy.deepcopy(spec)
    # a shift by multiples of a power of two that keeps the coordinates' differences accurate
    t = np.array([float(v) for v in rng.integers(-8, 9, 3)]) * spec["L"]
    new["nodes"] = [(n, [float(x) for x in np.array(p) + t]) for n, p in spec["nodes"]]
    if any(vertical(spec, a) != vertical(new, a) for a in spec["beams"]):
        raise Skip()
    check(m, "translation", frame, spec, d, by_node(new, solve(new, m)), detail=t.tolist())


def turn(spec, R, loads_only_nodal=False):
    new = copy.deepcopy(spec)
    W = np.kron(np.eye(2), R)
    new["nodes"] = [(n, [float(x) for x in R @ np.array(p)]) for n, p in spec["nodes"]]
    for p in new["patterns"].values():
        p["nodal"] = {n: [float(x) for x in W @ np.array(v)] for n, v in p["nodal"].items()}
    return new


def all_or_none(spec):
    """supports that hold all translations, all rotations or neither are the same after any rotation"""
    for rest in [spec["rest"]] + [c["rest"] for c in spec["cases"].values()]:
        for n, v in rest.items():
            v[:3] = [any(v[:3])] * 3
            v[3:] = [any(v[3:])] * 3


def rotation_z(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.2)
    all_or_none(spec)
    a = float(rng.choice([rng.uniform(-np.pi, np.pi), np.pi / 2, np.pi, -np.pi / 2]))
    c, s = np.cos(a), np.sin(a)
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    new = turn(spec, R)
    for b, b2 in zip(spec["beams"], new["beams"]):
        if vertical(spec, b):           # their axes refer to X, which did not turn: turn them by hand
            up = 1 if dict(spec["nodes"])[b["j"]][2] > dict(spec["nodes"])[b["i"]][2] else -1
            b2["rot"] = b.get("rot", 0.0) + up * a
        if vertical(spec, b) != vertical(new, b2):
            raise Skip()
    frame = ref.Frame(spec)
    m.describe(spec=spec, angle=a)
    d = solve(spec, m)
    check(m, "rotation-z", frame, spec, d, by_node(new, solve(new, m)), R=R, detail=a)


def rotation_any(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, no_member_loads=True)
    all_or_none(spec)
    for b in spec["beams"]:
        b["I3"] = b["I2"]
    for p in spec["patterns"].values():     # axial and torsional member loads turn with the member
        for b in spec["beams"]:
            if rng.random() < 0.5:
                F = b["E"] * b["A"] * 1e-4
                v = [float(x) for x in rng.normal(size=4) * F]
                p["dist"][b["name"]] = [v[0], v[1], 0.0, 0.0, 0.0, 0.0, v[2], v[3]]
                p["conc"][b["name"]] = [v[1], 0.0, 0.0, v[3], 0.0, 0.0, float(rng.uniform(0, 1))]
    q = rng.normal(size=4)
    w, x, y, z = q / np.linalg.norm(q)
    R = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                  [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                  [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])
    if rng.random() < 0.3:      # a permutation of the axes sends members to and from the vertical
        R = np.eye(3)[[int(v) for v in np.roll(np.arange(3), int(rng.integers(3)))]]
    frame = ref.Frame(spec)
    m.describe(spec=spec, R=R)
    d = solve(spec, m)
    new = turn(spec, R)
    check(m, "rotation-any", frame, spec, d, by_node(new, solve(new, m)), R=R, detail=R.tolist())


def renaming(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.2, case_rest=0.5)
    m.describe(spec=spec)
    d = solve(spec, m)
    fmt = gen.NAMES[int(rng.integers(len(gen.NAMES)))]
    k = rng.permutation(4 * len(spec["nodes"]))
    rn = {n: fmt % int(k[q]) for q, (n, _) in enumerate(spec["nodes"])}
    rb = {b["name"]: "e%d" % int(q) for b, q in zip(spec["beams"], rng.permutation(99))}
    sh = lambda items: dict(list(items)[int(q)] for q in rng.permutation(len(items)))
    new = copy.deepcopy(spec)
    new["nodes"] = [(rn[n], p) for n, p in spec["nodes"]]
    new["nodes"] = [new["nodes"][int(q)] for q in rng.permutation(len(new["nodes"]))]
    new["beams"] = [dict(b, name=rb[b["name"]], i=rn[b["i"]], j=rn[b["j"]]) for b in spec["beams"]]
    new["beams"] = [new["beams"][int(q)] for q in rng.permutation(len(new["beams"]))]
    new["rest"] = sh([(rn[n], v) for n, v in spec["rest"].items()])
    new["patterns"] = sh([(p, dict(nodal=sh([(rn[n], f) for n, f in v["nodal"].items()]), dist=sh([(rb[n], f) for n, f in v["dist"].items()]),
                                   conc=sh([(rb[n], f) for n, f in v["conc"].items()]))) for p, v in spec["patterns"].items()])
    new["cases"] = {c: dict(patterns=sh(list(v["patterns"].items())), rest=sh([(rn[n], r) for n, r in v["rest"].items()])) for c, v in spec["cases"].items()}
    check(m, "renaming", frame, spec, d, by_node(new, solve(new, m)), rename=rn, detail=[rn, [b["name"] for b in new["beams"]]])


def reversal(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.4)
    new = copy.deepcopy(spec)
    which = [b["name"] for b in spec["beams"] if rng.random() < 0.6] or [spec["beams"][0]["name"]]
    for b in new["beams"]:
        if b["name"] in which:
            b["i"], b["j"] = b["j"], b["i"]
            b["rel"] = b["rel"][6:] + b["rel"][:6]
            b["rot"] = -b["rot"]
    for p in new["patterns"].values():      # reversed axes: 1 and 3 flip, 2 stays
        for n in which:
            if n in p["dist"]:
                pi, pj, q2i, q2j, q3i, q3j, ti, tj = p["dist"][n]
                p["dist"][n] = [-pj, -pi, q2j, q2i, -q3j, -q3i, -tj, -ti]
            if n in p["conc"]:
                a, b, c, e, f, g, r = p["conc"][n]
                p["conc"][n] = [-a, b, -c, -e, f, -g, 1 - r]
    m.describe(spec=spec, reversed=which)
    d = solve(spec, m)
    check(m, "reversal", frame, spec, d, by_node(new, solve(new, m)), detail=which)


def subdivision(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.3)
    new = copy.deepcopy(spec)
    pos = dict(spec["nodes"])
    new["beams"] = []
    cut = {}
    for b in spec["beams"]:
        if rng.random() < 0.5 and len(cut) < 3:
            r = float(rng.uniform(0.15, 0.85))
            A, B = np.array(pos[b["i"]]), np.array(pos[b["j"]])
            mid = "cut" + b["name"]
            new["nodes"].insert(int(rng.integers(len(new["nodes"]) + 1)), (mid, [float(v) for v in A + r * (B - A)]))
            one = dict(b, name=b["name"] + "/1", j=mid, rel=b["rel"][:6] + [False] * 6)
            two = dict(b, name=b["name"] + "/2", i=mid, rel=[False] * 6 + b["rel"][6:])
            if vertical(spec, b) != vertical(dict(nodes=new["nodes"]), one) or vertical(spec, b) != vertical(dict(nodes=new["nodes"]), two):
                raise Skip()
            if sum(b["rel"]) and (not gen.release_stable(one["rel"]) or not gen.release_stable(two["rel"])):
                new["beams"].append(b)
                new["nodes"] = [x for x in new["nodes"] if x[0] != mid]
                continue
            cut[b["name"]] = r
            new["beams"] += [one, two]
        else:
            new["beams"].append(b)
    if not cut:
        raise Skip()
    for p in new["patterns"].values():
        for n, r in cut.items():
            if n in p["dist"]:
                v = p["dist"].pop(n)
                mid = [v[2 * k] * (1 - r) + v[2 * k + 1] * r for k in range(4)]
                p["dist"][n + "/1"] = sum([[v[2 * k], mid[k]] for k in range(4)], [])
                p["dist"][n + "/2"] = sum([[mid[k], v[2 * k + 1]] for k in range(4)], [])
            if n in p["conc"]:
                v = p["conc"].pop(n)
                if v[6] <= r:
                    p["conc"][n + "/1"] = v[:6] + [v[6] / r]
                else:
                    p["conc"][n + "/2"] = v[:6] + [(v[6] - r) / (1 - r)]
    f2 = ref.Frame(new)
    if any(not f2.solve(c)[2] < 1e7 for c in new["cases"].values()):
        raise Skip()
    m.describe(spec=spec, cut=cut)
    d = solve(spec, m)
    check(m, "subdivision", frame, spec, d, by_node(new, solve(new, m)), detail=cut)


def member_type(rng, m):
    """a member given by its numbers and one given by material and section are the same member"""
    spec, frame = draw(rng, m, rotations=0.3, releases=0.3)
    new = copy.deepcopy(spec)
    for b in new["beams"]:
        b["kind"] = "general" if b["kind"] == "simple" else "simple"
    m.describe(spec=spec)
    d = solve(spec, m)
    check(m, "member-type", frame, spec, d, by_node(new, solve(new, m)))


def units(rng, m):
    """length in another unit, force in another unit: displacements scale, rotations stay"""
    spec, frame = draw(rng, m, rotations=0.3, releases=0.2)
    a, f = float(10 ** rng.uniform(-2, 2)), float(10 ** rng.uniform(-2, 2))
    new = copy.deepcopy(spec)
    new["nodes"] = [(n, [x * a for x in p]) for n, p in spec["nodes"]]
    if any(vertical(spec, b) != vertical(new, b2) for b, b2 in zip(spec["beams"], new["beams"])):
        raise Skip()
    for b in new["beams"]:
        b.update(E=b["E"] * f / a**2, A=b["A"] * a**2, I2=b["I2"] * a**4, I3=b["I3"] * a**4, J=b["J"] * a**4)
    for p in new["patterns"].values():
        p["nodal"] = {n: [x * f for x in v[:3]] + [x * f * a for x in v[3:]] for n, v in p["nodal"].items()}
        p["dist"] = {n: [x * f / a for x in v[:6]] + [x * f for x in v[6:]] for n, v in p["dist"].items()}
        p["conc"] = {n: [x * f for x in v[:3]] + [x * f * a for x in v[3:6]] + [v[6]] for n, v in p["conc"].items()}
    m.describe(spec=spec, length=a, force=f)
    d = solve(spec, m)
    d2 = solve(new, m).reshape(-1, 6).copy()
    d2[:, :3] /= a
    check(m, "units", frame, spec, d, by_node(new, d2.reshape(-1)), detail=[a, f])


KINDS = {"translation": (translation, 360, 2880), "rotation_z": (rotation_z, 480, 3840), "rotation_any": (rotation_any, 480, 3840),
         "renaming": (renaming, 480, 3840), "reversal": (reversal, 600, 4800), "subdivision": (subdivision, 600, 4800),
         "member_type": (member_type, 360, 2880), "units": (units, 360, 2880)}
