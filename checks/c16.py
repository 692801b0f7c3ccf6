"""C16: end releases act as hinges."""
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw, compare, well_posed

PROP = "C16"
RULE = ("random members and frames with random sets of released end freedoms (forces and moments, one or several per member, stable), at element level and solved through the core "
        "classes and the Api; non-trivial: a freedom with stiffness is released; distinct by spec")
MUST_SEE = ["oracle:condensed-stiffness", "oracle:condensed-load", "oracle:released-freedom-has-no-stiffness", "oracle:displacement-equals-reference", "oracle:released-end-carries-nothing",
            "oracle:hinge-on-either-side", "oracle:textbook-end-forces", "oracle:release-without-effect", "oracle:last-setting-counts", "oracle:released-both-ends-is-a-truss",
            "executions:core", "executions:api", "oracle:releases-since-it-was-added", "added again after a release", "several released in one plane", "force released", "torsion released"]
ASSUMPTIONS = ["reference frames carry an unknown of their own for each released freedom (lib/hv/ref.py)", "sets of releases that leave the member itself unstable are left out"]


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.static, hyperstatic.core.fe_post.beam, hyperstatic.core.fe_post.node


def note(m, rel):
    r = np.array(rel)
    if r[[1, 5, 7, 11]].sum() > 1 or r[[2, 4, 8, 10]].sum() > 1:
        m.event("several released in one plane")
    if r[[0, 1, 2, 6, 7, 8]].any():
        m.event("force released")
    if r[[3, 9]].any():
        m.event("torsion released")


def schur(k, f, rel):
    """eliminate the released freedoms at once"""
    r = np.flatnonzero(rel)
    n = np.setdiff1d(np.arange(12), r)
    K, F = np.zeros((12, 12)), np.zeros(12)
    X = np.linalg.solve(k[np.ix_(r, r)], np.column_stack([k[np.ix_(r, n)], f[r]])) if len(r) else np.zeros((0, len(n) + 1))
    K[np.ix_(n, n)] = k[np.ix_(n, n)] - k[np.ix_(n, r)] @ X[:, :-1]
    F[n] = f[n] - k[np.ix_(n, r)] @ X[:, -1]
    return K, F


def element(rng, m):
    spec = gen.frame(rng, nmax=2, loads=False, ncases=0, rotations=0.3)
    b = spec["beams"][0]
    b["rel"] = gen.random_release(rng)
    note(m, b["rel"])
    m.describe(beam=b, nodes=spec["nodes"])
    md = gen.build_model(spec)
    fr = ref.Frame(spec)
    k, l = fr.geo[b["name"]]["k"], fr.geo[b["name"]]["l"]
    f = rng.normal(size=12) * b["E"] * b["A"] * 1e-4 * np.tile([1, 1, 1, l, l, l], 2)
    keep = f.copy()
    K, F = schur(k, f, b["rel"])
    s = np.sqrt(np.diag(k))
    r = np.array(b["rel"])
    dense = lambda x: np.asarray(x.todense() if hasattr(x, "todense") else x, dtype=float)
    for got in (dense(md.get_beam_K(b["name"], condensate=True)), dense(md.get_beam_condensated_matrix(b["name"], md.get_beam_K(b["name"])))):
        m.close("condensed-stiffness", got, K, 1e-9, np.outer(s, s))
        m.close("released-freedom-has-no-stiffness", np.r_[got[r].ravel(), got[:, r].ravel()], np.zeros(24 * r.sum()), 1e-9,
                np.r_[np.outer(s, s)[r].ravel(), np.outer(s, s)[:, r].ravel()])
    c = float(10 ** rng.uniform(-2, 2))
    m.close("condensed-stiffness", dense(md.get_beam_condensated_matrix(b["name"], md.get_beam_K(b["name"]) * c)), c * K, 1e-9, c * np.outer(s, s), "another matrix")
    got = dense(md.get_beam_condensated_f(b["name"], f)).ravel()
    fs = s * np.linalg.norm(f / s)
    m.close("condensed-load", got, F, 1e-9, fs)
    m.close("condensed-load", dense(md.get_beam_condensated_f(b["name"], f * c)).ravel(), c * F, 1e-9, c * fs, "another load")
    m.true("arguments-untouched", np.array_equal(f, keep), "the load vector passed in was changed")
    m.close("full-stiffness-unchanged", dense(md.get_beam_K(b["name"])), k, 1e-11, np.outer(s, s))
    m.distinct(b, spec["nodes"])


def solve(m, spec, path, case):
    from hyperstatic.core.fe_post.beam import BeamResultResolver
    d = gen.solve_core(spec, path, case)[0]
    return d, BeamResultResolver(path, "w.asb")


def core(rng, m):
    spec, frame = draw(rng, m, releases=0.8, rotations=0.3, ncases=1, case_rest=0.3)
    if not any(any(b["rel"]) for b in spec["beams"]):
        raise Skip()
    m.describe(spec=spec)
    d, br = solve(m, spec, m.tmp(), "case0")
    judge(m, spec, frame, d, lambda b: br.resolve_beam_end_force(b, "case0"))


def api(rng, m):
    spec, frame = draw(rng, m, releases=0.8, ncases=1, case_rest=0.3)
    if not any(any(b["rel"]) for b in spec["beams"]):
        raise Skip()
    m.describe(spec=spec)
    a = gen.build_api(spec, os.path.join(m.tmp(), "w"), m)
    m.same("api-reports-success", (a.assemble(), a.solve_static("case0")), (True, True))
    d = np.hstack([a.result_get_nodal_displacement(n, "case0") for n in frame.names])
    judge(m, spec, frame, d, lambda b: a.result_get_beam_end_force(b, "case0"))


def judge(m, spec, frame, d, endforce):
    case = spec["cases"]["case0"]
    K = frame.K()
    u, sc, cond = frame.solve(case, K)
    n = frame.n
    lmax = max(g["l"] for g in frame.geo.values())
    unit = np.array([1, 1, 1, lmax, lmax, lmax])
    size = 1e-300
    for p, k in case["patterns"].items():
        size += sum(np.sum(np.abs(k * np.array(v)) / unit) for v in spec["patterns"][p]["nodal"].values())
    size += sum(np.sum(np.abs(frame.case_member_f(case, b)) / np.tile(unit, 2)) for b in frame.geo)
    # no finer than rounding of the applied loads
    free = np.setdiff1d(np.arange(n), frame.fixed(case))
    sc = sc[:n].copy()
    with np.errstate(all="ignore"):
        flex = 1 / np.sqrt(np.diag(K)[free])
    sc[free] += flex * np.sum(flex * size * np.tile(unit, n // 6)[free])
    tol = 1e-9 + 1e-12 * cond
    m.close("displacement-equals-reference", d, u[:n], tol, sc + 1e-300)
    y = np.max(sc * np.sqrt(np.abs(np.diag(K)[:n])))
    for b, g in frame.geo.items():
        q = np.asarray(endforce(b), dtype=float).ravel()
        s = np.sqrt(np.diag(g["k"])) * y + np.abs(g["k"]) @ np.abs(frame.gather(b) @ u) + np.abs(frame.case_member_f(case, b)) + size * np.tile(unit, 2)
        m.close("end-force-equals-reference", q, frame.end_force(case, b, u), tol, s, b)
        if np.any(g["rel"]):
            note(m, g["rel"])
            m.close("released-end-carries-nothing", q[g["rel"]], np.zeros(g["rel"].sum()), tol, s[g["rel"]], b)
    m.distinct(spec["nodes"], spec["beams"], spec["patterns"], case)


def hinge(rng, m):
    """between two members in line, a freedom released on one side or on the other is the same hinge"""
    spec, frame = draw(rng, m, ncases=1, rotations=0.3)
    b = spec["beams"][int(rng.integers(len(spec["beams"])))]
    x = float(rng.uniform(0.2, 0.8))
    p = (1 - x) * frame.xyz[b["i"]] + x * frame.xyz[b["j"]]
    if np.max(np.abs((frame.xyz[b["i"]] - frame.xyz[b["j"]])[:2])) < 1e-5 * frame.geo[b["name"]]["l"] or "mid" in frame.id:
        raise Skip()
    rel = [bool(v) for v in rng.random(6) < 0.35]
    if not any(rel) or (rel[1] and rel[5]) or (rel[2] and rel[4]):
        raise Skip()
    none = [False] * 6
    both = []
    for side in (0, 1):
        first = dict(b, name="first", j="mid", rel=none + rel if side == 0 else none * 2)
        second = dict(b, name="second", i="mid", rel=rel + none if side == 1 else none * 2)
        s = dict(spec, nodes=spec["nodes"] + [("mid", [float(v) for v in p])], beams=[w for w in spec["beams"] if w is not b] + [first, second])
        s["patterns"] = {k: dict(v, dist={c: w for c, w in v["dist"].items() if c != b["name"]}, conc={c: w for c, w in v["conc"].items() if c != b["name"]}) for k, v in spec["patterns"].items()}
        both.append(s)
    frames = [well_posed(s) for s in both]
    if None in frames:
        raise Skip()
    m.describe(spec=both[0], released=rel)
    note(m, none + rel)
    out = []
    for s, fr in zip(both, frames):
        d, br = solve(m, s, m.tmp(), "case0")
        u, sc, cond = fr.solve(s["cases"]["case0"])
        out.append((d, sc[:fr.n], cond, br))
    tol = 1e-8 + 1e-11 * (out[0][2] + out[1][2])
    y = (out[0][1] + out[1][1])[:-6]
    scale = np.tile([np.max(y.reshape(-1, 6)[:, :3]) + np.max(y.reshape(-1, 6)[:, 3:]) * spec["L"]] * 3 + [np.max(y.reshape(-1, 6)[:, :3]) / spec["L"] + np.max(y.reshape(-1, 6)[:, 3:])] * 3, len(y) // 6)
    m.close("hinge-on-either-side", out[0][0][:-6], out[1][0][:-6], tol, scale + 1e-300)
    m.distinct(both[0]["nodes"], both[0]["beams"], rel)


def textbook(rng, m):
    """built-in and hinged members under uniform and mid-span loads: end forces from the handbook"""
    l = float(10 ** rng.uniform(-0.5, 1.2))
    w, P = float(rng.normal() * 100), float(rng.normal() * 100)
    z = float(rng.normal() * l)
    a = rng.uniform(0, 2 * np.pi)
    i, j = np.array([rng.normal(), rng.normal(), z]), None
    if rng.random() < 0.3:
        d = np.array([0, 0, rng.choice([-1.0, 1])])
    else:
        d = np.array([np.cos(a), np.sin(a), rng.choice([0.0, rng.normal()])])
        d /= np.linalg.norm(d)
    j = i + d * l
    axis = int(rng.choice([2, 3]))
    ends = str(rng.choice(["start", "end", "both"]))
    k = 5 if axis == 2 else 4
    rel = [False] * 12
    if ends != "end":
        rel[k] = True
    if ends != "start":
        rel[6 + k] = True
    b = dict(name="b", i="a", j="z", kind=str(rng.choice(["simple", "general"])), E=2e11, mu=0.3, A=0.01, I2=3e-5, I3=5e-5, J=1e-5, rho=1.0, rot=float(rng.choice([0, rng.uniform(-3, 3)])), rel=rel)
    dist = [0, 0, w, w, 0, 0, 0, 0] if axis == 2 else [0, 0, 0, 0, w, w, 0, 0]
    conc = [0, P, 0, 0, 0, 0, 0.5] if axis == 2 else [0, 0, P, 0, 0, 0, 0.5]
    spec = dict(nodes=[("a", i.tolist()), ("z", j.tolist())], beams=[b], rest={"a": [True] * 6, "z": [True] * 6}, L=l,
                patterns={"p": dict(nodal={}, dist={"b": dist}, conc={"b": conc})}, cases={"c": dict(patterns={"p": 1.0}, rest={})})
    # everything supported: leave one torsion free so that there is something to solve
    spec["rest"]["z"] = [True, True, True, False, True, True] if abs(d[0]) > 0.5 else [True, True, True, True, False, True] if abs(d[1]) > 0.5 else [True] * 5 + [False]
    spec["rest"]["a"] = [True] * 6
    m.describe(spec=spec)
    fr = well_posed(spec)
    if fr is None:
        raise Skip()
    path = m.tmp()
    d_, br = solve(m, spec, path, "c")
    q = np.asarray(br.resolve_beam_end_force("b", "c"), dtype=float).ravel()
    sh = [-(w * l / 2 + P / 2)] * 2
    M = {"both": 0.0, "start": w * l * l / 8 + 3 * P * l / 16, "end": w * l * l / 8 + 3 * P * l / 16}[ends]
    if abs(abs(d[0]) + abs(d[1]) + abs(d[2]) - 1) > 1e-9:
        # the free rotation is not about the member's axis alone: the released end only is exact
        m.close("released-end-carries-nothing", q[np.array(rel)], np.zeros(sum(rel)), 1e-8, abs(w) * l * l + abs(P) * l)
        return
    want = np.zeros(12)
    o = axis - 1
    want[[o, 6 + o]] = sh
    add = M / l                                 # the built-in end takes M / l more
    if ends == "start":
        want[o] += add
        want[6 + o] -= add
        want[6 + k] = M if axis == 2 else -M
    elif ends == "end":
        want[o] -= add
        want[6 + o] += add
        want[k] = -M if axis == 2 else M
    s = np.tile([1, 1, 1, l, l, l], 2) * (abs(w) * l + abs(P))
    m.close("textbook-end-forces", q, want, 1e-9, s)
    m.distinct(spec)


def truss(rng, m):
    """all rotations of bending released at both ends: the member resists along its axis (and in torsion) only; releasing what carries nothing changes nothing; last setting counts"""
    spec, frame = draw(rng, m, ncases=1, rotations=0.3, nmax=5)
    b = spec["beams"][int(rng.integers(len(spec["beams"])))]
    rel = [False, False, False, False, True, True] * 2
    model = gen.build_model(spec)
    m.describe(spec=spec, beam=b["name"])
    dense = lambda x: np.asarray(x.todense() if hasattr(x, "todense") else x, dtype=float)
    before = {c["name"]: dense(model.get_beam_K(c["name"], condensate=True)) for c in spec["beams"]}
    model.set_beam_releases(b["name"], *gen.random_release(rng))
    model.set_beam_releases(b["name"], *rel)
    K = dense(model.get_beam_K(b["name"], condensate=True))
    g = frame.geo[b["name"]]
    w = np.zeros((12, 12))
    for o, k in ((0, b["E"] * b["A"] / g["l"]), (3, b["E"] / 2 / (1 + b["mu"]) * b["J"] / g["l"])):
        w[np.ix_([o, o + 6], [o, o + 6])] = k * np.array([[1, -1], [-1, 1]])
    s = np.sqrt(np.diag(g["k"]))
    m.close("released-both-ends-is-a-truss", K, w, 1e-9, np.outer(s, s))
    for c in spec["beams"]:
        if c is not b:
            m.true("last-setting-counts", np.array_equal(before[c["name"]], dense(model.get_beam_K(c["name"], condensate=True))), "the release of %s changed %s" % (b["name"], c["name"]))
    model.set_beam_releases(b["name"], *[False] * 12)
    m.close("last-setting-counts", dense(model.get_beam_K(b["name"], condensate=True)), before[b["name"]], 1e-12, np.outer(s, s))
    # a stub at a free end carries nothing
    i = frame.names[int(rng.integers(frame.n // 6))]
    p = frame.xyz[i] + rng.normal(size=3) * spec["L"] * 5
    ends = ("stub", i) if rng.random() < 0.5 else (i, "stub")
    stub = dict(b, name="the stub", i=ends[0], j=ends[1], rel=[False] * 12)
    plain = dict(spec, nodes=spec["nodes"] + [("stub", p.tolist())], beams=spec["beams"] + [stub], rest=dict(spec["rest"]))
    one = int(rng.choice([3, 4, 5])) + (0 if ends[0] == "stub" else 6)
    released = dict(plain, beams=spec["beams"] + [dict(stub, rel=[k == one for k in range(12)])])
    hold = dict(plain["cases"]["case0"])
    rest = hold["rest"] or spec["rest"]
    hold["rest"] = dict(rest, stub=[False, False, False, True, True, True])
    free = dict(rest, stub=[False] * 6)
    plain = dict(plain, cases={"case0": dict(hold, rest=free)})
    released = dict(released, cases={"case0": dict(hold)})
    f1, f2 = well_posed(plain), well_posed(released)
    if f1 is None or f2 is None:
        raise Skip()
    # with its rotations held, the stub must be free to turn against its node: only for the released one about its own local axis
    d1, _ = solve(m, plain, m.tmp(), "case0")
    u1, sc1, c1 = f1.solve(plain["cases"]["case0"])
    rel2 = dict(plain, beams=spec["beams"] + [dict(stub, rel=[k in (np.array([3, 4, 5]) + (0 if ends[0] == "stub" else 6)) for k in range(12)])], cases={"case0": dict(hold)})
    f3 = well_posed(rel2)
    if f3 is None:
        raise Skip()
    d2, _ = solve(m, rel2, m.tmp(), "case0")
    u2, sc2, c2 = f3.solve(rel2["cases"]["case0"])
    y = (sc1[:f1.n] + sc2[:f3.n]).reshape(-1, 6)
    t, r = np.max(y[:, :3]) + np.max(y[:, 3:]) * spec["L"], np.max(y[:, :3]) / spec["L"] + np.max(y[:, 3:])
    m.close("release-without-effect", d2[:-3], d1[:-3], 1e-8 + 1e-11 * (c1 + c2), np.tile([t, t, t, r, r, r], len(d1) // 6)[:-3] + 1e-300)
    m.distinct(spec["nodes"], spec["beams"], b["name"])


def anew(rng, m):
    """members added, released and added again under their names in any order: a member has the releases set since it was last added"""
    from hyperstatic.core import Api
    from hyperstatic.core.fe_model.model import Model
    through_api = bool(rng.random() < 0.4)
    a = Api(os.path.join(m.tmp(), "w")) if through_api else Model()
    model = next((v for v in vars(a).values() if isinstance(v, Model)), None) if through_api else a
    if model is None:
        through_api, a = False, Model()
        model = a
    spec = gen.frame(rng, nmax=4, loads=False, ncases=0, wide=False)
    for n, x in spec["nodes"]:
        a.add_node(n, *x)
    names = gen.alike(rng, 3) if rng.random() < 0.5 else ["b1", "b2", "b3"]
    now, log = {}, []
    a.add_isotropic_material("m0", 7850.0, 1e9, 0.3, 1e-5)
    dense = lambda x: np.asarray(x.todense() if hasattr(x, "todense") else x, dtype=float)
    for _ in range(int(rng.integers(4, 14))):
        name = names[int(rng.integers(3))]
        if name not in now or rng.random() < 0.4:
            b = dict(spec["beams"][int(rng.integers(len(spec["beams"])))], name=name, rel=[False] * 12, rot=0.0)
            if rng.random() < 0.5 and name in now:
                b.update(i=now[name]["i"], j=now[name]["j"])
            if b["kind"] == "simple":
                a.add_simple_beam(name, b["i"], b["j"], b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"])
            else:
                s = "s%d" % len(log)
                b.update(E=1e9, mu=0.3)
                a.add_beam_section_general(s, "m0", b["A"], b["A"], b["A"], b["I2"], b["I3"], b["J"], 1.0, 1.0)
                a.add_beam(name, b["i"], b["j"], s)
            if name in now:
                m.event("added again" + (" after a release" if any(now[name]["rel"]) else ""))
            now[name] = b
            log.append(["add", dict(b)])
        else:
            rel = gen.random_release(rng) if rng.random() < 0.8 else [False] * 12
            (a.set_beam_release if through_api else a.set_beam_releases)(name, *rel)
            now[name] = dict(now[name], rel=rel)
            log.append(["release", name, rel])
        m.describe(api=through_api, nodes=spec["nodes"], calls=log)
        fr = ref.Frame(dict(nodes=spec["nodes"], beams=list(now.values()), patterns={}, rest={}))
        for n, b in now.items():
            k = fr.geo[n]["k"]
            s = np.sqrt(np.diag(k))
            m.close("releases-since-it-was-added", dense(model.get_beam_K(n, condensate=True)), schur(k, np.zeros(12), b["rel"])[0], 1e-9, np.outer(s, s), n)
    m.distinct(log)


KINDS = {"anew": (anew, 600, 4800), "element": (element, 1200, 9600), "core": (core, 1000, 8000), "api": (api, 600, 4800), "hinge": (hinge, 600, 4800), "textbook": (textbook, 600, 4800), "truss": (truss, 600, 4800)}
