"""C02: the response is linear in the loads, and Betti's reciprocity holds."""
import copy
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import draw, imports

PROP = "C02"
RULE = ("random frames (releases and rolled axes included) solved under separate patterns, scaled patterns and combinations; the monitor "
        "compares the code's own solutions with each other; non-trivial: the compared displacement field is not zero; distinct by full spec")
MUST_SEE = ["oracle:superposition", "oracle:factor-scales", "oracle:betti", "oracle:zero-load-zero-displacement", "oracle:results-superpose"]
ASSUMPTIONS = ["equal up to 1e-8 of each DOF's natural scale plus conditioning; frames above 1e7 are skipped"]


def scales(frame, case, *ds):
    """per-DOF scale: the energy norm of the fields spread by the diagonal stiffness"""
    K = frame.K()
    dg = np.diag(K)[:frame.n]
    s = 1 / np.sqrt(np.where(dg > 0, dg, np.max(dg)))
    return max(np.linalg.norm(d / s) for d in ds) * s + 1e-300


def solve_all(spec, path):
    gen.assemble(spec, path)
    return {c: gen.solve_core(spec, path, c, asb=False)[0] for c in spec["cases"]}


def superpose(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.3, npatterns=3, ncases=1)
    a, b, c = [float(v) for v in rng.uniform(-4, 4, 3)]
    rest = spec["cases"]["case0"]["rest"]
    C = lambda **p: dict(patterns=p, rest=rest)
    spec["cases"] = {"u0": C(P0=1.0), "u1": C(P1=1.0), "u2": C(P2=1.0), "sum": C(P0=a, P1=b, P2=c), "rev": C(P2=c, P1=b, P0=a),
                     "neg": C(P0=-a, P1=-b, P2=-c), "two": C(P0=2 * a, P1=2 * b, P2=2 * c), "zero": C(P0=0.0), "none": C()}
    s, e = float(10 ** rng.uniform(-9, 9)), float(10 ** rng.uniform(-12, 0))
    spec["patterns"]["units"] = {k: {n: [float(x) * s for x in f[:6]] + [float(x) * (1 if k == "conc" else s) for x in f[6:]] for n, f in v.items()} for k, v in spec["patterns"]["P0"].items()}
    spec["cases"].update(units=C(units=1 / s), small=C(P0=a * e, P1=b * e, P2=c * e))
    m.describe(spec=spec, factors=[a, b, c], units=s, small=e)
    d = solve_all(spec, m.tmp())
    sc = scales(frame, rest, a * d["u0"], b * d["u1"], c * d["u2"])
    m.close("superposition", d["sum"], a * d["u0"] + b * d["u1"] + c * d["u2"], 1e-8, sc)
    m.close("pattern-order-irrelevant", d["rev"], d["sum"], 1e-8, sc)
    m.close("factor-scales", d["two"], 2 * d["sum"], 1e-8, sc)
    m.close("factor-scales", d["neg"], -d["sum"], 1e-8, sc)
    m.close("units-of-load", d["units"], d["u0"], 1e-8, scales(frame, rest, d["u0"]), "loads times %g under a factor of %g" % (s, 1 / s))
    m.close("factor-scales", d["small"], e * d["sum"], 1e-8, e * sc, "a factor of %g" % e)
    m.true("zero-load-zero-displacement", not np.any(d["zero"]) and not np.any(d["none"]), "a displacement without load")
    if np.any(d["sum"]):
        m.distinct(spec)


def in_pattern(rng, m):
    """values in the pattern and factors in the case are interchangeable; several loads in one pattern add"""
    spec, frame = draw(rng, m, rotations=0.3, releases=0.3, npatterns=1, ncases=1)
    p = spec["patterns"]["P0"]
    k = float(rng.uniform(-3, 3))
    mul = lambda v: [float(x) * k for x in v]
    spec["patterns"]["K"] = dict(nodal={n: mul(v) for n, v in p["nodal"].items()}, dist={n: mul(v) for n, v in p["dist"].items()},
                                 conc={n: mul(v[:6]) + [v[6]] for n, v in p["conc"].items()})
    spec["patterns"]["N"] = dict(nodal=p["nodal"], dist={}, conc={})
    spec["patterns"]["D"] = dict(nodal={}, dist=p["dist"], conc={})
    spec["patterns"]["Q"] = dict(nodal={}, dist={}, conc=p["conc"])
    rest = spec["cases"]["case0"]["rest"]
    C = lambda **p: dict(patterns=p, rest=rest)
    spec["cases"] = {"a": C(P0=k), "b": C(K=1.0), "n": C(N=1.0), "d": C(D=1.0), "q": C(Q=1.0), "p": C(P0=1.0), "ndq": C(N=1.0, D=1.0, Q=1.0)}
    m.describe(spec=spec, k=k)
    d = solve_all(spec, m.tmp())
    sc = scales(frame, rest, d["n"], d["d"], d["q"])
    m.close("factor-scales", d["a"], d["b"], 1e-8, sc * max(abs(k), 1e-3))
    m.close("superposition", d["n"] + d["d"] + d["q"], d["p"], 1e-8, sc)
    m.close("superposition", d["ndq"], d["p"], 1e-8, sc)
    if np.any(d["p"]):
        m.distinct(spec)


def betti(rng, m):
    spec, frame = draw(rng, m, rotations=0.3, releases=0.3, npatterns=2, ncases=1, no_member_loads=True)
    rest = spec["cases"]["case0"]["rest"]
    spec["cases"] = {"a": dict(patterns={"P0": 1.0}, rest=rest), "b": dict(patterns={"P1": 1.0}, rest=rest)}
    m.describe(spec=spec)
    d = solve_all(spec, m.tmp())
    f = {c: frame.case_f(spec["cases"][c])[:frame.n] for c in "ab"}
    w = {c: d[c] @ f[c] for c in "ab"}
    for c in "ab":
        m.true("work-not-negative", w[c] >= -1e-9 * (np.abs(d[c]) @ np.abs(f[c])), "loads do negative work %g" % w[c])
    size = np.sqrt(abs(w["a"] * w["b"])) + 1e-300
    m.close("betti", d["a"] @ f["b"], d["b"] @ f["a"], 1e-8, size + 1e-6 * (np.abs(d["a"]) @ np.abs(f["b"])))
    if size > 0:
        m.distinct(spec)


def unit(rng, m):
    """flexibility coefficients from unit loads: a symmetric positive semi-definite matrix"""
    spec, frame = draw(rng, m, nmax=5, rotations=0.3, releases=0.3, npatterns=1, ncases=1, no_member_loads=True)
    rest = spec["cases"]["case0"]["rest"]
    fix = frame.fixed(dict(rest=rest))
    free = [int(v) for v in np.setdiff1d(np.arange(frame.n), fix)]
    pick = [free[int(k)] for k in rng.permutation(len(free))[:5]]
    spec["patterns"], spec["cases"] = {}, {}
    for k in pick:
        v = [0.0] * 6
        v[k % 6] = 1.0
        spec["patterns"]["U%d" % k] = dict(nodal={frame.names[k // 6]: v}, dist={}, conc={})
        spec["cases"]["c%d" % k] = dict(patterns={"U%d" % k: 1.0}, rest=rest)
    m.describe(spec=spec)
    d = solve_all(spec, m.tmp())
    F = np.array([[d["c%d" % k][j] for j in pick] for k in pick])
    dg = np.sqrt(np.diag(F))
    m.true("flexibility-diagonal-positive", np.all(np.diag(F) > 0), "%r" % np.diag(F))
    C = F / np.outer(dg, dg)
    m.close("betti", C, C.T, 1e-7, 1.0)
    m.true("flexibility-semidefinite", np.linalg.eigvalsh((C + C.T) / 2)[0] > -1e-7, "indefinite flexibility")
    m.distinct(spec, pick)


def results(rng, m):
    """reactions, end forces and deformations obey the same linearity"""
    spec, frame = draw(rng, m, nmax=5, rotations=0.0, releases=0.3, npatterns=2, ncases=1)
    a, b = [float(v) for v in rng.uniform(-4, 4, 2)]
    spec["cases"] = {"u0": dict(patterns={"P0": 1.0}, rest={}), "u1": dict(patterns={"P1": 1.0}, rest={}), "sum": dict(patterns={"P0": a, "P1": b}, rest={})}
    m.describe(spec=spec, factors=[a, b])
    api = gen.build_api(spec, os.path.join(m.tmp(), "w"), m)
    m.same("assemble", api.assemble(), True)
    for c in spec["cases"]:
        m.same("solve", api.solve_static(c), True)
    loc = float(rng.uniform(0, 1))
    R = lambda c: np.array([api.result_get_nodal_reaction(n, c) for n in frame.names])
    Q = lambda c: np.array([api.result_get_beam_end_force(x, c) for x in frame.beams])
    for what, g in (("reactions", R), ("end forces", Q)):
        x, y, z = g("u0"), g("u1"), g("sum")
        f = np.max([np.max(np.abs(Q(c)[:, [0, 1, 2]])) for c in ("u0", "u1")]) + 1e-300
        big = np.max(np.abs(a * Q("u0"))) + np.max(np.abs(b * Q("u1"))) + np.max(np.abs(a * R("u0"))) + np.max(np.abs(b * R("u1"))) + 1e-300
        m.close("results-superpose", z, a * x + b * y, 1e-6, big, what)
    if np.any(R("sum")):
        m.distinct(spec)


KINDS = {"superpose": (superpose, 480, 3840), "in_pattern": (in_pattern, 480, 3840), "betti": (betti, 800, 6400), "unit": (unit, 320, 2560),
         "results": (results, 240, 1920)}
