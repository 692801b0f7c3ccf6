"""C21: a structure that was saved and loaded goes on as if it had never been saved."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import numpy as np
from hv import core, gen, ref
from hv.core import Skip
from checks.c01 import CONDMAX

PROP = "C21"
RULE = ("random structures described call by call, saved at random points of their description and loaded again (in this process and in a new one, from the folder they were saved in or "
        "from a copy of it); the loaded one and a control that was never saved go through the same further calls and have to answer every query and every result alike; files missing, cut off, "
        "damaged or not writable; non-trivial: calls follow the load; distinct by calls and points of saving")
MUST_SEE = ["oracle:queries", "oracle:results", "oracle:return-values", "oracle:save-succeeds", "oracle:load-succeeds", "oracle:saving-changes-nothing", "oracle:independent",
            "oracle:file-is-of-its-moment", "oracle:missing-gives-none", "oracle:damaged-gives-none", "oracle:failed-save-says-so", "oracle:new-process", "oracle:results-stay-readable",
            "oracle:solves-where-loaded", "oracle:assembly-file", "saved while unfinished", "saved after solution", "calls after loading", "executions:overwrite"]
ASSUMPTIONS = ["files written by the same version of the program and its libraries"]
TIMEOUT = 180


def imports():
    import hyperstatic.core, hyperstatic.core.fe_solver.dynamic, hyperstatic.core.fe_post.structure


class Tape:
    """stands in for an Api and records the calls"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        def f(*a):
            self.calls.append((name, list(a)))
            return True
        return f


def draw(rng):
    for _ in range(30):
        spec = gen.frame(rng, nmax=5, ncases=2, npatterns=2, releases=0.2, case_rest=0.4, masses=True)
        spec = gen.relabel(rng, spec)
        frame = ref.Frame(spec)
        K = frame.K()
        if all(frame.solve(c, K)[2] < CONDMAX for c in spec["cases"].values()):
            break
    else:
        raise Skip()
    t = Tape()
    gen.build_api(spec, None, api=t)
    calls = t.calls
    if rng.random() < 0.5:
        calls += [("add_modal_case", ["modal"])]
    # calls that will be refused, and loads set again
    for _ in range(int(rng.integers(0, 6))):
        n = spec["nodes"][int(rng.integers(len(spec["nodes"])))][0]
        p = str(rng.choice(list(spec["patterns"])))
        v = [float(x) for x in rng.normal(size=6)]
        bad = [("add_beam", ["never", n, "nowhere", "none"]), ("set_nodal_restraint", ["nowhere"] + [True] * 6), ("set_nodal_load", ["no pattern", n] + v), ("set_nodal_load", [p, n] + v),
               ("add_case_pattern", [list(spec["cases"])[0], p, float(rng.normal())]), ("add_node", ["lonely", *v[:3]]), ("set_nodal_mass", [n] + [abs(x) for x in v])]
        k = int(rng.integers(len(bad)))
        if bad[k][0] == "add_node":
            continue
        first = [q for q, (f, a) in enumerate(calls) if f in ("add_static_case", "add_case_pattern")]
        calls.insert(int(rng.integers(len(calls) - 1)) if k < 3 else len(calls), bad[k])
    return spec, calls


def play(api, calls):
    return [getattr(api, f)(*a) for f, a in calls]


def plain(x):
    """what was answered, as plain nested lists"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (str, bool)):
        return x
    a = np.asarray(x)
    if a.dtype == bool:
        return a.tolist()
    return a.astype(float).tolist()


def queries(api, patterns, cases):
    q = dict(nodes=api.get_node_names(), beams=api.get_beam_names(), shells=api.get_shell_names(), rest=plain(api.get_node_restraints()))
    q["at"] = {n: plain(api.get_node_location(n)) for n in q["nodes"]}
    q["of"] = {b: [plain(api.get_beam_node_names(b)), plain(api.get_beam_location(b))] for b in q["beams"]}
    q["loads"] = {p: plain(api.get_all_nodal_load(p)) for p in patterns}
    q["own"] = {c: plain(api.get_node_restraints(c)) for c in cases}
    return plain(q)


def results(api, cases):
    r = {}
    for c in cases:
        r[c] = dict(d=plain(api.result_get_all_nodal_displacement(c)), r={n: plain(api.result_get_nodal_reaction(n, c)) for n in api.get_node_names()},
                    f={b: plain(api.result_get_beam_end_force(b, c)) for b in api.get_beam_names()},
                    w={b: plain(api.result_get_beam_deformation(b, 0.3, c)) for b in api.get_beam_names()})
    return r


def solved(api, cases, modal=False):
    ok = [api.assemble()] + [api.solve_static(c) for c in cases]
    if modal:
        ok.append(api.solve_modal("modal", 1))
    return ok, results(api, cases)


def where(spec):
    return list(spec["patterns"]) + ["nowhere"], list(spec["cases"]) + ["modal", "nowhere"], list(spec["cases"])


def rounds(rng, m):
    """saved and loaded once or more often along the description, against a control"""
    from hyperstatic.core import Api
    spec, calls = draw(rng)
    root = m.tmp()
    P, Q, C = where(spec)
    ctl = Api(os.path.join(root, "control"))
    w = os.path.join(root, str(rng.choice(["work", "工作", "a b", "w.x"])))
    api = Api(w)
    cuts = sorted(int(v) for v in rng.choice(len(calls) + 1, size=int(rng.integers(1, 4))))
    m.describe(calls=calls, cuts=cuts)
    pos = 0
    for k, cut in enumerate(cuts):
        a, b = play(api, calls[pos:cut]), play(ctl, calls[pos:cut])
        m.same("return-values", a, b)
        pos = cut
        before = queries(api, P, Q)
        name = str(rng.choice(["model", "模型", "m.1", "a b"])) + "%d" % (k if rng.random() < 0.5 else 0)
        m.same("save-succeeds", api.save(name), True)
        m.true("save-succeeds", os.path.isfile(os.path.join(w, name + ".sep")), "no file %s.sep" % name)
        m.same("saving-changes-nothing", queries(api, P, Q), before)
        if cut < len(calls):
            m.event("saved while unfinished")
        if rng.random() < 0.3:        # what happens to the old one afterwards does not reach the file
            play(api, [("add_node", ["astray", 99.0, 98.0, 97.0]), ("add_loadpattern", ["astray"])])
        api = Api.load(w, name)
        m.true("load-succeeds", isinstance(api, Api), "load returned %r" % (api,))
        m.same("queries", queries(api, P, Q), queries(ctl, P, Q))
    rest = calls[pos:]
    if rest:
        m.event("calls after loading")
    m.same("return-values", play(api, rest), play(ctl, rest))
    m.same("queries", queries(api, P, Q), queries(ctl, P, Q))
    modal = bool(spec.get("mass")) and ("add_modal_case", ["modal"]) in calls and rng.random() < 0.5
    (a, ra), (b, rb) = solved(api, C, modal), solved(ctl, C, modal)
    m.same("return-values", a, b)
    m.same("results", ra, rb)
    if rest:
        m.distinct(calls, cuts)


def apart(rng, m):
    """the original, the loaded one and two loaded from one file do not share anything"""
    from hyperstatic.core import Api
    spec, calls = draw(rng)
    root = m.tmp()
    P, Q, C = where(spec)
    w = os.path.join(root, "w")
    api = Api(w)
    cut = int(rng.integers(len(calls) // 2, len(calls) + 1))
    m.describe(calls=calls, cut=cut)
    play(api, calls[:cut])
    m.same("save-succeeds", api.save("early"), True)
    early = queries(api, P, Q)
    play(api, calls[cut:])
    ok, full = solved(api, C)
    late = queries(api, P, Q)
    m.same("save-succeeds", api.save("late"), True)
    m.event("saved after solution")
    m.same("saving-changes-nothing", results(api, C), full)
    a, b, c = Api.load(w, "early"), Api.load(w, "late"), Api.load(w, "late")
    m.true("load-succeeds", all(isinstance(x, Api) for x in (a, b, c)), "%r" % ([a, b, c],))
    m.same("file-is-of-its-moment", queries(a, P, Q), early)
    m.same("file-is-of-its-moment", queries(b, P, Q), late)
    m.same("results-stay-readable", results(b, C), full)
    # edits of one
    n0 = spec["nodes"][0][0]
    p0 = list(spec["patterns"])[0]
    edits = [("add_node", ["extra", 50.0, 51.0, 52.0]), ("add_simple_beam", ["extra", n0, "extra", 2e11, 0.3, 0.01, 1e-5, 2e-5, 1e-5, 7850.0]), ("set_nodal_load", [p0, n0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]),
             ("set_nodal_restraint", [n0] + [True] * 6), ("set_loadcase_nodal_restraint", [C[0], n0] + [True] * 6), ("add_case_pattern", [C[0], p0, 7.0]), ("set_nodal_mass", [n0] + [9.0] * 6)]
    edits = [edits[int(k)] for k in rng.permutation(len(edits))]
    edits.sort(key=lambda e: e[0] == "add_simple_beam")
    m.same("edit-accepted", play(b, edits), [True] * len(edits))
    m.same("independent", queries(api, P, Q), late, "the original after edits of the loaded one")
    m.same("independent", queries(c, P, Q), late, "another one from the same file")
    m.same("independent", queries(a, P, Q), early, "one from another file")
    d = Api.load(w, "late")
    m.same("independent", queries(d, P, Q), late, "the file after edits of what was loaded from it")
    eb = queries(b, P, Q)
    m.true("edits-arrive", "extra" in eb["nodes"] and eb["loads"][p0][n0] == [1, 2, 3, 4, 5, 6], "edits are missing: %r" % (eb,))
    m.same("edit-accepted", play(api, [("set_nodal_load", [p0, n0] + [0.5] * 6)]), [True])
    m.same("independent", queries(b, P, Q), eb, "the loaded one after edits of the original")
    # saving over a file replaces it
    m.same("save-succeeds", b.save("late"), True)
    m.same("file-is-of-its-moment", queries(Api.load(w, "late"), P, Q), eb)
    m.same("file-is-of-its-moment", queries(Api.load(w, "early"), P, Q), early)
    # the one loaded in between has its own results when it solves
    ok2, again = solved(c, C)
    m.same("return-values", ok2, ok)
    m.same("results", again, full)
    m.distinct(calls, cut)


def overwrite(rng, m):
    """one file saved over and over at once, mostly to the same length, and read again each time"""
    from hyperstatic.core import Api
    spec, calls = draw(rng)
    root = m.tmp()
    P, Q, C = where(spec)
    w = os.path.join(root, "w")
    api = Api(w)
    play(api, calls)
    m.describe(calls=calls)
    nodes, pats = [n for n, _ in spec["nodes"]], list(spec["patterns"])
    keep = []
    name = str(rng.choice(["x", "model.1"]))
    for k in range(int(rng.integers(2, 6))):
        m.same("save-succeeds", api.save(name), True)
        got = Api.load(w, name)
        keep.append((got, queries(api, P, Q)))
        m.same("file-is-of-its-moment", queries(got, P, Q), keep[-1][1], "save %d" % k)
        n, p = nodes[int(rng.integers(len(nodes)))], pats[int(rng.integers(len(pats)))]
        v = [float(x) for x in rng.normal(size=6)]
        e = [("set_nodal_load", [p, n] + v), ("set_nodal_restraint", [n] + [bool(x > 0) for x in v]), ("add_node", ["lone", *v[:3]]),
             ("set_loadcase_nodal_restraint", [C[0], n] + [bool(x > 0) for x in v])][int(rng.integers(4))]
        m.same("edit-accepted", play(api, [e]), [True])
    for k, (got, q) in enumerate(keep):
        m.same("independent", queries(got, P, Q), q, "what was loaded after save %d" % k)
    m.distinct(calls, v)


def elsewhere(rng, m):
    """the folder copied or moved: the loaded one lives where it was loaded from, and nothing happens where it was saved"""
    from hyperstatic.core import Api
    spec, calls = draw(rng)
    root = m.tmp()
    P, Q, C = where(spec)
    w, v = os.path.join(root, "w"), os.path.join(root, "v")
    api = Api(w)
    play(api, calls)
    m.describe(calls=calls)
    if rng.random() < 0.5:
        ok, full = solved(api, C)
        m.same("save-succeeds", api.save("x"), True)
        had = True
    else:
        m.same("save-succeeds", api.save("x"), True)
        ctl = Api(os.path.join(root, "control"))
        play(ctl, calls)
        ok, full = solved(ctl, C)
        had = False
    move = bool(rng.random() < 0.5)
    (shutil.move if move else shutil.copytree)(w, v)
    before = {} if move else {f: open(os.path.join(w, f), "rb").read() for f in sorted(os.listdir(w))}
    b = Api.load(v, "x")
    m.true("load-succeeds", isinstance(b, Api), "%r" % (b,))
    if had:
        m.same("results-stay-readable", results(b, C), full)
    ok2, again = solved(b, C)
    m.same("return-values", ok2, ok)
    m.same("solves-where-loaded", again, full)
    m.same("save-succeeds", b.save("y"), True)
    m.true("solves-where-loaded", os.path.isfile(os.path.join(v, "y.sep")), "saved elsewhere")
    if move:
        m.true("solves-where-loaded", not os.path.exists(w), "the old folder came back")
    else:
        m.same("solves-where-loaded", {f: open(os.path.join(w, f), "rb").read() for f in sorted(os.listdir(w))} == before, True, "the old folder changed")
    m.distinct(calls)


def damage(rng, m):
    """files missing, empty, cut off or of something else; folders missing"""
    from hyperstatic.core import Api
    spec, calls = draw(rng)
    root = m.tmp()
    P, Q, C = where(spec)
    w = os.path.join(root, "w")
    api = Api(w)
    play(api, calls)
    m.describe(calls=calls)
    before = queries(api, P, Q)
    m.same("missing-gives-none", Api.load(w, "x"), None)
    m.same("missing-gives-none", Api.load(os.path.join(root, "nowhere"), "x"), None)
    m.same("save-succeeds", api.save("x"), True)
    f = os.path.join(w, "x.sep")
    data = open(f, "rb").read()
    for _ in range(4):
        k = int(rng.integers(0, len(data) - 1)) if rng.random() < 0.8 else 0
        with open(f, "wb") as g:
            g.write(data[:k])
        m.same("damaged-gives-none", Api.load(w, "x"), None, "cut off after %d of %d bytes" % (k, len(data)))
    with open(f, "wb") as g:
        g.write(b"not a model\n" * int(rng.integers(1, 50)))
    m.same("damaged-gives-none", Api.load(w, "x"), None)
    with open(f, "wb") as g:
        g.write(data)
    m.same("queries", queries(Api.load(w, "x"), P, Q), before)
    os.mkdir(os.path.join(w, "folder.sep"))
    m.same("failed-save-says-so", api.save("folder"), False)
    m.same("failed-save-says-so", api.save(os.path.join("no", "such", "folder")), False)
    m.same("missing-gives-none", Api.load(w, "folder"), None)
    m.same("queries", queries(api, P, Q), before, "after failed saves")
    shutil.rmtree(w)
    m.same("failed-save-says-so", api.save("x"), False)
    m.same("queries", queries(api, P, Q), before, "after failed saves")
    m.distinct(calls)


CHILD = r"""
import json, sys
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[1] + "/lib")
from hv import core
core.setup_path()
from checks import c21
from hyperstatic.core import Api
job = json.load(open(sys.argv[2]))
out = []
for j in job:
    api = Api.load(j["path"], j["file"])
    if api is None:
        out.append(None)
        continue
    q = c21.queries(api, j["P"], j["Q"])
    r = c21.play(api, j["rest"])
    q2 = c21.queries(api, j["P"], j["Q"])
    ok, res = c21.solved(api, j["C"])
    out.append([q, r, q2, ok, res])
json.dump(out, open(sys.argv[3], "w"))
"""


def process(rng, m):
    """loaded by another process, which knows nothing but the file"""
    from hyperstatic.core import Api
    root = m.tmp()
    job, want = [], []
    # others of the same names live in this process, but not in the other one
    for k in range(6):
        while True:
            try:
                spec, calls = draw(rng)
                break
            except Skip:
                continue
        P, Q, C = where(spec)
        cut = int(rng.integers(0, len(calls) + 1))
        w = os.path.join(root, "w%d" % k)
        api, ctl = Api(w), Api(os.path.join(root, "c%d" % k))
        play(api, calls[:cut])
        m.same("save-succeeds", api.save("x"), True)
        play(ctl, calls[:cut])
        q = queries(ctl, P, Q)
        r = play(ctl, calls[cut:])
        q2 = queries(ctl, P, Q)
        ok, res = solved(ctl, C)
        want.append([q, r, q2, ok, res])
        job.append(dict(path=w, file="x", P=P, Q=Q, C=C, rest=calls[cut:]))
    m.describe(job=[j["rest"] for j in job])
    a, b = os.path.join(root, "in.json"), os.path.join(root, "out.json")
    with open(a, "w") as f:
        json.dump(job, f)
    p = subprocess.run([sys.executable, "-c", CHILD, core.VERIF, a, b], capture_output=True, text=True, timeout=120)
    if p.returncode or not os.path.exists(b):
        m.true("new-process", "hyperstatic" not in p.stderr, p.stderr[-1500:])
        raise OSError(12, "the other process did not work: " + p.stderr[-1500:])
    got = json.load(open(b))
    for k, (g, x) in enumerate(zip(got, want)):
        m.true("new-process", g is not None, "not loaded")
        for what, u, v in zip(("queries", "return values", "queries after further calls", "solving", "results"), g, json.loads(json.dumps(x))):
            m.true("new-process", u == v, lambda: "%s: got %r, expected %r" % (what, u, v))
        m.distinct(job[k])


def assembly(rng, m):
    """the assembly file: what is solved from it is what was assembled, whatever becomes of the model"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_solver.static import StaticSolver
    for _ in range(30):
        spec = gen.frame(rng, nmax=5, ncases=2, releases=0.2, case_rest=0.4, rotations=0.5, masses=True)
        frame = ref.Frame(spec)
        K = frame.K()
        if all(frame.solve(c, K)[2] < CONDMAX for c in spec["cases"].values()):
            break
    else:
        raise Skip()
    m.describe(spec=spec)
    root = m.tmp()
    model = gen.build_model(spec)
    pats = gen.build_patterns(spec)
    cases = gen.build_cases(spec, pats)
    asb = Assembly(model, list(cases.values()))
    w = os.path.join(root, "w")
    asb.save(w, "a.asb")
    mats = lambda x: [x.assemble_K().toarray(), x.assemble_M().toarray()] + [np.asarray(x.assemble_f(c).todense()) for c in cases]
    live = None if any(any(b["rel"]) for b in spec["beams"]) else mats(asb)
    # the model goes on
    n0, b0 = spec["nodes"][0][0], spec["beams"][0]["name"]
    model.add_node("later", 77.0, 78.0, 79.0)
    model.add_simple_beam("later", n0, "later", 1e9, 0.3, 0.1, 1e-3, 1e-3, 1e-3, 1.0)
    model.set_nodal_restraint(n0, *[True] * 6)
    for p in pats.values():
        p.set_nodal_load(n0, *[1e5] * 6)
    for c in cases.values():
        c.set_nodal_restraint(n0, *[True] * 6)
    with open(os.path.join(w, "a.asb"), "rb") as f:
        back = pickle.load(f)
    if live:
        for a, b in zip(mats(back), live):
            m.true("assembly-file", np.array_equal(a, b), "matrices of the saved assembly differ")
    for c in spec["cases"]:
        u, sc, cond = frame.solve(spec["cases"][c], K)
        StaticSolver(w, "a.asb").solve_linear(c)
        d = np.load(os.path.join(w, c + ".d.npy")).ravel()
        m.close("assembly-file", d, u[:frame.n], 1e-9 + 1e-13 * cond, sc[:frame.n] + 1e-300)
    m.distinct(spec)


KINDS = {"overwrite": (overwrite, 150, 1200), "rounds": (rounds, 300, 2500), "apart": (apart, 150, 1200), "elsewhere": (elsewhere, 150, 1200), "damage": (damage, 100, 800), "process": (process, 20, 160), "assembly": (assembly, 150, 1200)}
