"""C05: along any history of edits, assemblies and solutions, a result is that of the model assembled last."""
import copy
import os
import numpy as np
from hv import gen, ref
from hv.core import Skip
from checks.c01 import imports as imports1, CONDMAX

PROP = "C05"
RULE = ("random histories over one to three workspaces (some shared by name with earlier ones): edit the structure, its supports and loads, "
        "assemble, solve any case, ask for results; a shadow remembers the structure at the last assembly of each workspace and decides "
        "every answer; non-trivial: at least one solution after a re-assembly with changes; distinct by the history")
MUST_SEE = ["oracle:displacement-is-of-last-assembly", "re-solved after edits", "edits not yet assembled", "two workspaces interleaved", "workspace reused",
            "oracle:unsolved-case-has-no-result", "oracle:edit-without-assembly-changes-nothing", "modal before static", "workspace cleared", "modes along histories", "oracle:cleared-workspace-is-empty",
            "oracle:all-nodes-of-last-assembly"]
ASSUMPTIONS = ["results are compared only for cases solved since the last assembly of their workspace"]


def imports():
    imports1()
    import hyperstatic.core.fe_solver.dynamic


class Shadow:
    def __init__(self, rng):
        self.spec = gen.frame(rng, nmax=4, ncases=2, npatterns=2, releases=0.2, case_rest=0.3)
        self.spec = gen.relabel(rng, self.spec)
        for b in self.spec["beams"]:
            b["rot"] = 0.0
        self.frozen = None
        self.solved = {}
        self.edited = False
        self.assemblies = 0


def ok_spec(spec):
    frame = ref.Frame(spec)
    K = frame.K()
    for c in spec["cases"].values():
        if not frame.solve(c, K)[2] < CONDMAX:
            return False
    return True


def edit(rng, sh, api, m):
    """one change, applied to the shadow and through the Api; skipped when the structure would become unstable"""
    s = copy.deepcopy(sh.spec)
    names = [n for n, _ in s["nodes"]]
    kind = str(rng.choice(["node+beam", "restraint", "nodal", "dist", "conc", "factor", "release", "case restraint", "pattern", "case anew", "beam anew"]))
    P = str(rng.choice(list(s["patterns"])))
    C = str(rng.choice(list(s["cases"])))
    b0 = s["beams"][int(rng.integers(len(s["beams"])))]
    F = b0["E"] * b0["A"] * 1e-4
    calls = []
    if kind == "node+beam":
        n = "new%d" % len(names)
        p = [float(v) for v in np.array(dict(s["nodes"])[names[0]]) + rng.uniform(-1, 1, 3) * s["L"] + [0.7 * s["L"], 0, 0]]
        s["nodes"].append((n, p))
        b = dict(b0, name="newb%d" % len(names), i=names[int(rng.integers(len(names)))], j=n, rel=[False] * 12, kind="simple")
        s["beams"].append(b)
        calls = [("add_node", (n, *p)), ("add_simple_beam", (b["name"], b["i"], b["j"], b["E"], b["mu"], b["A"], b["I2"], b["I3"], b["J"], b["rho"]))]
    elif kind == "restraint":
        n = str(rng.choice(names))
        v = [bool(x) for x in rng.random(6) < 0.5]
        s["rest"][n] = v
        calls = [("set_nodal_restraint", (n, *v))]
    elif kind == "case restraint":
        n = str(rng.choice(names))
        v = [bool(x) for x in rng.random(6) < 0.8]
        s["cases"][C]["rest"][n] = v
        calls = [("set_loadcase_nodal_restraint", (C, n, *v))]
    elif kind == "nodal":
        n = str(rng.choice(names))
        v = [float(x) for x in rng.normal(size=6) * F]
        s["patterns"][P]["nodal"][n] = v
        calls = [("set_nodal_load", (P, n, *v))]
    elif kind == "dist":
        v = [float(x) for x in rng.normal(size=8) * F]
        s["patterns"][P]["dist"][b0["name"]] = v
        calls = [("set_beam_load_distributed", (P, b0["name"], *v))]
    elif kind == "conc":
        v = [float(x) for x in rng.normal(size=6) * F] + [float(rng.uniform(0, 1))]
        s["patterns"][P]["conc"][b0["name"]] = v
        calls = [("set_beam_load_concentrated", (P, b0["name"], *v))]
    elif kind == "factor":
        f = float(rng.uniform(-3, 3))
        s["cases"][C]["patterns"][P] = f
        calls = [("add_case_pattern", (C, P, f))]
    elif kind == "release":
        rel = gen.random_release(rng) if rng.random() < 0.7 else [False] * 12
        b0["rel"] = rel
        calls = [("set_beam_release", (b0["name"], *rel))]
    elif kind == "pattern":
        p = "P %d" % len(s["patterns"])
        n = str(rng.choice(names))
        v = [float(x) for x in rng.normal(size=6) * F]
        s["patterns"][p] = dict(nodal={n: v}, dist={}, conc={})
        s["cases"][C]["patterns"][p] = 1.0
        calls = [("add_loadpattern", (p,)), ("set_nodal_load", (p, n, *v)), ("add_case_pattern", (C, p, 1.0))]
    elif kind == "case anew":
        n = str(rng.choice(names))
        v = [float(x) for x in rng.normal(size=6) * F]
        s["cases"][C] = dict(rest={}, patterns={P: 1.5})
        s["patterns"][P]["nodal"][n] = v
        calls = [("add_static_case", (C,)), ("set_nodal_load", (P, n, *v)), ("add_case_pattern", (C, P, 1.5))]
    elif kind == "beam anew":
        k = rng.uniform(0.5, 2, 4)
        b0.update(A=float(b0["A"] * k[0]), I2=float(b0["I2"] * k[1]), I3=float(b0["I3"] * k[2]), J=float(b0["J"] * k[3]), rel=[False] * 12, kind="simple")
        calls = [("add_simple_beam", (b0["name"], b0["i"], b0["j"], b0["E"], b0["mu"], b0["A"], b0["I2"], b0["I3"], b0["J"], b0["rho"]))]
    if not ok_spec(s):
        return None
    for f, a in calls:
        m.same("edit-accepted", getattr(api, f)(*a), True, f)
    sh.spec = s
    sh.edited = True
    return [kind] + [f for f, _ in calls]


def check(sh, api, c, m, fresh):
    spec = sh.frozen
    frame = ref.Frame(spec)
    u, sc, cond = frame.solve(spec["cases"][c])
    d = [api.result_get_nodal_displacement(n, c) for n in frame.names]
    m.true("result-available", all(x is not None for x in d), "no displacement for solved case %s" % c)
    m.close("displacement-is-of-last-assembly", np.hstack(d), u[:frame.n], 1e-9 + 1e-13 * cond, sc[:frame.n] + 1e-300)
    full = api.result_get_all_nodal_displacement(c)
    m.true("all-nodes-of-last-assembly", isinstance(full, dict) and list(full) == list(frame.names) and all(np.array_equal(full[n], x) for n, x in zip(frame.names, d)),
           "asked for all at once: %s" % (full if not isinstance(full, dict) else sorted(full)))
    if not fresh:
        m.event("edits not yet assembled", 1)
        m.event("oracle:edit-without-assembly-changes-nothing")
    b = list(frame.beams)[0]
    q = api.result_get_beam_end_force(b, c)
    m.true("result-available", q is not None, "no end force for solved case %s" % c)
    want = frame.end_force(spec["cases"][c], b, u)
    g = frame.geo[b]
    kd = np.abs(g["k"]) @ np.abs(frame.gather(b) @ u) + np.abs(frame.case_member_f(spec["cases"][c], b))
    m.close("end-force-is-of-last-assembly", q, want, 1e-8 + 1e-12 * cond, np.max(kd) + 1e-300)


def periods(spec, k, w2=None):
    """squares of the lowest circular frequencies, or None where they are not determined well"""
    frame = ref.Frame(spec)
    case = dict(rest={}, patterns={})
    fix = frame.fixed(case)
    free = np.setdiff1d(np.arange(frame.ntot), fix)
    M = np.zeros((frame.ntot, frame.ntot))
    M[:frame.n, :frame.n] = frame.M_lumped()
    if sum(1 for q in free if q < frame.n and q % 6 < 3) <= k or not frame.solve(case, frame.K())[2] < 1e7:
        return None
    L = np.linalg.cholesky(frame.K()[np.ix_(free, free)])
    X = np.linalg.solve(L, np.linalg.solve(L, M[np.ix_(free, free)]).T)
    w = np.linalg.eigvalsh((X + X.T) / 2)[::-1][:k]
    return None if w[-1] <= 0 or w[0] / w[-1] > 1e6 or 1e-12 * spec["L"] ** -2 > 1e-9 * np.max(M) else 1 / w


class Within:
    """what is deleted meanwhile lies in the folder given, or is not deleted"""

    def __init__(self, folder):
        self.folder, self.outside = os.path.realpath(folder) + os.sep, []

    def __enter__(self):
        import shutil
        self.kept = shutil.rmtree, os.remove, os.unlink, os.rmdir
        wrap = lambda f: lambda p, *a, **kw: f(p, *a, **kw) if "dir_fd" in kw or (os.path.realpath(os.fspath(p)) + os.sep).startswith(self.folder) else self.outside.append(p)
        shutil.rmtree, os.remove, os.unlink, os.rmdir = [wrap(f) for f in self.kept]
        return self

    def __exit__(self, *_):
        import shutil
        shutil.rmtree, os.remove, os.unlink, os.rmdir = self.kept


def history(rng, m):
    from hyperstatic.core import Api
    root = m.tmp()
    spaces = {}
    log = []
    dirs = ["w%d" % k for k in range(int(rng.integers(1, 4)))]
    last = None
    resolved = False
    for step in range(int(rng.integers(15, 35))):
        w = str(rng.choice(dirs))
        op = str(rng.choice(["new", "edit", "edit", "assemble", "solve", "solve", "read", "read", "modal", "clear"]))
        if w not in spaces or op == "new" and rng.random() < 0.4:
            for _ in range(20):
                sh = Shadow(rng)
                if ok_spec(sh.spec):
                    break
            else:
                raise Skip()
            if w in spaces:
                m.event("workspace reused")
            api = gen.build_api(sh.spec, os.path.join(root, w), m)
            m.same("edit-accepted", api.add_modal_case("the modes"), True)
            spaces[w] = (sh, api)
            log.append(["new", w, sh.spec["nodes"]])
            continue
        sh, api = spaces[w]
        if op == "edit":
            e = edit(rng, sh, api, m)
            if e:
                log.append([w] + e)
        elif op == "assemble":
            m.same("assemble-accepted", api.assemble(), True)
            sh.frozen = copy.deepcopy(sh.spec)
            sh.solved = {}
            sh.edited = False
            sh.assemblies += 1
            log.append([w, "assemble"])
        elif op == "clear" and rng.random() < 0.5:
            n, b = sh.spec["nodes"][0][0], sh.spec["beams"][0]["name"]
            with Within(os.path.join(root, w)) as inside:
                done = api.clear_workspace()
            m.same("clearing-accepted", (done, inside.outside), (True, []))
            m.same("cleared-workspace-is-empty", os.listdir(os.path.join(root, w)), [])
            for c in list(sh.spec["cases"]) + ["the modes"]:
                m.true("unsolved-case-has-no-result", api.result_get_nodal_displacement(n, c) is None and api.result_get_beam_end_force(b, c) is None, "cleared")
            m.same("solve-before-assembly-fails", api.solve_static(list(sh.spec["cases"])[0]), False)
            sh.frozen, sh.solved = None, {}
            m.event("workspace cleared")
            log.append([w, "clear"])
        elif op == "modal" and sh.frozen:
            k = int(rng.integers(1, 4))
            w2 = periods(sh.frozen, k)
            if w2 is not None:
                m.same("solve-accepted", api.solve_modal("the modes", k), True)
                m.close("frequencies-are-of-last-assembly", np.load(os.path.join(root, w, "the modes.o.npy")).ravel(), w2, 1e-5, w2)
                m.event("modes along histories")
                log.append([w, "modal", k])
        elif op == "solve" and sh.frozen:
            c = str(rng.choice(list(sh.frozen["cases"])))
            m.same("solve-accepted", api.solve_static(c), True)
            sh.solved[c] = True
            log.append([w, "solve", c])
            if sh.assemblies > 1:
                resolved = True
                m.event("re-solved after edits")
            if last not in (None, w):
                m.event("two workspaces interleaved")
            last = w
            check(sh, api, c, m, not sh.edited)
        elif op == "read" and sh.frozen:
            for c in sh.solved:
                check(sh, api, c, m, not sh.edited)
            log.append([w, "read", list(sh.solved)])
    m.describe(history=log)
    if resolved:
        m.distinct(log)


def unsolved(rng, m):
    """nothing is reported for what was not solved, and failed requests say so"""
    from hyperstatic.core import Api
    for _ in range(20):
        spec = gen.relabel(rng, gen.frame(rng, nmax=4, ncases=2))
        if ok_spec(spec):
            break
    m.describe(spec=spec)
    api = gen.build_api(spec, os.path.join(m.tmp(), "w"), m)
    n, b = spec["nodes"][0][0], spec["beams"][0]["name"]
    c0, c1 = [list(spec["cases"])[int(k)] for k in rng.permutation(2)]
    ask = lambda c, n=n, b=b: [api.result_get_nodal_displacement(n, c), api.result_get_all_nodal_displacement(c), api.result_get_nodal_reaction(n, c),
                     api.result_get_beam_end_force(b, c), api.result_get_beam_deformation(b, 0.5, c)]
    m.true("unsolved-case-has-no-result", all(r is None for r in ask(c0)), "before assembly")
    m.same("solve-before-assembly-fails", api.solve_static(c0), False)
    m.same("assemble-accepted", api.assemble(), True)
    m.true("unsolved-case-has-no-result", all(r is None for r in ask(c0)), "before solution")
    m.same("unknown-case-fails", api.solve_static("nope"), False)
    m.same("solve-accepted", api.solve_static(c0), True)
    m.true("solved-case-has-result", all(r is not None for r in ask(c0)), "after solution")
    m.true("unsolved-case-has-no-result", all(r is None for r in ask(c1)), "another case was solved")
    m.true("unsolved-case-has-no-result", all(r is None for r in ask("nope")), "unknown case")
    m.true("unknown-name-has-no-result", api.result_get_nodal_displacement("nope", c0) is None, "unknown node")
    m.true("unknown-name-has-no-result", api.result_get_beam_end_force("nope", c0) is None, "unknown beam")
    m.distinct(spec)


def two_files(rng, m):
    """two assemblies with file names of their own in one folder, static and modal solvers in any order: no leftovers"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.loadcase import ModalCase
    from hyperstatic.core.fe_solver.dynamic import ModalSolver
    from hyperstatic.core.fe_solver.static import StaticSolver
    path = m.tmp()
    specs = []
    while len(specs) < 2:
        s = gen.frame(rng, nmax=4, ncases=1, rotations=0.3, releases=0.2)
        s["cases"] = {"case%d" % len(specs): list(s["cases"].values())[0]}
        if ok_spec(s):
            specs.append(s)
    m.describe(specs=specs)
    todo = []
    for k, s in enumerate(specs):
        model = gen.build_model(s)
        cs = gen.build_cases(s, gen.build_patterns(s))
        Assembly(model, list(cs.values()) + [ModalCase("modal%d" % k, 1)]).save(path, "f%d.asb" % k)
        todo += [(k, "static"), (k, "modal"), (k, "static")]
    seen = set()
    for q in rng.permutation(len(todo)):
        k, what = todo[int(q)]
        s = specs[k]
        if what == "modal":
            free = s["rest"]
            try:
                ModalSolver(path, "f%d.asb" % k).solve("modal%d" % k)
            except Exception:       # too few free DOFs for the eigensolver; the leftovers are what is of interest
                pass
            seen.add("modal")
            continue
        if "modal" in seen:
            m.event("modal before static")
        StaticSolver(path, "f%d.asb" % k).solve_linear("case%d" % k)
        frame = ref.Frame(s)
        u, sc, cond = frame.solve(s["cases"]["case%d" % k])
        m.close("displacement-is-of-last-assembly", np.load(os.path.join(path, "case%d.d.npy" % k))[0], u[:frame.n], 1e-9 + 1e-13 * cond, sc[:frame.n] + 1e-300)
    m.distinct(specs)


KINDS = {"history": (history, 1020, 8160), "unsolved": (unsolved, 408, 3264), "two_files": (two_files, 816, 6528)}
