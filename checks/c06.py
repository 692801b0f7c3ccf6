"""C06: what is stored is what is asked back; refused calls say so and change nothing."""
import os
import numpy as np
from hv import gen
from checks.c01 import imports

PROP = "C06"
RULE = ("random call sequences on the Api facade and on the model, valid and invalid calls mixed, followed call by call by a dictionary model "
        "that predicts every return value and is compared with every query after each call; non-trivial: accepted and refused calls both "
        "occur; distinct by call sequence")
MUST_SEE = ["answers written to", "accepted", "refused", "oracle:return-value", "oracle:state-after-call", "oracle:duplicate-merged", "oracle:ids-are-dense", "oracle:pattern-returns-what-was-set",
            "oracle:mutating-a-result-changes-nothing", "several nodes at the place already", "members with a section", "names that look alike",
            "oracle:nearer-than-tolerance-merged", "oracle:farther-than-tolerance-kept", "hardly farther than the tolerance", "far from the origin", "another tolerance", "member at the place of another"]
ASSUMPTIONS = ["loads and case supports may name nodes and members that do not exist (yet); nothing is claimed about them"]


def lst(x):
    return [float(v) for v in np.asarray(x, dtype=float).ravel()]


def query(api, s, m, step, spoiled=False):
    q = "after %s" % (step,)
    m.same("state-after-call", api.get_node_names(), list(s["nodes"]), q)
    m.same("state-after-call", api.get_beam_names(), list(s["beams"]), q)
    m.same("state-after-call", api.get_shell_names(), list(s["shells"]), q)
    for n, p in s["nodes"].items():
        m.same("state-after-call", lst(api.get_node_location(n)), p, q)
    for b, (i, j) in s["beams"].items():
        m.same("state-after-call", tuple(api.get_beam_node_names(b)), (i, j), q)
        m.same("state-after-call", [lst(v) for v in api.get_beam_location(b)], [s["nodes"][i], s["nodes"][j]], q)
    for b, ns in s["shells"].items():
        m.same("state-after-call", tuple(api.get_shell_node_names(b)), tuple(ns), q)
        m.same("state-after-call", [lst(v) for v in api.get_shell_location(b)], [s["nodes"][n] for n in ns], q)
    m.same("state-after-call", {k: [bool(x) for x in v] for k, v in api.get_node_restraints().items()}, s["rest"], q)
    for c, r in s["cases"].items():
        m.same("state-after-call", {k: [bool(x) for x in v] for k, v in api.get_node_restraints(c).items()}, r, q)
    for p, loads in s["patterns"].items():
        m.same("state-after-call", {k: lst(v) for k, v in api.get_all_nodal_load(p).items()}, loads, q)
        for n, v in loads.items():
            m.same("state-after-call", lst(api.get_nodal_load(p, n)), v, q)
    if spoiled:
        gen.spoil(api.get_node_names(), api.get_beam_names(), api.get_shell_names(), api.get_node_restraints(), *[api.get_node_location(n) for n in s["nodes"]], *[api.get_beam_location(b) for b in s["beams"]],
                  *[api.get_shell_location(b) for b in s["shells"]], *[api.get_node_restraints(c) for c in s["cases"]], *[api.get_all_nodal_load(p) for p in s["patterns"]],
                  *[api.get_nodal_load(p, n) for p, v in s["patterns"].items() for n in v])
        m.event("answers written to")
        query(api, s, m, "writing to the answers %s" % q, False)
    for f, a in ((api.get_node_location, "?"), (api.get_beam_node_names, "?"), (api.get_beam_location, "?"), (api.get_shell_node_names, "?"),
                 (api.get_shell_location, "?"), (api.get_node_restraints, "?"), (api.get_all_nodal_load, "?")):
        m.true("unknown-name-gives-none", f(a) is None, "%s of an unknown name" % f.__name__)


def facade(rng, m):
    from hyperstatic.core import Api
    api = Api(os.path.join(m.tmp(), "w"))
    s = dict(nodes={}, mats=set(), secs=set(), ssecs=set(), beams={}, shells={}, rest={}, cases={}, patterns={})
    log = []
    pick = lambda pool, bad=0.15: "?" if not pool or rng.random() < bad else str(rng.choice(sorted(pool)))
    # now and then in whole numbers
    num = lambda k: [float(v) for v in np.round(rng.normal(size=k) * 10, 3)] if rng.random() < 0.7 else [int(v) for v in np.round(rng.normal(size=k) * 10)]
    seen = set()
    fmt = gen.NAMES[int(rng.integers(len(gen.NAMES)))]
    names = {"node": [fmt % k for k in range(8)], "mat": ["mat%d" % k for k in range(3)], "g": ["g%d" % k for k in range(3)], "sh": ["sh0", "sh1"], "b": ["b%d" % k for k in range(6)],
             "s": ["s%d" % k for k in range(4)], "P": ["P%d" % k for k in range(4)], "C": ["C%d" % k for k in range(4)],
             **{k: [k + "0", k + "1"] for k in ("rectangle", "I", "box", "circle", "pipe")}}
    if rng.random() < 0.3:
        # what carries almost the same name is something else
        names = {k: gen.alike(rng, len(v)) for k, v in names.items()}
        for v in names.values():
            if "?" in v:
                v[v.index("?")] = "??"
        secs = gen.alike(rng, 13)
        for q, k in enumerate(("g", "rectangle", "I", "box", "circle", "pipe")):
            names[k] = secs[:3] if q == 0 else secs[1 + 2 * q:3 + 2 * q]
        m.event("names that look alike")
    any_of = lambda k: names[k][int(rng.integers(len(names[k])))]
    for step in range(int(rng.integers(20, 60))):
        op = str(rng.choice(["node", "node", "node", "material", "general", "section", "shell section", "beam", "simple", "shell", "restraint", "mass", "pattern",
                             "nodal load", "dist", "conc", "case", "case pattern", "case restraint", "release"]))
        want = True
        if op == "node":
            n = any_of("node")
            if n in s["nodes"] and (any(n in v for v in s["beams"].values()) or any(n in v for v in s["shells"].values())):
                continue            # moving a connected node: nothing is claimed
            p = num(3)
            call = ("add_node", n, *p)
            s["nodes"][n] = p
        elif op == "material":
            n = any_of("mat")
            call = ("add_isotropic_material", n, 7850.0, 2e11, 0.3, 1e-5)
            s["mats"].add(n)
        elif op == "general":
            mt = pick(s["mats"])
            want = mt in s["mats"]
            n = any_of("g")
            call = ("add_beam_section_general", n, mt, *[abs(v) + .1 for v in num(8)])
            if want:
                s["secs"].add(n)
        elif op == "section":
            mt = pick(s["mats"])
            want = mt in s["mats"]
            k = str(rng.choice(["rectangle", "I", "box", "circle", "pipe"]))
            n = any_of(k)
            size = {"rectangle": (0.4, 0.2), "I": (0.4, 0.2, 0.01, 0.02), "box": (0.4, 0.2, 0.01, 0.02), "circle": (0.3,), "pipe": (0.3, 0.01)}[k]
            call = ("add_beam_section_" + k, n, mt, *size)
            if want:
                s["secs"].add(n)
        elif op == "shell section":
            mt = pick(s["mats"])
            want = mt in s["mats"]
            n = any_of("sh")
            call = ("add_shell_section", n, mt, 0.2, str(rng.choice(["shell", "plate", "membrane"])))
            if want:
                s["ssecs"].add(n)
        elif op in ("beam", "simple"):
            i, j = pick(s["nodes"], 0.1), pick(s["nodes"], 0.1)
            n = any_of("b")
            want = i in s["nodes"] and j in s["nodes"] and s["nodes"][i] != s["nodes"][j]
            if op == "beam":
                sec = pick(s["secs"], 0.1)
                want = want and sec in s["secs"]
                call = ("add_beam", n, i, j, sec)
            else:
                call = ("add_simple_beam", n, i, j, 2e11, 0.3, 0.01, 1e-5, 2e-5, 1e-5, 7850.0)
            if want:
                s["beams"][n] = (i, j)
        elif op == "shell":
            if len(s["nodes"]) < 4:
                continue
            ns = [str(v) for v in rng.permutation(sorted(s["nodes"]))[:4]]
            P = [np.array(s["nodes"][n]) for n in ns]
            if min(np.linalg.norm(np.cross(P[k] - P[k - 1], P[(k + 1) % 4] - P[k])) for k in range(4)) < 1:
                continue
            sec = pick(s["ssecs"])
            if rng.random() < 0.15:
                ns[int(rng.integers(4))] = "?"
            n = any_of("s")
            want = sec in s["ssecs"] and "?" not in ns
            call = ("add_shell", n, *ns, sec)
            if want:
                s["shells"][n] = tuple(ns)
        elif op == "restraint":
            n = pick(s["nodes"])
            v = [bool(x) for x in rng.random(6) < 0.5]
            want = n in s["nodes"]
            call = ("set_nodal_restraint", n, *v)
            if want:
                s["rest"][n] = v
        elif op == "mass":
            n = pick(s["nodes"])
            want = n in s["nodes"]
            call = ("set_nodal_mass", n, *[abs(v) for v in num(6)])
        elif op == "pattern":
            n = any_of("P")
            if n in s["patterns"]:
                continue
            call = ("add_loadpattern", n)
            s["patterns"][n] = {}
        elif op == "nodal load":
            p = pick(s["patterns"])
            n = pick(s["nodes"], 0)
            v = num(6)
            want = p in s["patterns"]
            call = ("set_nodal_load", p, n, *v)
            if want:
                s["patterns"][p][n] = v
        elif op in ("dist", "conc"):
            p = pick(s["patterns"])
            b = pick(s["beams"], 0)
            want = p in s["patterns"]
            call = ("set_beam_load_distributed", p, b, *num(8)) if op == "dist" else ("set_beam_load_concentrated", p, b, *num(6), 0.3)
        elif op == "case":
            n = any_of("C")
            if n in s["cases"]:
                continue
            call = (str(rng.choice(["add_static_case", "add_modal_case"])), n)
            s["cases"][n] = {}
        elif op == "case pattern":
            c, p = pick(s["cases"]), pick(s["patterns"])
            want = c in s["cases"] and p in s["patterns"]
            call = ("add_case_pattern", c, p, float(rng.normal()))
        elif op == "case restraint":
            c, n = pick(s["cases"]), pick(s["nodes"], 0)
            v = [bool(x) for x in rng.random(6) < 0.5]
            want = c in s["cases"]
            call = ("set_loadcase_nodal_restraint", c, n, *v)
            if want:
                s["cases"][c][n] = v
        elif op == "release":
            b = pick(s["beams"])
            want = b in s["beams"]
            call = ("set_beam_release", b, *[bool(x) for x in rng.random(12) < 0.2])
        log.append([*call, want])
        got = getattr(api, call[0])(*call[1:])
        m.same("return-value", got, want, "%s%r" % (call[0], call[1:]))
        m.event("accepted" if want else "refused")
        seen.add(want)
        query(api, s, m, call, rng.random() < 0.2)
    m.describe(calls=log)
    if len(seen) == 2:
        m.distinct(log)


def model(rng, m):
    """ids, counts, duplicate detection and the copies handed out"""
    from hyperstatic.core.fe_model.model import Model
    model = Model()
    model.add_isotropic_material("material", 7850.0, 2e11, 0.3, 1e-5)
    model.add_beam_section_general("section", "material", 0.01, 0.01, 0.01, 1e-5, 2e-5, 1e-5, 1.0, 1.0)
    nodes, beams = {}, {}
    log = []
    grid = lambda: [float(v) for v in rng.integers(0, 3, 3)]
    nnames, bnames = ["n%d" % k for k in range(40)], ["b%d" % k for k in range(40)]
    if rng.random() < 0.3:
        nnames, bnames = gen.alike(rng, 40), gen.alike(rng, 40)
        m.event("names that look alike")
    for step in range(int(rng.integers(15, 45))):
        dup = bool(rng.random() < 0.5)
        if rng.random() < 0.5 or len(nodes) < 3:
            n, p = nnames[int(rng.integers(40))], grid()
            if n in nodes:
                continue
            off = [float(v) for v in rng.choice([0.0, 1e-11, -1e-11], 3)] if dup else [0.0] * 3
            same = [k for k, v in nodes.items() if v == p]
            r = model.add_node(n, *[a + b for a, b in zip(p, off)], check_dup=dup)
            log.append(["node", n, p, dup])
            if dup and same:
                m.same("duplicate-merged", r, model.get_node_hid(same[0]))
                if len(same) > 1:
                    m.event("several nodes at the place already")
                m.true("duplicate-merged", n not in model.get_node_names(), "a duplicate was added")
            else:
                nodes[n] = p
                m.same("new-gets-next-id", r, len(nodes) - 1)
        else:
            i, j = [str(v) for v in rng.permutation(sorted(nodes))[:2]]
            if nodes[i] == nodes[j]:
                continue
            n = bnames[int(rng.integers(40))]
            if n in beams:
                continue
            ends = {tuple(nodes[i]), tuple(nodes[j])}
            same = [k for k, (a, b) in beams.items() if {tuple(nodes[a]), tuple(nodes[b])} == ends]
            if rng.random() < 0.5:
                r = model.add_simple_beam(n, i, j, 2e11, 0.3, 0.01, 1e-5, 2e-5, 1e-5, 7850.0, check_dup=dup)
            else:
                r = model.add_beam(n, i, j, "section", check_dup=dup)
                m.event("members with a section")
            log.append(["beam", n, i, j, dup])
            if dup and same:
                m.true("duplicate-merged", r in [model.get_beam_hid(k) for k in same], "id %r for a beam at the place of %s" % (r, same))
                m.true("duplicate-merged", n not in model.get_beam_names(), "a duplicate was added")
            else:
                beams[n] = (i, j)
                m.same("new-gets-next-id", r, len(beams) - 1)
        m.same("counts", (model.node_count, model.beam_count), (len(nodes), len(beams)))
        m.same("names-in-order", (model.get_node_names(), model.get_beam_names()), (list(nodes), list(beams)))
    m.same("ids-are-dense", sorted(model.get_node_hid(n) for n in nodes), list(range(len(nodes))))
    m.same("ids-are-dense", sorted(model.get_beam_hid(n) for n in beams), list(range(len(beams))))
    for b, (i, j) in beams.items():
        m.same("connection", tuple(model.get_beam_connection(b)), (i, j))
        m.same("connection", list(model.get_beam_node_hids(b)), [model.get_node_hid(i), model.get_node_hid(j)])
        m.close("length", model.get_beam_length(b), np.linalg.norm(np.array(nodes[i]) - nodes[j]), 1e-9)
    # set once more under the same name: the id stays
    n = str(rng.choice(sorted(nodes)))
    h = model.get_node_hid(n)
    if not any(n in v for v in beams.values()):
        p = grid()
        m.same("same-name-keeps-id", model.add_node(n, *p), h)
        m.same("same-name-keeps-id", (model.node_count, model.get_node_hid(n), lst(model.get_node_location(n))), (len(nodes), h, p))
    # restraints handed out are copies
    v = [bool(x) for x in rng.random(6) < 0.5]
    m.same("known-node-accepted", model.set_nodal_restraint(n, *v), True)
    m.same("unknown-node-refused", model.set_nodal_restraint("?", *v), False)
    d = model.get_nodal_restraint_dict()
    d[n][:] = [not x for x in v]
    d["x"] = 1
    m.same("mutating-a-result-changes-nothing", {k: [bool(x) for x in w] for k, w in model.get_nodal_restraint_dict().items()}, {n: v})
    mass = [float(x) for x in rng.random(6)]
    model.set_nodal_mass(n, *mass)
    m.same("mass", lst(model.get_nodal_mass(n)), mass)
    at = lst(model.get_node_location(n))
    gen.spoil(model.get_nodal_mass(n), model.get_node_location(n), model.get_node_names(), model.get_beam_names())
    m.same("mutating-a-result-changes-nothing", (lst(model.get_nodal_mass(n)), lst(model.get_node_location(n)), model.get_node_names(), model.get_beam_names()), (mass, at, list(nodes), list(beams)))
    m.close("mass", model.get_node_M(n).toarray(), np.diag(mass), 1e-12)
    m.describe(calls=log)
    m.distinct(log)


def near(rng, m):
    """nodes and members at the same place are those nearer than the tolerance, near the origin and far from it"""
    from hyperstatic.core.fe_model.model import Model
    from hyperstatic.common.tolerance import Tolerance
    tol = Tolerance.abs_tol()
    model = Model()
    far = float(rng.choice([0.0, 10.0, 1e3, 1e5])) if rng.random() < 0.7 else 0.0
    if rng.random() < 0.2:
        tol = float(10 ** rng.uniform(-6, -2))
    before = Tolerance.abs_tol()
    try:
        if tol != before:
            Tolerance.set_abs_tol(tol)
            m.event("another tolerance")
        if far:
            m.event("far from the origin")
        nodes, beams, log = {}, {}, [far, tol]
        bases = [rng.uniform(-far, far, 3) + rng.uniform(-5, 5, 3) for _ in range(4)]
        for k in range(int(rng.integers(6, 20))):
            p = bases[int(rng.integers(4))]
            d = rng.normal(size=3) if rng.random() < 0.6 else rng.choice([-1.0, 1.0], 3)
            far_off = rng.random() < 0.3
            size = 10 ** rng.uniform(np.log10(3 * tol), -1) if far_off else tol * float(rng.choice([0, rng.uniform(0, 0.8), rng.uniform(1.2, 1.8)]))
            q = [float(v) for v in p + d / np.linalg.norm(d) * size]
            dist = {n: float(np.linalg.norm(np.array(q) - v)) for n, v in nodes.items()}
            if any(0.9 * tol < v < 1.1 * tol for v in dist.values()):
                continue
            dup = bool(rng.random() < 0.7)
            same = [n for n, v in dist.items() if v < tol]
            n = "n%d" % k
            r = model.add_node(n, *q, check_dup=dup)
            log.append([n, q, dup])
            if dup and same:
                m.same("nearer-than-tolerance-merged", (n in model.get_node_names(), r), (False, model.get_node_hid(same[0])))
            else:
                m.same("farther-than-tolerance-kept", (n in model.get_node_names(), r), (True, len(nodes)))
                nodes[n] = np.array(q)
                if dup and dist and min(dist.values()) < 2 * tol:
                    m.event("hardly farther than the tolerance")
        close = lambda a, b: np.linalg.norm(nodes[a] - nodes[b]) < tol
        for k in range(6):
            i, j = [str(v) for v in rng.choice(sorted(nodes), 2)]
            if np.linalg.norm(nodes[i] - nodes[j]) < 0.5:
                continue
            same = [n for n, (a, b) in beams.items() if close(a, i) and close(b, j) or close(a, j) and close(b, i)]
            dup = bool(rng.random() < 0.7)
            r = model.add_simple_beam("b%d" % k, i, j, 2e11, 0.3, 0.01, 1e-5, 2e-5, 1e-5, 7850.0, check_dup=dup)
            log.append(["b%d" % k, i, j, dup])
            if dup and same:
                m.same("nearer-than-tolerance-merged", ("b%d" % k in model.get_beam_names(), r in [model.get_beam_hid(n) for n in same]), (False, True))
                m.event("member at the place of another")
            else:
                m.same("farther-than-tolerance-kept", ("b%d" % k in model.get_beam_names(), r), (True, len(beams)))
                beams["b%d" % k] = (i, j)
    finally:
        Tolerance.set_abs_tol(before)
    m.describe(calls=log)
    m.distinct(log)


def pattern(rng, m):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    p = LoadPattern("p")
    four = gen.alike(rng, 4) if rng.random() < 0.3 else ["x0", "x1", "x2", "x3"]
    s = dict(nodal={}, disp={}, dist={}, conc={})
    log = []
    for _ in range(int(rng.integers(5, 25))):
        n = four[int(rng.integers(4))]
        v = [float(x) for x in rng.normal(size=8)] if rng.random() < 0.7 else [int(x) for x in np.round(rng.normal(size=8) * 5)]
        op = str(rng.choice(list(s)))
        if op == "nodal":
            p.set_nodal_load(n, *v[:6])
            s[op][n] = v[:6]
        elif op == "disp":
            p.set_nodal_disp(n, *v[:6])
            s[op][n] = v[:6]
        elif op == "dist":
            p.set_beam_load_dist(n, *v)
            s[op][n] = [v[0], v[2], v[4], v[6], 0, 0, v[1], v[3], v[5], v[7], 0, 0]
        else:
            p.set_beam_load_conc(n, *v[:6], r=0.25)
            s[op][n] = v[:6] + [0.25]
        log.append([op, n, v])
        get = dict(nodal=p.get_nodal_f, disp=p.get_nodal_d, dist=p.get_beam_distributed, conc=p.get_beam_concentrated)
        for k, f in get.items():
            for x in four:
                r = f(x)
                if x in s[k]:
                    m.true("pattern-returns-what-was-set", r is not None and lst(r) == s[k][x], lambda: "%s of %s: %r, set %r" % (k, x, r, s[k][x]))
                else:
                    m.true("pattern-returns-what-was-set", r is None, "%s of %s was never set" % (k, x))
        m.same("pattern-dictionaries", {k: lst(v) for k, v in p.get_nodal_f_dict().items()}, s["nodal"])
        m.same("pattern-dictionaries", {k: lst(v) for k, v in p.get_nodal_d_dict().items()}, s["disp"])
    m.describe(calls=log)
    m.distinct(log)


KINDS = {"facade": (facade, 3600, 28800), "model": (model, 4500, 36000), "near": (near, 2500, 20000), "pattern": (pattern, 1800, 14400)}
