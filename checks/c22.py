"""C22: the viewers show the model as saved and the results as solved."""
import os
import sys
import numpy as np
from hv import core, ext, gen
from hv.core import Skip, Violation

PROP = "C22"
RULE = ("random frames and towers with shells (or without members, shells, forces or supports), saved through the Api and opened by each of the five viewers, whose window is a recording stand-in "
        "for the drawing library: random sequences of buttons and slider positions, the whole visible scene judged after every press; non-trivial: at least one press; distinct by structure and presses")
MUST_SEE = ["oracle:nodes-where-they-are", "oracle:members-between-their-ends", "oracle:shells-through-their-corners", "oracle:supports-marked", "oracle:arrows-at-loaded-nodes",
            "oracle:arrows-along-the-force", "oracle:deformed-nodes", "oracle:deformed-members", "oracle:deformed-shells", "oracle:colour-of-nodes", "oracle:colour-of-members", "oracle:label-tells-state",
            "oracle:reset-is-undeformed", "press", "relative path", "triangles drawn", "no shells", "no members", "no forces", "arrows drawn", "weak force beside strong", "cones drawn", "other press while deformed"]
ASSUMPTIONS = ["the drawing library itself is not installed: what the viewers ask it to draw is judged, not pixels", "showing a list of objects replaces what was shown before",
               "viewers look at the pattern pat1 and the case case1", "displacements themselves are decided under C01 to C04"]
TIMEOUT = 300


def prepare(tier):
    ext.prepare(tier)


def imports():
    sys.path.insert(0, os.path.join(core.VERIF, "lib", "shim_viz"))
    import hv_window
    hv_window.install()
    import hyperstatic.core
    import hyperstatic.app.viz.viz_core.model_basic, hyperstatic.app.viz.viz_core.model_load, hyperstatic.app.viz.viz_core.result_deformation
    import hyperstatic.app.viz.viz_core.viz_core_model, hyperstatic.app.viz.viz_core.viz_core_result_deformation


def draw(rng, solved):
    grid = rng.random() < 0.5
    if grid:
        spec = gen.tower(rng, nodes=(2, 60), npatterns=2, ncases=2, sides=((1, 4), (1, 4), (2, 5)))
    else:
        spec = gen.frame(rng, nmax=10, releases=0.2, ncases=2, npatterns=2, case_rest=0.5)
    spec = gen.relabel(rng, spec, 0.2)
    pats, cases = dict(zip(spec["patterns"], ("pat1", "pat2"))), dict(zip(spec["cases"], ("case1", "case2")))
    spec["patterns"] = {pats[k]: v for k, v in spec["patterns"].items()}
    spec["cases"] = {cases[k]: dict(v, patterns={pats[p]: f for p, f in v["patterns"].items()}) for k, v in spec["cases"].items()}
    for what in ("patterns", "cases"):
        if rng.random() < 0.5:
            spec[what] = dict(list(spec[what].items())[::-1])
    loc = {n: np.array(p) for n, p in spec["nodes"]}
    names = list(loc)
    shells = []
    if rng.random() < 0.7:
        for _ in range(int(rng.integers(1, 6))):
            if len(names) < 3:
                break
            c = [names[int(k)] for k in rng.permutation(len(names))[:3]]
            a, b = loc[c[1]] - loc[c[0]], loc[c[2]] - loc[c[0]]
            if np.linalg.norm(np.cross(a, b)) > 0.1 * np.linalg.norm(a) * np.linalg.norm(b) and np.linalg.norm(b - a) > 0.1 * np.linalg.norm(a):
                shells.append(c)
        if grid:
            at = {tuple(np.round(p, 6)): n for n, p in loc.items()}
            ax = [sorted({k[d] for k in at}) for d in range(3)]
            for _ in range(int(rng.integers(0, 8))):
                k = list(at)[int(rng.integers(len(at)))]
                d, e = [int(v) for v in rng.permutation(3)[:2]]
                if k[d] == ax[d][-1] or k[e] == ax[e][-1]:
                    continue
                up = lambda p, q: p[:q] + (ax[q][ax[q].index(p[q]) + 1],) + p[q + 1:]
                c = [k, up(k, d), up(up(k, d), e), up(k, e)]
                r = int(rng.integers(4))
                c = c[r:] + c[:r]
                shells.append([at[v] for v in (c[::-1] if rng.random() < 0.5 else c)])
    spec["shells"] = {"s%d" % v: c for v, c in zip(rng.permutation(3 * len(shells) + 1), shells)}
    mode = int(rng.choice(5, p=[0.6, 0.1, 0.1, 0.1, 0.1]))
    for p in spec["patterns"].values():
        keys = list(p["nodal"])
        p["nodal"] = {keys[int(k)]: p["nodal"][keys[int(k)]] for k in rng.permutation(len(keys))}
    pat = spec["patterns"]["pat1"]["nodal"]
    if len(pat) > 1 and rng.random() < 0.4:
        pat.update({n: [float(v) for v in np.array(f) * 10 ** rng.uniform(-5, 0)] for n, f in pat.items()})
    if mode == 1:
        spec["patterns"]["pat1"]["nodal"] = {}
    elif mode == 2:
        spec["patterns"]["pat1"]["nodal"] = {n: [0.0] * 3 + f[3:] for n, f in pat.items()}
    elif mode == 3 and pat:
        n = list(pat)[0]
        spec["patterns"]["pat1"]["nodal"] = {n: [0.0, 0.0, 0.0, 1.0, 0.0, 2.0], **{k: f for k, f in pat.items() if k != n}}
    if not solved:
        if mode == 4:
            spec["patterns"] = {"pat0" if k == "pat1" else k: v for k, v in spec["patterns"].items()}
            spec["cases"] = {k: dict(v, patterns={"pat0" if p == "pat1" else p: f for p, f in v["patterns"].items()}) for k, v in spec["cases"].items()}
        if rng.random() < 0.1:
            spec["beams"] = []
            for p in spec["patterns"].values():
                p["dist"], p["conc"] = {}, {}
        if rng.random() < 0.1:
            spec["rest"] = {}
    return spec


def build(rng, m, spec, path, solved):
    from hyperstatic.core import Api
    api = gen.build_api(spec, path)
    if spec["shells"]:
        api.add_isotropic_material("plate", 7850.0, 2e9 * 10 ** rng.uniform(-2, 2), 0.3, 1e-5)
        api.add_shell_section("plate", "plate", 0.01 * spec["L"], str(rng.choice(["shell", "membrane", "plate"])))
        for s, c in spec["shells"].items():
            m.true("shell-added", api.add_shell(s, *(c + [None])[:4], "plate"), s)
    if solved:
        api.assemble()
    name = str(rng.choice(["assembly", "model", "a.b", "模型"]))
    if not solved or rng.random() < 0.5:
        api.save(name)
        saved = True
    else:
        saved = False
    u = None
    if solved:
        for c in spec["cases"]:
            api.solve_static(c)
        u = {n: np.array(api.result_get_nodal_displacement(n, "case1")).reshape(-1) for n, _ in spec["nodes"]}
        if not all(v.shape == (6,) and np.all(np.isfinite(v)) for v in u.values()):
            raise Skip()        # a mechanism
        if not saved:
            api.save(name)
    return name, u


# ---------------------------------------------------------------- what is on the screen
class Screen:
    def __init__(self, m, spec, viewer, plt, u, marks, loads):
        import vedo
        self.v, self.m, self.spec, self.viewer, self.plt, self.u = vedo, m, spec, viewer, plt, u
        self.order = [n for n, _ in spec["nodes"]]
        self.loc = {n: np.array(p, dtype=float) for n, p in spec["nodes"]}
        P = np.array(list(self.loc.values()))
        self.size = max(np.ptp(P, axis=0).max(), 1e-9)
        self.tol = 1e-9 * self.size + 1e-13 * np.abs(P).max()
        self.marks, self.loads = marks, loads
        self.mode = None            # None or (direction, slider position)
        self.slid = None

    def visible(self, cls, but=()):
        return [a for a in self.plt.actors if isinstance(a, cls) and not isinstance(a, but) and a.visible]

    def points(self):
        if self.mode is None:
            return self.loc
        return {n: self.loc[n] + self.mode[1] * self.u[n][:3] for n in self.order}

    def button(self, *words):
        for b in self.plt.buttons:
            if any(w in b.states for w in words):
                return b

    def judge(self):
        m, v = self.m, self.v
        pts = self.points()
        how = "deformed" if self.mode else "plain"
        tol = self.tol + (1e-9 * abs(self.mode[1]) * max(np.abs(d[:3]).max() for d in self.u.values()) if self.mode else 0)
        col = None if self.mode is None else {n: self.u[n]["xyz".index(self.mode[0])] for n in self.order}
        want = np.array([pts[n] for n in self.order])

        # where the window looks
        P = np.array(list(self.loc.values()))
        lo, hi = P.min(axis=0) - 1e-6 * self.size - self.tol, P.max(axis=0) + 1e-6 * self.size + self.tol
        for c in self.plt.cameras:
            at = c.get("focalPoint", c.get("focal_point"))
            if at is not None:
                m.true("looks-at-the-model", np.all(np.array(at) >= lo) and np.all(np.array(at) <= hi), lambda: "towards %r, the nodes from %r to %r" % (at, lo, hi))
                if c.get("pos") is not None and np.ptp(P, axis=0).max() > 0:
                    m.true("looks-at-the-model", np.linalg.norm(np.array(c["pos"]) - np.array(at)) > 1e-6 * self.size, lambda: "from where it looks at: %r" % (c,))
        del self.plt.cameras[:]

        # nodes
        b = self.button("show_node", "show nodes")
        shown = not b.status().startswith("show")
        got = self.visible(v.Points)
        m.same("label-tells-state", len(got), 1 if shown else 0, "visible sets of nodes, the button says %r" % b.status())
        for a in got:
            m.same("one-point-per-node", len(a.pts), len(self.order))
            m.close("deformed-nodes" if self.mode else "nodes-where-they-are", np.array(a.pts) - want, 0 * want, 1.0, tol, how)
            if self.mode:
                self.colour("colour-of-nodes", a, [col[n] for n in self.order])
        if self.mode is None:
            m.event("oracle:reset-is-undeformed")

        # members
        b = self.button("hide_beam")
        shown = b is None or not b.status().startswith("show")
        got = [a for a in self.visible((v.Lines, v.Line), v.Arrows)]
        rows = [(p, q, a, 2 * k) for a in got for k, (p, q) in enumerate(a.segments)]
        if b is not None and self.spec["beams"]:
            m.same("label-tells-state", bool(rows), shown, "members visible, the button says %r" % b.status())
        if shown:
            ends = [(x["i"], x["j"]) for x in self.spec["beams"]]
            m.same("one-line-per-member", len(rows), len(ends))
            left = list(rows)
            for i, j in ends:
                k = [q for q, (p0, p1, a, at) in enumerate(left) if max(np.abs(p0 - pts[i]).max(), np.abs(p1 - pts[j]).max()) <= tol or max(np.abs(p0 - pts[j]).max(), np.abs(p1 - pts[i]).max()) <= tol]
                m.true("deformed-members" if self.mode else "members-between-their-ends", k, lambda: "no line from %s to %s (%s): %r" % (i, j, how, left[:3]))
                if self.mode:
                    ok = False
                    for q in k:
                        p0, p1, a, at = left[q]
                        c = a.scalars
                        if c is None or len(c) != 2 * len(a.segments):
                            raise Violation("colour-of-members", "%r colours for %d members" % (c if c is None else len(c), len(a.segments)))
                        pair = [col[i], col[j]] if np.abs(p0 - pts[i]).max() <= tol and np.abs(p1 - pts[j]).max() <= tol else [col[j], col[i]]
                        if np.allclose(c[at:at + 2], pair, rtol=1e-9, atol=0) or np.allclose(c[at:at + 2], pair[::-1], rtol=1e-9, atol=0) and np.abs(p0 - p1).max() <= tol:
                            ok = True
                            left.pop(q)
                            break
                    m.true("colour-of-members", ok, lambda: "%s to %s: %r" % (i, j, pair))
                else:
                    left.pop(k[0])

        # shells
        if self.shells_drawn:
            b = self.button("hide_shell")
            shown = b is None or not b.status().startswith("show")
            got = self.visible(v.Mesh)
            faces = [[a.pts[k] for k in f] for a in got for f in a.faces]
            want = list(self.spec["shells"].values()) if shown else []
            if b is not None and self.spec["shells"]:
                m.same("label-tells-state", bool(faces), shown, "shells visible, the button says %r" % b.status())
            m.same("one-face-per-shell", len(faces), len(want))
            for c in want:
                near = [k for k, f in enumerate(faces) if len(f) == len(c) and cyclic(np.array(f), np.array([pts[n] for n in c]), tol)]
                m.true("deformed-shells" if self.mode else "shells-through-their-corners", near, lambda: "no face through %r (%s)" % (c, how))
                faces.pop(near[0])
                if len(c) == 3:
                    m.event("triangles drawn")
            if self.mode:
                for a in got:
                    if a.faces and len(a.pts) == len(self.order):
                        self.colour("colour-of-shells", a, [col[n] for n in self.order])
            if not self.spec["shells"]:
                m.event("no shells")
        if not self.spec["beams"]:
            m.event("no members")

        # supports
        cones = self.visible(v.Cone)
        if self.marks is not None and (cones or self.marks_always):
            got = set()
            for c in cones:
                ax = np.array(c.axis)
                d = int(np.argmax(np.abs(ax)))
                near = [n for n in self.order for s in (0.5, 1.0) if np.abs(np.array(c.pos) + ax * c.height * s - self.loc[n]).max() <= self.tol + 1e-9 * c.height]
                m.true("cone-at-a-node", near, lambda: "%r %r" % (c.pos, c.axis))
                got.add((frozenset(near), d + (0 if ax[d] > 0 else 3)))
            self.supports(got)

        # loads
        b = self.button("show_nodal_load")
        arrows = self.visible(v.Arrows)
        if self.loads is not None and b is not None:
            shown = not b.status().startswith("show")
            if not shown:
                m.same("label-tells-state", len(arrows), 0, "the button says %r" % b.status())
            else:
                self.arrows(arrows)
            for a in self.plt.actors:
                if isinstance(a, v.Arrows) and a.scalarbar is not None:
                    m.same("scale-of-loads", a.scalarbar.visible, a.visible)

    def supports(self, got):
        want = {(n, d) for n, r in self.marks.items() for d in range(6) if r[d]}
        for n, d in want:
            self.m.true("supports-marked", any(n in near and d == e for near, e in got), lambda: "no mark for %s, freedom %d" % (n, d))
        for near, e in got:
            self.m.true("supports-marked", any((n, e) in want for n in near), lambda: "a mark at %r, freedom %d, which is free" % (near, e))
        self.m.event("cones drawn", len(got))

    def colour(self, oracle, a, want):
        if a.scalars is None:
            raise Violation(oracle, "no colours")
        self.m.close(oracle, a.scalars, want, 1e-9, max(np.abs(want).max(), 1e-300))
        lo, hi = a.limits
        if lo is not None and hi is not None:
            self.m.true(oracle, lo <= min(want) and max(want) <= hi, lambda: "limits %r" % (a.limits,))

    def arrows(self, arrows):
        m = self.m
        force = {n: np.array(f[:3]) for n, f in self.loads.items()}
        top = max([np.linalg.norm(f) for f in force.values()] + [0.0])
        if any(0 < np.linalg.norm(f) < 1e-3 * top for f in force.values()):
            m.event("weak force beside strong")
        rows = [(np.array(p), np.array(q), a, k) for a in arrows for k, (p, q) in enumerate(a.segments)]
        if not top:
            m.event("no forces")
            for p, q, *_ in rows:
                m.true("arrows-along-the-force", np.abs(q - p).max() <= self.tol, "an arrow where no force is")
            return
        ratio = []
        left = list(rows)
        for n, f in force.items():
            k = [i for i, (p, q, *_) in enumerate(left) if np.abs(q - self.loc[n]).max() <= self.tol]
            size = np.linalg.norm(f)
            if size == 0 and not k:
                continue
            m.true("arrows-at-loaded-nodes", k, lambda: "no arrow at %s" % n)
            p, q, a, at = left.pop(k[0])
            d = q - p
            if size > 1e-6 * top:
                ratio.append(np.linalg.norm(d) / size)
                m.true("arrows-along-the-force", np.linalg.norm(d / np.linalg.norm(d) - f / size) <= 1e-6 + 10 * self.tol / np.linalg.norm(d) if np.linalg.norm(d) > 0 else False, lambda: "%s: %r for %r" % (n, d, f))
            if a.scalars is not None:
                per = len(a.scalars) // len(a.segments)
                m.true("colour-of-loads", per and len(a.scalars) == per * len(a.segments), "%d colours for %d arrows" % (len(a.scalars), len(a.segments)))
                m.close("colour-of-loads", a.scalars[at * per:(at + 1) * per], [size] * per, 1e-9, top)
            m.event("arrows drawn")
        m.true("arrows-at-loaded-nodes", not left, lambda: "arrows where no load is: %r" % left[:3])
        m.close("arrows-to-one-scale", np.array(ratio) / max(ratio), np.ones(len(ratio)), 1.0, 1e-6 + 10 * self.tol / (max(ratio) * top * 1e-6) if len(ratio) > 1 else 1e-6)

    def press(self, rng):
        m = self.m
        slider = self.plt.sliders[0] if self.plt.sliders else None
        if slider is not None and (self.slid is None or rng.random() < 0.4):
            slider.value = float(rng.choice([rng.uniform(slider.xmin, slider.xmax), slider.xmax, 0.0, 1.0], p=[0.7, 0.1, 0.1, 0.1]))
            slider.fnc(slider, "InteractionEvent")
            self.slid = slider.value
        k = int(rng.integers(len(self.plt.buttons)))
        b = self.plt.buttons[k]
        before = b.status()
        others = [x.status() for x in self.plt.buttons if x is not b]
        deform = before if before.startswith("deform") else None
        back = before == "reset"
        if deform:
            if self.mode is not None:
                m.event("other press while deformed")
            self.mode = (deform[-1].lower(), self.slid)
        elif back:
            self.mode = None
        b.fnc()
        m.event("press")
        m.true("label-changes", b.status() != before, before)
        for x, was in zip([x for x in self.plt.buttons if x is not b], others):
            m.same("other-labels", x.status(), was if not (deform and was == "reset") else next(s for s in x.states if s.startswith("deform")), "after %r" % before)
        return before


def cyclic(f, c, tol):
    n = len(c)
    for g in (f, f[::-1]):
        for r in range(n):
            if np.abs(np.roll(g, r, axis=0) - c).max() <= tol:
                return True
    return False


def session(rng, m, which):
    import vedo
    from hyperstatic.app.viz.viz_core.model_basic import BasicViewer
    from hyperstatic.app.viz.viz_core.model_load import LoadViewer
    from hyperstatic.app.viz.viz_core.result_deformation import ResultViewer
    from hyperstatic.app.viz.viz_core import viz_core_model, viz_core_result_deformation
    cls = dict(basic=BasicViewer, load=LoadViewer, result=ResultViewer, model=viz_core_model.Viewer, deformation=viz_core_result_deformation.Viewer)[which]
    base = which in ("basic", "load", "result")
    solved = which in ("result", "deformation")
    spec = draw(rng, solved)
    top = m.tmp()
    path = os.path.join(top, str(rng.choice(["work", "my work", "工作"])))
    os.mkdir(path)
    relative = rng.random() < 0.4
    here = os.getcwd()
    pressed = []
    m.describe(spec=spec, viewer=which, pressed=pressed)
    try:
        if relative:
            os.chdir(top)
            path = os.path.basename(path)
            m.event("relative path")
        name, u = build(rng, m, spec, path, solved)
        del vedo.LAST[:]
        viewer = cls(path, name)
        plt = vedo.LAST[-1]
        marks = spec["rest"] if base else spec["cases"]["case1"]["rest"] if which == "deformation" else None
        if which == "deformation" and not marks:
            marks = None
        loads = spec["patterns"].get("pat1", {"nodal": {}})["nodal"] if which in ("load", "model") else None
        scr = Screen(m, spec, viewer, plt, u, marks, loads)
        scr.shells_drawn = which != "deformation"
        scr.marks_always = which == "deformation" and marks is not None

        def someone(p):
            m.same("one-window", p, plt)
            m.true("window-shown", p.shows > 0, "")
            scr.judge()
            for _ in range(int(rng.integers(1, 9))):
                if base and rng.random() < 0.15:
                    on = bool(rng.random() < 0.5)
                    viewer.toggle_restraints(on)
                    pressed.append("supports %s" % on)
                    if on and marks:
                        m.true("supports-marked", scr.visible(vedo.Cone), "supports turned on")
                    else:
                        m.same("supports-marked", scr.visible(vedo.Cone), [], "supports turned off, or none")
                elif base and rng.random() < 0.1:
                    getattr(viewer, str(rng.choice(["reset", "reset_view"])))()
                    pressed.append("view")
                else:
                    pressed.append(scr.press(rng))
                scr.judge()
            m.distinct(spec, pressed)

        vedo.SCRIPT[0] = someone
        if base and rng.random() < 0.4:
            vedo.SCRIPT[0] = None
            viewer.show()
            someone(plt)
        else:
            viewer.run()
        m.true("window-was-used", pressed, "the window never came up")
    finally:
        vedo.SCRIPT[0] = None
        os.chdir(here)


KINDS = {w: ((lambda rng, m, w=w: session(rng, m, w)), q, t) for w, q, t in
         (("basic", 150, 6000), ("load", 150, 6000), ("model", 150, 6000), ("result", 120, 5000), ("deformation", 120, 5000))}
