"""C23: a project keeps what is put into it, in the units it was given in."""
import copy
import os
import sqlite3
import numpy as np
from hv import ext

PROP = "C23"
RULE = ("random histories of calls on one or two projects (units changed on the way; joints, frames one by one and in batches, sections, materials, cases, supports, loads, results, settings; "
        "things moved, merged, deleted and refused; saved, closed, abandoned and opened again; exported to and imported from DXF), compared with a dictionary of everything in SI units after every few calls; "
        "dimensions of the sections alone; non-trivial: at least one frame was asked; distinct by history")
MUST_SEE = ["oracle:joint-names", "oracle:joint-coordinates", "oracle:joints-by-coordinates", "oracle:frame-names", "oracle:frame-ends", "oracle:frame-end-coordinates", "oracle:supports-stored",
            "oracle:joint-loads-stored", "oracle:frame-loads-stored", "oracle:sections-stored", "oracle:materials-stored", "oracle:cases-stored", "oracle:case-settings-stored", "a name given once more", "oracle:settings", "oracle:results-in-unit",
            "oracle:section-constants", "oracle:refused", "oracle:joints-shared", "oracle:dxf-lines", "oracle:dxf-imported", "oracle:opened-as-saved",
            "frame along existing joints", "frame with a new joint", "frame stored the other way round", "unit changed", "merged", "several loads merged", "two supports merged", "many joints merged", "moved", "deleted", "batch", "refused while something is stored",
            "abandoned", "closed", "material by its code", "two projects", "N_m_C", "N_mm_C", "kN_m_C", "kN_mm_C"]
ASSUMPTIONS = ["projects are used through app.general.model.Model; functions it does not bind (loads on frames, merging) are called with the model", "joints are deleted only when no frame ends there, sections and materials only when unused",
               "a refused call may undo what was not saved yet: the project is saved before", "areas, meshing and running are not part of it"]
TIMEOUT = 120
F = {"N_m_C": 1.0, "N_mm_C": 1.0, "kN_m_C": 1e3, "kN_mm_C": 1e3}
L = {"N_m_C": 1.0, "N_mm_C": 1e-3, "kN_m_C": 1.0, "kN_mm_C": 1e-3}
NAMES = ["A", "a", "梁 1", "S-1", "s-1", "S-1 ", "1", "01", "x'y", "Å", "%", "B_2", "B2"]


def prepare(tier):
    ext.prepare(tier)


def imports():
    import hyperstatic.core, hyperstatic.app.general.model


class Shadow:
    def __init__(self):
        self.unit, self.tol, self.title, self.author, self.text = "N_m_C", 1e-6, "dev", "HZJ", None
        self.joints, self.frames = {}, {}
        self.rest, self.load = {}, {}
        self.dist, self.conc, self.strain, self.temp = {}, {}, {}, {}
        self.fsec = {"1-L-H400x200x14x20": ("I", [0.4, 0.2, 0.014, 0.02], "Q345")}
        self.asec = {"A-M120": ("m", 0.12, "C35")}
        self.mat = {"Q345": (7849.0, 2e11, 0.3), "C35": (2500.0, 2e10, 0.2)}
        self.case = {"S": ("static-linear", 1.0)}
        self.disp, self.reac, self.force, self.period = {}, {}, {}, {}

    def at(self, p):
        """joints at a place; None where the tolerance leaves it open"""
        near = []
        for n, q in self.joints.items():
            d = np.max(np.abs(np.array(p) - q))
            if d < 0.98 * self.tol:
                near.append(n)
            elif d < 1.02 * self.tol:
                return None
        return near


def section(kind, v):
    """A, I22, I33, J or None, J roughly or None, W33, W22"""
    pi = np.pi
    if kind == "o":
        d, = v
        i = pi * d**4 / 64
        return pi * d * d / 4, i, i, 2 * i, None, 2 * i / d, 2 * i / d
    if kind == "O":
        d, t = v
        e = d - 2 * t
        i = pi * (d**4 - e**4) / 64
        return pi * (d * d - e * e) / 4, i, i, 2 * i, None, 2 * i / d, 2 * i / d
    if kind == "R":
        h, b = v
        return h * b, h * b**3 / 12, b * h**3 / 12, None, None, b * h * h / 6, h * b * b / 6
    if kind == "B":
        h, b, tw, tf = v
        i2, i3 = (h * b**3 - (h - 2 * tf) * (b - 2 * tw)**3) / 12, (b * h**3 - (b - 2 * tw) * (h - 2 * tf)**3) / 12
        return h * b - (h - 2 * tf) * (b - 2 * tw), i2, i3, 2 * ((h - tf) * (b - tw))**2 / ((h - tf) / tw + (b - tw) / tf), None, i3 / h * 2, i2 / b * 2
    if kind == "I":
        h, b, tw, tf = v
        return section("I2", [h, b, tf, tw, b, tf])
    h, b1, f1, tw, b2, f2 = v
    parts = [(h - f1 / 2, f1, b1), (f2 / 2, f2, b2), (f2 + (h - f1 - f2) / 2, h - f1 - f2, tw)]     # height of the centre, height, width
    A = sum(x * w for _, x, w in parts)
    y0 = sum(y * x * w for y, x, w in parts) / A
    i3 = sum(w * x**3 / 12 + x * w * (y - y0)**2 for y, x, w in parts)
    i2 = sum(x * w**3 / 12 for y, x, w in parts)
    j = sum(max(x, w) * min(x, w)**3 / 3 * (1 - 0.63 * min(x, w) / max(x, w)) for y, x, w in parts)
    return A, i2, i3, None, j, i3 / max(y0, h - y0), i2 / max(b1, b2) * 2


def draw_section(rng, kinds):
    k = str(rng.choice(kinds))
    h = float(10 ** rng.uniform(-1.5, 0.3))
    u = lambda a, b: float(h * rng.uniform(a, b))
    return k, {"o": lambda: [h], "O": lambda: [h, u(0.01, 0.45)], "R": lambda: [h, u(0.1, 3)], "B": lambda: [h, u(0.3, 2), u(0.02, 0.1), u(0.02, 0.2)],
               "I": lambda: [h, u(0.3, 1.2), u(0.01, 0.05), u(0.01, 0.05)], "I2": lambda: [h, u(0.3, 1.2), u(0.01, 0.05), u(0.01, 0.05), u(0.3, 1.2), u(0.01, 0.05)]}[k]()


class Project:
    def __init__(self, rng, m, path, log):
        from hyperstatic.app.general.model import Model
        self.rng, self.m, self.path, self.log = rng, m, path, log
        self.cls = Model
        self.p = Model()
        self.s = Shadow()
        self.gone = []          # names of what was deleted
        if rng.random() < 0.5:
            self.p.create(path)
        self.p.open(path)
        if rng.random() < 0.3:
            self.p.delete_frame_section("1-L-H400x200x14x20")
            self.p.delete_material("Q345")
            self.s.fsec.clear()
            del self.s.mat["Q345"]
            self.p.save()
        self.saved = copy.deepcopy(self.s)
        self.serial = 0
        self.step = float(10 ** rng.uniform(-1, 1))
        self.grid, self.beside = (3, 3, 3), None
        self.away = np.round(rng.normal(size=3) * rng.choice([0, 0, 50]), 2)
        if rng.random() < 0.4:
            self.away = -self.step * rng.integers(0, 4, 3)

    # ---------------------------------------------------------------- small helpers
    @property
    def f(self):
        return F[self.s.unit]

    @property
    def l(self):
        return L[self.s.unit]

    def place(self):
        """a place of the lattice, sometimes a little beside it"""
        p = self.away + self.step * self.rng.integers(0, self.grid)
        k = self.rng.random()
        if self.beside:
            if k < 0.4:
                p[self.rng.integers(3)] += self.beside
        elif k < 0.3:
            p = p + self.s.tol * self.rng.uniform(-0.3, 0.3, 3)
        elif k < 0.4:
            p[self.rng.integers(3)] += min(self.s.tol * 10 ** self.rng.uniform(0.1, 3), 0.05 * self.step)    # beside it, but not the same
        return [float(v) for v in p]

    def name(self, taken):
        self.serial += 1
        gone = [n for n in self.gone if n not in taken]
        if gone and self.rng.random() < 0.3:
            n = gone[int(self.rng.integers(len(gone)))]
            self.m.event("a name given once more")
            return n
        free = [n for n in NAMES if n not in taken]
        return str(self.rng.choice(free)) if free and self.rng.random() < 0.7 else "n%d" % self.serial

    def pick(self, d):
        k = list(d)
        return k[int(self.rng.integers(len(k)))] if k else None

    def vec(self, n):
        return [float(v) for v in np.round(self.rng.normal(size=n) * 10 ** self.rng.uniform(-2, 5), 4) * (self.rng.random(n) < 0.8)]

    def near(self, oracle, got, want, what):
        want = np.array(want, dtype=float)
        self.m.close(oracle, got, want, 1e-12, np.abs(want).max() + 1e-300, what)

    # ---------------------------------------------------------------- calls
    def do_unit(self):
        u = str(self.rng.choice(list(F)))
        self.m.true("settings", self.p.set_unit(u) is True, u)
        self.s.unit = u
        self.m.event("unit changed")

    def do_settings(self):
        s, p = self.s, self.p
        k = int(self.rng.integers(4))
        t = str(self.rng.choice(["tower", "Brücke 1", "x" * 31, "", "作者"]))
        if k == 0:
            self.m.true("settings", p.set_project_name(t) is True, t)
            s.title = t
        elif k == 1:
            self.m.true("settings", p.set_author(t) is True, t)
            s.author = t
        elif k == 2:
            t = t * int(self.rng.integers(1, 40)) + "\n'"
            self.m.true("settings", p.set_description(t) is True, t)
            s.text = t
        else:
            tol = float(min(10 ** self.rng.uniform(-7, -1.5), 0.03 * self.step))
            self.m.true("settings", p.set_tolerance(tol / self.l) is True, tol)
            s.tol = tol

    def do_joint(self):
        p = self.place()
        near = self.s.at(p)
        if near is None:
            return
        n = self.p.add_joint(*p)
        self.take_joint(n, p, near)

    def take_joint(self, n, p, near):
        if near:
            self.m.true("joints-shared", n in near, lambda: "%r at %r, where %r are" % (n, p, near))
        else:
            self.m.true("joints-shared", isinstance(n, str) and n not in self.s.joints, lambda: "%r for a new joint" % (n,))
            self.s.joints[n] = list(p)

    def ends(self):
        for _ in range(20):
            a, b = self.place(), self.place()
            if np.max(np.abs(np.subtract(a, b))) > 0.1 * self.step and self.s.at(a) is not None and self.s.at(b) is not None:
                return a, b

    def place_frame(self, name, a, b, sec):
        """what the project made of a frame from a to b"""
        m, s = self.m, self.s
        got = self.p.get_frame_end_names(name)
        m.true("frame-ends", got is not None and len(got) == 2, lambda: "%r of %s" % (got, name))
        for n, q in zip(got, (a, b)):
            near = s.at(q)
            m.event("frame along existing joints" if near else "frame with a new joint")
            self.take_joint(n, q, near)
        s.frames[name] = (got[0], got[1], sec)
        if got[0] > got[1]:
            m.event("frame stored the other way round")

    def do_frame(self):
        e = self.ends()
        sec = self.pick(self.s.fsec)
        if not e or not sec:
            return
        a, b = e
        name = self.name(self.s.frames) if self.rng.random() < 0.7 else None
        got = self.p.add_frame(tuple(v / self.l for v in a), tuple(v / self.l for v in b), sec, *([name] if name else []))
        if name:
            self.m.same("frame-names", got, name)
        self.m.true("frame-names", isinstance(got, str) and got not in self.s.frames, lambda: repr(got))
        self.place_frame(got, a, b, sec)

    def do_batch(self):
        sec = self.pick(self.s.fsec)
        rows = [e for e in (self.ends() for _ in range(int(self.rng.integers(1, 7)))) if e]
        if not sec or not rows:
            return
        got = self.p.add_frame_batch([tuple(tuple(v / self.l for v in q) for q in e) for e in rows], sec)
        self.m.true("batch-added", got and got[0] is True and len(got[1]) == len(rows) and len(set(got[1])) == len(rows) and not set(got[1]) & set(self.s.frames), lambda: repr(got))
        for n, (a, b) in zip(got[1], rows):
            self.place_frame(n, a, b, sec)
        self.m.event("batch")

    def do_move(self):
        n = self.pick(self.s.joints)
        if n is None:
            return
        p = self.place() if self.rng.random() < 0.5 else list(self.s.joints[self.pick(self.s.joints)])
        self.m.true("joint-moved", self.p.set_joint_coordinate(n, *[v / self.l for v in p]) is True, n)
        self.s.joints[n] = p
        self.m.event("moved")

    def do_merge(self):
        from hyperstatic.app.general.object import joint
        m, s = self.m, self.s
        tol = self.beside * 20 if self.beside else self.step * float(10 ** self.rng.uniform(-3, -1.5))
        P = np.array(list(s.joints.values())).reshape(-1, 3)
        for i in range(len(P)):
            d = np.linalg.norm(P - P[i], axis=1)
            if np.any((d > 0.1 * tol) & (d < 10 * tol)):
                return
        m.true("merged", joint.merge_joints(self.p, tol / self.l) is True, "merge_joints")
        left = set(self.p.get_joint_names())
        names, groups, seen = list(s.joints), [], set()
        for i, n in enumerate(names):
            if n not in seen:
                g = [names[k] for k in np.nonzero(np.linalg.norm(P - P[i], axis=1) < tol)[0]]
                groups.append(g)
                seen |= set(g)
        to = {}
        for g in groups:
            kept = [n for n in g if n in left]
            m.true("merged", len(kept) == 1, lambda: "%r of %r left" % (kept, g))
            to.update({n: kept[0] for n in g})
            if len(g) > 1:
                m.event("merged")
                if sum(q in g for q, _ in s.load) > 2:
                    m.event("several loads merged")
                if sum(any(s.rest.get(n, [])) for n in g) > 1:
                    m.event("two supports merged")
        if len(names) > 70:
            m.event("many joints merged")
        m.same("merged", left, set(to.values()))
        s.joints = {n: v for n, v in s.joints.items() if n in left}
        rest, load = {}, {}
        for n, r in s.rest.items():
            rest[to[n]] = [a or b for a, b in zip(rest.get(to[n], [False] * 6), r)]
        for (n, c), v in s.load.items():
            load[to[n], c] = [a + b for a, b in zip(load.get((to[n], c), [0.0] * 6), v)]
        s.rest, s.load = rest, load
        for b, (i, j, sec) in list(s.frames.items()):
            if to[i] == to[j]:
                self.drop_frame(b)
            else:
                s.frames[b] = (to[i], to[j], sec)
        gone = set(to) - left
        for d in (s.disp, s.reac):
            for k in [k for k in d if k[0] in gone]:
                del d[k]

    def drop_frame(self, b):
        s = self.s
        del s.frames[b]
        for d in (s.dist, s.conc, s.strain, s.temp):
            for k in [k for k in d if k[0] == b]:
                del d[k]

    def do_material(self):
        n = self.name(self.s.mat)
        rho, E, mu = float(self.rng.uniform(500, 9000)) * (self.rng.random() < 0.8), float(10 ** self.rng.uniform(8, 12)), float(self.rng.uniform(0, 0.49)) * (self.rng.random() < 0.8)
        a, b = self.f * self.l**-4, self.f * self.l**-2
        if self.rng.random() < 0.5 and "Q345" not in self.s.mat:
            self.p.add_material_quick("Q345")
            self.s.mat["Q345"] = (7850.0, 2.06e11, 0.3)
            self.m.event("material by its code")
            return
        self.m.true("materials-stored", self.p.add_material(n, rho / a, "isotropic_elastic", E=E / b, mu=mu) is True, n)
        self.s.mat[n] = (rho, E, mu)
        if self.rng.random() < 0.3:
            n = self.pick(self.s.mat)
            E, mu = float(10 ** self.rng.uniform(8, 12)), float(self.rng.uniform(0, 0.49)) * (self.rng.random() < 0.7)
            self.m.true("materials-stored", self.p.set_material_isotropic_elastic(n, E / b, mu) is True, n)
            self.s.mat[n] = (self.s.mat[n][0], E, mu)

    def do_section(self):
        n, mat = self.name(self.s.fsec), self.pick(self.s.mat)
        if mat is None:
            return
        if self.rng.random() < 0.7:
            k, v = draw_section(self.rng, ["o", "O", "I"])
            self.m.true("sections-stored", self.p.add_frame_section(n, mat, k, [x / self.l for x in v]) is True, n)
            self.s.fsec[n] = (k, v, mat)
        else:
            n, t, k = self.name(self.s.asec), float(self.rng.uniform(0.01, 1)), str(self.rng.choice(list("mpsn")))
            self.m.true("sections-stored", self.p.add_area_section(n, mat, k, t / self.l) is True, n)
            self.s.asec[n] = (k, t, mat)

    def do_case(self):
        n = self.name(self.s.case)
        k, w = str(self.rng.choice(["static-linear", "2nd", "3nd", "modal", "response-spectrum", "time-history", "buckling"])), float(np.round(self.rng.uniform(-1.5, 2), 2)) * (self.rng.random() < 0.8)
        self.m.same("cases-stored", self.p.add_loadcase(n, k, w), n)
        self.s.case[n] = (k, w)

    def do_rest(self):
        s = self.s
        if not s.joints:
            return
        r = [bool(v) for v in self.rng.random(6) < self.rng.choice([0.0, 0.5, 1.0], p=[0.15, 0.6, 0.25])]
        if self.rng.random() < 0.4:
            k = int(self.rng.integers(6))
            r = [i == k for i in range(6)]
        if self.rng.random() < 0.6:
            n = self.pick(s.rest if s.rest and self.rng.random() < 0.6 else s.joints)
            self.m.true("supports-stored", self.p.set_joint_restraint(n, r) is True, n)
            s.rest[n] = r
        else:
            ns = [n for n in s.joints if self.rng.random() < 0.5]
            self.m.true("supports-stored", self.p.set_joint_restraint_batch(ns, r) is True, ns)
            s.rest.update({n: r for n in ns})

    def do_load(self):
        from hyperstatic.app.general.object import frame
        s, m, p = self.s, self.m, self.p
        c, n, b = self.pick(s.case), self.pick(s.joints), self.pick(s.frames)
        if c is None:
            return
        fl = [self.f] * 3 + [self.f * self.l] * 3
        k = int(self.rng.integers(6))
        if k <= 1 and n:
            v = self.vec(6)
            m.true("joint-loads-stored", p.set_joint_load(n, c, [a / u for a, u in zip(v, fl)]) is True, n)
            s.load[n, c] = v
        elif k == 2 and b:
            v = self.vec(12)
            m.true("frame-loads-stored", frame.set_frame_load_distributed(p, b, c, [a / u for a, u in zip(v, ([self.f / self.l] * 3 + [self.f] * 3) * 2)]) is True, b)
            s.dist[b, c] = v
        elif k == 3 and b:
            v, at = self.vec(6), float(self.rng.choice([0.0, 1.0, np.round(self.rng.random(), 3)]))
            m.true("frame-loads-stored", frame.set_frame_load_concentrated(p, b, c, [a / u for a, u in zip(v, fl)], at) is True, b)
            s.conc[b, c] = v + [at]
        elif k == 4 and b:
            v = float(self.rng.choice([0.0, 1.0, np.round(self.rng.random(), 5)]))
            m.true("frame-loads-stored", frame.set_frame_load_strain(p, b, c, v) is True, b)
            s.strain[b, c] = [v]
        elif k == 5 and b:
            v = float(np.round(self.rng.normal() * self.rng.choice([0, 30, 800]), 2))
            m.true("frame-loads-stored", frame.set_frame_load_temperature(p, b, c, v) is True, b)
            s.temp[b, c] = [v]
        if b and self.s.fsec and self.rng.random() < 0.1:
            sec = self.pick(s.fsec)
            m.true("sections-stored", frame.set_frame_section(p, b, sec) is True, b)
            s.frames[b] = s.frames[b][:2] + (sec,)

    def do_result(self):
        from hyperstatic.app.general import orm
        s, c, n, b = self.s, self.pick(self.s.case), self.pick(self.s.joints), self.pick(self.s.frames)
        if c is None:
            return
        add = self.p.session.add
        six = lambda t, a: ["%s%s%d" % (x, a, i) for x in t for i in (1, 2, 3)]
        if n and (n, c) not in s.disp:
            s.disp[n, c] = self.vec(6)
            add(orm.ResultJointDisplacement(joint_name=n, loadcase_name=c, **dict(zip(six("ur", ""), s.disp[n, c]))))
            s.reac[n, c] = self.vec(6)
            add(orm.ResultJointReaction(joint_name=n, loadcase_name=c, **dict(zip(six("pm", ""), s.reac[n, c]))))
        if b and (b, c) not in s.force:
            s.force[b, c] = [self.vec(12) for _ in range(int(self.rng.integers(1, 4)))]
            for i, v in enumerate(s.force[b, c]):
                add(orm.ResultFrameForce(frame_name=b, loadcase_name=c, segment=i, **dict(zip(six("pm", "0") + six("pm", "1"), v))))
        if c not in s.period:
            s.period[c] = [float(v) for v in np.sort(self.rng.random(int(self.rng.integers(1, 6))) * 3 + 0.01)[::-1]]
            for i, v in enumerate(s.period[c]):
                add(orm.ResultModalPeriod(loadcase_name=c, order=i + 1, omega=2 * np.pi / v, period=v, frequency=1 / v))

    def do_delete(self):
        s, p = self.s, self.p
        before = {*s.frames, *s.fsec, *s.asec, *s.mat, *s.case}
        k = int(self.rng.integers(6))
        resulted = {b for b, _ in s.force}
        if k == 0:
            b = self.pick([b for b in s.frames if b not in resulted])
            if b is None:
                return
            p.delete_frame(b)
            self.drop_frame(b)
        elif k == 1:
            used = {n for b in s.frames.values() for n in b[:2]} | {n for n, _ in s.disp}
            n = self.pick([n for n in s.joints if n not in used])
            if n is None:
                return
            p.delete_joint(n)
            del s.joints[n]
            s.rest.pop(n, None)
            s.load = {q: v for q, v in s.load.items() if q[0] != n}
        elif k == 2:
            n = self.pick([n for n in s.fsec if n not in {b[2] for b in s.frames.values()}])
            if n is None or len(s.fsec) < 2:
                return
            p.delete_frame_section(n)
            del s.fsec[n]
        elif k == 3:
            n = self.pick(s.asec)
            if n is None or len(s.asec) < 2:
                return
            p.delete_area_section(n)
            del s.asec[n]
        elif k == 4:
            n = self.pick([n for n in s.mat if n not in {v[2] for v in s.fsec.values()} | {v[2] for v in s.asec.values()}])
            if n is None:
                return
            p.delete_material(n)
            del s.mat[n]
        else:
            n = self.pick([c for c in s.case if c not in s.period])
            if n is None:
                return
            p.delete_loadcase(n)
            del s.case[n]
            for a in ("load", "dist", "conc", "strain", "temp"):
                setattr(s, a, {q: v for q, v in getattr(s, a).items() if q[1] != n})
        self.gone += sorted(before - {*s.frames, *s.fsec, *s.asec, *s.mat, *s.case} - set(self.gone))
        self.m.event("deleted")

    def do_refused(self):
        s, p, m = self.s, self.p, self.m
        self.do_save()
        mat, fs, ar, c, b = self.pick(s.mat), self.pick(s.fsec), self.pick(s.asec), self.pick(s.case), self.pick(s.frames)
        calls = [("unit", lambda: p.set_unit(str(self.rng.choice(["N_cm_C", "", "n_m_c"])))), ("name", lambda: p.set_project_name("x" * 40)), ("author", lambda: p.set_author("x" * 32)),
                 ("tolerance", lambda: p.set_tolerance("1")), ("section without material", lambda: p.add_frame_section("new", "no such material", "o", [1.0])),
                 ("no such joint", lambda: p.set_joint_restraint("no such joint", [True] * 6)), ("no such joint", lambda: p.set_joint_coordinate("no such joint", 0, 0, 0)),
                 ("no such joint", lambda: p.set_joint_load("no such joint", c, [1.0] * 6)), ("no such frame", lambda: p.delete_frame("no such frame")), ("no such material", lambda: p.delete_material("?")),
                 ("no such case", lambda: p.delete_loadcase("no such case")), ("no such section", lambda: p.delete_frame_section("none")), ("no such section", lambda: p.delete_area_section("none")), ("kind of area", lambda: p.add_area_section("new", mat, "mp", 1.0)), ("no such joint", lambda: p.delete_joint("none"))]
        if mat:
            calls += [("material twice", lambda: p.add_material(mat, 1.0, "isotropic_elastic", E=1.0, mu=0.1)), ("sizes", lambda: p.add_frame_section("new", mat, "O", [1.0])), ("sizes", lambda: p.add_frame_section("new", mat, "I", [1.0] * 3))]
        if "Q345" in s.mat:
            calls += [("material twice", lambda: p.add_material_quick("Q345"))]
        if fs and mat:
            calls += [("section twice", lambda: p.add_frame_section(fs, mat, "o", [1.0]))]
        if ar and mat:
            calls += [("section twice", lambda: p.add_area_section(ar, mat, "m", 1.0))]
        if c:
            calls += [("case twice", lambda: p.add_loadcase(c, "modal"))]
        e = self.ends()
        if e and fs:
            q = [tuple(v / self.l for v in x) for x in e]
            calls += [("section of frame", lambda: p.add_frame(q[0], q[1], "no such section")), ("section of frames", lambda: p.add_frame_batch([q], "no such section"))]
            if b:
                calls += [("frame twice", lambda: p.add_frame(q[0], q[1], fs, b))] * 3
            if s.joints:
                x = tuple(v / self.l for v in s.joints[self.pick(s.joints)])
                if len(s.at([v * self.l for v in x]) or []) == 1:
                    calls += [("frame of no length", lambda: p.add_frame(x, x, fs))] * 2
        for k in range(3):
            what, call = calls[int(self.rng.integers(len(calls)))]
            try:
                got = call()
            except Exception:
                got = False
            self.log.append("refused: " + what)
            m.true("refused", got is False or got is None, lambda: "%s: %r" % (what, got))
            self.ask(brief=True)
        if s.frames:
            m.event("refused while something is stored")

    def do_save(self):
        self.p.save()
        self.saved = copy.deepcopy(self.s)

    def do_open(self):
        m = self.m
        if self.rng.random() < 0.5:
            self.p.close()
            m.true("closed", os.path.exists(self.path), "the project is gone")
            m.event("closed")
            if self.rng.random() < 0.5:
                self.p = self.cls()
        else:
            self.p.session.close()
            self.p = self.cls()
            m.event("abandoned")
        self.p.open(self.path)
        self.s = copy.deepcopy(self.saved)
        m.event("oracle:opened-as-saved")
        self.ask()

    def do_export(self):
        import ezdxf
        m, s = self.m, self.s
        top = os.path.dirname(self.path)
        f = os.path.join(top, "out.dxf")
        was = os.path.exists(f)
        over = bool(self.rng.random() < 0.7)
        before = open(f, "rb").read() if was else None
        got = self.p.export_dxf(top, "out.dxf", **({"overwrite": over} if over or self.rng.random() < 0.5 else {}))
        if was and not over:
            m.same("refused", got, False, "export onto a file that is there")
            m.same("refused", open(f, "rb").read(), before, "the file was overwritten")
            return
        m.true("dxf-lines", got is True, "export_dxf")
        lines = [(tuple(e.dxf.start), tuple(e.dxf.end)) for e in ezdxf.readfile(f).modelspace() if e.dxftype() == "LINE"]
        want = [(np.array(s.joints[i]) / self.l, np.array(s.joints[j]) / self.l) for i, j, _ in s.frames.values()]
        self.match("dxf-lines", lines, want)
        m.same("refused", self.p.export_dxf(top, "out.txt"), False, "not a DXF name")
        m.same("refused", self.p.export_dxf(os.path.join(top, "nowhere"), "out.dxf"), False, "no such folder")
        self.imported(f, want)

    def match(self, oracle, got, want, tol=0.0):
        self.m.same(oracle, len(got), len(want))
        left = [np.concatenate([np.array(a, dtype=float), np.array(b, dtype=float)]) for a, b in got]
        for a, b in want:
            w = np.concatenate([a, b])
            k = [i for i, g in enumerate(left) if np.max(np.abs(g - w)) <= tol + 1e-9 * max(np.max(np.abs(w)), 1e-3)]
            self.m.true(oracle, k, lambda: "nothing from %r to %r" % (a, b))
            left.pop(k[0])

    def imported(self, f, want):
        """the lines of a file in an empty project"""
        import ezdxf
        m, rng = self.m, self.rng
        layers = []
        if rng.random() < 0.5:
            d = ezdxf.readfile(f)
            ms = d.modelspace()
            ms.add_circle((0, 0, 0), 3.0)
            ms.add_point((1, 2, 3))
            d.layers.add("other")
            for k in range(int(rng.integers(1, 4))):
                a = np.array([k, 1.0, 7.0]) * self.step / self.l
                b = a + np.array([0, 2.0, 1.0]) * self.step / self.l
                ms.add_line(a, b, dxfattribs={"layer": "other"})
                if not layers and k == 0 and rng.random() < 0.5:
                    layers = ["0"] if rng.random() < 0.5 else ["other"]
                    keep = list(want)
                    want = [] if layers == ["other"] else want
                if layers != ["0"]:
                    want = want + [(a, b)]
            f = f[:-4] + "2.dxf"
            d.saveas(f)
        from hyperstatic.app.general.model import Model
        q = Model()
        path = os.path.join(os.path.dirname(f), "import%d.mdo" % self.serial)
        self.serial += 1
        if os.path.exists(path):
            return
        q.open(path)
        u = str(rng.choice(list(F)))
        q.set_unit(u)
        P = np.array(want).reshape(-1, 3) * L[u]
        want = [(a, b) for a, b in want if np.max(np.abs(a - b)) * L[u] > 1e-6]
        for i in range(len(P)):
            d = np.max(np.abs(P - P[i]), axis=1)
            if np.any((d > 0.5e-6) & (d < 2e-6)) or np.any((d > 1e-8) & (d < 1e-6)):
                return
        got = q.import_dxf(f, *([layers] if layers else []), types="f")
        m.true("dxf-imported", got and got[0] is True, lambda: repr(got))
        names = got[1].get("frames", [])
        ends = [q.get_frame_end_coors(n) for n in names]
        m.same("dxf-imported", sorted(names), sorted(q.get_frame_names()))
        self.match("dxf-imported", [(e[:3], e[3:]) for e in ends], want, 1e-8 / L[u])
        places = []
        for p in P:
            if not any(np.max(np.abs(p - x)) < 1e-6 for x in places):
                places.append(p)
        m.same("joints-shared", len(q.get_joint_names()), len(places), "joints of the imported lines")
        m.same("dxf-imported", q.import_dxf(f + ".no"), False, "not a DXF name")
        q.close()

    # ---------------------------------------------------------------- questions
    def ask(self, brief=False):
        m, s, p = self.m, self.s, self.p
        m.event(s.unit)
        m.same("settings", (p.get_unit(), p.get_project_name(), p.get_author(), p.get_description()), (s.unit, s.title, s.author, s.text))
        self.near("settings", p.get_tolerance(), s.tol / self.l, "tolerance")
        m.same("joint-names", sorted(p.get_joint_names()), sorted(s.joints))
        m.same("frame-names", sorted(p.get_frame_names()), sorted(s.frames))
        m.same("sections-stored", sorted(p.get_frame_section_names()), sorted(s.fsec))
        m.same("sections-stored", sorted(p.get_area_section_names()), sorted(s.asec))
        m.same("materials-stored", sorted(p.get_material_names()), sorted(s.mat))
        m.same("cases-stored", sorted(p.get_loadcase_names()), sorted(s.case))
        for b, (i, j, _) in s.frames.items():
            m.same("frame-ends", tuple(p.get_frame_end_names(b) or ()), (i, j), b)
            self.near("frame-end-coordinates", p.get_frame_end_coors(b), np.array(s.joints[i] + s.joints[j]) / self.l, b)
        if brief:
            return
        for n, v in s.joints.items():
            self.near("joint-coordinates", p.get_joint_coordinate(n), np.array(v) / self.l, n)
        for _ in range(3):
            q = self.place()
            know = [bool(v) for v in self.rng.random(3) < 0.6]
            d = {n: max([abs(q[k] - v[k]) for k in range(3) if know[k]], default=0) for n, v in s.joints.items()}
            if any(0.98 * s.tol < v < 1.02 * s.tol for v in d.values()):
                continue
            got = p.get_joint_name_by_coor(**{k: q["xyz".index(k)] / self.l for i, k in enumerate("xyz") if know[i]})
            m.same("joints-by-coordinates", sorted(got), sorted(n for n, v in d.items() if v < s.tol), "%r %r" % (q, know))
        for (n, c), v in s.disp.items():
            self.six("results-in-unit", p.get_result_joint_displacement(n, c), v, [self.l] * 3 + [1.0] * 3)
        for (n, c), v in s.reac.items():
            self.six("results-in-unit", p.get_result_joint_reaction(n, c), v, [self.f] * 3 + [self.f * self.l] * 3)
        for (b, c), v in s.force.items():
            if b in s.frames:
                got = p.get_result_frame_force(b, c)
                m.same("results-in-unit", len(got), len(v))
                for g, w in zip(got, v):
                    self.six("results-in-unit", g, w, ([self.f] * 3 + [self.f * self.l] * 3) * 2)
        for c, v in s.period.items():
            m.close("results-in-unit", p.get_result_period(c), v, 1e-12, 1.0)
            k = int(self.rng.integers(len(v)))
            m.close("results-in-unit", p.get_result_period(c, k + 1), [v[k]], 1e-12, 1.0)
        m.same("results-in-unit", p.get_result_joint_displacement("no such joint", "S"), None)

    def six(self, oracle, got, want, unit):
        self.m.true(oracle, got is not None and len(got) == len(want), lambda: repr(got))
        w = np.array(want) / unit
        for g, x in zip(got, w):
            self.m.close(oracle, g, x, 1e-12, abs(x) + 1e-300)

    def rows(self):
        """the tables of the saved file"""
        m, s = self.m, self.s
        self.do_save()
        db = sqlite3.connect(self.path)
        db.row_factory = sqlite3.Row
        get = lambda t: [dict(r) for r in db.execute("select * from %s" % t)]
        pm = lambda a: [k + a + i for k in "pm" for i in "123"]
        try:
            got = {r["joint_name"]: [bool(r[k]) for k in ("u1", "u2", "u3", "r1", "r2", "r3")] for r in get("joint_restraints")}
            m.same("supports-stored", {k: v for k, v in got.items() if any(v)}, {k: v for k, v in s.rest.items() if any(v)})
            for oracle, table, who, cols, want in (("joint-loads-stored", "jointloads", "joint_name", pm(""), s.load), ("frame-loads-stored", "frame_load_distributeds", "frame_name", pm("0") + pm("1"), s.dist),
                                                   ("frame-loads-stored", "frame_load_concentrated", "frame_name", pm("") + ["loc"], s.conc), ("frame-loads-stored", "frame_load_strain", "frame_name", ["strain"], s.strain),
                                                   ("frame-loads-stored", "frame_laod_teamperature", "frame_name", ["T"], s.temp)):
                got = {(r[who], r["loadcase_name"]): [r[k] for k in cols] for r in get(table)}
                m.same(oracle, sorted(got), sorted(want), table)
                for k, v in want.items():
                    for g, w in zip(got[k], v):
                        m.true(oracle, g is not None and abs(g - w) <= 1e-9 * max(abs(w), 1e-6 * max(map(abs, v))), lambda: "%s of %r: %r instead of %r" % (table, k, got[k], v))
            el = {r["material_name"]: r for r in get("isotropic_elastics")}
            got = {r["name"]: r for r in get("materials")}
            m.same("materials-stored", (sorted(got), sorted(el)), (sorted(s.mat), sorted(s.mat)))
            for n, (rho, E, mu) in s.mat.items():
                for g, w in ((got[n]["rho"], rho), (el[n]["E"], E), (el[n]["mu"], mu)):
                    m.close("materials-stored", g, w, 1e-12, abs(w) + 1e-300, n)
            got = {r["name"]: r for r in get("frame_sections")}
            m.same("sections-stored", sorted(got), sorted(s.fsec))
            for n, (k, v, mat) in s.fsec.items():
                r = got[n]
                m.same("sections-stored", r["material_name"], mat, n)
                for i, x in enumerate(v):
                    m.close("sections-stored", r["size_%d" % i], x, 1e-12, x, n)
                A, i2, i3, J, Jr, *_ = section(k, v)
                for g, w in ((r["A"], A), (r["I2"], i2), (r["I3"], i3)) + (((r["J"], J),) if J else ()):
                    m.close("section-constants", g, w, 1e-9, w, "%s %r" % (n, v))
                if Jr:
                    m.close("section-constants", r["J"], Jr, 0.2, Jr, "%s %r" % (n, v))
            got = {r["name"]: (r["type"], r["t"], r["material_name"]) for r in get("area_sections")}
            m.same("sections-stored", sorted(got), sorted(s.asec))
            for n, (k, t, mat) in s.asec.items():
                m.same("sections-stored", (got[n][0], got[n][2]), (k, mat))
                m.close("sections-stored", got[n][1], t, 1e-12, t)
            m.same("cases-stored", {r["name"]: (r["case_type"], r["weight_factor"]) for r in get("loadcases")}, s.case)
            for kind, table in (("static-linear", "laodcase_static_linear_settings"), ("modal", "loadcase_modal_settings"), ("2nd", "loadcase_2nd_settings"), ("3nd", "loadcase_3nd_settings"),
                                ("response-spectrum", "loadcase_response_spectrum_settings"), ("time-history", "loadcase_time_history_settings"), ("buckling", "loadcase_buckling_settings")):
                m.same("case-settings-stored", sorted(r["loadcase_name"] for r in get(table)), sorted(c for c, v in s.case.items() if v[0] == kind), table)
            m.same("sections-stored", {r["name"]: r["section_name"] for r in get("frames")}, {b: v[2] for b, v in s.frames.items()})
        finally:
            db.close()


OPS = dict(unit=3, settings=1, joint=3, frame=6, batch=2, move=2, merge=1, material=1, section=2, case=1, rest=3, load=4, result=1, delete=2, refused=1, save=1, open=1, export=0.5)


def history(rng, m):
    top = m.tmp()
    log = []
    m.describe(history=log)
    ps = []
    for k in range(1 if rng.random() < 0.7 else 2):
        d = os.path.join(top, "p %d" % k)
        os.mkdir(d)
        ps.append(Project(rng, m, os.path.join(d, "project.mdo"), log))
    if len(ps) > 1:
        m.event("two projects")
    w = np.array(list(OPS.values())) * 10 ** rng.uniform(-0.5, 0.5, len(OPS))
    for _ in range(int(rng.integers(8, 40))):
        k = int(rng.integers(len(ps)))
        op = str(rng.choice(list(OPS), p=w / w.sum()))
        log.append("%d %s" % (k, op))
        getattr(ps[k], "do_" + op)()
        if rng.random() < 0.3:
            ps[int(rng.integers(len(ps)))].ask()
    for p in ps:
        p.ask()
        p.rows()
        p.ask()
        p.p.close()
    if any(p.s.frames for p in ps):
        m.distinct(log, [p.s.joints for p in ps])


def merging(rng, m):
    """many joints beside one another, with supports and loads of several cases"""
    top = m.tmp()
    log = []
    m.describe(history=log)
    p = Project(rng, m, os.path.join(top, "project.mdo"), log)
    p.beside = 1e-3 * p.step * float(rng.uniform(0.3, 1))
    p.grid = [(1, 10, 10), (5, 4, 4), (2, 2, 2), (100, 1, 1)][int(rng.integers(4))]
    p.do_unit()
    for _ in range(int(rng.integers(1, 4))):
        p.do_case()
    p.do_section()
    for op, n in (("joint", 130), ("frame", 12), ("batch", 3), ("rest", 25), ("load", 80)):
        for _ in range(int(n * rng.uniform(0.3, 1.2))):
            getattr(p, "do_" + op)()
    for _ in range(2):
        p.do_merge()
        p.ask()
        p.rows()
        for op in ("joint", "unit", "frame", "rest", "load"):
            getattr(p, "do_" + op)()
    p.p.close()
    m.distinct(p.grid, p.s.joints)


def sections(rng, m):
    from hyperstatic.app.general.property import frame_section as fs
    for _ in range(20):
        k, v = draw_section(rng, ["o", "O", "R", "B", "I", "I2"])
        m.describe(section=(k, v))
        c = {"o": fs.Circle, "O": fs.Pipe, "R": fs.Rectangle, "B": fs.HollowBox, "I": fs.ISection, "I2": fs.ISection2}[k](None, *v)
        A, i2, i3, J, Jr, w3, w2 = section(k, v)
        for what, g, x in (("A", c.A, A), ("I22", c.I22, i2), ("I33", c.I33, i3), ("W33", c.W33, w3), ("W22", c.W22, w2), ("i33", c.i33, (i3 / A)**0.5), ("i22", c.i22, (i2 / A)**0.5)):
            m.close("section-constants", g, x, 1e-9, x, "%s of %s %r" % (what, k, v))
        if J:
            m.close("section-constants", c.J, J, 1e-9, J, "J of %s %r" % (k, v))
        if Jr:
            m.close("section-constants", c.J, Jr, 0.2, Jr, "J of %s %r" % (k, v))
        m.distinct(k, v)


KINDS = {"history": (history, 250, 14000), "merging": (merging, 24, 1200), "sections": (sections, 40, 2000)}
