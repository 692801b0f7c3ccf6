"""C15: load patterns, load cases and curves answer for exactly what was put into them."""
import numpy as np
from hv import gen, ref

PROP = "C15"
RULE = ("random histories of calls on several load patterns shared by several load cases of every kind (loads set and set again, patterns added before and after they are "
        "loaded, factors changed, curves of different lengths, supports, settings), every query compared with a dictionary model on the way; non-trivial: a case with two "
        "patterns was asked; distinct by history")
MUST_SEE = ["oracle:pattern-query", "oracle:case-nodal-force", "oracle:case-force-at-step", "oracle:case-time-history", "oracle:case-force-dictionary", "oracle:case-displacement-dictionary",
            "oracle:case-member-force", "oracle:case-supports", "oracle:case-steps", "oracle:case-settings", "oracle:answers-are-not-live", "oracle:order-refused", "oracle:curve-samples",
            "oracle:assembled-load-at-step", "oracle:assembled-settings", "pattern changed after it was added", "pattern added again", "curve that jumps", "step beyond the end of a curve",
            "static", "modal", "time history", "plain", "response spectrum"]
ASSUMPTIONS = ["factors are changed for patterns the case holds only", "a curve gives the load at its own steps and none beyond its end", "member loads carry factors but no curves"]


def imports():
    import hyperstatic.core.fe_model.assembly, hyperstatic.core.fe_model.load.loadcase, hyperstatic.common.curve


def vec(rng, k):
    v = np.round(rng.normal(size=k) * 10 ** rng.uniform(-2, 4), 4) * (rng.random(k) < 0.8)
    if rng.random() < 0.2:                       # written in whole numbers
        return [int(round(x)) for x in v]
    return [float(x) for x in v]


class Pat:
    def __init__(self):
        self.nodal, self.disp, self.dist, self.conc = {}, {}, {}, {}

    def beam(self, b, l):
        f = np.zeros(12)
        if b in self.dist:
            f += ref.f_dist(self.dist[b], l)
        if b in self.conc:
            f += ref.f_conc(self.conc[b], l)
        return f


NODES = ["1", "2", "N", "节点"]
BEAMS = ["b", "1", "c"]
ONE = np.array([[0.0, 1], [1, 1]])


def ask_pattern(m, p, s, q):
    for n in NODES + ["?"]:
        for got, want in ((p.get_nodal_f(n), s.nodal), (p.get_nodal_d(n), s.disp)):
            if n in want:
                m.close("pattern-query", got, want[n], 0, 1, q)
                gen.spoil(got)
            else:
                m.true("pattern-query", got is None, lambda: "%r for an unloaded node %s" % (got, q))
    for got, want in ((p.get_nodal_f_dict(), s.nodal), (p.get_nodal_d_dict(), s.disp)):
        m.same("pattern-query", {k: [float(x) for x in v] for k, v in got.items()}, want, q)
        gen.spoil(*got.values())
        got["ghost"] = np.ones(6)
        got.pop(next(iter(want), "ghost"))
    for got, want in ((p.get_nodal_f_dict(), s.nodal), (p.get_nodal_d_dict(), s.disp)):
        m.same("answers-are-not-live", {k: [float(x) for x in v] for k, v in got.items()}, want, q)
    for b in BEAMS:
        d, c = p.get_beam_distributed(b), p.get_beam_concentrated(b)
        if b in s.dist:
            v = s.dist[b]
            m.close("pattern-query", d, [v[0], v[2], v[4], v[6], 0, 0, v[1], v[3], v[5], v[7], 0, 0], 0, 1, q)
        else:
            m.true("pattern-query", d is None, q)
        if b in s.conc:
            m.close("pattern-query", c, s.conc[b], 0, 1, q)
        else:
            m.true("pattern-query", c is None, q)
        gen.spoil(d, c)
        for got, want in ((p.get_beam_distributed(b), s.dist.get(b)), (p.get_beam_concentrated(b), s.conc.get(b))):
            if want is not None:
                m.close("answers-are-not-live", np.sort(got)[::-1][:len(want)] if len(got) == len(want) else np.sort(got), np.sort(want)[::-1] if len(got) == len(want) else np.sort(list(want) + [0.0] * (len(got) - len(want))), 0, 1, q)


class Case:
    def __init__(self, kind, obj, settings):
        self.kind, self.obj, self.settings = kind, obj, settings
        self.pats, self.rest = {}, {}       # name -> [factor, curve]


def nodal(c, pats, n, step):
    f, a = np.zeros(6), np.zeros(6)
    for p, (k, curve) in c.pats.items():
        if n in pats[p][1].nodal and step < curve.shape[1]:
            v = np.array(pats[p][1].nodal[n]) * k * curve[1, step]
            f, a = f + v, a + np.abs(v)
    return f, a


def ask_case(rng, m, c, pats, q):
    o = c.obj
    steps = max([v[1].shape[1] for v in c.pats.values()], default=0)
    for n in NODES:
        f, a = nodal(c, pats, n, 0)
        got = o.get_nodal_f(n)
        m.close("case-nodal-force", got, f, 1e-13, a + 1e-300, q)
        got += 1.0
        if steps:
            s = int(rng.integers(steps + 1))
            f, a = nodal(c, pats, n, s)
            m.close("case-force-at-step", o.get_nodal_f(n, s), f, 1e-13, a + 1e-300, "step %d %s" % (s, q))
            if any(s >= v[1].shape[1] for v in c.pats.values()):
                m.event("step beyond the end of a curve")
            fa = [nodal(c, pats, n, k) for k in range(steps)]
            h = o.get_nodal_f_time_history(n)
            m.close("case-time-history", h, [v[0] for v in fa], 1e-13, np.array([v[1] for v in fa]) + 1e-300, q)
            h += 1.0
    for fn, what, name in ((o.get_nodal_f_dict, "nodal", "case-force-dictionary"), (o.get_nodal_d_dict, "disp", "case-displacement-dictionary")):
        want, size = {}, {}
        for p, (k, _) in c.pats.items():
            for n, v in getattr(pats[p][1], what).items():
                want[n] = want.get(n, 0) + k * np.array(v)
                size[n] = size.get(n, 0) + np.abs(k * np.array(v))
        got = fn()
        m.same(name, sorted(got), sorted(want), q)
        for n in want:
            m.close(name, got[n], want[n], 1e-13, size[n] + 1e-300, q)
            got[n] += 1.0
        got.clear()
        got = fn()
        m.same("answers-are-not-live", sorted(got), sorted(want), q)
        for n in want:
            m.close("answers-are-not-live", got[n], want[n], 1e-13, size[n] + 1e-300, q)
    for b in BEAMS:
        l = float(rng.uniform(0.5, 20))
        w, a = np.zeros(12), np.zeros(12)
        step = int(rng.integers(steps + 1)) if rng.random() < 0.5 else None
        for p, (k, curve) in c.pats.items():
            if (step or 0) >= curve.shape[1]:
                continue
            k = k * curve[1, step or 0]
            v = k * pats[p][1].beam(b, l)
            w, a = w + v, a + np.linalg.norm(v) * np.tile([1, 1, 1, 1, 1, 1], 2) * (1 + l)
            for u in (pats[p][1].dist.get(b), pats[p][1].conc.get(b)):
                if u:
                    a = a + abs(k) * np.max(np.abs(u)) * (1 + l)**2
        # members of a case that is no history are asked without a step
        ask = lambda: o.get_beam_f(b, l) if step is None else o.get_beam_f(b, l, step)
        got = ask()
        m.close("case-member-force", got, w, 1e-12, a + 1e-300, q)
        got += 1.0
        m.close("answers-are-not-live", ask(), w, 1e-12, a + 1e-300, q)
    r = o.get_nodal_restraint_dict()
    m.same("case-supports", {k: [bool(x) for x in v] for k, v in r.items()}, c.rest, q)
    for v in r.values():
        v[:] = ~v
    r["ghost"] = 1
    m.same("answers-are-not-live", {k: [bool(x) for x in v] for k, v in o.get_nodal_restraint_dict().items()}, c.rest, q)
    if c.pats:
        ls = [v[1].shape[1] for v in c.pats.values()]
        m.same("case-steps", tuple(o.get_max_min_step()), (max(ls), min(ls)), q)
    if c.settings is not None:
        got = o.get_settings()
        m.same("case-settings", got, c.settings, q)
        for v in got.values():
            if isinstance(v, dict):
                v["ghost"] = 1
        got["ghost"] = 1
        m.same("case-settings", o.get_settings(), c.settings, q)


def make_case(rng, name, m):
    from hyperstatic.core.fe_model.load import LoadCase
    from hyperstatic.core.fe_model.load.loadcase import StaticCase, ModalCase, ResponseSpectrumCase, TimeHistoryCase
    kind = str(rng.choice(["plain", "static", "static", "modal", "time history", "time history", "response spectrum"]))
    m.event(kind)
    base = None if rng.random() < 0.5 else "base%d" % rng.integers(3)
    if kind == "plain":
        return Case(kind, LoadCase(name), None)
    if kind == "static":
        k = int(rng.integers(3))
        if k == 0:
            return Case(kind, StaticCase(name), {"order": 1, "base_case": None})
        order = int(rng.integers(1, 4))
        return Case(kind, StaticCase(name, order, base) if k == 1 else StaticCase(name, base_case=base, order=order), {"order": order, "base_case": base})
    if kind == "modal":
        s = {"mass_source": "mass", "use_load_as_mass": False, "n_modes": 3, "base_case": None, "algorithm": "eigen"}
        if rng.random() < 0.4:
            return Case(kind, ModalCase(name), s)
        k = int(rng.integers(1, 30))
        return Case(kind, ModalCase(name, k, base), dict(s, n_modes=k, base_case=base))
    if kind == "time history":
        return Case(kind, TimeHistoryCase(name, base) if base else TimeHistoryCase(name), {"base_case": base, "algorithm": None, "params": {}})
    spectrum = rng.random((2, 4)).tolist()
    a, b = str(rng.choice(["srss", "cqc"])), str(rng.choice(["srss", "cqc"]))
    if rng.random() < 0.3:
        return Case(kind, ResponseSpectrumCase(name, "modes", spectrum), {"modal_case": "modes", "spectrum": spectrum, "mode_combo": "srss", "dir_combo": "cqc"})
    return Case(kind, ResponseSpectrumCase(name, "modes", spectrum, a, b), {"modal_case": "modes", "spectrum": spectrum, "mode_combo": a, "dir_combo": b})


def curve(rng):
    """times at even or uneven steps, from any instant, some with two samples at one time (a jump)"""
    n = int(rng.integers(1, 9))
    t = np.arange(n) * 0.1
    r = rng.random()
    if r < 0.25:
        t = np.cumsum(rng.uniform(0.01, 1, n)) + rng.normal()
    elif r < 0.5 and n > 1:
        t = np.round(t + rng.normal(), 3)
        k = int(rng.integers(1, n))
        t[k:] = t[k:] - t[k] + t[k - 1]
    return np.array([t, np.round(rng.normal(size=n), 3) * (rng.random(n) < 0.8)])


def history(rng, m):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    pats, cases, log = {}, {}, []
    for k in range(int(rng.integers(1, 4) if rng.random() < 0.7 else rng.integers(4, 9))):
        pats["P%d" % k] = (LoadPattern("P%d" % k), Pat())
    for k in range(int(rng.integers(1, 4))):
        c = make_case(rng, "C%d" % k, m)
        cases["C%d" % k] = c
        m.same("case-name", c.obj.name, "C%d" % k)
        log.append(("case", c.kind, c.settings))
    for p, (o, _) in pats.items():
        m.same("pattern-name", o.name, p)
    two = False
    for step in range(int(rng.integers(10, 45)) * (2 if len(pats) > 3 else 1)):
        p = str(rng.choice(sorted(pats)))
        o, s = pats[p]
        cn = str(rng.choice(sorted(cases)))
        c = cases[cn]
        op = str(rng.choice(["nodal", "nodal", "disp", "dist", "conc", "add", "add", "add", "factor", "rest", "setting"]))
        n, b = str(rng.choice(NODES)), str(rng.choice(BEAMS))
        if op == "nodal":
            v = vec(rng, 6)
            k = int(rng.integers(7)) if rng.random() < 0.3 else 6          # trailing components left out are zero
            o.set_nodal_load(n, *v[:k])
            s.nodal[n] = v[:k] + [0.0] * (6 - k)
            log.append((op, p, n, v[:k]))
        elif op == "disp":
            v = vec(rng, 6)
            o.set_nodal_disp(n, *v)
            s.disp[n] = v
            log.append((op, p, n, v))
        elif op == "dist":
            v = vec(rng, 8)
            if rng.random() < 0.3:
                ks = ["pi", "pj", "qi2", "qj2", "qi3", "qj3", "ti", "tj"]
                use = [bool(x) for x in rng.random(8) < 0.5]
                o.set_beam_load_dist(b, **{k: x for k, x, u in zip(ks, v, use) if u})
                v = [x if u else 0.0 for x, u in zip(v, use)]
            else:
                o.set_beam_load_dist(b, *v)
            s.dist[b] = v
            log.append((op, p, b, v))
        elif op == "conc":
            v = vec(rng, 6)
            if rng.random() < 0.2:
                o.set_beam_load_conc(b, *v)
                v = v + [0.5]
            else:
                v = v + [float(rng.uniform(0, 1))]
                o.set_beam_load_conc(b, *v)
            s.conc[b] = v
            log.append((op, p, b, v))
        elif op == "add":
            if c.kind == "response spectrum":
                continue
            k = float(np.round(rng.normal() * 3, 2))
            if p in c.pats:
                m.event("pattern added again")
            if c.kind == "time history" or c.kind == "plain" and rng.random() < 0.5:
                cv = curve(rng)
                if rng.random() < 0.5:
                    c.obj.add_pattern(o, k, cv)
                else:
                    c.obj.add_pattern_time_history(o, k, cv)
                c.pats[p] = [k, cv.copy()]
            else:
                c.obj.add_pattern(o, k)
                c.pats[p] = [k, ONE]
            log.append((op, cn, p, k, c.pats[p][1]))
        elif op == "factor":
            if p not in c.pats:
                continue
            k = float(np.round(rng.normal() * 3, 2))
            c.obj.set_pattern_factor(p, k)
            c.pats[p][0] = k
            log.append((op, cn, p, k))
        elif op == "rest":
            r = [bool(x) for x in rng.random(6) < 0.5]
            c.obj.set_nodal_restraint(n, *r)
            c.rest[n] = r
            log.append((op, cn, n, r))
        else:
            if c.kind == "static":
                k = int(rng.integers(-1, 6))
                try:
                    c.obj.order = k
                    ok = True
                except AssertionError:
                    ok = False
                m.same("order-refused", ok, k in (1, 2, 3), "order %d" % k)
                if ok:
                    c.settings["order"] = k
                m.same("case-settings", c.obj.order, c.settings["order"])
            elif c.kind == "modal":
                k = bool(rng.random() < 0.5)
                c.obj.use_load_as_mass = k
                c.settings["use_load_as_mass"] = k
                m.same("case-settings", (c.obj.use_load_as_mass, c.obj.n_modes), (k, c.settings["n_modes"]))
            elif c.kind == "time history":
                if rng.random() < 0.5:
                    v = [float(x) for x in np.round(rng.random(2), 3)]
                    c.obj.use_direct_time_integration(*v)
                    c.settings.update(algorithm="direct_time_integration", params={"step_size": v[0], "damping_ratio": v[1]})
                else:
                    c.obj.use_modal_decomposition("modes%d" % step)
                    c.settings.update(algorithm="modal_decomposition", params={"modal_case": "modes%d" % step})
            else:
                continue
            log.append((op, cn, k if c.kind != "time history" else dict(c.settings)))
        if op in ("nodal", "disp", "dist", "conc") and any(p in x.pats for x in cases.values()):
            m.event("pattern changed after it was added")
        m.describe(history=log)
        q = "after %d calls, last %r" % (len(log), log[-1][:3])
        if op in ("add", "factor") or rng.random() < 0.3:
            ask_case(rng, m, c, pats, "%s (%s) %s" % (cn, c.kind, q))
        if rng.random() < 0.3:
            ask_pattern(m, o, s, q)
        two = two or len(c.pats) > 1
    for cn, c in cases.items():
        ask_case(rng, m, c, pats, "%s (%s) at the end" % (cn, c.kind))
    for p, (o, s) in pats.items():
        ask_pattern(m, o, s, "%s at the end" % p)
    if two:
        m.distinct(log)


def curves(rng, m):
    from hyperstatic.common.curve import Curve
    n = int(rng.integers(1, 400))
    if rng.random() < 0.3:
        x, y = np.sort(rng.normal(size=n)), rng.normal(size=n)
        given = (list(x), list(y)) if rng.random() < 0.5 else (x.copy(), y.copy())
        c = Curve("c", *given)
        m.describe(n=n)
        for g in given:
            g[0] = 1e9
    else:
        A, w, phi, dt = [float(v) for v in (rng.normal() * 10, rng.normal() * 5, rng.uniform(-4, 4), rng.choice([0.1, 0.01, 0.02, 0.3, 1 / 3, rng.uniform(1e-4, 2)]))]
        sine = bool(rng.random() < 0.5)
        c = (Curve.sin if sine else Curve.cos)("c", A, w, phi, dt, n)
        x = np.array([k * dt for k in range(n)])
        y = A * (np.sin if sine else np.cos)(w * x + phi)
        m.describe(A=A, w=w, phi=phi, dt=dt, n=n, sine=sine)
    a = c.to_array()
    m.same("curve-samples", c.name, "c")
    m.same("curve-samples", a.shape, (2, n))
    m.close("curve-samples", a[0], x, 1e-13, np.max(np.abs(x)) + 1e-300)
    tol = 1e-11 * (1 + np.max(np.abs(y)))
    m.close("curve-samples", a[1], y, tol, 1.0)
    m.close("curve-samples", [c.x, c.y], a, 0, 1)
    a[:] = 7.0
    b = c.to_array()
    m.close("answers-are-not-live", b, [x, y], 1e-11, 1 + np.max(np.abs(y)) + np.max(np.abs(x)))
    m.distinct("curve", b)


def assembled(rng, m):
    """the assembled load vector of a case at a step, and the settings a solver reads"""
    from hyperstatic.core.fe_model.assembly import Assembly
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    spec = gen.frame(rng, nmax=5, no_member_loads=True, ncases=0)
    model = gen.build_model(spec)
    names = [n for n, _ in spec["nodes"]]
    pats = {"P%d" % k: (LoadPattern("P%d" % k), Pat()) for k in range(int(rng.integers(1, 4)))}
    cases = {}
    for k in range(3):
        c = make_case(rng, "C%d" % k, m)
        for p in pats:
            if c.kind == "response spectrum" or rng.random() < 0.2:
                continue
            f = float(np.round(rng.normal(), 3))
            if c.kind == "time history":
                cv = curve(rng)
                c.obj.add_pattern(pats[p][0], f, cv)
                c.pats[p] = [f, cv]
            else:
                c.obj.add_pattern(pats[p][0], f)
                c.pats[p] = [f, ONE]
        cases["C%d" % k] = c
    asb = Assembly(model, [c.obj for c in cases.values()])
    for p, (o, s) in pats.items():
        for n in names:
            if rng.random() < 0.6:
                s.nodal[n] = vec(rng, 6)
                o.set_nodal_load(n, *s.nodal[n])
    m.describe(spec=spec, cases={k: (c.kind, c.pats) for k, c in cases.items()})
    for cn, c in cases.items():
        if c.settings is not None:
            m.same("assembled-settings", asb.get_loadcase_setting(cn), c.settings)
        if c.pats:
            ls = [v[1].shape[1] for v in c.pats.values()]
            if any(np.any(np.diff(v[1][0]) == 0) for v in c.pats.values()):
                m.event("curve that jumps")
            m.same("assembled-settings", tuple(asb.get_max_min_step(cn)), (max(ls), min(ls)))
        for s in [None] + [int(v) for v in rng.integers(0, max([v[1].shape[1] for v in c.pats.values()], default=1) + 1, 2)]:
            fa = [nodal(c, pats, n, s or 0) for n in names]
            got = asb.assemble_f(cn) if s is None else asb.assemble_f(cn, s)
            got = np.asarray(got.todense()).ravel()
            m.close("assembled-load-at-step", got, np.hstack([v[0] for v in fa]), 1e-13, np.hstack([v[1] for v in fa]) + 1e-300, "%s (%s) step %r" % (cn, c.kind, s))
            if np.any(got):
                m.distinct(cn, got)


KINDS = {"history": (history, 3600, 28800), "curves": (curves, 2400, 19200), "assembled": (assembled, 1800, 14400)}
