"""C12: section and material constants."""
import os
import numpy as np

PROP = "C12"
RULE = ("random dimensions of every section family (solid to thin-walled) and random isotropic materials, constants compared with closed forms and polygon "
        "integrals, alone, inside member stiffness and mass, and through cantilevers solved by the Api; non-trivial: every section; distinct by data")
MUST_SEE = ["oracle:area", "oracle:second-moments", "oracle:torsion-constant", "oracle:section-moduli", "oracle:shear-areas", "oracle:radii", "oracle:given-constants-kept",
            "oracle:material-constants", "oracle:strain-tensor", "oracle:stress-tensor", "oracle:similar-sections", "oracle:member-uses-section", "oracle:cantilever",
            "family:box", "family:I", "family:pipe", "family:circle", "family:rectangle", "family:general"]
ASSUMPTIONS = ["torsion: Bredt for boxes, polar moment for round sections, Saint-Venant series for rectangles and, by part, I-sections (wall ratios up to 12)",
               "the library's value of pi has six digits: tolerance 1e-5 where pi enters"]
FAM = ["box", "I", "pipe", "circle", "rectangle"]


def imports():
    import hyperstatic.core, hyperstatic.core.fe_model.section.beam_section, hyperstatic.core.fe_model.material.isotropy


def saint_venant(a, b):
    """torsion constant of a solid a x b rectangle"""
    a, b = max(a, b), min(a, b)
    n = np.arange(1, 4001, 2)
    return a * b**3 * (1 / 3 - 64 * b / (np.pi**5 * a) * np.sum(np.tanh(n * np.pi * a / 2 / b) / n**5.0))


def rects(parts):
    """area, I22 (about the vertical axis) and I33 of signed centred-in-place rectangles (y, z, h, b): h along y, b along z"""
    A = sum(s * h * b for s, y, z, h, b in parts)
    I22 = sum(s * (h * b**3 / 12 + h * b * z * z) for s, y, z, h, b in parts)
    I33 = sum(s * (b * h**3 / 12 + h * b * y * y) for s, y, z, h, b in parts)
    return A, I22, I33


def draw(rng, fam):
    s = float(10 ** rng.uniform(-2, 3))
    if fam in ("box", "I"):
        h, b = s, s * (rng.uniform(0.3, 2) if rng.random() < 0.8 else 1.0)
        tf = b * rng.uniform(1 / 12, 0.3) if fam == "I" else h * rng.uniform(0.02, 0.3)
        tf = min(tf, h * 0.3)
        if fam == "I":
            tf = max(tf, b / 12)
            h = max(h, 3 * tf)
            tw = (h - 2 * tf) * rng.uniform(1 / 12, 0.8)
            tw = min(tw, b * 0.9)
            tw = max(tw, (h - 2 * tf) / 12)
        else:
            tw = b * rng.uniform(0.02, 0.3) if rng.random() < 0.9 else tf
        if tw >= b:
            return draw(rng, fam)
        return [float(v) for v in (h, b, tw, tf)]
    if fam == "pipe":
        return [s, float(s * (rng.uniform(0.01, 0.5) if rng.random() < 0.9 else 0.5))]
    if fam == "circle":
        return [s]
    return [s, float(s * 10 ** rng.uniform(-1, 1)) if rng.random() < 0.9 else s]


def expected(fam, v):
    """A, As2, As3, J, I22, I33, half width, half height"""
    if fam == "box":
        h, b, tw, tf = v
        A, I2, I3 = rects([(1, 0, 0, h, b), (-1, 0, 0, h - 2 * tf, b - 2 * tw)])
        Am = (h - tf) * (b - tw)
        J = 4 * Am**2 / (2 * (b - tw) / tf + 2 * (h - tf) / tw)
        return A, 2 * tw * h, 2 * tf * b, J, I2, I3, b / 2, h / 2
    if fam == "I":
        h, b, tw, tf = v
        A, I2, I3 = rects([(1, (h - tf) / 2, 0, tf, b), (1, -(h - tf) / 2, 0, tf, b), (1, 0, 0, h - 2 * tf, tw)])
        return A, tw * h, 5 / 3 * tf * b, 2 * saint_venant(b, tf) + saint_venant(h - 2 * tf, tw), I2, I3, b / 2, h / 2
    if fam == "pipe":
        d, t = v
        r, q = d / 2, d / 2 - t
        A, I = np.pi * (r * r - q * q), np.pi / 4 * (r**4 - q**4)
        return A, np.pi * (r - t / 2) * t, np.pi * (r - t / 2) * t, 2 * I, I, I, r, r
    if fam == "circle":
        r = v[0] / 2
        return np.pi * r * r, 0.9 * np.pi * r * r, 0.9 * np.pi * r * r, np.pi / 2 * r**4, np.pi / 4 * r**4, np.pi / 4 * r**4, r, r
    h, b = v
    A, I2, I3 = rects([(1, 0, 0, h, b)])
    return A, 5 / 6 * A, 5 / 6 * A, saint_venant(h, b), I2, I3, b / 2, h / 2


JTOL = {"box": 1e-10, "I": 2e-3, "pipe": 1e-5, "circle": 1e-5, "rectangle": 2e-3}


def make(fam, name, mat, v):
    from hyperstatic.core.fe_model.section import beam_section as S
    return {"box": S.BoxSection, "I": S.ISection, "pipe": S.PipeSection, "circle": S.CircleSection, "rectangle": S.RectangleSection}[fam](name, mat, *v)


def material(rng):
    return [float(10 ** rng.uniform(-1, 4)), float(10 ** rng.uniform(2, 12)), float(rng.choice([0.0, rng.uniform(0.01, 0.49), 0.5 - 10 ** rng.uniform(-4, -1), -rng.uniform(0.01, 0.9)], p=[0.1, 0.7, 0.1, 0.1])), float(rng.uniform(0, 1e-4))]


def section(rng, m):
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    fam = FAM[int(rng.integers(5))]
    v = draw(rng, fam)
    rho, E, mu, a = material(rng)
    m.describe(family=fam, sizes=v, material=[rho, E, mu, a])
    s = make(fam, "sec", IsotropicMaterial("mat", rho, E, mu, a), v)
    A, As2, As3, J, I2, I3, cb, ch = expected(fam, v)
    pt = 1e-5 if fam in ("pipe", "circle") else 1e-10
    if fam == "pipe":
        pt = 2e-5
    m.close("area", s.A, A, pt)
    m.close("second-moments", [s.I22, s.I33], [I2, I3], pt)
    m.close("torsion-constant", s.J, J, JTOL[fam])
    m.close("section-moduli", [s.W22, s.W33], [I2 / cb, I3 / ch], pt, np.array([I2 / cb, I3 / ch]))
    m.close("shear-areas", [s.As2, s.As3], [As2, As3], pt, np.array([As2, As3]))
    m.close("radii", [s.i22, s.i33], [np.sqrt(I2 / A), np.sqrt(I3 / A)], pt, np.sqrt([I2 / A, I3 / A]))
    m.close("mass-per-length", s.lamda, rho * A, pt)
    m.close("section-carries-material", [s.E, s.mu, s.G, s.rho], [E, mu, E / 2 / (1 + mu), rho], 1e-12, np.array([E, 1, E, rho]))
    m.same("names", (s.name, s.material), ("sec", "mat"))
    m.close("sizes-kept", list(s.sizes), v, 1e-15)
    m.same("shape-kept", s.shape, {"rectangle": "R"}.get(fam, fam))
    m.event("family:" + fam)
    # the same shape k times as large
    k = float(10 ** rng.uniform(-2, 2))
    b = make(fam, "big", IsotropicMaterial("mat", rho, E, mu, a), [x * k for x in v])
    m.close("similar-sections", [b.A, b.As2, b.As3, b.J, b.I22, b.I33, b.W22, b.W33],
            np.array([s.A, s.As2, s.As3, s.J, s.I22, s.I33, s.W22, s.W33]) * [k**2, k**2, k**2, k**4, k**4, k**4, k**3, k**3], 1e-7,
            np.abs([b.A, b.As2, b.As3, b.J, b.I22, b.I33, b.W22, b.W33]))
    if fam == "rectangle":
        t = make(fam, "turned", IsotropicMaterial("mat", rho, E, mu, a), v[::-1])
        m.close("turned-section", [t.A, t.I22, t.I33], [s.A, s.I33, s.I22], 1e-10, np.array([A, I3, I2]))
        m.close("turned-section", t.J, s.J, 1e-2)
    m.distinct(fam, v)


def general(rng, m):
    from hyperstatic.core.fe_model.material.isotropy import IsotropicMaterial
    from hyperstatic.core.fe_model.section.beam_section import BeamSection
    v = [float(10 ** rng.uniform(-6, 3)) for _ in range(8)]
    rho, E, mu, a = material(rng)
    m.describe(constants=v, material=[rho, E, mu, a])
    mat = IsotropicMaterial("mat", rho, E, mu, a)
    shape, sizes = [("general", []), ("C", [0.3, 0.1]), ("L", [0.2]), ("Z", [])][int(rng.integers(4))]
    s = BeamSection("sec", mat, shape, sizes, *v)
    m.same("shape-kept", s.shape, shape)
    m.same("sizes-kept", tuple(s.sizes), tuple(sizes))
    m.close("given-constants-kept", [s.A, s.As2, s.As3, s.J, s.I22, s.I33, s.W22, s.W33], v, 1e-15, np.array(v))
    m.close("radii", [s.i22, s.i33], np.sqrt([v[4] / v[0], v[5] / v[0]]), 1e-12, np.sqrt([v[4] / v[0], v[5] / v[0]]))
    m.event("family:general")
    m.close("material-constants", [mat.rho, mat.E, mat.mu, mat.a], [rho, E, mu, a], 1e-15, np.array([rho, E, 1, 1]))
    m.close("material-constants", mat.G, E / 2 / (1 + mu), 1e-12)
    m.close("material-constants", mat.lamda, E * mu / (1 + mu) / (1 - 2 * mu), 1e-12, E)
    # uniaxial stress: lateral contraction ratio is Poisson's
    M = mat.lamda + 2 * mat.G
    e2 = -mat.lamda / (M + mat.lamda)
    m.close("material-constants", [-e2, M + 2 * mat.lamda * e2], [mu, E], 1e-9, np.array([1.0, E]) / (1 - 2 * mu))
    m.same("names", mat.name, "mat")
    e = [float(x) for x in rng.normal(size=6) * 10 ** rng.uniform(-6, 0)]
    C = np.asarray(mat.C(*e), dtype=float)
    m.close("strain-tensor", C, [[e[0], e[3] / 2, e[5] / 2], [e[3] / 2, e[1], e[4] / 2], [e[5] / 2, e[4] / 2, e[2]]], 1e-14)
    S = np.asarray(mat.D(*e), dtype=float)
    m.close("stress-tensor", S, E * mu / (1 + mu) / (1 - 2 * mu) * np.trace(C) * np.eye(3) + E / (1 + mu) * C, 1e-11, np.max(np.abs(e)) * E / (1 - 2 * mu))
    m.distinct(v, rho, E, mu)


def member(rng, m):
    """stiffness and mass of a member follow from its section and material, through the model and through a solved cantilever"""
    from hyperstatic.core.fe_model.model import Model
    from hyperstatic.core import Api
    fam = (FAM + ["general"])[int(rng.integers(6))]
    rho, E, mu, a = material(rng)
    G = E / 2 / (1 + mu)
    if fam == "general":
        l = 1.0
        v = [float(10 ** rng.uniform(-4, -2)) for _ in range(8)]          # A As2 As3 I22 I33 J W22 W33
        A, I2, I3, J = v[0], v[3], v[4], v[5]
    else:
        v = draw(rng, fam)
        A, As2, As3, J, I2, I3, cb, ch = expected(fam, v)
    l = float(max(v) * rng.uniform(5, 30)) if fam != "general" else 1.0
    m.describe(family=fam, sizes=v, l=l, material=[rho, E, mu, a])
    pt, jt = (2e-5, 2e-5) if fam in ("pipe", "circle") else (1e-9, JTOL.get(fam, 1e-9))
    jt = max(jt, 1e-9)
    mod = Model()
    mod.add_node("i", 0, 0, 0)
    mod.add_node("j", l, 0, 0)
    mod.add_isotropic_material("mat", rho, E, mu, a)
    mod.add_isotropic_material("decoy", rho * 3, E * 2, mu / 2, a)
    mod.add_beam_section_circle("decoy", "decoy", l / 10)
    getattr(mod, "add_beam_section_" + fam)("sec", "mat", *v)
    mod.add_beam("b", "i", "j", "sec")
    K = mod.get_beam_K("b").toarray()
    m.close("member-uses-section", [K[0, 0], K[1, 1], K[2, 2], K[4, 4], K[5, 5]],
            [E * A / l, 12 * E * I3 / l**3, 12 * E * I2 / l**3, 4 * E * I2 / l, 4 * E * I3 / l], pt,
            np.array([E * A / l, 12 * E * I3 / l**3, 12 * E * I2 / l**3, 4 * E * I2 / l, 4 * E * I3 / l]))
    m.close("member-uses-section", K[3, 3], G * J / l, jt)
    M = mod.get_beam_M("b").toarray()
    m.close("member-uses-section", M[0, 0] + M[6, 6], rho * A * l, pt)
    api = Api(os.path.join(m.tmp(), "w"))
    ok = lambda r: m.true("api-reports-success", r is True, "%r" % (r,))
    ok(api.add_node("i", 0, 0, 0))
    ok(api.add_node("j", l, 0, 0))
    ok(api.add_isotropic_material("mat", rho, E, mu, a))
    ok(getattr(api, "add_beam_section_" + fam)("sec", "mat", *v))
    ok(api.add_beam("b", "i", "j", "sec"))
    ok(api.set_nodal_restraint("i", True, True, True, True, True, True))
    F = E * A * 1e-6
    f = [float(x) for x in rng.uniform(0.2, 1, 6) * rng.choice([-1, 1], 6) * F * np.array([1, I3 / A / l**2, I2 / A / l**2, I3 / A / l, I2 / A / l, I3 / A / l])]
    ok(api.add_loadpattern("p"))
    ok(api.set_nodal_load("p", "j", *f))
    ok(api.add_static_case("c"))
    ok(api.add_case_pattern("c", "p", 1.0))
    ok(api.assemble())
    ok(api.solve_static("c"))
    d = np.asarray(api.result_get_nodal_displacement("j", "c"), dtype=float)
    # local axes of a member along +X: 2 is global Z, 3 is global -Y
    want = [f[0] * l / E / A, f[1] * l**3 / 3 / E / I2 + f[5] * l**2 / 2 / E / I2, f[2] * l**3 / 3 / E / I3 - f[4] * l**2 / 2 / E / I3, f[3] * l / G / J,
            f[4] * l / E / I3 - f[2] * l**2 / 2 / E / I3, f[5] * l / E / I2 + f[1] * l**2 / 2 / E / I2]
    sc = np.array([abs(f[0]) * l / E / A, abs(f[1]) * l**3 / E / I2 + abs(f[5]) * l**2 / E / I2, abs(f[2]) * l**3 / E / I3 + abs(f[4]) * l**2 / E / I3, abs(f[3]) * l / G / J,
                   abs(f[4]) * l / E / I3 + abs(f[2]) * l**2 / E / I3, abs(f[5]) * l / E / I2 + abs(f[1]) * l**2 / E / I2])
    t = np.full(6, max(pt, 1e-7))
    t[3] = max(jt, 1e-7)
    m.close("cantilever", d, want, t, sc)
    m.distinct(fam, v, l)


KINDS = {"section": (section, 45000, 360000), "general": (general, 12000, 96000), "member": (member, 7200, 57600)}
