"""C07: loads on a member reach the nodes as the work-equivalent end forces."""
import numpy as np
from hv import gen, ref
from checks.c01 import imports

PROP = "C07"
RULE = ("random trapezoidal and point loads of every component, magnitude, position and member length, given to load patterns and read back as "
        "equivalent end forces, also through load cases and assembled vectors; non-trivial: some load component is not zero; distinct by load and length")
MUST_SEE = ["oracle:equals-virtual-work", "oracle:same-resultant", "oracle:loads-add", "oracle:mirror", "oracle:case-combines", "oracle:assembled-load-vector", "oracle:end-position", "oracle:as-set-last"]
ASSUMPTIONS = ["cubic (lateral) and linear (axial, torsional) shape functions integrated by Gauss quadrature in lib/hv/ref.py"]


def draw(rng):
    l = float(10 ** rng.uniform(-2, 3))
    z = lambda k: [float(v) for v in rng.normal(size=k) * 10 ** rng.uniform(-3, 6) * (rng.random(k) < 0.7)]
    dist = gen.member_load(rng, z(8))
    r = float(rng.choice([rng.uniform(0, 1), 0.0, 1.0, 0.5, 1 / 3], p=[0.6, 0.1, 0.1, 0.1, 0.1]))
    conc = gen.nodal_load(rng, z(3) + [v * l for v in z(3)] + [r])
    return l, dist, conc


def size(dist, conc, l):
    """per-component scale: force-like and moment-like"""
    F = sum(abs(v) for v in dist[:6]) * l + sum(abs(v) for v in conc[:3]) + sum(abs(v) for v in conc[3:6]) / l + sum(abs(v) for v in dist[6:]) + 1e-300
    return np.tile([F, F, F, F * l, F * l, F * l], 2)


def pat(name, dist=None, conc=None, beam="b"):
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    p = LoadPattern(name)
    if dist is not None:
        p.set_beam_load_dist(beam, *dist)
    if conc is not None:
        p.set_beam_load_conc(beam, *conc)
    return p


def one(rng, m):
    l, dist, conc = draw(rng)
    m.describe(l=l, dist=dist, conc=conc)
    fd, fc, fb = [np.asarray(p.get_beam_f("b", l)).ravel() for p in (pat("p", dist), pat("p", None, conc), pat("p", dist, conc))]
    zero = [0.0] * 7
    sd, sc = size(dist, zero, l), size([0.0] * 8, conc, l)
    m.close("equals-virtual-work", fd, ref.f_dist(dist, l), 1e-11, sd, "distributed")
    m.close("equals-virtual-work", fc, ref.f_conc(conc, l), 1e-11, sc, "concentrated")
    m.close("loads-add", fb, fd + fc, 1e-12, sd + sc)
    # resultants: force and moment about the start, from the load itself
    for f, s, N, M in ((fd, sd, [(dist[2 * k] + dist[2 * k + 1]) / 2 * l for k in range(3)],
                    [(dist[6] + dist[7]) / 2 * l, -(dist[4] / 6 + dist[5] / 3) * l * l, (dist[2] / 6 + dist[3] / 3) * l * l]),
                   (fc, sc, conc[:3], [conc[3], conc[4] - conc[2] * conc[6] * l, conc[5] + conc[1] * conc[6] * l])):
        m.close("same-resultant", f[:3] + f[6:9], N, 1e-11, s[:3], "force")
        m.close("same-resultant", [f[3] + f[9], f[4] + f[10] - f[8] * l, f[5] + f[11] + f[7] * l], M, 1e-11, s[3:6], "moment")
    m.true("other-member-unloaded", not np.any(np.asarray(pat("p", dist, conc).get_beam_f("other", l), dtype=float)), "load on another member")
    # an end load goes to that end alone
    for r, o in ((0.0, 0), (1.0, 6)):
        f = np.asarray(pat("p", None, conc[:6] + [r]).get_beam_f("b", l)).ravel()
        want = np.zeros(12)
        want[o:o + 6] = conc[:6]
        m.close("end-position", f, want, 1e-11, sc)
    # seen from the other end: axes 1 and 3 turn over
    S = np.array([-1, 1, -1, -1, 1, -1.0])
    a = dist
    back = pat("p", [-a[1], -a[0], a[3], a[2], -a[5], -a[4], -a[7], -a[6]], list(S * conc[:6]) + [1 - conc[6]])
    fm = np.asarray(back.get_beam_f("b", l)).ravel()
    m.close("mirror", np.r_[S * fm[6:], S * fm[:6]], fb, 1e-11, sd + sc)
    if np.any(dist) or np.any(conc[:6]):
        m.distinct(l, dist, conc)


def case(rng, m):
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    lc = StaticCase("c")
    want, s = np.zeros(12), 1e-300
    n = int(rng.integers(1, 5))
    l = None
    rec = []
    for k in range(n):
        l_, dist, conc = draw(rng)
        l = l_ if l is None else l
        f = float(rng.uniform(-3, 3))
        lc.add_pattern(pat("p%d" % k, dist, conc), f)
        want = want + f * (ref.f_dist(dist, l) + ref.f_conc(conc, l))
        s = s + abs(f) * size(dist, conc, l)
        rec.append([f, dist, conc])
    m.describe(l=l, loads=rec)
    m.close("case-combines", np.asarray(lc.get_beam_f("b", l)).ravel(), want, 1e-11, s)
    m.close("case-combines", np.asarray(lc.get_beam_f("b", l)).ravel(), want, 1e-11, s, "asked twice")
    k = int(rng.integers(n))
    lc.set_pattern_factor("p%d" % k, 0.0)
    want = want - rec[k][0] * (ref.f_dist(rec[k][1], l) + ref.f_conc(rec[k][2], l))
    m.close("case-combines", np.asarray(lc.get_beam_f("b", l)).ravel(), want, 1e-11, s, "after setting a factor to zero")
    m.distinct(l, rec)


def assembled(rng, m):
    """the global load vector of a case is the sum of nodal loads and turned member loads"""
    spec = gen.frame(rng, rotations=0.3, ncases=2, npatterns=3)
    m.describe(spec=spec)
    frame = ref.Frame(spec)
    model, cases, asb = gen.assemble(spec, m.tmp())
    for c in spec["cases"]:
        want = frame.case_f(spec["cases"][c])
        got = asb.assemble_f(c).toarray()
        m.same("assembled-load-shape", got.shape, (frame.n, 1))
        s = np.zeros(frame.n)
        for p, f in spec["cases"][c]["patterns"].items():
            v = spec["patterns"][p]
            for n, x in v["nodal"].items():
                s[6 * frame.id[n]:][:6] += np.max(np.abs(x)) * abs(f)
            for b, g in frame.geo.items():
                w = size(v["dist"].get(b, [0.0] * 8), v["conc"].get(b, [0.0] * 7), g["l"]) * abs(f)
                s[g["dofs"]] += w
        # forces and moments of one node differ by a length at most
        m.close("assembled-load-vector", got[:, 0], want, 1e-11 + 30 * frame.blur, s + 1e-300, c)
        if np.any(want):
            m.distinct(spec["nodes"], spec["patterns"], c)


def history(rng, m):
    """loads set, set anew and asked for in any order, several members and lengths, in patterns and in cases that carry them"""
    from hyperstatic.core.fe_model.load.pattern import LoadPattern
    from hyperstatic.core.fe_model.load.loadcase import StaticCase
    names = gen.alike(rng, 3) if rng.random() < 0.5 else ["b1", "b2", "b11"]
    pats = [LoadPattern("p"), LoadPattern("q")]
    lc, factors = StaticCase("c"), {}
    set_ = [{}, {}]
    base = float(10 ** rng.uniform(-2, 3))
    lengths = [base, base * float(1 + 10 ** rng.uniform(-9, -2)), base * float(rng.uniform(0.5, 2)), float(round(base) or 1)]
    log = []
    for _ in range(int(rng.integers(6, 25))):
        k, b = int(rng.integers(2)), names[int(rng.integers(3))]
        op = int(rng.choice(5, p=[0.2, 0.2, 0.15, 0.3, 0.15]))
        _, dist, conc = draw(rng)
        if op == 0:
            pats[k].set_beam_load_dist(b, *dist)
            set_[k].setdefault(b, {})["dist"] = dist
            log.append(["dist", k, b, dist])
        elif op == 1:
            pats[k].set_beam_load_conc(b, *conc)
            set_[k].setdefault(b, {})["conc"] = conc
            log.append(["conc", k, b, conc])
        elif op == 2:
            f = float(rng.choice([1.0, 0.0, -1.0, rng.uniform(-3, 3)]))
            if k in factors:
                lc.set_pattern_factor(pats[k].name, f)
            else:
                lc.add_pattern(pats[k], f)
            factors[k] = f
            log.append(["factor", k, f])
        else:
            l = lengths[int(rng.integers(4))]
            want, sc = [np.zeros(12) for _ in pats], [np.full(12, 1e-300) for _ in pats]
            for q in (0, 1):
                v = set_[q].get(b, {})
                d, c = v.get("dist", [0.0] * 8), v.get("conc", [0.0] * 7)
                want[q], sc[q] = ref.f_dist(d, l) + ref.f_conc(c, l), size(d, c, l)
            if op == 3:
                got = np.asarray(pats[k].get_beam_f(b, l)).ravel()
                m.close("as-set-last", got, want[k], 1e-11, sc[k], "%s of length %r" % (b, l))
                got[:] = 1e9            # what was handed out is the caller's
            elif factors:
                w = sum(f * want[q] for q, f in factors.items())
                m.close("as-set-last", np.asarray(lc.get_beam_f(b, l)).ravel(), w, 1e-11, sum(abs(f) * sc[q] for q, f in factors.items()) + 1e-300, "case: %s of length %r" % (b, l))
            log.append(["ask", op, k, b, l])
    m.describe(calls=log)
    m.distinct(log)


KINDS = {"history": (history, 3000, 24000), "one": (one, 37500, 300000), "case": (case, 7500, 60000), "assembled": (assembled, 3000, 24000)}
