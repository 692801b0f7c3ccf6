"""C19: seismic design spectra and response spectra of recorded waves."""
import os
import numpy as np

PROP = "C19"
RULE = ("random design parameters (peak coefficient, characteristic period, damping) for the code spectra in both places; random ground motions (sums of waves, pulses, noise) "
        "through the Duhamel integral and, from files, through the response spectrum; non-trivial: every execution; distinct by parameters")
MUST_SEE = ["oracle:code-spectrum", "oracle:spectra-agree", "oracle:continuous", "oracle:proportional", "oracle:falls-after-plateau", "oracle:oscillator-response", "oracle:superposition",
            "oracle:causal", "oracle:pseudo-response", "oracle:wave-read", "oracle:wave-scaled", "oracle:response-spectrum", "oracle:sign-of-wave", "oracle:transform-spectrum", "long record", "long period branch", "low damping", "high damping"]
ASSUMPTIONS = ["reference oscillator: exact solution for piecewise linear ground motion", "the integral is compared where a period has at least 20 steps, with the error of the trapezoidal rule"]


def imports():
    import hyperstatic.app.design.GB.seismic.spectrum, hyperstatic.app.seismic.wave2spec


def code(amax, Tg, z, t):
    """GB 50011-2010, 5.1.5"""
    gamma = 0.9 + (0.05 - z) / (0.3 + 6 * z)
    eta1 = max(0.02 + (0.05 - z) / (4 + 32 * z), 0.0)
    eta2 = max(1 + (0.05 - z) / (0.08 + 1.6 * z), 0.55)
    if t < 0.1:
        return amax * (0.45 + (eta2 - 0.45) * t / 0.1)
    if t < Tg:
        return amax * eta2
    if t < 5 * Tg:
        return amax * eta2 * (Tg / t)**gamma
    return amax * (eta2 * 0.2**gamma - eta1 * (t - 5 * Tg))


def spectra(rng, m):
    from hyperstatic.app.design.GB.seismic.spectrum import GB50010
    from hyperstatic.app.seismic.wave2spec import GB50011_spectrum
    a = float(rng.choice([0.04, 0.08, 0.12, 0.16, 0.24, 0.32, 0.9, 1.4, rng.uniform(0.01, 2)]))
    Tg = float(rng.choice([0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.55, 0.65, 0.75, 0.9, rng.uniform(0.15, 1.1)]))
    z = float(rng.choice([0.02, 0.03, 0.04, 0.05, 0.1, 0.2, 0.3, rng.uniform(0.005, 0.4)]))
    m.describe(alpha_max=a, Tg=Tg, damping=z)
    if z < 0.03:
        m.event("low damping")
    if z > 0.2:
        m.event("high damping")
    s = GB50010(a, Tg, z).spectrum
    T, v = np.array(s["T"], dtype=float), np.array(s["alpha"], dtype=float)
    m.same("points", (T.shape, v.shape), ((601,), (601,)))
    m.close("points", T, np.arange(601) / 100, 1e-12, 6)
    edge = np.min(np.abs(T[:, None] - [0.1, Tg, 5 * Tg]), axis=1) < 1e-9
    w = np.array([code(a, Tg, z, t) for t in T])
    m.close("code-spectrum", v[~edge], w[~edge], 1e-9, a)
    m.close("continuous", v[edge], w[edge], 1e-6, a)          # either branch at its limit
    if 5 * Tg < 6:
        m.event("long period branch")
    dt = float(rng.choice([0.01, 0.02, 0.05, rng.uniform(0.005, 0.2)]))
    d = GB50011_spectrum(a, Tg, z, dt)
    t2 = np.array(list(d), dtype=float)
    m.close("points", t2, np.arange(len(t2)) * dt, 1e-12, 6)
    m.true("points", abs(len(t2) * dt - 6) <= dt * (1 + 1e-9), "%d steps of %g" % (len(t2), dt))
    m.true("points", len(t2) * dt > 6 - 1e-9, "the last of %d steps of %g is left out" % (len(t2), dt))
    near = np.min(np.abs(t2[:, None] - [0.1, Tg, 5 * Tg]), axis=1) < 1e-9
    w2 = np.array([code(a, Tg, z, t) for t in t2])
    m.close("code-spectrum", np.array(list(d.values()))[~near], w2[~near], 1e-9, a)
    m.close("continuous", np.array(list(d.values()))[near], w2[near], 1e-6, a)
    d1 = GB50011_spectrum(a, Tg, z, 0.01)
    m.close("spectra-agree", list(d1.values())[:600], v[:600], 1e-6, a)
    m.true("falls-after-plateau", np.all(np.diff(v[T >= Tg]) <= 1e-12) and np.all(v <= v[(T >= 0.1) & (T <= Tg)].max() + 1e-12), "not falling after the plateau")
    k = float(rng.uniform(0.1, 10))
    m.close("proportional", GB50010(a * k, Tg, z).spectrum["alpha"], v * k, 1e-12, a * k)
    m.distinct(a, Tg, z, dt)


def oscillator(w, z, dt, p):
    """relative displacement of u'' + 2 z w u' + w^2 u = p, p linear between the steps"""
    from scipy.linalg import expm
    A = np.zeros((4, 4))
    A[0, 1] = 1
    A[1] = [-w * w, -2 * z * w, 1, 0]
    A[2, 3] = 1
    E = expm(A * dt)
    x, u = np.zeros(2), np.zeros(len(p))
    for k in range(len(p) - 1):
        x = E[:2, :2] @ x + E[:2, 2] * p[k] + E[:2, 3] * (p[k + 1] - p[k]) / dt
        u[k + 1] = x[0]
    return u


def motion(rng, n, dt):
    t = np.arange(n) * dt
    k = int(rng.integers(3))
    if k == 0:
        p = sum(rng.normal() * np.sin(2 * np.pi * f * t + rng.uniform(0, 6)) for f in rng.uniform(0.1, 0.04 / dt, 4))
    elif k == 1:
        p = rng.normal() * np.exp(-((t - t[-1] * rng.uniform(0.1, 0.6)) / (dt * rng.uniform(5, 40)))**2)
    else:
        p = np.interp(t, np.sort(np.r_[0, rng.uniform(0, t[-1], 12), t[-1]]), rng.normal(size=14))
    ramp = np.minimum(1, t / (5 * dt))
    return p * ramp * float(10 ** rng.uniform(-1, 1))


def duhamel(rng, m):
    from hyperstatic.app.seismic.wave2spec import duhamel
    n = int(rng.integers(60, 800))
    dt = float(rng.choice([0.01, 0.02, rng.uniform(0.001, 0.05)]))
    t = np.arange(n) * dt
    z = float(rng.choice([0.0, 0.02, 0.05, rng.uniform(0, 0.1), rng.uniform(0, 0.6)]))
    w = 2 * np.pi / (dt * rng.uniform(20, 300))
    p, q = motion(rng, n, dt), motion(rng, n, dt)
    keep = p.copy()
    m.describe(n=n, dt=dt, damping=z, omega=w)
    Sa, Sv, Sd = [np.array(v, dtype=float) for v in duhamel(w, z, t, p)]
    m.true("argument-untouched", np.array_equal(p, keep))
    m.same("length", (len(Sa), len(Sv), len(Sd)), (n, n, n))
    u = oscillator(w, z, dt, p)
    size = max(np.max(np.abs(u)), 1e-3 * np.max(np.abs(p)) / w**2) + 1e-300
    m.close("oscillator-response", Sd, u, 1e-3 + 2 * (w * dt)**2, size + 0.05 * np.max(np.abs(p)) / w**2)
    wd = w * np.sqrt(1 - z * z)
    slack = 1e-9 + (1 - (wd / w)**2) * 1.01           # whether pseudo values go with the damped or the undamped frequency is not claimed
    m.close("pseudo-response", Sv, w * Sd, slack, np.max(np.abs(w * Sd)) + 1e-300)
    m.close("pseudo-response", Sa, w * w * Sd, slack, np.max(np.abs(w * w * Sd)) + 1e-300)
    a, b = rng.normal(size=2)
    both = np.array(duhamel(w, z, t, a * p + b * q)[2])
    q2 = np.array(duhamel(w, z, t, q)[2])
    m.close("superposition", both, a * Sd + b * q2, 1e-9, np.max(np.abs(a * Sd)) + np.max(np.abs(b * q2)) + 1e-300)
    k = int(rng.integers(1, n))
    cut = np.array(duhamel(w, z, t, np.where(np.arange(n) < k, p, 7.0 * np.max(np.abs(p))))[2])
    big = 8 * np.max(np.abs(p)) * dt / wd * n
    m.close("causal", cut[:k], Sd[:k], 1e-11, big + 1e-300)
    m.distinct(n, dt, z, w)


def waves(rng, m):
    from hyperstatic.app.seismic.wave2spec import read_wave, amptitude, wave2spectrum
    n = int(rng.integers(80, 300))
    dt = float(rng.choice([0.05, 0.1, rng.uniform(0.04, 0.12)]))
    p = motion(rng, n, dt)
    p[int(rng.integers(5, n))] *= 1.5
    p = np.array([float("%.6f" % v) for v in p])
    if not np.any(p):
        p[5] = 1.0
    d = m.tmp()
    f = os.path.join(d, "wave.txt")
    with open(f, "w") as h:
        h.write("\n".join("%.6f" % v for v in p) + ("\n" if rng.random() < 0.5 else ""))
    m.same("wave-read", [float(v) for v in read_wave(f)], [float(v) for v in p])
    amax = float(rng.choice([35, 70, 110, 220, rng.uniform(1, 600)]))
    peak = np.max(np.abs(p))
    m.close("wave-scaled", amptitude(list(p), amax), p * amax / peak, 1e-12, amax)
    z = float(rng.choice([0.02, 0.05, rng.uniform(0.005, 0.1)]))
    m.describe(n=n, dt=dt, a_max=amax, damping=z)
    T, sa, sv, sd = [np.array(v, dtype=float) for v in wave2spectrum(f, dt, z, amax)]
    m.true("response-spectrum", len(T) == len(sa) == len(sv) == len(sd) and abs(T[0] - dt) < 1e-9 and abs(T[-1] - 6) <= dt * 1.001, "%d periods" % len(T))
    m.close("response-spectrum", np.diff(T), np.full(len(T) - 1, dt), 1e-6)
    g = 0.01 * amax * p / peak
    for k in rng.permutation(np.flatnonzero(T >= 20 * dt))[:12]:
        w = 2 * np.pi / T[k]
        u = np.max(np.abs(oscillator(w, z, dt, g)))
        floor = 0.05 * 0.01 * amax / w**2
        e = 1e-3 + 2 * (w * dt)**2
        m.close("response-spectrum", sd[k], u, e, u + floor)
        m.close("response-spectrum", sv[k], u * w, e + 0.01, (u + floor) * w)
        m.close("response-spectrum", sa[k], u * w * w / 9.8, e + 0.02, (u + floor) * w * w / 9.8)
    f2 = os.path.join(d, "turned.txt")
    k = float(rng.uniform(1, 50))
    with open(f2, "w") as h:
        h.write("\n".join(repr(float(-v * k)) for v in p))
    other = wave2spectrum(f2, dt, z, amax)
    for v, x in zip((sa, sv, sd), other[1:]):
        m.close("sign-of-wave", x, v, 1e-9, np.max(v))
    m.distinct(n, dt, amax, z)


def transform(rng, m):
    """the spectrum by Fourier transform: the same peaks, with what the mass still does after the record"""
    from hyperstatic.app.seismic.wave2spec import fft2spec
    long = rng.random() < 0.06
    n = int(rng.integers(4200, 6500) if rng.random() < 0.5 else rng.integers(700, 4200)) if long else int(rng.integers(80, 700))
    dt = float(rng.uniform(0.1, 0.2)) if long else float(rng.choice([0.05, 0.1, rng.uniform(0.03, 0.12)]))
    p = motion(rng, n, dt)
    if long:
        m.event("long record")
        p[min(4150, n - int(rng.integers(20, 500))):] *= float(rng.uniform(1.5, 4))
    p = np.array([float("%.6f" % v) for v in p])
    if not np.any(p):
        p[5] = 1.0
    f = os.path.join(m.tmp(), "wave.txt")
    with open(f, "w") as h:
        h.write("\n".join("%.6f" % v for v in p) + ("\n" if rng.random() < 0.5 else ""))
    amax = float(rng.choice([35, 70, 110, 220, rng.uniform(1, 600)]))
    z = float(rng.choice([0.02, 0.05, rng.uniform(0.01, 0.1), rng.uniform(0.1, 0.4)]))
    m.describe(n=n, dt=dt, a_max=amax, damping=z)
    T, sa = [np.array(v, dtype=float) for v in fft2spec(f, dt, z, amax)]
    m.true("transform-spectrum", len(T) == len(sa) and abs(T[0] - dt) < 1e-9 and abs(T[-1] - 6) <= dt * 1.001, "%d periods, %d values" % (len(T), len(sa)))
    m.close("transform-spectrum", np.diff(T), np.full(len(T) - 1, dt), 1e-6)
    g = 0.01 * amax * p / np.max(np.abs(p))
    N = max(4096, 16 * n)
    for k in rng.permutation(np.flatnonzero(T >= 20 * dt))[:8]:
        w = 2 * np.pi / T[k]
        if z * w * ((4096 if n <= 256 else N) - n) * dt < 12:      # what is left of the vibration would come round again
            continue
        u = np.max(np.abs(oscillator(w, z, dt, np.r_[g, np.zeros(int(3 * T[k] / dt))]))) * w * w / 9.8
        m.close("transform-spectrum", sa[k], u, 1e-3 + 2 * (w * dt)**2, u + 0.05 * 0.01 * amax / 9.8)
    m.distinct(n, dt, amax, z)


KINDS = {"transform": (transform, 700, 5000), "spectra": (spectra, 5000, 40000), "duhamel": (duhamel, 5000, 40000), "waves": (waves, 1600, 12800)}
