"""Driver run under AddressSanitizer and UndefinedBehaviorSanitizer: c14_san.py LIBDIR SEED CALLS.
Calls every kernel with ordinary, degenerate and hostile arguments; prints what it did."""
import json
import sys

import numpy as np

sys.path.insert(0, sys.argv[1])
rng = np.random.default_rng(int(sys.argv[2]))
calls = int(sys.argv[3])
NAMES = {"metaT9": (3, 6, False), "metaDKT": (3, 9, True), "metaGQ12": (4, 12, True), "metaDKQ": (4, 12, True), "metaTMQb": (4, 12, True), "metaTMQs": (4, 12, True)}
count = {}
for name, (n, size, nat) in NAMES.items():
    mod = __import__(name)
    keep = []
    for k in range(calls):
        kind = k % 6
        X = np.array([[-1.0, -1], [1, -1], [1, 1], [-1, 1]])[:n] * rng.uniform(0.1, 10) + rng.normal(size=(n, 2)) * 0.2
        if kind == 1:
            X = X * 10.0 ** rng.integers(-150, 150)
        elif kind == 2:
            X = X * 0 + rng.integers(-1, 2)
        elif kind == 3:
            X[int(rng.integers(n))] = rng.choice([np.nan, np.inf, -np.inf, 1e308, 5e-324])
        a = [10 ** rng.uniform(0, 12), rng.uniform(0, 0.49), 10 ** rng.uniform(-4, 1)]
        if kind == 4:
            a = [rng.choice([0.0, -1.0, np.inf]), rng.choice([1.0, -1.0, 0.5]), 0.0]
        if nat:
            a += list(rng.uniform(-1, 1, 2) if kind != 5 else rng.choice([-1.0, 0.0, 1.0], 2))
        out = mod.autofunc_c(*[float(v) for v in a], *[float(v) for v in X.ravel()])
        assert out.shape == (size, size), (name, out.shape)
        float(np.sum(out))
        keep.append(out)
        if len(keep) > 5:
            keep.pop(int(rng.integers(5)))
        count[name] = count.get(name, 0) + 1
    for bad in ((), (1.0,) * 3, (1.0,) * 40, ("x",) * (3 + 2 * nat + 2 * n), (None,) * (3 + 2 * nat + 2 * n)):
        try:
            mod.autofunc_c(*bad)
            print("ACCEPTED", name, bad)
        except TypeError:
            count["rejected"] = count.get("rejected", 0) + 1
print("DONE " + json.dumps(count))
