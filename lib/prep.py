"""Writes lattice files (with the curve and cavity data files they use) for the native multi-threaded workloads.

    prep.py DIR SEED N
"""
import os
import sys
import numpy as np

D, seed, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
os.makedirs(D, exist_ok=True)
os.environ["VERIF_SCRATCH"] = D
import gen  # noqa: E402


for i in range(N):
    rng = np.random.default_rng([seed, 2525, i])
    if i % 6 == 5:
        es = gen.add_names(rng, [dict(type="source")] + [
            dict(type=str(t), L=float(rng.uniform(0.1, 1)), K=float(rng.normal()), phi=0.3)
            for t in rng.choice(["drift", "quadrupole", "sbend", "solenoid", "marker"], 12)])
        sim = "Vector" if i % 12 == 5 else "TransferMatrix"
        t = gen.lat_text(dict(initial=[float(x) for x in rng.normal(size=6 if sim == "Vector" else 36)]), es, sim)
    else:
        Ek = float(rng.uniform(5e5, 3e6)) if i % 2 else float(rng.uniform(1e7, 5e7))
        b = gen.beam(rng, Ek=Ek)
        es = gen.lattice(rng, int(rng.integers(4, 14)), Ek=Ek, cav=0.3, strip=0.05)
        t = gen.lat_text(b, es, "MomentMatrix")
    with open(os.path.join(D, "lat%d.lat" % i), "w") as f:
        f.write(t)
