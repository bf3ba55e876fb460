"""Automatic derivatives against differences of the specification's values."""
import random

import vlib
import traced

import profdrv as D

PID = "P20"
def gen(rng, k):
    op = ["x", "k", "k", "attrs"][k % 4]
    g = traced.program(rng, ["Gaussian", "Gaussian", "Exponential", "Moffat", "Spergel"] + (["Box", "Pixel"] if op != "x" else []), comp=k % 3 == 0)
    if any(h["op"] == "conv" for h in g.H) and op == "x":
        op = "k"
    # special points: zero shear, zero shift, no rotation
    for h in g.H:
        if h["op"] in ("shear", "shift", "rotate") and rng.random() < 0.3:
            h["n"] = ["0.0"] * len(h["n"])
    n = g.pts(1, 2.0, 0.3) if op != "attrs" else []
    comp = {"x": 1, "k": rng.choice([1, 1, 2]), "attrs": rng.choice([1, 2, 3, 4])}[op]
    mode = ["rev", "fwd", "jitrev"][k % 3]
    # Bessel functions (Moffat transforms, Spergel surface brightness) define reverse mode only
    if mode == "fwd" and any((h["s"], op) in (("Moffat", "k"), ("Spergel", "x")) for h in g.H):
        mode = "rev"
    return [dict(op="grad", a=0, b=0, hs=[], calls=g.H, probe=dict(op=op, n=n), mode=mode, comp=comp)]


def check(c):
    quick = c.tier == "quick"
    rng = random.Random(vlib.SEED * 104729 + 20)
    c.conform("ProfTrace", D.run, [gen(rng, k) for k in range(120 if quick else 1500)])


if __name__ == "__main__":
    vlib.main(PID, check)
