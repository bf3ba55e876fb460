"""Sums, convolutions and deconvolutions of (transformed) profiles."""
import random

import vlib
import profdrv as D

PID = "P13"
TR = ["expand", "dilate", "shear", "rotate", "shift", "transform", "scaleflux", "mul", "neg", "withflux", "gs"]

KINDS = ["offmap", "deconv", "edges", "nest", "deconv", "edges", "noprop", "noprop"]


def gen(rng, k):
    g = D.Gen(rng)
    hs, dec = [], set()
    slow = False
    for _ in range(rng.randint(2, 4)):
        cls = rng.choice(["Gaussian", "Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction", "Box", "Exponential"])
        a = g.leaf(cls, gsp=0.4)
        if cls == "DeltaFunction":
            dec.add(a)
        slow |= cls == "Spergel"
        if rng.random() < 0.5:
            b = g.tr(a, TR)
            if a in dec:
                dec.add(b)
            a = b
        hs.append(a)
    for _ in range(rng.randint(1, 4)):
        op = rng.choice(["sum", "sum", "add", "sub", "conv", "conv", "conv", "deconv", "tr", "bad"])
        if op == "sum":
            p = [rng.choice(hs) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
            c = g.ev("sum", hs=p, c=rng.choice(["Add", "args", "list"]))
        elif op in ("add", "sub"):
            p = [rng.choice(hs), rng.choice(hs)]
            c = g.ev(op, a=p[0], b=p[1])
        elif op == "conv":
            p = [rng.choice(hs) for _ in range(rng.choice([1, 2, 2, 3, 3]))]
            c = g.ev("conv", hs=p, c=rng.choice(["Convolve", "args", "list"]))
        elif op == "deconv":
            p = [rng.choice(hs)]
            c = g.ev("deconv", a=p[0], c=rng.choice(["fn", ""]))
        elif op == "tr":
            p = [rng.choice(hs)]
            c = g.tr(p[0], TR)
        else:
            p = []
            c = g.ev("bad", a=rng.choice(hs), c=rng.choice(["addnum", "subnum", "sumobj", "convobj", "deconvobj", "sumkw"]), s="any", how="py")
            continue
        if any(x in dec for x in p):
            dec.add(c)
        hs.append(c)
        w = ["k", "attrs", "gsq"] + (["x"] if c not in dec else [])
        g.probes(c, rng.sample(w, 2), npt=2, jitp=0.2)
    c = hs[-1]
    g.probes(c, ("k", "attrs", "gsq") + (("x",) if c not in dec else ()) + (("lim",) if not slow or rng.random() < 0.2 else ()), jitp=0.25)
    a = rng.choice(hs)
    g.probes(a, ("k", "attrs", "gsq") + (("x",) if a not in dec else ()), npt=1, jitp=0)
    if rng.random() < 0.1:
        g.ev(rng.choice(["sum", "conv"]), c="Convolve", how="py")
        g.H[-1]["c"] = "Add" if g.H[-1]["op"] == "sum" else "Convolve"
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("ProfMC", "ProfMCc.cfg" if quick else "ProfMCc4.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 104729 + 13)
    c.conform("ProfTrace", D.run, [gen(rng, k) for k in range(60 if quick else 1800)]
              + [D.Gen(rng).pattern(KINDS[k % len(KINDS)], True) for k in range(56 if quick else 1200)])


if __name__ == "__main__":
    vlib.main(PID, check)
