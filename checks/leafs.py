"""Basic profiles: defining surface brightness, transform, sizes and limits."""
import random

import vlib
import profdrv as D

PID = "P21"
CLS = ["Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "DeltaFunction"]


def gen(rng, k):
    g = D.Gen(rng)
    cls = CLS[k % len(CLS)]
    for _ in range(3):
        a = g.leaf(cls, gsp=0.5)
        s = g.H[-1]
        sc = float(s["n"][-2]) if cls != "DeltaFunction" else 1.0
        if cls != "DeltaFunction":
            g.ev("x", a, n=g.pts(4, rng.choice([0.1, 2, 8]) * sc), mode=g.mode(), how="py")
            if rng.random() < 0.3:
                g.ev("x", a, n=g.pts(2, 1e-8, 0), mode=g.mode(), how="py")
        else:
            g.ev("x", a, n=g.pts(3, 3, 0.3), mode=rng.choice(["py", "pos", "jit"]), how="py")
        g.ev("k", a, n=g.pts(4, rng.choice([0.3, 2, 8]) / sc), mode=g.mode(), how="py")
        lim = ("lim",) if cls != "Spergel" or rng.random() < 0.25 else ()   # (slow: about 1 s each)
        g.probes(a, ("attrs", "sizes", "gsq") + lim)
        b = g.tr(a, ["gs", "withflux", "id"])
        g.probes(b, ("sizes", "attrs") + (lim if cls != "Spergel" else ()))
    if cls in ("Gaussian", "Exponential", "Moffat", "Spergel"):
        g.leaf(cls, rng.choice(["none", "two"]))
    if cls == "Moffat" and rng.random() < 0.3:
        g.ev("leaf", n=[rng.choice(["1.1", "1.0", "0.5"]), "1.0", "1.0"], s=cls, c="scale_radius", how="py")
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("ProfMC", "ProfMCl.cfg", timeout=300)
    rng = random.Random(vlib.SEED * 104729 + 21)
    c.conform("ProfTrace", D.run, [gen(rng, k) for k in range(49 if quick else 1400)]
              + [D.Gen(rng).pattern("acc") for k in range(24 if quick else 500)])


if __name__ == "__main__":
    vlib.main(PID, check)
