"""Transformed profiles: any chain of maps is the single composed map."""
import random

import vlib
import profdrv as D

PID = "P12"


def gen(rng, k):
    g = D.Gen(rng)
    base = g.leaf(rng.choice(["Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel", "Gaussian", "Box"]))
    if rng.random() < 0.25:      # composites are transformed too
        b2 = g.leaf(rng.choice(["Gaussian", "Exponential", "Pixel"]))
        if rng.random() < 0.5:
            base = g.ev("add", a=base, b=b2)
        else:
            g3 = g.leaf("Gaussian")
            base = g.ev("conv", hs=[base, b2, g3], c="args")
    hs = [base]
    slow = any(h["s"] == "Spergel" for h in g.H)
    for _ in range(rng.randint(2, 6)):
        a = hs[-1] if rng.random() < 0.8 else rng.choice(hs)
        hs.append(g.tr(a))
        if rng.random() < 0.4:
            g.probes(hs[-1], rng.sample(["x", "k", "attrs", "gsq"], 2), npt=2, jitp=0.2)
    g.probes(hs[-1], ("x", "k", "attrs", "gsq") + (("lim",) if not slow or rng.random() < 0.2 else ()), jitp=0.25)
    # the originals are what they were
    for a in rng.sample(hs, min(2, len(hs))):
        g.probes(a, ("x", "k", "attrs", "gsq"), npt=1, jitp=0.0)
    if rng.random() < 0.3:
        g.ev("bad", a=base, c=rng.choice(["rotatenum", "shearargs", "shearnone", "shearboth", "transobj"]), s="any", how="py")
    return g.H


def check(c):
    quick = c.tier == "quick"
    c.model_check("ProfMC", "ProfMC.cfg" if quick else "ProfMC4.cfg", timeout=900)
    rng = random.Random(vlib.SEED * 104729 + 12)
    c.conform("ProfTrace", D.run, [gen(rng, k) for k in range(64 if quick else 1600)]
              + [D.Gen(rng).pattern(["offmap", "noprop", "offmap", "acc"][k % 4]) for k in range(32 if quick else 800)])


if __name__ == "__main__":
    vlib.main(PID, check)
