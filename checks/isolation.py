"""P03: a call changes only its target; immutable images and refused calls change nothing."""
import random

import imgdrv
import vlib


def check(c):
    q = c.tier == "quick"
    c.model_check("ImageMC", "ImageMC.cfg" if q else "ImageMC4.cfg", timeout=850)
    # behaviours generated by the specification's simulator
    gs = c.generate("ImageMC", "ImageGen.cfg", num=40 if q else 600, depth=60, timeout=800)
    c.conform("ImageTrace", imgdrv.run, gs, label="gen")
    rng = random.Random(vlib.SEED * 104729 + 3)
    hs = [imgdrv.gen(rng, 40, frame=True) for _ in range(80 if q else 1200)]
    hs += [imgdrv.gen(rng, 8, only="cx") for _ in range(24 if q else 400)]
    c.conform("ImageTrace", imgdrv.run, hs)


if __name__ == "__main__":
    vlib.main("P03", check)
