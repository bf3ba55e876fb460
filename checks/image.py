"""P02: what an image holds after any sequence of calls."""
import random

import imgdrv
import vlib


def check(c):
    c.model_check("ImageMC", "ImageMC.cfg" if c.tier == "quick" else "ImageMC4.cfg", timeout=850)
    rng = random.Random(vlib.SEED * 104729 + 2)
    hs = [imgdrv.gen(rng, 60) for _ in range(110 if c.tier == "quick" else 1500)]
    hs += [imgdrv.gen(rng, 8, only="cx") for _ in range(32 if c.tier == "quick" else 600)]
    c.conform("ImageTrace", imgdrv.run, hs)


if __name__ == "__main__":
    vlib.main("P02", check)
