"""Programs evaluated inside jit / vmap / scan, and objects passed through them."""
import random

import vlib
import profdrv as D

PID = "P17"
TR = ["expand", "dilate", "magnify", "shear", "lens", "rotate", "transform", "shift", "scaleflux", "withflux", "mul", "div", "neg"]


def program(rng, leaves=None, comp=True):
    """calls (construction only) as recorded events"""
    g = D.Gen(rng)
    hs = []
    for _ in range(rng.choice([1, 1, 2, 3]) if comp else 1):
        a = g.leaf(rng.choice(leaves or ["Gaussian", "Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel"]), gsp=0.2)
        for _ in range(rng.choice([0, 1, 1, 2])):
            a = g.tr(a, TR)
        hs.append(a)
    while len(hs) > 1:
        op = rng.choice(["sum", "add", "sub", "conv"])
        a, b = hs.pop(), hs.pop()
        if op == "sum":
            c = g.ev("sum", hs=[a, b], c="args")
        elif op == "conv":
            extra = g.leaf("Gaussian", gsp=0)
            c = g.ev("conv", hs=[a, b, extra], c="args")
        else:
            c = g.ev(op, a=a, b=b)
        hs.append(c)
    if rng.random() < 0.3:
        g.tr(hs[-1], TR)
    return g


def probe(rng, g, ops=("x", "k", "attrs", "lim")):
    kinds = [h["op"] for h in g.H]
    ops = [o for o in ops if not (o == "x" and "conv" in kinds)]
    if any(h["s"] == "Spergel" for h in g.H) and rng.random() < 0.8:
        ops = [o for o in ops if o != "lim"]
    op = rng.choice(ops)
    n = g.pts(2, 2.5, 0.2) if op in ("x", "k") else []
    return dict(op=op, n=n)


def gen(rng, k):
    g = program(rng)
    m = ["jit", "vmap", "jitvmap", "scan", "jit"][k % 5]
    return [dict(op="prog", a=0, b=0, hs=[], calls=g.H, probe=probe(rng, g), mode=m, comp=0)]


def objs(rng, k):
    """objects through pytrees, jit and vmap, then used and probed"""
    g = D.Gen(rng)
    h = program(rng)
    g.H, g.N = h.H, h.N
    a = g.N
    for c in rng.sample(["tree", "jit", "vmap"], 2):
        b = g.ev("id", a=a, c=c)
        if rng.random() < 0.7:
            b = g.tr(b, TR + ["gs"])
        conv = any(x["op"] == "conv" for x in g.H)
        w = ["k", "attrs", "gsq"] + ([] if conv else ["x"])
        for op in rng.sample(w, 2):
            g.ev(op, a=b, n=g.pts(2, 2.0) if op in ("x", "k") else [], mode=rng.choice(["jit", "vmap", "py"]) if op != "gsq" else "py", how="py")
    return g.H


def check(c):
    quick = c.tier == "quick"
    rng = random.Random(vlib.SEED * 104729 + 17)
    hs = [gen(rng, k) for k in range(90 if quick else 1500)] + [objs(rng, k) for k in range(30 if quick else 500)]
    hs += [D.Gen(rng).pattern(["noprop", "nest", "noprop"][k % 3], True) for k in range(20 if quick else 300)]
    c.conform("ProfTrace", D.run, hs)


if __name__ == "__main__":
    vlib.main(PID, check)
