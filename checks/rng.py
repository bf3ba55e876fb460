"""Random generators: replay stream histories on the real deviate classes."""
import random

import vlib
from vlib import num, nums, err_of

PID = "P09"
NAMES = {"B": "BaseDeviate", "U": "UniformDeviate", "G": "GaussianDeviate", "Bi": "BinomialDeviate",
         "Po": "PoissonDeviate", "W": "WeibullDeviate", "Ga": "GammaDeviate", "C": "Chi2Deviate"}
ARGS = {"B": [], "U": [], "G": ["mean", "sigma"], "Bi": ["N", "p"], "Po": ["mean"], "W": ["a", "b"],
        "Ga": ["k", "theta"], "C": ["n"]}


def make(jg, k, seed, p):
    kw = {}
    for name, v in zip(ARGS[k], p):
        kw[name] = int(v) if name == "N" else float(v)
    return getattr(jg, NAMES[k])(seed, **kw)


def seed_of(s, how):
    import numpy as np

    if s == "":
        return None
    if how == "np":
        return np.int64(int(s))
    if how == "jnp":
        import jax.numpy as jnp

        return jnp.asarray(int(s))
    if how == "float":
        return float(s)
    return int(s)


def rebuild(r, how, jg):
    import copy
    import pickle

    import jax

    if how == "duplicate":
        return r.duplicate()
    if how == "copy":
        return copy.copy(r)
    if how == "deepcopy":
        return copy.deepcopy(r)
    if how == "pickle":
        return pickle.loads(pickle.dumps(r))
    if how == "repr":
        return eval(repr(r), {"galsim": jg})
    if how == "tree":
        return jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(r)))
    if how == "jit":
        return jax.jit(lambda x: x)(r)
    raise KeyError(how)


def use(jg, r, how):
    """Hand the generator to something that draws from it."""
    g = jg.Gaussian(sigma=1.0, flux=12.0)
    if how == "makePhot":
        g.makePhot(rng=r)
    elif how == "shoot":
        g.shoot(9, rng=r)
    elif how == "conv":
        jg.Convolve(g, jg.Box(1.0, 2.0)).shoot(9, rng=r)
    elif how == "sum":
        (g + jg.Exponential(half_light_radius=2.0, flux=3.0)).shoot(9, rng=r)
    elif how in ("phot", "photN", "photmax"):
        kw = {"phot": {}, "photN": dict(n_photons=7), "photmax": dict(maxN=5)}[how]
        g.drawImage(nx=8, ny=8, scale=0.5, method="phot", rng=r, **kw)
    elif how == "gauss":
        jg.ImageD(2, 3, init_value=1.0).addNoise(jg.GaussianNoise(r, sigma=2.0))
    elif how == "poisson":
        jg.ImageD(2, 3, init_value=1.0).addNoise(jg.PoissonNoise(r, sky_level=2.0))
    elif how == "ccd":
        jg.ImageD(2, 3, init_value=1.0).addNoise(jg.CCDNoise(r, sky_level=2.0, gain=1.5, read_noise=2.0))
    elif how == "ccdread":
        jg.ImageD(2, 3, init_value=1.0).addNoise(jg.CCDNoise(r, gain=0.0, read_noise=2.0))
    else:
        raise KeyError(how)


USES = ["makePhot", "shoot", "conv", "sum", "phot", "photN", "photmax", "gauss", "poisson", "ccd", "ccdread"]
_J = {}


def jitted(name):
    import jax
    import jax.numpy as jnp

    if name not in _J:
        if name == "draw":
            _J[name] = jax.jit(lambda r: (r(), r))
        elif name.startswith("gen"):
            n = int(name[3:])
            _J[name] = jax.jit(lambda r: (r.generate(jnp.zeros(n)), r))
        elif name.startswith("vmap"):
            n = int(name[4:])
            _J[name] = jax.vmap(lambda r: r.generate(jnp.zeros(n)))
    return _J[name]


def run(history, emit):
    import jax
    import jax.numpy as jnp
    import jax_galsim as jg
    import numpy as np

    hs, nh = [], 0
    for h in history:
        op, how = h["op"], h["how"]
        r = hs[h["h"] - 1] if 0 < h["h"] <= len(hs) else None
        g = hs[h["g"] - 1] if 0 < h["g"] <= len(hs) else None
        ev = dict(h, obs=[], err=[])
        if "uid" in h:
            ev["s"] = "U%d" % h["uid"]
        res = []
        try:
            if op == "new":
                hs.append(make(jg, h["k"], seed_of(h["s"], how), h["p"]))
            elif op == "newbad":
                make(jg, h["k"], {"float": 3.5, "dict": {}, "list": [1, 2]}[how], h["p"])
            elif op == "newfrom":
                hs.append(make(jg, h["k"], g, h["p"]))
            elif op == "fromser":
                s = g.serialize()
                hs.append(make(jg, h["k"], s if how == "str" else eval(s), h["p"]))
            elif op == "dup":
                hs.append(rebuild(r, how, jg))
            elif op == "draw":
                res = [num(r())]
            elif op == "drawjit":
                v, r2 = jitted("draw")(r)
                r.reset(r2)
                res = [num(v)]
            elif op == "drawtree":
                res = [num(rebuild(r, "tree", jg)())]
            elif op in ("gen", "genjit"):
                if op == "gen":
                    a = np.zeros(h["n"]) if how == "np" else jnp.zeros((h["n"], 1) if how == "2d" else h["n"])
                    v = r.generate(a)
                    assert v.shape == a.shape
                else:
                    v, r2 = jitted("gen%d" % h["n"])(r)
                    r.reset(r2)
                res = nums(v)
            elif op == "addgen":
                res = nums(r.add_generate(jnp.array([float(x) for x in h["p"]])))
            elif op == "genvar":
                res = nums(r.generate_from_variance(jnp.array([float(x) for x in h["p"]])))
            elif op == "genexp":
                res = nums(r.generate_from_expectation(jnp.array([float(x) for x in h["p"]])))
            elif op == "vdraw":
                st = jax.tree_util.tree_map(
                    lambda *x: jnp.stack([jnp.asarray(y) for y in x]), r, g
                )
                res = nums(jitted("vmap%d" % h["n"])(st))
            elif op == "raw":
                res = [num(r.raw())]
            elif op == "discard":
                r.discard(h["n"])
            elif op == "use":
                use(jg, r, how)
            elif op == "clear":
                r.clearCache()
            elif op == "seed":
                r.seed(seed_of(h["s"], how))
            elif op == "seedbad":
                r.seed(2.5)
            elif op == "resetseed":
                r.reset(seed_of(h["s"], how))
            elif op == "resetto":
                r.reset(g)
            elif op == "resetbad":
                r.reset({"float": 3.5, "dict": {}, "list": [1, 2]}[how])
            elif op == "permute":
                a = [float(i + 1) for i in range(h["n"])]
                x, y = jg.random.permute(r, jnp.array(a), jnp.array([10 * v for v in a]))
                res = [num(int(v)) for v in x.tolist()] + [num(int(round(v / 10))) for v in y.tolist()]
            elif op == "ser":
                res = [r.serialize()]
            elif op == "eq":
                e, ne = bool(r == g), bool(r != g)
                res = ["T" if e else "F", "T" if ne else "F"]
            elif op == "params":
                k = [x for x in NAMES if type(r) is getattr(jg, NAMES[x])]
                res = k + [num(getattr(r, "n" if a == "N" else a)) for a in ARGS[k[0]]]
            elif op == "dist":
                k = [x for x in NAMES if type(r) is getattr(jg, NAMES[x])][0]
                v = np.asarray(r.generate(jnp.zeros(h["n"])), dtype=float)
                t = 0.0 if k in ("Po", "Bi") else float(h["s"])
                res = [num(float(v.mean())), num(float(v.var())), num(float((v <= t).mean())), num(t)]
            else:
                raise KeyError(op)
            ev["obs"] = res
        except Exception as e:
            ev["err"] = err_of(e)
        emit(ev)


def gen(rng, length):
    H, K = [], []  # K[i] = (kind, params) of handle i+1

    def params(k):
        f = lambda lo, hi: repr(round(rng.uniform(lo, hi), 2))
        return {
            "B": [], "U": [], "G": [f(-5, 5), rng.choice([f(0.1, 4), "0.0", "1.0"])],
            "Bi": [str(rng.randint(1, 12)), f(0.05, 0.95)], "Po": [rng.choice([f(0.1, 30), "0.0", "250000.0"])],
            "W": [f(0.7, 4), f(0.5, 3)], "Ga": [rng.choice(["1.0", f(0.3, 6)]), f(0.4, 3)],
            "C": [rng.choice(["2.0", f(0.5, 9)])],
        }[k]

    def ev(op, h=0, g=0, n=0, s="", k="", p=(), how="py"):
        H.append(dict(op=op, h=h, g=g, n=n, s=s, k=k, p=list(p), how=how))

    def seed():
        return rng.choice(["1", "2", "3", "12345", str(rng.randint(1, 2**31 - 1)), str(rng.randint(2**31, 2**45))])

    def new(k=None, s=None):
        k = k or rng.choice(list(NAMES))
        p = params(k)
        s = s or seed()
        ev("new", s=s, k=k, p=p, how=rng.choice(["int", "np"] + (["jnp"] if int(s) < 2**31 else [])))
        K.append((k, p))

    new()
    new("G")
    while len(H) < length:
        x = rng.random()
        h = rng.randint(1, len(K))
        g = rng.randint(1, len(K))
        k, p = K[h - 1]
        if x < 0.10:
            new()
        elif x < 0.12 and len(K) < 20:
            # an unseeded generator is a stream of its own; its state must be new
            H.append(dict(op="new", h=0, g=0, n=0, s="", k=k, p=p, how="int", fresh=1))
            K.append((k, p))
        elif x < 0.20:
            k2 = rng.choice(list(NAMES))
            p2 = params(k2)
            op = rng.choice(["newfrom", "newfrom", "fromser"])
            ev(op, g=g, k=k2, p=p2, how=rng.choice(["str", "tuple"]))
            K.append((k2, p2))
        elif x < 0.28:
            ev("dup", h, h, how=rng.choice(["duplicate", "copy", "deepcopy", "pickle", "repr", "tree", "jit"]))
            K.append(K[h - 1])
        elif x < 0.45:
            ev(rng.choice(["draw", "draw", "drawjit", "drawtree"]), h, h)
        elif x < 0.56:
            how = rng.choice(["py", "np", "2d"])
            ev("gen", h, h, n=rng.randint(0, 5) if how == "py" else 3, how=how)
        elif x < 0.60:
            ev("genjit", h, h, n=3)
        elif x < 0.64:
            ev("addgen", h, h, p=[repr(round(rng.uniform(-3, 3), 1)) for _ in range(3)])
        elif x < 0.68:
            gs = [i + 1 for i, q in enumerate(K) if q[0] in ("G", "Po")]
            if gs:
                h = rng.choice(gs)
                neg = K[h - 1][0] == "Po" and rng.random() < 0.1
                ps = [repr(round(rng.uniform(0, 9), 1)) for _ in range(3)]
                if neg:
                    ps[1] = "-1.0"
                ev("genvar" if K[h - 1][0] == "G" else "genexp", h, h, p=ps)
        elif x < 0.71:
            # stack two generators whose static parts agree
            c = [i + 1 for i, q in enumerate(K) if q[0] == k and (k != "Bi" or q[1][0] == p[0])]
            if k != "B":
                ev("vdraw", h, rng.choice(c), n=2)
        elif x < 0.74:
            ev("raw", h, h)
        elif x < 0.79:
            ev("discard", h, h, n=rng.choice([0, 1, 2, 7]))
        elif x < 0.80:
            ev("clear", h, h)
        elif x < 0.815:
            ev("use", h, h, how=rng.choice(USES))
        elif x < 0.84:
            ev("seed", h, h, s=seed(), how=rng.choice(["int", "np", "float"]))
        elif x < 0.88:
            s = seed()
            ev("resetseed", h, h, s=s, how=rng.choice(["int", "np"] + (["jnp"] if int(s) < 2**31 else [])))
        elif x < 0.91:
            ev("resetto", h, g)
        elif x < 0.93:
            ev("permute", h, h, n=rng.choice([1, 4, 9]))
        elif x < 0.95:
            ev("ser", h, h)
        elif x < 0.97:
            ev("eq", h, rng.choice([g, h, len(K)]))
        elif x < 0.98:
            ev("params", h, h)
        elif x < 0.985:
            ev("newbad", k=rng.choice(["B", "U"]), how=rng.choice(["float", "dict", "list"]))
        elif x < 0.99:
            ev(rng.choice(["seedbad", "resetbad"]), h, h, how=rng.choice(["float", "dict", "list"]))
        elif x < 0.995:
            ev("new", s=seed(), k="G", p=["0.0", "-1.0"], how="int")
        else:
            ev("new", s=seed(), k="Po", p=["-0.5"], how="int")
    # finally: what every generator would deliver next, and all states
    for i in range(len(K)):
        ev("ser", i + 1, i + 1)
        ev("params", i + 1, i + 1)
        if K[i][0] != "B":
            ev("draw", i + 1, i + 1)
    u = 0
    for e in H:
        if e.pop("fresh", 0):
            u += 1
            e["s"] = ""
            e["uid"] = u
    return H


def dists(rng, full):
    """One distribution sample per kind and parameter set."""
    out = []
    ps = [("U", []), ("G", ["1.5", "2.0"]), ("G", ["-3.0", "0.25"]), ("Po", ["0.3"]), ("Po", ["4.5"]), ("Po", ["40.0"]),
          ("Po", ["300000.0"]), ("Bi", ["1", "0.5"]), ("Bi", ["10", "0.2"]), ("Bi", ["7", "0.9"]), ("W", ["0.9", "2.0"]), ("W", ["4.0", "0.5"]),
          ("Ga", ["1.0", "2.5"]), ("Ga", ["4.0", "0.5"]), ("Ga", ["0.5", "3.0"]), ("C", ["2.0"]), ("C", ["5.0"]), ("C", ["1.0"])]
    for _ in range(40 if full else 6):
        k = rng.choice(["G", "Po", "Bi", "W", "Ga", "C"])
        f = lambda lo, hi: repr(round(rng.uniform(lo, hi), 3))
        ps.append((k, {"G": [f(-9, 9), f(0.1, 9)], "Po": [f(0.1, 60)], "Bi": [str(rng.randint(1, 15)), f(0.1, 0.9)],
                       "W": [f(0.8, 5), f(0.3, 4)], "Ga": [f(0.4, 8), f(0.2, 4)], "C": [f(0.8, 12)]}[k]))
    for k, p in ps:
        t = {"U": "0.3", "G": "1.0", "W": "1.0", "C": "1.2", "Ga": "2.0"}.get(k, "0")
        if k == "G":
            t = repr(float(p[0]) + 0.4 * float(p[1]))
        if k == "W":
            t = p[1]
        h = [dict(op="new", h=0, g=0, n=0, s=str(rng.randint(1, 10**8)), k=k, p=p, how="int"),
             dict(op="dist", h=1, g=1, n=20000, s=t, k="", p=[], how=k)]
        out.append(h)
    return out


def check(c):
    quick = c.tier == "quick"
    c.model_check("RNGMC", "RNGMC.cfg" if quick else "RNGMC5.cfg", timeout=900)
    hs = c.generate("RNGMC", "RNGGen.cfg", num=40 if quick else 300, depth=32)
    rng = random.Random(vlib.SEED * 104729 + 9)
    hs += dists(rng, not quick)
    hs += [gen(rng, 60) for _ in range(110 if quick else 900)]
    c.conform("RNGTrace", run, hs)


if __name__ == "__main__":
    vlib.main(PID, check)
