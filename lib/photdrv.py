"""Replay photon-array histories on the real code and record them."""
import copy
import os
import warnings
from contextlib import nullcontext

from drawdrv import DT, dname
from vlib import num, nums, err_of

CH = ["dxdz", "dydz", "wavelength", "pupil_u", "pupil_v", "time"]
CHG = {"put", "scalef", "scalexy", "settot", "corr", "keep", "copy", "assign", "conv", "addto"}


def alias(h):
    return h["op"] in ("see", "eq") or (h["op"] in CHG and h["mode"] != "jit")


def look(o):
    import numpy as np
    import jax_galsim as jg

    if isinstance(o, jg.PhotonArray):
        t = lambda v: "T" if bool(v) else "F"
        r = [num(o.size()), num(len(o)), num(o._num_keep), t(o.isCorrelated()), t(o.hasAllocatedAngles()), t(o.hasAllocatedWavelengths()),
             t(o.hasAllocatedPupil()), t(o.hasAllocatedTimes()), num(o.getTotalFlux())]
        r += nums(o.x) + nums(o.y) + nums(o.flux) + [t(v) for v in np.array(o._nokeep)]
        for c in CH:
            r += nums(getattr(o, c))
        return r
    b = o.bounds
    sc = "none" if o.wcs is None else num(o.wcs.scale) if type(o.wcs).__name__ == "PixelScale" else "wcs"
    if not b.isDefined():
        return ["F", dname(o.dtype), dname(o.array.dtype), sc]
    a = np.array(o.array)
    return ["T"] + nums([b.xmin, b.xmax, b.ymin, b.ymax]) + [dname(o.dtype), dname(a.dtype), sc] + nums(a.real if np.iscomplexobj(a) else a)


def arr(v, how, n=None):
    import jax.numpy as jnp
    import numpy as np

    v = [float(x) for x in v]
    if len(v) == 1 and how not in ("whole", "wjnp"):
        return {"py": lambda: v[0], "np": lambda: np.float64(v[0]), "jnp": lambda: jnp.array(v[0]), "one": lambda: np.array(v)}.get(how, lambda: v[0])()
    return jnp.array(v) if how in ("jnp", "wjnp") else np.array(v)


def index(d):
    import numpy as np

    k = d[0]
    if k == "all":
        return slice(None)
    if k == "slice":
        return slice(*[int(x) for x in d[1:]])
    if k == "int":
        return int(d[1])
    if k == "at":
        return np.array([int(x) for x in d[1:]])
    return np.array([x == "T" for x in d[1:]])


def change(jg, h, p, q):
    """the call itself; what it returned"""
    op, n = h["op"], h["n"]
    f = lambda x: arr([x], h["how"])
    if op == "put":
        for name, v in h["arr"]:
            setattr(p, name, arr(v, h["how"]))
        return p
    if op == "scalef":
        return p.scaleFlux(f(n[0]))
    if op == "scalexy":
        return p.scaleXY(f(n[0]))
    if op == "settot":
        return p.setTotalFlux(f(n[0]))
    if op == "corr":
        p.setCorrelated(h["s"] == "T")
        return p
    if op == "keep":
        p._num_keep = int(n[0])
        return p
    if op == "copy":
        kw = {k: v == "T" for k, v in zip(("do_xy", "do_flux", "do_other"), n)}
        return p.copyFrom(q, index(h["i1"]), index(h["i2"]), **kw)
    if op == "assign":
        return p.assignAt(int(n[0]), q)
    if op == "conv":
        return p.convolve(q, jg.BaseDeviate(int(n[0])))
    if op == "addto":
        return q.addTo(p) if h["s"] == "addto" else jg.Sensor().accumulate(q, p)


def same(jg, o, how, tmp):
    import jax
    import jax.numpy as jnp
    import numpy as np

    if how == "file":
        p = os.path.join(tmp, "pa%d.fits" % os.getpid())
        try:
            o.write(p)
            return jg.PhotonArray.read(p)
        finally:
            if os.path.exists(p):
                os.remove(p)
    if how == "tree":
        a, b = jax.tree_util.tree_flatten(o)
        return jax.tree_util.tree_unflatten(b, a)
    if how == "jit":
        return jax.jit(lambda x: x)(o)
    if how == "repr":
        return eval(repr(o), {"galsim": jg, "array": np.array, "nan": float("nan"), "inf": float("inf")})
    return {"copy": copy.copy, "deep": copy.deepcopy}[how](o)


def fixed(n):
    from jax_galsim.photon_array import fixed_photon_array_size

    return fixed_photon_array_size(n) if n else nullcontext()


def run(history, emit):
    import jax
    import numpy as np
    import jax_galsim as jg

    warnings.simplefilter("ignore")
    tmp = os.environ.get("TMPDIR", "/tmp")
    hs = []
    for h in history:
        ev, op, new = dict(h, obs=[], err=[]), h["op"], None
        try:
            if not any(hs[x - 1] is None for x in (h["a"], h["b"]) if x):
                p = hs[h["a"] - 1] if h["a"] else None
                q = hs[h["b"] - 1] if h["b"] else None
                if op == "pnew":
                    with fixed(int(h["n"][1])):
                        new = jg.PhotonArray(int(h["n"][0]), **{k: arr(v, h["how"]) for k, v in h["arr"]})
                    ev["obs"] = look(new)
                elif op == "pfrom":
                    with fixed(int(h["n"][1])):
                        v = [arr(v, "whole" if h["how"] != "jnp" else "wjnp") for _, v in h["arr"][:3]]
                        new = jg.PhotonArray.fromArrays(*v, **{k: arr(w, "whole") for k, w in h["arr"][3:]}, is_corr=h["s"] == "corr")
                        for x in v:
                            if isinstance(x, np.ndarray):
                                x += 77.0      # the array keeps its own numbers
                    ev["obs"] = look(new)
                elif op == "im":
                    w = None if h["c"] == "none" else jg.JacobianWCS(1.0, 0.1, 0.0, 1.0) if h["c"] == "wcs" else jg.PixelScale(float(h["c"]))
                    dt = getattr(np, DT.get(h["s"], "uint16"))
                    if len(h["n"]) < 4:
                        new = jg.Image(dtype=dt, wcs=w)
                    else:
                        b = jg.BoundsI(*[int(x) for x in h["n"]])
                        a = np.array([float(x) for x in h["arr"][0][1]]).reshape(int(h["n"][3]) - int(h["n"][2]) + 1, -1).astype(dt)
                        new = jg.Image(a, bounds=b, wcs=w)
                    ev["obs"] = look(new)
                elif op == "see":
                    ev["obs"] = look(p)
                elif op == "eq":
                    t = lambda v: "T" if bool(v) else "F"
                    o = p if h["s"] == "T" else q
                    ev["obs"] = [t(p == o), t(p != o)]
                elif op == "make":
                    new = jg.PhotonArray.makeFromImage(p, max_flux=arr(h["n"], h["how"]), rng=jg.BaseDeviate(int(h["s"])))
                    ev["obs"] = look(new)
                elif op == "same":
                    new = same(jg, p, h["s"], tmp)
                    ev["obs"] = ["T" if type(new) is type(p) and (new == p) else "F"] + look(new)
                elif h["mode"] == "jit":
                    if op == "addto":
                        r, new = jax.jit(lambda a, b: (change(jg, h, a, b), a))(p, q)
                        ev["obs"] = [num(r)] + look(new)
                    elif q is None:
                        new = jax.jit(lambda a: (change(jg, h, a, None), a)[1])(p)
                        ev["obs"] = ["F"] + look(new)
                    else:
                        new = jax.jit(lambda a, b: (change(jg, h, a, b), a)[1])(p, q)
                        ev["obs"] = ["F"] + look(new)
                else:
                    r = change(jg, h, p, q)
                    ev["obs"] = [num(r) if op == "addto" else "T" if r is p else "F"] + look(p)
        except Exception as e:
            ev["err"] = err_of(e)
            ev["obs"] = []
        if not alias(h):
            hs.append(new)
        emit(ev)


class Gen:
    def __init__(self, rng):
        self.rng, self.H, self.N, self.pas, self.ims, self.size = rng, [], 0, [], [], {}

    def ev(self, op, a=0, b=0, n=(), s="", c="", arr=(), i1=("all",), i2=("all",), mode="eager", how=None):
        r = self.rng
        self.H.append(dict(op=op, a=a, b=b, n=[str(x) for x in n], s=s, c=c, arr=[[k, [str(x) for x in v]] for k, v in arr], i1=[str(x) for x in i1],
                           i2=[str(x) for x in i2], mode=mode, how=how or r.choice(["py", "np", "jnp"])))
        if not alias(self.H[-1]):
            self.N += 1
        return self.N

    def vals(self, name, n):
        r = self.rng
        if name in ("x", "y"):
            f = lambda: r.choice([str(r.randint(-2, 7)) + ".0", str(r.randint(-2, 7)) + ".5", "%.3f" % r.uniform(-2, 8)])
        elif name == "flux":
            f = lambda: r.choice(["1.0", "%.3f" % r.uniform(-3, 9), str(r.randint(-40, 80) / 8)])
        elif name == "wavelength":
            f = lambda: "%.1f" % r.uniform(300, 1000)
        else:
            f = lambda: r.choice(["%.4f" % r.uniform(-1, 1), "%.4f" % r.uniform(-1, 1), "0.0"])
        return [f() for _ in range(n)]

    def whole(self, n, p=0.35):
        r = self.rng
        gs = [g for g in (CH[:2], CH[2:3], CH[3:5], CH[5:]) if r.random() < p * 0.6]
        return [[c, self.vals(c, n)] for c in ["x", "y", "flux"] + sum(gs, [])]

    def array(self, n=None, fix=None):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 6]) if n is None else n
        fix = (r.choice([0, 0, 0, n + r.randint(0, 3)]) if n else 0) if fix is None else fix
        tot = fix or n
        if r.random() < 0.4 and n and not (fix and fix != n and r.random() < 0.8):
            a = self.ev("pfrom", n=[n, fix], arr=self.whole(n), s=r.choice(["", "", "corr"]))
            tot = n
        else:
            names = [c for c in ["x", "y", "flux"] if r.random() < 0.85] + [c for c in CH if r.random() < 0.2]
            one = lambda c: r.random() < 0.25
            if fix and r.random() < 0.05:
                n = fix + 1
            a = self.ev("pnew", n=[n, fix], arr=[[c, self.vals(c, 1 if one(c) or not tot else tot)] for c in names])
        self.pas.append(a)
        self.size[a] = tot
        return a

    def image(self, make=False):
        r = self.rng
        dt = r.choice(["f4", "f8", "f8", "i4", "i2", "u2"] + ([] if make else ["c8", "c16"]))
        sc = r.choice(["none", "none", "0.5", "1.0", "%.3f" % r.uniform(0.2, 2), "wcs" if r.random() < 0.3 else "none"])
        if r.random() < 0.06:
            a = self.ev("im", s=dt, c=sc, arr=[["px", []]])
        else:
            x, y, w, h = r.choice([1, 0, -2, 3]), r.choice([1, 0, -2, 3]), r.randint(1, 5), r.randint(1, 5)
            f = (lambda: str(r.randint(0, 9))) if dt == "u2" else (lambda: str(r.randint(-9, 9))) if dt[0] == "i" else (lambda: r.choice(["0.0", str(r.randint(-40, 80) / 8)]))
            a = self.ev("im", s=dt, c=sc, n=[x, x + w - 1, y, y + h - 1], arr=[["px", [f() for _ in range(w * h)]]])
        self.ims.append((a, dt))
        return a

    def index(self, n):
        """a list of places, and how many it names"""
        r = self.rng
        t = r.random()
        if t < 0.25:
            a = r.randint(0, n)
            b = r.randint(a, n)
            return ["slice", a, b, 1], b - a
        if t < 0.35:
            a, s = r.randint(0, n), r.choice([2, 3])
            return ["slice", a, n, s], len(range(a, n, s))
        if t < 0.5:
            return ["slice", -r.randint(1, n), n, 1], None
        if t < 0.65:
            return ["int", r.randint(-n, n - 1)], 1
        if t < 0.85:
            k = r.randint(1, n)
            return ["at"] + r.sample(range(n), k), k
        m = [r.random() < 0.5 for _ in range(n)]
        return ["mask"] + ["T" if x else "F" for x in m], sum(m)
