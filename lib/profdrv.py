"""Replay profile histories on the real jax_galsim profiles and record them."""
import vlib
from vlib import num, nums, err_of

GSN = ["minimum_fft_size", "maximum_fft_size", "folding_threshold", "stepk_minimum_hlr", "maxk_threshold",
       "kvalue_accuracy", "xvalue_accuracy", "table_spacing", "realspace_relerr", "realspace_abserr",
       "integration_relerr", "integration_abserr", "shoot_accuracy"]
GSINT = {"minimum_fft_size", "maximum_fft_size", "table_spacing"}
SHAPE = {"Moffat": ["beta"], "Spergel": ["nu"]}
PROBES = {"x", "k", "attrs", "lim", "gsq", "sizes"}


def val(s, how):
    """A literal given as a python, numpy or jax number (tracers pass through)."""
    if not isinstance(s, str):
        return s
    f = float(s)
    if how == "np":
        import numpy as np

        return np.float64(f)
    if how == "jnp":
        import jax.numpy as jnp

        return jnp.asarray(f)
    if how == "int" and f == int(f):
        return int(f)
    return f


def gskw(gs):
    return {k: (int(v) if k in GSINT else float(v)) for k, v in gs}


def leaf(jg, h):
    cls, how, t = h["s"], h["c"], h.get("how", "py")
    n = [val(x, t) for x in h["n"]]
    kw = {"flux": n[-1]}
    if h["gs"]:
        kw["gsparams"] = jg.GSParams(**gskw(h["gs"]))
    if cls in ("Gaussian", "Exponential", "Moffat", "Spergel"):
        shape = SHAPE.get(cls, [])
        for name, v in zip(shape, n):
            kw[name] = v
        size = n[len(shape)]
        if how == "two":
            kw["half_light_radius"] = size
            kw[{"Gaussian": "sigma"}.get(cls, "scale_radius")] = size
        elif how != "none":
            kw[how] = size
        return getattr(jg, cls)(**kw)
    if cls == "Box":
        return jg.Box(n[0], n[1], **kw)
    if cls == "Pixel":
        return jg.Pixel(n[0], **kw)
    return jg.DeltaFunction(**kw)


def build(jg, hs, h):
    """One construction call; returns the new profile."""
    op, t = h["op"], h.get("how", "py")
    o = hs[h["a"] - 1] if h["a"] else None
    n = [val(x, t) for x in h["n"]]
    gl = [hs[i - 1] for i in h["hs"]]
    if op == "leaf":
        return leaf(jg, h)
    if op == "expand":
        return o.expand(n[0])
    if op == "dilate":
        return o.dilate(n[0])
    if op == "magnify":
        return o.magnify(n[0])
    if op == "shear":
        if h["s"] == "e":
            return o.shear(e1=n[0], e2=n[1]) if t != "np" else o.shear(jg.Shear(e1=n[0], e2=n[1]))
        return o.shear(g1=n[0], g2=n[1]) if t != "np" else o.shear(jg.Shear(g1=n[0], g2=n[1]))
    if op == "lens":
        return o.lens(n[0], n[1], n[2])
    if op == "rotate":
        return o.rotate(n[0] * jg.degrees)
    if op == "transform":
        return o.transform(*n)
    if op == "shift":
        return o.shift(n[0], n[1]) if t != "np" else o.shift(jg.PositionD(n[0], n[1]))
    if op == "trf":
        import numpy as np

        gs = jg.GSParams(**dict(zip(GSN, [getattr(o.gsparams, g) for g in GSN]), **gskw(h["gs"])))
        return jg.Transform(o, jac=[n[0], n[1], n[2], n[3]] if t != "np" else np.array([n[0:2], n[2:4]]),
                            offset=(jg.PositionD(n[4], n[5]) if t != "np" else (n[4], n[5])), flux_ratio=n[6],
                            gsparams=gs, propagate_gsparams=h["s"] == "T")
    if op == "withflux":
        return o.withFlux(n[0])
    if op == "scaleflux":
        return o.withScaledFlux(n[0])
    if op == "mul":
        return o * n[0]
    if op == "rmul":
        return n[0] * o
    if op == "div":
        return o / n[0]
    if op == "neg":
        return -o
    if op == "add":
        return o + hs[h["b"] - 1]
    if op == "sub":
        return o - hs[h["b"] - 1]
    if op in ("sum", "conv", "deconv"):
        kw = {"propagate_gsparams": False} if h["s"] == "F" else {}
        if h["gs"]:
            kw["gsparams"] = jg.GSParams(**gskw(h["gs"]))
    if op == "sum":
        if h["c"] == "Add":
            return jg.Add(*gl, **kw)
        return jg.Sum(*gl, **kw) if h["c"] == "args" else jg.Sum(gl, **kw)
    if op == "conv":
        if h["c"] == "Convolve":
            return jg.Convolve(*gl, **kw)
        return jg.Convolution(*gl, **kw) if h["c"] == "args" else jg.Convolution(gl, **kw)
    if op == "deconv":
        return jg.Deconvolution(o, **kw) if h["c"] != "fn" else jg.Deconvolve(o, **kw)
    if op == "gs":
        kw = gskw(h["gs"])
        if h["c"] == "obj":
            return o.withGSParams(jg.GSParams(**dict({g: getattr(o.gsparams, g) for g in GSN}, **kw)))
        return o.withGSParams(**kw)
    if op == "id":
        return rebuild(jg, o, h["c"])
    if op == "bad":
        return bad(jg, o, h)
    raise KeyError(op)


def bad(jg, o, h):
    c = h["c"]
    if c == "addnum":
        return o + 3
    if c == "subnum":
        return o - 2.0
    if c == "sumobj":
        return jg.Sum([o, 3.0])
    if c == "convobj":
        return jg.Convolve(o, "x")
    if c == "deconvobj":
        return jg.Deconvolve(3)
    if c == "shearargs":
        return o.shear(0.1)
    if c == "shearnone":
        return o.shear()
    if c == "shearboth":
        return o.shear(jg.Shear(g1=0.1), g1=0.1)
    if c == "rotatenum":
        return o.rotate(0.3)
    if c == "transobj":
        return jg.Transform("x", (1, 0, 0, 1))
    if c == "sumkw":
        return jg.Sum([o], foo=3)
    raise KeyError(c)


def rebuild(jg, o, how):
    import copy
    import pickle

    import jax

    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "pickle":
        return pickle.loads(pickle.dumps(o))
    if how == "tree":
        leaves, td = jax.tree_util.tree_flatten(o)
        return jax.tree_util.tree_unflatten(td, leaves)
    if how == "jit":
        return jax.jit(lambda x: x)(o)
    if how == "vmap":
        import jax.numpy as jnp

        st = jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), o)
        r = jax.vmap(lambda x: x)(st)
        return jax.tree_util.tree_map(lambda x: x[1], r)
    if how == "repr":
        import numpy as np

        return eval(repr(o), {"galsim": jg, "array": np.array, "coord": jg, "np": np})
    raise KeyError(how)


def attrs(o, axi=True):
    c = o.centroid
    return [o.flux, c.x, c.y, o.max_sb, o.positive_flux - o.negative_flux, o.has_hard_edges, o.is_analytic_x,
            o.is_analytic_k, o.is_axisymmetric if axi else True]


def kids(o):
    n = type(o).__name__
    if n == "Transformation":
        return [o.original]
    if n in ("Sum", "Convolution"):
        return list(o.obj_list)
    if n == "Deconvolution":
        return [o.orig_obj]
    return []


def gsrows(o):
    r = [num(getattr(o.gsparams, g)) for g in GSN]
    for k in kids(o):
        r += gsrows(k)
    return r


def sizes(o):
    n = type(o).__name__
    a = {"Gaussian": ["sigma", "half_light_radius", "fwhm"], "Exponential": ["scale_radius", "half_light_radius"],
         "Moffat": ["beta", "scale_radius", "half_light_radius", "fwhm"], "Spergel": ["nu", "scale_radius", "half_light_radius"],
         "Box": ["width", "height"], "Pixel": ["scale", "width", "height"], "DeltaFunction": []}[n]
    return [getattr(o, x) for x in a] + [o.flux]


_J = {}


def J(name):
    """One compiled function per probe, re-traced per profile structure."""
    import jax
    import jax.numpy as jnp

    if name not in _J:
        _J[name] = {
            "x": lambda: jax.jit(lambda o, x, y: o.xValue(x, y)),
            "k": lambda: jax.jit(lambda o, x, y: o.kValue(x, y)),
            "xv": lambda: jax.vmap(lambda o, x, y: o.xValue(x, y), in_axes=(None, 0, 0)),
            "kv": lambda: jax.vmap(lambda o, x, y: o.kValue(x, y), in_axes=(None, 0, 0)),
            "attrs": lambda: jax.jit(lambda o: [jnp.asarray(v) for v in attrs(o, False)]),
            "lim": lambda: jax.jit(lambda o: [o.stepk, o.maxk, o.nyquist_scale]),
            "sizes": lambda: jax.jit(lambda o: [jnp.asarray(v) for v in sizes(o)]),
        }[name]()
    return _J[name]


def probe(jg, o, h):
    import jax.numpy as jnp
    import numpy as np

    op, mode = h["op"], h["mode"]
    if mode == "tree":
        o = rebuild(jg, o, "tree")
    if op in ("x", "k"):
        if mode == "img":            # the same values, as pixels of an image
            nx, ny = h["grid"][:2]
            kw = dict(bounds=jg.BoundsI(-(nx // 2), -(nx // 2) + nx - 1, -(ny // 2), -(ny // 2) + ny - 1), scale=float(h["grid"][2]))
            if op == "x" and not o.is_analytic_x:
                o.xValue(0.0, 0.0)
            im = o.drawKImage(**kw) if op == "k" else o.drawImage(method="sb", dtype=np.float64, use_true_center=False, **kw)
            v = np.asarray(im.array).ravel()
            return nums(v) if op == "x" else [s for a in v for s in (num(a.real), num(a.imag))]
        pts = [(val(h["n"][2 * i], "py"), val(h["n"][2 * i + 1], "py")) for i in range(len(h["n"]) // 2)]
        f = o.xValue if op == "x" else o.kValue
        if mode == "jit":
            v = [J(op)(o, x, y) for x, y in pts]
        elif mode == "vmap":
            v = list(J(op + "v")(o, jnp.array([p[0] for p in pts]), jnp.array([p[1] for p in pts])))
        elif mode == "pos":
            v = [f(jg.PositionD(*p)) for p in pts]
        elif mode == "tup":
            v = [f(p) for p in pts]
        else:
            v = [f(*p) for p in pts]
        if op == "x":
            return [num(a) for a in v]
        return [s for a in v for s in (num(np.real(a)), num(np.imag(a)))]
    if op == "attrs":
        return [num(v) for v in (J("attrs")(o) if mode == "jit" else attrs(o))]
    if op == "lim":
        return [num(v) for v in (J("lim")(o) if mode == "jit" else [o.stepk, o.maxk, o.nyquist_scale])]
    if op == "gsq":
        return gsrows(o)
    if op == "sizes":
        return [num(v) for v in (J("sizes")(o) if mode == "jit" else sizes(o))]
    raise KeyError(op)


# ------------------------------------------------- whole programs, traced
def lits(h):
    """All literals of a program, probe last."""
    return [float(x) for c in h["calls"] for x in c["n"]] + [float(x) for x in h["probe"]["n"]]


def execute(jg, h, v):
    """Run the program with its literals replaced by v; returns the raw values."""
    import jax.numpy as jnp

    hs, i = [], 0
    for c in h["calls"]:
        k = len(c["n"])
        hs.append(build(jg, hs, dict(c, n=[v[i + j] for j in range(k)], how="py")))
        i += k
    p, o = h["probe"], hs[-1]
    if p["op"] in ("x", "k"):
        out = []
        for j in range(len(p["n"]) // 2):
            r = (o.xValue if p["op"] == "x" else o.kValue)(v[i + 2 * j], v[i + 2 * j + 1])
            out += [r] if p["op"] == "x" else [jnp.real(r), jnp.imag(r)]
        return out
    if p["op"] == "attrs":
        return [o.flux, o.centroid.x, o.centroid.y, o.max_sb]
    if p["op"] == "lim":
        return [o.stepk, o.maxk, o.nyquist_scale]
    raise KeyError(p["op"])


def run_prog(jg, h):
    import jax
    import jax.numpy as jnp

    v = jnp.array(lits(h))
    f = lambda w: jnp.stack([jnp.asarray(x, dtype=float) for x in execute(jg, h, w)])
    if h["mode"] == "jit":
        r = jax.jit(f)(v)
    elif h["mode"] == "vmap":
        w = v * 1.01 + 0.003
        r = jax.vmap(f)(jnp.stack([w, v]))[1]
    elif h["mode"] == "jitvmap":
        r = jax.jit(jax.vmap(f))(jnp.stack([v, v * 0.99 + 0.002]))[0]
    elif h["mode"] == "scan":
        r = jax.lax.scan(lambda c, w: (c, f(w)), 0, jnp.stack([v, v * 0.99 + 0.002]))[1][0]
    elif h["mode"] == "eager":
        r = f(v)
    elif h["mode"] == "rev":
        r = jax.grad(lambda w: execute(jg, h, w)[h["comp"] - 1])(v)
    elif h["mode"] == "jitrev":
        r = jax.jit(jax.grad(lambda w: execute(jg, h, w)[h["comp"] - 1]))(v)
    elif h["mode"] == "fwd":
        r = jax.jacfwd(lambda w: jnp.asarray(execute(jg, h, w)[h["comp"] - 1], dtype=float))(v)
    else:
        raise KeyError(h["mode"])
    return nums(r)


def run(history, emit):
    import jax_galsim as jg

    hs = []
    for h in history:
        ev = dict(h, obs=[], err=[])
        if h["op"] in ("prog", "grad"):
            try:
                ev["obs"] = run_prog(jg, h)
            except Exception as e:
                ev["err"] = err_of(e)
            emit(ev)
            continue
        new = None
        refs = [x for x in [h["a"], h["b"]] + h["hs"] if x]
        lax = any(hs[x - 1] is None for x in refs)
        try:
            if h["op"] in PROBES:
                if not lax:
                    ev["obs"] = probe(jg, hs[h["a"] - 1], h)
            elif not lax:
                new = build(jg, hs, h)
        except Exception as e:
            ev["err"] = err_of(e)
        if h["op"] not in PROBES:
            hs.append(new)
        emit(ev)


# ------------------------------------------------------------- generation
class Gen:
    """Random histories.  Tracks only which handles exist and coarse facts
    that keep histories meaningful (not what the code should answer)."""

    def __init__(self, rng):
        self.rng, self.H, self.N, self.info = rng, [], 0, []

    def ev(self, op, a=0, b=0, hs=(), n=(), s="", c="", gs=(), mode="py", how=None):
        self.H.append(dict(op=op, a=a, b=b, hs=list(hs), n=list(n), s=s, c=c, gs=[list(x) for x in gs], mode=mode,
                           how=how or self.rng.choice(["py", "py", "np", "jnp", "int"])))
        if op not in PROBES:
            self.N += 1
        return self.N

    def u(self, lo, hi, d=3):
        return repr(round(self.rng.uniform(lo, hi), d))

    def flux(self, neg=0.15):
        f = self.rng.choice(["1.0", "2.5", self.u(0.1, 50), self.u(100, 1e5, 1)])
        return "-" + f if self.rng.random() < neg else f

    def gs(self, p=0.3):
        r = self.rng
        if r.random() > p:
            return []
        c = {"folding_threshold": self.u(1e-3, 0.02, 4), "stepk_minimum_hlr": r.choice(["3.0", "7.5", "4.0"]),
             "maxk_threshold": self.u(5e-4, 1e-2, 4), "kvalue_accuracy": r.choice(["1e-06", "0.0001"]),
             "xvalue_accuracy": r.choice(["1e-06", "0.0001"]), "maximum_fft_size": r.choice(["4096", "16384"]),
             "minimum_fft_size": r.choice(["64", "256"]), "shoot_accuracy": "0.0001", "table_spacing": "2",
             "realspace_relerr": "0.0002", "integration_abserr": "1e-07"}
        return [[k, c[k]] for k in r.sample(sorted(c), r.randint(1, 3))]

    def leaf(self, cls=None, how=None, gsp=0.3, delta=False):
        r = self.rng
        cls = cls or r.choice(["Gaussian", "Exponential", "Moffat", "Spergel", "Box", "Pixel"] + (["DeltaFunction"] if delta else []))
        kinds = {"Gaussian": ["sigma", "fwhm", "half_light_radius"], "Exponential": ["scale_radius", "half_light_radius"],
                 "Moffat": ["scale_radius", "fwhm", "half_light_radius"], "Spergel": ["scale_radius", "half_light_radius"]}.get(cls, [""])
        n = {"Moffat": [r.choice([self.u(2.0, 5), "2.5", "3.0", "4.5", "3.5"])],
             "Spergel": [r.choice([self.u(-0.6, 3.5), "0.5", "1.0", "-0.5", "0.0", "0.001"])]}.get(cls, [])
        if cls == "Box":
            n += [self.u(0.3, 3), self.u(0.3, 3)]
        elif cls != "DeltaFunction":
            n += [self.u(0.3, 3)]
        n += [self.flux()]
        return self.ev("leaf", n=n, s=cls, c=how or r.choice(kinds), gs=self.gs(gsp))

    def tr(self, a, ops=None):
        r = self.rng
        op = r.choice(ops or ["expand", "dilate", "magnify", "shear", "shear", "lens", "rotate", "rotate", "transform", "shift", "shift",
                              "trf", "withflux", "scaleflux", "mul", "rmul", "div", "neg", "gs", "id"])
        gs, s, c = [], "", ""
        if op in ("expand", "dilate", "magnify"):
            n = [self.u(0.5, 2.0)]
        elif op == "shear":
            n, s = [self.u(-0.5, 0.5), self.u(-0.5, 0.5)], r.choice(["g", "e"])
            if r.random() < 0.25:
                n[r.randint(0, 1)] = "0.0"
        elif op == "lens":
            n = [self.u(-0.4, 0.4), self.u(-0.4, 0.4), self.u(0.6, 1.8)]
        elif op == "rotate":
            n = [r.choice([self.u(-180, 180, 1), "90.0", "45.0", "180.0"])]
        elif op in ("transform", "trf"):
            n = [self.u(0.6, 1.5), self.u(-0.5, 0.5), self.u(-0.5, 0.5), self.u(0.6, 1.5)]
            if r.random() < 0.15:
                n[0] = "-" + n[0]      # a mirror image
            elif r.random() < 0.2:
                # a turn with a change of size, or what is nearly one
                n[3] = n[0]
                n[2] = r.choice([n[1], repr(-float(n[1]))])
            if op == "trf":
                n += [self.u(-1, 1), self.u(-1, 1), r.choice(["1.0", self.u(0.3, 3)])]
                gs, s = self.gs(0.5), r.choice(["T", "T", "F"])
        elif op == "shift":
            n = [self.u(-2, 2), self.u(-2, 2)]
        elif op == "neg":
            n = []
        elif op == "gs":
            n, gs, c = [], self.gs(1.0), r.choice(["kw", "obj"])
        elif op == "id":
            n, c = [], r.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr"])
        else:
            n = [r.choice([self.u(0.2, 5), "-" + self.u(0.2, 5), "2.0", "3.0"])]
        return self.ev(op, a=a, n=n, s=s, c=c, gs=gs)

    def pts(self, k, scale, zero=0.2):
        p = []
        for _ in range(k):
            p += ["0.0", "0.0"] if self.rng.random() < zero else [self.u(-scale, scale, 4), self.u(-scale, scale, 4)]
        return p

    def mode(self, jitp=0.3):
        r = self.rng
        return r.choice(["jit", "vmap", "tree"]) if r.random() < jitp else r.choice(["py", "pos", "tup"])

    pimg = 0.15

    def img(self, w, a, scale):
        r = self.rng
        nx, ny = r.choice([(3, 5), (5, 4), (4, 6), (5, 5)])
        s = round(scale * r.uniform(0.3, 1) / 2, 6)
        pts = [repr(v) for j in range(ny) for i in range(nx) for v in (s * (i - nx // 2), s * (j - ny // 2))]
        self.ev(w, a=a, n=pts, mode="img", how="py")
        self.H[-1]["grid"] = [nx, ny, repr(s)]

    def probes(self, a, which=("x", "k", "attrs", "lim", "gsq"), npt=3, jitp=0.3, scale=2.5, zero=0.2):
        for w in which:
            if w in ("x", "k"):
                self.ev(w, a=a, n=self.pts(npt, scale, zero), mode=self.mode(jitp), how="py")
                if self.rng.random() < self.pimg:
                    self.img(w, a, scale)
            else:
                self.ev(w, a=a, mode=self.rng.choice(["jit", "tree", "py", "py"]) if w != "gsq" else "py", how="py")

    # ---- directed shapes with random parameters
    def skew(self, a):
        """a map that is not symmetric"""
        r = self.rng
        return self.tr(a, [r.choice(["rotate", "transform", "transform", "trf"])])

    def accgs(self):
        """accuracy settings that matter to values, all different"""
        r = self.rng
        v = r.sample(["0.01", "0.001", "1e-06", "0.0003", "0.003"], 3)
        return [["kvalue_accuracy", v[0]], ["xvalue_accuracy", v[1]], ["maxk_threshold", v[2]],
                ["folding_threshold", r.choice(["0.02", "0.001", "0.01"])]]

    def offparts(self, conv=False, k=None, leaves=("Gaussian", "Exponential", "Box", "Moffat")):
        """a sum (convolution) whose parts are moved about"""
        r = self.rng
        hs = []
        for i in range(k or r.choice([2, 2, 3])):
            a = self.leaf(r.choice(leaves if not conv else [x for x in leaves if x != "Box" or i == 0]), gsp=0.15)
            for _ in range(r.choice([0, 1, 1, 2])):
                a = self.tr(a, ["shift", "shift", "shear", "dilate", "scaleflux"])
            hs.append(a)
        r.shuffle(hs)
        return self.ev("conv" if conv else "sum", hs=hs, c="args")

    def pattern(self, kind, comp=False):
        r = self.rng
        far = r.choice([2.5, 8.0])
        if kind == "offmap":         # off-centre composite under a non-symmetric map, maybe twice
            conv = r.random() < 0.35
            a = self.offparts(conv)
            b = self.skew(a)
            if r.random() < 0.5:
                b = self.tr(b)
            self.probes(b, ("attrs", "k") + (() if conv else ("x",)), npt=2, jitp=0.2)
            self.probes(a, ("attrs",), jitp=0)
        elif kind == "noprop":       # a map that keeps its settings to itself, rebuilt, then resettled
            a = self.leaf(r.choice(["Gaussian", "Exponential", "Moffat"]))
            t = r.choice(["trf", "sum", "conv", "deconv", "sum"]) if comp else "trf"
            if t == "trf":
                b = self.tr(a, ["trf"])
            elif t == "deconv":
                b = self.ev("deconv", a=a, c=r.choice(["fn", ""]), gs=self.accgs() if r.random() < 0.5 else [])
            else:
                ps = [a, self.leaf(r.choice(["Gaussian", "Exponential", "Moffat"]))]
                b = self.ev(t, hs=ps, c=r.choice(["args", "list"]), gs=self.accgs() if r.random() < 0.5 else [])
            if t == "trf" or r.random() < 0.75:
                self.H[-1]["s"] = "F"
            if r.random() < 0.7:
                b = self.ev("id", a=b, c=r.choice(["copy", "deepcopy", "pickle", "tree", "jit", "vmap", "repr"]))
            c = self.ev("gs", a=b, c=r.choice(["kw", "obj"]), gs=self.accgs())
            if comp and r.random() < 0.4:
                c = self.tr(c, ["shear", "shift", "scaleflux"])
            self.probes(c, ("gsq", "lim", "x" if t in ("trf", "sum") else "k"), npt=1, jitp=0.1)
            self.probes(b, ("gsq",))
        elif kind == "acc":          # settings that decide values, given to the whole or to a part
            a = self.leaf(r.choice(["Gaussian", "Exponential", "Moffat", "Box"]), gsp=0)
            if r.random() < 0.5:
                self.H[-1]["gs"] = self.accgs()
                if r.random() < 0.4:
                    a = self.tr(a, ["dilate", "shift", "scaleflux", "rotate"])
            else:
                if r.random() < 0.4:
                    a = self.tr(a, ["dilate", "shift", "scaleflux", "rotate"])
                a = self.ev("gs", a=a, c=r.choice(["kw", "obj"]), gs=self.accgs())
            self.probes(a, ("x", "lim"), npt=2, jitp=0.1, scale=r.choice([3.0, 40.0, 300.0]), zero=0)
        elif kind == "deconv":
            a = self.leaf(r.choice(["Gaussian", "Exponential", "Moffat", "Box"]), gsp=0)
            if r.random() < 0.6:
                self.H[-1]["gs"] = self.accgs()
            if r.random() < 0.5:
                a = self.tr(a, ["shift", "shear", "scaleflux", "dilate"])
            if r.random() < 0.25:
                a = self.ev("conv", hs=[a, self.leaf("Gaussian", gsp=0.3)], c="args")
            d = self.ev("deconv", a=a, c=r.choice(["fn", ""]))
            if r.random() < 0.4:
                d = self.ev("gs", a=d, c=r.choice(["kw", "obj"]), gs=self.accgs())
            if r.random() < 0.4:
                d = self.tr(d, ["scaleflux", "dilate", "shear", "neg", "rotate", "shift"])
            if r.random() < 0.3:
                d = self.ev("conv", hs=[d, self.leaf("Gaussian", gsp=0.3), self.leaf("Exponential", gsp=0)], c="list")
            self.probes(d, ("k", "gsq", "attrs"), npt=3, scale=far, jitp=0.2)
            self.img("k", d, r.choice([2.5, 5.0, 10.0, 20.0]))
        elif kind == "edges":        # hard edges anywhere in the parts
            cls = ["Gaussian"] * r.choice([1, 2]) + [r.choice(["Box", "Pixel"])] * r.choice([1, 1, 0])
            r.shuffle(cls)
            hs = [self.leaf(c, gsp=0) for c in cls]
            hs = [self.tr(a, ["shift", "rotate", "scaleflux"]) if r.random() < 0.3 else a for a in hs]
            a = self.ev("sum", hs=hs, c=r.choice(["Add", "args", "list"]))
            if r.random() < 0.3:
                a = self.tr(a, ["shift", "rotate", "scaleflux"])
            self.probes(a, ("attrs",), jitp=0.2)
            b = self.leaf(r.choice(["Pixel", "Pixel", "Box", "Gaussian"]), gsp=0)
            c = self.ev("conv", hs=r.choice([[a, b], [b, a]]), c=r.choice(["Convolve", "args", "list"]))
            self.probes(c, ("attrs",), jitp=0)
        elif kind == "nest":         # settings pushed into a nested composite
            a = self.offparts(r.random() < 0.5, 2, ("Gaussian", "Exponential"))
            b = self.leaf("Gaussian")
            a = self.ev(r.choice(["sum", "conv"]), hs=[a, b] if r.random() < 0.5 else [b, a], c="args")
            if r.random() < 0.5:
                a = self.tr(a)
            c = self.ev("gs", a=a, c=r.choice(["kw", "obj"]), gs=self.accgs())
            self.probes(c, ("gsq", "lim", "k"), npt=1, jitp=0.1)
            self.probes(a, ("gsq",))
        else:
            raise KeyError(kind)
        return self.H
