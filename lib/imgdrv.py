"""Driver for image histories: performs each recorded call on real images and
writes down what can be observed.  Used by the P02 and P03 checks."""
import random

from vlib import err_of, num, nums

DT = ["US", "UI", "S", "I", "F", "D"]


def npdt(t):
    import jax.numpy as jnp

    return {"US": jnp.uint16, "UI": jnp.uint32, "S": jnp.int16, "I": jnp.int32, "F": jnp.float32, "D": jnp.float64}[t]


def dtcode(dt):
    import numpy as np

    return {"uint16": "US", "uint32": "UI", "int16": "S", "int32": "I", "float32": "F", "float64": "D"}.get(
        str(np.dtype(dt)), "?" + str(dt)
    )


def mkwcs(w, alt=False):
    import jax_galsim as jg

    if not w:
        return None
    a, b, c, d, e, f = [float(x) for x in w]
    if e == 0 and f == 0:
        if b == 0 and c == 0 and a == d:
            return jg.PixelScale(a)
        return jg.JacobianWCS(a, b, c, d)
    return jg.AffineTransform(a, b, c, d, world_origin=jg.PositionD(e, f))


def proj(o):
    import jax_galsim as jg

    if not isinstance(o, jg.Image):
        return ["arr"] + nums(o)
    dt = dtcode(o.array.dtype)
    if dtcode(o.dtype) != dt:
        dt = "dtype-attr-disagrees"
    d = bool(o.bounds.isDefined())
    out = ["im", dt, "T" if d else "F", "T" if o.isconst is True else "F" if o.isconst is False else "?"]
    if o.wcs is None:
        out.append("no-wcs")
    else:
        for x, y in ((0, 0), (1, 0), (0, 1)):
            p = o.wcs.toWorld(jg.PositionD(x, y))
            out += [num(p.x), num(p.y)]
    if d:
        b = o.bounds
        if [num(v) for v in (b.xmin, b.xmax, b.ymin, b.ymax)] != [num(v) for v in (o.xmin, o.xmax, o.ymin, o.ymax)]:
            out.append("bounds-disagree")
        out += [num(b.xmin), num(b.xmax), num(b.ymin), num(b.ymax), num(o.nrow), num(o.ncol)] + nums(o.array)
    return out


def pyval(s, t=None):
    f = float(s)
    if t == "int" or (t is None and f == int(f)):
        return int(f)
    return f


def oper(s, x, y):
    import operator as op

    return {
        "add": op.add, "sub": op.sub, "mul": op.mul, "div": op.truediv, "floordiv": op.floordiv,
        "mod": op.mod, "pow": op.pow, "and": op.and_, "or": op.or_, "xor": op.xor,
    }[s](x, y)


def ioper(s, x, y):
    import operator as op

    return {
        "add": op.iadd, "sub": op.isub, "mul": op.imul, "div": op.itruediv, "floordiv": op.ifloordiv,
        "mod": op.imod, "pow": op.ipow, "and": op.iand, "or": op.ior, "xor": op.ixor,
    }[s](x, y)


MUT = {"ibin", "isca", "set", "addv", "fill", "zero", "invert", "replneg", "copyfrom", "setsub",
       "resize", "shift", "setcen", "setorg", "setarr", "setwcs"}


def mutate(ev, a, b, alt):
    """perform a mutating call on a"""
    import numpy as np

    import jax_galsim as jg

    op, n, v, s, t = ev["op"], ev["n"], ev["v"], ev["s"], ev["t"]
    if op == "ibin":
        r = ioper(s, a, b)
        assert r is a
    elif op == "isca":
        r = ioper(s, a, pyval(v[0], t))
        assert r is a
    elif op == "set":
        val = pyval(v[0])
        if alt == 0:
            a.setValue(n[0], n[1], val)
        elif alt == 1:
            a[n[0], n[1]] = val
        elif alt == 2:
            a[jg.PositionI(n[0], n[1])] = val
        else:
            a.setValue(x=n[0], y=n[1], value=val)
    elif op == "addv":
        if alt % 2:
            a.addValue(jg.PositionI(n[0], n[1]), pyval(v[0]))
        else:
            a.addValue(n[0], n[1], pyval(v[0]))
    elif op == "fill":
        a.fill(pyval(v[0]))
    elif op == "zero":
        a.setZero()
    elif op == "invert":
        a.invertSelf()
    elif op == "replneg":
        a.replaceNegative(pyval(v[0])) if alt or float(v[0]) else a.replaceNegative()
    elif op == "copyfrom":
        a.copyFrom(b)
    elif op == "setsub":
        B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1)
        if alt % 2:
            a[B] = b
        else:
            a.setSubImage(B, b)
    elif op == "resize":
        B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1) if n[2] and n[3] else jg.BoundsI()
        a.resize(B)
    elif op == "shift":
        a.shift(n[0], n[1]) if alt % 2 else a.shift(jg.PositionI(n[0], n[1]))
    elif op == "setcen":
        a.setCenter(n[0], n[1]) if alt % 2 else a.setCenter(jg.PositionI(n[0], n[1]))
    elif op == "setorg":
        a.setOrigin(n[0], n[1]) if alt % 2 else a.setOrigin(jg.PositionI(n[0], n[1]))
    elif op == "setarr":
        x = np.array([float(q) for q in v]).reshape(a.array.shape)
        if alt % 2:
            x = x.astype(np.float32)
        a.array = x
    elif op == "setwcs":
        w = mkwcs(ev["w"])
        if alt % 2 and isinstance(w, jg.PixelScale) and (a.wcs is None or a.wcs._isPixelScale):
            a.scale = float(ev["w"][0])
        else:
            a.wcs = w
    else:
        raise KeyError(op)


def produce(ev, a, b, alt, src):
    """perform a non-mutating call; the result is a new handle or a reply"""
    import copy
    import pickle

    import jax
    import jax.numpy as jnp
    import numpy as np

    import jax_galsim as jg

    op, n, v, s, t = ev["op"], ev["n"], ev["v"], ev["s"], ev["t"]
    cl = {"US": jg.ImageUS, "UI": jg.ImageUI, "S": jg.ImageS, "I": jg.ImageI, "F": jg.ImageF, "D": jg.ImageD}
    kw = {}
    if op in ("newsize", "newarr"):
        w = mkwcs(ev["w"])
        if isinstance(w, jg.PixelScale) and alt % 2:
            kw["scale"] = float(ev["w"][0])
        elif w is not None:
            kw["wcs"] = w
        if ev["c"] == "T":
            kw["make_const"] = True
    if op == "newsize":
        iv = pyval(v[0])
        if n[2] == 0 or n[3] == 0:
            return cl[t](**kw) if alt % 2 else cl[t](jg.BoundsI(), **kw)
        if iv:
            kw["init_value"] = iv
        B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1)
        if alt == 0:
            return cl[t](n[2], n[3], xmin=n[0], ymin=n[1], **kw)
        if alt == 1:
            return cl[t](B, **kw)
        if alt == 2:
            return jg.Image(bounds=B, dtype=npdt(t), **kw)
        return jg.Image(ncol=n[2], nrow=n[3], xmin=n[0], ymin=n[1], dtype=npdt(t), **kw)
    if op == "newarr":
        x = np.array([float(q) for q in v]).reshape(n[3], n[2])
        B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1)
        isint = bool((x == np.round(x)).all())
        if alt == 0:
            return cl[t](x, xmin=n[0], ymin=n[1], **kw), x
        if alt == 1:
            x = x.astype(np.dtype(npdt(t)).newbyteorder(">")) if isint or t in "D" else x.astype(">f8")
            return (jg.Image(x, bounds=B, **kw) if isint or t == "D" else jg.Image(x, bounds=B, dtype=npdt(t), **kw)), x
        if alt == 2:
            return jg.Image(array=jnp.array(x), bounds=B, dtype=npdt(t), **kw)
        x = x.astype(np.int64) if isint else x
        return jg.Image(x.tolist(), xmin=n[0], ymin=n[1], dtype=npdt(t), **kw)
    if op == "newimg":
        k2 = {"make_const": True} if ev["c"] == "T" else {}
        return cl[t](a, **k2) if alt % 2 else jg.Image(image=a, dtype=npdt(t), **k2)
    if op == "copy":
        k2 = {"make_const": True} if ev["c"] == "T" else {}
        if dtcode(a.dtype) != t or alt % 2:
            k2["dtype"] = npdt(t)
        return a.copy(**k2)
    if op == "copycen":
        return a.copy(center=jg.PositionI(n[0], n[1]))
    if op == "copyorg":
        return a.copy(origin=jg.PositionI(n[0], n[1]))
    if op == "id":
        if s == "deepcopy":
            return copy.deepcopy(a)
        if s == "shallow":
            return copy.copy(a)
        if s == "pickle":
            return pickle.loads(pickle.dumps(a))
        if s == "tree":
            return jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(a)))
        if s == "jit":
            return jax.jit(lambda x: x)(a)
        if s == "vmap":
            st = jax.tree_util.tree_map(lambda x: jnp.stack([x * 0, x]), a)
            return jax.tree_util.tree_map(lambda x: x[1], jax.vmap(lambda x: x)(st))
        if s == "ref":
            return jg.Image.from_galsim(a.to_galsim())
    if op == "real":
        return a.real
    if op == "imag":
        return a.imag
    if op == "conj":
        return a.conjugate
    if op == "geo":
        return getattr(a, s)()
    if op == "sub":
        B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1)
        return a[B] if alt % 2 else a.subImage(B)
    if op == "bin":
        return oper(s, a, b)
    if op == "sca":
        return oper(s, a, pyval(v[0], t))
    if op == "rsca":
        return oper(s, pyval(v[0], t), a)
    if op == "neg":
        return -a
    if op == "get":
        x = [lambda: a(n[0], n[1]), lambda: a[n[0], n[1]], lambda: a[jg.PositionI(n[0], n[1])], lambda: a.getValue(n[0], n[1])][alt]()
        return [num(x)]
    if op == "getarr":
        return a.array
    if op == "npmut":
        x = src.get(ev["a"])
        if x is not None:
            x[...] = 77
        return []
    if op == "eq":
        return ["T" if bool(a == b) else "F", "T" if bool(a != b) else "F"]
    if op == "cen":
        c, tc, ob = a.center, a.true_center, a.outer_bounds
        o = a.origin
        return [num(c.x), num(c.y), num(tc.x), num(tc.y), num(o.x), num(o.y), num(ob.xmin), num(ob.xmax), num(ob.ymin), num(ob.ymax)]
    if op == "pixcen":
        x, y = a.get_pixel_centers()
        return nums(x) + nums(y)
    raise KeyError(op)


CXOPS = ["real", "imag", "conj", "copy", "sub", "flip_lr", "rot_cw", "add", "sub2", "mul", "div", "neg", "iadd", "imul", "isub", "idiv",
         "scale", "iscale", "set", "addv", "tree", "pickle", "deepcopy", "get", "addreal", "fill", "setarr", "eq", "copyfrom", "ref", "invert"]


def cximage(ev, alt):
    """complex images: one operation on a freshly made image (and a second operand)"""
    import copy
    import pickle

    import jax
    import jax.numpy as jnp
    import numpy as np

    import jax_galsim as jg

    n, v, s = ev["n"], [float(x) for x in ev["v"]], ev["s"]
    k = n[2] * n[3]
    dt = {"CF": jnp.complex64, "CD": jnp.complex128}[ev["t"]]
    mk = lambda i: (np.array(v[i * k:(i + 1) * k]) + 1j * np.array(v[(i + 1) * k:(i + 2) * k])).reshape(n[3], n[2])
    B = jg.BoundsI(n[0], n[0] + n[2] - 1, n[1], n[1] + n[3] - 1)
    w = mkwcs(ev["w"])
    ctor = {"CF": jg.ImageCF, "CD": jg.ImageCD}[ev["t"]]
    if alt % 2:
        a = ctor(mk(0), xmin=n[0], ymin=n[1], wcs=w, make_const=ev["c"] == "T")
    else:
        a = jg.Image(mk(0), bounds=B, dtype=dt, wcs=w, make_const=ev["c"] == "T")
    b = jg.Image(mk(2), bounds=B, dtype=dt)
    z = v[0] + 1j * v[1] if k > 1 else v[0] + 2j

    def go(a, b):
        if s in ("real", "imag"):
            return getattr(a, s)
        if s == "conj":
            return a.conjugate
        if s == "copy":
            return a.copy()
        if s == "sub":
            return a[jg.BoundsI(n[0], n[0], n[1], n[1] + n[3] - 1)]
        if s in ("flip_lr", "rot_cw"):
            return getattr(a, s)()
        if s in ("add", "sub2", "mul", "div"):
            return oper({"sub2": "sub"}.get(s, s), a, b)
        if s == "neg":
            return -a
        if s in ("iadd", "imul", "isub", "idiv"):
            return ioper(s[1:], a, b)
        if s == "scale":
            return a * z
        if s == "iscale":
            a *= z
            return a
        if s == "set":
            a.setValue(n[0], n[1], z)
            return a
        if s == "addv":
            a.addValue(n[0], n[1], z)
            return a
        if s == "tree":
            return jax.tree_util.tree_unflatten(*reversed(jax.tree_util.tree_flatten(a)))
        if s == "pickle":
            return pickle.loads(pickle.dumps(a))
        if s == "deepcopy":
            return copy.deepcopy(a)
        if s == "addreal":
            return a + jg.ImageD(b.array.real, bounds=B)
        if s == "fill":
            a.fill(z)
            return a
        if s == "setarr":
            a.array = b.array
            return a
        if s == "copyfrom":
            a.copyFrom(b)
            return a
        if s == "ref":
            return jg.Image.from_galsim(a.to_galsim()) if not a.isconst else a
        if s == "invert":
            a.invertSelf()
            return a
        if s == "get":
            return a(n[0], n[1])
        if s == "eq":
            return [bool(a == b), bool(a == a.copy(make_const=a.isconst)), bool(a != b)]

    out = ""
    try:
        if ev["mode"] == "jit" and s not in ("eq", "pickle", "deepcopy", "ref"):
            r = jax.jit(go)(a, b)
        else:
            r = go(a, b)
    except Exception as e:
        return [errname(e)]
    if s == "get":
        return [out, num(np.real(r)), num(np.imag(r))]
    if s == "eq":
        return [out] + ["T" if x else "F" for x in r]
    d = str(np.dtype(r.array.dtype))
    if d != str(np.dtype(r.dtype)):
        d = "dtype-attr-disagrees"
    q = r.bounds
    o = [out, {"complex64": "CF", "complex128": "CD", "float32": "F", "float64": "D"}.get(d, d), "T" if r.isconst is True else "F", "T" if r.iscomplex else "F",
         num(q.xmin), num(q.xmax), num(q.ymin), num(q.ymax)]
    if r.wcs is None:
        o.append("no-wcs")
    else:
        for x, y in ((0, 0), (1, 0), (0, 1)):
            p = r.wcs.toWorld(jg.PositionD(x, y))
            o += [num(p.x), num(p.y)]
    arr = np.asarray(r.array)
    return o + nums(arr.real) + (nums(arr.imag) if r.iscomplex else [])


def bad(s, a):
    import numpy as np

    import jax_galsim as jg

    z = np.zeros((2, 2))
    {
        "resize_nobounds": lambda: a.resize((1, 2, 3, 4)),
        "sub_nobounds": lambda: a.subImage((1, 2, 1, 2)),
        "setsub_nobounds": lambda: a.setSubImage((1, 1), a),
        "copyfrom_nonimage": lambda: a.copyFrom(z),
        "setsub_nonimage": lambda: a.setSubImage(a.bounds, z),
        "wrap_nobounds": lambda: a.wrap((1, 2, 1, 2)),
        "copy_two_places": lambda: a.copy(center=jg.PositionI(1, 1), origin=jg.PositionI(1, 1)),
        "copy_two_wcs": lambda: a.copy(scale=1.0, wcs=jg.PixelScale(2.0)),
        "copy_badwcs": lambda: a.copy(wcs=3.0),
        "new_3args": lambda: jg.Image(1, 2, 3),
        "new_kwarg": lambda: jg.Image(2, 2, nonsense=1),
        "new_badobj": lambda: jg.Image(object()),
        "new_badwcs": lambda: jg.Image(2, 2, wcs=1.0),
        "new_half": lambda: jg.Image(ncol=3),
        "new_two_wcs": lambda: jg.Image(3, 3, scale=1.0, wcs=jg.PixelScale(2.0)),
        "new_init_nosize": lambda: jg.Image(init_value=3.0),
        "new_arr_bounds": lambda: jg.Image(z, bounds=jg.BoundsI(1, 3, 1, 2)),
        "new_arr_init": lambda: jg.Image(z, init_value=1.0),
        "new_baddtype": lambda: jg.Image(2, 2, dtype=np.int8),
        "view": lambda: a.view(),
    }[s]()


BADS = ["resize_nobounds", "sub_nobounds", "setsub_nobounds", "copyfrom_nonimage", "setsub_nonimage", "wrap_nobounds",
        "copy_two_places", "copy_two_wcs", "copy_badwcs", "new_3args", "new_kwarg", "new_badobj", "new_badwcs",
        "new_half", "new_two_wcs", "new_init_nosize", "new_arr_bounds", "new_arr_init", "new_baddtype", "view"]

CREATES = {"newsize", "newarr", "newimg", "copy", "copycen", "copyorg", "id", "real", "imag", "conj", "geo",
           "sub", "bin", "sca", "rsca", "neg", "getarr"}
GS = ("GalSimImmutableError", "GalSimUndefinedBoundsError", "GalSimBoundsError", "GalSimIncompatibleValuesError",
      "GalSimValueError", "GalSimNotImplementedError")


def errname(e):
    names = err_of(e)
    for g in GS:
        if g in names:
            return g
    for g in ("NotImplementedError", "TypeError"):
        if g in names:
            return g
    return names[0]


def run(history, emit):
    import jax

    heap, src = [], {}
    for h in history:
        ev = dict(h)
        alt = ev.pop("alt", 0)
        ev["obs"], ev["err"] = [], []
        op = ev["op"]
        a = heap[ev["a"] - 1] if ev["a"] else None
        b = heap[ev["b"] - 1] if ev["b"] else None
        jit = ev["mode"] == "jit" and a is not None
        out, reply = "", []
        try:
            if op == "bad":
                bad(ev["s"], a)
            elif op == "cx":
                out, *reply = cximage(ev, alt)
            elif op in MUT:
                if jit:
                    def f(x, y):
                        x2 = x.copy(make_const=x.isconst)
                        y2 = x2 if (y is None and b is not None) else y
                        mutate(ev, x2, y2, alt)
                        return x2
                    r = jax.jit(f)(a, None if b is a else b)
                    heap[ev["a"] - 1] = r
                else:
                    mutate(ev, a, b, alt)
            else:
                if jit and op in CREATES and op not in ("getarr", "id"):
                    r = jax.jit(lambda x, y: produce(ev, x, x if (y is None and b is not None) else y, alt, src))(a, None if b is a else b)
                else:
                    r = produce(ev, a, b, alt, src)
                if op in CREATES:
                    if isinstance(r, tuple):
                        r, src[len(heap) + 1] = r
                    heap.append(r)
                else:
                    reply = r
        except Exception as e:
            out = errname(e)
        try:
            obs = [out] + reply
            for i in ev["f"]:
                if i <= len(heap):
                    obs += proj(heap[i - 1])
            ev["obs"] = obs
        except Exception as e:
            ev["err"] = err_of(e)
        emit(ev)


# ------------------------------------------------------------------ generator
class Sh:
    """what the generator remembers about a handle, to choose sensible calls"""

    def __init__(self, dt, x0, y0, nx, ny, const=False, kind="im", hasw=False, F=False):
        self.__dict__.update(dt=dt, x0=x0, y0=y0, nx=nx, ny=ny, const=const, kind=kind, hasw=hasw, F=F, wild=False)

    @property
    def defd(self):
        return self.nx > 0 and self.ny > 0

    def cp(self, **k):
        r = Sh(self.dt, self.x0, self.y0, self.nx, self.ny, self.const, self.kind, self.hasw, self.F)
        r.wild = self.wild
        r.__dict__.update(k)
        return r


def isint(dt):
    return dt not in ("F", "D")


def gen(rng, length, frame=False, only=""):
    H, S = [], []
    shapes = [(3, 2), (2, 3), (3, 3), (4, 3), (1, 2), (4, 4), (5, 2)]
    seq = []

    def dim():   # called twice per image: columns, then rows
        if not seq:
            seq.extend(rng.choice(shapes if rng.random() < 0.85 else [(rng.randint(1, 6), rng.randint(1, 6))]))
        return seq.pop()

    def val(dt, wide=False):
        if isint(dt):
            lo = 0 if dt[0] == "U" else -12
            return str(rng.randint(lo, 20))
        return rng.choice([str(rng.randint(-9, 9)), repr(rng.randint(-40, 40) / 8), repr(round(rng.uniform(-5, 5), 3))])

    def wcs():
        r = rng.random()
        if r < 0.35:
            return []
        if r < 0.55:
            s = rng.choice(["0.5", "0.25", "2.0"])
            return [s, "0", "0", s, "0", "0"]
        w = [repr(rng.randint(-8, 8) / 4 + 0.0) for _ in range(4)]
        if float(w[0]) * float(w[3]) - float(w[1]) * float(w[2]) == 0:
            w = ["0.5", "0.25", "-0.25", "0.75"]
        return w + (["0", "0"] if r < 0.75 else [repr(rng.randint(-20, 20) / 2), repr(rng.randint(1, 20) / 2)])

    def tol(*hs):
        return "1e-5" if any(S[h - 1].F or S[h - 1].dt == "F" for h in hs if h) else "1e-11"

    def add(op, a=0, b=0, n=(), v=(), t="-", s="", c="F", w=(), new=None, mode=None, F=False):
        if new is not None:
            S.append(new)
        hs = [h for h in (a, b) if h] + ([len(S)] if new is not None else [])
        if frame:
            f = list(range(1, len(S) + 1))
        else:
            f = ([len(S)] if new is not None else []) + ([a] if a and (op in MUT or rng.random() < 0.3) else []) + ([b] if b and rng.random() < 0.2 else [])
        f = sorted(set(f))
        use = f if frame else hs + f
        if mode is None:
            mode = "jit" if rng.random() < 0.12 else "py"
        H.append(dict(op=op, a=a, b=b, n=list(n), v=list(v), t=t, s=s, c=c, w=list(w), f=f, mode=mode,
                      tol="1e-5" if F or any(S[h - 1].F or S[h - 1].dt == "F" for h in use) else "1e-11", alt=rng.randint(0, 3)))

    def ims(p=lambda s: True):
        return [i + 1 for i, s in enumerate(S) if s.kind == "im" and p(s)]

    def pick(p=lambda s: True):
        c = ims(p)
        return rng.choice(c[-7:] if rng.random() < 0.7 else c) if c else 0

    def newsize():
        dt = rng.choice(DT)
        c = "T" if rng.random() < 0.15 else "F"
        w = wcs()
        if rng.random() < 0.06:
            add("newsize", n=[0, 0, 0, 0], v=["0"], t=dt, w=w, new=Sh(dt, 0, 0, 0, 0, hasw=bool(w)), mode="py")
            return
        n = [rng.randint(-4, 4), rng.randint(-4, 4), dim(), dim()]
        add("newsize", n=n, v=[val(dt)], t=dt, c=c, w=w, new=Sh(dt, *n, const=c == "T", hasw=bool(w)), mode="py")

    def newarr():
        dt = rng.choice(DT)
        c = "T" if rng.random() < 0.15 else "F"
        w = wcs()
        n = [rng.randint(-4, 4), rng.randint(-4, 4), dim(), dim()]
        src = "D" if (isint(dt) and dt[0] != "U" and rng.random() < 0.2) else dt
        v = [val(src) for _ in range(n[2] * n[3])]
        add("newarr", n=n, v=v, t=dt, c=c, w=w, new=Sh(dt, *n, const=c == "T", hasw=bool(w)), mode="py")

    def cx():
        n = [rng.randint(-4, 4), rng.randint(-4, 4), rng.randint(1, 4), rng.randint(1, 3)]
        k = n[2] * n[3]
        v = [rng.choice([str(rng.randint(-9, 9)), repr(rng.randint(-40, 40) / 8)]) for _ in range(4 * k)]
        add("cx", n=n, v=v, t=rng.choice(["CF", "CD"]), s=rng.choice(CXOPS), c=rng.choice("TF"), w=wcs(), mode=rng.choice(["py", "py", "jit"]), F=True)

    def subb(s):
        x = rng.randint(0, s.nx - 1)
        y = rng.randint(0, s.ny - 1)
        n = [s.x0 + x, s.y0 + y, rng.randint(1, s.nx - x), rng.randint(1, s.ny - y)]
        if rng.random() < 0.12:
            n[rng.randint(0, 3)] += rng.choice([-3, -1, 1, 2, 6])
            n[2], n[3] = max(n[2], 1), max(n[3], 1)
        return n

    def inside(n, s):
        return n[0] >= s.x0 and n[1] >= s.y0 and n[0] + n[2] <= s.x0 + s.nx and n[1] + n[3] <= s.y0 + s.ny

    def shape_of(i):
        return (S[i - 1].nx, S[i - 1].ny)

    PROM = {}

    def promote(x, y):
        if x == y:
            return x
        if "D" in (x, y):
            return "D"
        if "F" in (x, y):
            return "F"
        return "UI" if {x, y} == {"US", "UI"} else "I"

    if only == "cx":
        for _ in range(length):
            cx()
        return H
    for _ in range(2):
        newarr()
    newsize()
    while len(H) < length:
        r = rng.random()
        a = pick()
        A = S[a - 1]
        if len(S) > 14 and frame and r < 0.4:
            r = 0.4 + 0.6 * rng.random()
        if r < 0.04:
            newsize()
        elif r < 0.09:
            newarr()
        elif r < 0.13:
            op = rng.choice(["newimg", "copy"])
            dt = rng.choice([A.dt, A.dt, rng.choice(DT)])
            if isint(dt) and (dt[0] == "U" or A.wild):
                dt = A.dt if A.dt == dt or A.wild else rng.choice(["I", "S"]) if not A.wild else A.dt
            c = "T" if rng.random() < 0.2 else "F"
            if not A.defd and op == "newimg":
                op = "copy"
            add(op, a, t=dt, c=c, new=A.cp(dt=dt, const=c == "T", F=A.F or A.dt == "F"))
        elif r < 0.16:
            if A.defd:
                op = rng.choice(["copycen", "copyorg"])
                n = [rng.randint(-5, 5), rng.randint(-5, 5)]
                d = (n[0] - A.x0 - A.nx // 2, n[1] - A.y0 - A.ny // 2) if op == "copycen" else (n[0] - A.x0, n[1] - A.y0)
                add(op, a, n=n, new=A.cp(x0=A.x0 + d[0], y0=A.y0 + d[1], const=False))
        elif r < 0.21:
            s = rng.choice(["deepcopy", "shallow", "pickle", "tree", "jit", "vmap", "ref"])
            if not A.defd and s in ("ref", "vmap"):
                s = "tree"
            if A.const and s == "ref":
                s = "jit"
            if s in ("shallow",) and frame is False and rng.random() < 0.5:
                s = "deepcopy"
            add("id", a, s=s, new=A.cp(), mode="py")
        elif r < 0.24:
            if A.defd:
                op = rng.choice(["real", "imag", "conj"])
                add(op, a, new=A.cp(const={"real": A.const, "imag": True, "conj": False}[op]))
        elif r < 0.30:
            if A.defd:
                s = rng.choice(["transpose", "flip_lr", "flip_ud", "rot_180", "rot_cw", "rot_ccw"])
                sw = s in ("transpose", "rot_cw", "rot_ccw")
                add("geo", a, s=s, new=A.cp(x0=A.y0, y0=A.x0, nx=A.ny, ny=A.nx, const=False, hasw=False) if sw else A.cp(const=False, hasw=False))
        elif r < 0.36:
            if not A.defd:
                add("sub", a, n=[1, 1, 1, 1])
            else:
                n = subb(A)
                if inside(n, A):
                    add("sub", a, n=n, new=A.cp(x0=n[0], y0=n[1], nx=n[2], ny=n[3], const=False))
                else:
                    add("sub", a, n=n)
        elif r < 0.46:   # image (op) image
            s = rng.choice(["add", "sub", "mul", "add", "sub", "mul", "div", "and", "or", "xor"])
            inplace = rng.random() < 0.5
            need = lambda q: (q.nx, q.ny) == (A.nx, A.ny) or rng.random() < 0.05
            b = pick(need)
            if not b:
                continue
            B = S[b - 1]
            if A.wild or B.wild:
                continue
            if s == "div" and (not A.defd):
                s = "add"
            if s == "div":   # (a divisor without zeros is made for the purpose)
                if A.F or A.dt == "F" or A.dt[0] == "U":
                    continue
                s = rng.choice(["div", "floordiv", "mod"]) if isint(A.dt) else "div"
                n = [rng.randint(-4, 4), rng.randint(-4, 4), A.nx, A.ny]
                dt = A.dt if s != "div" or not isint(A.dt) else rng.choice(["I", "S", "D"])
                add("newarr", n=n, v=[rng.choice(["", "-"]) + str(rng.randint(1, 7)) for _ in range(A.nx * A.ny)], t=dt, w=[], new=Sh(dt, *n), mode="py")
                b = len(S)
                B = S[b - 1]
                if inplace:
                    add("ibin", a, b, s=s)
                else:
                    rt = promote(A.dt, B.dt) if s != "div" else "D" if "D" in (A.dt, B.dt) else "F"
                    add("bin", a, b, s=s, F=rt == "F", new=A.cp(dt=rt, const=False, F=rt == "F"))
                continue
            if s in ("and", "or", "xor") and (isint(A.dt) and isint(B.dt)) and A.dt != B.dt and rng.random() < 0.7:
                continue
            ok = (A.nx, A.ny) == (B.nx, B.ny) and (s in ("add", "sub", "mul", "div") or (isint(A.dt) and isint(B.dt)))
            rt = promote(A.dt, B.dt)
            Ff = "F" in (A.dt, B.dt) or A.F or B.F
            if inplace:
                if isint(A.dt) and not isint(B.dt) and s == "mul":
                    s = "add"
                if isint(A.dt) and (A.dt[0] == "U" or B.dt[0] == "U") and A.dt != B.dt:
                    continue
                if isint(A.dt) and B.dt == "F":
                    continue
                add("ibin", a, b, s=s, F=Ff)
                if ok and not A.const:
                    A.F = A.F or (Ff and not isint(A.dt))
                    if s == "mul" or A.dt[0] == "U":
                        A.wild = True
            else:
                add("bin", a, b, s=s, F=Ff, new=A.cp(dt=rt, const=False, F=Ff, wild=s == "mul" or rt[0] == "U") if ok else None)
        elif r < 0.57:   # image (op) scalar
            s = rng.choice(["add", "sub", "mul", "div", "floordiv", "mod", "pow", "and", "or", "xor"])
            kind = rng.choice(["isca", "isca", "sca", "sca", "rsca"])
            t = rng.choice(["int", "float"])
            if A.wild and s in ("mul", "pow", "add", "sub"):
                s = rng.choice(["and", "or", "xor", "mod"]) if isint(A.dt) and A.dt[0] != "F" else "add"
            if s in ("and", "or", "xor", "mod", "floordiv"):
                if not isint(A.dt) and rng.random() < 0.6:
                    s = rng.choice(["add", "mul", "sub"])
                t = "int"
            if s == "pow":
                if kind == "rsca":
                    kind = "sca"
                t = "int"
                v = str(rng.choice([1, 2, 2]))
            elif t == "int":
                v = str(rng.randint(1, 5))
            else:
                v = rng.choice(["0.5", "1.25", "2.0", "3.75", "0.1"])
            if kind == "rsca" and s in ("div", "floordiv", "mod"):
                continue  # zero divisors
            if A.dt[0] == "U" and s in ("sub",) :
                continue
            if kind == "isca" and isint(A.dt) and t == "float" and (A.dt[0] == "U" and s == "div" or A.wild):
                continue
            okk = s in ("add", "sub", "mul", "div", "pow") or isint(A.dt)
            rt = A.dt
            if s == "div":
                rt = "D" if A.dt == "D" else "F" if t == "int" else "F" if A.dt == "F" else "D"
            elif t == "float":
                rt = "F" if A.dt == "F" else "D"
            Ff = A.F or A.dt == "F" or rt == "F"
            if kind == "isca":
                if isint(A.dt) and rt == "F":
                    continue   # rounding of a single precision quotient is a coin toss at halves
                if isint(A.dt) and t == "float" and v == "0.1":
                    v = "0.25"
                add("isca", a, v=[v], t=t, s=s, F=Ff)
                if okk and not A.const and s in ("pow", "mul"):
                    A.wild = True
                if okk and not A.const and s == "div":
                    pass
            else:
                if A.dt[0] == "U" and kind == "rsca" and s == "sub":
                    continue
                add(kind, a, v=[v], t=t, s=s, F=Ff, new=A.cp(dt=rt, const=False, F=Ff, wild=A.wild or s in ("pow", "mul")) if okk else None)
        elif r < 0.59:
            if A.dt[0] != "U":
                add("neg", a, new=A.cp(const=False))
        elif r < 0.66:
            op = rng.choice(["get", "set", "set", "addv"])
            if not A.defd:
                n = [1, 1]
            else:
                n = [rng.randint(A.x0, A.x0 + A.nx - 1), rng.randint(A.y0, A.y0 + A.ny - 1)]
                if rng.random() < 0.12:
                    n = [rng.choice([A.x0 - 1, A.x0 + A.nx, n[0]]), rng.choice([A.y0 - 1, A.y0 + A.ny])]
            v = [] if op == "get" else [val(A.dt)]
            if op == "addv" and (A.wild or A.dt[0] == "U"):
                v = ["1"]
            add(op, a, n=n, v=v)
        elif r < 0.70:
            op = rng.choice(["fill", "zero", "invert", "replneg"])
            if op == "invert" and not isint(A.dt) and (A.F or A.dt == "F"):
                op = "fill"   # 1/x of rounded values near zero is ill-conditioned
            if op == "replneg" and A.F:
                op = "zero"
            v = [val(A.dt)] if op in ("fill", "replneg") else []
            if op == "fill" and isint(A.dt) and A.dt[0] != "U" and rng.random() < 0.3:
                v = [rng.choice(["2.5", "-1.75", "3.0", "7.9"])]
            add(op, a, v=v)
            if op in ("fill", "zero") and not A.const and A.defd:
                A.wild = False
                A.F = False
        elif r < 0.76:
            b = pick(lambda q: (q.nx, q.ny) == (A.nx, A.ny)) if rng.random() < 0.9 else pick()
            B = S[b - 1]
            if isint(A.dt) and (A.dt != B.dt) and (B.wild or A.dt[0] == "U" or B.dt == "F" or B.F):
                continue
            if rng.random() < 0.5:
                add("copyfrom", a, b)
                if not A.const and (A.nx, A.ny) == (B.nx, B.ny):
                    A.wild, A.F = B.wild, A.F or B.F or B.dt == "F"
            elif A.defd:
                n = subb(A)
                bs = ims(lambda q: (q.nx, q.ny) == (n[2], n[3]) and (q.dt == A.dt or not isint(A.dt)))
                if bs and rng.random() < 0.9:
                    b = rng.choice(bs)
                    B = S[b - 1]
                if isint(A.dt) and A.dt != B.dt:
                    continue
                add("setsub", a, b, n=n)
                if not A.const:
                    A.wild, A.F = A.wild or B.wild, A.F or B.F or B.dt == "F"
        elif r < 0.79:
            if rng.random() < 0.1:
                n = [0, 0, 0, 0]
            else:
                n = [rng.randint(-4, 4), rng.randint(-4, 4), dim(), dim()]
            add("resize", a, n=n)
            if not A.const:
                A.x0, A.y0, A.nx, A.ny = n
                A.wild = A.F = False
        elif r < 0.86:
            op = rng.choice(["shift", "setcen", "setorg"])
            n = [rng.randint(-6, 6), rng.randint(-6, 6)]
            if not A.defd:
                if op == "setcen":
                    add(op, a, n=n)
                continue
            add(op, a, n=n)
            if op == "shift":
                A.x0, A.y0 = A.x0 + n[0], A.y0 + n[1]
            elif op == "setcen":
                A.x0, A.y0 = n[0] - A.nx // 2, n[1] - A.ny // 2
            else:
                A.x0, A.y0 = n
        elif r < 0.88:
            if A.defd:
                src = "D" if (isint(A.dt) and A.dt[0] != "U" and rng.random() < 0.3) else A.dt
                add("setarr", a, v=[rng.choice(["%d" % rng.randint(0, 9), repr(rng.randint(0, 80) / 8)]) if src == "D" or not isint(src) else val(src) for _ in range(A.nx * A.ny)])
                if not A.const:
                    A.wild = A.F = False
        elif r < 0.90:
            add("setwcs", a, w=wcs(), mode="py")
        elif r < 0.92:
            if A.defd:
                add("getarr", a, new=A.cp(kind="arr"), mode="py")
        elif r < 0.93:
            add("npmut", a, mode="py")
        elif r < 0.955:
            b = pick(lambda q: (q.nx, q.ny) == (A.nx, A.ny)) if rng.random() < 0.8 else pick()
            if not (S[b - 1].F or A.F or "F" in (A.dt, S[b - 1].dt)) or a == b:
                add("eq", a, b, mode="py")
        elif r < 0.97:
            add("cen" if A.defd else "eq", a, 0 if A.defd else a, mode="py")
        elif r < 0.977:
            cx()
        elif r < 0.983:
            if A.defd:
                add("pixcen", a, mode="py")
        else:
            add("bad", a, s=rng.choice(BADS), mode="py")
    # finally look at everything once more
    add("npmut", ims()[0], mode="py")
    H[-1]["f"] = list(range(1, len(S) + 1))
    H[-1]["tol"] = "1e-5" if any(s.F or s.dt == "F" for s in S) else "1e-11"
    return H
