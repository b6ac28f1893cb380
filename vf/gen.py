"""Seeded generators of programs (valid specifications) and of hostile values."""
import math
import string
import tempfile
from datetime import datetime, timezone, timedelta
import numpy as np

from . import standard
from .spec import Program, Ref, Setup, KINDS, UNITS_OK, flatten

DTYPES = ["int8", "int16", "int32", "uint8", "uint16", "uint32", "float32", "float64"]
ASCII_ALL = "".join(chr(c) for c in range(128))
ASCII_PRINT = "".join(chr(c) for c in range(32, 127))
HC_CHARS = string.ascii_uppercase + string.digits + "-_"
FRAME_INDEX_TYPES = ["ANGULAR-DRIFT", "BOREHOLE-DEPTH", "NON-STANDARD", "RADIAL-DRIFT", "VERTICAL-DEPTH"]
UNITS = ["m", "s", "ft", "degC", "V", "1000 kgf/m3", "0.1 in", "m/s2", "ppdk", "us/ft", "gAPI"]

_enums = None


def enums():
    global _enums
    if _enums is None:
        from dliswriter import enums as e
        _enums = e
    return _enums


# ------------------------------------------------------------------ scalar values

def text(rng, max_len=60, nonempty=False, charset=None):
    cs = charset or rng.choice([ASCII_PRINT, ASCII_PRINT, string.ascii_letters, ASCII_ALL])
    r = rng.random()
    if r < 0.03 and not nonempty:
        return ""
    if r < 0.08:
        n = rng.choice([1, 2, 127, 128, 129, 255, 256, 257])
    elif r < 0.085:
        n = rng.choice([16383, 16384, 16385])
    else:
        n = rng.randint(1, max_len)
    if n > 300:
        return (rng.choice(cs) + rng.choice(cs)) * (n // 2) + "x" * (n % 2)
    return "".join(rng.choice(cs) for _ in range(n))


def ident(rng, max_len=30, nonempty=True):
    r = rng.random()
    if r < 0.04:
        n = rng.choice([1, 127, 128, 200, 254, 255])
    else:
        n = rng.randint(1, max_len)
    cs = rng.choice([ASCII_PRINT, HC_CHARS, HC_CHARS, string.ascii_letters + "_-./ "])
    return "".join(rng.choice(cs) for _ in range(n))


def hc_name(rng, max_len=12):
    return "".join(rng.choice(HC_CHARS) for _ in range(rng.randint(1, max_len)))


NAME_POOL = ["A", "B", "CH", "OBJ-1", "OBJ_2", "DEPTH", "gr", "Rpm 1", "X" * 255, "Y" * 128, "a.b/c", "0", "", "A ", " A", "f0", "f1"]


def name(rng, opts=None):
    if opts and opts.get("hc"):
        return rng.choice(["A", "B", "CH-1", "OBJ_2", "DEPTH"]) if rng.random() < 0.4 else hc_name(rng)
    return rng.choice(NAME_POOL) if rng.random() < 0.5 else ident(rng)


def number(rng):
    r = rng.random()
    if r < 0.25:
        return rng.randint(-1000, 1000)
    if r < 0.32:
        return rng.choice([0, 1, -1, 127, 128, 255, 256, 32767, -32768, 65535, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 53,
                           -2 ** 53])
    if r < 0.40:
        return rng.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 0.1, 1e-40, 1e22])
    if r < 0.46:
        return np.float64(rng.uniform(-10, 10))
    if r < 0.50:
        return np.int32(rng.randint(-100, 100))
    if r < 0.53:
        return np.float32(rng.uniform(-10, 10))
    return rng.uniform(-1, 1) * 10.0 ** rng.randint(-5, 12)


def generic_number(rng, integer=None):
    if integer is None:
        integer = rng.random() < 0.5
    if integer:
        return rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randint(-10 ** 6, 10 ** 6), rng.randint(-9, 9)])
    return rng.choice([0.5, -0.0, 1e300, 1.0, rng.uniform(-100, 100), rng.uniform(-1, 1)])


def generic_text(rng):
    # never number-like (documented: number-like strings are converted)
    return rng.choice(["Near", "Far", "a b", "x" * 130]) if rng.random() < 0.5 else \
        rng.choice("ghkvxyz") + text(rng, 20, charset=ASCII_PRINT).replace("_", "-")


def uint(rng, bits):
    top = 2 ** bits - 1
    return rng.choice([0, 1, top, top - 1, rng.randint(0, top), rng.randint(0, min(top, 300))])


def uvari(rng):
    return rng.choice([0, 1, 127, 128, 129, 16383, 16384, 16385, 2 ** 30 - 1, rng.randint(0, 2 ** 30 - 1),
                       rng.randint(0, 40000)])


TZS = [timezone.utc, timezone(timedelta(hours=5, minutes=45)), timezone(timedelta(hours=-11)),
       timezone(timedelta(hours=14)), timezone(timedelta(minutes=-210))]


def dtime(rng):
    y = rng.choice([1901, 1970, 1999, 2000, 2023, 2024, 2050, 2154, rng.randint(1901, 2154)])
    mo, d = rng.randint(1, 12), rng.randint(1, 28)
    if rng.random() < 0.15:
        mo, d = rng.choice([(2, 28), (12, 31), (1, 1), (3, 31), (6, 30)])
    if rng.random() < 0.1 and y % 4 == 0 and y != 1900 and y != 2100:
        mo, d = 2, 29
    us = rng.choice([0, 999, 1000, 500, 123456, 999000, 999499, 999500, 999999, rng.randint(0, 999999)])
    v = datetime(y, mo, d, rng.randint(0, 23), rng.randint(0, 59), rng.choice([0, 59, rng.randint(0, 59)]), us)
    r = rng.random()
    if r < 0.45:
        return v
    if r < 0.8:
        return v.replace(tzinfo=rng.choice(TZS))
    return v.strftime(rng.choice(["%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S"]))


def unit(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(UNITS)
    if r < 0.8:
        return standard.pick(rng, enums().Unit)
    return ident(rng, 20)


def maybe_units(rng, vk, v, opts):
    """Wrap a value in AttrSetup/dict with or without units."""
    r = rng.random()
    if vk in UNITS_OK and r < 0.35:
        u = standard.pick(rng, enums().Unit) if opts.get("hc") else unit(rng)
        return Setup(v, u, as_dict=rng.random() < 0.4)
    if r < 0.45:
        return Setup(v, None, as_dict=rng.random() < 0.5)
    return v


def as_multi(rng, values):
    """values (list) -> list, tuple, or a bare value if there is one."""
    if len(values) == 1 and rng.random() < 0.3:
        return values[0]
    return tuple(values) if rng.random() < 0.25 else values


def nested(rng, shape, leaf):
    if not shape:
        return leaf()
    return [nested(rng, shape[1:], leaf) for _ in range(shape[0])]


def count(rng, opts):
    r = rng.random()
    if r < 0.9:
        return rng.randint(1, 4)
    if r < 0.97 or not opts.get("long_lists"):
        return rng.randint(5, 20)
    return rng.choice([126, 127, 128, 129, 255, 256, 300])


# ------------------------------------------------------------------ arrays

def special_values(dt):
    dt = np.dtype(dt)
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return [0, 1, i.max, i.min, i.max - 1, i.min + 1]
    return [0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(dt).max, np.finfo(dt).tiny, np.finfo(dt).smallest_subnormal]


def array(rng, dt, shape, special=True, byteorder=None, layout=None):
    """Array with values all over the range of the dtype, in a random byte order and memory layout."""
    dt = np.dtype(dt)
    n = int(np.prod(shape))
    nprng = np.random.default_rng(rng.getrandbits(48))
    if special and rng.random() < 0.7:
        flat = np.frombuffer(nprng.bytes(n * dt.itemsize), dtype=dt).copy()    # random bit patterns (incl. NaN payloads)
        if n and rng.random() < 0.7:
            sv = special_values(dt)
            for _ in range(min(n, 4)):
                flat[rng.randrange(n)] = rng.choice(sv)
    elif dt.kind == "f":
        flat = (nprng.standard_normal(n) * 100).astype(dt)
    else:
        i = np.iinfo(dt)
        flat = nprng.integers(max(i.min, -1000), min(i.max, 1000), n, endpoint=True).astype(dt)
    a = flat.reshape(shape)
    bo = byteorder if byteorder is not None else rng.choice(["<", ">", "=", "="])
    if bo == ">":
        a = a.byteswap().view(dt.newbyteorder(">"))
    elif bo == "<":
        a = a.view(dt.newbyteorder("<"))
    return relayout(rng, a, layout)


LAYOUTS = ["C", "C", "strided", "reversed", "fortran", "readonly", "offset", "column", "unaligned", "memmap",
           "field"]


def relayout(rng, a, layout=None):
    """The same values in another memory layout."""
    layout = layout or rng.choice(LAYOUTS)
    if layout == "strided":
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if layout == "reversed":
        b = np.ascontiguousarray(a[::-1])
        return b[::-1]
    if layout == "fortran" and a.ndim > 1:
        return np.asfortranarray(a)
    if layout == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if layout == "offset":
        b = np.zeros((a.shape[0] + 3,) + a.shape[1:], dtype=a.dtype)
        b[2:-1] = a
        return b[2:-1]
    if layout == "column":
        b = np.zeros((a.shape[0], 3) + a.shape[1:], dtype=a.dtype)
        b[:, 1] = a
        return b[:, 1]
    if layout == "unaligned":
        buf = np.zeros(a.nbytes + 1, dtype=np.uint8)
        b = buf[1:].view(a.dtype).reshape(a.shape) if a.size else a.copy()
        b[...] = a
        return b
    if layout == "memmap" and a.size:
        with tempfile.TemporaryFile() as f:
            b = np.memmap(f, dtype=a.dtype, shape=a.shape)
        b[...] = a
        return b
    if layout == "field":       # of a packed structured array
        b = np.zeros(a.shape[0], dtype=[("x", "u1"), ("a", a.dtype, a.shape[1:]), ("y", "u2")])
        b["a"] = a
        return b["a"]
    return np.ascontiguousarray(a)


def safe_cast(rng, dt, arr):
    """A cast dtype whose result is well defined for the array (float to integer only if in range), or None."""
    options = []
    for c in DTYPES:
        cd = np.dtype(c)
        if arr.dtype.kind == "f" and cd.kind in "iu":
            with np.errstate(all="ignore"):
                if arr.size and np.isfinite(arr.astype("f8")).all() and (np.abs(arr.astype("f8")) < 100).all() and \
                        (cd.kind == "i" or (arr >= 0).all()):
                    options.append(c)
        else:
            options.append(c)
    c = rng.choice(options)
    r = rng.random()
    if r < 0.4:
        return getattr(np, c)
    if r < 0.7:
        return np.dtype(c)
    return np.dtype(c).newbyteorder(rng.choice("<>"))


# ------------------------------------------------------------------ specifications

DEFAULT_OPTS = dict(n_lf=(1, 2), rows=(1, 12), frames=(1, 3), channels=(1, 4), extra=(0, 14), density=0.45, hc=False,
                    sources=("inline", "dict", "mixed", "struct", "h5"), named_sets=True, reassign=True, nofmt=(0, 4),
                    unassigned_channels=True, shared_channels=True, windows=False, casts=True, mrl=None,
                    repeat_names=True, special=True, index_types=True, kinds=None, long_lists=False, origins=(1, 3),
                    late_origin=True, width=6, renames=True)

EXTRA_KINDS = ["axis", "calibration", "calibration_coefficient", "calibration_measurement", "comment", "computation",
               "equipment", "group", "long_name", "message", "no_format", "parameter", "path", "process", "splice",
               "tool", "well_reference_point", "zone"]


class LFGen:
    """Generator of one logical file of a program."""

    def __init__(self, g, lfid, index):
        self.g, self.rng, self.p, self.o = g, g.rng, g.p, g.opts
        self.lfid, self.index = lfid, index
        self.objs = {}           # kind -> [Ref]
        self.names = {}
        self.origin_refs = []
        self.coords = {}         # axis oid -> number of coordinates or None
        self.chan = {}           # channel oid -> (array)
        self.dims = {}

    # -- helpers
    def set_name(self, kind):
        rng = self.rng
        if self.g.n_lf == 1:
            if self.o["named_sets"] and rng.random() < 0.25:
                return rng.choice(["SET-1", "set 2", "Z" * 255, "", "pad ", " pad"] if not self.o["hc"] else ["SET-1", "SET-2"])
            return None
        base = f"LF{self.index}"
        if self.o["named_sets"] and rng.random() < 0.2:
            return base + rng.choice(["-X", "-Y"])
        return base if self.index or self.g.all_named else None

    def pick(self, kind, n=None):
        refs = self.objs.get(kind, [])
        if not refs:
            return None
        if n is None:
            return self.rng.choice(refs)
        return [self.rng.choice(refs) for _ in range(n)]

    def any_object(self):
        pool = [r for k, rs in self.objs.items() for r in rs]
        return self.rng.choice(pool) if pool else None

    def fresh_name(self, kind, avoid=()):
        for _ in range(20):
            n = name(self.rng, self.o)
            if n in avoid:
                continue
            if not self.o["repeat_names"] and n in self.names.get(kind, ()):
                continue
            if kind == "channel" and n in self.names.get(kind, ()) and self.rng.random() < 0.7:
                continue
            break
        else:
            n = f"N{len(self.names.get(kind, ()))}-{self.rng.randrange(10**6)}"
        self.names.setdefault(kind, []).append(n)
        return n

    def add(self, kind, nm=None, **kw):
        rng = self.rng
        nm = nm if nm is not None else self.fresh_name(kind)
        kw = {k: v for k, v in kw.items() if v is not None}
        sn = self.set_name(kind)
        if sn is not None:
            kw["set_name"] = sn
        if kind != "origin" and len(self.all_refs) > 1 and rng.random() < 0.2:
            # possibly of an origin which is yet to be added
            kw["origin_reference"] = rng.choice(self.all_refs)
        later = {}
        if self.o["reassign"] and kind not in ("origin",):
            params = KINDS[kind][2]
            for k in list(kw):
                if k in params and (kind, k) != ("frame", "channels") and rng.random() < 0.15:
                    v = kw.pop(k)
                    later[k] = v
        ref = self.p.add(self.lfid, kind, nm, **kw)
        if later:
            if rng.random() < 0.3:
                self.p.setattrs(ref, **later)
            else:
                for k, v in later.items():
                    if isinstance(v, Setup):
                        if v.units is not None and rng.random() < 0.5:
                            self.p.set(ref, k, v.units, "units")
                            self.p.set(ref, k, v.value)
                        else:
                            self.p.set(ref, k, v.value)
                            if v.units is not None:
                                self.p.set(ref, k, v.units, "units")
                    else:
                        self.p.set(ref, k, v)
        self.objs.setdefault(kind, []).append(ref)
        return ref

    def scalar(self, vk, param=None):
        rng, o = self.rng, self.o
        if vk == "text":
            return text(rng)
        if vk == "ident":
            return hc_name(rng) if o["hc"] else ident(rng)
        if vk == "num" or vk == "fdoubl":
            return number(rng)
        if vk == "int":
            return rng.choice([0, 1, -5, 2 ** 31 - 1, -2 ** 31, rng.randint(-1000, 1000), 7.0])
        if vk == "uvari":
            return uvari(rng)
        if vk == "unorm":
            return uint(rng, 16)
        if vk == "status":
            return rng.choice([0, 1, True, False, 1.0])
        if vk == "dtime":
            return dtime(rng)
        if vk == "dtimef":
            return dtime(rng) if rng.random() < 0.6 else rng.choice([0, 1.5, -3, 1e9, 12, number(rng), 1e9 + rng.random(), "12.5",
                                                                               "-7", "1e3", repr(rng.uniform(-1e6, 1e6))])
        raise ValueError(vk)

    def fill(self, kind, params):
        """Random values for plain (non-reference, unconstrained) parameters."""
        rng = self.rng
        kw = {}
        for param in params:
            label, vk, multi = KINDS[kind][2][param]
            if rng.random() > self.o["density"]:
                continue
            if vk in ("obname", "objref", "lname", "dim", "props", "generic"):
                raise ValueError(param)
            if multi:
                v = [self.scalar(vk) for _ in range(count(rng, self.o))]
                v = as_multi(rng, v)
                if rng.random() < 0.02:
                    v = []
            else:
                v = self.scalar(vk)
            kw[param] = maybe_units(rng, vk, v, self.o)
        return kw

    def yes(self, p=None):
        return self.rng.random() < (self.o["density"] if p is None else p)

    def long_name_value(self):
        r = self.pick("long_name")
        if r is not None and self.rng.random() < 0.4:
            return r
        return text(self.rng)

    def props(self):
        v = [standard.pick(self.rng, enums().Property) for _ in range(self.rng.randint(1, 4))]
        return as_multi(self.rng, v)

    def refs(self, kind, n=None):
        n = n or self.rng.randint(1, 3)
        r = self.pick(kind, n)
        return as_multi(self.rng, r) if r else None

    def soft_enum(self, cls):
        if self.o["hc"] or self.rng.random() < 0.8:
            return standard.pick(self.rng, cls)
        return ident(self.rng)

    def hard_enum(self, cls):
        return standard.pick(self.rng, cls)

    def axis_for(self, dims):
        """Axes fitting the dimension (list of ints)."""
        out = []
        for d in dims:
            fitting = [r for r in self.objs.get("axis", []) if self.coords[r.oid] in (None, d)]
            if not fitting:
                fitting = [self.make_axis(d if d <= 300 and self.rng.random() < 0.5 else None)]
            out.append(self.rng.choice(fitting))
        return as_multi(self.rng, out)

    # -- kinds
    def plan_origins(self, n):
        """References of the origins to be added: (number, whether the user gives it)."""
        rng, used, self.planned = self.rng, [], []
        for _ in range(n):
            ref, explicit = None, False
            if rng.random() < 0.6:
                ref = rng.choice([0, 1, 2, 127, 128, 16383, 16384, rng.randint(0, 500)])
                explicit = ref not in used
            if not explicit:
                ref = len(used)
                while ref in used:
                    ref += 1
            used.append(ref)
            self.planned.append((ref, explicit))
        self.all_refs = list(used)

    def make_origin(self, **more):
        rng = self.rng
        ps = [p for p in KINDS["origin"][2] if p not in ("file_set_number",)]
        kw = self.fill("origin", ps)
        if self.o["hc"]:
            kw.pop("file_set_number", None)
        elif rng.random() < 0.7 or self.g.opts.get("deterministic"):
            kw["file_set_number"] = rng.choice([1, uvari(rng)])
        if self.g.opts.get("deterministic") and "creation_time" not in kw:
            kw["creation_time"] = dtime(rng)
        if self.origin_refs and self.g.opts.get("deterministic"):
            pass
        ref, explicit = self.planned.pop(0)
        if explicit:
            kw["origin_reference"] = ref
        kw.update(more)
        self.origin_refs.append(ref)
        sn = self.set_name("origin")
        if sn is not None:
            kw["set_name"] = sn
        nm = self.fresh_name("origin")
        r = self.p.add(self.lfid, "origin", nm, **kw)
        self.objs.setdefault("origin", []).append(r)
        return r

    def make_axis(self, n_coords=-1):
        rng = self.rng
        kw = self.fill("axis", ["axis_id", "spacing"])
        if n_coords == -1:
            n_coords = count(rng, self.o) if self.yes() else None
        if n_coords is not None:
            if rng.random() < 0.4:
                c = [generic_text(rng) for _ in range(n_coords)]
            else:
                integer = rng.random() < 0.5
                c = [generic_number(rng, integer) for _ in range(n_coords)]
            kw["coordinates"] = maybe_units(rng, "generic", as_multi(rng, c), self.o)
        r = self.add("axis", **kw)
        self.coords[r.oid] = n_coords
        return r

    def make_calibration(self):
        kw = self.fill("calibration", ["method"])
        for p, k in (("calibrated_channels", "channel"), ("uncalibrated_channels", "channel"),
                     ("coefficients", "calibration_coefficient"), ("measurements", "calibration_measurement"),
                     ("parameters", "parameter")):
            if self.yes():
                kw[p] = self.refs(k)
        return self.add("calibration", **kw)

    def make_calibration_coefficient(self):
        rng = self.rng
        kw = self.fill("calibration_coefficient", ["label"])
        n = count(rng, self.o)
        for p in ("coefficients", "references", "plus_tolerances", "minus_tolerances"):
            if self.yes():
                kw[p] = maybe_units(rng, "num", as_multi(rng, [number(rng) for _ in range(n)]), self.o)
        return self.add("calibration_coefficient", **kw)

    def make_calibration_measurement(self):
        rng = self.rng
        kw = self.fill("calibration_measurement", ["measurement_type", "sample_count", "begin_time", "duration"])
        if self.yes():
            kw["phase"] = self.hard_enum(enums().CalibrationMeasurementPhase)
        if self.yes():
            kw["measurement_source"] = self.any_object()
        dims = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        n = rng.randint(1, 3)
        if dims and self.yes():
            kw["dimension"] = as_multi(rng, dims)
        for p in ("maximum_deviation", "standard_deviation", "standard", "plus_tolerance", "minus_tolerance"):
            if self.yes():
                v = nested(rng, [n] + dims, lambda: number(rng))
                kw[p] = maybe_units(rng, "num", v, self.o)
        for p in ("measurement", "reference"):
            if self.yes():
                v = nested(rng, [rng.randint(1, 3)] + dims, lambda: number(rng))
                kw[p] = maybe_units(rng, "num", v if rng.random() < 0.8 or dims else number(rng), self.o)
        if self.yes(0.25):
            d = dims if "dimension" in kw else [rng.randint(1, 3)]
            kw["axis"] = self.axis_for(d)
        return self.add("calibration_measurement", **kw)

    def make_comment(self):
        return self.add("comment", **self.fill("comment", ["text"]))

    def make_computation(self):
        rng = self.rng
        kw = {}
        if self.yes():
            kw["long_name"] = self.long_name_value()
        if self.yes():
            kw["properties"] = self.props()
        if self.yes():
            kw["source"] = self.any_object()
        dims = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        nv = rng.randint(1, 3)
        if self.yes(0.7):
            kw["values"] = maybe_units(rng, "num", nested(rng, [nv] + dims, lambda: number(rng)), self.o)
            if self.yes():
                kw["zones"] = self.refs("zone", nv)
            if dims and self.yes():
                kw["dimension"] = as_multi(rng, dims)
        else:
            if self.yes():
                kw["zones"] = self.refs("zone")
            if dims and self.yes():
                kw["dimension"] = as_multi(rng, dims)
        if self.yes(0.25):
            kw["axis"] = self.axis_for(dims if "dimension" in kw else [rng.randint(1, 3)])
        return self.add("computation", **kw)

    def make_equipment(self):
        ps = [p for p in KINDS["equipment"][2] if p not in ("eq_type", "location", "status")]
        kw = self.fill("equipment", ps)
        if self.yes():
            kw["status"] = self.scalar("status")
        if self.yes():
            kw["eq_type"] = self.soft_enum(enums().EquipmentType)
        if self.yes():
            kw["location"] = self.soft_enum(enums().EquipmentLocation)
        return self.add("equipment", **kw)

    def make_group(self):
        rng = self.rng
        kw = self.fill("group", ["description"])
        if self.yes():
            kw["object_list"] = [self.any_object() for _ in range(rng.randint(1, 4))]
            kw["object_list"] = [x for x in kw["object_list"] if x is not None] or None
        if self.yes():
            kw["group_list"] = self.refs("group")
        r = self.add("group", **kw)
        if self.yes(0.4):
            self.p.set(r, "object_type", hc_name(rng))
        return r

    def make_long_name(self):
        return self.add("long_name", **self.fill("long_name", list(KINDS["long_name"][2])))

    def make_message(self):
        return self.add("message", **self.fill("message", list(KINDS["message"][2])))

    def make_no_format(self):
        return self.add("no_format", **self.fill("no_format", list(KINDS["no_format"][2])))

    def make_parameter(self):
        rng = self.rng
        kw = {}
        if self.yes():
            kw["long_name"] = self.long_name_value()
        is_text = rng.random() < 0.4
        integer = rng.random() < 0.5
        leaf = (lambda: generic_text(rng)) if is_text else (lambda: generic_number(rng, integer))
        r = rng.random()
        if r < 0.5:
            kw["values"] = maybe_units(rng, "generic", rng.choice([leaf(), [leaf()]]), self.o)
        elif r < 0.8 and self.objs.get("zone"):
            dims = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 2]))]
            nv = rng.randint(1, 3)
            kw["values"] = maybe_units(rng, "generic", nested(rng, [nv] + dims, leaf), self.o)
            kw["zones"] = self.pick("zone", nv)
            if dims and self.yes():
                kw["dimension"] = as_multi(rng, dims)
        elif self.yes():
            kw["zones"] = self.refs("zone")
        if "dimension" not in kw and "values" not in kw and self.yes():
            kw["dimension"] = as_multi(rng, [rng.randint(1, 4) for _ in range(rng.randint(1, 3))])
        if self.yes(0.25):
            kw["axis"] = self.axis_for(flatten(kw["dimension"]) if "dimension" in kw else [rng.randint(1, 3)])
        return self.add("parameter", **kw)

    def make_path(self):
        ps = [p for p, (l, vk, m) in KINDS["path"][2].items() if vk == "num"]
        kw = self.fill("path", ps)
        if self.yes():
            kw["frame_type"] = self.pick("frame")
        if self.yes():
            kw["well_reference_point"] = self.pick("well_reference_point")
        if self.yes():
            kw["value"] = self.refs("channel")
        return self.add("path", **kw)

    def make_process(self):
        kw = self.fill("process", ["description", "trademark_name", "version", "comments"])
        if self.yes():
            kw["properties"] = self.props()
        if self.yes():
            kw["status"] = self.hard_enum(enums().ProcessStatus)
        for p, k in (("input_channels", "channel"), ("output_channels", "channel"),
                     ("input_computations", "computation"), ("output_computations", "computation"),
                     ("parameters", "parameter")):
            if self.yes():
                kw[p] = self.refs(k)
        return self.add("process", **kw)

    def make_splice(self):
        n = self.rng.randint(1, 3)
        kw = {}
        if self.yes():
            kw["output_channel"] = self.pick("channel")
        if self.yes():
            kw["input_channels"] = self.refs("channel", n)
        if self.yes():
            kw["zones"] = self.refs("zone", n)
        return self.add("splice", **kw)

    def make_tool(self):
        kw = self.fill("tool", ["description", "trademark_name", "generic_name"])
        if self.yes():
            kw["status"] = self.scalar("status")
        for p, k in (("parts", "equipment"), ("channels", "channel"), ("parameters", "parameter")):
            if self.yes():
                kw[p] = self.refs(k)
        return self.add("tool", **kw)

    def make_well_reference_point(self):
        return self.add("well_reference_point",
                        **self.fill("well_reference_point", list(KINDS["well_reference_point"][2])))

    def make_zone(self):
        rng = self.rng
        kw = self.fill("zone", ["description"])
        if self.yes():
            kw["domain"] = self.hard_enum(enums().ZoneDomain)
        dom = getattr(kw.get("domain"), "value", kw.get("domain"))
        use_time = dom in (None, "TIME") and rng.random() < 0.5
        for p in ("maximum", "minimum"):
            if self.yes():
                v = dtime(rng) if use_time else rng.choice([1, 2.5, -3.0, 1e6])
                kw[p] = maybe_units(rng, "dtimef", v, self.o)
        return self.add("zone", **kw)

    def make_channel(self, arr, source, in_frame=True, index=False, avoid=()):
        rng, o = self.rng, self.o
        kw = {}
        dims = list(arr.shape[1:]) or [1]
        if self.yes():
            kw["long_name"] = self.long_name_value()
        if self.yes(0.3):
            kw["properties"] = self.props()
        if self.yes(0.4):
            kw["units"] = self.soft_enum(enums().Unit)
        if in_frame:
            if self.yes(0.25):
                kw["dimension"] = as_multi(rng, list(dims))
            if self.yes(0.25):
                kw["element_limit"] = as_multi(rng, [d + rng.choice([0, 0, 1, 5]) for d in dims] +
                                               ([rng.randint(1, 5)] if rng.random() < 0.3 else []))
            if self.yes(0.2):
                kw["axis"] = self.axis_for(dims)
        else:
            d = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
            if self.yes(0.5):
                kw["dimension"] = as_multi(rng, d)
            if self.yes(0.3):
                kw["element_limit"] = as_multi(rng, [x + rng.randint(0, 2) for x in d])
        for p in ("minimum_value", "maximum_value"):
            if self.yes(0.25):
                kw[p] = maybe_units(rng, "fdoubl", as_multi(rng, [number(rng) for _ in range(rng.randint(1, 3))]), o)
        if self.yes(0.25):
            kw["source"] = self.any_object()
        if o["casts"] and rng.random() < 0.3:
            kw["cast_dtype"] = safe_cast(rng, arr.dtype, arr)
            if o["hc"] and (np.dtype(kw["cast_dtype"]).kind == "i" or any(a is arr for a in self.uncast)):
                kw.pop("cast_dtype")
        nm = self.fresh_name("channel", avoid)
        ds = None
        used = self.g.dataset_names
        if source != "inline" or rng.random() < 0.3:
            # explicit dataset name, unique in the whole program
            ds = f"d{len(used)}" if rng.random() < 0.6 else f"grp{rng.randint(0, 2)}/d {len(used)}"
            used.append(ds)
            kw["dataset_name"] = ds
        if source == "inline":
            kw["data"] = arr
        elif source == "nodata":
            pass
        extra = {k: kw.pop(k) for k in ("data", "dataset_name") if k in kw}
        # data and dataset_name stay at creation
        cast = kw.pop("cast_dtype", None)
        if cast is not None:
            extra["cast_dtype"] = cast
        r = self.add("channel", nm, **extra, **kw)
        self.chan[r.oid] = arr
        if source not in ("inline", "nodata"):
            self.g.external[ds] = arr
        return r

    def make_frame(self, source):
        rng, o = self.rng, self.o
        n = self.g.rows if self.g.common_rows else rng.randint(*o["rows"])
        index = o["index_types"] and rng.random() < 0.5
        chans = []
        for j in range(rng.randint(*o["channels"])):
            dts = [d for d in DTYPES if not (o["hc"] and d.startswith("int"))]
            dt = rng.choice(dts)
            if index and j == 0:
                shape = (n,)
                arr = self.index_array(dt, n)
            else:
                shape = (n,) if rng.random() < 0.6 else (n, rng.randint(1, o["width"]))
                arr = array(rng, dt, shape, special=o["special"])
            src = source if source in ("inline", "dict", "struct", "h5") else rng.choice(["inline", "dict"])
            chans.append(self.make_channel(arr, src, index=index and j == 0,
                                           avoid={self.p_name(c.oid) for c in chans}))
        if o["shared_channels"] and not o["hc"] and self.objs.get("frame") and rng.random() < 0.2:
            cand = [r for r in self.chan if self.chan[r] is not None and self.chan[r].shape[0] == n and
                    r not in [c.oid for c in chans] and r in self.in_frames]
            names = {self.p_name(c.oid) for c in chans}
            cand = [r for r in cand if self.p_name(r) not in names]
            if cand:
                chans.append(Ref(rng.choice(cand)))
        self.in_frames.update(c.oid for c in chans)
        kw = self.fill("frame", ["description"])
        if not o["hc"]:
            kw.update(self.fill("frame", ["direction"]))
            for p in ("spacing", "index_min", "index_max"):
                if self.yes(0.15):
                    kw[p] = maybe_units(rng, "num", number(rng), o)
            if self.yes(0.2):
                kw["encrypted"] = rng.choice([0, 1, True, False, 1.0])
        if index:
            kw["index_type"] = self.soft_enum(enums().FrameIndexType)
        fr = self.add("frame", channels=list(chans), **kw)
        return fr

    def p_name(self, oid):
        for op in self.p.ops:
            if op[0] == "add" and op[2] == oid:
                return op[4]

    def index_array(self, dt, n):
        rng = self.rng
        if self.o["hc"]:
            step = rng.choice([1, 2, 3, 1, 2, 3, -1, -2, 0])
            a = np.arange(n) * step + rng.randint(0, 3) + (2 * n if step < 0 else 0)
            if step and dt.startswith("f") and rng.random() < 0.5:      # uniform within the tolerance
                a = a * 0.25 + np.array([rng.uniform(-0.0005, 0.0005) for _ in range(n)])
                a = a.astype(dt)
                self.uncast.append(a)
            return a.astype(dt, copy=False)
        start, step = rng.randint(0, 20), rng.choice([1, 2, 3, 0.5 if dt.startswith("f") else 1])
        r = rng.random()
        if r < 0.5:
            a = start + step * np.arange(n)
        elif r < 0.7:
            a = start + step * np.arange(n)[::-1]
        elif r < 0.9:
            a = np.array([rng.randint(0, 100) for _ in range(n)])
        else:
            a = np.full(n, start)
        a = a.astype(dt)
        if rng.random() < 0.3:
            a = a.astype(np.dtype(dt).newbyteorder(">"))
        return relayout(rng, a)

    def generate(self, source):
        rng, o = self.rng, self.o
        self.in_frames, self.uncast = set(), []
        n_origins = rng.randint(*o["origins"])
        self.plan_origins(n_origins)
        steps = []
        kinds = o["kinds"] or EXTRA_KINDS
        steps += [("extra", rng.choice(kinds)) for _ in range(rng.randint(*o["extra"]))]
        steps += [("frame", None) for _ in range(rng.randint(*o["frames"]))]
        if o["unassigned_channels"] and not o["hc"] and rng.random() < 0.2:
            steps.append(("channel", None))
        rng.shuffle(steps)
        if o["late_origin"] and rng.random() < 0.25:
            pos = rng.randint(0, len(steps))
            steps.insert(pos, ("origin", None))
            for _ in range(n_origins - 1):
                steps.insert(rng.randint(pos + 1, len(steps)), ("origin", None))
        else:
            steps = [("origin", None)] + steps
            for _ in range(n_origins - 1):
                steps.insert(rng.randint(1, len(steps)), ("origin", None))
        for what, kind in steps:
            if what == "origin":
                self.make_origin()
            elif what == "frame":
                self.make_frame(source)
            elif what == "channel":
                arr = array(rng, rng.choice(DTYPES), (rng.randint(1, 5),))
                self.make_channel(arr, "nodata" if source in ("struct", "h5") else "inline", in_frame=False)
            else:
                getattr(self, "make_" + kind)()
        nfs = self.objs.get("no_format", [])
        if nfs:
            for _ in range(rng.randint(*o["nofmt"])):
                self.p.nofmt(self.lfid, rng.choice(nfs), payload(rng))
        if o["renames"] and rng.random() < 0.2:
            k = rng.choice([k for k in self.objs if k not in ("frame", "channel")])
            self.p.py(rng.choice(self.objs[k]), "name", f"RENAMED-{rng.randrange(10**9)}")
        if o["renames"] and len(self.origin_refs) > 1 and rng.random() < 0.2:
            r = self.any_object()
            if r.oid[:3] != "ori":
                # an origin in which the identity cannot collide: copy numbers count over all origins
                self.p.py(r, "origin_reference", rng.choice(self.origin_refs))


class SpecGen:
    def __init__(self, rng, **opts):
        self.rng = rng
        self.opts = {**DEFAULT_OPTS, **opts}
        self.dataset_names = []
        self.external = {}

    def generate(self):
        rng, o = self.rng, self.opts
        fkw = {}
        mrl = o["mrl"] or rng.choice([8192, 16384, 128, 64, 256, 1024, 2 * rng.randint(10, 8192), 2 * rng.randint(10, 200)])
        fkw["max_record_length"] = mrl
        if rng.random() < 0.5:
            fkw["set_identifier"] = hc_name(rng, 60) if o["hc"] else text(rng, 60, nonempty=True, charset=ASCII_PRINT)[:60]
        if rng.random() < 0.3:
            fkw["sul_sequence_number"] = rng.choice([1, 2, 9999, rng.randint(1, 9999)])
        self.p = Program(fkw)
        self.n_lf = rng.randint(*o["n_lf"])
        self.all_named = rng.random() < 0.3
        source = rng.choice(o["sources"])
        self.source = source
        self.common_rows = source in ("struct",) or o["windows"]
        self.rows = rng.randint(*o["rows"])
        self.lfs = []
        lfids = []
        if rng.random() < 0.5:     # all logical files first
            lfids = [self.p.lf(**self.lf_kw(i)) for i in range(self.n_lf)]
        for i in range(self.n_lf):
            lfid = lfids[i] if lfids else self.p.lf(**self.lf_kw(i))
            g = LFGen(self, lfid, i)
            g.generate(source)
            self.lfs.append(g)
        self.h5_data = None
        if source in ("dict", "mixed"):
            if self.external:
                d = dict(self.external)
                if rng.random() < 0.4:
                    d["unused"] = np.arange(3)
                items = list(d.items())
                rng.shuffle(items)
                self.p.write_kw["data"] = dict(items)
        elif source == "struct":
            self.p.write_kw["data"] = make_struct(rng, self.external)
        elif source == "h5":
            self.h5_data = dict(self.external)
        if o["windows"] and rng.random() < 0.7:
            a = rng.randint(0, self.rows - 1)
            b = rng.randint(a + 1, self.rows)
            self.p.write_kw["from_idx"] = a
            if b != self.rows or rng.random() < 0.5:
                self.p.write_kw["to_idx"] = b
        if rng.random() < 0.4:
            self.p.write_kw["input_chunk_size"] = rng.choice([1, 2, 3, 5, 100])
        if rng.random() < 0.4:
            self.p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 1, 3, 50, 10000])
        return self.p

    def lf_kw(self, i):
        rng = self.rng
        kw = {}
        if rng.random() < 0.5:
            kw["fh_id"] = hc_name(rng, 65) if self.opts["hc"] else \
                text(rng, 65, charset=ASCII_PRINT, nonempty=True)[:65]
        if rng.random() < 0.4:
            kw["fh_sequence_number"] = rng.choice([1, 2, 10 ** 10 - 1, rng.randint(1, 10 ** 6)])
        if rng.random() < 0.2:
            kw["fh_identifier"] = rng.choice("0AZ9" if self.opts["hc"] else "0Aaz ")
        return kw


def make_struct(rng, columns, extra=True):
    """Structured array with the given columns (any order, padding, unused fields)."""
    names = list(columns)
    rng.shuffle(names)
    fields = []
    n = next(iter(columns.values())).shape[0]
    for i, k in enumerate(names):
        a = columns[k]
        fields.append((k, a.dtype) + ((a.shape[1:],) if a.ndim > 1 else ()))
        if extra and rng.random() < 0.2:
            fields.append((f"unused{i}", "f4"))
    s = np.zeros(n, dtype=np.dtype({"names": [f[0] for f in fields], "formats": [f[1] if len(f) == 2 else f[1:] for f in fields]},
                                   align=rng.random() < 0.3))      # a list would rename empty names
    for k, a in columns.items():
        s[k] = a
    r = rng.random()
    if r < 0.5:
        return s
    if r < 0.6:         # some fields of another array, in another order
        return s[rng.sample(names, len(names))]
    if r < 0.65:
        return s.view(np.recarray)
    return relayout(rng, s)


def write_h5(path, columns, rng=None):
    import h5py
    items = list(columns.items())
    if rng:
        rng.shuffle(items)
    with h5py.File(path, "w") as f:
        for k, a in items:
            r = rng.random() if rng else 1
            if r < 0.3 and a.size:
                f.create_dataset(k, data=a, chunks=(1,) + a.shape[1:] if rng.random() < 0.5 else True,
                                 compression=rng.choice([None, "gzip"]), shuffle=rng.random() < 0.3,
                                 maxshape=rng.choice([None, (None,) + a.shape[1:]]))
            elif r < 0.4:
                other = f"/elsewhere/{len(k)}{k.strip('/').replace('/', '|')}"
                f.create_dataset(other, data=a)
                f[k] = h5py.SoftLink(other) if rng.random() < 0.5 else f[other]
            else:
                f.create_dataset(k, data=a)


def payload(rng, max_len=200):
    r = rng.random()
    if r < 0.15:
        n = rng.choice([0, 1, 2, 3])
    elif r < 0.9:
        n = rng.randint(0, max_len)
    else:
        n = rng.choice([1000, 5000, 20000])
    kind = rng.choice(["str", "bytes", "bytearray"])
    if kind == "str":
        return "".join(rng.choices(ASCII_ALL, k=n))
    b = rng.randbytes(n)
    return b if kind == "bytes" else bytearray(b)
