"""C12: fail-closed - a write either raises or yields a faithful, well-formed file."""
import collections
import contextlib
import datetime
import decimal
import fractions
import math
import os
import resource
import signal
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import KINDS, Ref, Setup
from ..core import Violation, Inconclusive
from .c04 import REF_TARGET, Base, scalar
from .c05 import ENUMS
from .c06 import fringe_value
from .c09 import REJECTED

RULE = ("A random valid specification (all object types, data sources, windows, several logical files; confirmed to be "
        "writable) with one or two defects or degenerate values from a catalogue of 61 families at random places: data (row "
        "counts, dtypes, dimensions, missing datasets, sources, windows), names, labels, units, texts, header and label "
        "fields, values past the range of their code or of foreign types for every attribute of every object type, empty "
        "and nested lists, references, missing origins / channels / frames, no-format payloads; given at creation, later, "
        "or between two writes. Each defect is marked unrepresentable (an exception is demanded) or degenerate (an exception "
        "or a faithful file). 'disk': the file may grow only to a random size, or cannot be opened; a write that returns left "
        "the complete file. Whatever a write returns for is read strictly (framing, grammar, frame slots against the "
        "CHANNEL descriptions) and compared with the specification. Distinct: (family, detail, outcome).")
MINIMUM = {"mutants": 3000, "raised": 1800, "storage_faults": 150, "faithful": 300, "controls": 2000}
ASSUMPTIONS = ["degenerate but representable inputs may be refused"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = []
    for name in FAMILIES:
        cases += [["mut", name, i] for i in range((40 if quick else 600) * FAMILIES[name][1])]
    cases += [["attr", k, a, i] for k in KINDS for a in KINDS[k][2] for i in range(5 if quick else 80)]
    cases += [["disk", i] for i in range(250 if quick else 5000)]
    cases += [["pair", i] for i in range(400 if quick else 8000)]
    return cases


# ------------------------------------------------------------------ the specification under mutation

class Bench:
    """A valid program; mutations change it in place."""

    def __init__(self, ctx, **opts):
        self.ctx, self.rng = ctx, ctx.rng
        opts = {"rows": (2, 7), "extra": (0, 7), "nofmt": (0, 2), "deterministic": True, "n_lf": (1, 2),
                "windows": ctx.rng.random() < 0.25, **opts}
        self.p, self.override, self.data, self.g = work.generate(ctx, **opts)
        self.n0 = len(self.p.ops)
        self.changed = False         # ops before n0 changed
        self.after = []              # callables(runner) after the operations
        self.model_fix = []          # callables(model) for what the model cannot see
        self.path = None
        self.base = (self.p.clone(), dict(self.override), self.data)

    def model(self):
        return spec.Model(self.p)

    def source(self):
        return self.data if self.data is not None else self.p.write_kw.get("data")

    def op_index(self, oid):
        return next(i for i, op in enumerate(self.p.ops) if op[0] == "add" and op[2] == oid)

    def set_kw(self, oid, **kw):
        i = self.op_index(oid)
        op = self.p.ops[i]
        self.p.ops[i] = op[:5] + ({**op[5], **kw},)
        if i < self.n0:
            self.changed = True
        self.forget(oid, kw)

    def forget(self, oid, names):
        """Drop later assignments of the same attributes."""
        ops = []
        for op in self.p.ops:
            if op[0] in ("set", "py") and op[1] == oid and op[2] in names:
                continue
            if op[0] == "setattrs" and op[1] == oid:
                op = op[:2] + ({k: v for k, v in op[2].items() if k not in names},)
            ops.append(op)
        self.p.ops = ops

    def drop_kw(self, oid, *names):
        i = self.op_index(oid)
        op = self.p.ops[i]
        self.p.ops[i] = op[:5] + ({k: v for k, v in op[5].items() if k not in names},)
        self.changed = True

    def rename(self, oid, name):
        i = self.op_index(oid)
        op = self.p.ops[i]
        self.p.ops[i] = op[:4] + (name, op[5])
        self.changed = True
        self.forget(oid, ["name"])

    def frame_channels(self, least=1):
        """A (frame, [its channels]) with at least that many channels."""
        out = []
        for mf in self.model().files:
            for fr in mf.of("frame"):
                cs = spec.frame_channels(mf, fr)
                if len(cs) >= least:
                    out.append((mf, fr, cs))
        return self.rng.choice(out) if out else None

    def array(self, mf, ch):
        return spec.channel_array(mf, ch, self.source())

    def put(self, mf, ch, a):
        """Replace the channel's array where the user gave it."""
        src = self.source()
        name = ch.dataset_name
        if isinstance(src, np.ndarray):
            cols = {k: src[k] for k in src.dtype.names}
            cols[name] = a
            try:
                if len({len(c) for c in cols.values()}) != 1:
                    raise ValueError
                self.p.write_kw["data"] = gen.make_struct(self.rng, cols, extra=False)
            except Exception:
                self.p.write_kw["data"] = cols
        elif src and name in src:
            if self.data is not None:
                self.data = {**self.data, name: a}
                try:
                    path = self.ctx.path(".h5")
                    gen.write_h5(path, self.data, self.rng)
                    self.override = {**self.override, "data": path}
                except Exception:        # not storable: as a dict
                    self.override = {**self.override, "data": dict(self.data)}
            else:
                self.p.write_kw["data"] = {**src, name: a}
        else:
            self.set_kw(ch.oid, data=a)

    def lf(self):
        return self.rng.choice([op[1] for op in self.p.ops if op[0] == "lf"])

    def some(self, kinds=None, exclude=()):
        objs = [o for f in self.model().files for o in f.objs if (kinds is None or o.kind in kinds) and
                o.kind not in exclude]
        return self.rng.choice(objs) if objs else None

    def new(self, kind, lf=None, name=None, **kw):
        """Another object of the kind."""
        lf = lf or self.lf()
        kw.setdefault("set_name", f"MUT-{lf}")
        if kind == "frame" and "channels" not in kw:
            kw["channels"] = [self.new("channel", lf, data=np.arange(3, dtype="u1"), dataset_name=f"mutdata{len(self.p.ops)}")]
        if kind == "origin":
            kw.setdefault("file_set_number", 9)
        return self.p.add(lf, kind, f"MUT{len(self.p.ops)}" if name is None else name, **kw)

    def target(self, lf, kind, param):
        return self.new(REF_TARGET[kind, param], lf)

    def assign(self, kind, param, value, lf=None):
        """The value given to the attribute of a new (or existing) object over some route."""
        rng = self.rng
        lf = lf or self.lf()
        r = rng.random()
        if r < 0.4:
            return self.new(kind, lf, **{param: value})
        if r < 0.55 and not isinstance(value, Setup):
            return self.new(kind, lf, **{param: Setup(value, None, rng.random() < 0.5)})
        old = [o for f in self.model().files if f.lfid == lf for o in f.objs if o.kind == kind]
        ref = Ref(rng.choice(old).oid) if old and rng.random() < 0.5 else self.new(kind, lf)
        if isinstance(value, Setup):
            if value.value is not None:
                self.p.set(ref, param, value.value)
            if value.units is not None:
                self.p.set(ref, param, value.units, part="units")
        elif rng.random() < 0.3:
            self.p.setattrs(ref, **{param: value})
        else:
            self.p.set(ref, param, value)
        return ref


# ------------------------------------------------------------------ catalogue; each returns (must raise?, detail) or None

FAMILIES = {}


def family(weight=1):
    def deco(f):
        FAMILIES[f.__name__] = (f, weight)
        return f
    return deco


def resize(rng, a, n):
    if n <= len(a):
        return np.ascontiguousarray(a[:n])
    return np.concatenate([a] + [a[:1]] * (n - len(a))) if len(a) else np.zeros((n,) + a.shape[1:], a.dtype)


@family(4)
def rows(b):
    """One channel with another number of rows."""
    x = b.frame_channels(2)
    if x is None:
        return None
    mf, fr, cs = x
    i = b.rng.randrange(len(cs))
    a = b.array(mf, cs[i])
    n = len(a)
    used = {}
    for f in b.model().files:
        for fr2 in f.of("frame"):
            for c in spec.frame_channels(f, fr2):
                used.setdefault((f.lfid, c.dataset_name), []).append(c.oid)
    # only if the other channels of the frame have their own arrays
    if sum(c.dataset_name == cs[i].dataset_name for c in cs) > 1:
        return None
    m = b.rng.choice([1, n - 1, n + 1, 2 * n, n // 2, 0, n + 5, 1, n - 1])
    if m == n or m < 0:
        return None
    b.put(mf, cs[i], resize(b.rng, a, m))
    return True, f"{'first' if i == 0 else 'later'} {'longer' if m > n else 'one' if m == 1 else 'none' if m == 0 else 'shorter'}"


BAD_DTYPES = ["i8", "u8", "f2", "g", "c8", "c16", "?", "S4", "U3", "O", "M8[s]", "m8[s]", "V3", ">i8", ">u8", ">f2"]


def of_dtype(rng, dt, shape):
    dt = np.dtype(dt)
    if dt.kind in "iufc":
        return np.arange(int(np.prod(shape))).reshape(shape).astype(dt)
    a = np.zeros(shape, dt)
    if dt.kind == "O":
        a[...] = rng.choice([1, 1.5, "x"])
    elif dt.kind == "U" or dt.kind == "S":
        a[...] = rng.choice(["1", "ab", ""])
    return a


@family(4)
def dtype(b):
    """Unsupported dtypes."""
    x = b.frame_channels()
    mf, fr, cs = x
    c = b.rng.choice(cs)
    dt = b.rng.choice(BAD_DTYPES)
    a = b.array(mf, c)
    cast = c.cast_dtype is not None
    b.put(mf, c, of_dtype(b.rng, dt, a.shape))
    return (None if cast else True), f"{dt} {'cast' if cast else ''}"


@family(2)
def dtype_cast(b):
    """Unsupported source dtype with a supported cast."""
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    dt = b.rng.choice(["i8", "u8", "f2", "?", "O", "S4", "c8"])
    n = b.array(mf, c).shape
    b.put(mf, c, of_dtype(b.rng, dt, n))
    b.set_kw(c.oid, cast_dtype=b.rng.choice([np.float64, np.float32, np.int32, np.uint8]))
    return None, dt


@family(2)
def cast_dtype(b):
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    dt = b.rng.choice(["i8", "u8", "f2", "g", "c8", "?", "S4", "U3", "O", np.int64, np.uint64, np.float16, int, bool, str, object,
                       "nonsense", 5, [], "M8[s]"])
    if b.rng.random() < 0.6:
        b.set_kw(c.oid, cast_dtype=dt)
    else:
        b.p.py(Ref(c.oid), "cast_dtype", dt)
    return True, str(dt)


@family(3)
def ndim(b):
    """More than two dimensions, or none."""
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    a = b.array(mf, c)
    n = len(a)
    shape = b.rng.choice([(n, 1, 1), (n, 2, 3), (n, 2, 2, 2), (n, 1, 4), (n, 3, 1), (n, 1, 1, 1, 1), ()])
    new = np.zeros(shape, a.dtype) if shape == () else (np.arange(int(np.prod(shape))) % 7).reshape(shape).astype(a.dtype)
    b.put(mf, c, new)
    return True, str(len(shape)) + str(shape[1:])


@family(2)
def dimension(b):
    """Dimension or element limit assigned in conflict with the data."""
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    a = b.array(mf, c)
    w = a.shape[1] if a.ndim > 1 else 1
    v = b.rng.choice([[w + 1], [w - 1], [w, 1], [1, w], [w, 2], [0], [w + 200], [-w], [2, w], [], [w, w]])
    which = b.rng.choice(["dimension", "element_limit"])
    if b.rng.random() < 0.5:
        b.set_kw(c.oid, **{which: v})
    else:
        b.p.set(Ref(c.oid), which, v)
    same = math.prod(v) == w if v else True
    return (True if which == "dimension" and not same and v else None), which


@family(2)
def zero_width(b):
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    a = b.array(mf, c)
    b.put(mf, c, np.zeros((len(a), 0), a.dtype))
    return None, "n x 0"


@family(2)
def zero_rows(b):
    """A whole frame without rows."""
    mf, fr, cs = b.frame_channels()
    src = b.source()
    if isinstance(src, np.ndarray):
        b.p.write_kw["data"] = src[:0]
    else:
        for c in cs:
            a = b.array(mf, c)
            b.put(mf, c, np.zeros((0,) + a.shape[1:], a.dtype))
    return None, "0 rows"


def lookalikes(rng, name, others=()):
    """Names which resemble a dataset name without being it."""
    base = name.rstrip("/").split("/")[-1]
    r = {name.upper(), name.lower(), name.swapcase(), base, "RUN2/" + name.lstrip("/"), "RUN2/" + base, name + "/data", "data/" + base,
         name + " ", " " + name, name + "__1", name + "_1", name[:-1], name + "0", name.replace("/", "_"), name.replace(" ", "_"),
         name.replace("/", "."), name.split("/")[0], "." + name, name.strip()}
    r = [x for x in r if x and x.strip("/") != name.strip("/") and x not in others and not x.endswith("/")]
    rng.shuffle(r)
    return r[:rng.randint(1, len(r))] if r else []


@family(5)
def missing(b):
    """A dataset which is not there; possibly others with similar names are."""
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    src = b.source()
    r = b.rng.random()
    if r < 0.3:
        if c.data is not None and (not src or c.dataset_name not in (src.dtype.names if isinstance(src, np.ndarray) else src)):
            others = [o for o in mf.of("channel") if o.oid != c.oid and o.dataset_name == c.dataset_name]
            if others:
                return None
        b.p.py(Ref(c.oid), "dataset_name", "NO-SUCH-DATASET")
        return True, "renamed"
    taken = {o.dataset_name for f in b.model().files for o in f.of("channel")}
    decoys = lookalikes(b.rng, c.dataset_name, taken) if b.rng.random() < 0.7 else []
    if isinstance(src, np.ndarray):
        keep = [k for k in src.dtype.names if k != c.dataset_name]
        if not keep or c.data is not None:
            return None
        sub = src.dtype[c.dataset_name]
        dt = [(k, src.dtype[k]) for k in keep] + [(k, sub) for k in decoys if k not in keep]
        new = np.zeros(len(src), dt)
        for k in keep:
            new[k] = src[k]
        b.p.write_kw["data"] = new
        return True, "field"
    if src and c.dataset_name in src and c.data is None:
        rest = {k: v for k, v in src.items() if k != c.dataset_name}
        if b.data is None:
            for k in decoys:
                rest.setdefault(k, src[c.dataset_name].copy())
            if decoys and b.rng.random() < 0.3:
                rest = {**{k: v for k, v in rest.items() if k in decoys}, **rest}
        if b.data is not None:
            path = b.ctx.path(".h5")
            gen.write_h5(path, rest, b.rng)
            import h5py
            with h5py.File(path, "a") as f:
                for k in decoys:
                    try:
                        if k not in f:
                            f[k] = src[c.dataset_name]
                    except Exception:       # a group of that name, a dataset where a group is needed
                        pass
            b.override = {"data": path}
            b.data = rest
        else:
            b.p.write_kw["data"] = rest
        return True, "key"
    if not src and c.data is not None and not any(o.oid != c.oid and o.dataset_name == c.dataset_name
                                                   for o in mf.of("channel")):
        b.drop_kw(c.oid, "data")
        return True, "inline"
    return None


@family(2)
def source(b):
    """The data argument itself is wrong."""
    src = b.source()
    rng = b.rng
    kind = rng.choice(["path", "text", "type", "group", "h5str", "h5null", "values"])
    need = [c for f in b.model().files for fr in f.of("frame") for c in spec.frame_channels(f, fr) if c.data is None]
    must = bool(need)
    if kind == "path":
        b.override = {"data": rng.choice(["/nonexistent/file.h5", b.ctx.path(".h5"), b.ctx.scratch, "", "\0"])}
        must = True
    elif kind == "text":
        path = b.ctx.path(".h5")
        with open(path, "wb") as f:
            f.write(rng.randbytes(rng.choice([0, 3, 2000])))
        b.override = {"data": path}
        must = True
    elif kind == "type":
        b.override = {"data": rng.choice([5, [1, 2], (), b"x", np.arange(3), np.zeros((2, 2)), 1.5, set(), object()])}
        must = True if must else None
    elif kind == "values":
        if not isinstance(src, dict) or b.data is not None or not need:
            return None
        c = rng.choice(need)
        b.p.write_kw["data"] = {**src, c.dataset_name: rng.choice([None, 5, "abc", [1, 2, 3], (1.5, 2.5), object(), {}, b"ab"])}
        must = None
    else:
        import h5py
        if b.data is None or not need:
            return None
        c = rng.choice(need)
        path = b.ctx.path(".h5")
        gen.write_h5(path, {k: v for k, v in b.data.items() if k != c.dataset_name}, rng)
        with h5py.File(path, "a") as f:
            if kind == "group":
                f.create_group(c.dataset_name)
            elif kind == "h5str":
                f.create_dataset(c.dataset_name, data=np.array([b"a"] * len(b.data[c.dataset_name])))
                must = True if c.cast_dtype is None else None
            else:
                f.create_dataset(c.dataset_name, data=h5py.Empty("f4"))
        b.override = {"data": path}
    return must, kind


@family(3)
def window(b):
    n = min(len(b.array(mf, c)) for mf in b.model().files for fr in mf.of("frame") for c in spec.frame_channels(mf, fr))
    top = max(len(b.array(mf, c)) for mf in b.model().files for fr in mf.of("frame") for c in spec.frame_channels(mf, fr))
    rng = b.rng
    lo, hi = rng.choice([(-1, None), (-n, None), (n + 1, None), (0, top + 1), (0, -1), (n, n - 1 if n > 1 else -2), (0, 10 ** 9),
                         (2 ** 40, None), (-1, 1), (1.5, None), ("0", None), (0, 1.5), (0, "1"), (None, None), (0, 0), (n, n),
                         (0, 0), (0, 0), (1, 1), (1, 0), (n - 1, n - 1), (n - 1, 0), (n // 2, n // 2),
                         (True, None), (np.int64(0), None), (top, None)])
    w = {"from_idx": lo}
    if hi is not None:
        w["to_idx"] = hi
    for k in ("from_idx", "to_idx"):
        b.p.write_kw.pop(k, None)
    b.p.write_kw.update(w)
    bad = (isinstance(lo, int) and not isinstance(lo, bool) and (lo < 0 or lo > n)) or (isinstance(hi, int) and (hi < 0 or hi > top or hi < lo)) or \
        isinstance(lo, str) or isinstance(hi, str)
    return (True if bad else None), f"{type(lo).__name__} {type(hi).__name__} {bad}"


@family(3)
def chunks(b):
    rng = b.rng
    if rng.random() < 0.6:
        ns = [len(b.array(mf, c)) for mf in b.model().files for fr in mf.of("frame") for c in spec.frame_channels(mf, fr)]
        v = rng.choice([0, -1, -1, -rng.choice(ns), -rng.choice(ns), -2, -max(ns) - 1, rng.choice([0.5, "1", [], 1.5]), -10 ** 9])
        b.p.write_kw["input_chunk_size"] = v
        return (True if isinstance(v, int) else None), "input " + type(v).__name__
    v = rng.choice([-1, 1, 19, "x", 0.5, b.p.file_kw["max_record_length"] - 1])
    b.p.write_kw["output_chunk_size"] = v
    return (True if isinstance(v, int) else None), "output " + type(v).__name__


def bad_ident(rng):
    r = rng.random()
    if r < 0.6:
        return "".join(rng.choices(gen.ASCII_PRINT, k=rng.choice([256, 256, 257, 300, 512, 1000, 16384, 70000]))), "long"
    n = rng.choice([1, 5, 127, 128, 254, 255])
    i = rng.randrange(n)
    s = "".join(rng.choices(gen.ASCII_PRINT, k=n))
    return s[:i] + rng.choice("é°µ\u2126\U0001F600\x80\xff\udc80") + s[i + 1:], "non-ascii"


@family(5)
def name(b):
    """Names of objects, sets."""
    rng = b.rng
    s, d = bad_ident(rng)
    r = rng.random()
    if r < 0.35:
        o = b.some()
        b.rename(o.oid, s)
        if o.kind == "channel":
            # the dataset name of the channel follows from its name
            i = b.op_index(o.oid)
            if "dataset_name" not in b.p.ops[i][5]:
                b.set_kw(o.oid, dataset_name=o.dataset_name)
        return True, "object " + d + " " + o.kind
    if r < 0.55:
        o = b.some()
        b.p.py(Ref(o.oid), "name", s)
        return True, "renamed " + d
    if r < 0.85:
        k = rng.choice(list(KINDS))
        b.new(k, set_name=s)
        return True, "set " + d + " " + k
    k = rng.choice(list(KINDS))
    b.new(k, name=s)
    return True, "new " + d + " " + k


@family(2)
def odd_name(b):
    """Empty names, names of foreign types, names at the limit."""
    rng = b.rng
    v = rng.choice(["", 5, None, b"bytes", 1.5, ["A"], "x" * 255, "\n", "\0", " ", "\x7f", np.str_("npname"), object()])
    if isinstance(v, object) and type(v) is object:
        pass
    k = rng.choice(list(KINDS))
    r = rng.random()
    if r < 0.5:
        if k == "channel" and not isinstance(v, str):
            return None
        lf = b.lf()
        kw = {"set_name": f"MUT-{lf}"}
        if k == "frame":
            kw["channels"] = [b.new("channel", lf, data=np.arange(3, dtype="u1"), dataset_name="mutd")]
        if k == "origin":
            kw["file_set_number"] = 3
        b.p.add(lf, k, v, **kw)
    else:
        ref = b.new(k)
        b.p.py(ref, "name", v)
    return (None if isinstance(v, str) else True), f"{v!r:.20} {k}"


@family(3)
def units(b):
    rng = b.rng
    s, d = bad_ident(rng)
    must = True
    if rng.random() < 0.25:
        s, d, must = rng.choice([(5, "int", True), (b"m", "bytes", True), (["m"], "list", True), ("", "empty", None),
                                 ("x" * 255, "255", None), (1.5, "float", True), ("\x01", "control", None)])
    able = [(k, a) for k in KINDS for a, (_, vk, _) in KINDS[k][2].items() if vk in spec.UNITS_OK]
    r = rng.random()
    if r < 0.25:
        b.assign("channel", "units", s)
        return must, "channel " + d
    k, a = rng.choice(able)
    b2 = Base(b.ctx)
    try:
        v = scalar(b2, k, a)
    except Exception:
        return None
    if KINDS[k][2][a][2]:
        v = [v]
    b.assign(k, a, Setup(v, s, rng.random() < 0.4))
    return must, f"{k}.{a} {d}"


@family(1)
def units_refused(b):
    """Units on attributes which cannot have any."""
    rng = b.rng
    k, a = rng.choice([(k, a) for k in KINDS for a, (_, vk, _) in KINDS[k][2].items() if vk in ("text", "ident")])
    v = "value"
    if (k, a) in ENUMS:
        return None
    b.assign(k, a, Setup([v] if KINDS[k][2][a][2] else v, "m"))
    return None, f"{k}.{a}"


@family(3)
def label_fields(b):
    """Storage unit label and file header fields."""
    rng = b.rng
    kw = b.p.file_kw
    which = rng.choice(["id", "id", "seq", "mrl", "fh_id", "fh_seq", "fh_identifier"])
    if which == "id":
        v = rng.choice(["x" * 61, "x" * 100, "é", "a" * 59 + "\u20ac", 5, b"abc", "x" * 1000])
        late = rng.random() < 0.3
        if late and isinstance(v, str):
            b.after.append(lambda r: setattr(r.df.storage_unit_label, "set_identifier", v))
        else:
            kw["set_identifier"] = v
    elif which == "seq":
        v = rng.choice([10000, -1, 10 ** 9, -1000, 99999, "x", None, 1.5, [], "1"])
        kw["sul_sequence_number"] = v
        if not isinstance(v, int):
            return None, "sul_sequence_number " + type(v).__name__
    elif which == "mrl":
        v = rng.choice([0, 2, 18, 19, 21, 8191, 16386, 16385, 20000, 65536, -20, 10 ** 6, "8192", None, 8192.0, 16384.5])
        kw["max_record_length"] = v
        if not isinstance(v, int):
            return None, "max_record_length " + type(v).__name__
    else:
        i = rng.choice([i for i, op in enumerate(b.p.ops) if op[0] == "lf"])
        op = b.p.ops[i]
        v = {"fh_id": ["x" * 66, "é", "x" * 300, 5, b"abc", "x" * 64 + "\u2126"], "fh_seq": [10 ** 10, 10 ** 11, -10 ** 10],
             "fh_identifier": ["é", "\u2126", "x" * 256, 5, b"0"]}[which]
        v = rng.choice(v)
        b.p.ops[i] = ("lf", op[1], {**op[2], {"fh_seq": "fh_sequence_number"}.get(which, which): v})
    b.changed = True
    return True, f"{which} {v!r:.15}"


@family(3)
def origin_reference(b):
    rng = b.rng
    v = rng.choice([-1, 2 ** 30, 2 ** 31, 2 ** 40, -2 ** 40, "1", 1.5, 999999, 123456789, [1], True, np.int64(-1), 2 ** 64])
    model = b.model()
    known = {o.origin for f in model.files for o in f.of("origin") if isinstance(o.origin, int)}
    if isinstance(v, bool) or isinstance(v, int) and v in known:
        return None
    r = rng.random()
    if r < 0.4:
        o = b.some(exclude=("origin",))
        b.p.py(Ref(o.oid), "origin_reference", v)
    elif r < 0.8:
        b.new(rng.choice([k for k in KINDS if k not in ("origin",)]), origin_reference=v)
    else:
        if isinstance(v, int) and 0 <= v < 2 ** 30:
            return None
        b.new("origin", origin_reference=v)
    return True, f"{v!r}"


@family(3)
def incomplete(b):
    """A logical file without origin, channels or frames; a file without logical files."""
    rng = b.rng
    r = rng.random()
    if r < 0.15:
        p = spec.Program(b.p.file_kw)
        b.p = p
        b.changed = True
        return True, "no logical file"
    what = rng.choice(["origin", "channel", "frame", "all"])
    p = b.p
    extra = rng.random() < 0.5
    if extra:        # another, incomplete logical file at the end
        lf = p.lf()
        sn = {"set_name": f"INC-{lf}"}
        if what not in ("origin", "all"):
            p.add(lf, "origin", "O", file_set_number=1, **sn)
        if what not in ("channel", "all"):
            c = p.add(lf, "channel", "C", data=np.arange(3, dtype="u1"), dataset_name="incd", **sn)
            if what != "frame":
                p.add(lf, "frame", "F", channels=[c], **sn)
        elif what == "channel":
            p.add(lf, "frame", "F", channels=rng.choice([[], None, ()]), **sn)
        if rng.random() < 0.5:
            p.add(lf, "zone", "Z", **sn)
        return True, f"extra without {what}"
    # a logical file of its own
    q = spec.Program(p.file_kw)
    lf = q.lf()
    steps = []
    if what not in ("origin", "all"):
        steps.append(lambda: q.add(lf, "origin", "O", file_set_number=1))
    if what not in ("channel", "all"):
        def ch():
            c = q.add(lf, "channel", "C", data=np.arange(3, dtype="u1"))
            if what != "frame":
                q.add(lf, "frame", "F", channels=[c])
        steps.append(ch)
    elif what == "channel":
        steps.append(lambda: q.add(lf, "frame", "F", channels=rng.choice([[], None, ()])))
    for _ in range(rng.randint(0, 3)):
        k = rng.choice([k for k in KINDS if k not in ("origin", "frame", "channel")])
        steps.append(lambda k=k: q.add(lf, k, "X"))
    rng.shuffle(steps)
    for s in steps:
        s()
    b.p, b.override, b.data, b.changed = q, {}, None, True
    return True, f"alone without {what}"


@family(2)
def empty_frame(b):
    lf = b.lf()
    v = b.rng.choice([[], None, (), "absent"])
    kw = {} if v == "absent" else {"channels": v}
    b.p.add(lf, "frame", "MUTF", set_name=f"MUT-{lf}", **kw)
    return True, f"{v!r}"


@family(3)
def frame_channels(b):
    """Wrong channels of a frame."""
    rng = b.rng
    kind = rng.choice(["twice", "foreign", "not", "other", "file"])
    lf = b.lf()
    d = {"data": np.arange(3, dtype="u1")}
    c = b.new("channel", lf, dataset_name="mutf", **d)
    if kind == "twice":
        b.new("frame", lf, channels=[c, c])
        return None, kind
    if kind == "not":
        b.new("frame", lf, channels=rng.choice([[5], "C", [None], [c, "x"], 5, [[c]], {"a": 1}]))
        return None, kind
    if kind == "other":
        b.new("frame", lf, channels=[c, b.new(rng.choice([k for k in KINDS if k not in ("channel", "frame", "origin")]), lf)])
        return True, kind
    if kind == "foreign":
        lf2 = b.p.lf()
        b.p.add(lf2, "origin", "O", set_name=f"INC-{lf2}", file_set_number=3)
        c2 = b.p.add(lf2, "channel", "C2", set_name=f"INC-{lf2}", dataset_name="mutg", data=np.arange(3, dtype="u1"))
        b.p.add(lf2, "frame", "F2", set_name=f"INC-{lf2}", channels=[c2] if rng.random() < 0.5 else [c, c2])
        if rng.random() < 0.5:
            b.new("frame", lf, channels=[c, c2])
        elif b.p.ops[-1][5]["channels"] == [c2]:
            b.new("frame", lf, channels=[c2])
        return True, kind
    # a channel of another DLISFile
    from ..spec import Runner
    q = spec.Program({})
    l2 = q.lf()
    q.add(l2, "origin", "O", file_set_number=1)
    q.add(l2, "channel", "OUT", data=np.arange(3, dtype="u1"))
    r2 = Runner(q)
    r2.build()
    outside = [o for o in r2.objs.values()][-1]

    def give(runner):
        fr = runner.lfs[lf].add_frame("MUTFILE", channels=[runner.objs[c.oid], outside], set_name=f"MUT-{lf}")
        return fr
    b.after.append(give)
    return True, kind


@family(3)
def reference(b):
    """References to what is not in the logical file, or is of another type."""
    rng = b.rng
    k, a = rng.choice(list(REF_TARGET))
    multi = KINDS[k][2][a][2]
    kind = rng.choice(["type", "value", "lf", "class"])
    lf = b.lf()
    if k == "frame" or k == "channel" and a == "units":
        return None
    if kind == "lf":
        lf2 = b.p.lf()
        sn = {"set_name": f"INC-{lf2}"}
        b.p.add(lf2, "origin", "O", file_set_number=3, **sn)
        c2 = b.p.add(lf2, "channel", "C2", dataset_name="mutg", data=np.arange(3, dtype="u1"), **sn)
        b.p.add(lf2, "frame", "F2", channels=[c2], **sn)
        t = b.p.add(lf2, REF_TARGET[k, a], "FOREIGN", **({"channels": [c2]} if REF_TARGET[k, a] == "frame" else {}), **sn)
        v, must = t, True
    elif kind == "value":
        v, must = rng.choice([(5, True), (1.5, True), (object(), True), (b"x", True)]), None
        v, must = v
        if KINDS[k][2][a][1] in ("lname",):
            must = None
    elif kind == "class":
        def cls(r):
            return None
        v, must = int, True
    else:
        vk = KINDS[k][2][a][1]
        wrong = rng.choice([x for x in KINDS if x != REF_TARGET[k, a]])
        v = b.new(wrong, lf)
        must = None
    b.assign(k, a, [v] if multi else v, lf)
    return must, f"{kind} {k}.{a}"


NESTED = [("computation", "values"), ("parameter", "values")] + [
    ("calibration_measurement", a) for a in ("measurement", "maximum_deviation", "standard_deviation", "reference",
                                             "standard", "plus_tolerance", "minus_tolerance")]


@family(2)
def ragged(b):
    """Nested values without a regular shape."""
    rng = b.rng
    kind, param = rng.choice(NESTED)
    k = rng.randint(1, 4)

    def n():
        return round(rng.uniform(-99, 99), 2)

    def row(k):
        return [n() for _ in range(k)]
    v = rng.choice([[row(k), row(k + 1)], [row(k), row(k), row(k + 2)], [row(k + 1), row(k)], [row(k), n()], [n(), row(k)],
                    [[row(k), row(k)], [row(k)]], [[row(k), row(k)], [row(k), row(k + 1)]]])
    b.assign(kind, param, v)
    # MEASUREMENT and REFERENCE have no dimension to contradict: their values may come back in a row
    return None if param in ("measurement", "reference") else True, f"{kind} {param}"


@family(2)
def fractions_of(b):
    """A fraction where only integers can be represented."""
    kind, param, vk, multi = b.rng.choice([(k, a, v[1], v[2]) for k in KINDS for a, v in KINDS[k][2].items()
                                           if v[1] in ("status", "uvari", "unorm", "ushort", "dim", "int")])
    v = b.rng.choice([0.5, 1.5, 0.1, 0.999, np.float64(0.25), -0.5, 2.000001, 126.5, b.rng.uniform(0, 300), np.float32(0.5),
                      np.float32(1.25), np.float16(1.5), np.longdouble(0.5), decimal.Decimal("0.5"), decimal.Decimal("1.9"),
                      fractions.Fraction(1, 2), fractions.Fraction(4, 3)])
    if v == int(v):
        v += 0.5
    b.assign(kind, param, b.rng.choice([[v], [1, v], [v, 1]]) if multi else v)
    return True, f"{vk} {param}"


@family(2)
def copies(b):
    """More objects of one name than copy numbers."""
    rng = b.rng
    k = rng.choice([k for k in KINDS if k not in ("frame", "channel", "origin")])
    lf = b.lf()
    n = rng.choice([256, 257, 258, 300])
    for i in range(n):
        b.p.add(lf, k, "SAME", set_name=f"MUT-{lf}")
    return (True if n > 256 else None), f"{n}"


@family(3)
def duplicate(b):
    """Two objects which become indistinguishable."""
    rng = b.rng
    k = rng.choice([k for k in KINDS if k not in ("origin",)])
    lf = b.lf()
    x, y = b.new(k, lf), b.new(k, lf)
    kind = rng.choice(["name", "origin", "dataset"])
    if kind == "name":
        b.p.py(y, "name", "DUP")
        b.p.py(x, "name", "DUP")
        return None, f"renamed {k}"
    if kind == "origin":
        refs = [o.origin for f in b.model().files if f.lfid == lf for o in f.of("origin") if isinstance(o.origin, int)]
        if len(set(refs)) < 2:
            return None
        r1, r2 = rng.sample(sorted(set(refs)), 2)
        u = b.new(k, lf, name="DUP2", origin_reference=r1)
        v = b.new(k, lf, name="DUP2", origin_reference=r2)
        b.p.py(v, "origin_reference", r1)
        return None, "origin"
    return None


@family(3)
def noformat(b):
    rng = b.rng
    lf = b.lf()
    kind = rng.choice(["type", "ascii", "object", "foreign", "odd"])
    nf = b.new("no_format", lf)
    if kind == "type":
        v = rng.choice([5, None, 1.5, [1, 2], (b"x",), object(), {}, True, np.arange(3)])
        b.after.append(lambda r: r.lfs[lf].add_no_format_frame_data(r.objs[nf.oid], v))
        return True, f"{type(v).__name__}"
    if kind == "ascii":
        b.p.nofmt(lf, nf, rng.choice(["é", "abc\u20ac", "\x80", "x" * 1000 + "\xff"]))
        b.model_fix.append("nofmt")
        return True, kind
    if kind == "object":
        o = b.new(rng.choice([k for k in KINDS if k not in ("no_format", "origin")]), lf)
        b.after.append(lambda r: r.lfs[lf].add_no_format_frame_data(
            rng.choice([r.objs[o.oid], None, 5, "N", r.objs[o.oid].parent]), b"abc"))
        return True, kind
    if kind == "foreign":
        lf2 = b.p.lf()
        sn = {"set_name": f"INC-{lf2}"}
        b.p.add(lf2, "origin", "O", file_set_number=3, **sn)
        c2 = b.p.add(lf2, "channel", "C2", dataset_name="mutg", data=np.arange(3, dtype="u1"), **sn)
        b.p.add(lf2, "frame", "F2", channels=[c2], **sn)
        b.p.nofmt(lf2, nf, b"payload")
        return True, kind
    v = rng.choice([memoryview(b"abc"), np.bytes_(b"abc"), np.str_("abc")])
    b.p.nofmt(lf, nf, v)
    return None, type(v).__name__


def foreign_values(rng, vk, ok):
    """Values of types the attribute is not made for."""
    return rng.choice([object(), 1 + 2j, {1}, b"bytes", {"a": 1}, [1, "a"], [None], [[None]], [1, None], ["a", 1], range(3),
                       np.array([1, 2]), np.array(["a", "b"]), np.array(3.5), decimal.Decimal("1.5"), fractions.Fraction(1, 3),
                       collections.deque([1, 2]), np.float32(0.1), np.int64(7), np.str_("np"), np.bool_(True), True, [True, 1],
                       [1, 1.5], [1.5, 1], [2 ** 31, 0.5], [10 ** 20, 1], datetime.date(2020, 1, 1), datetime.timedelta(1),
                       datetime.datetime(2020, 1, 1), ["x", datetime.datetime(2020, 1, 1)], float, type, len, math.nan,
                       [[1, 2], [3]], [[1], 2], [[1, 2], [3, 4]], ["a", ["b"]], [["a", "b"]], (), [()], [[], [1]], "",
                       ["", ""], [""], Ellipsis, NotImplemented, 2 ** 31, -2 ** 31 - 1, 10 ** 30])


def as_model(v):
    """What a foreign value means, for the comparison."""
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (range, collections.deque)):
        return list(v)
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (decimal.Decimal, fractions.Fraction)) or isinstance(v, int) and abs(v) > 2 ** 53 and abs(v) < 1e300:
        return float(v)       # the nearest double
    if isinstance(v, (list, tuple)):
        return [as_model(x) for x in v]
    return v


def run_attr(kind, param, ctx):
    """Fringe and foreign values of one attribute in a random specification."""
    rng = ctx.rng
    label, vk, multi = KINDS[kind][2][param]
    b = Bench(ctx, extra=(0, 3), n_lf=(1, 1))
    r = rng.random()
    must = None
    if r < 0.45 and vk not in ("obname", "objref"):
        v, ok = fringe_value(rng, kind, param, vk)
        if v is None:
            r = 0.5
        else:
            must = True if ok is False else None
            detail = f"{vk} fringe"
            if multi:
                v = [v] * rng.choice([1, 2])
                if must is None and rng.random() < 0.3:
                    v = v + [fringe_value(rng, kind, param, vk)[0]]
    if r >= 0.45 or vk in ("obname", "objref"):
        if r < 0.75 or not multi:
            v = foreign_values(rng, vk, multi)
            detail = f"{vk} foreign {type(v).__name__}"
        else:
            v = rng.choice([[], (), [[]], [[], []], [None], [[None]]])
            detail = f"{vk} empty"
    if kind == "origin" and param in ("file_set_number",) and b.rng.random() < 0.5:
        b.set_kw(b.model().files[0].of("origin")[0].oid, file_set_number=v)
    elif kind == "frame" and param == "channels":
        if rng.random() < 0.5:
            b.new("frame", channels=v)
        else:
            b.p.set(b.new("frame"), "channels", v)
    else:
        b.assign(kind, param, v)
    finish(b, must, f"attr {kind}.{param} {detail}", repr(v)[:200])


# ------------------------------------------------------------------ execution and judgement

def strict_frames(dlis, ctx):
    """Every frame record has exactly the bytes its CHANNEL objects announce."""
    for n, lf in enumerate(dlis.files):
        chans, frames = {}, {}
        for es in lf.sets:
            for o in es.objects:
                if es.type == "CHANNEL":
                    chans[o.obname] = o
                elif es.type == "FRAME":
                    frames[o.obname] = o
        widths = {}
        for ob, o in frames.items():
            a = o.attrs["CHANNELS"]
            w = 0
            for c in ([] if a.absent else a.values):
                if c not in chans:
                    raise Violation("strict.channel", f"file {n} frame {tuple(ob)}: channel {tuple(c)} not defined")
                rc, dim = chans[c].attrs["REPRESENTATION-CODE"], chans[c].attrs["DIMENSION"]
                if rc.absent or dim.absent or rc.values[0] not in spec.RC_NP:
                    raise Violation("strict.code", f"file {n} channel {tuple(c)}: code {rc!r} dimension {dim!r}")
                w += np.dtype(spec.RC_NP[rc.values[0]]).itemsize * math.prod(dim.values)
            widths[ob] = w
        counts = {}
        for f in lf.iflrs:
            if f.type == 0:
                if f.ref not in widths:
                    raise Violation("strict.frame", f"file {n}: data of undefined frame {tuple(f.ref)}")
                num, slots = rp66.split_fdata(f)
                counts[f.ref] = counts.get(f.ref, 0) + 1
                if num != counts[f.ref]:
                    raise Violation("strict.number", f"file {n} frame {tuple(f.ref)}: number {num}, record {counts[f.ref]}")
                if len(slots) != widths[f.ref]:
                    raise Violation("strict.slots", f"file {n} frame {tuple(f.ref)}: {len(slots)} bytes of data, its channels "
                                                    f"announce {widths[f.ref]}")
                ctx.count("frame_records")


def execute(b, ops, after, split, path):
    """Build (with an intermediate write after `split` operations) and write."""
    runner = spec.Runner(b.p)
    runner.t0 = datetime.datetime.now(datetime.timezone.utc)
    runner.make_file()
    for i, op in enumerate(ops):
        if i == split:
            try:
                runner.write(path, **b.base[1])
            finally:
                if os.path.exists(path):
                    os.unlink(path)
            b.ctx.count("interim_writes")
        runner.step(op)
    for f in after:
        f(runner)
    runner.write(path, **b.override)
    runner.t1 = datetime.datetime.now(datetime.timezone.utc)
    return runner


def control(b):
    """The specification without the defect can be written."""
    p, override, data = b.base
    path = b.ctx.path()
    try:
        r = spec.Runner(p)
        r.build()
        r.write(path, **override)
    except Exception as e:
        raise Inconclusive(f"control specification refused: {e!r}") from e
    finally:
        if os.path.exists(path):
            os.unlink(path)
    b.ctx.count("controls")


def finish(b, must, what, detail=""):
    ctx = b.ctx
    if b.n0 % 3 or must:
        control(b)
    split = b.n0 if not b.changed and len(b.p.ops) > b.n0 and ctx.rng.random() < 0.25 and b.override.get("data") is None else None
    path = ctx.path()
    ctx.count("mutants")
    ctx.count("executions")
    ctx.sample(f"{what} {detail} must_raise={must}\n{b.p.describe(600)}", every=50)
    try:
        runner = execute(b, list(b.p.ops), b.after, split, path)
    except Exception as e:
        ctx.count("raised")
        ctx.distinct((what, "raised", type(e).__name__))
        if os.path.exists(path):
            os.unlink(path)
        return
    raw = work.read(path)
    os.unlink(path)
    if must:
        raise Violation("accepted", f"{what} {detail}: a file of {len(raw)} bytes was written\n{b.p.describe(3000)}")
    dlis = rp66.parse(raw)
    strict_frames(dlis, ctx)
    p = b.p.clone()
    p.ops = [translate(op) for op in p.ops]
    p.write_kw.update({k: v for k, v in b.override.items() if k != "data"})
    data = b.data
    if data is None and isinstance(b.override.get("data"), (dict, np.ndarray)):
        data = b.override["data"]
    try:
        res = spec.compare(p, dlis, runner.t0, runner.t1, data=data)
    except spec.Mismatch as e:
        raise Violation("unfaithful." + e.rule, f"{what} {detail}: {e.msg}\n{b.p.describe(3000)}") from e
    except (TypeError, ValueError, KeyError, AttributeError, IndexError, OverflowError) as e:
        ctx.count("uninterpreted")
        ctx.distinct((what, "uninterpreted", repr(e)[:80]))
        return
    ctx.count("faithful")
    ctx.count("attributes", res.attrs)
    ctx.count("rows", res.rows)
    ctx.distinct((what, "written"))


def translate(op):
    def tr(v):
        if isinstance(v, Setup):
            return Setup(as_model(v.value), v.units, v.as_dict)
        return as_model(v)
    if op[0] == "add":
        return op[:5] + ({k: v if k == "data" else tr(v) for k, v in op[5].items()},)
    if op[0] == "set":
        return op[:4] + (tr(op[4]),)
    if op[0] == "setattrs":
        return op[:2] + ({k: tr(v) for k, v in op[2].items()},)
    return op


def run_mut(name, ctx):
    for _ in range(8):
        b = Bench(ctx)
        res = FAMILIES[name][0](b)
        if res is not None:
            finish(b, res[0], f"{name}: {res[1]}")
            return
    ctx.count("not_applicable")


def run_pair(ctx):
    """Two defects at once."""
    b = Bench(ctx)
    names = []
    must = None
    for _ in range(2):
        n = ctx.rng.choice([n for n in FAMILIES if n not in names + ["incomplete"]])
        try:
            res = FAMILIES[n][0](b)
        except Exception:
            if not names:
                raise
            break            # the first defect leaves no place for the second
        if res is not None:
            names.append(n)
            # the second may undo the first only if they concern the same item: demand an exception for the last one
            must = True if res[0] else must if must and n in ("copies", "duplicate", "noformat", "units") else None
    finish(b, must, "pair: " + "+".join(names))


@contextlib.contextmanager
def limited(what, value):
    """A soft limit of the process; writing past the permitted file size is EFBIG instead of a signal."""
    old = resource.getrlimit(what)
    sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(what, (value, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(what, old)
        signal.signal(signal.SIGXFSZ, sig)


def run_disk(ctx):
    """The storage gives up somewhere: the write raises, or the file is complete all the same."""
    rng = ctx.rng
    p, override, data, g = work.generate(ctx, deterministic=True, nofmt=(0, 4), rows=(1, 30))
    mrl = p.file_kw.get("max_record_length", 8192)
    p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 0, 1, 300, 5000, 1 << 16])
    path = ctx.path()
    r = spec.Runner(p)
    r.build()
    r.write(path, **override)
    want = work.read(path)
    os.unlink(path)
    target = path
    kind = rng.choice(["size"] * 8 + ["files", "folder", "nowhere", "below"])
    limit = None
    if kind == "size":
        bounds = [0]
        pos = 80
        while pos < len(want):
            bounds.append(pos)
            pos += int.from_bytes(want[pos:pos + 2], "big")
        n = rng.choice([rng.randrange(len(want)), rng.choice(bounds), len(want) - 1, 80, len(want) - len(want) % 4096 - 1])
        limit = (resource.RLIMIT_FSIZE, max(0, min(n, len(want) - 1)))
        if rng.random() < 0.4:      # a file of another time in its place
            with open(path, "wb") as f:
                f.write(want if rng.random() < 0.5 else rng.randbytes(rng.randint(0, 2 * len(want))))
    elif kind == "files":
        limit = (resource.RLIMIT_NOFILE, len(os.listdir("/proc/self/fd")) + rng.choice([-1, -1, 0, 1, 2]))
    elif kind == "folder":
        os.mkdir(path)
    elif kind == "nowhere":
        target = os.path.join(path + "-none", "x.dlis")
    else:
        with open(path, "wb") as f:
            f.write(b"a file")
        target = os.path.join(path, "x.dlis")
    if rng.random() < 0.5:
        r = spec.Runner(p)
        r.build()
    ctx.count("executions")
    ctx.count("storage_faults")
    raised = None
    try:
        with limited(*limit) if limit else contextlib.nullcontext():
            r.write(target, **override)
    except Exception as e:
        raised = e
    ctx.distinct(("disk", kind, limit and limit[1], type(raised).__name__))
    if raised is not None:
        ctx.count("raised")
    elif not os.path.isfile(target):
        raise Violation("storage", f"{kind} {limit}: a write to {os.path.basename(target)} returned, there is no file\n{p.describe(1500)}")
    else:
        got = work.read(target)
        if got != want:
            raise Violation("storage", f"{kind} {limit}: a write returned and left {len(got)} bytes of {len(want)}\n{p.describe(1500)}")
        ctx.count("faithful")
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)


def run_case(case, ctx):
    if case[0] == "mut":
        run_mut(case[1], ctx)
    elif case[0] == "attr":
        run_attr(case[1], case[2], ctx)
    elif case[0] == "disk":
        run_disk(ctx)
    else:
        run_pair(ctx)
