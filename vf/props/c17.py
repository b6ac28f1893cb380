"""C17: high-compatibility mode enforces its restrictions and never leaks."""
import collections
import contextlib
import logging
import os
import re
import warnings
import numpy as np

from .. import work, rp66, spec, gen, standard
from ..spec import KINDS, Ref, Setup
from ..core import Violation
from .c04 import Base, scalar
from .c12 import Bench
from .c13 import index_rows, expectation

RULE = ("'one'/'multi': a random conforming specification with one or several breaches of the restrictions (13 aspects, every "
        "assignment route, any object type, any logical file): refused inside the mode, written outside with a warning that "
        "the conforming twin does not give, and read back as specified; 'valid': conforming specifications are written "
        "inside; every file written inside is decoded and checked against all restrictions at once; 'hist': random histories "
        "of entering and leaving (nested, decorator, exceptions of all kinds, generators, exit stacks, contexts prepared "
        "elsewhere) with builds, writes and rejected calls; the mode is determined from behaviour after every step; 'fsn': "
        "file set numbers of many origins. Distinct: (aspect, detail, route, outcome) and histories.")
MINIMUM = {"refused_inside": 1000, "warned_outside": 900, "written_inside": 300, "probes": 5000}
ASSUMPTIONS = ["values supplied explicitly for FILE-SET-NUMBER are kept in the mode", "files built outside the mode and "
               "written inside are checked for nothing but the state of the mode"]
NAME = re.compile(r"[A-Z0-9_-]+")


def plan(tier, seed):
    quick = tier == "quick"
    cases = []
    for a in ASPECTS:
        cases += [["one", a, i] for i in range((60 if quick else 900) * ASPECTS[a][1])]
    cases += [["multi", i] for i in range(150 if quick else 3000)]
    cases += [["valid", i] for i in range(350 if quick else 8000)]
    cases += [["hist", i] for i in range(350 if quick else 6000)]
    cases += [["cross", i] for i in range(350 if quick else 6000)]
    cases += [["fsn", i] for i in range(80 if quick else 1200)]
    return cases


# ------------------------------------------------------------------ observation

class Capture(logging.Handler):
    """Warnings given through logging or the warnings module."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.seen = collections.Counter()

    def emit(self, record):
        self.seen[record.getMessage()] += 1

    def __enter__(self):
        self.root = logging.getLogger()
        self.level, self.disabled = self.root.level, logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.root.addHandler(self)
        self.cw = warnings.catch_warnings(record=True)
        self.log = self.cw.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *exc):
        self.cw.__exit__(*exc)
        for w in self.log:
            self.seen[str(w.message)] += 1
        self.root.removeHandler(self)
        logging.disable(self.disabled)
        return False


def inventory(dlis, ctx):
    """All restrictions at once, on a file written in the mode."""
    units = set(standard.Unit) | standard.UNCLEAR
    sets = {"INDEX-TYPE": set(standard.FrameIndexType), "TYPE": set(standard.EquipmentType) | standard.UNCLEAR,
            "LOCATION": set(standard.EquipmentLocation)}

    def named(s, what):
        ctx.count("names_checked")
        if not NAME.fullmatch(s):
            raise Violation("restriction.name", f"{what} {s!r} in a file written in high-compatibility mode")
    named(dlis.physical.sul.set_id.rstrip(" "), "set identifier")
    for n, lf in enumerate(dlis.files):
        named(lf.sets[0].objects[0].attrs["ID"].values[0].rstrip(" "), "header id")
        uses = collections.Counter()
        chans, frames = {}, []
        for es in lf.sets:
            for o in es.objects:
                named(o.obname.name, f"{es.type} object name")
                for lab, a in o.attrs.items():
                    if a.absent:
                        continue
                    if a.units and a.units not in units:
                        raise Violation("restriction.units", f"file {n} {es.type} {lab}: units {a.units!r}")
                    if a.units:
                        ctx.count("units_checked")
                if es.type == "CHANNEL":
                    chans[o.obname] = o
                    u = o.attrs["UNITS"]
                    if not u.absent and u.values and u.values[0] and u.values[0] not in units:
                        raise Violation("restriction.units", f"file {n} channel {tuple(o.obname)}: {u!r}")
                    rc = o.attrs["REPRESENTATION-CODE"]
                    if not rc.absent and rc.values[0] in (12, 13, 14):
                        raise Violation("restriction.signed", f"file {n} channel {tuple(o.obname)}: code {rc.values[0]}")
                elif es.type == "FRAME":
                    frames.append(o)
                    uses.update(o.attrs["CHANNELS"].values)
                    t = o.attrs["INDEX-TYPE"]
                    if not t.absent and t.values[0] not in sets["INDEX-TYPE"]:
                        raise Violation("restriction.index-type", f"file {n} frame {tuple(o.obname)}: {t!r}")
                elif es.type == "EQUIPMENT":
                    for lab in ("TYPE", "LOCATION"):
                        a = o.attrs[lab]
                        if not a.absent and a.values[0] not in sets[lab]:
                            raise Violation("restriction." + lab.lower(), f"file {n} equipment {tuple(o.obname)}: {a!r}")
        for c in chans:
            if uses[c] != 1:
                raise Violation("restriction.frames", f"file {n} channel {tuple(c)} is in {uses[c]} frames")
        for fr in frames:
            if fr.attrs["INDEX-TYPE"].absent:
                continue
            v, dt = index_rows(lf, fr, chans)
            if len(v) >= 2 and v.shape[1] == 1:
                ctx.count("indexes_checked")
                if expectation(v[:, 0])[0] is None:
                    raise Violation("restriction.spacing", f"file {n} frame {tuple(fr.obname)}: index {v[:8, 0].tolist()} of "
                                                           f"{len(v)} rows")


# ------------------------------------------------------------------ breaches

ASPECTS = {}


def aspect(weight=1):
    def deco(f):
        ASPECTS[f.__name__] = (f, weight)
        return f
    return deco


def bad_text(rng, n=60):
    return rng.choice(["lower", "Depth", "A B", "A.B", "A\n", "\nA", "A/B", "A+", "a", "MD ", " MD", "A:B", "(A)", "A\tB", "a" * n,
                       "A" * (n - 1) + "b", "A,B", "ABCdEF", "@", "[A]", "A^", "A`", "{", "A\x00", "", "A=1", "A*", "\"A\"", "A\\"])


@aspect(3)
def name(b):
    rng = b.rng
    s = bad_text(rng)
    r = rng.random()
    if r < 0.3:
        k = rng.choice(list(KINDS))
        if k == "channel":
            x = frame_with(b, np.arange(b.rows(), dtype="u1"), name=s)
        elif k == "frame":
            x = frame_with(b, np.arange(b.rows(), dtype="u1"), frame_name=s)
        else:
            x = b.new(k, b.lf(), name=s)
        if x is None:
            return None
        return f"new {k}"
    o = b.some()
    if r < 0.65:
        if o.kind == "channel" and "dataset_name" not in b.p.ops[b.op_index(o.oid)][5]:
            b.set_kw(o.oid, dataset_name=o.dataset_name)
        b.rename(o.oid, s)
        return f"existing {o.kind}"
    b.p.py(Ref(o.oid), "name", s)
    b.late = True
    return f"renamed {o.kind}"


@aspect(1)
def header_name(b):
    s = b.rng.choice("a z.:/~")
    i = b.rng.choice([i for i, op in enumerate(b.p.ops) if op[0] == "lf"])
    op = b.p.ops[i]
    b.p.ops[i] = ("lf", op[1], {**op[2], "fh_identifier": s})
    return "fh_identifier"


@aspect(1)
def set_identifier(b):
    s = bad_text(b.rng)
    if b.rng.random() < 0.3:
        b.late_identifier = s
        b.late = True
        return "later"
    b.p.file_kw["set_identifier"] = s
    return "argument"


@aspect(1)
def header_id(b):
    s = bad_text(b.rng, 65)
    i = b.rng.choice([i for i, op in enumerate(b.p.ops) if op[0] == "lf"])
    op = b.p.ops[i]
    if b.rng.random() < 0.3:
        b.late = True
        both = b.rng.random() < 0.7      # FILE-ID of the defining origin follows
        b.late_header = (op[1], s, both)
        return "later, with FILE-ID" if both else "later"
    b.p.ops[i] = ("lf", op[1], {**op[2], "fh_id": s})
    return "argument"


def frame_with(b, arr, index=None, name=None, frame_name=None, **chkw):
    """A frame with the array as its first or another channel. The data are given inline or in the mapping."""
    rng = b.rng
    lf = b.lf()
    n = len(arr)
    ds = f"breach{len(b.p.ops)}"
    src = b.source()
    kw = {"dataset_name": ds, **chkw}
    inline = src is None or b.data is None and isinstance(src, dict) and rng.random() < 0.5
    if not inline and isinstance(src, np.ndarray) and len(src) == n:
        b.p.write_kw["data"] = gen.make_struct(rng, {**{k: src[k] for k in src.dtype.names}, ds: arr}, extra=False)
    elif not inline and b.data is not None:
        b.data = {**b.data, ds: arr}
        path = b.ctx.path(".h5")
        gen.write_h5(path, b.data, rng)
        b.override = {**b.override, "data": path}
    elif not inline and isinstance(src, dict):
        b.p.write_kw["data"] = {**src, ds: arr}
    elif isinstance(src, np.ndarray) or b.data is not None:
        return None
    else:
        kw["data"] = arr
    c = b.p.add(lf, "channel", f"BREACH{len(b.p.ops)}" if name is None else name, set_name=f"MUT-{lf}", **kw)
    fkw = {"set_name": f"MUT-{lf}"}
    if index:
        fkw["index_type"] = index
    return c, b.p.add(lf, "frame", f"BREACHFRAME{len(b.p.ops)}" if frame_name is None else frame_name, channels=[c], **fkw)


@aspect(2)
def signed(b):
    rng = b.rng
    n = b.rows()
    dt = rng.choice(["i1", "i2", "i4"])
    shape = (n,) if rng.random() < 0.6 else (n, rng.randint(1, 3))
    r = rng.random()
    if r < 0.5:
        x = frame_with(b, np.arange(int(np.prod(shape))).reshape(shape).astype(rng.choice(["<", ">"]) + dt))
        return x and f"data {dt}"
    arr = np.arange(int(np.prod(shape))).reshape(shape).astype(rng.choice(["f4", "f8", "u1", "u2"]))
    cast = rng.choice([np.int8, np.int16, np.int32, np.dtype("int32"), np.dtype("int16")])
    if r < 0.75:
        x = frame_with(b, arr, cast_dtype=cast)
        return x and f"cast {dt}"
    x = frame_with(b, arr)
    if x is None:
        return None
    b.p.py(x[0], "cast_dtype", cast)
    return f"cast later {dt}"


@aspect(1)
def unassigned(b):
    lf = b.lf()
    kw = {}
    if b.rng.random() < 0.5 and not isinstance(b.source(), np.ndarray) and b.data is None:
        kw["data"] = np.arange(b.rng.choice([3, 4]), dtype="f4")
    b.new("channel", lf, name="LONELY", dataset_name="lonely", **kw)
    return "data" if kw else "no data"


@aspect(1)
def shared(b):
    mf, fr, cs = b.frame_channels()
    c = b.rng.choice(cs)
    b.new("frame", mf.lfid, channels=[Ref(c.oid)])
    return "two frames"


@aspect(2)
def spacing(b):
    rng = b.rng
    kind = rng.choice(["gap", "zigzag", "random", "plateau", "nan", "quad", "tail", "head", "inf"])
    n = b.rows(2 if kind in ("nan", "inf") else 3, 12 if rng.random() < 0.7 else 3)
    if n < (2 if kind in ("nan", "inf") else 3):
        return None
    v = np.arange(n, dtype="f8") * rng.choice([1, -1, 2]) + 40
    if kind == "gap":
        v[n // 2:] += 5
    elif kind == "zigzag":
        v[::2] += 20
    elif kind == "random":
        v = np.cumsum(np.array([rng.choice([1, 2, 4]) for _ in range(n)], dtype="f8"))
        v[-1] += 9
    elif kind == "plateau":
        v[1] = v[0]
    elif kind == "nan":
        v[rng.randrange(n)] = np.nan
    elif kind == "inf":
        v[rng.randrange(n)] = rng.choice([np.inf, -np.inf])
    elif kind == "quad":
        v = np.arange(n, dtype="f8") ** 2
    elif kind == "tail":
        v[-1] += 0.5
    else:
        v[0] -= 0.5 * (1 if v[1] > v[0] else -1)
    if kind in ("nan", "inf", "tail", "head") or rng.random() < 0.5:
        dt = rng.choice(["<f4", ">f4", "f8", ">f8"])
    else:
        v = v - v.min()
        dt = rng.choice(["u1", "u2", "u4", ">u2", ">u4"])
    x = frame_with(b, v.astype(dt), index=standard.pick(rng, gen.enums().FrameIndexType))
    if x is None:
        return None
    if rng.random() < 0.3:
        b.p.set(x[1], "spacing", 1.0)
    return f"{kind} {dt}"


def bad_value(rng, cls):
    have = set(getattr(standard, cls.__name__)) | standard.UNCLEAR
    odd = standard.foreign(cls)
    if odd and rng.random() < 0.5:
        return rng.choice(odd)
    while True:
        v = rng.choice([rng.choice(list(have)) + rng.choice(["X", " ", "S", "-"]), rng.choice(list(have)).lower(),
                        rng.choice(list(have)).upper(), rng.choice(list(have)).swapcase(), "NONSENSE", "METER", "meters", "?", "x" * 255,
                        rng.choice(list(cls)).name, str(rng.choice(list(cls)))])
        if v not in have:
            return v


@aspect(3)
def units(b):
    rng = b.rng
    u = bad_value(rng, gen.enums().Unit)
    able = [(k, a) for k in KINDS for a, (_, vk, _) in KINDS[k][2].items() if vk in spec.UNITS_OK and
            (k, a) not in (("frame", "channels"),)]
    k, a = rng.choice(able)
    tmp = Base(b.ctx)
    v = scalar(tmp, k, a)
    if (k, a) in (("calibration_coefficient", "coefficients"), ("computation", "values")):
        return None
    if KINDS[k][2][a][2]:
        v = [v]
    if k == "channel":
        # only channels in a frame conform
        o = b.some(("channel",))
        if a in ("minimum_value", "maximum_value"):
            b.p.set(Ref(o.oid), a, v)
            b.p.set(Ref(o.oid), a, u, part="units")
            return f"{k}.{a} units"
        return None
    if k == "frame":
        b2 = b.some(("frame",))
        if a == "encrypted" or spec.KINDS["frame"][2][a][1] != "num":
            return None
        i = b2.attrs[KINDS["frame"][2][a][0]]
        if not (i.assigned and i.value is not None):
            b.p.set(Ref(b2.oid), a, v)
        b.p.set(Ref(b2.oid), a, u, part="units")
        return f"frame.{a} units"
    lf = b.lf()
    r = rng.random()
    if r < 0.6:
        b.new(k, lf, **{a: Setup(v, u, rng.random() < 0.5)})
        return f"{k}.{a} setup"
    o = b.new(k, lf, **{a: v})
    b.p.set(o, a, u, part="units")
    return f"{k}.{a} .units"


@aspect(2)
def channel_units(b):
    rng = b.rng
    u = bad_value(rng, gen.enums().Unit)
    o = b.some(("channel",))
    r = rng.random()
    if r < 0.4:
        b.set_kw(o.oid, units=rng.choice([u, Setup(u)]))
        return "argument"
    if r < 0.7:
        b.p.set(Ref(o.oid), "units", u)
        return ".value"
    b.p.setattrs(Ref(o.oid), units=u)
    return "set_attributes"


def enum_breach(b, kind, param, cls):
    rng = b.rng
    v = bad_value(rng, cls)
    lf = b.lf()
    r = rng.random()
    kw = {}
    if kind == "frame":
        src = b.p.write_kw.get("data")
        x = frame_with(b, np.arange(len(src) if isinstance(src, np.ndarray) else 4, dtype="f8"))
        if x is None:
            return None
        o = x[1]
        if r < 0.4:
            b.set_kw(o.oid, **{param: v})
            return "argument"
    else:
        if r < 0.4:
            b.new(kind, lf, **{param: rng.choice([v, Setup(v), Setup(v, None, True)])}, **kw)
            return "argument"
        o = b.new(kind, lf, **kw)
    if r < 0.7:
        b.p.set(o, param, v)
        return ".value"
    b.p.setattrs(o, **{param: v})
    return "set_attributes"


@aspect(1)
def index_type(b):
    return enum_breach(b, "frame", "index_type", gen.enums().FrameIndexType)


@aspect(1)
def equipment_type(b):
    return enum_breach(b, "equipment", "eq_type", gen.enums().EquipmentType)


@aspect(1)
def equipment_location(b):
    return enum_breach(b, "equipment", "location", gen.enums().EquipmentLocation)


# ------------------------------------------------------------------ execution

def mode():
    from dliswriter import high_compatibility_mode
    return high_compatibility_mode()


def decorated(f):
    from dliswriter import high_compatibility_mode_decorator
    return high_compatibility_mode_decorator(f)


def build_write(p, path, override, late_identifier=None, late_header=None, between=None):
    r = spec.Runner(p)
    r.build()
    if late_identifier is not None:
        r.df.storage_unit_label.set_identifier = late_identifier
    if late_header is not None:
        lf = r.lfs[late_header[0]]
        lf.file_header.header_id = late_header[1]
        if late_header[2]:
            lf.defining_origin.file_id.value = late_header[1]
    if between:
        between()
    r.write(path, **override)
    return r


def inside(ctx, *args, **kw):
    """build_write within the mode, entered in one of several ways."""
    how = ctx.rng.choice(["with", "with", "decorator", "nested", "inner", "stack"])
    box = []

    def run():
        box.append(build_write(*args, **kw))
    try:
        if how == "with":
            with mode():
                run()
        elif how == "decorator":
            decorated(run)()
        elif how == "nested":
            with mode():
                with mode():
                    pass
                run()
        elif how == "inner":
            with mode():
                try:
                    with mode():
                        raise KeyError("inner")
                except KeyError:
                    pass
                decorated(lambda: None)()
                run()
        else:
            with contextlib.ExitStack() as st:
                st.enter_context(mode())
                st.enter_context(mode())
                run()
    finally:
        probe(ctx, False, "after " + how, cheap=True)
    return box[0]


class HCBench(Bench):
    def __init__(self, ctx, **kw):
        super().__init__(ctx, hc=True, windows=False, **kw)
        self.late_identifier = self.late_header = None
        self.late = False       # assigned where only the mode looks again

    def rows(self, lo=1, hi=5):
        src = self.p.write_kw.get("data")
        return len(src) if isinstance(src, np.ndarray) else self.rng.randint(lo, hi)

    def new(self, kind, lf=None, name=None, **kw):
        if kind == "frame" and "channels" not in kw:
            x = frame_with(self, np.arange(self.rows(), dtype="u1"))
            if x is None:
                raise NotApplicable
            i = self.op_index(x[1].oid)
            op = self.p.ops[i]
            self.p.ops[i] = op[:4] + (op[4] if name is None else name, {**op[5], **kw})
            return x[1]
        return super().new(kind, lf, name, **kw)


class NotApplicable(Exception):
    pass


def run_breach(ctx, names):
    b = HCBench(ctx)
    base = b.p.clone()
    base.file_kw = dict(b.p.file_kw)
    base_override, base_data = dict(b.override), b.data
    done = []
    early = False        # a breach which is looked at outside of the mode, too
    for n in names:
        b.late = False
        try:
            d = ASPECTS[n][0](b)
        except NotApplicable:
            d = None
        if d:
            done.append(f"{n}: {d}")
            early = early or not b.late
    if not done:
        ctx.count("not_applicable")
        return
    what = "; ".join(done)
    ctx.count("executions")
    ctx.sample(what + "\n" + b.p.describe(500))
    path = ctx.path()
    # inside
    try:
        inside(ctx, b.p, path, b.override, b.late_identifier, b.late_header)
    except Exception as e:
        ctx.count("refused_inside")
        ctx.distinct((what, "refused", type(e).__name__))
    else:
        raise Violation("accepted." + names[0], f"written in high-compatibility mode: {what}\n{b.p.describe(3000)}")
    # outside
    if b.late_header is not None and not b.late_header[2]:    # FILE-ID of the origin does not match any more
        return
    with Capture() as twin:
        build_write(base, path, base_override)
    try:
        with Capture() as cap:
            r = build_write(b.p, path, b.override, b.late_identifier, b.late_header)
    except Exception as e:
        raise Violation("refused_outside." + names[0], f"{what}: {type(e).__name__}: {e}\n{b.p.describe(3000)}") from e
    new = cap.seen - twin.seen
    if not new and early:
        raise Violation("no_warning." + names[0], f"{what}: written outside the mode without a warning (the conforming twin "
                                                  f"gives {sum(twin.seen.values())})\n{b.p.describe(3000)}")
    ctx.count("warned_outside")
    raw = work.read(path)
    dlis = rp66.parse(raw)
    p = b.p
    if b.late_identifier is not None:
        p.file_kw["set_identifier"] = b.late_identifier
    if b.late_header is not None:
        return
    spec.compare(p, dlis, r.t0, r.t1, data=b.data)
    ctx.count("compared_outside")


def run_valid(ctx):
    p, override, data, g = work.generate(ctx, hc=True, rows=(1, 8), extra=(0, 14), n_lf=(1, 3))
    path = ctx.path()
    ctx.count("executions")
    ctx.sample(p.describe(500))
    try:
        r = inside(ctx, p, path, override)
    except Violation:
        raise
    except Exception as e:
        raise Violation("refused_inside", f"conforming: {type(e).__name__}: {e}\n{p.describe(3000)}") from e
    dlis = rp66.parse(work.read(path))
    ctx.count("written_inside")
    inventory(dlis, ctx)
    spec.compare(p, dlis, r.t0, r.t1, data=data)
    ctx.distinct(("valid", len(p.ops)))
    if ctx.rng.random() < 0.4:       # arbitrary specifications: whatever is written conforms
        p, override, data, g = work.generate(ctx, hc=False, rows=(1, 4), extra=(0, 3), n_lf=(1, 1), frames=(1, 1))
        try:
            r = inside(ctx, p, path, override)
        except Violation:
            raise
        except Exception:
            ctx.count("refused_inside")
        else:
            ctx.count("written_inside")
            inventory(rp66.parse(work.read(path)), ctx)


def run_fsn(ctx):
    """Default file set numbers in the mode."""
    rng = ctx.rng
    p = spec.Program({})
    n = rng.randint(1, 3)
    numbers = {}
    explicit = set()        # names of origins whose number is the user's
    some = rng.random() < 0.3
    for i in range(n):
        lf = p.lf(fh_id=f"LF-{i}")
        refs = rng.random() < 0.5
        for s in range(rng.randint(1, 2)):
            sn = f"S{i}-{s}"
            for j in range(rng.randint(1, 5)):
                kw = {"file_set_name": "F"} if rng.random() < 0.5 else {}
                if refs and rng.random() < 0.6:
                    kw["origin_reference"] = 40 + 3 * len(numbers) if rng.random() < 0.5 else rng.choice([0, 100, 5000]) + 20 + \
                        len(numbers)
                if some and rng.random() < 0.4:
                    kw["file_set_number"] = rng.randint(1, 2 ** 30 - 1)
                    explicit.add(f"O{i}{s}{j}")
                o = p.add(lf, "origin", f"O{i}{s}{j}", set_name=sn, **kw)
                numbers[o.oid] = j + 1
                if rng.random() < 0.2:
                    p.add(lf, "zone", f"Z{i}{s}{j}", set_name=sn)
        c = p.add(lf, "channel", "C", data=np.arange(3, dtype="u1"), dataset_name="c", set_name=f"S{i}")
        p.add(lf, "frame", "F", channels=[c], set_name=f"S{i}")
    path = ctx.path()
    ctx.count("executions")
    r = inside(ctx, p, path, {})
    dlis = rp66.parse(work.read(path))
    inventory(dlis, ctx)
    ctx.count("written_inside")
    res = spec.compare(p, dlis, r.t0, r.t1)
    for lf in dlis.files:
        for es in lf.sets:
            if es.type == "ORIGIN":
                got = [o.attrs["FILE-SET-NUMBER"].values[0] for o in es.objects if o.obname.name not in explicit]
                if explicit:
                    if got != sorted(set(got)) or got and not 0 < got[0] <= got[-1] <= len(numbers):
                        raise Violation("fsn", f"default file set numbers {got} in ORIGIN set {es.name!r} of {len(es.objects)}")
                elif got != list(range(got[0], got[0] + len(got))) or got[0] < 1 or got[-1] > len(numbers):
                    raise Violation("fsn", f"file set numbers {got} in ORIGIN set {es.name!r}")
                ctx.count("fsn_checked", len(got))
    ctx.distinct(("fsn", tuple(numbers.values())))
    assert res


# ------------------------------------------------------------------ objects that outlive a change of the mode

def some_unit(rng, cls, bad):
    if bad:
        return bad_value(rng, cls)
    return standard.pick(rng, cls)


def run_cross(ctx):
    """Each step of one file inside or outside the mode; only the mode at the time of the step counts."""
    from dliswriter import AttrSetup
    rng = ctx.rng
    e = gen.enums()
    able = [(k, a) for k in KINDS for a, (_, vk, multi) in KINDS[k][2].items() if vk == "num" and not
            (k in ("channel", "calibration_coefficient", "computation") or (k, a) == ("axis", "coordinates"))]
    p = spec.Program({"max_record_length": 8192, "set_identifier": "SET"})
    r = spec.Runner(p)
    log, made = [], []      # made: (oid, kind, inside)

    def do(what, op, breach, warn=True):
        """One step. Returns True if it took effect."""
        on = rng.random() < 0.5
        log.append(f"{'in ' if on else 'out'} {what}{' !' if breach else ''}")
        ctx.count("cross_steps")
        try:
            with Capture() as cap:
                if not on:
                    r.step(op)
                elif rng.random() < 0.3:
                    decorated(lambda: r.step(op))()
                else:
                    with mode():
                        if rng.random() < 0.3:
                            with mode():
                                pass
                        r.step(op)
        except Exception as ex:
            if on and breach:
                ctx.count("refused_inside")
                ctx.count("cross_refused")
                return False
            raise Violation("cross.refused", f"{type(ex).__name__}: {ex}\n" + "\n".join(log)) from ex
        if on and breach:
            raise Violation("cross.accepted", "\n".join(log))
        if breach and warn:
            if not cap.seen:
                raise Violation("cross.no_warning", "\n".join(log))
            ctx.count("warned_outside")
        p.ops.append(op)
        return on

    r.make_file()
    import datetime
    r.t0 = datetime.datetime.now(datetime.timezone.utc)
    ids = iter(range(1, 10000))
    n_lf = rng.choice([1, 1, 2])
    lfs = []
    for i in range(n_lf):
        lfs.append(f"LF{i}")
        do("logical file", ("lf", lfs[-1], {"fh_id": lfs[-1]}), False)
        do("origin", ("add", lfs[-1], f"o{i}", "origin", "ORIGIN", {"set_name": lfs[-1]}), False)

    def add(lf, kind, breach=False, **kw):
        oid = f"x{next(ids)}"
        name = bad_text(rng) if breach else f"N{len(p.ops)}"
        n = len(p.ops)
        on = do(f"new {kind} {name!r}", ("add", lf, oid, kind, name, {"set_name": lf, **kw}), breach)
        if len(p.ops) == n:
            return None
        made.append((oid, kind, on))
        return Ref(oid)
    for lf in lfs:
        for _ in range(rng.randint(1, 2)):
            k = len(p.ops)
            c = add(lf, "channel", data=np.arange(3, dtype="u2"), dataset_name=f"d{k}")
            add(lf, "frame", channels=[c])
        for _ in range(rng.randint(1, 3)):
            add(lf, "equipment")
    for _ in range(rng.randint(6, 24)):
        bad = rng.random() < 0.5
        x = rng.random()
        if x < 0.2:
            k, a = rng.choice(able)
            lf = rng.choice(lfs)
            if k == "frame" or k == "file_header":
                continue
            y = rng.random()
            if y < 0.3:
                add(lf, k, breach=bad)
            else:
                v = gen.number(rng)
                u = some_unit(rng, e.Unit, bad)
                oid = f"x{next(ids)}"
                n = len(p.ops)
                on = do(f"new {k} with {a} in {u!r}", ("add", lf, oid, k, f"U{n}", {
                    "set_name": lf, a: Setup([v] if KINDS[k][2][a][2] else v, u, rng.random() < 0.5)}), bad)
                if len(p.ops) > n:
                    made.append((oid, k, on))
            continue
        oid, kind, on = rng.choice(made)
        if kind == "frame" and x < 0.6:
            what, cls = "index_type", e.FrameIndexType
        elif kind == "channel":
            what, cls = "units", e.Unit
        elif kind == "equipment" and x < 0.7:
            what, cls = rng.choice([("eq_type", e.EquipmentType), ("location", e.EquipmentLocation)])
        else:
            what, cls = None, e.Unit
        v = some_unit(rng, cls, bad)
        if what:
            if rng.random() < 0.5:
                op = ("set", oid, what, "value", v)
            else:
                op = ("setattrs", oid, {what: v if rng.random() < 0.5 else Setup(v)})
            do(f"{kind}.{what} = {v!r}", op, bad)
        else:
            params = [a for k, a in able if k == kind]
            if not params:
                continue
            a = rng.choice(params)
            num = gen.number(rng)
            num = [num] if KINDS[kind][2][a][2] else num
            if rng.random() < 0.5:
                if not any(op[0] == "set" and op[1] == oid and op[2] == a and op[3] == "value" for op in p.ops):
                    do(f"{kind}.{a} = {num!r}", ("set", oid, a, "value", num), False)
                do(f"{kind}.{a}.units = {v!r}", ("set", oid, a, "units", v), bad)
            else:
                n = len(p.ops)
                do(f"{kind}.{a} = {num!r} in {v!r}", ("setattrs", oid, {a: Setup(num, v, rng.random() < 0.5)}), bad)
                if len(p.ops) == n:     # the value may have been assigned before the units were refused
                    do(f"{kind}.{a} = {num!r}", ("set", oid, a, "value", num), False)
        probe(ctx, False, "; ".join(log), cheap=True) if rng.random() < 0.1 else None
    r.t1 = datetime.datetime.now(datetime.timezone.utc)
    ctx.count("executions")
    ctx.count("cross_files")
    ctx.sample("\n".join(log))
    path = ctx.path()
    try:
        r.write(path)
    except Exception as ex:
        raise Violation("cross.not_written", f"{type(ex).__name__}: {ex}\n" + "\n".join(log)) from ex
    r.t1 = datetime.datetime.now(datetime.timezone.utc)
    try:
        spec.compare(p, rp66.parse(work.read(path)), r.t0, r.t1)
    except Violation as v:
        raise Violation(v.mechanism, f"{v}\n" + "\n".join(log)) from v
    ctx.count("compared_outside")
    ctx.distinct(("cross", tuple(log)))


# ------------------------------------------------------------------ the mode itself

def tiny(kind):
    """A small complete file with one breach; raises if refused."""
    import dliswriter
    df = dliswriter.DLISFile()
    lf = df.add_logical_file(fh_id="bad id" if kind == "header" else "OK")
    lf.add_origin("o" if kind == "name" else "O", file_set_number=1)
    c = lf.add_channel("C", data=np.array([1, 2, 4 if kind == "spacing" else 3], dtype="i2" if kind == "signed" else "f8"),
                       units="furlong" if kind == "units" else "m")
    if kind == "unassigned":
        lf.add_channel("D")
    lf.add_frame("F", channels=[c], index_type="BOREHOLE-DEPTH")
    if kind == "equipment":
        lf.add_equipment("E", eq_type="Gadget")
    return df


BUILD_LEVEL = ["header", "name", "units", "equipment"]
WRITE_LEVEL = ["signed", "spacing", "unassigned"]


def probe(ctx, expected, where, cheap=False):
    """The mode as it acts; expected: True (on) or False."""
    rng = ctx.rng
    kinds = [rng.choice(BUILD_LEVEL)]
    if not cheap and rng.random() < 0.4:
        kinds.append(rng.choice(WRITE_LEVEL))
    for kind in kinds:
        path = ctx.path()
        try:
            df = tiny(kind)
            if kind in WRITE_LEVEL:
                df.write(path, output_chunk_size=20000)
            on = False
        except Exception:
            on = True
        finally:
            if os.path.exists(path):
                os.unlink(path)
        ctx.count("probes")
        if on != expected:
            raise Violation("mode.leak" if on else "mode.lost", f"{where}: the mode is {'on' if on else 'off'} (seen by {kind})")


class Thrown(Exception):
    pass


class ThrownBase(BaseException):
    pass


class History:
    def __init__(self, ctx):
        self.ctx, self.rng = ctx, ctx.rng
        self.log = []
        self.budget = ctx.rng.randint(3, 14)
        self.prepared = []

    def check(self, depth):
        probe(self.ctx, depth > 0, "; ".join(self.log))

    def maybe_throw(self):
        if self.rng.random() < 0.25:
            e = self.rng.choice([Thrown, ThrownBase, KeyboardInterrupt, SystemExit, StopIteration, GeneratorExit, ValueError,
                                 RuntimeError, StopAsyncIteration, MemoryError, OSError])
            self.log.append("throw " + e.__name__)
            raise e("thrown")

    def play(self, depth):
        rng = self.rng
        while self.budget > 0:
            self.budget -= 1
            r = rng.random()
            if r < 0.5 and depth < 5:
                self.enter(depth)
            elif r < 0.6:
                self.prepared.append(mode())
                self.log.append("prepare")
            elif r < 0.75:
                self.action(depth)
            elif r < 0.85 and depth:
                self.log.append("leave")
                self.maybe_throw()
                return
            else:
                self.log.append("-")
                self.maybe_throw() if depth else None
            self.check(depth)

    def body(self, depth):
        self.check(depth)
        self.play(depth)

    def enter(self, depth):
        rng = self.rng
        how = rng.choice(["with", "with", "decorator", "stack", "generator", "prepared", "manual"])
        self.log.append(f"enter {how} ({depth})")
        try:
            if how == "with":
                with mode():
                    self.body(depth + 1)
            elif how == "prepared" and self.prepared:
                cm = self.prepared.pop(rng.randrange(len(self.prepared)))
                with cm:
                    self.body(depth + 1)
            elif how == "decorator":
                decorated(self.body)(depth + 1)
            elif how == "stack":
                with contextlib.ExitStack() as st:
                    for _ in range(rng.randint(1, 3)):
                        st.enter_context(mode())
                    self.body(depth + 1)
            elif how == "generator":
                def g():
                    with mode():
                        yield 1
                        yield 2
                it = g()
                next(it)
                try:
                    self.body(depth + 1)
                finally:
                    if rng.random() < 0.5:
                        it.close()
                    else:
                        try:
                            it.throw(Thrown("into"))
                        except Thrown:
                            pass
            else:
                cm = mode()
                cm.__enter__()
                try:
                    self.body(depth + 1)
                except BaseException as e:
                    if not cm.__exit__(type(e), e, e.__traceback__):
                        raise
                else:
                    cm.__exit__(None, None, None)
        except (Violation, AssertionError):
            raise
        except BaseException as e:
            if type(e).__name__ == "CaseTimeout":
                raise
            if not (isinstance(e, RuntimeError) and "generator" in str(e)) and "thrown" not in str(e):
                raise
            self.log.append(f"caught {type(e).__name__} ({depth})")
            self.check(depth)
            if depth and rng.random() < 0.4:
                raise

    def action(self, depth):
        """A build or write, conforming or not, complete or not."""
        rng = self.rng
        kind = rng.choice(BUILD_LEVEL + WRITE_LEVEL + ["fine", "fine", "error", "reject"])
        self.log.append("do " + kind)
        path = self.ctx.path()
        breach = kind in BUILD_LEVEL + WRITE_LEVEL
        try:
            df = tiny(kind)
            if kind == "error":
                df.write(os.path.join(self.ctx.scratch, "no", "such", "directory"), output_chunk_size=20000)
            if kind == "reject":
                try:
                    next(iter(df.logical_files)).add_zone("Z", domain="NO")
                except Exception:
                    pass
            df.write(path, output_chunk_size=20000, from_idx=9 if kind == "error" else 0)
            ok = True
        except Exception:
            ok = False
        if kind in ("fine",) and not ok:
            raise Violation("mode.refused", f"{'; '.join(self.log)}: a conforming file was refused")
        if breach and ok != (depth == 0):
            raise Violation("mode.action", f"{'; '.join(self.log)}: a file with {kind} was {'written' if ok else 'refused'} "
                                           f"{'inside' if depth else 'outside'} the mode")
        self.ctx.count("actions")


def run_hist(ctx):
    h = History(ctx)
    ctx.count("executions")
    probe(ctx, False, "at the start")
    h.play(0)
    h.check(0)
    ctx.count("histories")
    ctx.distinct(tuple(h.log))


def run_case(case, ctx):
    if case[0] == "one":
        run_breach(ctx, [case[1]])
    elif case[0] == "multi":
        names = ctx.rng.sample(list(ASPECTS), ctx.rng.randint(2, 5))
        run_breach(ctx, names)
    elif case[0] == "valid":
        run_valid(ctx)
    elif case[0] == "hist":
        run_hist(ctx)
    elif case[0] == "cross":
        run_cross(ctx)
    else:
        run_fsn(ctx)
