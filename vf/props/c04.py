"""C04: every explicitly formatted record decodes under the RP66 component grammar."""
import numpy as np

from .. import work, rp66, spec, gen, standard
from ..spec import KINDS, Setup, UNITS_OK
from ..core import Violation

RULE = ("'matrix': for each object type, every attribute x multiplicity (empty, nested empty, 1, 2, 127, 128, 129, 300, "
        "nested) x route (keyword, AttrSetup/dict, later .value) x units x named set; 'subset': one type with random "
        "subsets of assigned attributes on 1..many objects in one set, values assigned and reset; 'many': sets of "
        "hundreds of objects; 'spec': random specifications. All explicitly formatted records go through the strict "
        "component parser and are matched with the objects specified. Distinct: (set type, attribute, count, code, units "
        "present) observed.")
MINIMUM = {"eflrs": 5000, "attributes": 50000, "absent": 1000}
ASSUMPTIONS = ["degenerate values (empty lists, values of the wrong multiplicity) may be rejected with an exception"]

ALL = [k for k in KINDS]
COUNTS = [0, 1, 2, 3, 127, 128, 129, 255, 256, 300]
LONG = [16382, 16383, 16384, 16385, 20000, 65535, 65536]      # the count takes two or four bytes


def plan(tier, seed):
    quick = tier == "quick"
    cases = []
    for kind in ALL:
        for param in KINDS[kind][2]:
            for rep in range(2 if quick else 25):
                cases.append(["matrix", kind, param, rep])
    cases += [["subset", k, i] for k in ALL for i in range(40 if quick else 500)]
    cases += [["many", k, i] for k in ALL for i in range(2 if quick else 12)]
    cases += [["long", i] for i in range(24 if quick else 400)]
    cases += [["spec", i] for i in range(1500 if quick else 20000)]
    cases += work.crowd_cases(quick, objects=3, sets=2, origins=1, channels=1)
    return cases


class Base:
    """A minimal valid logical file with one target object of each kind that may be referenced."""

    def __init__(self, ctx, mrl=None):
        self.rng = ctx.rng
        self.p = p = spec.Program({"max_record_length": mrl or self.rng.choice([8192, 16384, 128, 20])})
        self.lf = lf = p.lf()
        p.add(lf, "origin", "ORIGIN", file_set_number=1)
        self.ch = p.add(lf, "channel", "CH", data=np.arange(3, dtype="float32"))
        self.fr = p.add(lf, "frame", "FR", channels=[self.ch])
        self.t = {"channel": self.ch, "frame": self.fr}

    def target(self, kind):
        if kind not in self.t:
            self.t[kind] = self.p.add(self.lf, kind, "T-" + kind[:6], set_name="TARGETS")
        return self.t[kind]


REF_TARGET = {
    ("calibration", "calibrated_channels"): "channel", ("calibration", "uncalibrated_channels"): "channel",
    ("calibration", "coefficients"): "calibration_coefficient", ("calibration", "measurements"):
    "calibration_measurement", ("calibration", "parameters"): "parameter",
    ("calibration_measurement", "measurement_source"): "channel", ("calibration_measurement", "axis"): "axis",
    ("channel", "axis"): "axis", ("channel", "source"): "tool", ("computation", "axis"): "axis",
    ("computation", "zones"): "zone", ("computation", "source"): "tool", ("frame", "channels"): "channel",
    ("group", "object_list"): "zone", ("group", "group_list"): "group", ("parameter", "axis"): "axis",
    ("parameter", "zones"): "zone", ("path", "frame_type"): "frame", ("path", "well_reference_point"):
    "well_reference_point", ("path", "value"): "channel", ("process", "input_channels"): "channel",
    ("process", "output_channels"): "channel", ("process", "input_computations"): "computation",
    ("process", "output_computations"): "computation", ("process", "parameters"): "parameter",
    ("splice", "output_channel"): "channel", ("splice", "input_channels"): "channel", ("splice", "zones"): "zone",
    ("tool", "parts"): "equipment", ("tool", "channels"): "channel", ("tool", "parameters"): "parameter",
}


def scalar(b, kind, param):
    rng = b.rng
    label, vk, multi = KINDS[kind][2][param]
    e = gen.enums()
    special = {("calibration_measurement", "phase"): e.CalibrationMeasurementPhase, ("zone", "domain"): e.ZoneDomain,
               ("process", "status"): e.ProcessStatus, ("equipment", "eq_type"): e.EquipmentType,
               ("equipment", "location"): e.EquipmentLocation, ("channel", "units"): e.Unit,
               ("frame", "index_type"): e.FrameIndexType}
    if (kind, param) in special:
        return standard.pick(rng, special[kind, param])
    if vk == "text":
        return gen.text(rng, 20)
    if vk == "ident":
        return gen.ident(rng)
    if vk == "props":
        return standard.pick(rng, e.Property)
    if vk in ("num", "fdoubl"):
        return gen.number(rng)
    if vk in ("int", "dim"):
        return rng.randint(1, 6)
    if vk == "uvari":
        return gen.uvari(rng)
    if vk == "unorm":
        return gen.uint(rng, 16)
    if vk == "ushort":
        return rng.choice([0, 1])
    if vk == "status":
        return rng.choice([0, 1])
    if vk == "dtime":
        return gen.dtime(rng)
    if vk == "dtimef":
        return gen.dtime(rng) if rng.random() < 0.5 else 2.5
    if vk == "generic":
        return rng.choice([1, -5, 70000])
    if vk == "lname":
        return b.target("long_name") if rng.random() < 0.5 else gen.text(rng, 20)
    if vk in ("obname", "objref"):
        return b.target(REF_TARGET[kind, param])
    raise ValueError(vk)


def multi_value(b, kind, param, n):
    """n values for the attribute; homogeneous where the code needs it."""
    label, vk, multi = KINDS[kind][2][param]
    if n == 0:
        return b.rng.choice([[], (), [[]], [[], []]])
    if vk == "generic":
        k = b.rng.randrange(3)
        vs = [[b.rng.randint(-9, 9), gen.generic_text(b.rng), b.rng.uniform(-1, 1)][k] for _ in range(n)]
        return vs
    return [scalar(b, kind, param) for _ in range(n)]


def run_matrix(kind, param, rep, ctx):
    """Many objects of the kind in a few sets, one attribute each, of all multiplicities."""
    b = Base(ctx)
    rng = b.rng
    label, vk, multi = KINDS[kind][2][param]
    odd = False          # of a multiplicity which may be rejected
    if multi:
        n = COUNTS[rep % len(COUNTS)] if rep < len(COUNTS) and rng.random() < 0.7 else rng.choice(COUNTS)
        v = multi_value(b, kind, param, n)
        odd = n == 0
        r = rng.random()
        if n and r < 0.2 and vk in ("num", "generic"):
            leaf = v[0]
            v = gen.nested(rng, [rng.randint(1, 3), rng.randint(1, 3)], lambda: leaf)
            odd = True
        elif n == 1 and r < 0.6:
            v = v[0]
        elif n and r < 0.4:
            v = tuple(v)
    else:
        v = scalar(b, kind, param)
        n = 1
        if rng.random() < 0.1:
            v = rng.choice([[], [v], [[v]], (v,)])
            odd = True
    kw = {}
    if rng.random() < 0.4:
        kw["set_name"] = rng.choice(["S", "set 1", "Q" * 255, " lead", "trail ", " ", "S\n"])
    if kind in ("origin",):
        kw.setdefault("file_set_number", 5)
        kw["origin_reference"] = rng.randint(1, 500)
    if kind == "frame" and param != "channels":
        kw["channels"] = [b.p.add(b.lf, "channel", "CF", data=np.arange(3, dtype="float32"))]
    if kind == "channel":
        kw["data"] = np.zeros((2, 3), dtype="int16")
    units = None
    if vk in UNITS_OK and rng.random() < 0.5 and not (kind == "channel" and param in ("dimension", "element_limit")) \
            and vk != "dim":
        units = gen.unit(rng)
    setup = Setup(v, units, as_dict=rng.random() < 0.5) if units or rng.random() < 0.3 else v
    route = rng.choice(["kw", "kw", "later"]) if (kind, param) != ("frame", "channels") and kind != "origin" else "kw"
    if route == "kw":
        kw[param] = setup
    b.p.add(b.lf, kind, "OTHER", **{k: x for k, x in kw.items() if k != param or kind == "frame"},
            **({"dataset_name": "other"} if kind == "channel" else {})) if kind not in ("origin", "frame") else None
    o = b.p.add(b.lf, kind, "OBJ", **kw)
    if route == "later":
        b.p.set(o, param, v)
        if units:
            b.p.set(o, param, units, "units")
    return b.p, odd or vk == "dim" or (kind, param) in CONSTRAINED


def run_subset(kind, ctx):
    b = Base(ctx)
    rng, p = b.rng, b.p
    plain = [x for x, (lab, vk, m) in KINDS[kind][2].items() if vk not in ("dim", "generic")
             and (kind, x) not in CONSTRAINED]
    for t in {REF_TARGET[kind, x] for x in plain if (kind, x) in REF_TARGET}:
        b.target(t)
    b.target("long_name")
    objs = []
    sets = rng.choice([[None], [None], ["A"], [None, "A"], ["A", "B" * 200], ["A", "A ", " A", "a"]])
    dens = rng.choice([0.0, 0.1, 0.5, 1.0])
    for i in range(rng.choice([1, 2, 3, 10])):
        kw = {}
        for x in plain:
            if rng.random() < dens:
                lab, vk, multi = KINDS[kind][2][x]
                v = [scalar(b, kind, x) for _ in range(rng.randint(1, 3))] if multi else scalar(b, kind, x)
                if multi and rng.random() < 0.05:
                    v = []
                u = gen.unit(rng) if vk in UNITS_OK and rng.random() < 0.4 else None
                kw[x] = Setup(v, u, rng.random() < 0.5) if u else v
        s = rng.choice(sets)
        if s:
            kw["set_name"] = s
        if kind == "origin":
            kw["origin_reference"] = i + 1
        if kind == "frame":
            kw["channels"] = [p.add(b.lf, "channel", f"X{i}", data=np.arange(2, dtype="uint16"))]
        o = p.add(b.lf, kind, rng.choice(["OBJ", f"O{i}"]), **kw)
        objs.append((o, kw))
    # values set and reset later
    for o, kw in objs:
        if kind in ("frame", "origin"):
            continue
        for x in list(kw):
            if x in plain and rng.random() < 0.1:
                p.set(o, x, None)
                if rng.random() < 0.5:
                    p.set(o, x, scalar(b, kind, x) if not KINDS[kind][2][x][2] else [scalar(b, kind, x)])
    return p


# attributes whose values must agree with other attributes of the object
CONSTRAINED = {("parameter", "values"), ("parameter", "zones"), ("computation", "values"), ("computation", "zones"),
               ("splice", "zones"), ("splice", "input_channels"), ("calibration_measurement", "axis"),
               ("calibration_measurement", "maximum_deviation"), ("calibration_measurement", "standard_deviation"),
               ("calibration_measurement", "standard"), ("calibration_measurement", "plus_tolerance"),
               ("calibration_measurement", "minus_tolerance"), ("calibration_measurement", "measurement"),
               ("calibration_measurement", "reference"), ("computation", "axis"), ("parameter", "axis"),
               ("channel", "axis"), ("zone", "maximum"), ("zone", "minimum"), ("frame", "channels"),
               ("frame", "index_type"), ("calibration_coefficient", "coefficients"),
               ("calibration_coefficient", "references"), ("calibration_coefficient", "plus_tolerances"),
               ("calibration_coefficient", "minus_tolerances")}


def run_many(kind, ctx):
    b = Base(ctx)
    rng, p = b.rng, b.p
    plain = [x for x, (lab, vk, m) in KINDS[kind][2].items() if vk in ("text", "ident") and not m
             and x not in ("status", "phase", "domain", "eq_type", "location", "units", "index_type")]
    n = rng.choice([127, 128, 129, 200, 255])
    if kind == "frame":
        n = 20
    for i in range(n):
        kw = {x: "v" * rng.randint(1, 5) for x in plain if rng.random() < 0.3}
        if kind == "origin":
            kw["origin_reference"] = i + 1
            kw["file_set_number"] = 3
        if kind == "frame":
            kw["channels"] = [p.add(b.lf, "channel", f"X{i}", data=np.arange(2, dtype="uint16"))]
        p.add(b.lf, kind, "SAME" if rng.random() < 0.5 else f"O{i}", **kw)
    return p


def run_long(i, ctx):
    """Values so many that their count takes four bytes, next to attributes of few values."""
    b = Base(ctx, mrl=16384)
    rng, p = b.rng, b.p
    every = [(k, x, vk) for k in KINDS for x, (lab, vk, m) in KINDS[k][2].items()
             if m and (k, x) not in CONSTRAINED and vk not in ("dim", "props", "dtime", "dtimef") and k not in ("channel", "origin")]
    for _ in range(2):
        kind, param, vk = rng.choice(every)
        few = [scalar(b, kind, param) for _ in range(rng.randint(1, 40))] if vk != "generic" else multi_value(b, kind, param, 30)
        each = sum(len(x) if isinstance(x, str) else 4 if isinstance(x, int) else 8 if isinstance(x, float) else 25
                   for x in few) / len(few)
        n = rng.choice([x for x in LONG if x * each <= 300_000] or LONG[1:3])     # the writer is quadratic in the bytes
        v = (few * (n // len(few) + 1))[:n]
        kw = {"set_name": "LONG"} if rng.random() < 0.5 else {}
        if kind == "frame":
            kw["channels"] = [p.add(b.lf, "channel", f"CF{len(p.ops)}", data=np.arange(3, dtype="float32"))]
        u = gen.unit(rng) if vk in UNITS_OK and rng.random() < 0.5 else None
        p.add(b.lf, kind, f"L{n}", **kw, **{param: Setup(v, u, rng.random() < 0.5) if u else v})
        ctx.count("long_values", n)
    return p


def observe(w, ctx):
    for lf in w.dlis.files:
        keys = set()
        for es in lf.sets:
            ctx.count("eflrs")
            if (es.type, es.name or None) in keys:
                raise Violation("set.duplicate", f"two sets {(es.type, es.name)}")
            keys.add((es.type, es.name or None))
            for o in es.objects:
                ctx.count("objects")
                for lab, a in o.attrs.items():
                    ctx.count("attributes")
                    if a.absent:
                        ctx.count("absent")
                    else:
                        ctx.distinct((es.type, lab, a.count, a.rc, bool(a.units)))
                        if a.count != len(a.values):
                            raise Violation("count", f"{o!r} {lab}: count {a.count}, {len(a.values)} values")


def run_case(case, ctx):
    kind = case[0]
    override, data = {}, None
    degenerate = False
    if kind == "matrix":
        p, degenerate = run_matrix(case[1], case[2], case[3], ctx)
    elif kind == "subset":
        p = run_subset(case[1], ctx)
        ctx.sample(p.describe(700))
    elif kind == "many":
        p = run_many(case[1], ctx)
    elif kind == "long":
        p = run_long(case[1], ctx)
    elif kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
    else:
        p, override, data, g = work.generate(ctx, density=ctx.rng.choice([0.1, 0.5, 0.9]), long_lists=True,
                                             extra=(3, 20), rows=(1, 3), frames=(1, 2), channels=(1, 2))
    try:
        w = work.write_program(p, ctx, override, data, parse=False)
    except Exception:
        if degenerate:
            ctx.count("rejected")
            return
        raise
    ctx.count("executions")
    w.dlis = rp66.parse(w.raw)
    observe(w, ctx)
    work.compare(w)
