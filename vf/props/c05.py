"""C05: what the user sets is what a reader gets."""
import math
import numpy as np
from datetime import datetime, timezone, timedelta

from .. import work, rp66, spec, gen
from ..spec import KINDS, Setup, UNITS_OK
from ..core import Violation
from .c04 import Base, REF_TARGET, CONSTRAINED, scalar

RULE = ("'attr': for each object type and attribute a file with ~20 objects carrying hostile values of its domain, through "
        "each assignment route (keyword, dict, AttrSetup, later .value/.units, set_attributes, reassignment); 'spec': "
        "random dense specifications. Each decoded attribute is compared with a model interpreting the same program. "
        "Distinct: (set type, attribute, value, units) assigned.")
MINIMUM = {"attributes": 50000, "assigned": 10000, "references": 2000}
ASSUMPTIONS = ["naive date-times denote local time of the process (time zone varied per case)",
               "number-like strings in generic-valued attributes and integers beyond 2**53 in float attributes are not "
               "exercised (documented conversions)"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["attr", k, x, r] for k in KINDS for x in KINDS[k][2] if (k, x) not in CONSTRAINED
             for r in range(3 if quick else 40)]
    cases += [["spec", i] for i in range(3500 if quick else 45000)]
    cases += [["dtime", i] for i in range(100 if quick else 3000)]
    cases += [["generic", i] for i in range(200 if quick else 3000)]
    cases += work.crowd_cases(quick, objects=3, nested=6, origins=1)
    return cases


TEXT_LENGTHS = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1000, 16383, 16384, 16385, 20000]
IDENT_LENGTHS = [1, 2, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 200, 253, 254, 255]


def long_text(rng, n, cs=None):
    cs = cs or rng.choice([gen.ASCII_ALL, gen.ASCII_PRINT])
    s = "".join(rng.choices(cs, k=min(n, 200)))
    return (s * (n // max(1, len(s)) + 1))[:n]


def hostile(b, kind, param):
    rng = b.rng
    label, vk, multi = KINDS[kind][2][param]
    r = rng.random()
    if vk == "text":
        return long_text(rng, rng.choice(TEXT_LENGTHS if r < 0.5 else [rng.randint(0, 400)]))
    if vk == "lname" and r < 0.6:
        return long_text(rng, rng.choice(TEXT_LENGTHS if r < 0.3 else [rng.randint(0, 400)]))
    if vk == "ident" and (kind, param) not in ENUMS:
        return long_text(rng, rng.choice(IDENT_LENGTHS if r < 0.5 else [rng.randint(1, 255)]))
    if (kind, param) in SOFT and r < 0.4:
        return long_text(rng, rng.choice(IDENT_LENGTHS), gen.ASCII_PRINT)
    if vk in ("num", "fdoubl"):
        if r < 0.5:
            return rng.choice([0, -0.0, 0.0, 1, True, math.nan, math.inf, -math.inf, 5e-324, -1.7976931348623157e308, 2 ** 53,
                               -2 ** 53, 0.1, 1 / 3, 16777217, 1e-310, 2 ** 31, 2 ** 32, 255, np.float32(0.1), np.int8(-128),
                               np.uint32(2 ** 32 - 1), np.float64("nan"), np.int64(-7), np.uint8(255), np.float16(0.5)])
        return gen.number(rng)
    if vk == "int":
        return rng.choice([0, 1, -1, 127, 128, -128, -129, 32767, 32768, 2 ** 31 - 1, -2 ** 31, 7.0, np.int16(-9),
                           np.float64(4.0), rng.randint(-2 ** 31, 2 ** 31 - 1)])
    if vk == "uvari":
        v = gen.uvari(rng)
        return rng.choice([v, v, float(v), np.int64(v)])
    if vk == "unorm":
        v = gen.uint(rng, 16)
        return rng.choice([v, v, float(v), np.uint16(v)])
    if vk == "dim":
        return gen.uvari(rng)
    return scalar(b, kind, param)


SOFT = {("equipment", "eq_type"), ("equipment", "location"), ("frame", "index_type"), ("channel", "units")}
ENUMS = SOFT | {("calibration_measurement", "phase"), ("zone", "domain"), ("process", "status")}


def value_for(b, kind, param):
    rng = b.rng
    label, vk, multi = KINDS[kind][2][param]
    if not multi:
        return hostile(b, kind, param)
    n = rng.choice([1, 1, 2, 3, rng.randint(1, 12), rng.choice([126, 127, 128, 129, 200, 300]) if rng.random() < 0.2 else 2])
    if vk == "dim":
        return [rng.randint(1, 5) for _ in range(min(n, 5))]
    vs = [hostile(b, kind, param) for _ in range(n)]
    if vk in ("text", "ident") and sum(len(x) for x in vs) > 10 ** 5:
        vs = vs[:2]
    if n == 1 and rng.random() < 0.4:
        return vs[0]
    return tuple(vs) if rng.random() < 0.2 else vs


def nothing(rng, kind, param):
    """An empty, zero or false value of the attribute's domain (None: there is none)."""
    label, vk, multi = KINDS[kind][2][param]
    if vk == "dim" or kind == "frame" and param == "channels" or (kind, param) in ENUMS - SOFT:
        return None
    if multi and rng.random() < 0.4:
        return rng.choice([[], (), []])
    if (kind, param) in REF_TARGET:
        return None
    v = {"text": "", "lname": "", "ident": "", "num": rng.choice([0, 0.0, -0.0, False, np.float64(0), np.int8(0)]),
         "fdoubl": rng.choice([0, 0.0, -0.0]), "int": rng.choice([0, 0.0, np.int16(0)]), "uvari": 0, "unorm": 0}.get(vk)
    if v is not None and multi and rng.random() < 0.5:
        return [v] * rng.choice([1, 2])
    return v


def run_attr(kind, param, ctx):
    rng = ctx.rng
    b = Base(ctx, mrl=rng.choice([8192, 16384, 256, 64, 20]))
    p = b.p
    label, vk, multi = KINDS[kind][2][param]
    if (kind, param) in REF_TARGET:
        tk = REF_TARGET[kind, param]
        targets = [b.target(tk)]
        if tk not in ("frame",):
            for i in range(3):
                kw = {"set_name": rng.choice(["TARGETS", "T2"])}
                if tk == "channel":
                    kw["data"] = np.arange(2, dtype="uint8")
                    kw["dataset_name"] = f"tt{i}"
                targets.append(p.add(b.lf, tk, rng.choice(["SAME", f"T{i}", "long-" * 40]), **kw))
    else:
        targets = None
    if vk == "lname":
        b.target("long_name")
    n_obj = {"frame": 6, "origin": 8}.get(kind, 20)
    before = []
    for i in range(n_obj):
        kw = {}
        if kind == "origin":
            kw = {"origin_reference": i + 1}
            if param != "file_set_number":
                kw["file_set_number"] = rng.randint(1, 10)
        if kind == "frame":
            kw["channels"] = [p.add(b.lf, "channel", f"X{i}", data=np.arange(2, dtype="uint16"))]
        if kind == "channel":
            kw["dataset_name"] = f"set{i}"
            if param not in ("dimension", "element_limit"):
                kw["data"] = np.arange(3, dtype="float32")
        if rng.random() < 0.3:
            kw["set_name"] = rng.choice(["S1", "Some other set", "w" * 200])
        nm = rng.choice(["OBJ", f"O-{i}", long_text(rng, rng.choice(IDENT_LENGTHS))])

        def value():
            if targets:
                v = [rng.choice(targets) for _ in range(rng.randint(1, 5) if multi else 1)]
                return v if multi and rng.random() < 0.9 else v[0]
            return value_for(b, kind, param)
        v = value()
        u = None
        if vk in UNITS_OK and vk != "dim" and rng.random() < 0.5:
            u = rng.choice([gen.unit(rng), long_text(rng, rng.choice(IDENT_LENGTHS), gen.ASCII_PRINT)])
        if before and rng.random() < 0.15:
            v, u = rng.choice(before)       # the caller may well pass the same object again
        before.append((v, u))
        route = rng.choice(["kw", "setup", "dict", "later", "setattrs", "again", "none"])
        if kind == "origin" and route in ("later", "setattrs", "again"):
            route = "kw"
        if route == "none":
            p.add(b.lf, kind, nm, **kw)
            continue
        if route in ("kw", "setup", "dict"):
            kw[param] = Setup(v, u, as_dict=route == "dict") if u or route != "kw" else v
            p.add(b.lf, kind, nm, **kw)
        else:
            if route == "again" or rng.random() < 0.4:
                kw[param] = value()
                w = nothing(rng, kind, param)
                if w is not None and rng.random() < 0.5:
                    v = w
                    u = None if isinstance(w, (list, tuple)) and not w else u
                    ctx.count("emptied")
            o = p.add(b.lf, kind, nm, **kw)
            if route == "setattrs":
                p.setattrs(o, **{param: Setup(v, u, rng.random() < 0.5) if u else v})
            else:
                if u and rng.random() < 0.5:
                    p.set(o, param, u, "units")
                    u = None
                p.set(o, param, v)
                if u:
                    p.set(o, param, u, "units")
                if rng.random() < 0.2 and not (kind == "channel" and param in ("dimension", "element_limit")):
                    v = value()
                    p.set(o, param, v)
        ctx.distinct((kind, label, repr(v)[:300], str(u)))
    return p


def run_dtime(ctx):
    rng = ctx.rng
    b = Base(ctx)
    p = b.p
    for i in range(15):
        y = rng.choice([1900, 1901, 1969, 1970, 2000, 2024, 2038, 2100, 2154, rng.randint(1901, 2154)])
        base = datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                        rng.randint(0, 59), rng.choice([0, 1, 499, 500, 501, 999, 1000, 999499, 999500, 999999,
                                                        rng.randint(0, 999999)]))
        if y == 1900:
            base = base.replace(month=rng.randint(2, 12))
        r = rng.random()
        if r < 0.3:
            # around daylight-saving transitions of the zones used
            base = rng.choice([datetime(2024, 3, 10, 2, 30), datetime(2024, 11, 3, 1, 30), datetime(2023, 10, 29, 2, 30),
                               datetime(2024, 3, 31, 1, 59, 59, 999999), datetime(2024, 12, 31, 23, 59, 59, 999500),
                               datetime(1999, 12, 31, 23, 59, 59, 999), datetime(2024, 2, 29, 23, 30)])
            base = base.replace(fold=rng.randint(0, 1))
        v = base
        if rng.random() < 0.5:
            v = v.replace(tzinfo=rng.choice(gen.TZS + [timezone(timedelta(hours=-12)), timezone(timedelta(seconds=3601))]))
        kind, param = rng.choice([("zone", "maximum"), ("zone", "minimum"), ("message", "time"),
                                  ("calibration_measurement", "begin_time"), ("origin", "creation_time")])
        kw = {"origin_reference": i + 1, "file_set_number": 1} if kind == "origin" else {}
        p.add(b.lf, kind, f"D{i}", **{param: v}, **kw)
        ctx.distinct((kind, param, v.isoformat(), ctx.zone))
    return p


def run_generic(ctx):
    """Parameters, computations and axes with values of all shapes, numpy scalars and mixtures."""
    rng = ctx.rng
    b = Base(ctx)
    p = b.p
    zones = [p.add(b.lf, "zone", f"Z{i}") for i in range(4)]
    for i in range(12):
        n = rng.choice([1, 1, 2, 3, 4])
        fam = rng.choice(["int", "float", "text", "mixed", "numpy", "numpy-float"])

        def leaf():
            if fam == "int":
                return rng.choice([0, 1, -1, 127, 128, 255, 256, 65535, 2 ** 31 - 1, -2 ** 31, rng.randint(-10 ** 6, 10 ** 6)])
            if fam == "float":
                return rng.choice([0.0, -0.0, 1.0, math.nan, math.inf, -math.inf, 5e-324, rng.uniform(-1, 1)])
            if fam == "text":
                return gen.generic_text(rng)
            if fam == "numpy":
                return np.dtype(np_int).type(rng.choice([0, 1, np.iinfo(np_int).max, np.iinfo(np_int).min]))
            if fam == "numpy-float":
                return np.dtype(np_f).type(rng.choice([0.5, -0.0, 1e30, math.inf]))
            return rng.choice([rng.randint(-100, 100), rng.uniform(-5, 5), -0.0, 3])
        np_int = rng.choice(["int8", "int16", "int32", "uint8", "uint16", "uint32"])
        np_f = rng.choice(["float32", "float64"])
        kind = rng.choice(["parameter", "parameter", "computation", "axis"])
        dims = [rng.randint(1, 3) for _ in range(rng.choice([0, 0, 1, 2]))]
        if kind != "computation":
            np_f = "float64"            # other numpy scalars are refused for generic values
            if fam == "numpy":
                fam = "int"
        if kind == "axis":
            v = [leaf() for _ in range(rng.choice([1, 2, 5, 130]))]
            u = gen.unit(rng) if rng.random() < 0.4 else None
            p.add(b.lf, "axis", f"A{i}", coordinates=Setup(v, u) if u else v)
            continue
        if kind == "computation" and fam == "text":
            fam = "float"
        v = gen.nested(rng, [n] + dims, leaf)
        kw = {"zones": zones[:n]} if n > 1 or dims or rng.random() < 0.5 else {}
        u = gen.unit(rng) if rng.random() < 0.4 else None
        kw["values"] = Setup(v, u, rng.random() < 0.5) if u else v
        if rng.random() < 0.3 and dims:
            kw["dimension"] = dims
        p.add(b.lf, kind, f"P{i}", **kw)
        ctx.distinct((kind, fam, np_int, repr(v)[:200]))
    return p


def run_case(case, ctx):
    kind = case[0]
    override, data = {}, None
    if kind == "attr":
        p = run_attr(case[1], case[2], ctx)
    elif kind == "dtime":
        p = run_dtime(ctx)
    elif kind == "generic":
        p = run_generic(ctx)
    elif kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
    else:
        p, override, data, g = work.generate(ctx, density=ctx.rng.choice([0.2, 0.5, 0.8]), long_lists=True,
                                             extra=(4, 20), rows=(1, 4))
        ctx.sample(p.describe(900))
        ctx.distinct(repr(p.ops))
    w = work.write_program(p, ctx, override, data)
    ctx.count("executions")
    res = work.compare(w)
    ctx.count("attributes", res.attrs)
    ctx.count("references", res.refs)
    ctx.count("objects", len(res.obj))
    ctx.count("assigned", sum(a.assigned for m in res.model.by_oid.values() for a in m.attrs.values()))
