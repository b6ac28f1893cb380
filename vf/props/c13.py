"""C13: frame index metadata is truthful for the rows written."""
import math
from fractions import Fraction
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import RC_NP
from ..core import Violation

RULE = ("'index': index channels of every dtype, byte order and layout x patterns (uniform with steps up to the full range of "
        "the type, decreasing, constant, plateaus, zigzag, random, nearly uniform with relative deviations from 1e-9 to 0.3, "
        "single row, NaN, infinities, sums of 0.1) x casts x windows x chunk sizes x index type present or not x values "
        "supplied by the user or not x 4 sources; 'seq': up to 6 writes of one DLISFile with other data, windows, casts, "
        "index types, user values assigned in between, after failed writes; 'long': up to 150000 rows, "
        "regular except at one place; 'spec': random specifications. The expected "
        "values are recomputed in exact arithmetic from the rows decoded from the same file. Distinct: (dtype, pattern, "
        "outcome: spacing/direction present, user-supplied, window, number of the write).")
MINIMUM = {"frames": 8000, "indexed": 5000, "spacing_present": 1000, "direction_present": 1000, "neither": 300,
           "user_supplied": 1000, "rewrites": 1500}
ASSUMPTIONS = ["deviations of the differences between 3.1 % and 3.2 % of their median may be taken as uniform or not",
               "INDEX-MIN/MAX of an index containing NaN may be NaN or the bound of the other values"]
SIZE = {12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4, 2: 4, 7: 8}


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["index", i] for i in range(5200 if quick else 80000)]
    cases += [["seq", i] for i in range(1100 if quick else 16000)]
    cases += [["spec", i] for i in range(400 if quick else 6000)]
    cases += [["flat", i] for i in range(120 if quick else 1500)]
    cases += [["long", 20000 if i % 4 == 0 else 6000, i] for i in range(160 if quick else 2500)]
    if not quick:
        cases += [["long", 150000, i] for i in range(40)]
    cases += [["tol", d, i] for d in gen.DTYPES for i in range(20 if quick else 300)]
    cases += work.crowd_cases(quick, frames=2, rows=2)
    return cases


# ------------------------------------------------------------------ oracle

def index_rows(lf, fr, chans):
    """Values of the first channel of a frame in the rows decoded from the file, and their number."""
    ref = fr.attrs["CHANNELS"].values[0]
    a = chans[ref].attrs
    rc = a["REPRESENTATION-CODE"].values[0]
    n = 1
    for d in a["DIMENSION"].values:
        n *= d
    rows = [rp66.split_fdata(f)[1][:n * SIZE[rc]] for f in lf.iflrs if f.type == 0 and f.ref == fr.obname]
    v = np.frombuffer(b"".join(rows), dtype=RC_NP[rc]).reshape(len(rows), n)
    return v, RC_NP[rc]


def one_number(a, where):
    if a.rc not in rp66.NUMERIC or len(a.values) != 1 or isinstance(a.values[0], tuple):
        raise Violation("index.class", f"{where}: {a!r}")
    return a.values[0]


def exact(x):
    return Fraction(x) if math.isfinite(x) else None


def expectation(v):
    """(spacing, direction) allowed: spacing: None (must be absent) or (low, high, required); direction: set of allowed."""
    n = len(v)
    if n < 2:
        return None, {None}
    vals = [x.item() for x in v]
    if any(isinstance(x, float) and math.isnan(x) for x in vals):
        rest = [x for x in vals if not math.isnan(x)]
        return None, {None} | {d for d in [sense(rest)[0]] if d}
    d, strict = sense(vals)
    direction = {d}
    if any(isinstance(x, float) and math.isinf(x) for x in vals):
        return None, direction if strict else direction | {None}
    diffs = [Fraction(b) - Fraction(a) for a, b in zip(vals, vals[1:])]
    lo, hi = min(diffs), max(diffs)
    if lo == hi == 0:
        return (0, 0, True), {None}
    big = 3e38 if v.dtype.itemsize == 4 and v.dtype.kind == "f" else 1.7e308
    s = sorted(diffs)
    med = (s[(n - 2) // 2] + s[(n - 1) // 2]) / 2
    if med == 0:
        return None, direction
    dev = max(abs(1 - lo / med), abs(1 - hi / med))
    rel = Fraction(1, 10 ** 6) if v.dtype.kind == "f" and v.dtype.itemsize == 4 else Fraction(1, 10 ** 14)
    fuzzy = Fraction(3160, 10 ** 5) < dev < Fraction(3165, 10 ** 5)     # deviations whose squares are below 0.001
    unsafe = max(abs(lo), abs(hi)) > big
    if dev >= Fraction(3165, 10 ** 5):
        return None, direction
    slack = abs(med) * rel + Fraction(1, 10 ** 320) * (1 if abs(med) < Fraction(1, 10 ** 300) else 0)
    low, high = lo - slack, hi + slack
    d2 = {None, d}
    return (low, high, not fuzzy and not unsafe), d2


def several(a, v, user, where):
    """An index of several elements per row, where one is written at all: the bounds over all of them, one spacing of all."""
    for lab, f in (("INDEX-MIN", min), ("INDEX-MAX", max)):
        if lab not in user:
            got = None if a[lab].absent else one_number(a[lab], where)
            if got != f(v.ravel().tolist()):
                raise Violation("index." + lab.lower(), f"{where}: {lab} {got!r}, rows {v[:4].tolist()!r}")
    if "SPACING" not in user and not a["SPACING"].absent:
        got = one_number(a["SPACING"], where)
        for j in range(v.shape[1]):
            spacing = expectation(v[:, j])[0]
            if spacing is None or not spacing[0] <= Fraction(got) <= spacing[1]:
                raise Violation("spacing.present", f"{where}: {got!r}, rows {v[:4].tolist()!r}")


def sense(vals):
    up = all(b >= a for a, b in zip(vals, vals[1:]))
    down = all(b <= a for a, b in zip(vals, vals[1:]))
    if len(vals) < 2 or up == down:
        return None, True
    strict = all(a != b for a, b in zip(vals, vals[1:]))
    return ("INCREASING" if up else "DECREASING"), strict


def monitor(w, ctx, tag=()):
    """Compare every frame of a written file with its own rows. w.program gives what the user supplied."""
    res = spec.compare(w.program, w.dlis, data=w.data, what=("objects",))
    for mf in res.model.files:
        lf = res.lf[mf.lfid]
        chans = {o.obname: o for es in lf.sets if es.type == "CHANNEL" for o in es.objects}
        for m in mf.of("frame"):
            fr = res.obj[m.oid]
            where = f"{mf.lfid} frame {m.name!r}"
            a = fr.attrs
            v, dt = index_rows(lf, fr, chans)
            n = len(v)
            ctx.count("frames")
            user = {}
            for lab in ("INDEX-MIN", "INDEX-MAX", "SPACING", "DIRECTION"):
                ma = m.attrs[lab]
                if ma.assigned and ma.value is not None:
                    user[lab] = ma
                    ctx.count("user_supplied")
                    if a[lab].absent:
                        raise Violation("user.absent", f"{where}: {lab} {ma.value!r} is absent")
                    spec.check_value(a[lab], "ident" if lab == "DIRECTION" else "num", ma.value, res.ident, f"{where} {lab}")
                if ma.units is not None and not a[lab].absent and (a[lab].units or None) != spec.unit_text(ma.units):
                    raise Violation("user.units", f"{where}: {lab} units {a[lab].units!r}, supplied {ma.units!r}")
                if ma.units is None and m.attrs["INDEX-TYPE"].value is not None and lab in ("INDEX-MIN", "INDEX-MAX") \
                        and not ma.assigned and a[lab].units:
                    # a bound in other units than those of the channel it is taken from would be another bound
                    own = chans[a["CHANNELS"].values[0]].attrs["UNITS"]
                    if own.absent or own.values != [a[lab].units]:
                        raise Violation("index.units", f"{where}: {lab} in {a[lab].units!r}, index channel in {own!r}")
            indexed = not a["INDEX-TYPE"].absent
            if indexed != (m.attrs["INDEX-TYPE"].value is not None):
                raise Violation("index.type", f"{where}: INDEX-TYPE {a['INDEX-TYPE']!r}")
            if not indexed:
                for lab, want in (("INDEX-MIN", 1), ("INDEX-MAX", n)):
                    if lab not in user and (a[lab].absent or one_number(a[lab], where) != want):
                        raise Violation("rownumber." + lab.lower(), f"{where}: {lab} {a[lab]!r} for {n} rows")
                if "SPACING" not in user and not a["SPACING"].absent and one_number(a["SPACING"], where) != 1:
                    raise Violation("rownumber.spacing", f"{where}: {a['SPACING']!r}")
                if "DIRECTION" not in user and not a["DIRECTION"].absent and a["DIRECTION"].values != ["INCREASING"]:
                    raise Violation("rownumber.direction", f"{where}: {a['DIRECTION']!r}")
                ctx.distinct((dt, "rows", tuple(sorted(user)), *tag))
                continue
            ctx.count("indexed")
            if v.shape[1] != 1:
                several(a, v, user, where)
                ctx.count("index_of_several_elements")
                continue
            v = v[:, 0]
            vals = [x.item() for x in v]
            nan = [x for x in vals if x != x]
            fin = [x for x in vals if x == x]
            for lab, f in (("INDEX-MIN", min), ("INDEX-MAX", max)):
                if lab in user:
                    continue
                if a[lab].absent:
                    raise Violation("index." + lab.lower(), f"{where}: {lab} absent for {vals[:6]}")
                got = one_number(a[lab], where)
                if nan and got != got:
                    continue
                if not fin or got != f(fin):
                    raise Violation("index." + lab.lower(), f"{where}: {lab} {got!r}, rows {vals[:8]!r} of {n} ({dt})")
            spacing, direction = expectation(v)
            got_s = got_d = None
            if not a["SPACING"].absent:
                got_s = one_number(a["SPACING"], where)
            if not a["DIRECTION"].absent:
                got_d = a["DIRECTION"].values[0] if len(a["DIRECTION"].values) == 1 else a["DIRECTION"].values
            show = f"{where}: SPACING {got_s!r}, DIRECTION {got_d!r} for {vals[:8]!r} of {n} ({dt})"
            if "SPACING" not in user:
                if got_s is None:
                    ctx.count("spacing_absent")
                    if spacing is not None and spacing[2]:
                        raise Violation("spacing.absent", show)
                else:
                    ctx.count("spacing_present")
                    if spacing is None:
                        raise Violation("spacing.present", show)
                    if not math.isfinite(got_s) or not spacing[0] <= Fraction(got_s) <= spacing[1]:
                        raise Violation("spacing.value", f"{show}; expected within [{float(spacing[0])}, {float(spacing[1])}]")
            if "DIRECTION" not in user:
                if got_d is None:
                    if None not in direction and (spacing is None or got_s is None) and not ("SPACING" in user and spacing):
                        raise Violation("direction.absent", show)
                    if got_s is None:
                        ctx.count("neither")
                else:
                    ctx.count("direction_present")
                    if got_d not in direction:
                        raise Violation("direction.value", show)
            ctx.distinct((dt, got_s is None, got_d, tuple(sorted(user)), spacing is None, min(n, 4), *tag))
    return res


# ------------------------------------------------------------------ index patterns

def limits(dt):
    d = np.dtype(dt)
    if d.kind == "f":
        return (-1e30, 1e30) if d.itemsize == 4 else (-1e200, 1e200)
    i = np.iinfo(d)
    return int(i.min), int(i.max)


def pattern(rng, dt, n, which=None):
    """(name, array of n values of the dtype)"""
    d = np.dtype(dt)
    lo, hi = limits(dt)
    which = which or rng.choice(["uniform", "uniform", "wide", "down", "constant", "plateau", "zigzag", "random", "sorted",
                                 "reversed", "near", "near", "steps", "odd_one", "extremes"] +
                                (["sum", "nan", "inf", "linspace", "tiny", "negzero", "epsilon"] if d.kind == "f" else []))
    k = max(1, n - 1)
    if d.kind in "iu":
        if which == "uniform":
            step = rng.choice([1, 1, 2, 3, 5, 10])
            step = max(1, min(step, (hi - lo) // k))
            start = rng.randint(lo, hi - step * (n - 1)) if hi - step * (n - 1) >= lo else None
            a = [start + step * i for i in range(n)] if start is not None else [lo + i * ((hi - lo) // k) for i in range(n)]
        elif which == "wide":
            step = (hi - lo) // k
            a = [lo + step * i for i in range(n)]
            if rng.random() < 0.5:
                a.reverse()
        elif which == "down":
            step = max(1, min(rng.choice([1, 2, 7, 100]), (hi - lo) // k))
            top = rng.choice([hi, min(hi, lo + step * (n - 1)), rng.randint(min(hi, lo + step * (n - 1)), hi)])
            a = [max(lo, top - step * i) for i in range(n)]
        elif which == "constant":
            a = [rng.choice([lo, hi, 0, rng.randint(lo, hi)])] * n
        elif which == "near":
            step = max(2, (hi - lo) // (k * rng.choice([1, 2, 50]) + 1))
            amp = rng.choice([1, 1, 2, max(1, step // 100), max(1, step // 30), max(1, step // 10)])
            a = [min(hi, max(lo, lo + step * i + rng.randint(-amp, amp))) for i in range(n)]
            if rng.random() < 0.5:
                a.reverse()
        elif which == "extremes":
            a = [rng.choice([lo, hi, lo + 1, hi - 1]) for _ in range(n)]
        else:
            a = generic(rng, which, n, lambda: rng.randint(lo, hi) if rng.random() < 0.5 else rng.randint(max(lo, -9), min(hi, 9)))
        return which, np.array(a, dtype=object).astype(dt)
    if which in ("uniform", "wide", "down"):
        step = rng.choice([1.0, 0.5, 0.1, 0.1524, 1e-3, 1e6, 3.0, 2 ** -20])
        if which == "wide":
            step *= 10.0 ** rng.randint(0, 25)
        if which == "down" or rng.random() < 0.2:
            step = -step
        a = rng.choice([0.0, 1000.0, -50.25, 1e5, rng.uniform(-100, 100)]) + step * np.arange(n)
    elif which == "linspace":
        a = np.linspace(rng.uniform(-10, 10), rng.uniform(10, 1000), n)
    elif which == "sum":
        a = np.cumsum(np.full(n, np.dtype(dt).type(rng.choice([0.1, -0.1, 0.3, 1e-3])), dtype=dt))
    elif which == "tiny":
        a = np.arange(n) * rng.choice([5e-324, 1e-310, 1e-45, 1e-40, -1e-44])
    elif which == "negzero":
        a = np.array([rng.choice([0.0, -0.0]) for _ in range(n)])
    elif which == "epsilon":
        base = rng.choice([1.0, 1e7, 1e-7, -3.0])
        a = np.array([base * (1 + i * np.finfo(dt).eps) for i in range(n)])
    elif which == "constant":
        a = np.full(n, rng.choice([0.0, 1.5, -1e20]))
    elif which == "near":
        step = rng.choice([1.0, 0.1, -1.0, -0.25, 1e4])
        amp = 10.0 ** rng.uniform(-9, -0.5)
        a = rng.choice([0.0, 500.0]) + step * (np.arange(n) + np.array([rng.uniform(-amp, amp) for _ in range(n)]))
    elif which in ("nan", "inf"):
        a = rng.choice([1.0, -1.0]) * np.arange(n, dtype="f8")
        if rng.random() < 0.3:
            a = a[::-1].copy()
        for _ in range(rng.randint(1, 2)):
            a[rng.choice([0, n - 1, rng.randrange(n)])] = math.nan if which == "nan" else rng.choice([math.inf, -math.inf])
    elif which == "extremes":
        a = np.array([rng.choice([np.finfo(dt).max, -np.finfo(dt).max, 0.0]) for _ in range(n)])
    else:
        a = np.array(generic(rng, which, n, lambda: rng.uniform(-100, 100) if rng.random() < 0.8 else float(rng.randint(-3, 3))),
                     dtype="f8")
    with np.errstate(all="ignore"):
        return which, np.asarray(a).astype(dt)


def generic(rng, which, n, draw):
    a = [draw() for _ in range(n)]
    if which in ("sorted", "plateau", "steps"):
        a.sort()
    if which == "reversed":
        a.sort(reverse=True)
    if which == "plateau":
        for i in range(1, n):
            if rng.random() < 0.4:
                a[i] = a[i - 1]
        if rng.random() < 0.5:
            a.reverse()
    if which == "zigzag":
        a = [a[0] if i % 2 else a[-1] for i in range(n)]
    if which == "odd_one":
        a = sorted(a)
        if n > 2:
            i = rng.randrange(1, n)
            a[i], a[i - 1] = a[i - 1], a[i]
    return a


def n_rows(rng):
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12, rng.randint(2, 30), rng.randint(2, 30)] + ([200] if rng.random() < .05 else []))


def user_values(rng, p_each=0.15):
    kw = {}
    for k in ("index_min", "index_max", "spacing"):
        if rng.random() < p_each:
            kw[k] = gen.number(rng) if rng.random() < 0.7 else rng.choice([0, 0.0, 1, -1])
            if rng.random() < 0.3:
                kw[k] = spec.Setup(kw[k], rng.choice(["m", "ft", "s"]))
    if rng.random() < p_each:
        kw["direction"] = rng.choice(["INCREASING", "DECREASING", "SIDEWAYS"])
    return kw


def cast_for(rng, dt, arr):
    c = rng.choice(gen.DTYPES)
    if arr.dtype.kind == "f" and np.dtype(c).kind in "iu":
        with np.errstate(all="ignore"):
            lo, hi = np.iinfo(c).min, np.iinfo(c).max
            f = arr.astype("f8")
            if not np.isfinite(f).all() or (np.trunc(f) < lo).any() or (np.trunc(f) > hi).any():
                return None
    return np.dtype(c) if rng.random() < 0.5 else getattr(np, c)


def make_frame(rng, p, lf, tag, n, inline=True, cols=None, shared=None):
    """A frame with an index of some pattern. Returns (frame ref, pattern name)."""
    dt = rng.choice(gen.DTYPES)
    which, arr = pattern(rng, dt, n)
    if rng.random() < 0.3 and arr.dtype.itemsize > 1:
        arr = arr.astype(arr.dtype.newbyteorder(">"))
    arr = gen.relayout(rng, arr)
    kw = {}
    if rng.random() < 0.2:
        c = cast_for(rng, dt, arr)
        if c is not None:
            kw["cast_dtype"] = c
    if rng.random() < 0.5:
        kw["units"] = rng.choice(["m", "ft", "s"])
    chans = []
    indexed = rng.random() < 0.8
    if not indexed and rng.random() < 0.4:
        arr = gen.array(rng, dt, (n, rng.randint(1, 4)), special=False)
        kw.pop("cast_dtype", None)

    def add(name, a, **k):
        if inline:
            return p.add(lf, "channel", name, data=a, **k)
        cols[name] = a
        return p.add(lf, "channel", name, dataset_name=name, **k)
    if shared and rng.random() < 0.3 and shared[1] == n and indexed:
        chans.append(shared[0])
    else:
        chans.append(add(f"IDX{tag}", arr, **kw))
    for j in range(rng.randint(0, 2)):
        chans.append(add(f"C{tag}{j}", gen.array(rng, rng.choice(gen.DTYPES), (n,) if rng.random() < 0.7 else (n, 2),
                                                 special=False)))
    fkw = user_values(rng)
    if indexed:
        fkw["index_type"] = rng.choice(gen.FRAME_INDEX_TYPES + ["MY-OWN"])
    return p.add(lf, "frame", f"F{tag}", channels=chans, **fkw), which, chans, indexed


def run_index(ctx):
    rng = ctx.rng
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    source = rng.choice(["inline", "inline", "dict", "struct", "h5"])
    cols = {}
    n = n_rows(rng)
    whiches = []
    shared = None
    for i in range(rng.choice([1, 1, 1, 2, 3])):
        m = n if source == "struct" or i == 0 or rng.random() < 0.4 else n_rows(rng)
        fr, which, chans, indexed = make_frame(rng, p, lf, f"{i}", m, source == "inline", cols, shared)
        if indexed:
            shared = (chans[0], m)
        whiches.append(which)
    override, data = {}, None
    if source != "inline":
        data = cols
        if source == "dict":
            override["data"] = dict(cols)
        elif source == "struct":
            override["data"] = gen.make_struct(rng, cols)
        else:
            override["data"] = ctx.path(".h5")
            gen.write_h5(override["data"], cols, rng)
    counts = [a.shape[0] for a in cols.values()] or [op[5]["data"].shape[0] for op in p.ops if op[0] == "add" and op[3] == "channel"]
    n = min(counts)
    win = False
    if rng.random() < 0.5:
        a = rng.randrange(n)
        p.write_kw["from_idx"] = a
        if rng.random() < 0.6 :
            p.write_kw["to_idx"] = rng.randint(a + 1, n)
        win = True
    p.write_kw["input_chunk_size"] = rng.choice([None, 1, 2, 3, n])
    ctx.sample(p.describe(500))
    w = work.write_program(p, ctx, override, data)
    ctx.count("executions")
    monitor(w, ctx, (whiches[0], win))


def run_tol(ctx, dt):
    """Differences right below and above the tolerance, and far from it."""
    rng = ctx.rng
    n = rng.randint(3, 30)
    d = np.dtype(dt)
    if d.kind == "f":
        step = rng.choice([1.0, 100.0, 0.5, -1.0])
        dev = rng.choice([0.0, 1e-6, 0.001, 0.01, 0.02, 0.03, 0.0305, 0.0314, 0.0315, 0.03155, 0.0317, 0.0318, 0.032, 0.0325, 0.033, 0.04, 0.1, 0.5, 1.0, 2.0]) * rng.choice([1, -1])
        diffs = [step] * (n - 1)
        diffs[rng.randrange(n - 1)] = step * (1 + dev)
        a = np.concatenate([[0.0], np.cumsum(diffs)])
        if d.itemsize == 4 and 0.0 < abs(dev) < 0.05:
            a = np.concatenate([[0], np.cumsum([round(x * 1000) for x in diffs])]).astype("f8")
    else:
        lo, hi = limits(dt)
        step = max(1, (hi - lo) // (n + 3))
        diffs = [step] * (n - 1)
        dev = rng.choice([0, 0, 1, -1, step // 40, step // 33, step // 30, -(step // 20), step, -2 * step])
        diffs[rng.randrange(n - 1)] += dev
        a = [lo + (step * 2 if lo == 0 or step * 2 + lo < hi else 0)]
        for x in diffs:
            a.append(a[-1] + x)
        if max(a) > hi or min(a) < lo:
            return
        a = np.array(a, dtype=object)
        if rng.random() < 0.4:
            a = a[::-1]
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    c = p.add(lf, "channel", "IDX", data=a.astype(dt))
    p.add(lf, "frame", "F", channels=[c], index_type="BOREHOLE-DEPTH")
    w = work.write_program(p, ctx)
    ctx.count("executions")
    monitor(w, ctx, ("tol",))


def run_long(ctx, top):
    """Long indexes which are regular except for something at one place."""
    rng = ctx.rng
    n = int(math.exp(rng.uniform(math.log(60), math.log(top))))
    if rng.random() < 0.4:
        n = rng.choice([2 ** k for k in range(7, 20) if 2 ** k + 3 <= top] + [1000, 5000, 10000]) + rng.choice([-1, 0, 1, 2])
        n = min(n, top)
    dt = rng.choice(["int32", "uint32", "float64", "float64", "float32"] + (["int16", "uint16"] if n < 8000 else []))
    step = rng.choice([1, 1, 2, 3]) if np.dtype(dt).kind != "f" else rng.choice([1, 0.5, 0.25, 4])
    down = rng.random() < 0.3
    base = 0 if not down else n * step + 40
    a = base + (-step if down else step) * np.arange(n)
    at = rng.choice([1, 2, n - 1, n - 2, n // 2, rng.randrange(1, n), rng.randrange(1, n), rng.randrange(n // 2, n),
                     min(n - 1, rng.choice([64, 100, 128, 256, 500, 512, 1000, 1024, 2048, 4096]) + rng.choice([-1, 0, 1, 2]))])
    at = max(1, min(n - 2, at))
    what = rng.choice(["regular", "jump", "jump", "swap", "swap", "low", "high", "repeat", "back", "last", "first", "drift"])
    sign = -1 if down else 1
    if what == "jump":
        a[at:] += sign * step * 5
    elif what == "swap":
        a[at], a[at - 1] = a[at - 1], a[at]
    elif what == "low":
        a[at] = 0 if np.dtype(dt).kind == "u" else -30000 if dt == "int16" else -10 ** 6
    elif what == "high":
        a[at] = 32000 if dt.endswith("16") else 2 * 10 ** 6
    elif what == "repeat":
        a[at] = a[at - 1]
    elif what == "back":
        a[at:] = a[:n - at]
    elif what == "last":
        a[-1] = a[-2] + sign * step * 3
    elif what == "first":
        a[1:] += sign * step * 3
    elif what == "drift" and np.dtype(dt).kind == "f":
        a = np.cumsum(np.concatenate([[0], np.linspace(step, step * rng.choice([1.02, 1.2]), n - 1)]))
    a = a.astype(dt)
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    ch = p.add(lf, "channel", "IDX", data=gen.relayout(rng, a) if rng.random() < 0.2 else a)
    kw = {"index_type": "BOREHOLE-DEPTH"} if rng.random() < 0.95 else {}
    p.add(lf, "frame", "F", channels=[ch], **kw)
    r = rng.random()
    if r < 0.2:
        p.write_kw["from_idx"] = rng.choice([at, max(0, at - 1), min(n - 3, at + 1), rng.randrange(n - 2)])
    elif r < 0.4:
        p.write_kw["to_idx"] = rng.choice([at + 1, max(2, at), min(n, at + 2), rng.randrange(2, n)])
    p.write_kw["input_chunk_size"] = rng.choice([None, n, n // 2, 1000, at, at + 1])
    w = work.write_program(p, ctx, {"output_chunk_size": 1 << 20}, history=0.1)
    ctx.count("executions")
    ctx.count("long_indexes")
    monitor(w, ctx, ("long", what, n.bit_length()))


def run_seq(ctx):
    """Several writes of one DLISFile."""
    rng = ctx.rng
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    inline = rng.random() < 0.35
    n = n_rows(rng)
    names = []
    frames = []
    for i in range(rng.choice([1, 1, 2])):
        cols = {}
        fr, which, chans, indexed = make_frame(rng, p, lf, f"{i}", n, inline, cols)
        names += list(cols.items())
        frames.append([fr, chans, indexed])
    w = work.Written()
    w.program, w.data = p, None
    w.runner = runner = spec.Runner(p)
    runner.build()
    done = 0
    for i in range(rng.randint(2, 6)):
        # changes of the specification between the writes
        start = len(p.ops)
        model = spec.Model(p)
        for f in frames:
            fr, chans, indexed = f
            if i and rng.random() < 0.25:
                for k, v in user_values(rng, 0.3).items():
                    if isinstance(v, spec.Setup):
                        p.set(fr, k, v.units, "units")
                        v = v.value
                    p.set(fr, k, v)
            if i and rng.random() < 0.15 and not indexed and model.by_oid[chans[0].oid].data is None:
                p.set(fr, "index_type", rng.choice(gen.FRAME_INDEX_TYPES))
                f[2] = True
        data = None
        override = {}
        m = n
        if not inline:
            m = n_rows(rng)
            data = {}
            for k, old in names:
                if k.startswith("IDX"):
                    which, a = pattern(rng, rng.choice(gen.DTYPES), m)
                    data[k] = a
                else:
                    data[k] = gen.array(rng, rng.choice(gen.DTYPES), (m,), special=False)
            override["data"] = data if rng.random() < 0.6 else gen.make_struct(rng, data)
        a, b = 0, None
        if rng.random() < 0.6:
            a = rng.randrange(m)
            b = rng.choice([None, rng.randint(a + 1, m)])
        # casts valid for the data of this write
        for f in frames:
            c = f[1][0]
            mc = model.by_oid[c.oid]
            arr = (data or {}).get(mc.dataset_name, mc.data)
            current = mc.cast_dtype
            if not inline or rng.random() < 0.3:
                new = cast_for(rng, None, arr) if rng.random() < 0.3 else None
                if current is not None or new is not None:
                    p.py(c, "cast_dtype", new)
        for op in p.ops[start:]:
            runner.step(op)
        if rng.random() < 0.15:     # a write that fails
            try:
                runner.write(ctx.path(), **{**override, "from_idx": m + 5})
            except Exception:
                ctx.count("failed_writes")
        override["from_idx"] = a
        override["to_idx"] = b
        p.write_kw["from_idx"] = a
        p.write_kw["to_idx"] = b
        two_d = any(f[2] and ((data or {}).get(spec.Model(p).by_oid[f[1][0].oid].dataset_name,
                                              spec.Model(p).by_oid[f[1][0].oid].data)).ndim > 1 for f in frames)
        if two_d:
            continue
        w2 = work.write_again(w, ctx, override, data)
        ctx.count("executions")
        monitor(w2, ctx, ("seq", min(done, 3)))
        spec.compare(p, w2.dlis, data=data, what=("objects", "attrs", "frames"))
        done += 1
    ctx.count("rewrites", max(0, done - 1))


def run_flat(ctx):
    """An index channel of several elements per row: refused, or described truthfully."""
    rng = ctx.rng
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    n, k = rng.randint(1, 8), rng.choice([1, 2, 2, 3, 5])
    which, arr = pattern(rng, rng.choice(gen.DTYPES), n * k, rng.choice(["uniform", "random", "reversed"]))
    if k > 1 and rng.random() < 0.5:
        arr = np.sort(arr)
    c = [p.add(lf, "channel", "IDX", data=arr.reshape(n, k)), p.add(lf, "channel", "B", data=gen.array(rng, "float32", (n,)))]
    p.add(lf, "frame", "F", channels=c, index_type=rng.choice(gen.FRAME_INDEX_TYPES + ["MY-OWN"]), **user_values(rng))
    ctx.count("executions")
    try:
        w = work.write_program(p, ctx)
    except Violation:
        raise
    except Exception:
        ctx.count("index_refused")
        return
    monitor(w, ctx, ("flat", which))


def run_case(case, ctx):
    if case[0] == "flat":
        run_flat(ctx)
    elif case[0] == "index":
        run_index(ctx)
    elif case[0] == "tol":
        run_tol(ctx, case[1])
    elif case[0] == "seq":
        run_seq(ctx)
    elif case[0] == "long":
        run_long(ctx, case[1])
    else:
        if case[0] == "crowd":
            p, override, data = work.crowd(ctx, *case[1:3])
        else:
            p, override, data, g = work.generate(ctx, windows=ctx.rng.random() < 0.5, rows=(1, 15), extra=(0, 4), frames=(1, 4))
        w = work.write_program(p, ctx, override, data)
        ctx.count("executions")
        monitor(w, ctx, ("spec",))
