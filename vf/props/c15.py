"""C15: writability does not hinge on byte-size coincidences."""
import numpy as np

from .. import work, rp66, spec, gen
from ..core import Violation

RULE = ("'sweep': one valid specification per accepted maximum record length, whose records take every body length around "
        "multiples of the capacity; 'tiny'/'name'/'width'/'payload'/'count': size-minimal and size-extreme valid specifications "
        "(1-byte rows, 'huge': rows, texts, value lists and sets of up to 256 KiB, names of 1..255 characters, widths, payload lengths from 0, numbers of logical files, sets and records) at a random accepted length; 'spec': "
        "random specifications at the smallest lengths. The write has to succeed and the file to decode to the "
        "specification. Distinct: (record length, kind, body length).")
MINIMUM = {"executions": 500, "short_bodies": 200}
ASSUMPTIONS = ["accepted lengths: even values from 20 to 16384; all other content of the specifications is valid"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["sweep", m] for m in work.sweep_mrls(tier, seed)]
    if quick:
        cases += [["mrl", m] for m in range(20, 16385, 2) if m % 22 == (seed * 2) % 22]
        cases += [[k, i] for k in ("tiny", "name", "width", "payload", "count") for i in range(260)]
        cases += [["spec", i] for i in range(1200)]
    else:
        cases += [["mrl", m] for m in range(20, 16385, 2)]
        cases += [[k, i] for k in ("tiny", "name", "width", "payload", "count") for i in range(3000)]
        cases += [["spec", i] for i in range(15000)]
    cases += [["huge", i] for i in range(40 if quick else 600)]
    cases += [["row", w] for w in (range(1, 120) if quick else range(1, 1200))]
    return cases


def setup_worker(ctx):
    work.calibrate(ctx)


def small_mrl(rng):
    r = rng.random()
    if r < 0.5:
        return 2 * rng.randint(10, 30)
    if r < 0.8:
        return 2 * rng.randint(10, 200)
    return rng.choice([8192, 16384, 2 * rng.randint(10, 8192)])


def base(rng, mrl, oname="O", cname="C", fname="F", arr=None, **fkw):
    p = spec.Program({"max_record_length": mrl, **fkw})
    lf = p.lf()
    p.add(lf, "origin", oname, file_set_number=1, creation_time="2024/05/06 07:08:09",
          **({"origin_reference": rng.choice([0, 1, 127, 128, 16383, 16384])} if rng.random() < 0.5 else {}))
    if arr is None:
        arr = np.arange(rng.randint(1, 3), dtype=rng.choice(["uint8", "int8"]))
    ch = p.add(lf, "channel", cname, data=arr)
    p.add(lf, "frame", fname, channels=[ch])
    return p, lf


def make(kind, arg, ctx):
    rng = ctx.rng
    if kind == "mrl":
        p, lf = base(rng, arg)
        nf = p.add(lf, "no_format", "N")
        c = arg - 8
        for d in (0, 1, 2, 7, 11, 12, 13):
            p.nofmt(lf, nf, bytes(max(0, c + d - 4)))
        p.nofmt(lf, nf, b"")
        return p
    mrl = small_mrl(rng)
    if kind == "tiny":
        p, lf = base(rng, mrl, fname=rng.choice("FABZ"))
        nf = p.add(lf, "no_format", "N" * rng.randint(1, 3))
        for n in rng.sample(range(0, 12), 5):
            p.nofmt(lf, nf, rng.randbytes(n) if rng.random() < 0.5 else "ab" * (n // 2) + "c" * (n % 2))
        return p
    if kind == "name":
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 254, 255, rng.randint(1, 255), rng.randint(1, 255)])
        p, lf = base(rng, mrl, rng.choice(["O", "O" * n]), rng.choice(["C", "C" * n]), "F" * n)
        nf = p.add(lf, "no_format", "N" * n, set_name=rng.choice([None, "S" * n]) or None)
        for i in range(rng.randint(0, 4)):
            k = rng.choice(gen_kinds)
            p.add(lf, k, "x" * rng.choice([1, n]), **({"set_name": "T" * rng.randint(1, 255)} if rng.random() < 0.5
                                                       else {}))
        p.nofmt(lf, nf, rng.randbytes(rng.randint(0, 9)))
        return p
    if kind == "width":
        c = mrl - 8
        dt = rng.choice(["uint8", "int8", "uint16", "float32", "float64"])
        size = np.dtype(dt).itemsize
        nbytes = rng.randint(1, 5) * c + rng.randint(-14, 14)
        w = max(1, nbytes // size)
        if w * size > 60000:
            w = rng.randint(1, 40)
        n = rng.randint(1, 3)
        return base(rng, mrl, arr=gen.array(rng, dt, (n, w)))[0]
    if kind == "row":
        w = arg
        p, lf = base(rng, mrl, arr=np.frombuffer(rng.randbytes(2 * w), dtype="uint8").reshape(2, w))
        # the same row width made of many 1-byte channels
        if w <= 300:
            chans = [p.add(lf, "channel", f"D{i}", data=np.frombuffer(rng.randbytes(2), dtype="uint8"))
                     for i in range(w)]
            p.add(lf, "frame", "G", channels=chans)
        return p
    if kind == "count":
        # few or many records: logical files with one object per set, one row, no further records
        p = spec.Program({"max_record_length": mrl})
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 13, 30])
        for i in range(n):
            lf = p.lf(**({"fh_id": f"H{i}"} if rng.random() < 0.5 else {}))
            sn = {"set_name": f"S{i}"}
            p.add(lf, "origin", "O", file_set_number=i + 1, creation_time="2024/05/06 07:08:09", **sn)
            for j in range(rng.choice([1, 1, 1, 2, 3])):
                ch = p.add(lf, "channel", f"C{j}", data=np.zeros(rng.choice([1, 1, 2, 7]), dtype="uint8"), dataset_name=f"{i}-{j}",
                           **({"set_name": f"{sn['set_name']}-{j}"} if rng.random() < 0.5 else sn))
                p.add(lf, "frame", f"F{j}", channels=[ch], **({"set_name": f"{sn['set_name']}-{j}"} if rng.random() < 0.5 else sn))
            for j in range(rng.choice([0, 0, 1, 5])):
                p.add(lf, rng.choice(gen_kinds), "X", set_name=f"S{i}-{j}")
            if rng.random() < 0.3:
                nf = p.add(lf, "no_format", "N", **sn)
                for j in range(rng.choice([0, 1, 2, 40])):
                    p.nofmt(lf, nf, bytes(j))
        return p
    if kind == "huge":
        # records of many times the capacity, past what two bytes can count
        mrl = rng.choice([8192, 16384, 256, 2 * rng.randint(100, 8192)])
        n = rng.choice([2 ** 15, 2 ** 16, 2 ** 16, 2 ** 17, 100000, 2 ** 18, 40 * (mrl - 8)])
        n += rng.choice([0, 1, -1, 2, -2, 3, -11])
        what = rng.choice(["row", "row", "text", "values", "objects", "channels", "texts"])
        if what == "row":
            dt = rng.choice(["uint8", "uint16", "float64"])
            return base(rng, mrl, arr=gen.array(rng, dt, (rng.randint(1, 3), n // np.dtype(dt).itemsize)))[0]
        p, lf = base(rng, mrl)
        if what == "text":
            p.add(lf, "comment", "C", text=["x" * n])
        elif what == "texts":
            p.add(lf, "process", "P", comments=["c" * rng.randint(0, 300) for _ in range(n // 150)])
        elif what == "values":
            p.add(lf, "axis", "A", coordinates=[float(i) for i in range(n // 8)])
        elif what == "objects":
            for i in range(n // 64):
                p.add(lf, "zone", f"Z{i}", description="y" * 40)
        else:
            chans = [p.add(lf, "channel", f"D{i}", data=np.array([i & 255], dtype="uint8"))
                     for i in range(min(3000, n // 64))]
            p.add(lf, "frame", "G", channels=chans)
        return p
    if kind == "payload":
        p, lf = base(rng, mrl)
        nf = p.add(lf, "no_format", "N" * rng.choice([1, 1, 2, 8]))
        for n in [rng.randint(0, 16) for _ in range(6)] + [rng.randint(0, 6 * (mrl - 8)) for _ in range(3)]:
            p.nofmt(lf, nf, rng.randbytes(n))
        return p
    raise ValueError(kind)


gen_kinds = ["axis", "calibration", "comment", "equipment", "group", "long_name", "message", "parameter", "path",
             "process", "splice", "tool", "well_reference_point", "zone", "computation", "calibration_coefficient",
             "calibration_measurement"]


def run_case(case, ctx):
    kind, arg = case
    override, data = {}, None
    if kind == "sweep":
        p = work.Sweep(ctx, arg).program
    elif kind == "spec":
        p, override, data, g = work.generate(ctx, mrl=small_mrl(ctx.rng))
    else:
        p = make(kind, arg, ctx)
    ctx.sample(p.describe(500))
    try:
        w = work.write_program(p, ctx, override, data, parse=False)
    except Exception as e:
        raise Violation("unwritable", f"a valid specification cannot be written: {type(e).__name__}: {e}\n"
                                      f"{p.describe(1500)}") from e
    ctx.count("executions")
    w.dlis = rp66.parse(w.raw)
    work.compare(w)
    mrl = p.file_kw.get("max_record_length", 8192)
    for r in w.dlis.physical.records:
        ctx.distinct((mrl, r.is_eflr, len(r.body)))
        if len(r.body) < 12:
            ctx.count("short_bodies")
        if len(r.body) % 2:
            ctx.count("odd_bodies")
        if len(r.segments) > 3:
            ctx.count("records_of_more_than_3_segments")
