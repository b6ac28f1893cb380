"""Workload helpers shared by the property modules."""
import os
import random
import warnings

from . import history as hist, rp66, spec, gen
from .core import Violation

warnings.simplefilter("ignore")


def read(path):
    with open(path, "rb") as f:
        return f.read()


class Written:
    """A written and strictly parsed file."""
    __slots__ = ("raw", "dlis", "runner", "path", "data", "program")


def attach_data(g, ctx, rng=None):
    """(override for Runner.write, data for compare) of a generated program."""
    if getattr(g, "h5_data", None) is not None:
        path = ctx.path(".h5")
        gen.write_h5(path, g.h5_data, rng or ctx.rng)
        return {"data": path}, g.h5_data
    return {}, None


HISTORY = 0.25      # fraction of the programs which are written with a history added that must not matter


def write_program(p, ctx, override=None, data=None, parse=True, history=None, reset=None):
    """Execute and write p. history: probability of an irrelevant history; reset: called before the final write."""
    w = Written()
    w.program, w.data = p, data
    rng = random.Random(f"history:{ctx.prop}:{ctx.seed}:{ctx.case}:{ctx._file_no}")
    if rng.random() < (HISTORY if history is None else history):
        w.runner = spec.Runner(hist.detour(p, rng), override, ctx.scratch, also=p)
        ctx.count("programs_with_history")
    else:
        w.runner = spec.Runner(p)
    w.runner.build()
    ctx.count("history_writes_failed", w.runner.history_writes[0])
    ctx.count("history_writes", w.runner.history_writes[1])
    if reset:
        reset()
    w.path = ctx.path()
    if rng.random() < 0.1:      # something else is there, shorter or longer
        with open(w.path, "wb") as f:
            f.write(rng.randbytes(rng.choice([0, 1, 79, 80, 100, 500, 5000, 200000])))
        ctx.count("files_replaced")
    w.runner.write(w.path, **(override or {}))
    w.raw = read(w.path)
    os.unlink(w.path)
    w.dlis = rp66.parse(w.raw) if parse else None
    ctx.count("files")
    ctx.count("bytes", len(w.raw))
    return w


def write_again(w, ctx, override=None, data=None, parse=True):
    """Another write of the same DLISFile."""
    w2 = Written()
    w2.program, w2.runner = w.program, w.runner
    w2.data = data if data is not None else w.data
    w2.path = ctx.path()
    w2.runner.write(w2.path, **(override or {}))
    w2.raw = read(w2.path)
    os.unlink(w2.path)
    w2.dlis = rp66.parse(w2.raw) if parse else None
    ctx.count("files")
    ctx.count("bytes", len(w2.raw))
    return w2


def generate(ctx, **opts):
    """Random specification: (program, override, data, generator)."""
    g = gen.SpecGen(ctx.rng, **opts)
    p = g.generate()
    override, data = attach_data(g, ctx)
    return p, override, data, g


def compare(w, **kw):
    return spec.compare(w.program, w.dlis, w.runner.t0, w.runner.t1, data=w.data, **kw)


# ------------------------------------------------------------------ sizes relative to the record capacity

def lengths_of_interest(mrl, rng, kmax=4, d=14):
    """Body lengths covering each branch of the splitting arithmetic for the capacity mrl - 8."""
    c = mrl - 8
    if c <= 60:
        return list(range(1, 5 * c + 16))
    ls = set(range(1, 40))
    for k in range(1, kmax + 1):
        if k > 2 and c > 3000 and rng.random() < 0.7:
            continue
        ls.update(range(k * c - d, k * c + d + 1))
    ls.update(rng.randint(1, 3 * c) for _ in range(6))
    return sorted(x for x in ls if x > 0)


class Sweep:
    """One file whose logical records have body lengths all around multiples of the capacity."""

    NF_PREFIX = 4          # obname of the no-format object 'N' of origin 0, copy 0

    def __init__(self, ctx, mrl, kinds=("bytes", "bytearray", "str"), comments=8, frames=6):
        rng = ctx.rng
        c = mrl - 8
        p = spec.Program({"max_record_length": mrl})
        lf = p.lf()
        p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09", origin_reference=0)
        self.payloads = []
        ls = lengths_of_interest(mrl, rng)
        self.lengths = ls
        import numpy as np
        # frames: 1-byte rows, and rows around multiples of the capacity
        widths = [1]
        for _ in range(frames):
            w = rng.randint(1, 4) * c + rng.randint(-14, 14) - 6
            widths.append(max(1, w))
        for i, w in enumerate(widths):
            name = f"{i:X}"
            n = rng.randint(1, 3)
            arr = np.frombuffer(rng.randbytes(n * w), dtype=np.uint8).reshape((n, w) if w > 1 or rng.random() < 0.5
                                                                              else (n,))
            ch = p.add(lf, "channel", "C" + name, data=arr)
            p.add(lf, "frame", name, channels=[ch])
        for i in range(comments):
            t = rng.randint(1, 4) * c + rng.randint(-14, 14) - OVERHEAD.get("comment", 40)
            if i < 2 or t < 1 or t > 16000:
                t = rng.randint(1, 400)
            text = "".join(rng.choices("abcdefgh 0123", k=min(t, 64)))
            text = (text * (t // len(text) + 1))[:t]
            p.add(lf, "comment", "Q", set_name=f"S{i:02d}", text=[text])
        nf = p.add(lf, "no_format", "N")
        order = list(ls)
        rng.shuffle(order)
        pool = rng.randbytes(5000)
        for ln in order:
            n = ln - self.NF_PREFIX
            if n < 0:
                n = 0
            k = rng.choice(kinds)
            start = rng.randrange(1000)
            b = (pool[start:] + pool * (n // len(pool) + 1))[:n]
            if k == "str":
                b = bytes(x & 127 for x in b)
                v = b.decode("ascii")
            else:
                v = b if k == "bytes" else bytearray(b)
            p.nofmt(lf, nf, v)
        p.write_kw["input_chunk_size"] = rng.choice([1, 2, None])
        p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 0, 1, 17, 5000, 1 << 20])
        self.program = p


def huge(ctx):
    """A few records of 32 KiB .. 1 MiB among small ones, up to 87 000 segments to a record."""
    rng = ctx.rng
    mrl = rng.choice([20, 22, 32, 256, 1000, 8192, 16382, 16384, 2 * rng.randint(10, 8192)])
    p = spec.Program({"max_record_length": mrl})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09", origin_reference=0)

    def size():
        return rng.choice([2 ** 15, 2 ** 16, 2 ** 17, 2 ** 18, 2 ** 19, 10 ** 5, 40 * (mrl - 8)]) + rng.randint(-12, 12)
    import numpy as np
    n = size() if rng.random() < 0.5 else rng.randint(1, 30)
    arr = gen.array(rng, rng.choice(["uint8", "float32"]), (rng.randint(1, 3), max(1, n // 4)))
    p.add(lf, "frame", "F", channels=[p.add(lf, "channel", "C", data=arr)])
    nf = p.add(lf, "no_format", "N")
    for big in rng.sample([0, 0, 1, 1, 2], 3):
        if big == 2:
            p.nofmt(lf, nf, rng.randbytes(2 ** 20 + rng.randint(-20, 20)))
        elif big:
            p.nofmt(lf, nf, rng.randbytes(size()))
        else:
            p.nofmt(lf, nf, rng.randbytes(rng.randint(0, 3 * mrl)))
    k = rng.random()
    if k < 0.3:
        p.add(lf, "comment", "T", text=["x" * size()])
    elif k < 0.6:
        p.add(lf, "process", "P", comments=["".join(rng.choices("abc \n", k=rng.randint(0, 300))) for _ in range(size() // 300)])
    elif k < 0.8:
        for i in range(rng.randint(300, 2500)):
            p.add(lf, "zone", f"Z{i}", description="y" * rng.randint(0, 90))
    p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 17, 5000, 1 << 16, 1 << 18, 1 << 20, 1 << 21])
    return p


CROWDS = {"rows": [255, 257, 16383, 16385, 20001, 32767, 32769, 40000, 65535, 65536, 65537, 70000],
          "channels": [255, 256, 257, 300, 500, 513, 700, 1025], "frames": [65, 128, 130, 257, 300],
          "files": [17, 33, 65, 101, 129, 151, 257], "sets": [51, 64, 101, 129, 257, 300],
          "objects": [257, 301, 513, 1001, 1025, 2049, 3000], "payloads": [101, 129, 257, 300, 1001, 1025, 1500, 4097],
          "origins": [17, 65, 128, 129, 255, 257, 300], "nested": [4, 5, 8, 16]}
CROWD_TARGETS = [("zone", "splice", "zones"), ("zone", "parameter", "zones"), ("channel", "process", "input_channels"),
                 ("parameter", "tool", "parameters"), ("equipment", "tool", "parts"), ("zone", "group", "object_list"),
                 ("computation", "process", "output_computations"), ("group", "group", "group_list"), ("axis", None, None),
                 ("calibration_coefficient", "calibration", "coefficients"), ("parameter", "calibration", "parameters"),
                 ("message", None, None), ("comment", None, None), ("long_name", None, None), ("path", None, None),
                 ("well_reference_point", None, None), ("calibration_measurement", "calibration", "measurements")]
PLAIN = {"message": {"text": ["a"]}, "parameter": {"values": [1]}, "computation": {"values": [2]}, "axis": {"coordinates": [1]}}


def crowd_cases(quick, **whats):
    """Cases for each size of the kinds of crowd: repetitions in the quick tier (thorough: six times as many)."""
    return [["crowd", what, size, i] for what, n in whats.items() for size in CROWDS[what] for i in range(n if quick else 6 * n)]


def crowd(ctx, what, size, route=None):
    """A specification with many of something: (program, override, data)."""
    rng = ctx.rng
    import numpy as np
    ctx.count("crowd_" + what)
    ctx.count("crowd_members", size)
    ctx.distinct(("crowd", what, size))
    p = spec.Program({"max_record_length": rng.choice([128, 8192, 8192, 16384] if what != "rows" else [8192, 16384])})
    p.write_kw["output_chunk_size"] = rng.choice([1 << 16, 1 << 18, 1 << 20, 1 << 21, 3 * 10 ** 6])
    override, ext = {}, {}
    route = route or rng.choice(["inline", "inline", "dict", "struct", "h5"])

    def channel(lf, name, arr, **kw):
        if route == "inline":
            return p.add(lf, "channel", name, data=arr, **kw)
        ds = f"d{len(ext)}"
        ext[ds] = arr
        return p.add(lf, "channel", name, dataset_name=ds, **kw)

    n_lf = size if what == "files" else rng.choice([1, 1, 2]) if what != "sets" else 1
    n_rows = size if what == "rows" else rng.randint(1, 3)
    named = n_lf > 1 or rng.random() < 0.3
    at = rng.randrange(n_lf) if what != "files" else None
    for i in range(n_lf):
        lf = p.lf(fh_id=f"FILE {i}", fh_sequence_number=i + 1) if n_lf > 1 else p.lf()
        sn = {"set_name": f"S{i}"} if named else {}
        here = at == i
        many = size if here else 2
        refs = []
        for j in range(many if what == "origins" else 1):
            refs.append(j + 1)
            p.add(lf, "origin", f"O{j}", file_set_number=j + 1, creation_time="2024/05/06 07:08:09", origin_reference=j + 1, **sn)
        kw = (lambda: {"origin_reference": rng.choice(refs[-3:] + [rng.choice(refs)])}) if len(refs) > 2 else (lambda: {})
        n_fr = many if what == "frames" else rng.choice([1, 1, 2])
        for f in range(n_fr):
            n_ch = many if what == "channels" and f == 0 else rng.choice([1, 2]) if what != "rows" else rng.choice([1, 1, 2])
            rows = n_rows if here and f == 0 or what != "rows" else 2
            dts = ["uint8", "int16", ">u2"] if what == "rows" else gen.DTYPES
            chans = [channel(lf, f"C{f}-{j}", gen.array(rng, rng.choice(dts), (rows,) if rng.random() < 0.8 else (rows, 2)),
                             **sn, **kw()) for j in range(n_ch)]
            p.add(lf, "frame", f"F{f}", channels=chans, **sn, **kw())
        if what == "payloads":
            nfs = [p.add(lf, "no_format", f"N{j}", **sn) for j in range(rng.choice([1, 2, 3]))]
            for j in range(many):
                p.nofmt(lf, rng.choice(nfs), f"{i}:{j}".encode() + bytes(rng.choice([0, 0, 0, 5, 200])))
        elif what == "sets" and here:
            kind = rng.choice(["zone", "parameter", "comment", "tool", "no_format", "message", "axis", "equipment", "channel", "group"])
            for j in range(many):
                for _ in range(rng.choice([1, 1, 2])):
                    p.add(lf, kind, rng.choice(["X", f"X{j}"]), set_name=f"{i}-{j}", **PLAIN.get(kind, {}), **kw())
        elif what == "objects" and here:
            kind, user, param = rng.choice(CROWD_TARGETS)
            objs = [p.add(lf, kind, f"{kind[0]}{j}", **PLAIN.get(kind, {}), **sn, **kw()) for j in range(many)]
            for j in rng.sample(range(many), 20) if kind not in ("message",) else ():
                if "description" in spec.KINDS[kind][2]:
                    p.set(objs[j], "description", f"number {j}")
            if user:
                some = [many - 1, 0, rng.randrange(many), many // 2] + ([254, 255, 256, 257][:max(0, many - 257)])
                more = {"values": list(range(len(some)))} if user == "parameter" else PLAIN.get(user, {})
                p.add(lf, user, "USER", **{param: [objs[j] for j in some]}, **more, **sn)
        elif what == "nested":
            for j in range(6):
                depth, wide = rng.choice([(2, size), (3, 4), (3, rng.randint(2, 6)), (4, rng.randint(2, 3)), (5, rng.randint(1, 3)),
                                          (6, 2), (2, 60)])
                v, dims = nested(rng, depth, wide), [wide if depth < 4 else min(wide, 3)] * depth
                zones = [p.add(lf, "zone", f"Z{j}-{k}", **sn) for k in range(dims[0])]
                p.add(lf, rng.choice(["parameter", "computation"]), f"V{j}", values=v, dimension=dims[1:], zones=zones, **sn)
        elif i % 7 == 0:
            p.add(lf, "zone", "Z", description=f"zone of {i}", **sn, **kw())
            p.nofmt(lf, p.add(lf, "no_format", "N", **sn), f"payload of {i}")
    data = None
    if ext:
        if route == "dict":
            override["data"] = ext
        elif route == "struct" and len({len(a) for a in ext.values()}) == 1:
            override["data"] = gen.make_struct(rng, ext)
        elif route == "h5":
            override["data"] = ctx.path(".h5")
            gen.write_h5(override["data"], ext, rng)
        else:
            override["data"] = ext
        data = ext
    if what == "rows" and rng.random() < 0.7:
        p.write_kw["input_chunk_size"] = rng.choice([100, 1000, 4096, 4097, 10 ** 4, 2 ** 15, 2 ** 16, 10 ** 5, size - 1])
    return p, override, data


def nested(rng, depth, wide):
    if depth == 0:
        return rng.randint(-1000, 1000) / 4
    return [nested(rng, depth - 1, wide if depth < 4 else min(wide, 3)) for _ in range(wide if depth < 4 else min(wide, 3))]


OVERHEAD = {}


def calibrate(ctx):
    """Measure the constant part of a COMMENT record with a text of 128..16383 characters."""
    if OVERHEAD:
        return
    import random
    ctx.rng = random.Random("calibrate")
    import numpy as np
    p = spec.Program({"max_record_length": 8192})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09", origin_reference=0)
    ch = p.add(lf, "channel", "C", data=np.arange(3, dtype="uint8"))
    p.add(lf, "frame", "F", channels=[ch])
    p.add(lf, "comment", "Q", set_name="S00", text=["x" * 200])
    try:
        w = write_program(p, ctx)
        OVERHEAD["comment"] = [len(r.body) for r in w.dlis.physical.records if r.is_eflr and r.type == 6][0] - 200
    except Exception:
        OVERHEAD["comment"] = 35


def sweep_mrls(tier, seed):
    import random
    rng = random.Random(f"mrl:{seed}")
    if tier == "thorough":
        return list(range(20, 16385, 2))
    fixed = list(range(20, 130, 2)) + [256, 1024, 4096, 8190, 8192, 8194, 16382, 16384]
    return fixed + [2 * rng.randint(65, 600) for _ in range(24)] + [2 * rng.randint(65, 8192) for _ in range(24)]


def framing_stats(ctx, phys):
    ctx.count("visible_records", len(phys.vrs))
    ctx.count("segments", len(phys.segments))
    ctx.count("logical_records", len(phys.records))
    ctx.count("padded_segments", sum(1 for s in phys.segments if s.pad))
    ctx.count("multi_segment_records", sum(1 for r in phys.records if len(r.segments) > 1))
