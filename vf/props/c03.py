"""C03: channel data round-trip bit-exactly, one numbered record per row."""
import numpy as np

from .. import work, rp66, spec, gen
from ..core import Violation

RULE = ("'grid': for each source kind and dtype one frame with all byte orders x memory layouts x scalar/2-D; 'cast': all "
        "dtype x cast pairs; 'rows': row counts at the UVARI and chunk boundaries; 'rand': random frames (1..40 channels, "
        "bit patterns incl. NaN payloads and extremes, widths beyond the record capacity, several frames, 4 source kinds, "
        "chunk sizes); 'dlisio': files also read by dlisio. Slots are decoded with the representation codes and "
        "dimensions found in the file. Distinct: (dtype, byte order, layout, shape, cast, source) of each channel.")
MINIMUM = {"rows": 3000, "slots": 10000, "dlisio_curves": 50}
ASSUMPTIONS = ["casts whose result numpy leaves undefined (out-of-range float to integer) are not exercised",
               "the input arrays are not modified during the write"]
SOURCES = ("inline", "dict", "struct", "h5")
CHUNKS = [1, 2, 3, 7, 64, None]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["grid", s, d, k] for s in SOURCES for d in gen.DTYPES for k in range(1 if quick else 12)]
    cases += [["cast", s, d, k] for s in SOURCES for d in gen.DTYPES for k in range(2 if quick else 20)]
    cases += [["rows", n, k] for n in (1, 2, 3, 126, 127, 128, 129, 130, 255, 256, 257, 1000) for k in range(4 if quick else 30)]
    cases += [["rows", n, k] for n in (16382, 16383, 16384, 16385) for k in range(1 if quick else 6)]
    cases += [["rand", i] for i in range(3500 if quick else 45000)]
    cases += [["wide", i] for i in range(32 if quick else 400)]
    cases += [["dlisio", i] for i in range(300 if quick else 4000)]
    cases += [["alias", i] for i in range(200 if quick else 3000)]
    cases += [["odd", i] for i in range(200 if quick else 3000)]
    cases += work.crowd_cases(quick, rows=2, channels=2, frames=1)
    return cases


class Chan:
    def __init__(self, arr, cast=None, layout="", name=None):
        self.arr, self.cast, self.layout, self.name = arr, cast, layout, name


def build(ctx, frames, source, mrl=8192, n_extra=True, chunk=None, units=None):
    """frames: list of lists of Chan. Returns (program, override, data)."""
    rng = ctx.rng
    p = spec.Program({"max_record_length": mrl})
    lf = p.lf()
    p.add(lf, "origin", "ORIGIN", **({"origin_reference": rng.choice([0, 1, 127, 128, 16383, 16384])}
                                     if rng.random() < 0.5 else {}))
    ext = {}
    no = 0
    names = None
    if source != "h5" and ctx.case[0] in ("rand", "rows", "grid") and rng.random() < 0.3:
        names = rng.sample(["", " ", "f0", "f1", "f2", "A", "A ", " A", "a", "TDEP", "X" * 255, "x.y", "-", "0", "1", "CH-1", "n\n",
                            "index", "names", "__len__"], rng.randint(1, 12))
    odd = ["", " ", "0", "None", "a/b", "f0", "x" * 300, "\u00e9"] if source in ("inline", "dict") else []
    odd = [x for x in rng.sample(odd, len(odd)) if x not in (names or ())]
    for fi, chans in enumerate(frames):
        refs = []
        for c in chans:
            no += 1
            nm = f"CH{no}" if c.name is None else c.name
            if names and c.name is None:
                nm = names.pop()
            kw = {}
            if c.cast is not None:
                kw["cast_dtype"] = c.cast
            src = source if source != "mixed" else rng.choice(["inline", "dict"])
            if src == "inline":
                kw["data"] = c.arr
                if rng.random() < 0.2:
                    kw["dataset_name"] = odd.pop() if odd and rng.random() < 0.4 else f"ds{no}"
            else:
                ds = nm if rng.random() < 0.4 else f"ds {no}" if source != "h5" else rng.choice([f"ds{no}", f"g/x{no}"])
                if odd and rng.random() < 0.1 and odd[-1] not in ext:
                    ds = odd.pop()
                if ds != nm:
                    kw["dataset_name"] = ds
                ext[ds] = c.arr
            refs.append(p.add(lf, "channel", nm, **kw))
        p.add(lf, "frame", f"FRAME{fi}" if rng.random() < 0.7 else "Z" * 200 + str(fi), channels=refs)
    override, data = {}, None
    if source in ("dict", "mixed"):
        items = list(ext.items())
        if items:
            rng.shuffle(items)
            p.write_kw["data"] = dict(items)
    elif source == "struct":
        p.write_kw["data"] = gen.make_struct(rng, ext)
    elif source == "h5":
        path = ctx.path(".h5")
        gen.write_h5(path, ext, rng)
        override["data"] = path
        data = ext
    p.write_kw["input_chunk_size"] = chunk if chunk is not None else rng.choice(CHUNKS)
    if rng.random() < 0.4:
        p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 1, 33, 4000])
    return p, override, data


def decode_by_descriptors(w, res, ctx):
    """Decode the rows with what the file itself declares and compare with the input arrays."""
    for mf in res.model.files:
        lf = res.lf[mf.lfid]
        chans = {o.obname: o for es in lf.sets if es.type == "CHANNEL" for o in es.objects}
        rows = {}
        for f in lf.iflrs:
            if f.type == 0:
                rows.setdefault(f.ref, []).append(f)
        for fr in mf.of("frame"):
            o = res.obj[fr.oid]
            listed = [chans[v] for v in o.attrs["CHANNELS"].values]
            layout = []
            for c in listed:
                rc = c.attrs["REPRESENTATION-CODE"].values[0]
                dim = c.attrs["DIMENSION"].values
                n = int(np.prod(dim))
                if rc not in spec.RC_NP:
                    raise Violation("descriptor.code", f"channel {c!r}: representation code {rc}")
                layout.append((np.dtype(spec.RC_NP[rc]), n, dim))
            total = sum(dt.itemsize * n for dt, n, d in layout)
            mine = rows.get(o.obname, [])
            bodies = []
            for i, f in enumerate(mine):
                num, slots = rp66.split_fdata(f)
                if num != i + 1:
                    raise Violation("frame.number", f"frame {fr.name!r} record {i} is numbered {num}")
                if len(slots) != total:
                    raise Violation("row.length", f"frame {fr.name!r} row {i}: {len(slots)} bytes, descriptors say {total}")
                bodies.append(slots)
            block = b"".join(bodies)
            mat = np.frombuffer(block, dtype=np.uint8).reshape(len(mine), total)
            pos = 0
            for (dt, n, dim), ch in zip(layout, spec.frame_channels(mf, fr)):
                arr = spec.channel_array(mf, ch, w.data if w.data is not None else w.program.write_kw.get("data"))
                if arr.shape[0] != len(mine):
                    raise Violation("row.count", f"frame {fr.name!r}: {len(mine)} records, {arr.shape[0]} rows")
                want = spec.column_bytes(arr, ch.cast_dtype)
                got = mat[:, pos:pos + dt.itemsize * n]
                pos += dt.itemsize * n
                if list(dim) != (list(arr.shape[1:]) or [1]):
                    raise Violation("descriptor.dimension", f"channel {ch.name!r}: dimension {dim}, data {arr.shape}")
                if dt.newbyteorder("=") != spec.written_dtype(arr, ch.cast_dtype):
                    raise Violation("descriptor.code", f"channel {ch.name!r}: code {dt} for {arr.dtype}, cast {ch.cast_dtype}")
                if got.shape != want.shape or not np.array_equal(got, want):
                    bad = np.argwhere(got != want)[0] if got.shape == want.shape else "shape"
                    raise Violation("slot.bits", f"channel {ch.name!r} ({arr.dtype.str}, strides {arr.strides}, cast "
                                    f"{ch.cast_dtype}): differs at {bad}")
                ctx.count("slots", got.shape[0] * n)
            ctx.count("rows", len(mine))
            ctx.count("frames")


def tame(rng, dt, shape):
    return gen.array(rng, dt, shape, special=False)


def dlisio_check(w, res, ctx, path):
    import dlisio
    import dlisio.dlis
    with open(path, "wb") as f:
        f.write(w.raw)
    try:
        files = dlisio.dlis.load(path)
    except Exception as e:
        raise Violation("dlisio.load", repr(e))
    with files as lfs:
        for mf, lf in zip(res.model.files, lfs):
            frames = {(fr.origin, fr.copynumber, fr.name): fr for fr in lf.frames}
            for m in mf.of("frame"):
                fr = frames[tuple(res.ident[m.oid][1])]
                curves = fr.curves()
                if list(curves["FRAMENO"]) != list(range(1, len(curves) + 1)):
                    raise Violation("dlisio.frameno", str(curves["FRAMENO"][:10]))
                for ch in spec.frame_channels(mf, m):
                    arr = spec.channel_array(mf, ch, w.data if w.data is not None else w.program.write_kw.get("data"))
                    want = arr.astype(spec.written_dtype(arr, ch.cast_dtype))
                    got = curves[ch.name]
                    if got.shape[1:] != want.shape[1:]:
                        got = got.reshape(want.shape)
                    if got.dtype != want.dtype or not np.array_equal(got, want):
                        raise Violation("dlisio.curve", f"{ch.name}: {got[:3]} != {want[:3]}")
                    ctx.count("dlisio_curves")


def random_frames(rng, source, special=True, max_channels=8, rows=None, mrl=8192):
    frames = []
    n = rows or rng.choice([1, 1, 2, 3, 5, 8, rng.randint(1, 40)])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if source != "struct" and rows is None:
            n = rng.choice([1, 2, 3, rng.randint(1, 40)])
        chans = []
        k = rng.choice([1, 1, 2, 3, rng.randint(1, max_channels), 40 if rng.random() < 0.05 else 4])
        for _ in range(k):
            dt = rng.choice(gen.DTYPES)
            r = rng.random()
            if r < 0.5:
                shape = (n,)
            elif r < 0.9:
                shape = (n, rng.choice([1, 1, 2, 3, rng.randint(1, 12)]))
            else:
                width = (mrl - 8) // np.dtype(dt).itemsize
                shape = (n, max(1, min(4000, rng.choice([width - 1, width, width + 1, 2 * width + 1]))))
            layout = rng.choice(gen.LAYOUTS)
            arr = gen.array(rng, dt, shape, special=special, layout=layout)
            cast = gen.safe_cast(rng, dt, arr) if rng.random() < 0.3 else None
            chans.append(Chan(arr, cast, layout))
        frames.append(chans)
    return frames


def run_case(case, ctx):
    kind, rng = case[0], ctx.rng
    if kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
        w = work.write_program(p, ctx, override, data, history=0.1)
        ctx.count("executions")
        decode_by_descriptors(w, work.compare(w, what=("objects", "frames")), ctx)
        return
    mrl = rng.choice([8192, 8192, 16384, 128, 64, 20, 2 * rng.randint(10, 500)])
    if kind in ("grid", "cast"):
        source, dt = case[1], case[2]
        n = rng.randint(1, 9)
        chans = []
        if kind == "grid":
            for bo in "<>=":
                for layout in sorted(set(gen.LAYOUTS)):
                    for shape in ((n,), (n, rng.choice([1, 2, 3, 7]))):
                        chans.append(Chan(gen.array(rng, dt, shape, byteorder=bo, layout=layout), None, layout))
        else:
            for c in gen.DTYPES:
                for bo in "<>":
                    for shape in ((n,), (n, 2)):
                        arr = gen.array(rng, dt, shape, special=np.dtype(dt).kind != "f" or np.dtype(c).kind == "f",
                                        byteorder=bo)
                        if np.dtype(dt).kind == "f" and np.dtype(c).kind in "iu":
                            info = np.iinfo(c)
                            lo, hi = max(info.min, -1000), min(info.max, 1000)
                            arr = (np.random.default_rng(rng.getrandbits(32)).uniform(lo, hi, shape)).astype(arr.dtype)
                        cast = rng.choice([np.dtype(c), getattr(np, c), np.dtype(c).newbyteorder(">"),
                                           np.dtype(c).newbyteorder("<")])
                        chans.append(Chan(arr, cast, "C"))
        rng.shuffle(chans)
        frames = [chans]
    elif kind == "rows":
        source = rng.choice(SOURCES + ("mixed",))
        n = case[1]
        frames = [[Chan(gen.array(rng, rng.choice(gen.DTYPES), (n,) if rng.random() < 0.7 else (n, 2)))
                   for _ in range(rng.randint(1, 3))]]
        chunk = rng.choice([1, 2, n - 1, n, n + 1, n // 2, 127, 128, None]) if n < 2000 else rng.choice(
            [n - 1, n, 1000, None])
        p, override, data = build(ctx, frames, source, mrl, chunk=chunk if chunk else None)
    elif kind == "dlisio":
        source = rng.choice(SOURCES)
        mrl = rng.choice([8192, 16384, 128, 1024])
        frames = random_frames(rng, source, special=False, mrl=mrl)
    elif kind == "wide":
        source = rng.choice(SOURCES)
        frames = wide_frames(rng)
    elif kind == "alias":
        source = rng.choice(("inline", "dict", "mixed"))
        frames = alias_frames(rng, ctx)
    elif kind == "odd":
        source = rng.choice(("inline", "dict", "h5"))
        frames = odd_frames(rng)
    else:
        source = rng.choice(SOURCES + ("mixed",))
        frames = random_frames(rng, source, mrl=mrl)
    if kind != "rows":
        p, override, data = build(ctx, frames, source, mrl)
    for fr in frames:
        for c in fr:
            ctx.distinct((c.arr.dtype.str, c.layout, c.arr.shape, str(c.cast), source))
    if kind == "rand":
        ctx.sample(p.describe(700))
    try:
        w = work.write_program(p, ctx, override, data)
    except Exception:
        if kind == "odd":     # source dtypes outside the supported ones may be rejected
            ctx.count("odd_rejected")
            return
        raise
    ctx.count("executions")
    res = work.compare(w, what=("objects", "frames"))
    decode_by_descriptors(w, res, ctx)
    if kind == "dlisio":
        dlisio_check(w, res, ctx, ctx.path())


def wide_frames(rng):
    """Rows of many times the record length: wide channels, or very many of them."""
    n = rng.randint(1, 4)
    if rng.random() < 0.4:
        return [[Chan(gen.array(rng, rng.choice(gen.DTYPES), (n,) if rng.random() < 0.8 else (n, rng.randint(1, 5))))
                 for _ in range(rng.choice([127, 128, 129, 200, 255, 256, 257, 700]))]]
    chans = []
    for _ in range(rng.randint(1, 3)):
        w = rng.choice([255, 256, 257, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100000]) + rng.choice([0, 0, 1])
        dt = rng.choice(gen.DTYPES)
        arr = gen.array(rng, dt, (n, w), layout=rng.choice(gen.LAYOUTS))
        chans.append(Chan(arr, gen.safe_cast(rng, dt, arr) if rng.random() < 0.3 else None, "C"))
        if rng.random() < 0.5:
            chans.append(Chan(gen.array(rng, rng.choice(gen.DTYPES), (n,))))
    return [chans]


def odd_frames(rng):
    """Source dtypes which are only writable through a cast."""
    n = rng.randint(1, 6)
    nprng = np.random.default_rng(rng.getrandbits(32))
    chans = []
    for _ in range(rng.randint(1, 3)):
        dt = rng.choice(["int64", "uint64", "bool", "float16", ">i8", ">f2"])
        shape = (n,) if rng.random() < 0.6 else (n, 2)
        arr = nprng.integers(0, 2 if dt == "bool" else 120, shape).astype(dt)
        if dt == "float16" and rng.random() < 0.5:
            arr = (arr / 8).astype(dt)
            cast = rng.choice(["float32", "float64"])
        else:
            cast = rng.choice(gen.DTYPES)
        chans.append(Chan(arr, np.dtype(cast), "C"))
    return [chans]


def alias_frames(rng, ctx):
    """Channels sharing memory, broadcast arrays, memory maps, array subclasses."""
    n = rng.randint(1, 8)
    dt = rng.choice(gen.DTYPES)
    big = gen.array(rng, dt, (n, rng.randint(2, 5)), layout="C")
    chans = [Chan(big, None, "C")]
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["same", "column", "columns", "broadcast", "broadcast2", "memmap", "rec", "zeros", "reversed2"])
        if k == "same":
            a = big
        elif k == "column":
            a = big[:, rng.randrange(big.shape[1])]
        elif k == "columns":
            a = big[:, ::-1]
        elif k == "broadcast":
            a = np.broadcast_to(big[0, :1], (n,))
        elif k == "broadcast2":
            a = np.broadcast_to(big[0], big.shape)
        elif k == "memmap":
            path = ctx.path(".bin")
            m = np.memmap(path, dtype=big.dtype, mode="w+", shape=big.shape)
            m[:] = big
            a = m
        elif k == "rec":
            r = np.rec.fromarrays([big[:, 0], np.arange(n)], names="a,b")
            a = r.a
        elif k == "reversed2":
            a = big[::-1, ::-1][::-1]
        else:
            a = np.zeros(n, dtype=dt)
        chans.append(Chan(a, gen.safe_cast(rng, dt, np.asarray(a)) if rng.random() < 0.3 else None, k))
    rng.shuffle(chans)
    return [chans]
