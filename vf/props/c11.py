"""C11: all data sources are equivalent and the row window selects exactly its rows."""
import os
import pathlib
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import Ref
from ..core import Violation

RULE = ("'spec': random specifications rendered with the data inline, as a dict, as a structured array, as an HDF5 file and "
        "as a mixture (permuted, with unused entries, paddings, byte orders, memory layouts, groups, leading slashes, chunked "
        "and compressed HDF5 storage), full or windowed, with various chunk sizes: all files must be byte-identical to each "
        "other and to the file of the pre-sliced arrays; 'win': one or two frames, every window of up to 9 rows for every "
        "source kind; 'alias': several channels over one dataset, renamed dataset names, equal names in different frames; "
        "'reuse': one DLISFile written from all sources in turn; 'direct': structured arrays whose layout coincides with the "
        "frame's, also with the names of the fields permuted among the channels; 'void': empty, reversed, negative and excessive windows. Sources hold unused entries named like other channels "
        "or similar to the datasets of channels. The first file of each group is decoded and compared with the arrays. Distinct: (source, window kind, chunk "
        "relation, cast).")
MINIMUM = {"comparisons": 9000, "windows": 4000, "decoded": 1500, "crossed": 30}
ASSUMPTIONS = ["creation time and file set number are given by the user", "frames written from one structured array have "
               "equal numbers of rows"]
KINDS4 = ("inline", "dict", "struct", "h5")


FAR = [300, 1000, 5000, 20000, 33000, 66000]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["spec", i] for i in range(520 if quick else 10000)]
    cases += [["win", i] for i in range(90 if quick else 2500)]
    cases += [["alias", i] for i in range(400 if quick else 6000)]
    cases += [["reuse", i] for i in range(300 if quick else 5000)]
    cases += [["direct", i] for i in range(500 if quick else 8000)]
    cases += [["void", i] for i in range(60 if quick else 2500)]
    cases += [["far", n, i] for n in FAR for i in range(2 if quick else 20)]
    return cases


def relayouted(rng, a):
    """The same values in another memory layout (copy or view)."""
    return gen.relayout(rng, a) if rng.random() < 0.5 else a


def swapped(rng, a):
    """The same values in the other byte order; the bytes of each value are only moved."""
    if a.dtype.itemsize == 1 or rng.random() < 0.6:
        return a
    b = np.ascontiguousarray(a)
    return b.byteswap().view(b.dtype.newbyteorder())


def unused(rng, n):
    """Entries no channel refers to."""
    r = rng.choice(["num", "str", "3d", "long", "obj"])
    if r == "num":
        return np.arange(n) * 1.5
    if r == "str":
        return np.array(["abc"] * n)
    if r == "3d":
        return np.zeros((n, 2, 2))
    if r == "long":
        return np.arange(n + 7)
    return np.array([1 + 2j] * n)


def shuffled(rng, d):
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def decoys(rng, cols, names):
    """Entries with the names of channels, or similar to those of the datasets, which are not the dataset of any channel."""
    if rng.random() < 0.5:
        return {}
    taken = {k.strip("/") for k in cols}
    r = {}
    first = next(iter(cols.values()))
    for k in list(cols) + list(names):
        base = k.rstrip("/").split("/")[-1]
        for x in (k, base, k.lower(), k.upper(), "RUN2/" + k.strip("/"), "RUN2/" + base, k + "__1", k + " ", "data/" + base, k[:-1]):
            if x.strip("/") and x.strip("/") not in taken and rng.random() < 0.3:
                like = cols.get(k, first)
                r.setdefault(x.strip("/"), (like + like.dtype.type(1)).astype(like.dtype))
    return r


def as_dict(rng, cols, names=()):
    d = {k: swapped(rng, relayouted(rng, a)) for k, a in cols.items()}
    d.update(decoys(rng, cols, names))
    if rng.random() < 0.5:
        for i in range(rng.randint(1, 3)):
            d[f"unused {i}"] = unused(rng, next(iter(cols.values())).shape[0])
    return shuffled(rng, d)


def struct_ok(cols):
    return len({a.shape[0] for a in cols.values()}) == 1


def as_struct(rng, cols, extra=None, names=()):
    n = next(iter(cols.values())).shape[0]
    cols = {**cols, **{k: v for k, v in decoys(rng, cols, names).items() if k not in cols}}
    names = list(cols)
    rng.shuffle(names)
    arrs = {k: swapped(rng, cols[k]) for k in names}
    fields = []
    for i, k in enumerate(names):
        a = arrs[k]
        if (extra is None or extra) and rng.random() < 0.2:
            fields.append((f"unused {i}", rng.choice(["f8", "U3", "i8", "V3", ("f4", (2, 2))]) if rng.random() < 0.9 else "u1"))
        fields.append((k, a.dtype) + ((a.shape[1:],) if a.ndim > 1 else ()))
    dt = np.dtype([f if not isinstance(f[1], tuple) else (f[0], f[1][0], f[1][1]) for f in fields], align=rng.random() < 0.3)
    s = np.zeros(n, dtype=dt)
    for k in names:
        s[k] = arrs[k]
    r = rng.random()
    if r < 0.1:
        big = np.zeros(2 * n, dtype=dt)
        big[::2] = s
        s = big[::2]
    elif r < 0.2:
        s = s[::-1].copy()[::-1]
    elif r < 0.3:
        s = s.view(np.recarray)
    elif r < 0.4:
        s.flags.writeable = False
    return s


def as_h5(rng, cols, ctx, names=()):
    import h5py
    path = ctx.path(rng.choice([".h5", ".hdf5", ".H5", ".x.h5"]))
    if getattr(rng, "h5_name", None) and rng.random() < 0.6:        # the name of the file before it
        path = rng.h5_name
        if rng.random() < 0.7:
            os.unlink(path)
        ctx.count("h5_replaced")
    elif hasattr(rng, "h5_name"):
        rng.h5_name = path
    items = list(cols.items())
    if rng.random() < 0.4:
        items += [(f"unused/{i}", np.arange(3 + i)) for i in range(rng.randint(1, 3))]
    rng.shuffle(items)
    with h5py.File(path, "w") as f:
        for k, a in items:
            a = swapped(rng, a)
            r = rng.random()
            if r < 0.2 and a.shape[0]:
                f.create_dataset(k, data=a, chunks=(max(1, a.shape[0] // 2),) + a.shape[1:])
            elif r < 0.35 and a.size:
                f.create_dataset(k, data=a, compression="gzip", shuffle=rng.random() < 0.5)
            elif r < 0.45 and a.size:
                d = f.create_dataset(k, shape=a.shape, dtype=a.dtype, maxshape=(None,) + a.shape[1:])
                d[...] = a
            else:
                f.create_dataset(k, data=a)
        for k, a in decoys(rng, cols, names).items():
            try:
                if k not in f:
                    f[k] = a
            except Exception:           # a group of that name, or a dataset where a group would be needed
                pass
    return pathlib.Path(path) if rng.random() < 0.3 else path


def variant(rng, p, cols, kind, ctx):
    """The program with the columns (dataset name -> array) supplied in another way: (program, write overrides)."""
    q = spec.Program(p.file_kw)
    q.write_kw = {k: v for k, v in p.write_kw.items() if k != "data"}
    q._n = p._n
    inline = set(cols) if kind == "inline" else {k for k in cols if rng.random() < 0.5} if kind == "mixed" else set()
    for op in p.ops:
        if op[0] == "add" and op[3] == "channel" and op[5].get("dataset_name") in inline:
            kw = dict(op[5])
            ds = kw["dataset_name"]
            kw["data"] = swapped(rng, relayouted(rng, cols[ds]))
            op = op[:5] + (kw,)
        q.ops.append(op)
    rest = {k: v for k, v in cols.items() if k not in inline}
    over = {}
    # no decoys under the dataset names of inline channels
    names = [op[4] for op in p.ops if op[0] == "add" and op[3] == "channel"] if not inline else []
    if kind in ("dict", "mixed") and rest:
        over["data"] = as_dict(rng, rest, names) if not inline else as_dict(rng, rest)
        for k in inline:
            over["data"].pop(k, None)
    elif kind == "struct":
        over["data"] = as_struct(rng, rest, names=names)
    elif kind == "h5":
        over["data"] = as_h5(rng, rest, ctx, names)
    return q, over


def chunk(rng, n):
    return rng.choice([None, 1, 2, 3, n, max(1, n - 1), n + 1, rng.randint(1, n + 1)])


class Group:
    """Files which must be identical."""

    def __init__(self, ctx):
        self.ctx, self.raw, self.first = ctx, None, None

    def add(self, what, runner, over):
        ctx = self.ctx
        path = ctx.path()
        runner.write(path, **{"output_chunk_size": 1 << 18, **over})
        raw = work.read(path)
        os.unlink(path)
        ctx.count("executions")
        if self.raw is None:
            self.raw, self.first = raw, what
            return True
        ctx.count("comparisons")
        if raw != self.raw:
            n = min(len(raw), len(self.raw))
            i = next((i for i in range(n) if raw[i] != self.raw[i]), n)
            diff = localise(self.raw, raw)
            raise Violation("bytes.differ", f"{what}: {len(raw)} bytes, {self.first}: {len(self.raw)} bytes; first difference at "
                                            f"{i}: {diff}")
        return False


def localise(a, b):
    try:
        x, y = rp66.parse(a), rp66.parse(b)
    except Exception as e:
        return f"not decodable: {e}"
    for r, s in zip(x.physical.records, y.physical.records):
        if r.body != s.body or r.type != s.type:
            i = next((i for i in range(min(len(r.body), len(s.body))) if r.body[i] != s.body[i]), min(len(r.body), len(s.body)))
            return (f"record {r.index} ({'EFLR' if r.is_eflr else 'IFLR'} type {r.type}): ..{r.body[max(0, i - 40):i + 12]!r} / "
                    f"..{s.body[max(0, i - 40):i + 12]!r}")
    return f"{len(x.physical.records)} / {len(y.physical.records)} records"


def run_group(ctx, p, cols, kinds, window=None, what=("objects", "frames")):
    """All kinds of sources x (window, pre-sliced)."""
    rng = ctx.rng
    g = Group(ctx)
    n = min(a.shape[0] for a in cols.values())
    pre = cols
    wkw = {}
    if window is not None:
        a, b = window
        pre = {k: v[a:b] for k, v in cols.items()}
        n = min(v.shape[0] for v in pre.values())
        if a or rng.random() < 0.5:
            wkw["from_idx"] = a
        if b is not None:
            wkw["to_idx"] = b
    jobs = [(k, False) for k in kinds] + ([(k, True) for k in kinds if rng.random() < 0.6 or len(kinds) == 1]
                                          if window is not None else [])
    rng.shuffle(jobs)
    for kind, sliced in jobs:
        q, over = variant(rng, p, pre if sliced else cols, kind, ctx)
        if not sliced:
            over.update(wkw)
        c = chunk(rng, n)
        over["input_chunk_size"] = c
        runner = spec.Runner(q)
        try:
            runner.build()
            first = g.add(f"{kind}{' pre-sliced' if sliced else f' {window}' if window else ''}, input_chunk_size={c}", runner, over)
        except (Violation, rp66.Malformed):
            raise
        except Exception as e:
            raise Violation("refused", f"{kind} sliced={sliced} window={window} {type(e).__name__}: {e}") from e
        if window is not None:
            ctx.count("windows")
        if first:
            spec.compare(p, rp66.parse(g.raw), data=pre, window=(0, None), what=what)
            ctx.count("decoded")
        ctx.distinct((kind, sliced, window, c is None or (c > n) - (c < n)))
    return g


def run_spec(ctx):
    rng = ctx.rng
    windowed = rng.random() < 0.6
    g = gen.SpecGen(rng, deterministic=True, sources=("dict",), windows=windowed, rows=(1, 12), n_lf=(1, 3), extra=(0, 6),
                    unassigned_channels=False)
    p = g.generate()
    p.write_kw = {}
    cols = dict(g.external)
    ctx.sample(p.describe(500))
    if not cols:
        return
    kinds = [k for k in (*KINDS4, "mixed") if k != "struct" or struct_ok(cols)]
    window = None
    if struct_ok(cols) and windowed:
        n = next(iter(cols.values())).shape[0]
        a = rng.randrange(n)
        window = (a, rng.choice([None, rng.randint(a + 1, n)]))
    run_group(ctx, p, cols, kinds, window, what=("objects", "attrs", "refs", "frames", "nofmt", "header"))


def frames_program(rng, n, n_frames=(1, 2), index=0.5, casts=0.3, names=None, width=5, dts=gen.DTYPES):
    p = spec.Program({"max_record_length": rng.choice([8192, 128, 64])})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09")
    cols = {}
    i = 0
    pool = None
    if rng.random() < 0.4:       # the datasets are named like other channels
        pool = [f"C{k}" for k in range(1, 9)] + [f"G/C{k}" for k in range(1, 9)]
        pool = rng.sample(pool, len(pool))
    for f in range(rng.randint(*n_frames)):
        chans = []
        for j in range(rng.randint(1, 4)):
            i += 1
            shape = (n,) if rng.random() < 0.6 or j == 0 else (n, rng.randint(1, width))
            arr = gen.array(rng, rng.choice(dts), shape, special=rng.random() < 0.3)
            ds = rng.choice([f"d{i}", f"grp/d{i}", f"/d{i}", f"a b{i}", f"grp/sub/{i}"])
            if pool:
                ds = pool[i - 1]
            kw = {}
            if rng.random() < casts:
                kw["cast_dtype"] = gen.safe_cast(rng, arr.dtype, arr)
            cols[ds] = arr
            chans.append(p.add(lf, "channel", f"C{i}", dataset_name=ds, **kw))
        fkw = {"index_type": "BOREHOLE-DEPTH"} if rng.random() < index else {}
        p.add(lf, "frame", f"F{f}", channels=chans, **fkw)
    return p, lf, cols


def run_win(ctx):
    """Every window."""
    rng = ctx.rng
    n = rng.randint(1, 9)
    p, lf, cols = frames_program(rng, n)
    ctx.sample(p.describe(500))
    windows = [(a, b) for a in range(n) for b in list(range(a + 1, n + 1)) + [None]]
    for win in (windows if len(windows) < 20 else rng.sample(windows, 16)):
        kinds = KINDS4 if rng.random() < 0.5 else (rng.choice(KINDS4),)
        run_group(ctx, p, cols, kinds, win)


def run_far(ctx, n):
    """Windows which begin or end hundreds or thousands of rows into the data."""
    rng = ctx.rng
    n += rng.randint(-20, 20)
    p, lf, cols = frames_program(rng, n, n_frames=(1, 1), width=2, index=0.2)
    edges = [x for x in (0, 1, 127, 128, 255, 256, 257, 999, 4095, 4096, 16383, 16384, 32767, 32768, 65535, 65536, n // 2, n - 300,
                         n - 2, n - 1) if 0 <= x < n]
    for _ in range(2):
        a = rng.choice([rng.choice(edges), rng.randrange(n)])
        b = rng.choice([None, n, min(n, a + rng.randint(1, 400)), min(n, a + rng.choice([1, 255, 256, 257])),
                        max(a + 1, rng.choice(edges))])
        run_group(ctx, p, cols, (rng.choice(KINDS4),), (a, b))
        ctx.count("far_windows")


def run_alias(ctx):
    """Several channels over one dataset; dataset names assigned after the creation of the channels."""
    rng = ctx.rng
    n = rng.randint(1, 6)
    p, lf, cols = frames_program(rng, n, index=0)
    chans = [op for op in p.ops if op[0] == "add" and op[3] == "channel"]
    target = {}
    # each channel refers to an arbitrary dataset; an inline array is given for each name at creation of its channel
    q = spec.Program(p.file_kw)
    q._n = p._n
    names = list(cols)
    for op in chans:
        target[op[2]] = rng.choice(names)
    late = []
    for op in p.ops:
        if op[0] == "add" and op[3] == "channel":
            kw = dict(op[5])
            own = kw["dataset_name"]
            t = target[op[2]]
            a = cols[t]
            kw.pop("cast_dtype", None)
            if rng.random() < 0.3:
                kw["cast_dtype"] = gen.safe_cast(rng, a.dtype, a)
            op = op[:5] + (kw,)
            if t != own:
                late.append((op[2], t))
        q.ops.append(op)
    rng.shuffle(late)
    for oid, t in late:
        q.py(Ref(oid), "dataset_name", t)
        ctx.count("aliases")
    a = rng.randrange(n)
    window = rng.choice([None, (a, None), (a, rng.randint(a + 1, n))])
    run_group(ctx, q, cols, ("dict", "struct", "h5", "inline"), window)


def run_reuse(ctx):
    """One DLISFile, written from all kinds of sources in turn, with changing windows."""
    rng = ctx.rng
    n = rng.randint(1, 8)
    p, lf, cols = frames_program(rng, n)
    runner = spec.Runner(p)
    runner.build()
    groups = {}
    rng.h5_name = None
    versions = [cols, {k: np.roll(v, 1, axis=0) for k, v in cols.items()}]
    for i in range(rng.randint(3, 6)):
        kind = rng.choice(("dict", "struct", "h5", "h5"))
        ver = int(rng.random() < 0.4)
        cols = versions[ver]
        a = rng.randrange(n)
        window = rng.choice([(0, None), (a, None), (a, rng.randint(a + 1, n))])
        key = (window[0], window[1] or n, ver)
        if key not in groups:
            groups[key] = Group(ctx)
            q2, over2 = variant(rng, p, {k: v[slice(*window)] for k, v in cols.items()}, rng.choice(KINDS4), ctx)
            r2 = spec.Runner(q2)
            r2.build()
            groups[key].add("fresh pre-sliced", r2, over2)
            spec.compare(p, rp66.parse(groups[key].raw), data=cols, window=window, what=("objects", "frames"))
            ctx.count("decoded")
        q, over = variant(rng, p, cols, kind, ctx)
        over.update({"from_idx": window[0], "to_idx": window[1]})
        over["input_chunk_size"] = c = chunk(rng, n)
        groups[key].add(f"write {i} from {kind}, window {window}, chunk {c}", runner, over)
        ctx.count("windows")


def run_direct(ctx):
    """Structured arrays that coincide with the layout of the frame, or nearly."""
    rng = ctx.rng
    n = rng.randint(2, 9)
    p, lf, cols = frames_program(rng, n, n_frames=(1, 1), casts=0.15)
    if rng.random() < 0.5:      # the names of the channels and of the datasets coincide
        cols = {f"C{i + 1}": a for i, a in enumerate(cols.values())}
        p.ops = [op[:5] + ({**op[5], "dataset_name": op[4]},) if op[0] == "add" and op[3] == "channel" else op for op in p.ops]
    elif rng.random() < 0.3 and len(cols) > 1:      # each channel takes the dataset named like another one; often of equal types
        first = next(iter(cols.values()))
        if rng.random() < 0.7:
            cols = {k: gen.array(rng, first.dtype.name, first.shape) for k in cols}
        target = [f"C{i + 1}" for i in range(len(cols))]
        rng.shuffle(target)
        cols = {t: a for t, a in sorted(zip(target, cols.values()), key=lambda x: int(x[0][1:]))}
        it = iter(target)
        p.ops = [op[:5] + ({k: v for k, v in op[5].items() if k != "cast_dtype"} | {"dataset_name": next(it)},)
                 if op[0] == "add" and op[3] == "channel" else op for op in p.ops]
        ctx.count("crossed")
    names = list(cols)
    near = rng.choice(["same", "same", "same", "permuted", "swapped", "extra", "subset", "align"])
    if near == "permuted" and len(names) > 1:
        rng.shuffle(names)
    arrs = {k: cols[k] for k in names}
    if near == "swapped":
        k = rng.choice(names)
        if arrs[k].dtype.itemsize > 1:
            arrs[k] = np.ascontiguousarray(arrs[k]).byteswap().view(arrs[k].dtype.newbyteorder())
    fields = [(k, a.dtype) + ((a.shape[1:],) if a.ndim > 1 else ()) for k, a in arrs.items()]
    if rng.random() < 0.2:
        # (width,) fields of one element
        fields = [f if len(f) == 3 else f for f in fields]
    if near == "extra":
        fields.insert(rng.randint(0, len(fields)), ("unused", "f8"))
    s = np.zeros(n, dtype=np.dtype(fields, align=near == "align"))
    for k, a in arrs.items():
        s[k] = a
    if rng.random() < 0.2:
        s = np.repeat(s, 2)[::2]
    for _ in range(3):
        a = rng.randrange(n)
        window = rng.choice([(0, None), (a, None), (a, rng.randint(a + 1, n)), (0, rng.randint(1, n))])
        g = Group(ctx)
        pre = {k: v[slice(*window)] for k, v in cols.items()}
        q, over = variant(rng, p, pre, rng.choice(("inline", "dict")), ctx)
        r = spec.Runner(q)
        r.build()
        g.add("pre-sliced", r, over)
        spec.compare(p, rp66.parse(g.raw), data=pre, what=("objects", "frames"))
        ctx.count("decoded")
        for c in {chunk(rng, n) for _ in range(3)}:
            r = spec.Runner(p)
            r.build()
            g.add(f"structured array ({near}), window {window}, chunk {c}", r,
                  {"data": s, "from_idx": window[0], "to_idx": window[1], "input_chunk_size": c})
            ctx.count("windows")
            ctx.distinct(("direct", near, window, c))


def run_void(ctx):
    """Windows with no rows or rows which do not exist: nothing but those rows may be written."""
    rng = ctx.rng
    n = rng.randint(1, 9)
    p, lf, cols = frames_program(rng, n)
    k = rng.randrange(n)
    for win in rng.sample([(0, 0), (k, k), (k, 0), (n, None), (n, n), (0, n + 1), (k, n + 1), (n + 1, None), (-1, None), (-n, None),
                           (-n, n), (-1, n), (0, -1), (0, -n), (k, -1), (k + 1, k), (n, 0), (0, n + 10 ** 6), (10 ** 6, None)], 8):
        for kind in KINDS4:
            q, over = variant(rng, p, cols, kind, ctx)
            over["from_idx"] = win[0]
            if win[1] is not None:
                over["to_idx"] = win[1]
            over["input_chunk_size"] = c = chunk(rng, n)
            path = ctx.path()
            r = spec.Runner(q)
            r.build()
            ctx.count("void_windows")
            ctx.distinct(("void", kind, win, n))
            try:
                r.write(path, **over)
            except Exception:
                continue
            lo, hi = win[0], n if win[1] is None else win[1]
            where = f"{kind}, {n} rows, window {win}, chunk {c}"
            if lo < 0 or hi < 0 or hi > n or lo > n:
                raise Violation("window.accepted", f"{where}: a file was written although there are no such rows")
            d = rp66.parse(work.read(path))
            rows = sum(len(f.iflrs) for f in d.files)
            if rows:
                raise Violation("window.rows", f"{where}: {rows} frame data records written")


def run_case(case, ctx):
    {"spec": run_spec, "win": run_win, "alias": run_alias, "reuse": run_reuse, "direct": run_direct, "void": run_void,
     "far": run_far}[case[0]](ctx, *(case[1:2] if case[0] == "far" else ()))
