"""C19: writing never alters the caller's data."""
import collections
import contextlib
import hashlib
import os
import resource
import signal
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import Ref, Runner
from ..core import Violation

RULE = ("Random specifications whose arrays are embedded in caller-owned buffers (views with guard bytes, strided, reversed, "
        "transposed, unaligned, broadcast, read-only, memory-mapped, sub-classed, shared between channels, byte-swapped; "
        "structured arrays that are slices, records, aligned, or of exactly the chunk type; dicts and sub-classes of dict; "
        "HDF5 files with several layouts, read-only, reached over links). Every buffer, view, dict and file is recorded "
        "before and compared after writes ('ok'), writes that fail at 18 kinds of points ('fail', including full disk, "
        "interruption at a random moment, and a source that breaks down after n reads), and repeated ones. Distinct: "
        "(source, layouts, dtype, cast, chunking, window, outcome).")
MINIMUM = {"arrays_checked": 4000, "buffers_checked": 4000, "dicts_checked": 300, "h5_checked": 100, "failed_writes": 400,
           "late_failures": 80}
ASSUMPTIONS = ["the output file is not one of the caller's data files, apart from the HDF5 source"]


def plan(tier, seed):
    quick = tier == "quick"
    m = 2 if quick else 40
    return ([["ok", i] for i in range(900 * m)] + [["fast", i] for i in range(250 * m)] +
            [["fail", k, i] for k in FAILURES for i in range(45 * m)])


# ------------------------------------------------------------------ buffers

class Flaky(np.ndarray):
    """An array that breaks down after a number of reads."""
    budget = None

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, i):
        if Flaky.budget is not None:
            Flaky.budget -= 1
            if Flaky.budget < 0:
                raise OSError("source broke down")
        return super().__getitem__(i)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a[()] if return_scalar else a


class Sub(np.ndarray):
    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a[()] if return_scalar else a


class Watch:
    """What the caller owns."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.buffers = []        # (root array, bytes)
        self.arrays = []         # (label, array, description, bytes)
        self.dicts = []          # (dict, items)
        self.files = []          # (path, digest, mtime, size, mode)
        self.dirs = {}
        self.layouts = collections.Counter()
        self.maps = []

    def array(self, a, label):
        self.arrays.append((label, a, describe(a), content(a)))

    def root(self, r):
        self.buffers.append((r, r.tobytes()))

    def dict(self, d):
        self.dicts.append((d, [(k, id(v), v) for k, v in d.items()], type(d)))

    def file(self, path):
        self.files.append((path, file_state(path)))

    # -- embedding
    def embed(self, a, rng, dt=None):
        """An array of the same values living in a buffer of the caller."""
        if not a.size or a.dtype.names:
            self.array(a, "plain")
            return a
        how = rng.choice(EMBED)
        self.layouts[how] += 1
        item = a.dtype.itemsize
        guard = lambda n: np.frombuffer(rng.randbytes(n), dtype="u1")     # noqa: E731
        if how == "plain":
            r = np.ascontiguousarray(a).copy()
            v = r
        elif how == "guarded":
            off = rng.randint(0, 3) * item
            r = guard(off + a.nbytes + 2 * item).copy()
            v = r[off:off + a.nbytes].view(a.dtype).reshape(a.shape)
        elif how == "unaligned":
            r = guard(1 + a.nbytes + 3).copy()
            v = r[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        elif how == "column":
            r = np.zeros((a.shape[0], 3) + a.shape[1:], dtype=a.dtype)
            v = r[:, 1]
        elif how == "strided":
            r = np.ones((3 * a.shape[0] + 1,) + a.shape[1:], dtype=a.dtype)
            v = r[1::3]
        elif how == "reversed":
            r = np.ones((a.shape[0] + 2,) + a.shape[1:], dtype=a.dtype)
            v = r[-2:0:-1]
        elif how == "fortran":
            r = np.zeros(tuple(reversed(a.shape)), dtype=a.dtype)
            v = r.T
        elif how == "field":
            r = np.zeros(a.shape, dtype=[("p", "u1"), ("v", a.dtype), ("q", "f8")])
            v = r["v"]
        elif how == "readonly":
            r = np.ascontiguousarray(a).copy()
            v = r[:]
        elif how == "bytes":
            b = np.ascontiguousarray(a).tobytes()
            v = np.frombuffer(b, dtype=a.dtype).reshape(a.shape)
            r = v
        elif how == "bytearray":
            b = bytearray(np.ascontiguousarray(a).tobytes())
            v = np.frombuffer(b, dtype=a.dtype).reshape(a.shape)
            r = v
        elif how == "memmap":
            path = self.ctx.path(".bin")
            with open(path, "wb") as f:
                f.write(b"\x5a" * 16 + np.ascontiguousarray(a).tobytes() + b"\xa5" * 9)
            mode = rng.choice(["r+", "r", "c"])
            v = np.memmap(path, dtype=a.dtype, mode=mode, offset=16, shape=a.shape)
            self.file(path)
            r = v
        elif how == "subclass":
            r = np.ascontiguousarray(a).copy()
            v = r.view(Sub)
        elif how == "swapped":         # the other byte order, in a view with the same values
            r = np.ascontiguousarray(a).astype(a.dtype.newbyteorder("S"))
            v = r[:]
        else:
            raise KeyError(how)
        if how not in ("guarded", "unaligned") and v.flags.writeable and how not in ("bytes", "memmap", "bytearray"):
            v[...] = a
        elif how in ("guarded", "unaligned"):
            v[...] = a
        if how in ("readonly",) or v.flags.writeable and rng.random() < 0.15:
            v.flags.writeable = False
            if rng.random() < 0.5 and isinstance(r, np.ndarray) and r is not v:
                pass        # only the view is read-only
            else:
                r.flags.writeable = False
        self.root(r if isinstance(r, np.ndarray) else v)
        self.array(v, how)
        return v

    # -- verdict
    def check(self, where):
        ctx = self.ctx
        for label, a, d, b in self.arrays:
            ctx.count("arrays_checked")
            if describe(a) != d:
                raise Violation("array.form", f"{where}: {label} array {d} became {describe(a)}")
            if content(a) != b:
                raise Violation("array.content", f"{where}: {label} array {d} was altered: {first_difference(b, content(a))}")
        for r, b in self.buffers:
            ctx.count("buffers_checked")
            if r.tobytes() != b:
                raise Violation("buffer", f"{where}: buffer of {r.nbytes} bytes was altered: {first_difference(b, r.tobytes())}")
        for d, items, tp in self.dicts:
            ctx.count("dicts_checked")
            now = [(k, id(v)) for k, v in d.items()]
            if now != [(k, i) for k, i, v in items] or type(d) is not tp:
                raise Violation("dict", f"{where}: the dict has keys {list(d)}, had {[k for k, i, v in items]}")
        for path, st in self.files:
            now = file_state(path)
            ctx.count("h5_checked" if path.endswith((".h5", ".HDF5")) else "mapped_files_checked")
            if now != st:
                raise Violation("file", f"{where}: {path} {st} became {now}")


EMBED = ["plain", "guarded", "guarded", "unaligned", "column", "strided", "reversed", "fortran", "field", "readonly", "bytes",
         "bytearray", "memmap", "subclass", "swapped"]


def describe(a):
    return (a.dtype.str if a.dtype.names is None else str(a.dtype), a.shape, a.strides, a.flags.writeable,
            a.__array_interface__["data"][0], type(a).__name__)


def content(a):
    """Bytes of the values (not the padding) of an array."""
    return a.tobytes() if a.dtype.names is None else b"".join(a[k].tobytes() for k in a.dtype.names)


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"byte {i}: {a[i:i + 8].hex()} -> {b[i:i + 8].hex()}"
    return f"length {len(a)} -> {len(b)}"


def file_state(path):
    with open(path, "rb") as f:
        h = hashlib.sha1(f.read()).hexdigest()
    st = os.stat(path)
    return h, st.st_size


# ------------------------------------------------------------------ sources

DICTS = [dict, collections.OrderedDict, lambda d: collections.defaultdict(lambda: np.zeros(3), d), type("D", (dict,), {})]


def own(ctx, w, p, data, struct=True):
    """Replace the arrays of a program by arrays of the caller. Returns what kind of source there is."""
    rng = ctx.rng
    kind = "inline"
    for i, op in enumerate(p.ops):
        if op[0] == "add" and op[3] == "channel" and op[5].get("data") is not None:
            a = op[5]["data"]
            p.ops[i] = op[:5] + ({**op[5], "data": w.embed(a, rng)},)
    src = p.write_kw.get("data")
    if isinstance(src, np.ndarray):
        kind = "struct"
        p.write_kw["data"] = own_struct(ctx, w, src)
    elif isinstance(src, dict):
        kind = "dict"
        d = {}
        for k, a in src.items():
            d[k] = w.embed(a, rng)
        # the same array under another key
        if rng.random() < 0.2 and d:
            d["again"] = next(iter(d.values()))
        d = rng.choice(DICTS)(d)
        p.write_kw["data"] = d
        w.dict(d)
    elif data is not None:
        kind = "h5"
    return kind


def own_struct(ctx, w, s):
    rng = ctx.rng
    how = rng.choice(["plain", "slice", "strided", "reversed", "readonly", "recarray", "memmap", "bytes", "unaligned"])
    w.layouts["struct " + how] += 1
    if how == "plain":
        r = v = s.copy()
    elif how == "slice":
        r = np.zeros(len(s) + 5, s.dtype)
        r.view("u1")[...] = 0x33
        v = r[2:2 + len(s)]
        v[...] = s
    elif how == "strided":
        r = np.zeros(2 * len(s) + 1, s.dtype)
        v = r[1::2]
        v[...] = s
    elif how == "reversed":
        r = np.zeros(len(s), s.dtype)
        v = r[::-1]
        v[...] = s
    elif how == "readonly":
        r = s.copy()
        v = r[:]
        v.flags.writeable = False
    elif how == "recarray":
        r = s.copy()
        v = r.view(np.recarray)
    elif how == "memmap":
        path = ctx.path(".bin")
        with open(path, "wb") as f:
            f.write(s.tobytes())
        v = np.memmap(path, dtype=s.dtype, mode=rng.choice(["r+", "c", "r"]), shape=s.shape)
        w.file(path)
        r = v
    elif how == "bytes":
        v = np.frombuffer(s.tobytes(), dtype=s.dtype)
        r = v
    else:
        r = np.frombuffer(b"\x77" * (s.nbytes + 4), dtype="u1").copy()
        v = r[1:1 + s.nbytes].view(s.dtype)
        v[...] = s
    w.root(r)
    w.array(v, "struct " + how)
    return v


def own_h5(ctx, w, columns):
    """An HDF5 file of the caller."""
    import h5py
    rng = ctx.rng
    path = ctx.path(rng.choice([".h5", ".h5", ".HDF5"]))
    kw = {}
    if rng.random() < 0.2:
        kw["userblock_size"] = 512
    with h5py.File(path, "w", libver=rng.choice([None, "earliest", "latest"]), **kw) as f:
        for k, a in columns.items():
            r = rng.random()
            if r < 0.2 and a.size:
                f.create_dataset(k, data=a, chunks=True, compression="gzip", shuffle=True)
            elif r < 0.3 and a.size:
                f.create_dataset(k, data=a, chunks=True, fletcher32=True, maxshape=(None,) + a.shape[1:])
            elif r < 0.4 and a.size:
                ds = f.create_dataset(k, shape=a.shape, dtype=a.dtype)
                ds[...] = a
                ds.attrs["unit"] = "m"
            else:
                f.create_dataset(k, data=a)
        if rng.random() < 0.3 and "other" not in f:
            f.create_dataset("other", data=np.arange(10))
    if rng.random() < 0.2:
        os.chmod(path, 0o444)
    w.file(path)
    given = path
    r = rng.random()
    if r < 0.1:
        given = path[:path.rindex(".")] + "-link.h5"
        os.symlink(path, given)
    elif r < 0.2:
        import pathlib
        given = pathlib.Path(path)
    if rng.random() < 0.1:
        keep = h5py.File(path, "r")     # the caller reads the file as well
        w.maps.append(keep)
    w.dirs["h5"] = 1
    return given


def make(ctx, **opts):
    rng = ctx.rng
    opts = {"n_lf": (1, 2), "rows": (1, 9), "extra": (0, 3), "frames": (1, 3), "channels": (1, 4), "density": 0.15,
            "nofmt": (0, 1), "windows": rng.random() < 0.35, "mrl": rng.choice([64, 256, 8192, 16384]), **opts}
    g = gen.SpecGen(rng, **opts)
    p = g.generate()
    w = Watch(ctx)
    data = g.h5_data
    override = {}
    kind = own(ctx, w, p, data)
    if data is not None:
        override = {"data": own_h5(ctx, w, data)}
    if rng.random() < 0.5:
        p.write_kw["input_chunk_size"] = rng.choice([1, 2, 3, 5, 100])
    p.write_kw["output_chunk_size"] = rng.choice([p.file_kw["max_record_length"], 20000, 1 << 17])
    return p, override, data, w, kind


# ------------------------------------------------------------------ cases

def key(p, w, kind, outcome):
    dts = sorted({(a.dtype.str if a.dtype.names is None else "struct") for _, a, _, _ in w.arrays})
    return (kind, tuple(sorted(w.layouts)), tuple(dts), p.write_kw.get("input_chunk_size"), "from_idx" in p.write_kw, outcome)


def finish(w):
    for m in w.maps:
        with contextlib.suppress(Exception):
            m.close()


def run_ok(ctx):
    p, override, data, w, kind = make(ctx)
    ctx.sample(f"{kind} {dict(w.layouts)}\n{p.describe(400)}")
    ctx.count("executions")
    r = Runner(p)
    try:
        r.build()
        w.check("after building")
        path = ctx.path()
        for k in range(ctx.rng.choice([1, 1, 2])):
            r.write(path, **override)
            w.check(f"after write {k + 1}")
            ctx.count("writes")
        # the values were used as they are
        res = spec.compare(p, rp66.parse(work.read(path)), r.t0, r.t1, data=data, what=("objects", "frames"))
        ctx.count("rows_compared", res.rows)
    finally:
        finish(w)
    ctx.distinct(key(p, w, kind, "ok"))
    if ctx.rng.random() < 0.3:          # as iterators, without a file
        with contextlib.suppress(Exception):
            for rec in r.df.generate_logical_records(chunk_size=2, data=override.get("data", p.write_kw.get("data"))):
                rec.represent_as_bytes()
        w.check("after generating the records")


def run_fast(ctx):
    """Structured arrays of exactly the type of the chunks, passed on as views; every byte order."""
    rng = ctx.rng
    w = Watch(ctx)
    n = rng.randint(1, 30)
    k = rng.randint(1, 4)
    cols = []
    for i in range(k):
        dt = np.dtype(rng.choice(["u1", "u2", "u4", "i1", "i2", "i4", "f4", "f8"])).newbyteorder(rng.choice("=<>="))
        cols.append((f"C{i}", dt) + ((rng.randint(1, 4),) if rng.random() < 0.3 else ()))
    s = np.zeros(n, dtype=np.dtype(cols, align=rng.random() < 0.2))
    s.view("u1")[...] = np.frombuffer(rng.randbytes(s.nbytes), dtype="u1")
    for nm in s.dtype.names:
        if s.dtype[nm].base.kind == "f":
            s[nm] = np.arange(s[nm].size).reshape(s[nm].shape)
    v = own_struct(ctx, w, s)
    as_dict = rng.random() < 0.25
    p = spec.Program({"max_record_length": rng.choice([64, 8192])})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    order = list(s.dtype.names)
    if rng.random() < 0.25:
        rng.shuffle(order)
    if rng.random() < 0.2:
        order = order[:rng.randint(1, len(order))]
    chans = []
    for nm in order:
        kw = {"dataset_name": nm} if rng.random() < 0.3 else {}
        if rng.random() < 0.2:
            kw["cast_dtype"] = gen.safe_cast(rng, s.dtype[nm].base, s[nm]) if s.dtype[nm].base.kind != "f" else np.float64
        chans.append(p.add(lf, "channel", nm, **kw))
    fkw = {"index_type": "BOREHOLE-DEPTH"} if rng.random() < 0.6 and len(s.dtype[order[0]].shape) == 0 else {}
    p.add(lf, "frame", "F", channels=chans, **fkw)
    if rng.random() < 0.3:
        p.add(lf, "frame", "G", channels=[rng.choice(chans)])
    src = v
    if as_dict:         # fields of one record array
        src = {nm: v[nm] for nm in s.dtype.names}
        for a in src.values():
            w.array(a, "field")
        w.dict(src)
    p.write_kw = {"data": src, "output_chunk_size": 20000}
    if rng.random() < 0.6:
        p.write_kw["input_chunk_size"] = rng.choice([1, 2, 3, n, 100])
    if rng.random() < 0.4:
        p.write_kw["from_idx"] = rng.randint(0, n - 1)
        if rng.random() < 0.6:
            p.write_kw["to_idx"] = rng.randint(p.write_kw["from_idx"] + 1, n)
    ctx.count("executions")
    ctx.sample(f"{dict(w.layouts)}\n{p.describe(400)}")
    r = Runner(p)
    r.build()
    path = ctx.path()
    for i in range(2):
        r.write(path)
        w.check(f"after write {i + 1}")
        ctx.count("writes")
    res = spec.compare(p, rp66.parse(work.read(path)), r.t0, r.t1, what=("objects", "frames"))
    ctx.count("rows_compared", res.rows)
    ctx.distinct(key(p, w, "fast dict" if as_dict else "fast", "ok"))


class Interrupt(BaseException):
    pass


@contextlib.contextmanager
def limited_size(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


@contextlib.contextmanager
def interrupted(seconds):
    def handler(*_):
        raise Interrupt()
    old = signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


FAILURES = ["directory", "is_directory", "disk_full", "disk_full", "interrupt", "interrupt", "flaky", "flaky", "missing", "rows",
            "window", "chunk", "dtype", "high_compat", "origin", "mixed", "target", "garbage", "dimensions", "late_frame", "value"]
FAILURES = list(dict.fromkeys(FAILURES))


def run_fail(ctx, what):
    rng = ctx.rng
    opts = {}
    if what in ("missing", "late_frame", "flaky", "rows", "dtype", "dimensions"):
        opts["sources"] = ("dict", "mixed", "inline")
    if what == "target":
        opts["sources"] = ("h5",)
    if what in ("disk_full", "interrupt", "flaky"):
        opts.update(rows=(20, 150), frames=(2, 3), mrl=rng.choice([64, 128]))
    p, override, data, w, kind = make(ctx, **opts)
    path = ctx.path()
    over = dict(override)
    guard = contextlib.nullcontext()
    repaired, budget = True, None
    src = p.write_kw.get("data")
    tmp = []
    if what == "directory":
        path = os.path.join(ctx.scratch, "missing", "x.dlis")
    elif what == "is_directory":
        path = ctx.path()
        os.mkdir(path)
        tmp.append(path)
    elif what == "disk_full":
        guard = limited_size(rng.choice([0, 10, 80, 100, rng.randint(80, 3000), rng.randint(80, 30000)]))
        p.write_kw["output_chunk_size"] = rng.choice([p.file_kw["max_record_length"], 300])
    elif what == "interrupt":
        guard = interrupted(rng.uniform(0.0005, 0.03))
        p.write_kw["output_chunk_size"] = p.file_kw["max_record_length"]
    elif what == "flaky":
        convert_flaky(p, w)
        p.write_kw["input_chunk_size"] = rng.choice([1, 2, 10])
        budget = rng.choice([0, 1, 3, rng.randint(0, 300)])
    elif what == "missing":
        if not isinstance(src, dict):
            return
        used = [op[5].get("dataset_name") for op in p.ops if op[0] == "add" and op[3] == "channel"]
        ks = [k for k in src if k in used]
        if not ks:
            return
        over["data"] = d = type(src)({k: v for k, v in src.items() if k != rng.choice(ks)}) if \
            not isinstance(src, collections.defaultdict) else drop(src, rng.choice(ks))
        w.dict(d)
    elif what in ("rows", "late_frame", "dtype", "dimensions"):
        lf = next(op[1] for op in reversed(p.ops) if op[0] == "lf")
        good, bad = np.arange(4, dtype="f4"), np.arange(5, dtype="f4")
        if what == "dtype":
            bad = np.arange(4).astype(rng.choice(["i8", "u8", "f2", "?", "c16", "S3", "O"]))
        elif what == "dimensions":
            bad = np.zeros((4, 2, 2), "f4")
        good, bad = w.embed(good, rng), bad
        if bad.dtype != object:
            w.array(bad, "bad")
        sn = {"set_name": "BAD-" + lf}
        if what == "late_frame":
            cs = [p.add(lf, "channel", "GOOD", data=good, dataset_name="good!", **sn),
                  p.add(lf, "channel", "BAD", dataset_name="nowhere", **sn)]
        elif isinstance(src, dict):
            d = type(src)({**src, "good!": good, "bad!": bad}) if not isinstance(src, collections.defaultdict) else \
                collections.defaultdict(src.default_factory, {**src, "good!": good, "bad!": bad})
            p.write_kw["data"] = d
            w.dict(d)
            cs = [p.add(lf, "channel", "GOOD", dataset_name="good!", **sn), p.add(lf, "channel", "BAD", dataset_name="bad!", **sn)]
        else:
            cs = [p.add(lf, "channel", "GOOD", data=good, dataset_name="good!", **sn),
                  p.add(lf, "channel", "BAD", data=bad, dataset_name="bad!", **sn)]
        p.add(lf, "frame", "BADFRAME", channels=cs, **sn)
        repaired = False
    elif what == "window":
        over.update(rng.choice([{"from_idx": 10 ** 6}, {"from_idx": -1}, {"to_idx": 10 ** 6}, {"from_idx": 0, "to_idx": 0},
                                {"from_idx": 2, "to_idx": 1}, {"from_idx": "1"}, {"to_idx": 1.5}]))
    elif what == "chunk":
        over.update(rng.choice([{"input_chunk_size": 0}, {"input_chunk_size": -3}, {"input_chunk_size": "2"},
                                {"input_chunk_size": 2.0}, {"output_chunk_size": 1}, {"output_chunk_size": "x"},
                                {"output_chunk_size": -5}]))
    elif what == "origin":
        p.lf()
        repaired = False
    elif what == "mixed":
        s = np.zeros(3, dtype=[("A", "f4")])
        over["data"] = own_struct(ctx, w, s)
    elif what == "target":
        h5 = w.files[0][0]
        path = over["data"] if rng.random() < 0.4 else h5
        if rng.random() < 0.4:
            path = ctx.path("-hard.dlis")
            (os.link if rng.random() < 0.5 else os.symlink)(h5, path)
            w.files = [(f, file_state(f)) for f, st in w.files]
    elif what == "garbage":
        f = ctx.path(".h5")
        with open(f, "wb") as fh:
            fh.write(rng.choice([b"", rng.randbytes(300), b"\x89HDF\r\n\x1a\n" + rng.randbytes(100)]))
        w.file(f)
        over["data"] = f
    elif what == "value":
        lf = next(op[1] for op in reversed(p.ops) if op[0] == "lf")
        z = p.add(lf, "zone", "BADZONE", set_name="BAD-" + lf)
        p.set(z, "description", "caf\xe9")
    ctx.sample(f"{what} {kind} {dict(w.layouts)}\n{p.describe(300)}")
    ctx.count("executions")
    hc = what == "high_compat"
    r = Runner(p)
    outcome = "written"
    try:
        try:
            import dliswriter
            if hc:
                r.build()
                with dliswriter.high_compatibility_mode():
                    r.write(path, **over)
            else:
                r.build()
                Flaky.budget = budget
                with guard:
                    r.write(path, **over)
        except (Exception, Interrupt) as e:
            outcome = type(e).__name__
            ctx.count("failed_writes")
            if os.path.isfile(path) and os.path.getsize(path) > 80 or isinstance(e, (Interrupt, OSError)):
                ctx.count("late_failures")
        finally:
            Flaky.budget = None
        w.check(f"after the write failing by {what} ({outcome})")
        for t in tmp:
            os.rmdir(t)
        if repaired and what not in ("value", "high_compat"):       # and afterwards a good one
            path = ctx.path()
            r.write(path, **override)
            w.check(f"after the write following one failing by {what}")
            res = spec.compare(p, rp66.parse(work.read(path)), r.t0, r.t1, data=data, what=("objects", "frames"))
            ctx.count("rows_compared", res.rows)
    finally:
        finish(w)
    ctx.distinct((what, outcome) + key(p, w, kind, ""))


def drop(d, k):
    return collections.defaultdict(None, {x: v for x, v in d.items() if x != k})


def convert_flaky(p, w):
    """All arrays under the control of the budget."""
    def conv(a):
        v = a.view(Flaky)
        w.array(v, "flaky")
        return v
    for i, op in enumerate(p.ops):
        if op[0] == "add" and op[3] == "channel" and op[5].get("data") is not None:
            p.ops[i] = op[:5] + ({**op[5], "data": conv(op[5]["data"])},)
    src = p.write_kw.get("data")
    if isinstance(src, dict):
        d = {k: conv(v) for k, v in src.items()}
        p.write_kw["data"] = d
        w.dict(d)


def run_case(case, ctx):
    if case[0] == "ok":
        run_ok(ctx)
    elif case[0] == "fast":
        run_fast(ctx)
    else:
        run_fail(ctx, case[1])
