"""C10: chunk sizes are invisible; the file on disk only ever grows by whole records."""
import bisect
import logging
import os
import pathlib
import re
import sys
import numpy as np

from .. import work, rp66, spec, gen
from ..core import Violation

RULE = ("'chunks': random specifications (4 data sources, windows, several logical files, all record lengths), each written "
        "with a reference setting and then with input chunk sizes 1, divisors, non-divisors, the row count, larger, None x "
        "output chunk sizes (record length, between records, sums of consecutive records, exactly the file size and that "
        "without the label, each +-1, integral floats, larger) to targets absent, empty, shorter, longer, symlinked, named "
        "by str or Path; by new or the same DLISFile; 'rows': one frame, all input chunk sizes 1..rows+3; 'fault': the k-th "
        "opening of the target fails; 'hostile': chunk sizes which may be refused. Monitors: the reference is strictly "
        "parsed; at every flush (hook) and every opening of the target (audit event) the content on disk must be a prefix "
        "of the reference ending on a visible-record boundary, with the size reported by the hook. Distinct: (record "
        "length, number of flushes, input chunk relative to the rows).")
MINIMUM = {"comparisons": 4000, "disk_observations": 20000, "intermediate_flushes": 10000, "faults": 300}
ASSUMPTIONS = ["creation time and file set number are given by the user in compared specifications",
               "input chunk sizes below 1 and non-integral sizes may be refused"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["chunks", i] for i in range(480 if quick else 10000)]
    cases += [["rows", i] for i in range(110 if quick else 2500)]
    cases += [["fault", i] for i in range(180 if quick else 4000)]
    cases += [["hostile", i] for i in range(150 if quick else 1500)]
    cases += [["default", i] for i in range(0 if quick else 4)]
    cases += work.crowd_cases(quick, rows=2, objects=1, payloads=1, files=1)
    return cases


class Probe:
    """Observes the target file at each flush reported by the hook and each opening of it."""

    def __init__(self):
        self.target = None
        self.seen = []
        self.fail_at = None
        self.opens = 0
        self.reported = None
        self.log_total = None

    def observe(self, how, path, total=None):
        """Compare the content on disk with the reference: all of it now and then, otherwise what was added."""
        self.n += 1
        with open(path, "rb") as f:
            at = self.last if self.n % 20 else 0
            f.seek(at)
            new = f.read()
            size = f.seek(0, 2)
        ok = size >= at and self.raw[at:at + len(new)] == new
        self.seen.append((how, size, ok, total))
        self.last = size

    def start(self, path, raw, fail_at=None):
        self.target = os.path.realpath(path)
        self.raw = raw
        self.n = self.last = 0
        self.seen = []
        self.opens = 0
        self.fail_at = fail_at
        self.reported = self.log_total = None

    def stop(self):
        self.target = None

    def audit(self, event, args):
        if self.target is None or event != "open":
            return
        f = args[0]
        if not isinstance(f, (str, bytes)) or not args[2] & (os.O_WRONLY | os.O_RDWR):
            return
        t, self.target = self.target, None
        try:
            if os.path.realpath(os.fsdecode(f)) != t:
                return
            self.opens += 1
            if self.fail_at is not None and self.opens == self.fail_at:
                raise OSError(28, "injected failure")
            if self.opens > 1:          # the first one replaces the previous content
                self.observe("open", t)
        finally:
            self.target = t

    def flush(self, filename, total):
        if self.target is None:
            return
        t, self.target = self.target, None
        try:
            self.observe("flush", t, total)
            self.reported = total
        finally:
            self.target = t


PROBE = Probe()


class Totals(logging.Handler):
    def emit(self, record):
        m = re.search(r"[Tt]otal file size is (\d+)", record.getMessage())
        if m:
            PROBE.log_total = int(m.group(1))


def setup_worker(ctx):
    work.calibrate(ctx)
    if getattr(setup_worker, "done", False):
        return
    setup_worker.done = True
    sys.addaudithook(PROBE.audit)
    try:
        from dliswriter.utils.internal import verif_hooks
        verif_hooks.flush_sinks.append(PROBE.flush)
    except ImportError:
        pass
    lg = logging.getLogger("dliswriter")
    lg.setLevel(logging.INFO)
    lg.addHandler(Totals())
    lg.propagate = False


class Reference:
    def __init__(self, raw):
        self.raw = raw
        phys = rp66.parse(raw).physical
        self.bounds = [80] + [a + n for a, n in phys.vrs]
        if self.bounds[-1] != len(raw):
            raise Violation("reference.tail", f"{len(raw) - self.bounds[-1]} bytes after the last visible record")
        self.allowed = set(self.bounds)
        self.vrs = [n for a, n in phys.vrs]


def judge(ref, ctx, where, failed=False):
    """The observations of one write against the reference bytes."""
    last = 0
    for how, n, ok, total in PROBE.seen:
        ctx.count("disk_observations")
        if not ok or n > len(ref.raw):
            raise Violation("flush.prefix", f"{where}: content of {n} bytes at a flush ({how}), after {last} bytes before, is "
                                            f"not a prefix of the file of {len(ref.raw)} bytes")
        if n not in ref.allowed:
            i = bisect.bisect(ref.bounds, n)
            raise Violation("flush.boundary", f"{where}: {n} bytes on disk after a flush end inside the visible record at "
                                              f"{ref.bounds[i - 1] if i else 0}")
        if n < last:
            raise Violation("flush.shrinks", f"{where}: {n} bytes on disk after {last}")
        last = n
        if total is not None and total != n:
            raise Violation("flush.total", f"{where}: {total} bytes reported, {n} on disk")
        if n < len(ref.raw):
            ctx.count("intermediate_flushes")


def target_for(ctx, raw):
    """A target path with arbitrary prior content."""
    rng = ctx.rng
    path = ctx.path(rng.choice([".dlis", ".DLIS", "", ".h5", " x.dlis"]))
    r = rng.choice(["absent", "absent", "empty", "short", "long", "same", "prefix", "suffix", "link", "dangling"])
    real = path
    if r in ("link", "dangling"):
        real = ctx.path(".bin")
        os.symlink(real, path)
    content = {"empty": b"", "short": b"old", "long": rng.randbytes(50) * (len(raw) // 40 + 2), "same": raw,
               "prefix": raw[:rng.randrange(len(raw))], "suffix": raw + b"trailing", "link": raw[::-1] + b"x" * 99}.get(r)
    if content is not None:
        with open(real, "wb") as f:
            f.write(content)
    return (pathlib.Path(path) if rng.random() < 0.3 else path), r


def write(runner, path, ctx, ref, where, override):
    PROBE.start(path, ref.raw)
    try:
        runner.write(path, **override)
    finally:
        PROBE.stop()
    got = work.read(path)
    ctx.count("executions")
    judge(ref, ctx, where)
    ctx.count("comparisons")
    if got != ref.raw:
        i = next((i for i, (a, b) in enumerate(zip(got, ref.raw)) if a != b), min(len(got), len(ref.raw)))
        raise Violation("bytes.differ", f"{where}: {len(got)} bytes, expected {len(ref.raw)}, first difference at {i}")
    for v, what in ((PROBE.reported, "hook"), (PROBE.log_total, "log message")):
        if v is not None:
            ctx.count("totals_" + what.replace(" ", "_"))
            if v != len(got):
                raise Violation("total.reported", f"{where}: total of {v} bytes reported ({what}), {len(got)} on disk")


def out_chunks(rng, mrl, ref, k):
    total = len(ref.raw)
    body = total - 80
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.2:
            c = mrl + rng.choice([0, 0, 0, 1, 2, 3])
        elif r < 0.45:
            i = rng.randrange(len(ref.vrs))
            j = min(len(ref.vrs), i + rng.randint(1, 6))
            c = sum(ref.vrs[i:j]) + rng.choice([-1, 0, 0, 0, 1])     # as many records as fit exactly
        elif r < 0.65:
            c = rng.choice([total, body, body // 2, (body + 1) // 2]) + rng.choice([-1, 0, 0, 1])
        elif r < 0.9:
            c = rng.randint(mrl, max(mrl, total))
        else:
            c = total + rng.choice([1, 100, 10 ** 6])
        c = max(mrl, c)
        if len(ref.vrs) > 150 and rng.random() < 0.85:
            c = max(c, sum(ref.vrs[:len(ref.vrs) // 40]) + rng.choice([-1, 0, 0, 1]))
        out.append(float(c) if rng.random() < 0.2 else c)
    return out


def in_chunks(rng, rows, k):
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.15:
            c = None
        elif r < 0.4:
            c = rng.choice([d for d in range(1, rows + 1) if rows % d == 0])
        elif r < 0.9:
            c = rng.choice([1, rows, max(1, rows - 1), rows + 1, 2 * rows, 10 ** 9, rng.randint(1, rows + 2)])
        else:
            c = rng.randint(1, rows + 2)
        out.append(c)
    return out


def run_chunks(ctx):
    rng = ctx.rng
    mrl = rng.choice([20, 22, 24, 32, 64, 128, 2 * rng.randint(10, 120), 2 * rng.randint(10, 120), 1024, 8192, 16384])
    p, override, data, g = work.generate(ctx, mrl=mrl, deterministic=True, windows=rng.random() < 0.4, n_lf=(1, 3),
                                         rows=rng.choice([(1, 4), (1, 12), (10, 60)]), extra=(0, 5))
    ctx.sample(p.describe(500))
    for k in ("input_chunk_size", "output_chunk_size"):
        p.write_kw.pop(k, None)
    w = work.write_program(p, ctx, {**override, "output_chunk_size": 1 << 20}, data)
    ref = Reference(w.raw)
    work.compare(w)
    rows = max([a.shape[0] for lf in g.lfs for a in lf.chan.values()])
    n = rng.randint(6, 10)
    for ic, oc in zip(in_chunks(rng, rows, n), out_chunks(rng, mrl, ref, n)):
        path, prior = target_for(ctx, w.raw)
        where = f"input_chunk_size={ic!r}, output_chunk_size={oc!r}, target {prior}"
        if rng.random() < 0.5:
            runner = w.runner
        else:
            runner = spec.Runner(p)
            runner.build()
        write(runner, path, ctx, ref, where, {**override, "input_chunk_size": ic, "output_chunk_size": oc})
        flushes = sum(1 for x in PROBE.seen if x[0] == "flush") or len(PROBE.seen)
        ctx.distinct((mrl, min(flushes, 50), ic is None or (min(ic / rows, 2.0) if ic != rows else "=")))


def run_rows(ctx):
    """Every input chunk size up to beyond the number of rows, with windows."""
    rng = ctx.rng
    rows = rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 16, 24, 30])
    source = rng.choice(["inline", "dict", "struct", "h5"])
    p = spec.Program({"max_record_length": rng.choice([20, 64, 8192])})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09")
    ext = {}
    for f in range(rng.choice([1, 1, 2])):
        chans = []
        for j in range(rng.randint(1, 3)):
            arr = gen.array(rng, rng.choice(gen.DTYPES), (rows,) if rng.random() < 0.6 else (rows, rng.randint(1, 5)),
                            special=False)
            kw = {}
            if source == "inline":
                kw["data"] = arr
            else:
                ext[f"d{f}{j}"] = arr
                kw["dataset_name"] = f"d{f}{j}"
            chans.append(p.add(lf, "channel", f"C{f}{j}", **kw))
        p.add(lf, "frame", f"F{f}", channels=chans)
    override = {}
    if source == "dict":
        override["data"] = ext
    elif source == "struct":
        # with and without the direct slicing of the array
        override["data"] = gen.make_struct(rng, ext, extra=rng.random() < 0.5)
    elif source == "h5":
        override["data"] = ctx.path(".h5")
        gen.write_h5(override["data"], ext, rng)
    if rng.random() < 0.5:
        a = rng.randrange(rows)
        override["from_idx"] = a
        if rng.random() < 0.6:
            override["to_idx"] = rng.randint(a + 1, rows)
    n = (override.get("to_idx") or rows) - override.get("from_idx", 0)
    w = work.write_program(p, ctx, {**override, "input_chunk_size": None}, ext or None)
    ref = Reference(w.raw)
    spec.compare(p, w.dlis, data=ext or None, window=(override.get("from_idx", 0), override.get("to_idx")),
                 what=("objects", "frames"))
    mrl = p.file_kw["max_record_length"]
    for ic in range(1, n + 4):
        oc = rng.choice([mrl, mrl + 1, len(w.raw), 1 << 16]) if mrl <= len(w.raw) else mrl
        oc = max(oc, mrl)
        path = ctx.path()
        write(w.runner, path, ctx, ref, f"{source}, {n} rows, input_chunk_size={ic}, output_chunk_size={oc}",
              {**override, "input_chunk_size": ic, "output_chunk_size": oc})
        os.unlink(path)
        ctx.distinct((source, n, ic))


def run_crowd(ctx, what, size):
    """Many rows or records, pieces of the file beyond 1 MiB, pieces of the input beyond 65536 rows."""
    rng = ctx.rng
    p, override, data = work.crowd(ctx, what, size)
    mrl = p.file_kw["max_record_length"]
    for k in ("input_chunk_size", "output_chunk_size"):
        p.write_kw.pop(k, None)
    w = work.write_program(p, ctx, {**override, "output_chunk_size": 1 << 16}, data, history=0)
    ref = Reference(w.raw)
    work.compare(w)
    total = len(w.raw)
    for ic, oc in zip([None, rng.choice([10, 100, 1000, 9999]) if what == "rows" else 1, size, rng.choice([4096, 32768, 65536, 10 ** 6])],
                      rng.sample([1 << 20, (1 << 20) + 1, 1 << 21, total, total // 2 + 1, mrl * 20, total - 80, 1 << 22], 4)):
        oc = max(oc, mrl)
        path = ctx.path()
        write(w.runner, path, ctx, ref, f"{what} {size}, input_chunk_size={ic}, output_chunk_size={oc}",
              {**override, "input_chunk_size": ic, "output_chunk_size": oc})
        os.unlink(path)


def run_fault(ctx):
    """The k-th opening of the target fails: what was written before is whole records."""
    rng = ctx.rng
    mrl = rng.choice([20, 32, 64, 128, 256])
    p, override, data, g = work.generate(ctx, mrl=mrl, deterministic=True, rows=(1, 20), extra=(0, 4))
    for k in ("input_chunk_size", "output_chunk_size"):
        p.write_kw.pop(k, None)
    w = work.write_program(p, ctx, {**override, "output_chunk_size": 1 << 20}, data)
    ref = Reference(w.raw)
    oc = out_chunks(rng, mrl, ref, 1)[0]
    path = ctx.path()
    PROBE.start(path, w.raw)
    try:
        w.runner.write(path, **{**override, "output_chunk_size": oc})
    finally:
        PROBE.stop()
    judge(ref, ctx, f"output_chunk_size={oc!r}")
    total = PROBE.opens
    for k in sorted({1, 2, total, rng.randint(1, max(1, total)), rng.randint(1, max(1, total))}):
        if k > total:
            continue
        path, prior = target_for(ctx, w.raw)
        before = work.read(path) if os.path.exists(path) else None
        PROBE.start(path, w.raw, fail_at=k)
        try:
            w.runner.write(path, **{**override, "output_chunk_size": oc})
        except OSError as e:
            if e.errno != 28:
                raise
        except Exception as e:
            raise Violation("fault.error", f"{type(e).__name__}: {e} instead of the injected failure") from e
        else:
            if work.read(path) != ref.raw:
                raise Violation("fault.swallowed", f"failure of opening {k} of {total} not raised, the file is not complete")
        finally:
            PROBE.stop()
        ctx.count("faults")
        judge(ref, ctx, f"failure of opening {k} of {total}", failed=True)
        if k > 1:
            b = work.read(path)
            PROBE.seen = [("read", len(b), b == w.raw[:len(b)], None)]
            judge(ref, ctx, f"after the failure of opening {k} of {total}")
        elif (work.read(path) if os.path.exists(path) else None) not in (before, b""):
            raise Violation("fault.content", "content although the target could not be opened")
        # the next write is complete again
        write(w.runner, path, ctx, ref, f"after the failure of opening {k} of {total}", {**override, "output_chunk_size": oc})


def run_hostile(ctx):
    rng = ctx.rng
    mrl = rng.choice([20, 64, 128, 8192])
    p, override, data, g = work.generate(ctx, mrl=mrl, deterministic=True, rows=(1, 10), extra=(0, 3))
    for k in ("input_chunk_size", "output_chunk_size"):
        p.write_kw.pop(k, None)
    w = work.write_program(p, ctx, {**override, "output_chunk_size": 1 << 20}, data)
    ref = Reference(w.raw)
    rows = max([a.shape[0] for lf in g.lfs for a in lf.chan.values()])
    for _ in range(8):
        kw = dict(override)
        if rng.random() < 0.5:
            kw["input_chunk_size"] = rng.choice([0, -1, -rows, -2 * rows, 1.0, 2.5, float(rows), True, False, "2", np.int8(2),
                                                 np.uint8(1), np.float64(2), np.float64(rows), [1], 10 ** 30])
        else:
            kw["output_chunk_size"] = rng.choice([0, 1, mrl - 1, mrl - 0.5, mrl + 0.5, float(mrl), np.int64(mrl), None,
                                                  np.float64(mrl), float("nan"), float("inf"), "100", -mrl, True,
                                                  np.float32(mrl + 2), [mrl]])
            if kw["output_chunk_size"] is None or kw["output_chunk_size"] == 0:
                continue     # the default of 4 GiB
        path = ctx.path()
        where = f"{ {k: v for k, v in kw.items() if k != 'data'} }"
        try:
            write(w.runner, path, ctx, ref, where, kw)
            ctx.count("hostile_accepted")
        except (Violation, rp66.Malformed):
            raise
        except Exception:
            ctx.count("hostile_rejected")
        write(w.runner, ctx.path(), ctx, ref, "after " + where, {**override, "output_chunk_size": mrl})


def run_default(ctx):
    """The default output chunk size (4 GiB)."""
    p, override, data, g = work.generate(ctx, deterministic=True)
    for k in ("input_chunk_size", "output_chunk_size"):
        p.write_kw.pop(k, None)
    w = work.write_program(p, ctx, {**override, "output_chunk_size": 1 << 20}, data)
    path = ctx.path()
    PROBE.start(path, w.raw)
    try:
        w.runner.df.write(path, **{**p.write_kw, **override})
    finally:
        PROBE.stop()
    ref = Reference(w.raw)
    judge(ref, ctx, "default chunk sizes")
    if work.read(path) != w.raw:
        raise Violation("bytes.differ", "default chunk sizes")


def run_case(case, ctx):
    {"chunks": run_chunks, "rows": run_rows, "fault": run_fault, "hostile": run_hostile, "crowd": run_crowd,
     "default": run_default}[case[0]](ctx, *(case[1:3] if case[0] == "crowd" else ()))
