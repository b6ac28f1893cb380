"""C01: label, visible records and segments are well-formed."""
from .. import work, rp66, spec, gen
from ..core import Violation

RULE = ("'sweep': one file per maximum record length with no-format, frame-data and comment records whose body lengths "
        "are k*(max-8)+d for all small d; 'spec': random specification with random record length and chunk sizes; "
        "'huge': records of 32 KiB to 1 MiB; 'sul': label field fringe, and values which do not fit. Distinct: (record length, body length, explicit flag) of each logical record "
        "observed.")
MINIMUM = {"visible_records": 2000, "padded_segments": 200, "multi_segment_records": 200, "labels_refused": 40}
ASSUMPTIONS = ["files are observed after write() returned", "no storage faults"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["sweep", m] for m in work.sweep_mrls(tier, seed)]
    cases += [["spec", i] for i in range(4000 if quick else 40000)]
    cases += [["huge", i] for i in range(32 if quick else 400)]
    cases += work.crowd_cases(quick, objects=1, payloads=1, files=1)
    cases += [["sul", i] for i in range(400 if quick else 4000)]
    return cases


def setup_worker(ctx):
    work.calibrate(ctx)


def check_label(p, raw):
    s = rp66.parse_sul(raw)
    kw = p.file_kw
    def eq(got, want, what):
        if got != want:
            raise Violation("sul." + what, f"storage unit label {what}: {got!r}, configured {want!r}")
    eq(int(s.seq), kw.get("sul_sequence_number", 1), "seq")
    eq(int(s.mrl), kw.get("max_record_length", 8192), "mrl")
    eq(s.set_id, kw.get("set_identifier", "MAIN-STORAGE-UNIT").ljust(60), "set_id")


def out_of_range(ctx):
    """A label which cannot hold what is configured: refused, or the file has what is configured."""
    rng = ctx.rng
    p, override, data, g = work.generate(ctx, n_lf=(1, 1), rows=(1, 3), frames=(1, 1), extra=(0, 2), nofmt=(0, 1))
    kind = rng.choice(["seq", "seq", "long", "ascii"])
    if kind == "seq":
        p.file_kw.update(sul_sequence_number=rng.choice([10000, 10001, 12345, 99999, 100000, 10 ** 9, 10 ** 4 * rng.randint(1, 99) + 1]))
    else:
        n = rng.randint(61, 130) if kind == "long" else rng.randint(1, 60)
        sid = [rng.choice(gen.ASCII_PRINT) for _ in range(n)]
        if kind == "long" and rng.random() < 0.4:
            sid[60:] = " " * (n - 60)       # would be right without these
            sid[59] = "X"
        if kind == "ascii":
            sid[rng.randrange(n)] = rng.choice("\x80\xe9\xff\u0100\u20ac\uff21\U0001f600")
        p.file_kw.update(set_identifier="".join(sid))
    ctx.count("executions")
    try:
        raw = work.write_program(p, ctx, override, parse=False).raw
    except Exception:
        ctx.count("labels_refused")
        return
    check_label(p, raw)
    raise Violation("sul.size", f"label with {p.file_kw}: written as {raw[:80]!r}")


def run_case(case, ctx):
    kind, arg = case[:2]
    rng = ctx.rng
    if kind == "sweep":
        p = work.Sweep(ctx, arg).program
        override, data = {}, None
    elif kind == "spec":
        p, override, data, g = work.generate(ctx)
    elif kind == "huge":
        p, override, data = work.huge(ctx), {}, None
    elif kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
    elif rng.random() < 0.25:
        return out_of_range(ctx)
    else:
        p, override, data, g = work.generate(ctx, n_lf=(1, 1), rows=(1, 3), frames=(1, 1), extra=(0, 2), nofmt=(0, 1))
        n = rng.choice([1, 2, 59, 60, rng.randint(1, 60)])
        chars = rng.random()
        sid = "".join(rng.choice(gen.ASCII_PRINT if chars < 0.5 else gen.ASCII_ALL if chars < 0.7 else " \t\n\r\0aZ") for _ in range(n))
        p.file_kw.update(set_identifier=sid, sul_sequence_number=rng.choice([0, 1, 9, 10, 99, 100, 999, 1000, 9999,
                                                                            rng.randint(1, 9999)]))
    if kind == "sul" and rng.random() < 0.5:
        import dliswriter
        kw = dict(p.file_kw)
        p2 = p.clone()
        sul_cls = getattr(dliswriter, "StorageUnitLabel", None)
        if sul_cls is None:
            from dliswriter.logical_record.misc import StorageUnitLabel as sul_cls
        p2.file_kw = {"storage_unit_label": sul_cls(kw["set_identifier"], kw["sul_sequence_number"],
                                                    kw["max_record_length"])}
        r = spec.Runner(p2)
        r.build()
        path = ctx.path()
        r.write(path, **override)
        raw = work.read(path)
        w = work.Written()
        w.program, w.runner = p, r
    else:
        w = work.write_program(p, ctx, override, parse=False)
        raw = w.raw
    w.data = data
    ctx.count("executions")
    check_label(p, raw)
    phys = rp66.parse_physical(raw)
    work.framing_stats(ctx, phys)
    mrl = p.file_kw.get("max_record_length", 8192)
    for r in phys.records:
        ctx.distinct((mrl, len(r.body), r.is_eflr))
    # the pad counts and flags have to agree with the contents: what remains without the padding decodes to the
    # specification
    w.dlis = rp66.parse(raw)
    w.raw = raw
    work.compare(w)
    ctx.count("contents_compared")
    if kind == "spec":
        ctx.sample(p.describe(800))
