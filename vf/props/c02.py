"""C02: segmentation is lossless, ordered and correctly bracketed."""
from .. import work, rp66, spec
from ..core import Violation

RULE = ("'sweep': one specification with records of body lengths k*(max-8)+d written with several maximum record lengths "
        "(exhaustive body lengths up to 5 capacities for small records); 'huge': records of 32 KiB to 1 MiB, up to 87 000 segments; 'spec': random "
        "specifications, each written with two record lengths. Distinct: (record length, body length, number of segments) of each reassembled record.")
MINIMUM = {"records_vs_payload": 1000, "records_cross": 1000, "multi_segment_records": 200}
ASSUMPTIONS = ["the tap reports a record before it is segmented; without a tap only the independent expectations and the "
               "cross-record-length agreement decide"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["sweep", m] for m in work.sweep_mrls(tier, seed)]
    cases += [["huge", i] for i in range(24 if quick else 300)]
    cases += [["spec", i] for i in range(1800 if quick else 20000)]
    cases += work.crowd_cases(quick, objects=1, payloads=1, rows=1)
    return cases


_tap = []


def setup_worker(ctx):
    work.calibrate(ctx)
    try:
        from dliswriter.utils.internal import verif_hooks
        del verif_hooks.lr_sinks[:]
        verif_hooks.lr_sinks.append(lambda e, t, b: _tap.append((bool(e), bytes(t), bytes(b))))
    except (ImportError, AttributeError):
        pass


def write(p, ctx, override, mrl):
    q = p.clone()
    q.file_kw["max_record_length"] = mrl
    q.write_kw.pop("output_chunk_size", None)
    del _tap[:]
    w = work.write_program(q, ctx, override, parse=False, reset=_tap.clear)
    phys = rp66.parse_physical(w.raw)
    work.framing_stats(ctx, phys)
    tapped = list(_tap)
    got = [(r.is_eflr, bytes([r.type]), r.body) for r in phys.records]
    if tapped:
        diff("tap", got, tapped, mrl)
        ctx.count("records_vs_tap", len(tapped))
    for r in phys.records:
        ctx.distinct((mrl, len(r.body), len(r.segments)))
        # bracketing, stated independently of the reassembly
        for i, s in enumerate(r.segments):
            if s.pred != (i > 0) or s.succ != (i < len(r.segments) - 1):
                raise Violation("bracketing", f"record {r!r} segment {i}: predecessor {s.pred}, successor {s.succ}")
    return w, phys, got


def diff(what, got, want, mrl):
    if got == want:
        return
    n = min(len(got), len(want))
    for i in range(n):
        if got[i] != want[i]:
            g, x = got[i], want[i]
            j = next((j for j in range(min(len(g[2]), len(x[2]))) if g[2][j] != x[2][j]), min(len(g[2]), len(x[2])))
            raise Violation("lossless." + what, f"max length {mrl}: record {i} is {g[0], g[1]} with {len(g[2])} bytes, "
                            f"expected {x[0], x[1]} with {len(x[2])} bytes; first difference at byte {j}")
    raise Violation("lossless." + what, f"max length {mrl}: {len(got)} records, expected {len(want)}")


def run_case(case, ctx):
    kind, arg = case[:2]
    rng = ctx.rng
    if kind == "sweep":
        p, override, data = work.Sweep(ctx, arg).program, {}, None
        mrls = [arg, rng.choice([8192, 16384, 2 * rng.randint(10, 400)])]
    elif kind == "huge":
        p, override, data = work.huge(ctx), {}, None
        mrls = [p.file_kw["max_record_length"], rng.choice([20, 64, 8192, 16384])]
    elif kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
        mrls = [p.file_kw["max_record_length"], rng.choice([64, 8192, 16384])]
    else:
        p, override, data, g = work.generate(ctx, deterministic=True, nofmt=(0, 8))
        mrls = [p.file_kw["max_record_length"], rng.choice([20, 22, 32, 64, 16384, 2 * rng.randint(10, 300)])]
        ctx.sample(p.describe(600))
    first = None
    for mrl in mrls:
        w, phys, got = write(p, ctx, override, mrl)
        ctx.count("executions")
        w.data = data
        # independent expectation of the bodies: whole contents against the specification
        w.dlis = rp66.parse(w.raw)
        res = work.compare(w)
        ctx.count("records_vs_payload", res.payloads + res.rows)
        if first is None:
            first = got
        else:
            diff("cross", got, first, mrl)
            ctx.count("records_cross", len(got))
