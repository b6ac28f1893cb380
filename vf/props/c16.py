"""C16: no-format payloads come back exactly, in order, under their object."""
from .. import work, rp66, spec, gen
from ..core import Violation

RULE = ("'sweep': every payload length around multiples of the record capacity; 'seq': random sequences of payloads "
        "(bytes, bytearray, str; any byte value; empty, 1 byte .. several capacities) over several NO-FORMAT objects, "
        "named sets, several logical files and interleaved with other calls; 'big': payloads of up to 1 MiB; 'spec': random specifications. The type-1 "
        "records of each logical file are compared with the payloads in order. Distinct: (record length, payload "
        "length, payload type).")
MINIMUM = {"payloads": 3000, "payload_bytes": 100000}
ASSUMPTIONS = ["payload objects are not modified between being added and being written"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["sweep", m] for m in work.sweep_mrls(tier, seed)]
    cases += [["seq", i] for i in range(3000 if quick else 40000)]
    cases += [["spec", i] for i in range(500 if quick else 6000)]
    cases += [["big", i] for i in range(16 if quick else 200)]
    cases += work.crowd_cases(quick, payloads=6, files=1)
    return cases


def setup_worker(ctx):
    work.calibrate(ctx)


HOSTILE = [b"", b"\x00", b"\x01", b"\xff", b"\x00\x00", b"\x01\x01", b"\xff\x01", b"\x0c" * 12, b"\x02\x02", b" ", b"\n",
           b"\r\n", b" x ", b"\x00x\x00", b"\x7f", b"\x80", b"\xc0\x00\x00\x00", b"\x01" * 11]


def payload(rng, c):
    r = rng.random()
    if r < 0.25:
        b = rng.choice(HOSTILE)
    elif r < 0.5:
        b = rng.randbytes(rng.randint(0, 20))
    elif r < 0.6:
        b = bytes([rng.choice([0, 1, 2, 12, 32, 255])]) * rng.randint(0, 40)
    elif r < 0.9:
        n = rng.randint(0, 4) * c + rng.randint(-16, 16)
        b = rng.randbytes(max(0, n))
    else:
        b = rng.randbytes(rng.randint(0, 3000))
    k = rng.choice(["bytes", "bytearray", "str"])
    if k == "str":
        return "".join(chr(x & 127) for x in b)
    return b if k == "bytes" else bytearray(b)


def make(ctx):
    rng = ctx.rng
    import numpy as np
    mrl = rng.choice([20, 22, 24, 32, 8192, 16384, 2 * rng.randint(10, 100), 2 * rng.randint(10, 1000)])
    p = spec.Program({"max_record_length": mrl})
    n_lf = rng.choice([1, 1, 1, 2, 3])
    calls = []
    for i in range(n_lf):
        lf = p.lf()
        sn = {"set_name": f"LF{i}"} if n_lf > 1 else {}
        p.add(lf, "origin", "O", **({"origin_reference": rng.choice([0, 1, 128, 16384])} if rng.random() < .5 else {}),
              **sn)
        ch = p.add(lf, "channel", "C", data=np.arange(rng.randint(1, 4), dtype="uint8"), **sn)
        p.add(lf, "frame", "F", channels=[ch], **sn)
        nfs = []
        for j in range(rng.randint(1, 4)):
            nm = rng.choice(["N", "N", f"NF{j}", "X" * 255, "m" * rng.randint(1, 130)])
            kw = dict(sn)
            if rng.random() < 0.3:
                kw["set_name"] = f"{i}-NS{rng.randint(0, 1)}"
            nfs.append(p.add(lf, "no_format", nm, **kw))
        seq = [(lf, rng.choice(nfs), payload(rng, mrl - 8)) for _ in range(rng.choice([1, 3, 8, 25]))]
        if rng.random() < 0.15:
            seq = [(lf, x[1], seq[0][2]) for x in seq]       # equal payloads, several objects
        calls.append(seq)
    # interleave the calls over the logical files
    while any(calls):
        s = rng.choice([s for s in calls if s])
        p.nofmt(*s.pop(0))
    if rng.random() < 0.3:
        p.write_kw["output_chunk_size"] = mrl + rng.choice([0, 1, 7, 100])
    return p


def make_big(ctx):
    """Payloads of many times the record capacity, past what two bytes can count."""
    rng = ctx.rng
    import numpy as np
    mrl = rng.choice([8192, 16384, 1024, 2 * rng.randint(100, 8192)])
    p = spec.Program({"max_record_length": mrl})
    lf = p.lf()
    p.add(lf, "origin", "O")
    p.add(lf, "frame", "F", channels=[p.add(lf, "channel", "C", data=np.arange(2, dtype="uint8"))])
    nfs = [p.add(lf, "no_format", f"N{i}") for i in range(2)]
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([2 ** 16, 2 ** 16, 2 ** 17, 100000, 2 ** 18, 2 ** 19, 2 ** 20, 50 * (mrl - 8)])
        n = max(0, n + rng.choice([0, 1, -1, 2, -4, rng.randint(0, 4000)]))
        b = rng.randbytes(n)
        p.nofmt(lf, rng.choice(nfs), rng.choice([b, bytearray(b), "ab\n" * (n // 3) + "c" * (n % 3)]))
        p.nofmt(lf, rng.choice(nfs), rng.randbytes(rng.randint(0, 5)))
    return p


def run_case(case, ctx):
    kind, arg = case[:2]
    override, data = {}, None
    if kind == "sweep":
        p = work.Sweep(ctx, arg, comments=0, frames=1).program
    elif kind == "crowd":
        p, override, data = work.crowd(ctx, *case[1:3])
    elif kind == "spec":
        p, override, data, g = work.generate(ctx, nofmt=(2, 20), kinds=["no_format", "no_format", "comment", "zone"],
                                             extra=(2, 6), frames=(1, 1), channels=(1, 2))
    else:
        p = make_big(ctx) if kind == "big" else make(ctx)
        ctx.sample(p.describe(700))
    w = work.write_program(p, ctx, override, data)
    ctx.count("executions")
    res = work.compare(w, what=("nofmt", "objects") if kind != "spec" else ("nofmt", "objects", "attrs", "frames"))
    # every type-1 record refers to a NO-FORMAT object of its logical file, every payload has its record
    mrl = p.file_kw["max_record_length"]
    total = 0
    for mf in res.model.files:
        lf = res.lf[mf.lfid]
        nf_names = {o.obname for es in lf.sets if es.type == "NO-FORMAT" for o in es.objects}
        for f in lf.iflrs:
            if f.type not in (0, 1):
                raise Violation("nofmt.type", f"indirectly formatted record of type {f.type}")
            if f.type == 1 and f.ref not in nf_names:
                raise Violation("nofmt.object", f"record under {tuple(f.ref)}, which is no NO-FORMAT object")
        for oid, b in mf.nofmt:
            total += len(b)
            ctx.distinct((mrl, len(b)))
    ctx.count("payloads", res.payloads)
    ctx.count("payload_bytes", total)
