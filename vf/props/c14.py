"""C14: output depends only on the current specification, not on process history."""
import copy
import datetime
import math
import os
from enum import Enum
import numpy as np

from .. import work, rp66, spec, gen, fresh
from ..spec import Ref, Setup
from ..core import Violation

RULE = ("'after': a specification built and written after 1..5 others of the same process (random ones, twins of it with the "
        "same names but other origins, copy numbers, equal values of other types (1, 1.0, True, 0.0, -0.0), ones that are "
        "rejected, written in high-compatibility mode or fail in it); 'steps': the operations of a specification with reads, "
        "writes, failing writes and rejected calls in between, including renames, new origins, casts, reassignments after a "
        "write; 'values': the same specification reached by other values first; 'inter': two or three files built and "
        "written in turn; 'again': the same DLISFile written repeatedly with other data in between (also other contents of the same arrays or of the HDF5 file of the same name); 'new': also in a new "
        "interpreter with another hash seed. The bytes must equal those of a pristine process which executes the final "
        "specification alone. Distinct: (history kind, number of sets, size class).")
MINIMUM = {"comparisons": 2000, "new_interpreters": 8, "histories": 1200}
ASSUMPTIONS = ["creation time and file set number are given by the user (outside of high-compatibility mode)",
               "a process which has only imported the library counts as fresh; a sample is compared with new interpreters"]


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["after", i] for i in range(450 if quick else 14000)]
    cases += [["steps", i] for i in range(450 if quick else 14000)]
    cases += [["values", i] for i in range(260 if quick else 8000)]
    cases += [["inter", i] for i in range(150 if quick else 5000)]
    cases += [["again", i] for i in range(220 if quick else 7000)]
    cases += [["new", i] for i in range(12 if quick else 300)]
    cases += [["flood", i] for i in range(2 if quick else 16)]
    return cases


STATE = {}


def setup_worker(ctx):
    if "z" in STATE:
        STATE["z"].close()
    STATE["z"] = fresh.Zygote(ctx.scratch)


def finish_worker(ctx):
    STATE.pop("z").close()


def expected(ctx, p, override=None, hc=False):
    res = STATE["z"].run(fresh.Job(p, override, hc, ctx.zone))
    ctx.count("pristine_runs")
    if res[0] != "ok":
        return res
    return res


def judge(ctx, what, got, p, override=None, hc=False):
    """got: bytes or the exception of the history's final write."""
    want = expected(ctx, p, override, hc)
    ctx.count("executions")
    if isinstance(got, Exception):
        if want[0] == "ok":
            raise Violation("history.refused", f"{what}: {type(got).__name__}: {got}; written by a fresh process\n{p.describe(1500)}") \
                from got
        ctx.count("both_refused")
        return False
    if want[0] != "ok":
        raise Violation("history.accepted", f"{what}: written ({len(got)} bytes); a fresh process: {want[1]}: {want[2]}\n"
                                            f"{p.describe(1500)}")
    ctx.count("comparisons")
    if got != want[1]:
        from .c11 import localise
        n = min(len(got), len(want[1]))
        i = next((i for i in range(n) if got[i] != want[1][i]), n)
        raise Violation("history.bytes", f"{what}: {len(got)} bytes, fresh process: {len(want[1])}; first difference at {i}: "
                                         f"(here / fresh) {localise(got, want[1])}\n{p.describe(1500)}")
    ctx.distinct((what.split(":")[0], len(got) // 500))
    return True


def attempt(runner, ctx, override):
    path = ctx.path()
    try:
        runner.write(path, **override)
        b = work.read(path)
    except Exception as e:
        return e
    finally:
        if os.path.exists(path):
            os.unlink(path)
    ctx.count("writes")
    return b


# ------------------------------------------------------------------ histories

def other_type(rng, v):
    """An equal value of another type."""
    if isinstance(v, Setup):
        return Setup(other_type(rng, v.value), v.units, v.as_dict)
    if isinstance(v, (list, tuple)):
        return type(v)(other_type(rng, x) for x in v)
    if isinstance(v, bool):
        return rng.choice([int(v), float(v)])
    if isinstance(v, int):
        if v in (0, 1) and rng.random() < 0.4:
            return rng.choice([bool(v), float(v)])
        return float(v) if abs(v) < 2 ** 53 else v
    if isinstance(v, float) and not isinstance(v, np.floating):
        if v == 0:
            return rng.choice([0, -v, False])
        return int(v) if math.isfinite(v) and v == int(v) and abs(v) < 2 ** 31 else v
    if isinstance(v, Enum):
        return v.value
    return v


def twin(rng, p):
    """A similar specification: other origins, copy numbers, types of values, data."""
    q = p.clone()
    ops = []
    mode = rng.choice(["types", "types", "origin", "copy", "values", "all"])
    shift = rng.randint(1, 300)
    for op in q.ops:
        if op[0] == "add":
            kw = dict(op[5])
            if mode in ("types", "all"):
                for k in list(kw):
                    if k not in ("data", "dataset_name", "cast_dtype", "set_name", "channels", "origin_reference"):
                        kw[k] = other_type(rng, kw[k])
            if mode in ("origin", "all") and kw.get("origin_reference") is not None:
                kw["origin_reference"] = (kw["origin_reference"] + shift) % (1 << 20)
            if mode in ("values", "all") and op[3] == "channel" and isinstance(kw.get("data"), np.ndarray):
                kw["data"] = np.roll(kw["data"], 1, axis=0)
            op = op[:5] + (kw,)
            if mode in ("copy", "all") and op[3] not in ("origin", "frame", "channel") and rng.random() < 0.4:
                ops.append(("add", op[1], op[2] + "-dup", op[3], op[4],
                            {"set_name": kw["set_name"]} if "set_name" in kw else {}))
        elif op[0] == "py" and op[2] == "origin_reference" and mode in ("origin", "all"):
            op = ("py", op[1], op[2], (op[3] + shift) % (1 << 20))
        ops.append(op)
    q.ops = ops
    return q


def run_program(ctx, p, override, hc=False):
    """Build and write; exceptions are part of the history."""
    from dliswriter import high_compatibility_mode
    r = spec.Runner(p)
    try:
        if hc:
            with high_compatibility_mode():
                r.build()
                return r, attempt(r, ctx, override)
        r.build()
    except Exception as e:
        return r, e
    return r, attempt(r, ctx, override)


def random_program(ctx, **kw):
    return work.generate(ctx, **{"deterministic": True, "rows": (1, 6), "extra": (0, 10), **kw})


def run_after(ctx):
    rng = ctx.rng
    hc = rng.random() < 0.2
    p, override, data, g = random_program(ctx, hc=hc, windows=rng.random() < 0.3)
    ctx.sample(p.describe(500))
    keep = []
    for i in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.5:
            q, o = twin(rng, p), override
        elif r < 0.6:
            q, o = p, override
        elif r < 0.7:
            q, o = p, {"data": 5}
        else:
            q, o, d, g2 = random_program(ctx, hc=rng.random() < 0.2)
        runner, res = run_program(ctx, q, o, hc=rng.random() < 0.25)
        ctx.count("history_failed" if isinstance(res, Exception) else "history_written")
        if rng.random() < 0.5:
            keep.append(runner)
    ctx.count("histories")
    runner, got = run_program(ctx, p, override, hc)
    judge(ctx, "after: others", got, p, override, hc)
    if rng.random() < 0.4:      # once more
        if rng.random() < 0.5:
            run_program(ctx, twin(rng, p), override)
        if hc:
            from dliswriter import high_compatibility_mode
            with high_compatibility_mode():
                got = attempt(runner, ctx, override)
        else:
            got = attempt(runner, ctx, override)
        judge(ctx, "after: again", got, p, override, hc)


def look(rng, runner):
    """Read-only uses of the objects."""
    for o in rng.sample(list(runner.objs.values()), min(4, len(runner.objs))):
        for f in (lambda: repr(o), lambda: str(o), lambda: o.obname, lambda: o.copy_number, lambda: o.attributes,
                  lambda: o.origin_reference, lambda: hash(o), lambda: o == o,
                  lambda: [repr(a) for a in o.attributes.values()],
                  lambda: [a.inferred_representation_code for a in o.attributes.values()],
                  lambda: o.parent.n_items):
            try:
                f()
            except Exception:
                pass
    for lf in runner.lfs.values():
        for a in ("channels", "frames", "origins", "defining_origin", "default_origin_reference", "file_header"):
            try:
                getattr(lf, a)
            except Exception:
                pass


def extra_ops(rng, p):
    """Changes of a specification after its construction: renames, origins, casts, values, new objects."""
    model = spec.Model(p)
    start = len(p.ops)
    for mf in model.files:
        origins = mf.of("origin")
        objs = [o for o in mf.objs if o.kind not in ("origin", "frame", "channel")]
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < 0.3 and objs:
                o = rng.choice(objs)
                p.py(Ref(o.oid), "name", f"NEW-{rng.randrange(10 ** 6)}")
            elif r < 0.45 and objs:
                refs = [o.origin for o in origins if isinstance(o.origin, int)]
                if refs:
                    p.py(Ref(rng.choice(objs).oid), "origin_reference", rng.choice(refs))
            elif r < 0.7:
                texts = [(o, k) for o in mf.objs for k, v in spec.KINDS[o.kind][2].items()
                         if v[1] == "text" or (v[1] == "num" and o.kind not in ("frame", "channel"))]
                texts = [(o, k) for o, k in texts if (o.kind, k) != ("calibration_coefficient", "coefficients")
                         and not spec.KINDS[o.kind][2][k][2]]
                if texts:
                    o, k = rng.choice(texts)
                    v = gen.text(rng, 20, nonempty=True, charset=gen.ASCII_PRINT) if spec.KINDS[o.kind][2][k][1] == "text" \
                        else rng.choice([0, 1, 1.0, True, -0.0, 0.0, 2.5, gen.number(rng)])
                    p.set(Ref(o.oid), k, v)
            elif r < 0.85:
                p.add(mf.lfid, "zone", rng.choice(["A", "B", "LATE"]), **({"set_name": f"Z-{mf.lfid}"}
                                                                          if len(model.files) > 1 or rng.random() < .5 else {}))
            elif mf.of("channel"):
                c = rng.choice(mf.of("channel"))
                if c.data is not None:
                    p.py(Ref(c.oid), "cast_dtype", gen.safe_cast(rng, c.data.dtype, c.data))
    return p.ops[start:]


def run_steps(ctx):
    rng = ctx.rng
    p, override, data, g = random_program(ctx)
    ctx.sample(p.describe(500))
    extra_ops(rng, p)
    from .c09 import REJECTED
    runner = spec.Runner(p)
    runner.make_file()
    complete = len(p.ops) - rng.randint(0, 6)
    disturbed = 0
    for i, op in enumerate(p.ops):
        runner.step(op)
        r = rng.random()
        if r < 0.15 or (i >= complete and r < 0.7):
            k = rng.random()
            if k < 0.55:
                attempt(runner, ctx, override if rng.random() < 0.8 else
                        {**override, **rng.choice([{"from_idx": 10 ** 6}, {"data": {}}, {"output_chunk_size": 1},
                                                   {"input_chunk_size": 0}, {"data": "/nonexistent/x.h5"},
                                                   {"to_idx": 10 ** 6}])})
            elif k < 0.8:
                look(rng, runner)
            elif op[0] in ("add", "lf"):
                kind, kw = rng.choice(REJECTED)
                try:
                    getattr(runner.lfs[op[1]], "add_" + kind)("REJECTED", **kw)
                except Exception:
                    ctx.count("rejected_calls")
                else:
                    return
            disturbed += 1
    ctx.count("histories")
    got = attempt(runner, ctx, override)
    judge(ctx, f"steps: {disturbed} disturbances", got, p, override)
    if rng.random() < 0.3:
        judge(ctx, "steps: again", attempt(runner, ctx, override), p, override)


DONORS = {}


def run_values(ctx):
    """Other values assigned first and replaced later; a fresh process gets the final values only."""
    rng = ctx.rng
    p, override, data, g = random_program(ctx, reassign=False, renames=False, density=0.6)
    donor = random_program(ctx, reassign=False, renames=False, density=0.7, extra=(5, 20))[0]
    pool = {}
    for op in donor.ops + p.ops:
        if op[0] == "add":
            for k, v in op[5].items():
                if k in spec.KINDS[op[3]][2]:
                    inner = v.value if isinstance(v, Setup) else v
                    if not any(isinstance(x, Ref) for x in spec.flatten(inner)) and inner is not None:
                        pool.setdefault((op[3], k), []).append(v)
    q = p.clone()
    q.ops = []
    later = []
    constrained = {"dimension", "element_limit", "axis", "values", "coordinates", "maximum", "minimum", "zones", "domain",
                   "channels", "file_set_number", "creation_time", "index_type"}
    for op in p.ops:
        if op[0] == "add":
            kind, kw = op[3], dict(op[5])
            for k, v in list(kw.items()):
                if k in constrained or (kind, k) not in pool or rng.random() < 0.5 or \
                        kind in ("calibration_coefficient", "calibration_measurement", "computation"):
                    continue
                inner = v.value if isinstance(v, Setup) else v
                units = v.units if isinstance(v, Setup) else None
                if inner is None or any(isinstance(x, Ref) for x in spec.flatten(inner)):
                    continue
                alt = rng.choice(pool[kind, k])
                alt_v = alt.value if isinstance(alt, Setup) else alt
                kw[k] = Setup(alt_v, units) if units is not None else alt_v
                if rng.random() < 0.3:
                    kw[k] = other_type(rng, v)
                later.append((op[2], k, inner))
            op = op[:5] + (kw,)
        q.ops.append(op)
    rng.shuffle(later)
    runner = spec.Runner(q)
    runner.make_file()
    try:
        for op in q.ops:
            runner.step(op)
    except Exception:
        ctx.count("detour_refused")
        return
    if rng.random() < 0.6:
        look(rng, runner)
    if rng.random() < 0.7:
        attempt(runner, ctx, override)
    for oid, k, v in later:
        a = getattr(runner.objs[oid], spec.PY_ATTR.get((runner.kind_of(oid), k), k))
        a.value = runner.resolve(v)
        if rng.random() < 0.1:
            attempt(runner, ctx, override)
    ctx.count("histories")
    ctx.count("detours", len(later))
    judge(ctx, f"values: {[(o, k) for o, k, v in later][:8]}", attempt(runner, ctx, override), p, override)


def run_inter(ctx):
    """Several files built in turn, operation by operation."""
    rng = ctx.rng
    jobs = []
    p, override, data, g = random_program(ctx)
    jobs.append((p, override, spec.Runner(p), list(p.ops)))
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.5:
            q, o = twin(rng, p), override
        else:
            q, o, d, g2 = random_program(ctx)
        jobs.append((q, o, spec.Runner(q), list(q.ops)))
    for j in jobs:
        j[2].make_file()
    failed = set()
    while any(j[3] for i, j in enumerate(jobs) if i not in failed):
        i = rng.choice([i for i, j in enumerate(jobs) if j[3] and i not in failed])
        try:
            jobs[i][2].step(jobs[i][3].pop(0))
        except Exception:
            if i == 0:
                raise
            failed.add(i)
    ctx.count("histories")
    order = [i for i in range(len(jobs)) if i not in failed] * 2
    rng.shuffle(order)
    for i in order:
        judge(ctx, f"inter: file {i} of {len(jobs)}", attempt(jobs[i][2], ctx, jobs[i][1]), jobs[i][0], jobs[i][1])


def run_again(ctx):
    """One DLISFile written with various data; each write as that of a fresh process with these data."""
    rng = ctx.rng
    from .c13 import pattern
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1, creation_time="2024/05/06 07:08:09")
    names = []
    for f in range(rng.randint(1, 2)):
        chans = []
        for j in range(rng.randint(1, 3)):
            ds = f"d{f}{j}"
            names.append((ds, j == 0))
            kw = {}
            if rng.random() < 0.2:
                kw["cast_dtype"] = np.float64
            if rng.random() < 0.3:
                kw["units"] = "m"
            chans.append(p.add(lf, "channel", f"C{f}{j}", dataset_name=ds, **kw))
        p.add(lf, "frame", f"F{f}", channels=chans, **({"index_type": "BOREHOLE-DEPTH"} if rng.random() < 0.7 else {}))
    if rng.random() < 0.5:
        p.add(lf, "calibration_measurement", "M", standard=[1, 2], maximum_deviation=[1.5, 2.5])
        p.add(lf, "computation", "COMP", values=[1, 2, 3])
        p.add(lf, "parameter", "PAR", values=[1.5])
    runner = spec.Runner(p)
    runner.build()
    ctx.count("histories")
    h5, kept = None, []
    for i in range(rng.randint(2, 5)):
        n = rng.randint(1, 6)
        data = {}
        for ds, first in names:
            data[ds] = pattern(rng, rng.choice(gen.DTYPES), n)[1] if first else \
                gen.array(rng, rng.choice(gen.DTYPES), (n,) if rng.random() < 0.6 else (n, rng.randint(1, 4)), special=False)
        if rng.random() < 0.2:
            data.pop(rng.choice(list(data)))        # fails, or is written by neither
        source = data if rng.random() < 0.6 or len(data) != len(names) else gen.make_struct(rng, data)
        r = rng.random()
        if isinstance(source, dict) and source and r < 0.35:
            # an HDF5 file under the name of the one written before, replaced or rewritten
            h5 = h5 or ctx.path(".h5")
            how = rng.choice(["replace", "unlink", "rewrite"])
            new = h5 + ".new" if how == "replace" else h5
            if how == "unlink" and os.path.exists(h5):
                os.unlink(h5)
            gen.write_h5(new, source, rng)
            if how == "replace":
                os.replace(new, h5)
            source = h5
            ctx.count("h5_replaced")
        elif isinstance(source, dict) and r < 0.6 and kept:
            # the arrays of an earlier write with other contents
            old = rng.choice(kept)
            n = len(next(iter(old.values())))
            for k, a in ((k, a) for k, a in old.items() if a.flags.writeable):
                a[...] = np.roll(a, 1, axis=0) if rng.random() < 0.4 else \
                    gen.array(rng, a.dtype.newbyteorder("="), a.shape, special=False)
            source = old
            ctx.count("arrays_changed")
        if isinstance(source, dict) and source:
            kept.append(source)
        over = {"data": source}
        if rng.random() < 0.5:
            over["from_idx"] = rng.randrange(n + 1)
        if rng.random() < 0.3:
            over["to_idx"] = rng.randint(1, n)
        over["input_chunk_size"] = rng.choice([None, 1, 2])
        judge(ctx, f"again: write {i}", attempt(runner, ctx, over), p, over)


def run_new(ctx):
    """A new interpreter with another hash seed, and an optimised one, against the pristine process and this one."""
    rng = ctx.rng
    p, override, data, g = random_program(ctx, n_lf=(1, 3), extra=(5, 20))
    ctx.count("histories")
    runner, got = run_program(ctx, p, override)
    judge(ctx, "new: this process", got, p, override)
    env = rng.choice([{}, {}, {"PYTHONOPTIMIZE": "1"}, {"WELL_ID_DLISWRITER_VERIF": "0"}, {"LANG": "C", "LC_ALL": "C"}])
    res = fresh.new_interpreter(fresh.Job(p, override, False, ctx.zone), ctx.scratch, str(rng.randint(1, 10 ** 6)), env)
    ctx.count("new_interpreters")
    if isinstance(got, Exception):
        if res[0] == "ok":
            raise Violation("new.refused", f"{got!r}; written by a new interpreter ({env})")
        return
    if res[0] != "ok":
        raise Violation("new.refused", f"a new interpreter ({env}) refused: {res[1:]}")
    if res[1] != got:
        from .c11 import localise
        raise Violation("new.bytes", f"new interpreter ({env}): {localise(got, res[1])}")
    ctx.count("comparisons")


def run_flood(ctx):
    """More distinct values than any cache may hold, then a specification."""
    rng = ctx.rng
    p, override, data, g = random_program(ctx)
    run_program(ctx, p, override)
    q = spec.Program({})
    lf = q.lf()
    q.add(lf, "origin", "O", file_set_number=1)
    c = q.add(lf, "channel", "C", data=np.arange(3, dtype="u1"))
    q.add(lf, "frame", "F", channels=[c])
    base = rng.randint(0, 10 ** 6)
    for k in range(8):
        q.add(lf, "axis", f"A{k}", coordinates=[float(base + 10000 * k + i) for i in range(10000)])
    run_program(ctx, q, {})
    ctx.count("histories")
    runner, got = run_program(ctx, p, override)
    judge(ctx, "flood: after 80000 values", got, p, override)


def run_case(case, ctx):
    {"after": run_after, "steps": run_steps, "values": run_values, "inter": run_inter, "again": run_again, "new": run_new,
     "flood": run_flood}[case[0]](ctx)
