"""C08: a frame's channel descriptors match the layout of its data records."""
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import DTYPE_RC
from ..core import Violation

RULE = ("'frame': frames mixing all dtypes, byte orders, widths (scalar, 1, 2..40), casts (narrower, wider, other kind, any "
        "byte order), user-specified dimension and element limit consistent and inconsistent with the data, channels shared "
        "between frames, listed twice, of one name in a frame, unassigned, and several channels over one dataset, for inline, dict, "
        "structured and HDF5 sources; "
        "'rewrite': the same objects written repeatedly with data of other dtypes and widths and casts changed in between; "
        "'spec': random specifications. Oracle: every frame-data record is sliced with the descriptors found in the file "
        "alone, and the descriptors are compared with the dtype and per-row shape of the data. Inconsistent user values "
        "must raise or be right. Distinct: (code, dimension, element limit, cast?) of listed channels.")
MINIMUM = {"records_sliced": 10000, "descriptors": 10000, "inconsistent_rejected": 100}
ASSUMPTIONS = ["ELEMENT-LIMIT bounds DIMENSION if it has at least as many elements and none is smaller (RP66 V1 5.5.1)"]

SIZE = {12: 1, 13: 2, 14: 4, 15: 1, 16: 2, 17: 4, 2: 4, 7: 8}


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["frame", i] for i in range(5000 if quick else 80000)]
    cases += [["rewrite", i] for i in range(1500 if quick else 20000)]
    cases += [["spec", i] for i in range(700 if quick else 10000)]
    cases += [["pair", a, b, i] for a in gen.DTYPES for b in gen.DTYPES for i in range(2 if quick else 20)]
    cases += work.crowd_cases(quick, channels=4, frames=1, rows=1)
    return cases


def monitor(dlis, ctx):
    """Slice every frame-data record with nothing but the descriptors in the file."""
    for n, lf in enumerate(dlis.files):
        chans = {o.obname: o for es in lf.sets if es.type == "CHANNEL" for o in es.objects}
        layouts = {}
        for es in lf.sets:
            if es.type != "FRAME":
                continue
            for fr in es.objects:
                layout = []
                for ref in fr.attrs["CHANNELS"].values:
                    where = f"logical file {n}, frame {tuple(fr.obname)}, channel {tuple(ref)}"
                    if ref not in chans:
                        raise Violation("descriptor.channel", f"{where}: not defined")
                    a = chans[ref].attrs
                    rc = a["REPRESENTATION-CODE"].values
                    if len(rc) != 1 or rc[0] not in SIZE:
                        raise Violation("descriptor.rc", f"{where}: {a['REPRESENTATION-CODE']!r}")
                    dim = list(a["DIMENSION"].values)
                    if not dim or not all(isinstance(d, int) for d in dim):
                        raise Violation("descriptor.dimension", f"{where}: {a['DIMENSION']!r}")
                    el = list(a["ELEMENT-LIMIT"].values)
                    if len(el) < len(dim) or any(e < d for e, d in zip(el, dim)):
                        raise Violation("descriptor.element_limit", f"{where}: dimension {dim}, element limit {el}")
                    size = SIZE[rc[0]]
                    for d in dim:
                        size *= d
                    layout.append((ref, rc[0], dim, el, size))
                    ctx.count("descriptors")
                layouts[fr.obname] = layout
        for f in lf.iflrs:
            if f.type != 0:
                continue
            if f.ref not in layouts:
                raise Violation("record.frame", f"logical file {n}: record of unknown frame {tuple(f.ref)}")
            num, slots = rp66.split_fdata(f)
            need = sum(x[4] for x in layouts[f.ref])
            if len(slots) != need:
                raise Violation("record.length", f"logical file {n}, frame {tuple(f.ref)}, record {num}: {len(slots)} bytes of "
                                                 f"data, descriptors {[(x[1], x[2]) for x in layouts[f.ref]]} give {need}")
            ctx.count("records_sliced")


def against_spec(w, ctx, window=None):
    """Descriptors against the dtype and shape of the data, codes per the table of the statement."""
    res = spec.compare(w.program, w.dlis, data=w.data, what=("objects", "frames"))
    data = w.data if w.data is not None else w.program.write_kw.get("data")
    for mf in res.model.files:
        for fr in mf.of("frame"):
            got = res.obj[fr.oid].attrs["CHANNELS"].values
            want = [res.ident[c.oid][1] for c in spec.frame_channels(mf, fr)]
            if list(got) != want:
                raise Violation("frame.channels", f"{fr.name!r}: {got!r}, specified {want!r}")
            for ch in spec.frame_channels(mf, fr):
                arr = spec.channel_array(mf, ch, data)
                a = res.obj[ch.oid].attrs
                rc = DTYPE_RC[spec.written_dtype(arr, ch.cast_dtype).name]
                dim = list(arr.shape[1:]) or [1]
                where = f"channel {ch.name!r}: data {arr.dtype.str}{arr.shape}, cast {ch.cast_dtype!r}"
                if a["REPRESENTATION-CODE"].values != [rc]:
                    raise Violation("descriptor.rc", f"{where}: code {a['REPRESENTATION-CODE'].values}, expected {rc}")
                if list(a["DIMENSION"].values) != dim:
                    raise Violation("descriptor.dimension", f"{where}: DIMENSION {a['DIMENSION'].values}")
                ctx.distinct((rc, tuple(dim), tuple(a["ELEMENT-LIMIT"].values), ch.cast_dtype is not None))
    return res


def width(rng):
    return rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 8, 40, 127, 128, rng.randint(1, 300)])


def cast(rng, dt, arr):
    return gen.safe_cast(rng, dt, arr)


def column(rng, n, dt=None, w=None):
    dt = dt or rng.choice(gen.DTYPES)
    w = width(rng) if w is None else w
    shape = (n,) if w == 0 else (n, w)
    return gen.array(rng, dt, shape, special=rng.random() < 0.5)


def user_descriptors(rng, arr):
    """(kwargs, consistent)"""
    dims = list(arr.shape[1:]) or [1]
    kw, ok = {}, True
    r = rng.random()
    if r < 0.45:
        return kw, True
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            kw["dimension"] = list(dims)
        else:
            d = rng.choice([[dims[0] + 1], [max(1, dims[0] - 1)], [1], [1, dims[0]], [dims[0], 1], [dims[0] * 2], [2, 2],
                            [4], [dims[0] + 128]])
            kw["dimension"] = d
            ok = d == dims
    if rng.random() < 0.6:
        if rng.random() < 0.5:
            kw["element_limit"] = [d + rng.choice([0, 0, 1, 5, 200]) for d in dims] + [rng.randint(1, 9)] * rng.choice([0, 0, 1])
        else:
            e = rng.choice([[max(1, dims[0] - 1)], [1], [dims[0]], [1, dims[0] + 5], [dims[0] // 2 or 1, 100]])
            kw["element_limit"] = e
            ok = ok and e[0] >= dims[0]
    for k in list(kw):
        if len(kw[k]) == 1 and rng.random() < 0.3:
            kw[k] = kw[k][0]
        elif rng.random() < 0.2:
            kw[k] = tuple(kw[k])
    return kw, ok


def run_frame(ctx, pair=None):
    rng = ctx.rng
    p = spec.Program({"max_record_length": rng.choice([8192, 16384, 512, 64])})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    source = rng.choice(["inline", "dict", "struct", "h5"])
    external = {}
    consistent, doubled = True, False
    rows = rng.randint(1, 5)
    listed = []
    n_frames = rng.choice([1, 1, 2, 3]) if not pair else 1
    k = 0
    for i in range(n_frames):
        n = rows if source == "struct" else rng.randint(1, 5)
        chans = []
        for j in range(rng.randint(1, 6) if not pair else 2):
            k += 1
            alias = None
            r = rng.random()
            if listed and r < 0.15:
                # a channel of an earlier frame, if the rows fit
                c, arr = rng.choice(listed)
                if arr.shape[0] == n and c not in [x[0] for x in chans]:
                    chans.append((c, arr))
                    continue
            if chans and r < 0.3 and source != "inline":
                alias = rng.choice([x for x in external.items() if x[1].shape[0] == n] or [None])
            if alias:
                ds, arr = alias
                ctx.count("aliased_datasets")
            else:
                arr = column(rng, n, dt=pair[j] if pair else None)
                ds = f"ds{k}"
            kw = {}
            if not pair:
                kw, ok = user_descriptors(rng, arr)
                consistent = consistent and ok
            if rng.random() < 0.4:
                kw["cast_dtype"] = cast(rng, arr.dtype, arr)
            if source == "inline":
                kw["data"] = arr
                if rng.random() < 0.4:
                    kw["dataset_name"] = ds
            elif not alias:
                kw["dataset_name"] = ds
                external[ds] = arr
            later = {x: kw.pop(x) for x in ("dimension", "element_limit") if x in kw and rng.random() < 0.3}
            c = p.add(lf, "channel", f"C{k}", **kw)
            if alias:
                p.py(c, "dataset_name", ds)
            for x, v in later.items():
                p.set(c, x, v)
            if "cast_dtype" in kw and rng.random() < 0.2:
                p.py(c, "cast_dtype", cast(rng, arr.dtype, arr))
            chans.append((c, arr))
        rng.shuffle(chans)
        if rng.random() < 0.08 and not pair:
            # a channel listed twice, or two channels of one name in a frame
            again, arr = rng.choice(chans)
            if rng.random() < 0.5:
                k += 1
                name = next(op[4] for op in p.ops if op[0] == "add" and op[2] == again.oid)
                arr = column(rng, n)
                kw = {"data": arr} if source == "inline" else {"dataset_name": f"ds{k}"}
                if source != "inline":
                    external[f"ds{k}"] = arr
                again = p.add(lf, "channel", name, **kw)
            chans.insert(rng.randint(0, len(chans)), (again, arr))
            doubled = True
        listed += chans
        p.add(lf, "frame", f"F{i}", channels=[c for c, a in chans])
    if rng.random() < 0.15 and not pair:
        p.add(lf, "channel", "UNASSIGNED", **({"dimension": [2, 3]} if rng.random() < 0.5 else {}),
              **({"data": np.zeros((2, 3))} if rng.random() < 0.5 and source != "struct" and source != "h5" else
                 {"dataset_name": "nowhere"}))
    override, data = {}, None
    if source == "dict":
        items = list(external.items())
        rng.shuffle(items)
        p.write_kw["data"] = dict(items)
    elif source == "struct":
        p.write_kw["data"] = gen.make_struct(rng, external)
    elif source == "h5":
        path = ctx.path(".h5")
        gen.write_h5(path, external, rng)
        override, data = {"data": path}, external
    p.write_kw["input_chunk_size"] = rng.choice([None, 1, 2])
    ctx.sample(p.describe(700))
    try:
        w = work.write_program(p, ctx, override, data, parse=False)
    except Exception as e:
        if doubled:
            ctx.count("doubled_rejected")
            return
        if consistent:
            raise
        ctx.count("inconsistent_rejected")
        return
    w.dlis = rp66.parse(w.raw)
    ctx.count("executions")
    monitor(w.dlis, ctx)
    against_spec(w, ctx)


def run_rewrite(ctx):
    """Several writes of one DLISFile, each with other data."""
    rng = ctx.rng
    p = spec.Program({})
    lf = p.lf()
    p.add(lf, "origin", "O", file_set_number=1)
    chans = []
    for j in range(rng.randint(1, 3)):
        kw = {}
        if rng.random() < 0.2:
            kw["element_limit"] = [rng.choice([4, 200])]
        c = p.add(lf, "channel", f"C{j}", dataset_name=f"d{j}", **kw)
        chans.append((c, kw))
    p.add(lf, "frame", "F", channels=[c for c, _ in chans])
    if rng.random() < 0.3:
        p.add(lf, "frame", "F2", channels=[chans[0][0]])
    runner = None
    w = work.Written()
    w.program = p
    w.runner = runner = spec.Runner(p)
    runner.build()
    done = 0
    for i in range(rng.randint(2, 5)):
        n = rng.randint(1, 4)
        d = {}
        legal = True
        for j, (c, kw) in enumerate(chans):
            d[f"d{j}"] = column(rng, n)
            if "element_limit" in kw and (list(d[f"d{j}"].shape[1:]) or [1])[0] > kw["element_limit"][0]:
                legal = False
            if rng.random() < 0.3:
                dt = None if rng.random() < 0.4 else cast(rng, d[f"d{j}"].dtype, d[f"d{j}"])
                p.py(c, "cast_dtype", dt)
                runner.step(p.ops[-1])
        model = spec.Model(p)
        data = d if rng.random() < 0.6 else gen.make_struct(rng, d)
        for ch in model.files[0].of("channel"):      # an earlier cast of values out of range is undefined
            a = d[ch.dataset_name]
            if ch.cast_dtype is not None and a.dtype.kind == "f" and np.dtype(ch.cast_dtype).kind in "iu":
                with np.errstate(all="ignore"):
                    if not (np.abs(a.astype("f8")) < 100).all() or (a < 0).any():
                        legal = None
        if legal is None:
            continue
        try:
            w2 = work.write_again(w, ctx, {"data": data}, d, parse=False)
        except Exception as e:
            if legal:
                raise Violation("rewrite.refused", f"write {i} with {[(k, a.dtype.str, a.shape) for k, a in d.items()]}: {e!r}")
            ctx.count("inconsistent_rejected")
            continue
        w2.dlis = rp66.parse(w2.raw)
        monitor(w2.dlis, ctx)
        against_spec(w2, ctx)
        done += 1
        ctx.count("executions")
    ctx.count("rewrites", max(0, done - 1))


def run_case(case, ctx):
    if case[0] == "frame":
        run_frame(ctx)
    elif case[0] == "pair":
        run_frame(ctx, pair=(case[1], case[2]))
    elif case[0] == "rewrite":
        run_rewrite(ctx)
    else:
        if case[0] == "crowd":
            p, override, data = work.crowd(ctx, *case[1:3])
        else:
            p, override, data, g = work.generate(ctx, extra=(0, 3), channels=(1, 6), frames=(1, 4), width=12, casts=True)
        w = work.write_program(p, ctx, override, data)
        ctx.count("executions")
        monitor(w.dlis, ctx)
        against_spec(w, ctx)
