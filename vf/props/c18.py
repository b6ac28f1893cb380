"""C18: frames and logical files are isolated from one another."""
import collections
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import KINDS, Ref, Setup, Runner
from ..core import Violation
from .c04 import REF_TARGET

RULE = ("'mix': random specifications of 2..5 logical files over all object types, set names reassigned at random (default, "
        "distinct, several per type, equal names for different types), names taken from a tiny pool, add_* calls of the "
        "logical files interleaved at random; 'share': the same with some sets merged across logical files (any type, any "
        "pair, default or given name): rejected, or written without contamination; 'cross': a reference from one logical "
        "file to an object of another: rejected; 'many': many small logical files and frames with identical names and data "
        "from which logical file, frame, channel and row can be told; 'clash': many channels of few names, some with data set "
        "names like the derived ones, spread over frames and logical files; 'grow': writes between additions of logical files, "
        "frames and objects; 'pair': two files built in alternation. Each file is decoded and compared per logical file. "
        "Distinct: shapes (logical files, frames, set assignment) and outcomes.")
MINIMUM = {"logical_files": 3000, "frames_compared": 5000, "objects_compared": 10000, "shared_rejected": 150,
           "cross_rejected": 150}
ASSUMPTIONS = ["data passed to write() apply to all logical files by dataset name, before inline data"]


def plan(tier, seed):
    quick = tier == "quick"
    m = 1 if quick else 20
    return ([["clash", i] for i in range(220 * m)] + [["mix", i] for i in range(500 * m)] + [["share", i] for i in range(450 * m)] +
            [["cross", i] for i in range(350 * m)] + [["many", i] for i in range(350 * m)] +
            [["header", i] for i in range(60 * m)] + [["grow", i] for i in range(160 * m)] + [["pair", i] for i in range(100 * m)] +
            work.crowd_cases(quick, files=3, sets=3, rows=1, payloads=2, frames=1))


# ------------------------------------------------------------------ transformation of programs

def lf_of(p):
    out = {}
    for op in p.ops:
        if op[0] == "add":
            out[op[2]] = op[1]
    return out


def interleave(p, rng):
    """The operations of the logical files in a random order that keeps each file's own order."""
    owner = lf_of(p)
    queues = collections.OrderedDict()
    for op in p.ops:
        if op[0] == "lf":
            queues[op[1]] = [op]
        elif op[0] in ("add", "nofmt"):
            queues[op[1]].append(op)
        else:
            queues[owner[op[1]]].append(op)
    lfs = list(queues)
    style = rng.choice(["random", "random", "robin", "reverse", "bursts"])
    ops = []
    if style != "random" or rng.random() < 0.5:     # all logical files created first, in order
        for k in lfs:
            ops.append(queues[k].pop(0))
        live = [k for k in lfs if queues[k]]
        created = len(lfs)
    else:
        created, live = 0, []
    if style == "reverse":
        for k in reversed(lfs):
            ops += queues[k]
        p.ops = ops
        return style
    while live or created < len(lfs):
        if created < len(lfs) and (not live or rng.random() < 0.2):
            k = lfs[created]
            created += 1
            ops.append(queues[k].pop(0))
            if queues[k]:
                live.append(k)
            continue
        if style == "robin":
            k = live.pop(0)
            live.append(k)
        else:
            k = rng.choice(live)
        for _ in range(rng.randint(1, 6) if style == "bursts" else 1):
            if queues[k]:
                ops.append(queues[k].pop(0))
        if not queues[k]:
            live.remove(k)
    p.ops = ops
    return style


POOL = [None, "", "A", "B", "MAIN", "SET", "0", "LF", "DEFAULT", "a", "None", " ", "FILE-HEADER", "ORIGIN", "A" * 255]


def norm(s):
    return s or None


def reassign_sets(p, rng):
    """Other set names, disjoint between the logical files for each type. Returns {(kind, name): lfid}."""
    same = rng.random() < 0.3      # one name per logical file for all types
    general = {}
    taken, mapping = {}, {}
    lfs = [op[1] for op in p.ops if op[0] == "lf"]
    tags = rng.sample([x for x in POOL if x != ""] + [f"LF-{i}" for i in range(8)], len(lfs))
    for lf, t in zip(lfs, tags):
        general[lf] = t
    ops = []
    for op in p.ops:
        if op[0] == "add":
            _, lf, oid, kind, name, kw = op
            key = (lf, kind, norm(kw.get("set_name")))
            if key not in mapping:
                for _ in range(50):
                    s = general[lf] if same and rng.random() < 0.9 else rng.choice(POOL)
                    if taken.get((kind, norm(s)), (lf, key)) == (lf, key) and (kind, norm(s)) not in taken:
                        break
                else:
                    s = f"{lf}-{len(taken)}"
                mapping[key] = s
                taken[kind, norm(s)] = (lf, key)
            s = mapping[key]
            kw = {k: v for k, v in kw.items() if k != "set_name"}
            if s is not None or rng.random() < 0.1:
                kw["set_name"] = s
            if not norm(s) and kw.get("set_name") is not None and rng.random() < 0.5:
                del kw["set_name"]
            op = op[:5] + (kw,)
        ops.append(op)
    p.ops = ops
    return {k: v[0] for k, v in taken.items()}


NAMES = ["A", "B", "X1"]


def rename(p, rng):
    """Objects of all types and logical files under few names."""
    ops = []
    k = rng.choice([1, 2, 3])
    for op in p.ops:
        if op[0] == "add":
            _, lf, oid, kind, name, kw = op
            if kind == "channel":
                pass        # a frame needs different names
            elif rng.random() < 0.8 and not any(o[0] == "py" and o[1] == oid for o in p.ops):
                name = rng.choice(NAMES[:k])
            op = op[:4] + (name, kw)
        ops.append(op)
    p.ops = ops


def align_channels(p, rng):
    """Channels of different logical files and frames under the same names and dataset names."""
    per_lf = collections.defaultdict(list)
    for op in p.ops:
        if op[0] == "add" and op[3] == "channel":
            per_lf[op[1]].append(op[2])
    new = {}
    for lf, oids in per_lf.items():
        for i, oid in enumerate(oids):
            new[oid] = f"CH{i}"
    ops = []
    for op in p.ops:
        if op[0] == "add" and op[2] in new:
            kw = op[5]
            inline = kw.get("data") is not None
            if inline:
                kw = {**kw, "dataset_name": new[op[2]]}
            op = op[:4] + (new[op[2]], kw)
        ops.append(op)
    p.ops = ops


# ------------------------------------------------------------------ execution

def make(ctx, **opts):
    opts = {"n_lf": (2, 5), "rows": (1, 6), "extra": (0, 9), "frames": (1, 3), "nofmt": (0, 3), "density": 0.3,
            "windows": ctx.rng.random() < 0.15, **opts}
    p, override, data, g = work.generate(ctx, **opts)
    rng = ctx.rng
    rename(p, rng)
    ext = data if data is not None else p.write_kw.get("data")
    if ext is None and rng.random() < 0.7:
        align_channels(p, rng)
    elif isinstance(ext, dict) and rng.random() < 0.3 and not any(str(k).startswith("CH") for k in ext):
        align_channels(p, rng)
    reassign_sets(p, rng)
    style = interleave(p, rng)
    return p, override, data, style


def window(p):
    return (p.write_kw.get("from_idx", 0), p.write_kw.get("to_idx"))


def check(ctx, p, w, data):
    dlis = getattr(w, "dlis", w)
    res = spec.compare(p, dlis, data=data, window=window(p), what=("objects", "attrs", "refs", "frames", "nofmt", "header"))
    order(dlis, p)
    ctx.count("logical_files", len(dlis.files))
    ctx.count("objects_compared", len(res.obj))
    ctx.count("rows_compared", res.rows)
    ctx.count("references_compared", res.refs)
    ctx.count("payloads_compared", res.payloads)
    n = 0
    for lf in dlis.files:
        for es in lf.sets:
            if es.type == "FRAME":
                n += len(es.objects)
    ctx.count("frames_compared", n)
    return res


def order(dlis, p):
    """Logical files in creation order, each opening with exactly one header of its own."""
    lfs = [op for op in p.ops if op[0] == "lf"]
    if len(lfs) != len(dlis.files):
        raise Violation("lf.count", f"{len(dlis.files)} logical files, {len(lfs)} created")
    for op, lf in zip(lfs, dlis.files):
        es = lf.sets[0]
        if es.type != "FILE-HEADER" or len(es.objects) != 1 or sum(1 for s in lf.sets if s.type == "FILE-HEADER") != 1:
            raise Violation("lf.header", f"sets {[s.type for s in lf.sets]}")
        got = es.objects[0].attrs["ID"].values[0].rstrip(" ")
        if got != op[2].get("fh_id", "FILE-HEADER").rstrip(" "):
            raise Violation("lf.order", f"header {got!r}, created {op[2]!r}")


def signature(p):
    sets = collections.Counter()
    for op in p.ops:
        if op[0] == "add":
            sets[op[1], op[3], norm(op[5].get("set_name"))] += 1
    return tuple(sorted((k[1], k[2] is None, n) for k, n in sets.items()))


def run_mix(ctx):
    p, override, data, style = make(ctx)
    ctx.sample(p.describe(500))
    ctx.count("executions")
    w = work.write_program(p, ctx, override, data)
    check(ctx, p, w, data)
    ctx.distinct((style, signature(p)))
    if ctx.rng.random() < 0.2:      # the same object written once more
        w2 = work.write_again(w, ctx, override, data)
        check(ctx, p, w2, data)


def run_share(ctx):
    rng = ctx.rng
    p, override, data, style = make(ctx, n_lf=(2, 4), extra=(2, 9))
    ops = p.ops
    adds = [(i, op) for i, op in enumerate(ops) if op[0] == "add"]
    done = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i, a = rng.choice(adds)
        if rng.random() < 0.3:
            i, a = rng.choice([x for x in adds if x[1][3] in ("origin", "channel", "frame")])
        cand = [(j, b) for j, b in adds if b[3] == a[3] and b[1] != a[1]]
        if not cand:
            continue
        j, b = rng.choice(cand)
        s = norm(a[5].get("set_name"))
        if norm(b[5].get("set_name")) == s:
            continue
        whole = rng.random() < 0.4
        old = norm(b[5].get("set_name"))
        for k, op in enumerate(p.ops):
            if op[0] == "add" and op[1] == b[1] and op[3] == b[3] and (k == j or whole and norm(op[5].get("set_name")) == old):
                kw = {x: v for x, v in op[5].items() if x != "set_name"}
                if s is not None:
                    kw["set_name"] = s
                elif rng.random() < 0.3:
                    kw["set_name"] = rng.choice([None, ""])
                p.ops[k] = op[:5] + (kw,)
        adds = [(k, op) for k, op in enumerate(p.ops) if op[0] == "add"]
        done.append((a[3], s is None, whole))
    if not done:
        ctx.count("not_applicable")
        return
    ctx.count("executions")
    ctx.sample(f"{done}\n{p.describe(500)}")
    try:
        w = work.write_program(p, ctx, override, data, parse=False)
    except Exception as e:
        ctx.count("shared_rejected")
        ctx.distinct(("shared", tuple(sorted(done)), type(e).__name__))
        return
    w.dlis = rp66.parse(w.raw)
    check(ctx, p, w, data)
    ctx.count("shared_written")
    ctx.distinct(("shared", tuple(sorted(done)), "written"))


def swap(x, a, b):
    """x with every reference to a replaced by b."""
    if isinstance(x, Ref):
        return b if x.oid == a.oid else x
    if isinstance(x, Setup):
        return Setup(swap(x.value, a, b), x.units, x.as_dict)
    if isinstance(x, (list, tuple)):
        return type(x)(swap(v, a, b) for v in x)
    if isinstance(x, dict):
        return {k: swap(v, a, b) for k, v in x.items()}
    return x


def run_header(ctx):
    """Headers made by the user: of their own, or one (or one set) for several logical files."""
    import dliswriter
    from dliswriter import eflr_types
    rng = ctx.rng
    n = rng.randint(2, 4)
    share = rng.choice([None, None, "item", "set"])
    pair = sorted(rng.sample(range(n), 2))
    df = dliswriter.DLISFile()
    items = []
    ctx.count("executions")
    ctx.sample(f"{n} headers, sharing {share} {pair}")
    path = ctx.path()
    try:
        for i in range(n):
            own = rng.random() < 0.7
            if share and i in pair:
                own = True
            if not own:
                lf = df.add_logical_file(fh_id=f"H{i}", fh_sequence_number=i + 1)
            else:
                es = eflr_types.FileHeaderSet()
                item = None
                if share and i == pair[1]:
                    if share == "item":
                        item = items[pair[0]]
                    else:
                        es = items[pair[0]].parent
                item = item or eflr_types.FileHeaderItem(f"H{i}", parent=es, sequence_number=i + 1)
                lf = df.add_logical_file(file_header=item)
                items += [None] * (i - len(items)) + [item]
            while len(items) <= i:
                items.append(None)
            lf.add_origin("O", file_set_number=i + 1, set_name=f"S{i}")
            c = lf.add_channel("C", data=np.arange(3, dtype="u1") + np.uint8(10 * i), dataset_name="C", set_name=f"S{i}")
            lf.add_frame("F", channels=[c], set_name=f"S{i}")
        df.write(path, output_chunk_size=20000)
    except Exception as e:
        if not share:
            raise Violation("header.refused", f"{type(e).__name__}: {e}") from e
        ctx.count("shared_rejected")
        ctx.distinct(("header", share, n, type(e).__name__))
        return
    if share == "item":
        raise Violation("header.shared", "one header opens two logical files")
    dlis = rp66.parse(work.read(path))
    got = [[o.attrs["ID"].values[0].rstrip(" ") for o in lf.sets[0].objects] for lf in dlis.files]
    if got != [[f"H{i}"] for i in range(n)]:
        raise Violation("lf.order", f"headers {got}")
    for i, lf in enumerate(dlis.files):
        rows = [rp66.split_fdata(r) for r in lf.iflrs]
        if [r[0] for r in rows] != [1, 2, 3] or [r[1][-1] for r in rows] != [10 * i + k for k in range(3)]:
            raise Violation("lf.rows", f"logical file {i}: {rows}")
    ctx.distinct(("header", share, n, "written"))


def run_cross(ctx):
    """A reference to an object of another logical file."""
    rng = ctx.rng
    p, override, data, style = make(ctx, n_lf=(2, 3), extra=(2, 7), renames=False)
    kind, param = rng.choice(list(REF_TARGET))
    lfs = [op[1] for op in p.ops if op[0] == "lf"]
    here, there = rng.sample(lfs, 2)
    tk = REF_TARGET[kind, param]
    objs = [(op[2], op[1]) for op in p.ops if op[0] == "add" and op[3] == tk]
    far = [o for o, lf in objs if lf == there]
    kw = {}
    if tk == "channel":
        kw = {"dataset_name": "far"}
    if tk == "origin":
        return
    t = Ref(rng.choice(far)) if far and rng.random() < 0.6 else p.add(there, tk, rng.choice(NAMES), set_name=f"FAR-{there}", **(
        kw if tk != "frame" else {"channels": [p.add(there, "channel", "FARC", set_name=f"FAR-{there}", dataset_name="farc",
                                                     data=np.arange(2))]}))
    multi = KINDS[kind][2][param][2]
    value = [t] if multi else t
    r = rng.random()
    base_kw = {"set_name": f"CROSS-{here}"}
    if kind == "channel":
        base_kw["dataset_name"] = "crossc"
    if kind == "frame":
        ext = data if data is not None else p.write_kw.get("data")
        if isinstance(ext, np.ndarray) or data is not None:
            return
        c = p.add(here, "channel", "CROSSC", set_name=f"CROSS-{here}", dataset_name="crossc", data=np.arange(2))
        if param == "channels":
            value = rng.choice([[t], [c, t], [t, c]])
            if r >= 0.6:
                base_kw["channels"] = [c]
        else:
            base_kw["channels"] = [c]
    if isinstance(data, dict) or isinstance(p.write_kw.get("data"), np.ndarray):
        if tk == "frame":
            return
    mates = [Ref(op[2]) for op in p.ops if op[0] == "add" and op[1] == here and op[3] == tk and tk != "channel"]
    if multi and mates and kind != "frame" and rng.random() < 0.4:
        value = rng.choice([[mates[0], t], [t, mates[0]]])
    if r < 0.6:
        p.add(here, kind, "CROSS", **{param: value if rng.random() < 0.7 else Setup(value)}, **base_kw)
    else:
        o = p.add(here, kind, "CROSS", **base_kw)
        p.set(o, param, value)
    ctx.count("executions")
    ctx.sample(f"{kind}.{param}\n{p.describe(500)}")
    if kind != "frame" and tk != "frame" and rng.random() < 0.5:       # the same reference within the logical file
        twin = p.clone()
        near = twin.add(here, tk, rng.choice(NAMES), set_name=f"NEAR-{here}", **kw)
        i = next(i for i, op in enumerate(twin.ops) if op[0] == "add" and op[4] == "CROSS")
        twin.ops.insert(i, twin.ops.pop())
        twin.ops = [swap(op, t, near) if k > i else op for k, op in enumerate(twin.ops)]
        try:
            w = work.write_program(twin, ctx, override, data)
        except Exception as e:
            raise Violation("twin.refused", f"{kind}.{param} within the logical file: {type(e).__name__}: {e}\n"
                                            f"{twin.describe(3000)}") from e
        check(ctx, twin, w, data)
        ctx.count("cross_twins")
    try:
        w = work.write_program(p, ctx, override, data, parse=False)
    except Exception as e:
        ctx.count("cross_rejected")
        ctx.distinct(("cross", kind, param, type(e).__name__))
        return
    raise Violation("cross.written", f"{kind}.{param} refers to an object of another logical file and is written\n{p.describe(3000)}")


def tagged(lf, fr, ch, rows, dt, width):
    """Values telling logical file, frame, channel and row."""
    base = (lf << 26) + (fr << 20) + (ch << 14)
    a = base + np.arange(rows, dtype="u4")
    if width > 1:
        a = np.repeat(a[:, None], width, axis=1)
    return a.astype(dt)


def run_many(ctx):
    rng = ctx.rng
    p = spec.Program({"max_record_length": rng.choice([64, 128, 8192])})
    n_lf = rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
    n_fr = rng.choice([1, 2, 3, 5, 10]) if n_lf <= 8 else rng.choice([1, 2])
    n_ch = rng.choice([1, 2, 3])
    route = rng.choice(["inline", "dict", "mixed", "h5"])
    dt = rng.choice(["u4", ">u4", "f8", ">f8"])
    names = rng.choice(["same", "per-lf", "first-default"])
    external, tags = {}, {}
    progs = []
    lfs = [p.lf(fh_id=f"LF{i}" if rng.random() < 0.8 else "SAME", fh_sequence_number=i + 1) for i in range(n_lf)]
    for i, lf in enumerate(lfs):
        sn = {} if names == "first-default" and i == 0 or n_lf == 1 else {"set_name": f"S{i}"}
        p.add(lf, "origin", "O", file_set_number=i + 1, creation_time="2024/05/06 07:08:09", **sn)
        if rng.random() < 0.5:
            p.nofmt(lf, p.add(lf, "no_format", "N", **sn), f"payload of {i}")
        for f in range(n_fr):
            rows = rng.choice([1, 1, 2, 3, 5, 40])
            chans = []
            for c in range(n_ch):
                a = tagged(i, f, c, rows, dt, rng.choice([1, 1, 3]))
                inline = route == "inline" or route == "mixed" and rng.random() < 0.5
                if inline:
                    kw = {"data": a}
                    if rng.random() < 0.3:
                        kw["dataset_name"] = f"ds{f}-{c}"       # the same for all logical files
                else:
                    kw = {"dataset_name": f"x{i}-{f}-{c}"}
                    external[kw["dataset_name"]] = a
                # the same name in every frame: told apart by copy numbers
                chans.append(p.add(lf, "channel", f"C{c}", **kw, **sn))
            p.add(lf, "frame", "MAIN", channels=chans, **sn)
            tags[lf, f] = (i, f)
    interleave(p, rng)
    override, data = {}, None
    if external and route == "h5":
        path = ctx.path(".h5")
        gen.write_h5(path, external, rng)
        override, data = {"data": path}, external
    elif external:
        p.write_kw["data"] = external
    p.write_kw["input_chunk_size"] = rng.choice([None, None, 1, 2, 7])
    ctx.count("executions")
    ctx.sample(p.describe(400))
    w = work.write_program(p, ctx, override, data)
    check(ctx, p, w, data)
    independent(ctx, w.dlis, n_fr)
    ctx.distinct(("many", n_lf, n_fr, n_ch, route, names))


def run_crowd(ctx, what, size):
    p, override, data = work.crowd(ctx, what, size)
    if what == "files" or ctx.rng.random() < 0.5:
        interleave(p, ctx.rng)
    ctx.count("executions")
    w = work.write_program(p, ctx, override, data, history=0.05)
    check(ctx, p, w, data)
    independent(ctx, w.dlis, None)


def run_clash(ctx):
    """Channels of few names; data set names given by the user among those that are derived for the others."""
    import dliswriter
    rng = ctx.rng
    pool = rng.sample(["A", "B", "A__1", "A__2", "A__1__1"], rng.randint(1, 3))
    given = ["A", "B", "A__1", "A__2", "A__3", "B__1", "A__1__1", "A__2__1", "A_1", "A__0", "A__10", "a", "A__01", "__1"]
    df = dliswriter.DLISFile()
    external, expected, log = {}, [], []
    route = rng.choice(["inline", "inline", "dict", "mixed"])
    n_lf = rng.choice([1, 1, 2, 3])
    lfs = []
    for i in range(n_lf):
        lf = df.add_logical_file(fh_id=f"LF{i}")
        lf.add_origin("O", file_set_number=i + 1, set_name=f"S{i}")
        lfs.append((lf, [], set()))
    for k in range(rng.randint(2, 14)):
        i = rng.randrange(n_lf)
        lf, chans, used = lfs[i]
        name = rng.choice(pool)
        ds = rng.choice(given) if rng.random() < 0.4 else None
        rows = rng.choice([2, 2, 3])
        a = tagged(i, len(chans), k, rows, "u4", 1)
        kw = {"set_name": f"S{i}-{rng.randint(0, 1)}" if rng.random() < 0.2 else f"S{i}"}
        inline = route == "inline" or route == "mixed" and rng.random() < 0.5
        log.append(f"{i}: {name} dataset {ds} {'inline' if inline else 'mapping'}")
        if inline:
            kw["data"] = a
        if ds is not None:
            kw["dataset_name"] = ds
        try:
            ch = lf.add_channel(name, **kw)
        except Exception as e:
            if ds is None or ds not in used:
                raise Violation("clash.refused", f"{log}: {type(e).__name__}: {e}") from e
            ctx.count("clashes_rejected")
            continue
        ctx.count("clash_channels")
        used.add(ch.dataset_name)
        chans.append([ch, name, a, inline])
    if route != "inline":       # external data apply to all logical files
        owners = collections.Counter(c[0].dataset_name for _, chans, _ in lfs for c in chans)
        for _, chans, _ in lfs:
            for c in chans:
                n = c[0].dataset_name
                if c[3] and owners[n] > 1:
                    if n in external or any(d[0].dataset_name == n and not d[3] for _, cs, _ in lfs for d in cs):
                        c[2] = None
                elif not c[3]:
                    external.setdefault(n, c[2])
        for _, chans, _ in lfs:
            for c in chans:
                if c[0].dataset_name in external:
                    c[2] = external[c[0].dataset_name]
    ctx.count("executions")
    ctx.sample(log)
    for i, (lf, chans, used) in enumerate(lfs):
        if not chans:
            c = lf.add_channel("FILL", data=tagged(i, 0, 60, 2, "u4", 1), dataset_name=f"fill{i}", set_name=f"S{i}")
            chans.append([c, "FILL", tagged(i, 0, 60, 2, "u4", 1), True])
        left = list(chans)
        rng.shuffle(left)
        frames = []
        while left:
            group = [left.pop()]
            for c in list(left):
                if rng.random() < 0.4 and c[1] not in [g[1] for g in group] and len(c[2]) == len(group[0][2]):
                    group.append(c)
                    left.remove(c)
            lf.add_frame("F", channels=[g[0] for g in group], set_name=f"S{i}")
            frames.append([g[2] for g in group])
        expected.append(frames)
    path = ctx.path()
    try:
        df.write(path, output_chunk_size=20000, **({"data": external} if route != "inline" else {}))
    except Exception as e:
        raise Violation("clash.not_written", f"{log}: {type(e).__name__}: {e}") from e
    dlis = rp66.parse(work.read(path))
    if len(dlis.files) != n_lf:
        raise Violation("lf.count", f"{len(dlis.files)} logical files, {n_lf} created")
    for i, (lf, frames) in enumerate(zip(dlis.files, expected)):
        got = [o for es in lf.sets if es.type == "FRAME" for o in es.objects]
        if len(got) != len(frames):
            raise Violation("clash.frames", f"{log}: {len(got)} frames in logical file {i}")
        for fr, arrays in zip(got, frames):
            recs = frame_records(lf, fr.obname)
            want = [(r + 1, b"".join(int(a[r]).to_bytes(4, "big") for a in arrays)) for r in range(len(arrays[0]))]
            if [(n, bytes(b)) for n, b in recs] != want:
                raise Violation("clash.rows", f"{log}: logical file {i} frame {tuple(fr.obname)}: {recs}, expected {want}")
            ctx.count("clash_frames")
            ctx.count("frames_compared")
    ctx.count("logical_files", n_lf)
    ctx.distinct(("clash", route, tuple(log)))


def independent(ctx, dlis, n_fr):
    """Without the model: the tags of each frame's rows agree with one another and the numbers run from 1."""
    seen = set()
    for i, lf in enumerate(dlis.files):
        per = collections.OrderedDict()
        for es in lf.sets:
            if es.type == "FRAME":
                for fr in es.objects:
                    per[fr.obname] = []
        for fr in per:
            recs = frame_records(lf, fr)
            if [n for n, _ in recs] != list(range(1, len(recs) + 1)):
                raise Violation("frame.numbers", f"logical file {i} frame {tuple(fr)}: {[n for n, _ in recs][:20]}")
            ctx.count("rows_numbered", len(recs))
            key = i, fr
            if key in seen:
                raise Violation("frame.twice", f"{key}")
            seen.add(key)


def frame_records(lf, name):
    return [rp66.split_fdata(r) for r in lf.iflrs if r.ref == name and r.type == 0]


def run_grow(ctx):
    """Writes between additions; every written file corresponds to what was added so far."""
    rng = ctx.rng
    p, override, data, style = make(ctx, n_lf=(2, 3), renames=False, reassign=False, late_origin=False, origins=(1, 1))
    r = Runner(p)
    import datetime
    r.t0 = datetime.datetime.now(datetime.timezone.utc)
    r.make_file()
    full = list(p.ops)
    ctx.count("executions")
    ctx.sample(p.describe(400))
    # points after which no object existing already is changed any more
    changed = {op[1]: k for k, op in enumerate(full) if op[0] in ("set", "setattrs", "py")}
    last_frame = {}
    for k, op in enumerate(full, 1):
        if op[0] == "add" and op[3] == "frame":
            for c in spec.flatten([op[5]["channels"]]):
                last_frame.setdefault(c.oid, k)
    good, open_until = [], 0
    for k, op in enumerate(full, 1):
        if op[0] == "add":      # channels conform to their data once they are in a frame
            open_until = max(open_until, changed.get(op[2], 0), last_frame.get(op[2], 0))
        if open_until < k:
            good.append(k)
    cuts = set(rng.sample(good, min(4, len(good)))) | {rng.randint(1, len(full)), len(full)}
    written = 0
    for k, op in enumerate(full, 1):
        r.step(op)
        if k not in cuts:
            continue
        part = p.clone()
        part.ops = full[:k]
        r.program = p
        path = ctx.path()
        try:
            r.write(path, **override)
        except Exception as e:
            if k in good and complete(part):
                raise Violation("grow.refused", f"after {k} operations: {type(e).__name__}: {e}\n{part.describe(3000)}") from e
            ctx.count("incomplete")
            continue
        check(ctx, part, rp66.parse(work.read(path)), data)
        written += 1
        ctx.count("grow_writes")
    ctx.distinct(("grow", style, written, len(full)))


def complete(p):
    """Each logical file has an origin and nothing that needs something which is missing."""
    have = collections.defaultdict(set)
    for op in p.ops:
        if op[0] == "lf":
            have[op[1]]
        elif op[0] == "add":
            have[op[1]].add(op[3])
    if not have:
        return False
    return all({"origin", "channel", "frame"} <= v for v in have.values())


def run_pair(ctx):
    """Two DLISFile objects built in alternation."""
    rng = ctx.rng
    import datetime
    items = []
    for _ in range(2):
        p, override, data, style = make(ctx, n_lf=(1, 3))
        r = Runner(p)
        r.t0 = datetime.datetime.now(datetime.timezone.utc)
        r.make_file()
        items.append((p, override, data, r))
    queues = [list(x[0].ops) for x in items]
    while any(queues):
        i = rng.choice([i for i in range(2) if queues[i]])
        for _ in range(rng.randint(1, 5)):
            if queues[i]:
                op = queues[i].pop(0)
                r = items[i][3]
                if op[0] == "set" and op[3] == "value" and op[4] is None:
                    try:
                        r.step(op)
                    except (TypeError, ValueError):
                        r.program.ops.remove(op)
                    continue
                r.step(op)
    ctx.count("executions")
    ctx.sample(items[0][0].describe(300))
    for i in rng.sample([0, 1, 0, 1], 3):
        p, override, data, r = items[i]
        path = ctx.path()
        r.write(path, **override)
        check(ctx, p, rp66.parse(work.read(path)), data)
    ctx.distinct(("pair", signature(items[0][0])[:5]))


def run_case(case, ctx):
    {"clash": run_clash, "mix": run_mix, "share": run_share, "cross": run_cross, "many": run_many, "header": run_header, "grow": run_grow, "pair": run_pair,
     "crowd": run_crowd}[case[0]](ctx, *(case[1:3] if case[0] == "crowd" else ()))
