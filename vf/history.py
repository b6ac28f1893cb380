"""History added to a program which must not matter: intermediate writes (with other options, data, modes) and values which
are assigned and replaced before the final write. The final specification is that of the original program."""
import os
from contextlib import nullcontext
import numpy as np

from . import spec
from .spec import Ref, Setup, KINDS, Model, PY_ATTR

KIND_OF_PREFIX = {}


def oid_kinds(p):
    return {op[2]: op[3] for op in p.ops if op[0] == "add"}


def other_value(rng, vk, v, kinds, pool, multi):
    """A value of the same kind which differs from v, or None."""
    if vk in ("text", "ident"):
        x = rng.choice(["DETOUR", "d", "D" * 130])
    elif vk == "props":
        x = rng.choice(["AVERAGED", "CALIBRATED", "SPLICED"])
    elif vk in ("num", "fdoubl"):
        x = rng.choice([12345.5, -1, 0, 7])
    elif vk in ("int", "uvari", "unorm", "ushort"):
        x = rng.choice([0, 1, 2, 200])
    elif vk == "status":
        x = 0 if v else 1
    elif vk == "dtime":
        x = "1999/01/02 03:04:05"
    elif vk == "dtimef":
        x = rng.choice(["1999/01/02 03:04:05", 3.25])
    elif vk == "generic":
        x = rng.choice([3, 2.5, "detour"])
    elif vk == "dim":
        x = rng.randint(1, 5)
    elif vk in ("obname", "objref", "lname"):
        first = next((r for r in spec.flatten(v) if isinstance(r, Ref)), None)
        if first is None:
            x = "detour name"
        else:
            mates = [o for o in pool if kinds[o] == kinds[first.oid]]
            if not mates:
                return None
            x = Ref(rng.choice(mates))
    else:
        return None
    if multi:
        n = rng.choice([1, 1, 2, 3])
        return [x] * n
    return x


def detour(p, rng, n=None, kinds_allowed=None):
    """A program with the same final specification as p and a longer history."""
    q = p.clone()
    ops = q.ops
    n = n or rng.choice([1, 1, 2])
    first = next((i for i, op in enumerate(ops) if op[0] == "add"), len(ops) - 1) + 1
    at = sorted((len(ops) if rng.random() < 0.6 else rng.randint(first, len(ops)) for _ in range(n)), reverse=True)
    for i in at:
        ops[i:i] = one(p, ops[:i], rng)
    return q


def one(p, before, rng):
    part = p.clone()
    part.ops = [op for op in before if op[0] not in ("write", "try")]
    m = Model(part)
    kinds = oid_kinds(part)
    out, back = [], []

    def change(op, restore):
        out.append(("try", op))
        back.append(restore)

    names = {}
    for o in m.by_oid.values():
        names.setdefault((o.lfid, o.kind, o.name), []).append(o.oid)
    objs = list(m.by_oid.values())
    rng.shuffle(objs)
    density = rng.choice([0.0, 0.05, 0.3, 0.8])
    gentle = rng.random() < 0.75        # the intermediate write is likely to succeed
    for o in objs:
        if rng.random() > density:
            continue
        pool = [x.oid for x in m.by_oid.values() if x.lfid == o.lfid]
        params = dict(KINDS[o.kind][2])
        # channels conform to their data: dimension and element limit would be set by a write
        for param, (lab, vk, multi) in params.items():
            a = o.attrs[lab]
            if rng.random() > 0.5 or not a.assigned or a.value is None or param in ("encrypted", "file_set_number"):
                continue
            if (o.kind, param) == ("frame", "channels"):
                chans = list(a.value if isinstance(a.value, (list, tuple)) else [a.value])
                other = list(chans)
                r = rng.random()
                if r < 0.4 and len(other) > 1:
                    other = other[::-1]
                elif (r < 0.7 or gentle) and len(other) > 1:
                    other.pop(rng.randrange(len(other)))
                else:
                    mates = [] if gentle else [Ref(x) for x in pool if kinds[x] == "channel" and x not in [c.oid for c in chans]]
                    if mates:
                        other[rng.randrange(len(other))] = rng.choice(mates)
                change(("set", o.oid, param, "value", other), ("set", o.oid, param, "value", chans))
                continue
            if gentle and (vk == "dim" or param == "axis"):
                continue
            w = other_value(rng, vk, a.value, kinds, pool, multi)
            if w is None:
                continue
            change(("set", o.oid, param, "value", w), ("set", o.oid, param, "value", a.value))
            if a.units is not None and vk in spec.UNITS_OK and rng.random() < 0.5:
                change(("set", o.oid, param, "units", rng.choice(["m", "s", "ft"])), ("set", o.oid, param, "units", a.units))
        if rng.random() < 0.3 and len(names[o.lfid, o.kind, o.name]) == 1:
            change(("py", o.oid, "name", f"DETOUR-{rng.randrange(10 ** 9)}"), ("py", o.oid, "name", o.name))
        if rng.random() < 0.3 and o.kind != "origin" and isinstance(o.origin, int):
            refs = [x.origin for x in m.by_oid.values() if x.lfid == o.lfid and x.kind == "origin" and isinstance(x.origin, int)]
            if refs:
                change(("py", o.oid, "origin_reference", rng.choice(refs)), ("py", o.oid, "origin_reference", o.origin))
        if o.kind == "channel":
            if rng.random() < 0.3:
                change(("py", o.oid, "cast_dtype", rng.choice([np.float64, np.float32, np.uint8, np.int32, None])),
                       ("py", o.oid, "cast_dtype", o.cast_dtype))
            sets = [op for op in part.ops if op[0] == "add" and op[2] == o.oid]
            if not gentle and rng.random() < 0.2 and sets and "dataset_name" in sets[0][5]:
                others = [x.dataset_name for x in m.by_oid.values() if x.kind == "channel" and x.dataset_name]
                change(("py", o.oid, "dataset_name", rng.choice(others)), ("py", o.oid, "dataset_name", o.dataset_name))
    for f in m.files:
        do = next((o for o in f.objs if o.kind == "origin"), None)
        if rng.random() < 0.3:
            if gentle and do is not None and not do.attrs["FILE-ID"].assigned:
                change(("set", do.oid, "file_id", "value", "DETOUR HEADER"), ("set", do.oid, "file_id", "value", f.id))
            change(("fh", f.lfid, "header_id", "DETOUR HEADER"), ("fh", f.lfid, "header_id", f.id))
        if rng.random() < 0.3:
            change(("fh", f.lfid, "sequence_number", rng.randint(1, 10 ** 9)), ("fh", f.lfid, "sequence_number", f.seq))
        if rng.random() < 0.3:
            change(("fh", f.lfid, "name", rng.choice("XYZ")), ("fh", f.lfid, "name", f.identifier))
    sul = m.sul
    if "storage_unit_label" not in p.file_kw:
        if rng.random() < 0.4:
            change(("sul", "set_identifier", "DETOUR SUL"), ("sul", "set_identifier", sul["set_identifier"]))
        if rng.random() < 0.4:
            change(("sul", "sequence_number", rng.randint(1, 9999)), ("sul", "sequence_number", sul["sequence_number"]))
        if rng.random() < 0.4:
            change(("sul", "max_record_length", rng.choice([20, 22, 64, 256, 8192, 16384])),
                   ("sul", "max_record_length", sul["max_record_length"]))
    w = {}
    if rng.random() < 0.3:
        w["input_chunk_size"] = rng.choice([1, 2, 7, None])
    if rng.random() < (0.1 if gentle else 0.3):
        w["from_idx"] = rng.choice([0, 1, 2])
    if rng.random() < (0.1 if gentle else 0.3):
        w["to_idx"] = rng.choice([1, 2, 3, 100])
    if rng.random() < 0.3:
        w["_data"] = rng.choice(["reverse", "shorter", "dtype", "wide", "none"][:None if not gentle else 2])
    if rng.random() < 0.1:
        w["_hc"] = True
    if not gentle and rng.random() < 0.2:
        w["output_chunk_size"] = 1       # too small: the write fails after it has started
    writes = [("write", w)] * rng.choice([1, 1, 1, 2])
    rng.shuffle(back)
    if rng.random() < 0.25 and out:      # part of the changes only after the write
        k = rng.randint(0, len(out))
        return out[:k] + writes + out[k:] + back
    return out + writes + back


def vary(data, how):
    """Other data with the same keys."""
    if how == "none":
        return None
    if isinstance(data, np.ndarray):
        return data[::-1] if how != "shorter" else data[:-1]
    if not isinstance(data, dict):
        return data
    r = {}
    for k, a in data.items():
        if how == "reverse":
            a = a[::-1]
        elif how == "shorter":
            a = a[:-1]
        elif how == "dtype":
            a = np.zeros(a.shape, "float64" if a.dtype.itemsize < 8 else "int16")
        elif how == "wide":
            a = np.zeros(a.shape[:1] + (3,), a.dtype)
        r[k] = a
    return r


def intermediate_write(runner, w):
    """Execute a "write" op; whether it succeeds does not matter. Returns True if it did."""
    import tempfile
    kw = dict(w)
    how, hc = kw.pop("_data", None), kw.pop("_hc", False)
    kw = {"output_chunk_size": 1 << 16, **runner.program.write_kw, **runner.override, **kw}
    if how and kw.get("data") is not None:
        kw["data"] = vary(kw["data"], how)
    if kw.get("output_chunk_size", 0) != 1 and runner.df.storage_unit_label.max_record_length > 8192:
        kw["output_chunk_size"] = 1 << 16
    kw["output_chunk_size"] = kw["output_chunk_size"] if kw["output_chunk_size"] == 1 else 1 << 16
    d = runner.scratch or ("/dev/shm" if os.path.isdir("/dev/shm") else tempfile.gettempdir())
    fd, path = tempfile.mkstemp(suffix=".dlis", dir=d)
    os.close(fd)
    try:
        if hc:
            from dliswriter import high_compatibility_mode
            with high_compatibility_mode():
                runner.df.write(path, **kw)
        else:
            with nullcontext():
                runner.df.write(path, **kw)
        return True
    except Exception:
        return False
    finally:
        if os.path.exists(path):
            os.unlink(path)
