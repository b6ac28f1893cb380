"""C20: a rejected call leaves no trace in later files."""
import contextlib
import datetime
import os
import resource
import signal
import numpy as np

from .. import work, rp66, spec, gen, fresh
from ..spec import KINDS, Ref, Setup, Runner
from ..core import Violation

RULE = ("A history: the operations of a random specification with calls in between which raise - add_* of every object type "
        "with every parameter wrong in the ways of its kind (type, range, enumeration, reference, units, origin, name, set "
        "name, data, unknown keyword), alone or after valid parameters, with names and set names of existing and later "
        "objects ('mix'; one parameter systematically: 'param'; a rejected Origin, Channel or Frame first: 'key'; rejected in "
        "high-compatibility mode: 'hc'), refused assignments ('assign'), writes that fail at many points including a full "
        "disk and a source breaking down ('write'), objects made unwritable and repaired ('poison'). The twin: the same "
        "operations without the rejected ones. Files, copy numbers, dataset names, origin references and inventories of both "
        "must be equal; a sample of twins is run in a pristine process. Distinct: (history kind, object type, parameter, "
        "exception type).")
MINIMUM = {"comparisons": 2000, "rejected_calls": 8000, "failed_writes": 500, "rejected_assignments": 800, "pristine": 80,
           "repaired": 250}
ASSUMPTIONS = ["what exactly is rejected is not this property's concern: the twin consists of the calls that were accepted",
               "calls are rejected with exceptions; asynchronous interruptions of add_* calls are not exercised"]


def plan(tier, seed):
    m = 1 if tier == "quick" else 26
    cases = [["mix", i] for i in range(650 * m)]
    cases += [["param", k, x, i] for k in KINDS for x in PARAMS[k] + GENERAL for i in range(m)]
    cases += [["key", i] for i in range(250 * m)]
    cases += [["hc", i] for i in range(200 * m)]
    cases += [["assign", i] for i in range(250 * m)]
    cases += [["write", i] for i in range(350 * m)]
    cases += [["poison", i] for i in range(350 * m)]
    return cases


# any value of a source is accepted, until the file is written
PARAMS = {k: [p for p in KINDS[k][2] if (k, p) != ("channel", "source")] for k in KINDS}
GENERAL = ["name", "set_name", "origin_reference", "unknown", "data", "dataset_name", "cast_dtype"]
STATE = {}


def setup_worker(ctx):
    if "z" in STATE:
        STATE["z"].close()
    STATE["z"] = fresh.Zygote(ctx.scratch)


def finish_worker(ctx):
    STATE.pop("z").close()


# ------------------------------------------------------------------ wrong values

class Thing:
    """No value of anything."""

    def __repr__(self):
        return "Thing()"


THING = Thing()
HARD = {("calibration_measurement", "phase"), ("zone", "domain"), ("process", "status"), ("process", "properties"),
        ("channel", "properties"), ("computation", "properties")}


def wrong(rng, kind, param, refs):
    """A value which the parameter cannot have. refs: {kind: [Ref]} of existing objects."""
    label, vk, multi = KINDS[kind][2][param]
    good = None
    if vk in ("text", "ident"):
        bad = rng.choice([5, THING, b"bytes", 1.5, datetime.datetime(2020, 1, 1)])
        good = "fine"
        if (kind, param) in HARD:
            bad, good = rng.choice(["NO-SUCH-VALUE", 5, THING]), rng.choice(ENUM_GOOD[kind, param])
    elif vk == "props":
        bad, good = rng.choice(["NO-SUCH-VALUE", 5, THING]), "AVERAGED"
    elif vk in ("num", "fdoubl"):
        bad, good = rng.choice(["x", THING, b"1", datetime.datetime(2020, 1, 1), 10 ** 400, 1j]), 1.5
    elif vk in ("int", "dim"):
        bad, good = rng.choice(["x", THING, 1.5, 1j]), 2
        if kind in ("channel",):
            good = None
    elif vk in ("uvari", "unorm", "ushort", "status"):
        bad, good = rng.choice(["x", THING, 1.5, 1j]), 1
    elif vk == "dtime":
        bad, good = rng.choice(["not a time", THING, 5, "2020-13-45"]), "2024/01/02 03:04:05"
    elif vk == "dtimef":
        bad, good = rng.choice(["not a time", THING, "2020-13-45"]), 1.0
    elif vk == "generic":
        bad, good = rng.choice([THING, b"bytes", 1j, {"a": 1}]), 3
    elif vk in ("obname", "objref", "lname"):
        from .c04 import REF_TARGET
        want = {"lname": "long_name"}.get(vk) or REF_TARGET[kind, param]
        other = [r for k, rs in refs.items() for r in rs if k != want and (vk != "objref")
                 and not (kind, param) in LOOSE]
        bad = rng.choice([5, THING, 1.5, b"x"] + (["name"] if vk != "lname" else []) +
                         ([rng.choice(other)] * 4 if other else []))
        good = rng.choice(refs[want]) if refs.get(want) else None
    else:
        raise ValueError(vk)
    if multi:
        r = rng.random()
        if r < 0.35:
            v = bad
        elif r < 0.6 or good is None:
            v = [bad]
        elif r < 0.9:
            v = [good] * rng.randint(1, 3) + [bad]
        else:
            v = [bad, good]
        if vk in ("dim",) and isinstance(v, list) and rng.random() < 0.2:
            v = tuple(v)
    else:
        v = bad
        if vk in ("text", "ident", "num", "obname") and good is not None and rng.random() < 0.15:
            v = [good, bad]
    r = rng.random()
    if r < 0.12:
        v = Setup(v, None, as_dict=rng.random() < 0.5)
    elif r < 0.18 and good is not None:
        v = Setup(good, rng.choice([5, THING, b"m"]), as_dict=rng.random() < 0.5)
    elif r < 0.22 and good is not None:
        v = {"value": good, "unit": "m"}
    return v


# any kind of object is accepted there
LOOSE = {("path", "value"), ("calibration_measurement", "measurement_source"), ("channel", "source"),
         ("computation", "source"), ("group", "object_list")}
ENUM_GOOD = {("calibration_measurement", "phase"): ["AFTER", "BEFORE"], ("zone", "domain"): ["TIME", "BOREHOLE-DEPTH"],
             ("process", "status"): ["COMPLETE", "ABORTED"]}


def good_params(rng, kind, refs, avoid):
    """A few valid parameters of the kind."""
    kw = {}
    ps = [p for p in KINDS[kind][2] if p != avoid]
    rng.shuffle(ps)
    for param in ps[:rng.randint(0, 4)]:
        label, vk, multi = KINDS[kind][2][param]
        if vk == "text" or (vk == "ident" and (kind, param) not in HARD):
            v = gen.text(rng, 10, charset=gen.HC_CHARS)[:20]
            if param in ("index_type", "units", "eq_type", "location"):
                continue
        elif vk == "num":
            v = rng.choice([1, 2.5, -3])
            if rng.random() < 0.4:
                v = Setup(rng.choice([None, [v] if multi else v]), rng.choice(gen.UNITS), rng.random() < 0.5)
                if rng.random() < 0.4:
                    v = {"units": v.units, **({"value": v.value} if v.value is not None else {})}
                kw[param] = v
                continue
        elif vk == "dtimef":
            v = 1.5
        elif vk in ("uvari", "unorm"):
            v = rng.randint(0, 500)
        elif vk in ("obname",) and kind != "frame":
            from .c04 import REF_TARGET
            t = refs.get(REF_TARGET[kind, param])
            if not t or param == "axis":
                continue
            v = rng.choice(t)
        else:
            continue
        kw[param] = [v] if multi else v
    return kw


def wrong_general(rng, h, lfid, kind, what):
    """(name, kwargs) wrong in something else than an attribute; None if the kind has no such thing."""
    name = h.some_name(kind)
    kw = {}
    if what == "name":
        name = rng.choice([5, None, b"x", THING, ["N"]])
    elif what == "set_name":
        kw["set_name"] = rng.choice([5, b"x", THING, 1.5])
    elif what == "origin_reference":
        kw["origin_reference"] = rng.choice(["x", 1.5, b"1", THING, "1", [1]])
    elif what == "unknown":
        kw[rng.choice(["no_such_parameter", "nmae", "valeus", "copy_number", "parent", "_origin_reference"])] = 1
    elif kind != "channel":
        return None
    elif what == "data":
        kw["data"] = rng.choice([[1, 2, 3], 5, "abc", {"a": 1}, THING, (1.0, 2.0), np.float64(1.0), b"abc"])
    elif what == "dataset_name":
        used = [o.dataset_name for o in h.live(lfid, "channel")]
        if not used:
            return None
        kw["dataset_name"] = rng.choice(used)
        if rng.random() < 0.6:
            kw["data"] = np.arange(3)
    elif what == "cast_dtype":
        kw["cast_dtype"] = rng.choice(["U5", "O", "complex", np.int64, "S3", THING, 5, np.complex128, np.uint64, "no dtype",
                                       "datetime64[s]", np.float16, bool])
        if rng.random() < 0.5:
            kw["data"] = np.arange(3, dtype="f4")
    return name, kw


# ------------------------------------------------------------------ histories

class History:
    """Executes operations and records those which were accepted."""

    def __init__(self, ctx, p):
        self.ctx, self.rng, self.p = ctx, ctx.rng, p
        self.q = spec.Program(p.file_kw)        # what was accepted
        self.q.write_kw = dict(p.write_kw)
        self.q._n = p._n
        self.runner = Runner(p)
        self.runner.make_file()
        self.kinds = {}
        self.lf_of = {}
        self.n_rejected = 0
        self.names = [op[4] for op in p.ops if op[0] == "add"]
        self.set_names = sorted({op[5].get("set_name") for op in p.ops if op[0] == "add"} - {None, ""})
        self.log = []
        self._bad = 0

    def refs(self, lfid):
        out = {}
        for op in self.q.ops:
            if op[0] == "add" and op[1] == lfid:
                out.setdefault(op[3], []).append(Ref(op[2]))
        return out

    def live(self, lfid, kind):
        return [self.runner.objs[r.oid] for r in self.refs(lfid).get(kind, [])]

    def lfids(self):
        return list(self.runner.lfs)

    def some_name(self, kind):
        rng = self.rng
        mine = [op[4] for op in self.p.ops if op[0] == "add" and op[3] == kind]
        r = rng.random()
        if r < 0.5 and mine:
            return rng.choice(mine)
        if r < 0.7:
            return rng.choice(self.names)
        return rng.choice(["REJECTED", "A", "B"])

    def some_set(self, kind, lfid):
        rng = self.rng
        mine = [op[5].get("set_name") for op in self.p.ops if op[0] == "add" and op[3] == kind]
        mine = [s for s in mine if s]
        r = rng.random()
        if r < 0.35:
            return {}
        if r < 0.65 and mine:
            return {"set_name": rng.choice(mine)}
        if r < 0.8 and self.set_names:
            return {"set_name": rng.choice(self.set_names)}
        return {"set_name": rng.choice(["NEW-SET", "R1", "R2", ""])}

    def valid(self, op):
        """An operation of the specification."""
        if op[0] == "set" and op[3] == "value" and op[4] is None:
            with contextlib.suppress(TypeError, ValueError):
                self.runner.step(op)
                self.q.ops.append(op)
            return
        try:
            self.runner.step(op)
        except Exception as e:
            q = self.q.clone()
            q.ops.append(op)
            try:
                Runner(q).build()
            except Exception:
                self.ctx.count("generator_refused")
                raise Skip()
            raise Violation("trace.refused", f"{op!r} is refused after {self.n_rejected} rejected calls: "
                                             f"{type(e).__name__}: {e}\n{self.tell()}") from e
        self.q.ops.append(op)

    def invalid(self, op, count="rejected_calls", key=()):
        """An operation which should be rejected. If it is not, it belongs to the specification."""
        try:
            self.runner.step(op)
        except Exception as e:
            self.n_rejected += 1
            self.ctx.count(count)
            self.ctx.distinct(key + (type(e).__name__,))
            self.log.append(f"{len(self.q.ops)}: {' '.join(spec._short(x) for x in op)} -> {type(e).__name__}: {str(e)[:80]}")
            return True
        self.q.ops.append(op)
        self.p.ops.append(op)       # for Runner.kind_of
        self.ctx.count("accepted_calls")
        STATE.setdefault("accepted", []).append(key)
        if os.environ.get("VF_ACCEPTED"):
            with open(os.environ["VF_ACCEPTED"], "a") as f:
                f.write(f"{key} {' '.join(spec._short(x) for x in op)}\n")
        return False

    def new_oid(self):
        self._bad += 1
        return f"bad{self._bad}"

    def reject_add(self, lfid, kind=None, param=None):
        rng = self.rng
        kind = kind or rng.choice(list(KINDS))
        refs = self.refs(lfid)
        if param is None:
            param = rng.choice(PARAMS[kind] + (GENERAL if rng.random() < 0.4 else []))
        if param in KINDS[kind][2]:
            name, kw = self.some_name(kind), {param: wrong(rng, kind, param, refs)}
        else:
            res = wrong_general(rng, self, lfid, kind, param)
            if res is None:
                return None
            name, kw = res
        more = good_params(rng, kind, refs, param) if rng.random() < 0.6 else {}
        items = list(more.items()) + list(kw.items())
        if rng.random() < 0.3:
            rng.shuffle(items)
        kw = dict(items)
        if kind == "channel" and "data" not in kw and rng.random() < 0.4:
            kw["data"] = np.arange(4, dtype=rng.choice(gen.DTYPES))
        if "set_name" not in kw:
            kw.update(self.some_set(kind, lfid))
        if kind == "origin":
            kw = {"file_set_number": 6, "creation_time": "2024/01/02 03:04:05", **kw}
        if "origin_reference" not in kw and rng.random() < 0.25:
            kw["origin_reference"] = rng.choice([0, 1, 5, 300])
        return self.invalid(("add", lfid, self.new_oid(), kind, name, kw), key=("add", kind, param))

    def reject_other(self, lfid):
        """Refused calls of other methods."""
        rng = self.rng
        r = rng.random()
        nf = self.refs(lfid).get("no_format")
        if r < 0.5 and nf:
            return self.invalid(("nofmt", lfid, rng.choice(nf).oid, rng.choice([5, None, [1], THING])), key=("nofmt",))
        return self.invalid(("lf", f"X{self.new_oid()}", rng.choice([
            {"fh_id": "x" * 66}, {"fh_id": 5}, {"fh_sequence_number": -1}, {"fh_sequence_number": 10 ** 10},
            {"fh_identifier": "AB"}, {"fh_identifier": 5}, {"file_header": "fh"}])), key=("lf",))

    def reject_assignment(self, more=True):
        rng = self.rng
        oids = [op[2] for op in self.q.ops if op[0] == "add"]
        if not oids:
            return None
        oid = rng.choice(oids)
        kind = self.runner.kind_of(oid)
        lfid = next(op[1] for op in self.q.ops if op[0] == "add" and op[2] == oid)
        refs = self.refs(lfid)
        param = rng.choice(PARAMS[kind])
        r = rng.random()
        if r < 0.4:
            v = wrong(rng, kind, param, refs)
            if isinstance(v, (Setup, dict)):
                v = THING
            op = ("set", oid, param, "value", v)
        elif r < 0.55:
            op = ("set", oid, param, "units", rng.choice([5, THING, b"m", 1.5]))
        elif r < 0.85:
            good = good_params(rng, kind, refs, param)
            items = list(good.items()) + [(param, wrong(rng, kind, param, refs))]
            if rng.random() < 0.2:
                items[-1] = ("no_such_attribute", 1)
            rng.shuffle(items)
            nums = [p for p in KINDS[kind][2] if KINDS[kind][2][p][1] == "num"]
            if nums and rng.random() < 0.3:
                # the units are fine, the value is not
                p = rng.choice(nums)
                bad = rng.choice(["x", THING, b"1", 1j])
                items = [i for i in items if i[0] != p]
                items = items[:rng.randint(0, 2)] + [(p, {"units": rng.choice(gen.UNITS), "value": bad})]
            op = ("setattrs", oid, dict(items))
        elif r < 0.95:
            op = ("py", oid, "origin_reference", rng.choice(["x", None, 1.5, THING]))
        else:
            chans = [o for o in oids if self.runner.kind_of(o) == "channel"]
            if not chans:
                return None
            oid = rng.choice(chans)
            op = ("py", oid, "cast_dtype", rng.choice(["U5", THING, np.complex128, np.int64, 5]))
        return self.invalid(op, "rejected_assignments", ("assign", kind, op[0], param if op[0] == "set" else None))

    def tell(self):
        return "rejected:\n" + "\n".join(self.log[-12:]) + "\nspecification:\n" + self.q.describe(1800)


class Skip(Exception):
    pass


def attempt(h_or_runner, ctx, override):
    from .c14 import attempt as a
    runner = getattr(h_or_runner, "runner", h_or_runner)
    return a(runner, ctx, override)


def inventory(runner):
    """Names, copy numbers, dataset names, origins as the API shows them."""
    out = {}
    for oid, o in runner.objs.items():
        out[oid] = (o.name, o.copy_number, o.origin_reference, o.parent.set_name, getattr(o, "dataset_name", None),
                    o.parent.n_items, [x.name for x in o.parent.get_all_eflr_items()])
    for lfid, lf in runner.lfs.items():
        out[lfid] = ([x.name for x in lf.channels], [x.name for x in lf.frames], [x.name for x in lf.origins],
                     lf.default_origin_reference if lf.origins else None)
    out["lfs"] = len(runner.df.logical_files)
    return out


def judge(ctx, what, h, override, hc=False, more=None):
    """The history's file against that of the twin."""
    from dliswriter import high_compatibility_mode
    q = h.q
    zyg = ctx.rng.random() < 0.12

    def twin():
        with high_compatibility_mode() if hc else contextlib.nullcontext():
            t = Runner(q.clone())
            t.make_file()
            for op in list(t.program.ops):
                t.step(op)
            return t, attempt(t, ctx, override)
    first = ctx.rng.random() < 0.5
    try:
        if first:
            t, want = twin()
        if hc:
            with high_compatibility_mode():
                got = attempt(h, ctx, override)
        else:
            got = attempt(h, ctx, override)
        if not first:
            t, want = twin()
    except Exception as e:
        raise Violation("trace.twin", f"{what}: the accepted calls alone: {type(e).__name__}: {e}\n{h.tell()}") from e
    ctx.count("executions")
    a, b = inventory(h.runner), inventory(t)
    if a != b:
        diff = [(k, a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)][:3]
        raise Violation("trace.inventory", f"{what}: (object, with / without the rejected calls) {diff}\n{h.tell()}")
    ctx.count("objects_compared", len(a))
    if zyg:
        res = STATE["z"].run(fresh.Job(q, override, hc, ctx.zone))
        ctx.count("pristine")
        if (res[0] == "ok") == isinstance(want, Exception) or (res[0] == "ok" and res[1] != want):
            raise Violation("trace.pristine", f"{what}: a pristine process writes another file than this one without the "
                                              f"rejected calls\n{h.tell()}")
    if isinstance(want, Exception) or isinstance(got, Exception):
        if isinstance(want, Exception) != isinstance(got, Exception):
            raise Violation("trace.outcome", f"{what}: with the rejected calls: {outcome(got)}; without: {outcome(want)}\n"
                                             f"{h.tell()}")
        if type(want) is not type(got):
            raise Violation("trace.error", f"{what}: with the rejected calls: {outcome(got)}; without: {outcome(want)}\n"
                                           f"{h.tell()}")
        ctx.count("both_refused")
        return t, False
    if got != want:
        from .c11 import localise
        raise Violation("trace.bytes", f"{what}: {len(got)} bytes; without the rejected calls {len(want)}: (with / without) "
                                       f"{localise(got, want)}\n{h.tell()}")
    ctx.count("comparisons")
    return t, True


def outcome(x):
    return f"{type(x).__name__}: {x}" if isinstance(x, Exception) else f"{len(x)} bytes"


def program(ctx, **kw):
    return work.generate(ctx, **{"deterministic": True, "rows": (1, 4), "extra": (0, 9), "frames": (1, 2),
                                 "channels": (1, 3), **kw})


def later(h, ctx):
    """More valid objects after the specification was complete (with names already in use)."""
    rng = ctx.rng
    ops = []
    for lfid in h.lfids():
        for _ in range(rng.randint(0, 3)):
            kind = rng.choice(["zone", "comment", "equipment", "axis", "origin", "channel", "parameter", "tool"])
            kw = {}
            sets = [op[5].get("set_name") for op in h.q.ops if op[0] == "add" and op[1] == lfid and op[3] == kind]
            if len(h.lfids()) > 1:
                kw["set_name"] = rng.choice([s for s in sets if s] or [f"LATE-{lfid}"])
            elif sets and sets[-1]:
                kw["set_name"] = sets[-1]
            if kind == "origin":
                kw.update(file_set_number=3, creation_time="2024/01/02 03:04:05")
            if kind == "channel":
                kw["data"] = np.arange(2, dtype="u1")
            ops.append(("add", lfid, h.new_oid(), kind, h.some_name(kind), kw))
    return ops


def run_mix(ctx, **gen_kw):
    rng = ctx.rng
    p, override, data, g = program(ctx, **gen_kw)
    h = History(ctx, p)
    ctx.sample(p.describe(400))
    rate = rng.choice([0.15, 0.4, 0.8])
    for op in list(p.ops):
        h.valid(op)
        lfid = rng.choice(h.lfids()) if h.lfids() else None
        while lfid and rng.random() < rate:
            r = rng.random()
            if r < 0.75:
                h.reject_add(lfid)
            elif r < 0.85:
                h.reject_other(lfid)
            else:
                h.reject_assignment()
            if rng.random() < 0.03:
                attempt(h, ctx, override)
    judge(ctx, "mix", h, override)
    if rng.random() < 0.4:
        for op in later(h, ctx):
            h.reject_add(op[1], rng.choice([op[3], None]))
            h.p.ops.append(op)
            h.valid(op)
        judge(ctx, "mix, extended", h, override)


def run_param(kind, param, ctx):
    """The calls rejected for one parameter, around valid objects of the same kind."""
    rng = ctx.rng
    p, override, data, g = program(ctx, n_lf=(1, 2), extra=(1, 4), nofmt=(0, 1))
    h = History(ctx, p)
    own = []
    for op in list(p.ops):
        h.valid(op)
        if op[0] == "lf" or rng.random() < 0.5:
            h.reject_add(rng.choice(h.lfids()), kind, param)
    for lfid in h.lfids():
        for _ in range(rng.randint(1, 3)):
            if h.reject_add(lfid, kind, param) is False:
                ctx.count("not_rejected")
        if kind not in ("frame",):
            kw = {}
            if len(h.lfids()) > 1:
                kw["set_name"] = f"OWN-{lfid}"
            if kind == "origin":
                kw.update(file_set_number=3, creation_time="2024/01/02 03:04:05")
            if kind == "channel":
                kw["data"] = np.arange(2, dtype="u1")
            op = ("add", lfid, h.new_oid(), kind, h.some_name(kind), kw)
            h.p.ops.append(op)
            h.valid(op)
            own.append(op[2])
        h.reject_add(lfid, kind, param)
    judge(ctx, f"param {kind}.{param}", h, override)


def run_key(ctx):
    """The objects others depend on (Origin, Channel, Frame) rejected first, or last."""
    rng = ctx.rng
    p, override, data, g = program(ctx, n_lf=(1, 3), sources=("inline", "dict", "mixed", "struct"), channels=(1, 4))
    h = History(ctx, p)
    for op in list(p.ops):
        if op[0] == "add" and op[3] in ("origin", "channel", "frame") and rng.random() < 0.7:
            # nearly the same call, wrong in one thing
            kind = op[3]
            for _ in range(rng.randint(1, 3)):
                kw = dict(op[5])
                param = rng.choice(PARAMS[kind] + ["origin_reference", "unknown"] +
                                   (["data", "dataset_name", "cast_dtype"] * 2 if kind == "channel" else []))
                if param in KINDS[kind][2]:
                    kw[param] = wrong(rng, kind, param, h.refs(op[1]))
                    nm = op[4]
                else:
                    nm, more = wrong_general(rng, h, op[1], kind, param) or (None, {"no_such": 1})
                    nm = op[4]
                    kw.update(more)
                if rng.random() < 0.3:
                    kw.pop("set_name", None)
                    kw.update(h.some_set(kind, op[1]))
                h.invalid(("add", op[1] if param == "dataset_name" else rng.choice([op[1], rng.choice(h.lfids())]), h.new_oid(), kind, nm, kw),
                          key=("key", kind, param))
        h.valid(op)
    judge(ctx, "key", h, override)


def run_hc(ctx):
    """Calls rejected by the high-compatibility mode only."""
    from dliswriter import high_compatibility_mode
    rng = ctx.rng
    whole = rng.random() < 0.6
    p, override, data, g = program(ctx, hc=whole, n_lf=(1, 2))
    h = History(ctx, p)

    def bad_op(lfid):
        kind = rng.choice(list(KINDS))
        name = h.some_name(kind)
        kw = dict(h.some_set(kind, lfid))
        r = rng.random()
        if r < 0.4:
            name = rng.choice(["lower", "with space", "\u20ac", "", "a.b", "X/Y"])
        elif r < 0.65:
            kw["no_such"] = 1
        elif r < 0.8:
            kind = rng.choice(["equipment", "channel", "frame"])
            kw[{"equipment": "eq_type", "channel": "units", "frame": "index_type"}[kind]] = "no such value"
        elif r < 0.9:
            kind = "origin"
            kw["file_set_number"] = rng.choice(["x", THING])
        else:
            kind = rng.choice(["axis", "equipment"])
            kw[{"axis": "spacing", "equipment": "height"}[kind]] = Setup(1.5, "no-such-unit", rng.random() < 0.5)
        if kind == "channel" and rng.random() < 0.5:
            kw["data"] = np.arange(3, dtype="f4")
        if kind == "origin":
            kw["creation_time"] = "2024/01/02 03:04:05"
            if not whole:
                kw.setdefault("file_set_number", 6)
        return ("add", lfid, h.new_oid(), kind, name, kw)

    def disturb():
        lfid = rng.choice(h.lfids())
        if rng.random() < 0.7:
            op = bad_op(lfid)
            h.invalid(op, key=("hc", op[3]))
        elif rng.random() < 0.6:
            h.reject_add(lfid)
        else:
            h.reject_assignment()
    if whole:
        with high_compatibility_mode():
            for op in list(p.ops):
                h.valid(op)
                while rng.random() < 0.35:
                    disturb()
        judge(ctx, "hc", h, override, hc=True)
        return
    n_accepted = 0
    for op in list(p.ops):
        h.valid(op)
        while rng.random() < 0.3:
            with high_compatibility_mode():
                n = len(h.q.ops)
                disturb()
                n_accepted += len(h.q.ops) - n
        if rng.random() < 0.05:
            with high_compatibility_mode():
                attempt(h, ctx, override)
                ctx.count("hc_writes")
    if n_accepted:      # with the mode on: the twin is not in it
        ctx.count("hc_accepted")
        return
    judge(ctx, "hc for a moment", h, override)


def run_assign(ctx):
    rng = ctx.rng
    p, override, data, g = program(ctx, density=0.7)
    h = History(ctx, p)
    for op in list(p.ops):
        h.valid(op)
        while rng.random() < 0.4:
            h.reject_assignment()
    for _ in range(rng.randint(2, 12)):
        h.reject_assignment()
    if rng.random() < 0.3:
        attempt(h, ctx, override)
        for _ in range(rng.randint(1, 5)):
            h.reject_assignment()
    judge(ctx, "assign", h, override)


# ------------------------------------------------------------------ failing writes

@contextlib.contextmanager
def full_disk(limit):
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    oldsig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)
        signal.signal(signal.SIGXFSZ, oldsig)


def datasets(h):
    """(dataset name, is the index of a frame, current array or None) of the channels."""
    out = {}
    for op in h.q.ops:
        if op[0] == "add" and op[3] == "channel":
            o = h.runner.objs.get(op[2])
            if o is not None:
                out[o.dataset_name] = op[5].get("data")
    return out


def other_data(rng, h):
    """Data of other types, widths and lengths for all channels; partly unusable."""
    ds = datasets(h)
    n = rng.randint(1, 6)
    data = {}
    for k in ds:
        dt = rng.choice(gen.DTYPES)
        data[k] = gen.array(rng, dt, (n,) if rng.random() < 0.7 else (n, rng.randint(1, 5)), special=False)
    if data:
        k = rng.choice(list(data))
        r = rng.random()
        if r < 0.3:
            del data[k]
        elif r < 0.5:
            data[k] = np.array([object()] * n)
        elif r < 0.65:
            data[k] = data[k][:-1] if n > 1 else np.zeros((n + 2,))
        elif r < 0.8:
            data[k] = np.zeros((n, 2, 2, 2), dtype="c16")
        elif r < 0.9:
            data[k] = np.array(["text"] * n)
    return data


def failing_write(h, ctx, override):
    """A write which (mostly) fails. The specification must not care."""
    from dliswriter import high_compatibility_mode
    rng = ctx.rng
    r = rng.random()
    ov = dict(override)
    if r < 0.12:
        ov.update(rng.choice([{"from_idx": 10 ** 6}, {"to_idx": 10 ** 6}, {"from_idx": -5}, {"from_idx": "x"}, {"to_idx": 1.5},
                              {"from_idx": 3, "to_idx": 1}]))
    elif r < 0.24:
        ov.update(rng.choice([{"output_chunk_size": 1}, {"input_chunk_size": 0}, {"input_chunk_size": -1},
                              {"input_chunk_size": "x"}, {"output_chunk_size": "x"}, {"output_chunk_size": -5},
                              {"input_chunk_size": 1.5}]))
    elif r < 0.62:
        ov["data"] = rng.choice([{}, 5, "/nonexistent/x.h5", [1], {"no": np.arange(3)}, np.arange(4),
                                 np.zeros(3, dtype=[("no", "f4")])]) if rng.random() < 0.3 else other_data(rng, h)
        if rng.random() < 0.3:
            ov["input_chunk_size"] = rng.choice([1, 2, 3])
    elif r < 0.8:
        path = ctx.path()
        try:
            with full_disk(rng.choice([0, 10, 80, 100, 500, 1000, rng.randint(0, 3000)])):
                h.runner.write(path, **{**ov, "output_chunk_size": rng.choice([16384, 16384, 1 << 16]),
                                        "input_chunk_size": rng.choice([1, 2, None])})
        except Exception as e:
            ctx.count("failed_writes")
            ctx.distinct(("write", "disk", type(e).__name__))
        finally:
            if os.path.exists(path):
                os.unlink(path)
        return
    elif r < 0.88:
        try:
            h.runner.write(rng.choice([ctx.scratch, os.path.join(ctx.scratch, "no", "such.dlis"), None]), **ov)
        except Exception as e:
            ctx.count("failed_writes")
            ctx.distinct(("write", "path", type(e).__name__))
        return
    else:
        with high_compatibility_mode():
            got = attempt(h, ctx, ov)
        if isinstance(got, Exception):
            ctx.count("failed_writes")
            ctx.distinct(("write", "hc", type(got).__name__))
        return
    got = attempt(h, ctx, ov)
    if isinstance(got, Exception):
        ctx.count("failed_writes")
        ctx.distinct(("write", type(got).__name__, str(got)[:30]))


def flaky(h, ctx, override):
    """Arrays that break down while they are read by the write."""
    from .c19 import Flaky
    rng = ctx.rng
    data = {}
    for k, a in datasets(h).items():
        if a is None:
            src = override.get("data", h.q.write_kw.get("data"))
            try:
                a = np.asarray(src[k])
            except Exception:
                return
        data[k] = np.ascontiguousarray(a).view(Flaky)
    Flaky.budget = rng.randint(0, 12)
    try:
        got = attempt(h, ctx, {**override, "data": data, "input_chunk_size": rng.choice([1, 2])})
    finally:
        Flaky.budget = None
    if isinstance(got, Exception):
        ctx.count("failed_writes")
        ctx.count("broken_sources")
        ctx.distinct(("write", "flaky", type(got).__name__))


def run_write(ctx):
    rng = ctx.rng
    p, override, data, g = program(ctx, n_lf=(1, 2), windows=rng.random() < 0.3, density=rng.choice([0.2, 0.5]))
    h = History(ctx, p)
    start = rng.choice([0, len(p.ops) // 2, len(p.ops) - 1])
    rate = rng.choice([0.1, 0.3])
    for i, op in enumerate(list(p.ops)):
        h.valid(op)
        while i >= start and rng.random() < rate:
            failing_write(h, ctx, override)
    for _ in range(rng.randint(1, 3)):
        failing_write(h, ctx, override)
        if rng.random() < 0.3:
            h.reject_add(rng.choice(h.lfids()))
    if rng.random() < 0.3:
        flaky(h, ctx, override)
    judge(ctx, "write", h, override)
    if rng.random() < 0.4:
        for op in later(h, ctx):
            h.p.ops.append(op)
            h.valid(op)
            if rng.random() < 0.4:
                failing_write(h, ctx, override)
        judge(ctx, "write, extended", h, override)


# ------------------------------------------------------------------ unwritable and repaired

def run_poison(ctx):
    """Something makes the specification unwritable; a write fails; it is repaired."""
    from .c06 import fringe_value
    from .c05 import ENUMS
    import dliswriter
    rng = ctx.rng
    p, override, data, g = program(ctx, renames=False, reassign=False)
    h = History(ctx, p)
    for op in list(p.ops):
        h.valid(op)
    if rng.random() < 0.3:
        attempt(h, ctx, override)
    runner = h.runner
    for _ in range(rng.randint(1, 4)):
        repairs = []
        for _ in range(rng.randint(1, 2)):
            oid = rng.choice(list(runner.objs))
            kind = runner.kind_of(oid)
            o = runner.objs[oid]
            r = rng.random()
            if r < 0.4:
                plain = [k for k, (lab, vk, m) in KINDS[kind][2].items() if vk in ("text", "ident", "num", "fdoubl", "uvari",
                         "unorm") and (kind, k) not in ENUMS and (kind, k) not in NOT_PLAIN]
                if not plain:
                    continue
                k = rng.choice(plain)
                vk, multi = KINDS[kind][2][k][1:]
                v, ok = fringe_value(rng, kind, k, vk)
                good = {"text": "fine", "ident": "FINE", "num": 2.5, "fdoubl": 1.25, "uvari": 7, "unorm": 8}[vk]
                n = rng.randint(1, 3)
                if kind in ("calibration_coefficient", "calibration_measurement"):
                    continue
                old = getattr(o, spec.PY_ATTR.get((kind, k), k)).value
                if isinstance(old, list):
                    n = len(old)
                bad_op = ("set", oid, k, "value", [v] * n if multi else v)
                good_op = ("set", oid, k, "value", [good] * n if multi else good)
            elif r < 0.5:
                old = o.origin_reference
                if old is None or kind == "origin":
                    continue
                bad_op = ("py", oid, "origin_reference", rng.choice([2 ** 31, -1, 987654]))
                good_op = ("py", oid, "origin_reference", old)
            elif r < 0.6:
                bad_op = ("py", oid, "name", rng.choice(["x" * 300, "\u20ac", 5, None, b"n"]))
                good_op = ("py", oid, "name", o.name)
            elif r < 0.75:
                frames = [x for x in runner.objs if runner.kind_of(x) == "frame"]
                f = rng.choice(frames)
                chans = runner.objs[f].channels.value
                byid = {id(x): i for i, x in runner.objs.items()}
                good_op = ("set", f, "channels", "value", [Ref(byid[id(c)]) for c in chans])
                bad = good_op[4]
                bad_op = ("set", f, "channels", "value", rng.choice([bad + bad, bad + bad[:1], []]))
            elif r < 0.85:
                chans = [x for x in runner.objs if runner.kind_of(x) == "channel"]
                c = rng.choice(chans)
                bad_op = ("py", c, "dataset_name", rng.choice(["no-such-data", 5, None]))
                good_op = ("py", c, "dataset_name", runner.objs[c].dataset_name)
            elif r < 0.93:
                groups = [x for x in runner.objs if runner.kind_of(x) == "group"]
                lfid = rng.choice(list(runner.lfs))
                if not groups:
                    op = ("add", lfid, h.new_oid(), "group", "POISON-GROUP", {"set_name": f"PG-{lfid}"})
                    h.p.ops.append(op)
                    h.valid(op)
                    groups = [op[2]]
                gid = rng.choice(groups)
                glf = next(op[1] for op in h.q.ops if op[0] == "add" and op[2] == gid)
                other = dliswriter.DLISFile().add_logical_file()
                foreign = other.add_zone("FOREIGN") if rng.random() < 0.5 else other.add_comment("FOREIGN")
                mine = ("add", glf, h.new_oid(), "zone", "MINE", {"set_name": f"PZ-{glf}"})
                h.p.ops.append(mine)
                h.valid(mine)
                runner.objs["foreign"] = foreign
                bad_op = ("set", gid, "object_list", "value", [Ref("foreign")])
                good_op = ("set", gid, "object_list", "value", [Ref(mine[2])])
            else:
                lfid = rng.choice(list(runner.lfs))
                fh = runner.lfs[lfid].file_header
                part, bad = rng.choice([("header_id", "x" * 70), ("header_id", 5), ("sequence_number", 10 ** 11),
                                        ("header_id", "\u20ac"), ("name", 5)])
                if any(x[:2] == (fh, part) for x in repairs if not isinstance(x[0], str)):
                    continue
                repairs.append((fh, part, getattr(fh, part)))
                with contextlib.suppress(TypeError, ValueError, RuntimeError):
                    setattr(fh, part, bad)
                continue
            with contextlib.suppress(Exception):
                runner.step(bad_op)
                ctx.count("poisoned")
            runner.objs.pop("foreign", None)
            repairs.append(good_op)
        for _ in range(rng.randint(1, 2)):
            got = attempt(h, ctx, override if rng.random() < 0.8 else {**override, "data": other_data(rng, h)})
            if isinstance(got, Exception):
                ctx.count("failed_writes")
                ctx.distinct(("poison", type(got).__name__, str(got)[:25]))
        rng.shuffle(repairs)
        for x in repairs:
            if isinstance(x[0], str):
                h.p.ops.append(x)
                h.valid(x)
            else:
                setattr(*x)
            ctx.count("repaired")
        h.log.append(f"{len(h.q.ops)}: poisoned and repaired: {[x[1:4] if isinstance(x[0], str) else x[1] for x in repairs]}")
        if rng.random() < 0.4:
            break
    judge(ctx, "poison", h, override)


# values of these depend on others
NOT_PLAIN = {("frame", "index_type"), ("frame", "index_min"), ("frame", "index_max"), ("frame", "spacing"),
             ("computation", "values"), ("channel", "minimum_value"), ("channel", "maximum_value"),
             ("origin", "file_set_number"), ("zone", "maximum"), ("zone", "minimum")}


def run_case(case, ctx):
    try:
        if case[0] == "param":
            run_param(case[1], case[2], ctx)
        else:
            {"mix": run_mix, "key": run_key, "hc": run_hc, "assign": run_assign, "write": run_write,
             "poison": run_poison}[case[0]](ctx)
    except Skip:
        pass
