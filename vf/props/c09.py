"""C09: each logical file has the mandated order: header, origin, sets, then data."""
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import KINDS, LABELS
from ..core import Violation

RULE = ("'order': all kinds of objects added in random orders (origins first, last, in between; several origins; named and "
        "unnamed sets; interleaved over several logical files), with and without rejected calls and emptied reassignments, "
        "written once or twice with additions between; 'header': identifier and sequence number over their whole length and "
        "value range and past it, header given by arguments or by an existing item; 'fileid': FILE-ID of the defining origin given "
        "by the user (equal to the header identifier or nearly so), assigned before or between two writes, in any logical file; 'kinds': every object type alone and "
        "before/after the origin; 'spec': random specifications. Oracle: an automaton over the record sequence of each "
        "logical file plus the header and origin fields. Distinct: sequences of (set type, named) per logical file.")
MINIMUM = {"logical_files": 3000, "sets": 15000, "iflrs": 10000, "headers_rejected": 50, "file_ids_written": 60,
           "file_ids_refused": 60}
ASSUMPTIONS = []


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["order", i] for i in range(2500 if quick else 40000)]
    cases += [["header", i] for i in range(900 if quick else 12000)]
    cases += [["fileid", i] for i in range(300 if quick else 4000)]
    cases += [["kinds", k, i] for k in KINDS for i in range(12 if quick else 150)]
    cases += [["spec", i] for i in range(500 if quick else 8000)]
    cases += work.crowd_cases(quick, files=3, sets=6, frames=1, origins=1)
    return cases


def monitor(dlis, ctx, headers=None):
    """Order automaton over each logical file. headers: expected [(sequence, id)]"""
    if headers is not None and len(headers) != len(dlis.files):
        raise Violation("files.count", f"{len(dlis.files)} logical files, {len(headers)} specified")
    for n, lf in enumerate(dlis.files):
        where = f"logical file {n}"
        ctx.count("logical_files")
        fh = lf.order[0]
        if not isinstance(fh, rp66.ESet) or fh.type != "FILE-HEADER" or fh.record.type != 0:
            raise Violation("order.header", f"{where} does not start with a FILE-HEADER")
        if len(fh.objects) != 1:
            raise Violation("header.objects", f"{where}: {len(fh.objects)} objects in FILE-HEADER")
        a = fh.objects[0].attrs
        labels = list(a)
        if labels != ["SEQUENCE-NUMBER", "ID"]:
            raise Violation("header.labels", f"{where}: {labels}")
        for lab, size in (("SEQUENCE-NUMBER", 10), ("ID", 65)):
            x = a[lab]
            if x.absent or x.rc != 20 or x.count != 1 or len(x.values) != 1 or len(x.values[0]) != size:
                raise Violation("header." + lab.lower(), f"{where}: {x!r}")
        seq, ident = a["SEQUENCE-NUMBER"].values[0], a["ID"].values[0]
        if not seq.strip().isdigit() or seq != seq.strip().rjust(10):
            raise Violation("header.sequence-number", f"{where}: {seq!r}")
        if headers is not None:
            ws, wi = headers[n]
            if seq != str(ws).rjust(10):
                raise Violation("header.sequence-number", f"{where}: {seq!r} for {ws!r}")
            if ident != wi.ljust(65):
                raise Violation("header.id", f"{where}: {ident!r} for {wi!r}")
        # header -> origins -> other sets -> data
        state = "header"
        seen = set()
        defined = set()
        shape = []
        for x in lf.order[1:]:
            if isinstance(x, rp66.ESet):
                ctx.count("sets")
                key = (x.type, x.name or None)
                if key in seen:
                    raise Violation("set.twice", f"{where}: set {key} twice")
                seen.add(key)
                shape.append((x.type, x.name is not None))
                if not x.objects:
                    raise Violation("set.empty", f"{where}: set {key} is empty")
                defined.update((x.type, o.obname) for o in x.objects)
                if x.type == "FILE-HEADER":
                    raise Violation("order.header", f"{where}: second FILE-HEADER")
                if x.type == "ORIGIN":
                    if state not in ("header", "origins"):
                        raise Violation("order.origin", f"{where}: ORIGIN set {x.name!r} after other sets")
                    if state == "header":
                        o = x.objects[0]
                        fid, fsn = o.attrs["FILE-ID"], o.attrs["FILE-SET-NUMBER"]
                        if fid.absent or fid.values != [ident.rstrip(" ")] and fid.values != [ident] and \
                                (headers is None or fid.values != [headers[n][1]]):
                            raise Violation("origin.file-id", f"{where}: FILE-ID {fid!r}, header {ident!r}")
                        if headers is not None and fid.values != [headers[n][1]] and fid.values != [ident]:
                            raise Violation("origin.file-id", f"{where}: FILE-ID {fid!r}, header {headers[n][1]!r}")
                        if fsn.absent or len(fsn.values) != 1 or not isinstance(fsn.values[0], int):
                            raise Violation("origin.file-set-number", f"{where}: FILE-SET-NUMBER {fsn!r}")
                    state = "origins"
                else:
                    if state == "header":
                        raise Violation("order.origin", f"{where}: {x.type} directly after the header")
                    if state == "data":
                        raise Violation("order.sets", f"{where}: {key} after frame data")
                    state = "sets"
            else:
                ctx.count("iflrs")
                if state in ("header", "origins"):
                    raise Violation("order.data", f"{where}: data directly after {state}")
                if x.type == 0:
                    if ("FRAME", x.ref) not in defined:
                        raise Violation("order.frame", f"{where}: data of frame {tuple(x.ref)} before its definition")
                elif ("NO-FORMAT", x.ref) not in defined:
                    raise Violation("order.noformat", f"{where}: data of {tuple(x.ref)} before its definition")
                state = "data"
        # the channels of a frame with data
        for x in lf.sets:
            if x.type == "FRAME":
                for o in x.objects:
                    for c in o.attrs["CHANNELS"].values:
                        if ("CHANNEL", c) not in defined:
                            raise Violation("order.channel", f"{where}: channel {tuple(c)} of frame {tuple(o.obname)}")
        if state in ("header",):
            raise Violation("order.origin", f"{where}: no ORIGIN")
        ctx.distinct(tuple(shape))


def headers_of(p):
    return [(op[2].get("fh_sequence_number", 1), op[2].get("fh_id", "FILE-HEADER")) for op in p.ops if op[0] == "lf"]


def defining(p, w, ctx):
    """The first object of the first ORIGIN record is the defining origin: the one whose reference is the default."""
    model = spec.Model(p)
    for mf, lf in zip(model.files, w.dlis.files):
        origins = mf.of("origin")
        first = [es for es in lf.sets if es.type == "ORIGIN"][0].objects[0]
        if (first.set.name or None, first.obname.name) not in {(o.set_name, o.name) for o in origins}:
            raise Violation("origin.defining", f"{mf.lfid}: first ORIGIN object {tuple(first.obname)} was not specified")


class Builder:
    def __init__(self, ctx):
        self.rng = rng = ctx.rng
        self.p = p = spec.Program({"max_record_length": rng.choice([8192, 128, 256])})
        n = rng.choice([1, 1, 2, 3, 4])
        self.n = n
        self.k = 0
        self.queues = []
        ids = []
        early = rng.random() < 0.5
        for i in range(n):
            kw = {}
            if rng.random() < 0.5:
                kw["fh_id"] = gen.text(rng, 65, nonempty=True, charset=gen.ASCII_PRINT)[:65]
            if rng.random() < 0.5:
                kw["fh_sequence_number"] = rng.choice([1, 9, 10, 10 ** 9, 10 ** 10 - 1, rng.randint(1, 10 ** 10 - 1)])
            if rng.random() < 0.3:
                kw["fh_identifier"] = rng.choice("0Az~ ")
            ids.append(p.lf(**kw) if early else kw)
        self.ids = ids
        for i in range(n):
            self.queues.append(self.queue(i))
        self.run(early)

    def sets(self, i, kind):
        rng = self.rng
        r = rng.random()
        if self.n > 1:
            return {"set_name": f"LF{i}" + ("" if r < 0.6 else rng.choice(["-B", "-C"]))}
        return {} if r < 0.5 else {"set_name": rng.choice(["", "S1", "S2", "S3"])}

    def queue(self, i):
        rng = self.rng
        kinds = [k for k in KINDS if k not in ("origin", "frame", "channel")]
        steps = [rng.choice(kinds) for _ in range(rng.randint(0, 12))] + ["frame"] * rng.randint(1, 3)
        rng.shuffle(steps)
        where = rng.choice(["first", "last", "any"])
        for j in range(rng.choice([1, 1, 2, 3])):
            pos = {"first": 0, "last": len(steps), "any": rng.randint(0, len(steps))}[where]
            steps.insert(pos, "origin")
        return steps

    def run(self, early):
        rng, p = self.rng, self.p
        live = []
        nofmt = {}
        todo = list(range(self.n))
        order = []
        if early:
            qs = [(i, list(q)) for i, q in enumerate(self.queues)]
            while any(q for _, q in qs):
                i, q = rng.choice([x for x in qs if x[1]])
                order.append((i, q.pop(0)))
        else:
            for i in todo:
                order += [(i, s) for s in self.queues[i]]
        used = set()
        for i, s in order:
            if isinstance(self.ids[i], dict):
                self.ids[i] = p.lf(**self.ids[i])
            lf = self.ids[i]
            self.k += 1
            if s == "origin":
                kw = {"origin_reference": self.k} if rng.random() < 0.4 else {}
                if rng.random() < 0.5:
                    kw["file_set_number"] = rng.choice([0, 1, 128, 2 ** 30 - 1])
                p.add(lf, "origin", rng.choice(["O", f"O{self.k}"]), **kw, **self.sets(i, "origin"))
            elif s == "frame":
                cs = [p.add(lf, "channel", f"C{self.k}-{j}", data=np.arange(2, dtype=rng.choice(gen.DTYPES)),
                            dataset_name=f"d{self.k}-{j}", **self.sets(i, "channel")) for j in range(rng.randint(1, 3))]
                p.add(lf, "frame", f"F{self.k}", channels=cs, **self.sets(i, "frame"))
            else:
                o = p.add(lf, s, rng.choice(["X", f"X{self.k}"]), **self.sets(i, s))
                if s == "no_format":
                    for _ in range(rng.randint(0, 3)):
                        p.nofmt(lf, o, rng.randbytes(rng.randint(0, 10)))
        del live, nofmt, used


REJECTED = [
    ("zone", {"domain": "NO-SUCH-DOMAIN"}), ("process", {"status": "NONE"}), ("equipment", {"status": 7}),
    ("comment", {"text": 5}), ("axis", {"spacing": "x"}), ("frame", {"channels": "no"}), ("channel", {"cast_dtype": "U5"}),
    ("tool", {"channels": [1]}), ("message", {"time": "not a time"}), ("origin", {"creation_time": "x"}),
    ("calibration_measurement", {"phase": "?"}), ("parameter", {"zones": "z"}), ("no_format", {"description": 3}),
    ("group", {"group_list": "g"}), ("path", {"frame_type": 2}), ("splice", {"zones": 5}), ("long_name", {"quantity": 9}),
    ("calibration", {"coefficients": 3}), ("calibration_coefficient", {"coefficients": "abc"}),
    ("computation", {"zones": 3}), ("well_reference_point", {"coordinate_1_value": "q"}), ]


def run_order(ctx):
    rng = ctx.rng
    b = Builder(ctx)
    p = b.p
    ctx.sample(p.describe(700))
    w = work.Written()
    w.program, w.data = p, None
    w.runner = runner = spec.Runner(p)
    runner.make_file()
    bad = rng.random() < 0.3
    for op in p.ops:
        runner.step(op)
        if bad and op[0] in ("add", "lf") and rng.random() < 0.3:
            kind, kw = rng.choice(REJECTED)
            try:
                getattr(runner.lfs[op[1]], "add_" + kind)("REJECTED", **kw, **({"set_name": rng.choice(["RS", "LF0", "LF1"])}
                                                                               if rng.random() < 0.5 else {}))
            except Exception:
                ctx.count("rejected_calls")
            else:
                return           # not rejected: not this property's concern
    for i in range(rng.choice([1, 1, 2])):
        if i:
            # additions between two writes
            lf = rng.choice(b.ids)
            n = len(p.ops)
            for _ in range(rng.randint(1, 4)):
                k = rng.choice([k for k in KINDS if k not in ("frame", "channel")])
                p.add(lf, k, f"LATE{rng.randrange(1000)}", **b.sets(b.ids.index(lf), k),
                      **({"file_set_number": 3} if k == "origin" else {}))
            for op in p.ops[n:]:
                runner.step(op)
        w2 = work.write_again(w, ctx)
        ctx.count("executions")
        monitor(w2.dlis, ctx, headers_of(p))
        defining(p, w2, ctx)
        spec.compare(p, w2.dlis, what=("objects", "header", "frames", "nofmt"))


def run_kinds(kind, ctx):
    """One object type alone, added before or after the origin."""
    rng = ctx.rng
    p = spec.Program({})
    lf = p.lf(fh_id=gen.text(rng, 20, nonempty=True, charset=gen.ASCII_PRINT)[:65])

    def org():
        p.add(lf, "origin", "O", file_set_number=1)

    def data():
        c = p.add(lf, "channel", "C", data=np.arange(2, dtype="u1"))
        p.add(lf, "frame", "F", channels=[c])

    def one():
        for i in range(rng.randint(1, 3)):
            kw = {"set_name": rng.choice(["A", "B"])} if rng.random() < 0.5 else {}
            if kind == "frame":
                kw["channels"] = [p.add(lf, "channel", f"CC{i}", data=np.arange(1, dtype="u1"))]
            if kind == "origin":
                kw["file_set_number"] = 2
            o = p.add(lf, kind, "OBJ", **kw)
            if kind == "no_format":
                p.nofmt(lf, o, b"xyz")
    steps = [org, data, one]
    rng.shuffle(steps)
    for s in steps:
        s()
    w = work.write_program(p, ctx)
    ctx.count("executions")
    monitor(w.dlis, ctx, headers_of(p))
    defining(p, w, ctx)
    work.compare(w)


def run_header(ctx):
    rng = ctx.rng
    import dliswriter
    n = rng.choice([0, 1, 2, 20, 63, 64, 65, 66, 67, 100, 130, 300])
    cs = rng.choice([gen.ASCII_PRINT, gen.ASCII_PRINT, gen.ASCII_ALL])
    ident = "".join(rng.choices(cs, k=n))
    valid = n <= 65
    if n and rng.random() < 0.15:
        ident, valid = ident[:-1] + rng.choice("é\u2126\x80"), False
    if rng.random() < 0.1:
        ident, valid = rng.choice([5, None, b"bytes"]), False
    seq = rng.choice([1, 2, 9, 10, 99, 10 ** 9, 10 ** 10 - 1, 10 ** 10 - 2, rng.randint(1, 10 ** 10 - 1)])
    if rng.random() < 0.3:
        seq = rng.choice([0, -1, 10 ** 10, 10 ** 10 + 1, 10 ** 11, 1.0, "1", None, 1.5, -10 ** 9, -10 ** 8])
        valid = False
    mark = rng.choice(["0", "A", " ", "z"])
    r = rng.random()
    if r < 0.1:
        mark, valid = rng.choice(["", "AB", "é", 5]), False
    p = spec.Program({})
    kw = {"fh_id": ident, "fh_sequence_number": seq, "fh_identifier": mark}
    how = rng.choice(["kw", "kw", "item", "later"])
    lf = p.lf(**kw)
    p.add(lf, "origin", "O", **({"file_set_number": 4} if rng.random() < 0.5 else {}))
    c = p.add(lf, "channel", "C", data=np.arange(2, dtype="u1"))
    p.add(lf, "frame", "F", channels=[c])
    runner = spec.Runner(p)
    runner.make_file()
    path = ctx.path()
    try:
        if how == "kw":
            runner.step(p.ops[0])
        elif how == "item":
            from dliswriter.logical_record.eflr_types import FileHeaderItem, FileHeaderSet
            fh = FileHeaderItem(ident, parent=FileHeaderSet(), sequence_number=seq, identifier=mark)
            runner.lfs[lf] = runner.df.add_logical_file(file_header=fh)
        else:
            runner.lfs[lf] = runner.df.add_logical_file()
            fh = runner.lfs[lf].file_header
            fh.header_id, fh.sequence_number, fh.name = ident, seq, mark
        for op in p.ops[1:]:
            runner.step(op)
        runner.write(path)
    except ImportError:
        return
    except Exception as e:
        if valid:
            raise Violation("header.refused", f"{kw!r} ({how}): {e!r}")
        ctx.count("headers_rejected")
        return
    ctx.count("executions")
    d = rp66.parse(work.read(path))
    if not valid:
        if how == "later" and isinstance(ident, str) and len(ident) <= 65 and ident.isascii() and \
                len(str(seq)) <= 10:
            # plain attributes reassigned after validation: only what cannot be held must be refused; no other value is written
            a = d.files[0].order[0].objects[0].attrs
            got = (a["SEQUENCE-NUMBER"].values[0], a["ID"].values[0])
            if isinstance(seq, int) and got != (str(seq).rjust(10), ident.ljust(65)):
                raise Violation("header.sequence-number", f"{kw!r} (later): {got!r} written")
            ctx.count("headers_reassigned")
            return
        raise Violation("header.accepted", f"{kw!r} ({how}) was written")
    monitor(d, ctx, headers_of(p))
    w = work.Written()
    w.program, w.dlis, w.runner, w.data = p, d, runner, None
    spec.compare(p, d, what=("header", "objects"))


def nearly(rng, s):
    """Identifiers which resemble s."""
    r = [s.swapcase(), s + " ", " " + s, s[:-1], s + "0", s[::-1], s.ljust(65), "", s + "\x00", s.replace("A", "a"), "FILE-HEADER", s * 2,
         s.lower(), s.strip(), s[1:]]
    return rng.choice([x for x in r if x != s])


def run_fileid(ctx):
    """The FILE-ID of the defining origin given by the user: what is written agrees with the header."""
    rng = ctx.rng
    n = rng.choice([1, 1, 2, 3])
    where = rng.randrange(n)
    p = spec.Program({})
    for i in range(n):
        ident = gen.text(rng, 30, nonempty=True, charset=gen.ASCII_PRINT)[:rng.choice([65, 12, 3])]
        sn = {"set_name": f"LF{i}"} if n > 1 else {}
        lf = p.lf(fh_id=ident)
        kw = {"file_set_number": 1}
        if i == where:
            good = rng.random() < 0.4
            fid = ident if good else nearly(rng, ident)
            how = rng.choice(["set", "setattrs", "between"])
        o = p.add(lf, "origin", "O", **kw, **sn)
        if i != where and rng.random() < 0.4:
            p.set(o, "file_id", ident)
        if i == where:
            org = o
            if how == "set":
                p.set(o, "file_id", fid)
            elif how == "setattrs":
                p.setattrs(o, file_id=fid)
        for j in range(rng.choice([0, 0, 1])):        # another origin: its FILE-ID is its own affair
            o = p.add(lf, "origin", "O2", file_set_number=2, origin_reference=77 + i, **sn)
            p.set(o, "file_id", rng.choice(["OTHER", ident]))
        c = p.add(lf, "channel", "C", data=np.arange(2, dtype="u1"), dataset_name=f"d{i}", **sn)
        p.add(lf, "frame", "F", channels=[c], **sn)
    runner = spec.Runner(p)
    path = ctx.path()
    ctx.count("executions")
    try:
        runner.build()
        if how == "between":
            runner.write(path)
            p.set(org, "file_id", fid)
            runner.step(p.ops[-1])
        runner.write(path)
    except Exception as e:
        if good:
            raise Violation("origin.file-id-refused", f"header id {ident!r} as FILE-ID ({how}): {e!r}\n{p.describe(1500)}")
        ctx.count("file_ids_refused")
        return
    d = rp66.parse(work.read(path))
    ctx.count("file_ids_written")
    monitor(d, ctx, headers_of(p))
    spec.compare(p, d, what=("header", "objects", "attrs"))


def run_case(case, ctx):
    if case[0] == "fileid":
        run_fileid(ctx)
    elif case[0] == "order":
        run_order(ctx)
    elif case[0] == "kinds":
        run_kinds(case[1], ctx)
    elif case[0] == "header":
        run_header(ctx)
    else:
        if case[0] == "crowd":
            p, override, data = work.crowd(ctx, *case[1:3])
        else:
            p, override, data, g = work.generate(ctx, n_lf=(1, 4), origins=(1, 4), rows=(1, 4), extra=(2, 16))
        w = work.write_program(p, ctx, override, data)
        ctx.count("executions")
        monitor(w.dlis, ctx, headers_of(p))
        defining(p, w, ctx)
        work.compare(w)
