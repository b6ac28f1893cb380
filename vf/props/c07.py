"""C07: object identity is unique and every reference resolves in its logical file."""
import numpy as np

from .. import work, rp66, spec, gen
from ..spec import KINDS, LABELS, Ref
from ..core import Violation
from .c04 import REF_TARGET

RULE = ("'graph': random object graphs over all reference attributes with few names, named sets, several origins and logical "
        "files, objects added before the origin, origin references and names reassigned before and between writes, identity "
        "collisions provoked by renaming; 'crowd': 254 to 520 objects of one type and name; 'spec': random specifications; 'foreign': references to objects of another "
        "logical file, of inadmissible types, origins that do not exist. Oracle: inventory of identities of each logical "
        "file (unique), every OBNAME/OBJREF value and every object origin resolved in it, references compared with the "
        "objects passed. Distinct: (attribute, target identity) of the references observed.")
MINIMUM = {"references": 20000, "identities": 20000, "iflr_refs": 5000, "rejected": 50}
ASSUMPTIONS = ["a reference to an object of another logical file may be rejected by add_* or by write()"]

# admissible set types of OBNAME-valued attributes (RP66 V1 chapter 5)
ADMISSIBLE = {}
for (_k, _p), _t in REF_TARGET.items():
    _lab = KINDS[_k][2][_p][0]
    if KINDS[_k][2][_p][1] == "obname":
        ADMISSIBLE[KINDS[_k][0], _lab] = {KINDS[_t][0]}
ADMISSIBLE["COMPUTATION", "SOURCE"] = None
for _k in ("channel", "computation", "parameter"):
    ADMISSIBLE[KINDS[_k][0], "LONG-NAME"] = {"LONG-NAME"}


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["graph", i] for i in range(1200 if quick else 25000)]
    cases += [["spec", i] for i in range(700 if quick else 12000)]
    cases += [["foreign", i] for i in range(500 if quick else 8000)]
    cases += [["collide", k, i] for k in KINDS for i in range(10 if quick else 150)]
    cases += [["crowd", k, i] for k in KINDS for i in range(3 if quick else 12)]
    cases += [["big", *c[1:]] for c in work.crowd_cases(quick, objects=4, origins=2, frames=1, channels=1, sets=1)]
    return cases


def monitor(dlis, ctx):
    """Identities and references of each logical file, from the file alone."""
    for n, lf in enumerate(dlis.files):
        ids = {}
        by_name = {}
        for es in lf.sets:
            for o in es.objects:
                key = (es.type, o.obname)
                if key in ids:
                    raise Violation("identity.duplicate", f"logical file {n}: two objects {key}")
                ids[key] = o
                by_name.setdefault(o.obname, set()).add(es.type)
                ctx.count("identities")
        origins = {o.obname.origin for es in lf.sets if es.type == "ORIGIN" for o in es.objects}
        for (st, on) in ids:
            if on.origin not in origins:
                raise Violation("origin.unresolved", f"logical file {n}: {st} {tuple(on)}: no such origin")
        for es in lf.sets:
            for o in es.objects:
                for lab, a in o.attrs.items():
                    if a.absent or a.rc not in (23, 24):
                        continue
                    for v in a.values:
                        ctx.count("references")
                        where = f"logical file {n}: {es.type} {tuple(o.obname)} {lab} -> {v!r}"
                        if a.rc == 24:
                            if (v.type, v.obname) not in ids:
                                raise Violation("ref.unresolved", where)
                            ctx.distinct((es.type, lab, v.type, v.obname))
                        else:
                            adm = ADMISSIBLE.get((es.type, lab), set())
                            found = by_name.get(v, set())
                            if adm is not None:
                                found = found & adm
                                if len(found) != 1:
                                    raise Violation("ref.unresolved", f"{where}: {found}")
                            elif not found:
                                raise Violation("ref.unresolved", where)
                            ctx.distinct((es.type, lab, v))
        seen = set()
        for x in lf.order:
            if isinstance(x, rp66.ESet):
                seen.update((x.type, o.obname) for o in x.objects)
            else:
                ctx.count("iflr_refs")
                want = {0: "FRAME", 1: "NO-FORMAT"}.get(x.type)
                if (want, x.ref) not in seen:
                    raise Violation("iflr.ref", f"logical file {n}: record of type {x.type} refers to {tuple(x.ref)}, which "
                                                f"is not defined before it")


class Graph:
    """Program with a dense graph of references."""

    def __init__(self, ctx):
        self.rng = rng = ctx.rng
        self.p = p = spec.Program({"max_record_length": rng.choice([8192, 128, 1024, 16384])})
        self.names = rng.choice([["A"], ["A", "B"], ["A", "B", "C", "D"], ["A", "a", "A ", "X" * 255]])
        n_lf = rng.choice([1, 1, 1, 2, 3])
        self.lfs = []
        self.objs = {}        # lfid -> kind -> [Ref]
        self.origins = {}     # lfid -> [reference numbers]
        self.planned = {}     # lfid -> [(reference number, explicit)] of the origins to come
        self.nds = 0
        lfids = [p.lf() for _ in range(n_lf)]
        for i, lf in enumerate(lfids):
            self.objs[lf] = {}
            self.origins[lf] = []
            self.prefix = f"L{i}" if n_lf > 1 else None
            self.fill(lf)
            self.lfs.append(lf)
        self.tails = lfids

    def set_kw(self, lf, kind):
        r = self.rng.random()
        if self.prefix:
            return {"set_name": self.prefix + ("" if r < 0.7 else "-2")}
        return {} if r < 0.7 else {"set_name": self.rng.choice(["S1", "S2"])}

    def plan_origins(self, lf, n):
        rng, used = self.rng, []
        self.planned[lf] = []
        for _ in range(n):
            ref, explicit = None, False
            if rng.random() < 0.6:
                ref = rng.choice([0, 1, 2, 3, 127, 128, 16384, 2 ** 30 - 1])
                explicit = ref not in used
            if not explicit:
                ref = len(used)
                while ref in used:
                    ref += 1
            used.append(ref)
            self.planned[lf].append((ref, explicit))

    def some_origin(self, lf):
        """Reference of an origin of the logical file, possibly one which is yet to be added."""
        refs = self.origins[lf] + [r for r, _ in self.planned[lf]]
        return self.rng.choice(refs)

    def origin(self, lf):
        rng = self.rng
        kw = {}
        ref, explicit = self.planned[lf].pop(0)
        if explicit:
            kw["origin_reference"] = ref
        self.origins[lf].append(ref)
        if rng.random() < 0.5:
            kw["file_set_number"] = rng.randint(0, 300)
        self.new(lf, "origin", rng.choice(self.names), **kw)

    def new(self, lf, kind, name, **kw):
        r = self.p.add(lf, kind, name, **{**self.set_kw(lf, kind), **kw})
        self.objs[lf].setdefault(kind, []).append(r)
        return r

    def ref(self, lf, kind):
        """A reference to an object of the kind (created if there is none)."""
        pool = self.objs[lf].get(kind, [])
        if not pool or (self.rng.random() < 0.15 and kind not in ("frame", "origin")):
            return self.obj(lf, kind, depth=1)
        return self.rng.choice(pool)

    def any_ref(self, lf):
        pool = [r for k, v in self.objs[lf].items() for r in v]
        return self.rng.choice(pool) if pool else None

    def refs_for(self, lf, kind, depth=0):
        rng = self.rng
        kw = {}
        for param, (lab, vk, multi) in KINDS[kind][2].items():
            if vk not in ("obname", "objref", "lname") or (kind, param) == ("frame", "channels"):
                continue
            if rng.random() > (0.6 if depth == 0 else 0.15):
                continue
            if vk == "lname":
                v = self.ref(lf, "long_name") if rng.random() < 0.7 else "text"
                kw[param] = v
                continue
            if (kind, param) in (("calibration_measurement", "measurement_source"), ("channel", "source"),
                                 ("computation", "source"), ("group", "object_list")):
                one = lambda: self.any_ref(lf) or self.ref(lf, "zone")
            elif param in ("axis",):
                one = lambda: self.ref(lf, "axis")
            else:
                t = REF_TARGET[kind, param]
                if t == "frame" and not self.objs[lf].get("frame"):
                    continue
                one = lambda: self.ref(lf, t)
            if multi:
                n = rng.choice([1, 1, 2, 3, 5])
                if kind == "splice":
                    n = 2
                if param == "axis":
                    n = 1
                v = [one() for _ in range(n)]
                kw[param] = v if n > 1 or rng.random() < 0.7 else v[0]
            else:
                kw[param] = one()
        if kind == "channel" and "axis" in kw:
            kw.pop("axis")
        if kind in ("computation", "parameter") and "axis" in kw:
            kw.pop("dimension", None)
        return kw

    def obj(self, lf, kind, depth=0):
        rng = self.rng
        kw = self.refs_for(lf, kind, depth)
        if rng.random() < 0.3:
            kw["origin_reference"] = self.some_origin(lf)
        if kind == "channel":
            self.nds += 1
            kw["dataset_name"] = f"d{self.nds}"
            if rng.random() < 0.9:
                kw["data"] = np.arange(3, dtype="uint8")
        later = {}
        for k in list(kw):
            if k in KINDS[kind][2] and rng.random() < 0.25:
                later[k] = kw.pop(k)
        r = self.new(lf, kind, rng.choice(self.names), **kw)
        for k, v in later.items():
            self.p.set(r, k, v)
        return r

    def frame(self, lf):
        rng = self.rng
        n = rng.randint(1, 4)
        chans = []
        for i in range(n):
            self.nds += 1
            # names of channels are unique within one frame
            chans.append(self.new(lf, "channel", self.names[0] + "123456789"[i] if i else rng.choice(self.names),
                                  data=np.arange(rng.choice([2]), dtype="int16"), dataset_name=f"d{self.nds}"))
        kw = {}
        if rng.random() < 0.4:
            kw["origin_reference"] = self.some_origin(lf)
        self.new(lf, "frame", rng.choice(self.names), channels=chans, **kw)

    def fill(self, lf):
        rng = self.rng
        steps = ["frame"] * rng.randint(1, 4) + ["obj"] * rng.randint(3, 18)
        rng.shuffle(steps)
        n_or = rng.choice([1, 1, 2, 3, 5])
        self.plan_origins(lf, n_or)
        first = rng.choice([0, 0, rng.randint(0, len(steps))])
        pos = sorted([first] + [rng.randint(first, len(steps)) for _ in range(n_or - 1)], reverse=True)
        for x in pos:
            steps.insert(x, "origin")
        kinds = [k for k in KINDS if k not in ("origin", "frame")]
        for s in steps:
            if s == "origin":
                self.origin(lf)
            elif s == "frame":
                self.frame(lf)
            else:
                self.obj(lf, rng.choice(kinds))
        for _ in range(rng.choice([0, 1, 3, 6])):
            nf = self.ref(lf, "no_format")
            self.p.nofmt(lf, nf, rng.randbytes(rng.randint(0, 20)))

    def mutate(self):
        """Changes of identities and references after creation."""
        rng, p = self.rng, self.p
        lf = rng.choice(self.tails)
        i = self.tails.index(lf)
        self.prefix = f"L{i}" if len(self.tails) > 1 else None
        pool = [(k, r) for k, v in self.objs[lf].items() for r in v]
        for _ in range(rng.randint(1, 5)):
            k, r = rng.choice(pool)
            x = rng.random()
            if x < 0.35 and k not in ("origin",):
                p.py(r, "origin_reference", rng.choice(self.origins[lf]))
            elif x < 0.6 and k not in ("channel", "frame"):
                p.py(r, "name", f"R{rng.randrange(10 ** 9)}")
            elif x < 0.7:
                p.py(r, "name", f"R{rng.randrange(10 ** 9)}")
            elif x < 0.85:
                kind = rng.choice([k for k in KINDS if k not in ("origin", "frame")])
                self.obj(lf, kind)
            else:
                kw = self.refs_for(lf, k)
                for q, v in kw.items():
                    p.set(r, q, v)


def run_graph(ctx):
    rng = ctx.rng
    g = Graph(ctx)
    if rng.random() < 0.4:
        g.mutate()
    ctx.sample(g.p.describe(900))
    w = work.write_program(g.p, ctx)
    ctx.count("executions")
    monitor(w.dlis, ctx)
    work.compare(w)
    for _ in range(rng.choice([0, 1, 1, 2])):
        n = len(g.p.ops)
        g.mutate()
        for op in g.p.ops[n:]:
            w.runner.step(op)
        w2 = work.write_again(w, ctx)
        ctx.count("rewrites")
        monitor(w2.dlis, ctx)
        work.compare(w2)


def run_collide(kind, ctx):
    """Identities made equal by renaming or by changing the origin: rejected, or distinct in the file."""
    rng = ctx.rng
    g = Graph(ctx)
    p = g.p
    lf = g.tails[0]
    g.prefix = "L0" if len(g.tails) > 1 else None
    objs = []
    for i in range(rng.randint(2, 4)):
        if kind == "frame":
            c = g.new(lf, "channel", f"Q{i}", data=np.arange(2, dtype="u1"), dataset_name=f"q{i}")
            o = g.new(lf, kind, f"C{i % 2}", channels=[c])
        elif kind == "channel":
            o = g.new(lf, kind, f"C{i % 2}", dataset_name=f"q{i}", data=np.arange(2, dtype="u1"))
        elif kind == "origin":
            o = g.new(lf, kind, f"C{i % 2}", origin_reference=10000 + i, file_set_number=1)
        else:
            o = g.new(lf, kind, f"C{i % 2}")
        objs.append(o)
    g.new(lf, "group", "LINKS", object_list=list(objs))
    for _ in range(rng.randint(1, 3)):
        p.py(rng.choice(objs), "name", rng.choice(["C0", "C1", "C2"]))
    try:
        w = work.write_program(p, ctx, parse=False)
    except Exception:
        ctx.count("rejected")
        return
    w.dlis = rp66.parse(w.raw)
    ctx.count("executions")
    monitor(w.dlis, ctx)
    work.compare(w)


def run_crowd(kind, ctx):
    """More objects of one type and name than there are copy numbers: rejected, or all distinct in the file."""
    rng = ctx.rng
    g = Graph(ctx)
    p = g.p
    lf = g.tails[0]
    g.prefix = "L0" if len(g.tails) > 1 else None
    n = rng.choice([254, 255, 256, 257, 257, 258, 300, 511, 512, 513, 520])
    objs = []
    for i in range(n):
        kw = {}
        if rng.random() < 0.2 and kind != "origin":
            kw["origin_reference"] = g.some_origin(lf)
        if kind == "frame":
            kw["channels"] = [g.new(lf, "channel", f"Q{i}", data=np.arange(1, dtype="u1"), dataset_name=f"q{i}")]
        elif kind == "channel":
            kw["dataset_name"] = f"q{i}"
        elif kind == "origin":
            kw.update(origin_reference=10000 + i, file_set_number=1)
        objs.append(g.new(lf, kind, "CROWD", **kw))
    g.new(lf, "group", "LINKS", object_list=[objs[0], objs[-1], objs[n // 2], objs[min(256, n - 1)]])
    if kind == "no_format":
        for o in (objs[0], objs[-1]):
            p.nofmt(lf, o, b"x")
    try:
        w = work.write_program(p, ctx, parse=False)
    except Exception:
        ctx.count("rejected")
        ctx.count("crowds_rejected")
        return
    w.dlis = rp66.parse(w.raw)
    ctx.count("executions")
    ctx.count("crowds_written")
    monitor(w.dlis, ctx)
    work.compare(w)


def run_foreign(ctx):
    """References that cannot resolve must not get into a file."""
    rng = ctx.rng
    g = Graph(ctx)
    what = rng.choice(["type", "origin", "lf", "py-origin", "iflr", "lname", "frame"])
    p = g.p
    lf = g.tails[0]
    g.prefix = "L0" if len(g.tails) > 1 else None
    kinds = [k for k in KINDS if any(x[1] in ("obname", "objref") for x in KINDS[k][2].values())]
    k = rng.choice([k for k in kinds if k != "frame"])
    params = [x for x, (lab, vk, m) in KINDS[k][2].items() if vk in ("obname", "objref")]
    param = rng.choice(params)
    multi = KINDS[k][2][param][2]
    bad = True
    if what == "type":
        t = REF_TARGET[k, param]
        if KINDS[k][2][param][1] == "objref" or (k, param) == ("computation", "source"):
            return                       # any object is admissible
        other = rng.choice([x for x in KINDS if x not in (t, "frame", "origin", "channel")])
        r = g.new(lf, other, "WRONG")
        tail = ("add", lf, "bad", k, "OBJ", {param: [r] if multi else r, **g.set_kw(lf, k)})
    elif what == "origin":
        ref = rng.choice([x for x in (1, 2, 7, 500, 20000, 2 ** 30 - 2) if x not in g.origins[lf]])
        tail = ("add", lf, "bad", "zone", "OBJ", {"origin_reference": ref, **g.set_kw(lf, "zone")})
    elif what == "py-origin":
        ref = rng.choice([x for x in (1, 2, 7, 500, 20000) if x not in g.origins[lf]])
        tail = ("py", rng.choice([r for kk, v in g.objs[lf].items() if kk != "origin" for r in v]).oid,
                "origin_reference", ref)
    elif what == "lf":
        lf2 = p.lf()
        g.tails.append(lf2)
        g.objs[lf2], g.origins[lf2] = {}, []
        g.prefix = "OTHER"
        g.fill(lf2)
        t = REF_TARGET[k, param]
        if t == "frame":
            r = g.objs[lf2]["frame"][0]
        else:
            r = g.ref(lf2, t)
        g.prefix = "L0" if len(g.tails) > 2 else None
        v = [r] if multi else r
        if multi and t != "frame" and rng.random() < 0.6:
            # among references which are fine
            v = [g.ref(lf, t) for _ in range(rng.choice([1, 2, 3, 3, 20, 70, 300]))]
            v.insert(rng.randint(0, len(v)), r)
        tail = ("add", lf, "bad", k, "OBJ", {param: v, **g.set_kw(lf, k)})
    elif what == "frame":
        lf2 = p.lf()
        g.tails.append(lf2)
        g.objs[lf2], g.origins[lf2] = {}, []
        g.prefix = "OTHER"
        g.fill(lf2)
        g.nds += 1
        r = g.new(lf2, "channel", "FOREIGN", data=np.arange(2, dtype="u1"), dataset_name=f"d{g.nds}")
        g.prefix = "L0" if len(g.tails) > 2 else None
        own = g.new(lf, "channel", "OWN", data=np.arange(2, dtype="u1"), dataset_name=f"e{g.nds}")
        tail = ("add", lf, "bad", "frame", "OBJ", {"channels": rng.choice([[r], [own, r], [r, own]]), **g.set_kw(lf, "frame")})
    elif what == "lname":
        lf2 = p.lf()
        g.tails.append(lf2)
        g.objs[lf2], g.origins[lf2] = {}, []
        g.prefix = "OTHER"
        g.fill(lf2)
        r = g.ref(lf2, "long_name")
        g.prefix = "L0" if len(g.tails) > 2 else None
        kk = rng.choice(["computation", "parameter"])
        tail = ("add", lf, "bad", kk, "OBJ", {"long_name": r, **g.set_kw(lf, kk)})
    else:
        lf2 = p.lf()
        g.tails.append(lf2)
        g.objs[lf2], g.origins[lf2] = {}, []
        g.prefix = "OTHER"
        g.fill(lf2)
        r = g.ref(lf2, "no_format")
        tail = ("nofmt", lf, r.oid, b"payload")
    if rng.random() < 0.5 and what not in ("py-origin", "iflr", "frame"):
        # the reference assigned later
        kw = dict(tail[5])
        vals = {x: kw.pop(x) for x in list(kw) if x not in ("set_name", "origin_reference")}
        tails = [tail[:5] + (kw,)] + [("set", "bad", x, "value", v) for x, v in vals.items()]
    else:
        tails = [tail]
    if what == "origin" and rng.random() < 0.3:
        # the origin comes afterwards: legitimate
        tails.append(("add", lf, "late", "origin", "LATE", {"origin_reference": ref, "file_set_number": 1,
                                                              **g.set_kw(lf, "origin")}))
        bad = False
    p.ops += tails
    runner = spec.Runner(p)
    path = ctx.path()
    try:
        runner.build()
        runner.write(path)
    except Exception as e:
        if not bad:
            raise
        ctx.count("rejected")
        return
    ctx.count("executions")
    raw = work.read(path)
    if bad:
        raise Violation("foreign." + what, f"{tails!r:.300} was accepted and written")
    d = rp66.parse(raw)
    monitor(d, ctx)


def run_case(case, ctx):
    if case[0] == "graph":
        run_graph(ctx)
    elif case[0] == "foreign":
        run_foreign(ctx)
    elif case[0] == "crowd":
        run_crowd(case[1], ctx)
    elif case[0] == "collide":
        run_collide(case[1], ctx)
    elif case[0] == "big":
        p, override, data = work.crowd(ctx, *case[1:3])
        w = work.write_program(p, ctx, override, data, history=0.1)
        ctx.count("executions")
        monitor(w.dlis, ctx)
        work.compare(w, what=("objects", "refs", "frames", "nofmt"))
    else:
        p, override, data, g = work.generate(ctx, origins=(1, 4), extra=(5, 25), density=0.7, repeat_names=True, rows=(1, 3),
                                             channels=(1, 3), frames=(1, 3), nofmt=(0, 6), n_lf=(1, 3))
        w = work.write_program(p, ctx, override, data)
        ctx.count("executions")
        monitor(w.dlis, ctx)
        work.compare(w, what=("objects", "refs", "frames", "nofmt"))
