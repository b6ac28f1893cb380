"""Programs (lists of public API calls), their execution against the library and their reference model.

The tables below are written from the RP66 V1 standard and the documentation; the model shares no code with the
library.
"""
import math
import zlib
from datetime import datetime, timezone, timedelta
import numpy as np

from . import rp66
from .rp66 import Malformed


class Mismatch(Exception):
    """What the reader finds differs from what the specification says."""

    def __init__(self, rule, msg):
        super().__init__(f"[{rule}] {msg}")
        self.rule = rule
        self.msg = msg


def must(cond, rule, msg):
    if not cond:
        raise Mismatch(rule, msg)


class Ref:
    """Reference to an object created earlier in the program."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"@{self.oid}"


class Setup:
    """Value with units; rendered as AttrSetup or dict."""
    __slots__ = ("value", "units", "as_dict")

    def __init__(self, value=None, units=None, as_dict=False):
        self.value, self.units, self.as_dict = value, units, as_dict

    def __repr__(self):
        return f"{'D' if self.as_dict else 'S'}({self.value!r}, {self.units!r})"


# kind -> (set type, record type, {param: (label, value kind, multivalued)})
# value kinds: text (ASCII), ident, props, num (any number -> float), int, fdoubl, uvari, unorm, ushort, dim, status,
#              dtime, dtimef (date-time or number), generic (numbers or strings), obname, objref, lname (ref or text)
M, S = True, False


def _t(*names, multi=S):
    return {n: (n.upper().replace("_", "-"), "text", multi) for n in names}


def _k(kind, *names, multi=S):
    return {n: (n.upper().replace("_", "-"), kind, multi) for n in names}


KINDS = {
    "origin": ("ORIGIN", 1, {
        **_k("ident", "file_set_name", "file_type", "name_space_name"),
        **_k("uvari", "file_set_number", "file_number", "name_space_version"),
        **_k("unorm", "descent_number", "run_number", "producer_code"),
        **_t("product", "version", "order_number", "well_id", "well_name", "field_name", "producer_name", "company"),
        **_t("programs", multi=M), **_k("dtime", "creation_time")}),
    "axis": ("AXIS", 2, {**_k("ident", "axis_id"), **_k("generic", "coordinates", multi=M), **_k("num", "spacing")}),
    "calibration": ("CALIBRATION", 5, {
        **_k("obname", "calibrated_channels", "uncalibrated_channels", "coefficients", "measurements", "parameters",
             multi=M), **_k("ident", "method")}),
    "calibration_coefficient": ("CALIBRATION-COEFFICIENT", 5, {
        **_k("ident", "label"), **_k("num", "coefficients", "references", "plus_tolerances", "minus_tolerances",
                                     multi=M)}),
    "calibration_measurement": ("CALIBRATION-MEASUREMENT", 5, {
        **_k("ident", "phase"), **_k("objref", "measurement_source"), "measurement_type": ("TYPE", "ident", S),
        **_k("dim", "dimension", multi=M), **_k("obname", "axis", multi=M),
        **_k("num", "measurement", "maximum_deviation", "standard_deviation", "reference", "standard",
             "plus_tolerance", "minus_tolerance", multi=M), **_k("int", "sample_count"),
        **_k("dtimef", "begin_time"), **_k("num", "duration")}),
    "channel": ("CHANNEL", 3, {
        **_k("lname", "long_name"), **_k("props", "properties", multi=M), **_k("ident", "units"),
        **_k("dim", "dimension", "element_limit", multi=M), **_k("obname", "axis", multi=M),
        **_k("objref", "source"), **_k("fdoubl", "minimum_value", "maximum_value", multi=M)}),
    "comment": ("COMMENT", 6, {**_t("text", multi=M)}),
    "computation": ("COMPUTATION", 5, {
        **_k("lname", "long_name"), **_k("props", "properties", multi=M), **_k("dim", "dimension", multi=M),
        **_k("obname", "axis", "zones", multi=M), **_k("num", "values", multi=M), **_k("obname", "source")}),
    "equipment": ("EQUIPMENT", 5, {
        **_t("trademark_name"), **_k("status", "status"), "eq_type": ("TYPE", "ident", S),
        **_k("ident", "serial_number", "location"),
        **_k("num", "height", "length", "minimum_diameter", "maximum_diameter", "volume", "weight", "hole_size",
             "pressure", "temperature", "vertical_depth", "radial_drift", "angular_drift")}),
    "frame": ("FRAME", 4, {
        **_t("description"), **_k("obname", "channels", multi=M), **_k("ident", "index_type", "direction"),
        **_k("num", "spacing", "index_min", "index_max"), **_k("ushort", "encrypted")}),
    "group": ("GROUP", 5, {
        **_t("description"), **_k("objref", "object_list", multi=M), **_k("obname", "group_list", multi=M)}),
    "long_name": ("LONG-NAME", 9, {
        **_t("general_modifier", "quantity_modifier", "entity_modifier", "source_part", "source_part_number",
             "conditions", multi=M),
        **_t("quantity", "altered_form", "entity", "entity_number", "entity_part", "entity_part_number",
             "generic_source", "standard_symbol", "private_symbol")}),
    "message": ("MESSAGE", 6, {
        "message_type": ("TYPE", "ident", S), **_k("dtimef", "time"),
        **_k("num", "borehole_drift", "vertical_depth", "radial_drift", "angular_drift"), **_t("text", multi=M)}),
    "no_format": ("NO-FORMAT", 8, {**_k("ident", "consumer_name"), **_t("description")}),
    "parameter": ("PARAMETER", 5, {
        **_k("lname", "long_name"), **_k("dim", "dimension", multi=M), **_k("obname", "axis", "zones", multi=M),
        **_k("generic", "values", multi=M)}),
    "path": ("PATH", 4, {
        **_k("obname", "frame_type", "well_reference_point"), **_k("obname", "value", multi=M),
        **_k("num", "borehole_depth", "vertical_depth", "radial_drift", "angular_drift", "time", "depth_offset",
             "measure_point_offset", "tool_zero_offset")}),
    "process": ("PROCESS", 5, {
        **_t("description", "trademark_name", "version"), **_k("props", "properties", multi=M),
        **_k("ident", "status"),
        **_k("obname", "input_channels", "output_channels", "input_computations", "output_computations",
             "parameters", multi=M), **_t("comments", multi=M)}),
    "splice": ("SPLICE", 5, {
        **_k("obname", "output_channel"), **_k("obname", "input_channels", "zones", multi=M)}),
    "tool": ("TOOL", 5, {
        **_t("description", "trademark_name", "generic_name"), **_k("obname", "parts", "channels", "parameters",
                                                                    multi=M), **_k("status", "status")}),
    "well_reference_point": ("WELL-REFERENCE", 1, {
        **_t("permanent_datum", "vertical_zero", "coordinate_1_name", "coordinate_2_name", "coordinate_3_name"),
        **_k("fdoubl", "permanent_datum_elevation", "above_permanent_datum", "magnetic_declination",
             "coordinate_1_value", "coordinate_2_value", "coordinate_3_value")}),
    "zone": ("ZONE", 5, {**_t("description"), **_k("ident", "domain"), **_k("dtimef", "maximum", "minimum")}),
}
# attributes which exist only in the file / through attribute access (python attribute name -> label)
EXTRA_LABELS = {"origin": {"file_id": ("FILE-ID", "text", S)}, "group": {"object_type": ("OBJECT-TYPE", "ident", S)},
                "channel": {"representation_code": ("REPRESENTATION-CODE", "ushort", S)}}
# python attribute names where they differ from the parameter name
PY_ATTR = {("calibration_measurement", "measurement_type"): "type", ("equipment", "eq_type"): "_type",
           ("message", "message_type"): "_type"}
UNITS_OK = {"num", "int", "fdoubl", "uvari", "unorm", "ushort", "generic", "dtime", "dtimef"}
RECORD_TYPE = {v[0]: v[1] for v in KINDS.values()}
RECORD_TYPE["FILE-HEADER"] = 0

LABELS = {}
for _kind, (_st, _rt, _params) in KINDS.items():
    LABELS[_kind] = {lab: (vk, mult) for lab, vk, mult in
                     list(_params.values()) + list(EXTRA_LABELS.get(_kind, {}).values())}

DTYPE_RC = {"int8": 12, "int16": 13, "int32": 14, "uint8": 15, "uint16": 16, "uint32": 17, "float32": 2, "float64": 7}
RC_NP = {12: ">i1", 13: ">i2", 14: ">i4", 15: ">u1", 16: ">u2", 17: ">u4", 2: ">f4", 7: ">f8"}


# ------------------------------------------------------------------ programs

class Program:
    """ops: ("lf", lfid, kwargs) | ("add", lfid, oid, kind, name, kwargs) | ("set", oid, param, part, value)
            | ("py", oid, attribute, value) | ("setattrs", oid, {param: value}) | ("nofmt", lfid, oid, data)
            | ("sul", attribute, value) | ("fh", lfid, attribute, value)
            | ("try", op) an assignment which may be refused and is replaced later | ("write", kw) intermediate write"""

    def __init__(self, file_kw=None):
        self.file_kw = dict(file_kw or {})
        self.ops = []
        self.write_kw = {}
        self._n = 0

    def new_id(self, prefix):
        self._n += 1
        return f"{prefix}{self._n}"

    def lf(self, **kw):
        lfid = self.new_id("L")
        self.ops.append(("lf", lfid, kw))
        return lfid

    def add(self, lfid, kind, name, **kw):
        oid = self.new_id(kind[:3] + "_")
        self.ops.append(("add", lfid, oid, kind, name, kw))
        return Ref(oid)

    def set(self, ref, param, value, part="value"):
        self.ops.append(("set", ref.oid, param, part, value))

    def py(self, ref, attribute, value):
        self.ops.append(("py", ref.oid, attribute, value))

    def setattrs(self, ref, **kw):
        self.ops.append(("setattrs", ref.oid, kw))

    def nofmt(self, lfid, ref, data):
        self.ops.append(("nofmt", lfid, ref.oid, data))

    def describe(self, limit=4000):
        lines = [f"DLISFile({_short(self.file_kw)})"]
        for op in self.ops:
            lines.append(" ".join(_short(x) for x in op))
        lines.append(f"write({_short(self.write_kw)})")
        s = "\n".join(lines)
        return s if len(s) <= limit else s[:limit] + f"... ({len(s)} characters)"

    def clone(self):
        p = Program(self.file_kw)
        p.ops = list(self.ops)
        p.write_kw = dict(self.write_kw)
        p._n = self._n
        return p


def _short(x):
    if isinstance(x, np.ndarray):
        return f"array({x.dtype.str if x.dtype.names is None else x.dtype}, {x.shape}, {x.ravel()[:4].tolist()})"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k}: {_short(v)}" for k, v in x.items()) + "}"
    if isinstance(x, str):
        return x if len(x) < 80 else f"{x[:60]}..({len(x)})"
    if isinstance(x, (bytes, bytearray)):
        return repr(bytes(x[:40])) + (f"..({len(x)})" if len(x) > 40 else "")
    if isinstance(x, (list, tuple)) and len(x) > 12:
        return "[" + ", ".join(_short(v) for v in x[:8]) + f", ..({len(x)})]"
    return repr(x)


class Runner:
    """Executes a program through the public API."""

    def __init__(self, program, override=None, scratch=None, also=None):
        self.program = program
        self.override, self.scratch, self.also = override or {}, scratch, also
        self.history_writes = [0, 0]        # failed, succeeded
        self.objs = {}
        self.lfs = {}
        self.df = None
        self.t0 = self.t1 = None
        self.given, self.pool, self.handed = 0, {}, []

    def give(self, v):
        """The value as passed to the library: containers are, in turn, left alone, passed again in later calls with an
        equal value, or changed by the caller once the call is over (see 'reuse')."""
        if not isinstance(v, (list, tuple, Setup)):
            return self.resolve(v)
        self.given += 1
        mode = zlib.crc32(b"%d" % self.given) % 3
        if mode == 1:
            key = repr(v)
            if key not in self.pool:
                self.pool[key] = self.resolve(v)
            return self.pool[key]
        v = self.resolve(v)
        if mode == 2:
            self.handed.append(v)
        return v

    def reuse(self):
        """The caller does something else with the lists, dicts and setups passed in the last call."""
        import dliswriter

        def scribble(v):
            if isinstance(v, (list, tuple)):
                for x in v:
                    scribble(x)
                if isinstance(v, list):
                    v.reverse()
                    v.extend(v[-1:] or ["reused"])
            elif isinstance(v, dict):
                scribble(v.get("value"))
                v.update(value="reused", units="reused")
            elif isinstance(v, dliswriter.AttrSetup):
                scribble(v.value)
                v.value = v.units = "reused"
        for v in self.handed:
            scribble(v)
        self.handed = []

    def resolve(self, v):
        import dliswriter
        if isinstance(v, Ref):
            return self.objs[v.oid]
        if isinstance(v, Setup):
            val, un = self.resolve(v.value), v.units
            if v.as_dict:
                d = {}
                if val is not None:
                    d["value"] = val
                if un is not None:
                    d["units"] = un
                return d
            return dliswriter.AttrSetup(value=val, units=un)
        if isinstance(v, list):
            return [self.resolve(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.resolve(x) for x in v)
        return v

    def make_file(self):
        import dliswriter
        self.df = dliswriter.DLISFile(**self.program.file_kw)

    def step(self, op):
        try:
            self._step(op)
        finally:
            self.reuse()

    def _step(self, op):
        what = op[0]
        if what == "lf":
            self.lfs[op[1]] = self.df.add_logical_file(**op[2])
        elif what == "add":
            _, lfid, oid, kind, name, kw = op
            method = getattr(self.lfs[lfid], "add_" + kind)
            self.objs[oid] = method(name, **{k: self.give(v) for k, v in kw.items()})
        elif what == "set":
            _, oid, param, part, value = op
            o = self.objs[oid]
            attr = getattr(o, PY_ATTR.get((self.kind_of(oid), param), param))
            setattr(attr, part, self.give(value))
        elif what == "py":
            setattr(self.objs[op[1]], op[2], self.give(op[3]))
        elif what == "setattrs":
            kind = self.kind_of(op[1])
            self.objs[op[1]].set_attributes(**{PY_ATTR.get((kind, k), k): self.give(v) for k, v in op[2].items()})
        elif what == "nofmt":
            self.lfs[op[1]].add_no_format_frame_data(self.objs[op[2]], op[3])
        elif what == "sul":
            setattr(self.df.storage_unit_label, op[1], op[2])
        elif what == "fh":
            setattr(self.lfs[op[1]].file_header, op[2], op[3])
        elif what == "try":
            try:
                self.step(op[1])
            except Exception:
                pass
        elif what == "write":
            from . import history
            self.history_writes[history.intermediate_write(self, op[1])] += 1
        else:
            raise ValueError(what)

    def kind_of(self, oid):
        for p in (self.program, self.also):
            for op in p.ops if p is not None else ():
                if op[0] == "add" and op[2] == oid:
                    return op[3]
        raise KeyError(oid)

    def build(self):
        self.t0 = datetime.now(timezone.utc)
        self.make_file()
        for op in list(self.program.ops):
            if op[0] == "set" and op[3] == "value" and op[4] is None:
                try:            # assigning None may be refused; the value is then as before
                    self.step(op)
                except (TypeError, ValueError):
                    self.program.ops.remove(op)
                    if self.also is not None and op in self.also.ops:
                        self.also.ops.remove(op)
                continue
            self.step(op)
        self.t1 = datetime.now(timezone.utc)
        return self.df

    def write(self, path, **override):
        kw = {"output_chunk_size": 1 << 16, **self.program.write_kw, **override}
        self.df.write(path, **kw)


# ------------------------------------------------------------------ reference model

class Default:
    """Value set by the writer if the user did not assign any: the attribute is either this or absent."""

    def __init__(self, value, absent_ok=True):
        self.value, self.absent_ok = value, absent_ok


ANY = object()


class MAttr:
    __slots__ = ("value", "units", "assigned")

    def __init__(self):
        self.value, self.units, self.assigned = None, None, False


class MObj:
    def __init__(self, oid, lfid, kind, name, set_name, origin):
        self.oid, self.lfid, self.kind, self.name = oid, lfid, kind, name
        self.set_name = set_name or None
        self.origin = origin            # None = defining origin
        self.attrs = {lab: MAttr() for lab in LABELS[kind]}
        self.data = None
        self.dataset_name = None
        self.cast_dtype = None

    @property
    def set_type(self):
        return KINDS[self.kind][0]


class MFile:
    def __init__(self, lfid, kw):
        self.lfid = lfid
        self.id = kw.get("fh_id", "FILE-HEADER")
        self.seq = kw.get("fh_sequence_number", 1)
        self.identifier = kw.get("fh_identifier", "0")
        self.objs = []
        self.nofmt = []          # (oid, bytes)

    def of(self, kind):
        return [o for o in self.objs if o.kind == kind]


class Model:
    def __init__(self, program):
        self.program = program
        self.files = []
        self.by_oid = {}
        fkw = program.file_kw
        self.sul = {"set_identifier": fkw.get("set_identifier", "MAIN-STORAGE-UNIT"),
                    "sequence_number": fkw.get("sul_sequence_number", 1),
                    "max_record_length": fkw.get("max_record_length", 8192)}
        lfs = {}
        for op in program.ops:
            what = op[0]
            if what in ("try", "write"):
                continue
            if what == "sul":
                self.sul[op[1]] = op[2]
            elif what == "fh":
                setattr(lfs[op[1]], {"header_id": "id", "sequence_number": "seq", "name": "identifier"}[op[2]], op[3])
            elif what == "lf":
                lfs[op[1]] = MFile(op[1], op[2])
                self.files.append(lfs[op[1]])
            elif what == "add":
                _, lfid, oid, kind, name, kw = op
                f = lfs[lfid]
                origin = kw.get("origin_reference")
                if kind == "origin" and origin is None:
                    used = [o.origin for o in f.of("origin")]
                    origin = ("auto", used)
                o = MObj(oid, lfid, kind, name, kw.get("set_name"), origin)
                if kind == "channel":
                    # documented: by default the name of the channel, with a unique suffix if already used
                    used = [c.dataset_name for c in f.of("channel")]
                    dn, i = name, 1
                    while dn in used:
                        dn, i = f"{name}__{i}", i + 1
                    o.dataset_name = dn
                f.objs.append(o)
                self.by_oid[oid] = o
                params = KINDS[kind][2]
                for k, v in kw.items():
                    if k in ("set_name", "origin_reference"):
                        continue
                    if v is None:
                        continue
                    if kind == "channel" and k in ("data", "dataset_name", "cast_dtype"):
                        setattr(o, k, v)
                        continue
                    self._assign(o, params[k], v)
            elif what == "set":
                _, oid, param, part, value = op
                o = self.by_oid[oid]
                a = o.attrs[self._param(o, param)[0]]
                if part == "units":
                    a.units = value
                else:
                    self._assign(o, self._param(o, param), value)
            elif what == "setattrs":
                o = self.by_oid[op[1]]
                for k, v in op[2].items():
                    self._assign(o, self._param(o, k), v)
            elif what == "py":
                o = self.by_oid[op[1]]
                _, _, attribute, value = op
                if attribute == "origin_reference":
                    o.origin = value
                elif attribute in ("name", "cast_dtype", "dataset_name"):
                    setattr(o, attribute, value)
                else:
                    raise ValueError(attribute)
            elif what == "nofmt":
                d = op[3]
                lfs[op[1]].nofmt.append((op[2], d.encode("ascii") if isinstance(d, str) else bytes(d)))

    @staticmethod
    def _param(o, param):
        p = KINDS[o.kind][2].get(param) or EXTRA_LABELS.get(o.kind, {}).get(param)
        if p is None:
            raise KeyError((o.kind, param))
        return p

    @staticmethod
    def _assign(o, spec, v):
        label, vk, multi = spec
        a = o.attrs[label]
        if isinstance(v, Setup):
            if v.units is not None:
                a.units = v.units
            if v.value is None:
                return
            v = v.value
        a.value = v
        a.assigned = True


def flatten(v):
    if isinstance(v, (list, tuple)):
        r = []
        for x in v:
            r.extend(flatten(x))
        return r
    return [v]


def text_of(v):
    """str of a str or enum member."""
    from enum import Enum
    return v.value if isinstance(v, Enum) else v


DT_FORMATS = ("%Y/%m/%d %H:%M:%S", "%Y.%m.%d %H:%M:%S")


def as_datetime(v):
    if isinstance(v, datetime):
        return v
    if isinstance(v, str):
        for f in DT_FORMATS:
            try:
                return datetime.strptime(v, f)
            except ValueError:
                pass
    return None


def is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating)) or (isinstance(x, tuple))


def num_equal(got, want):
    if isinstance(got, tuple):
        return False
    w = want.item() if isinstance(want, np.generic) else want
    if isinstance(w, float) and math.isnan(w):
        return isinstance(got, float) and math.isnan(got)
    return got == w and (got != 0 or not isinstance(w, float) or not isinstance(got, float)
                         or math.copysign(1, got) == math.copysign(1, w))


def check_numbers(attr, want, where):
    must(attr.rc in rp66.NUMERIC, "value.class", f"{where}: expected numbers {want!r:.100}, found {attr!r}")
    vals = attr.values
    must(len(vals) == len(want), "value.count", f"{where}: expected {len(want)} values {want!r:.100}, found {attr!r}")
    for g, w in zip(vals, want):
        must(num_equal(g, w), "value.number", f"{where}: expected {w!r}, found {g!r} ({rp66.RC[attr.rc]})")


def check_texts(attr, want, where):
    must(attr.rc in (19, 20, 27), "value.class", f"{where}: expected text {want!r:.100}, found {attr!r}")
    must(list(attr.values) == list(want), "value.text", f"{where}: expected {want!r:.200}, found {attr.values!r:.200}")


def check_dtime(attr, want, where):
    must(attr.rc == 21, "value.class", f"{where}: expected date-time {want!r}, found {attr!r}")
    must(len(attr.values) == 1, "value.count", f"{where}: expected one date-time, found {attr!r}")
    g = attr.values[0].utc()
    w = want.astimezone(timezone.utc)   # naive = local
    # the nearest millisecond, either of two as near; a value which would round up to the next second may stay in its own
    err = abs((g - w) / timedelta(microseconds=1))
    must(err <= 500 or (err < 1000 and w.microsecond >= 999500), "value.dtime",
         f"{where}: expected {want!r} = {w.isoformat()}, found {attr.values[0]!r} = {g.isoformat()}")


def check_value(attr, vk, v, ident, where):
    """attr (decoded, present) against the assigned value v of value kind vk. ident: oid -> (set type, ObName)."""
    if vk in ("num", "int", "fdoubl", "uvari", "unorm", "ushort", "dim"):
        want = []
        for x in flatten(v):
            if vk == "ushort" and isinstance(x, str):
                x = 1 if x.lower() in ("1", "true", "t", "yes", "y") else 0
            want.append(int(x) if isinstance(x, bool) else x)
        check_numbers(attr, want, where)
        if vk in ("int", "uvari", "unorm", "ushort", "dim"):
            must(all(isinstance(g, int) for g in attr.values), "value.class", f"{where}: expected integers, {attr!r}")
    elif vk in ("text", "ident", "props"):
        check_texts(attr, [text_of(x) for x in flatten(v)], where)
    elif vk == "status":
        must(attr.rc in (26, 15), "value.class", f"{where}: expected status, found {attr!r}")
        must(attr.values == [int(v)] and (isinstance(v, (str, bytes)) or int(v) == v), "value.status",
             f"{where}: expected {v!r}, found {attr!r}")
    elif vk in ("dtime", "dtimef"):
        d = as_datetime(v)
        if d is not None:
            check_dtime(attr, d, where)
        else:
            check_numbers(attr, [float(v)], where)
    elif vk == "generic":
        fl = flatten(v)
        if all(isinstance(x, str) for x in fl):
            check_texts(attr, fl, where)
        else:
            check_numbers(attr, [int(x) if isinstance(x, bool) else x for x in fl], where)
    elif vk == "lname" and isinstance(v, str):
        check_texts(attr, [v], where)
    elif vk in ("obname", "objref", "lname"):
        want = flatten(v)
        must(attr.rc in (23, 24), "value.class", f"{where}: expected references {want!r:.100}, found {attr!r}")
        must(len(attr.values) == len(want), "value.count", f"{where}: expected {len(want)} references, found {attr!r}")
        for g, w in zip(attr.values, want):
            st, on = ident[w.oid]
            if attr.rc == 24:
                must(g.type == st, "ref.type", f"{where}: reference {g!r} to {w!r} of type {st}")
                g = g.obname
            must(g == on, "ref.identity", f"{where}: reference {tuple(g)} instead of {tuple(on)} ({w!r})")
    else:
        raise ValueError(vk)


# ------------------------------------------------------------------ data expectations

def source_column(source, name):
    if isinstance(source, np.ndarray):
        return source[name]
    return source[name]


def channel_array(mfile, ch, data):
    """The array of rows the user supplied for the channel. data: dict, structured array or None (h5: dict of it)."""
    if isinstance(data, np.ndarray):
        return data[ch.dataset_name]
    if data:
        if ch.dataset_name in data:
            return data[ch.dataset_name]
    for c in mfile.of("channel"):   # inline data are stored under the dataset name given at creation
        pass
    return ch.data


def bitcopy_bigendian(arr):
    """Big-endian bytes of each row of an array, by moving bytes only (NaN payloads preserved)."""
    a = np.ascontiguousarray(arr)
    n = a.shape[0]
    item = a.dtype.itemsize
    u8 = a.reshape(-1).view(np.uint8).reshape(-1, item) if a.size else np.zeros((0, item), np.uint8)
    bo = a.dtype.byteorder
    import sys
    little = bo == "<" or (bo == "=" and sys.byteorder == "little")
    if little:
        u8 = u8[:, ::-1]
    return np.ascontiguousarray(u8).reshape(n, -1)


def column_bytes(arr, cast):
    """(rows, bytes per row) uint8 matrix of the column as it must appear in the file."""
    if cast is not None and np.dtype(cast).newbyteorder("=") != arr.dtype.newbyteorder("="):
        import warnings
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            native = np.ascontiguousarray(arr).astype(arr.dtype.newbyteorder("="))
            out = native.astype(np.dtype(cast).newbyteorder("="))
        return bitcopy_bigendian(out)
    return bitcopy_bigendian(arr)


def written_dtype(arr, cast):
    return np.dtype(cast).newbyteorder("=") if cast is not None else arr.dtype.newbyteorder("=")


# ------------------------------------------------------------------ comparison

class Comparison:
    """Result of matching a decoded file with the model."""

    def __init__(self):
        self.ident = {}       # oid -> (set type, ObName)
        self.obj = {}         # oid -> decoded Obj
        self.lf = {}          # lfid -> decoded LogicalFile
        self.attrs = 0
        self.refs = 0
        self.rows = 0
        self.payloads = 0


def compare(program, dlis, t0=None, t1=None, data=None, window=(0, None), what=("objects", "attrs", "refs", "frames",
                                                                                   "nofmt", "header"), model=None):
    """Compare a decoded file with the reference model of a program. data: explicit data mapping (for HDF5 sources).
    Raises Mismatch."""
    model = model or Model(program)
    if data is None:
        data = program.write_kw.get("data")
    if "from_idx" in program.write_kw or "to_idx" in program.write_kw:
        window = (program.write_kw.get("from_idx", 0), program.write_kw.get("to_idx"))
    res = Comparison()
    res.model = model
    must(len(dlis.files) == len(model.files), "lf.count",
         f"{len(dlis.files)} logical files in the file, {len(model.files)} specified")
    for mf, lf in zip(model.files, dlis.files):
        res.lf[mf.lfid] = lf
        _compare_file(model, mf, lf, res, t0, t1, data, window, what)
    return res


def match_objects(mf, lf, res):
    """Match model objects with decoded ones by (set type, set name, name, order)."""
    actual = {}
    for es in lf.sets:
        if es.type == "FILE-HEADER":
            continue
        for o in es.objects:
            actual.setdefault((es.type, es.name or None, o.obname.name), []).append(o)
    expected = {}
    for o in mf.objs:
        expected.setdefault((o.set_type, o.set_name, o.name), []).append(o)
    for k, os in expected.items():
        got = actual.get(k, [])
        must(len(got) == len(os), "object.missing" if len(got) < len(os) else "object.extra",
             f"{len(os)} objects {k} specified, {len(got)} found")
        for m, g in zip(os, got):
            res.ident[m.oid] = (m.set_type, g.obname)
            res.obj[m.oid] = g
    for k, os in actual.items():
        must(k in expected, "object.extra", f"{len(os)} unexpected object(s) {k}")


def defining_origin_ref(lf):
    for es in lf.sets:
        if es.type == "ORIGIN":
            return es.objects[0].obname.origin
    raise Mismatch("origin.missing", "no ORIGIN set")


def _compare_file(model, mf, lf, res, t0, t1, data, window, what):
    match_objects(mf, lf, res)
    doref = defining_origin_ref(lf)
    refs = {o.obname.origin for es in lf.sets if es.type == "ORIGIN" for o in es.objects}
    if "header" in what:
        fh = lf.sets[0]
        must(fh.type == "FILE-HEADER" and len(fh.objects) == 1, "header", f"first set {fh.type}")
        o = fh.objects[0]
        must(o.attrs["SEQUENCE-NUMBER"].values == [str(mf.seq).rjust(10)], "header.seq",
             f"{o.attrs['SEQUENCE-NUMBER']!r} for {mf.seq}")
        must(o.attrs["ID"].values == [mf.id.ljust(65)], "header.id", f"{o.attrs['ID']!r} for {mf.id!r}")
        must(o.obname.name == mf.identifier, "header.identifier", f"{o.obname!r} for {mf.identifier!r}")
        must(o.obname.origin in refs, "origin.unresolved", f"file header {tuple(o.obname)}")
    if "objects" in what:
        seen = {}
        for es in lf.sets:
            for o in es.objects:
                key = (es.type, *o.obname)
                must(key not in seen, "identity.duplicate", f"two objects {key}")
                seen[key] = o
                must(o.obname.origin in refs, "origin.unresolved", f"{key}: origin not defined in the logical file")
        for m in mf.objs:
            st, on = res.ident[m.oid]
            if m.kind == "origin":
                if isinstance(m.origin, int):
                    must(on.origin == m.origin, "origin.value", f"{m.oid}: {tuple(on)}, expected origin {m.origin}")
            else:
                want = m.origin if m.origin is not None else doref
                must(on.origin == want, "origin.value", f"{st} {m.oid}: {tuple(on)}, expected origin {want}")
            es = res.obj[m.oid].set
            must(es.record.type == RECORD_TYPE[st], "record.type", f"{st} in a record of type {es.record.type}")
    in_frames = {}
    for fr in mf.of("frame"):
        for r in flatten(fr.attrs["CHANNELS"].value or []):
            in_frames.setdefault(r.oid, []).append(fr)
    if "attrs" in what or "refs" in what:
        for m in mf.objs:
            o = res.obj[m.oid]
            for label, (vk, multi) in LABELS[m.kind].items():
                if ("attrs" if vk not in ("obname", "objref") else "refs") not in what:
                    continue
                where = f"{mf.lfid} {m.set_type} {m.name!r} {label}"
                must(label in o.attrs, "label.missing", f"{where}: no such label in the template")
                a = o.attrs[label]
                _compare_attr(model, mf, m, label, vk, m.attrs[label], a, where, res, t0, t1, in_frames, data, window)
            extra = set(o.attrs) - set(LABELS[m.kind])
            for label in extra:
                must(o.attrs[label].absent, "label.extra", f"{mf.lfid} {m.set_type} {m.name!r}: {label}={o.attrs[label]!r}")
    if "frames" in what:
        _compare_frames(mf, lf, res, data, window)
    if "nofmt" in what:
        got = [(f.ref, f.data) for f in lf.iflrs if f.type == 1]
        must(len(got) == len(mf.nofmt), "nofmt.count", f"{len(got)} no-format records, {len(mf.nofmt)} payloads")
        for i, ((ref, d), (oid, want)) in enumerate(zip(got, mf.nofmt)):
            must(ref == res.ident[oid][1], "nofmt.ref", f"payload {i}: reference {tuple(ref)}, expected {res.ident[oid]}")
            must(d == want, "nofmt.bytes", f"payload {i}: {len(d)} bytes {d[:40]!r}, expected {len(want)} {want[:40]!r}")
            res.payloads += 1


def unit_text(u):
    return text_of(u) or None


def _shape_of(v):
    try:
        return list(np.array(v if isinstance(v, (list, tuple)) else [v], dtype=object).shape)
    except ValueError:
        return None


def _nested_shape(v):
    """Shape of regular nested lists."""
    if isinstance(v, (list, tuple)):
        return [len(v)] + (_nested_shape(v[0]) if len(v) else [])
    return []


def _compare_attr(model, mf, m, label, vk, ma, a, where, res, t0, t1, in_frames, data, window):
    res.attrs += 1
    assigned = ma.assigned and ma.value is not None and not (isinstance(ma.value, (list, tuple)) and not flatten(ma.value))
    if assigned:
        must(not a.absent, "value.absent", f"{where}: assigned {ma.value!r:.100}, found absent")
        check_value(a, vk, ma.value, res.ident, where)
        if vk in ("obname", "objref"):
            res.refs += len(a.values)
        want_u = unit_text(ma.units)
        if ma.units is None and m.kind == "frame" and label in ("INDEX-MIN", "INDEX-MAX", "SPACING"):
            return   # documented default: units of the index channel
        must((a.units or None) == want_u, "units", f"{where}: units {a.units!r}, assigned {ma.units!r}")
        return
    # never assigned
    d = _default(mf, m, label, a, t0, t1, in_frames, data, window)
    if d is ANY:
        return
    if d is None:
        must(a.absent, "value.unassigned", f"{where}: never assigned, found {a!r}")
        return
    if a.absent:
        must(d.absent_ok, "default.absent", f"{where}: expected default {d.value!r:.100}, found absent")
        return
    if callable(d.value):
        d.value(a, where)
    else:
        check_value(a, vk, d.value, res.ident, where)
    if ma.units is None and not (m.kind == "frame"):
        must(not a.units, "units", f"{where}: units {a.units!r}, none assigned")


def _default(mf, m, label, a, t0, t1, in_frames, data, window):
    k = (m.kind, label)
    if m.kind == "origin":
        if label == "FILE-ID":
            return Default(mf.id, absent_ok=False)
        if label == "FILE-SET-NUMBER":
            def fsn(a, where):
                must(len(a.values) == 1 and isinstance(a.values[0], int) and a.values[0] >= 0, "default.fsn",
                     f"{where}: {a!r}")
            return Default(fsn, absent_ok=False)
        if label == "FIELD-NAME":
            return Default("WILDCAT", absent_ok=False)
        if label == "CREATION-TIME":
            def ct(a, where):
                must(a.rc == 21 and len(a.values) == 1, "default.creation_time", f"{where}: {a!r}")
                if t0 is not None:
                    g = a.values[0].utc()
                    must(t0 - timedelta(seconds=2) <= g <= t1 + timedelta(seconds=2), "default.creation_time",
                         f"{where}: {g} not in [{t0}, {t1}]")
            return Default(ct, absent_ok=False)
    elif m.kind == "channel":
        if label == "LONG-NAME":
            return Default(m.name, absent_ok=False)
        if label in ("REPRESENTATION-CODE", "DIMENSION", "ELEMENT-LIMIT"):
            arr = channel_array(mf, m, data) if m.oid in in_frames else None
            if arr is None:
                if label == "REPRESENTATION-CODE":
                    if m.cast_dtype is not None:
                        return Default(DTYPE_RC[np.dtype(m.cast_dtype).name])
                    return None
                other = m.attrs["ELEMENT-LIMIT" if label == "DIMENSION" else "DIMENSION"]
                return Default(other.value) if other.assigned else None
            if label == "REPRESENTATION-CODE":
                return Default(DTYPE_RC[written_dtype(arr, m.cast_dtype).name], absent_ok=False)
            return Default(list(arr.shape[1:]) or [1], absent_ok=False)
    elif m.kind == "frame":
        if label in ("INDEX-MIN", "INDEX-MAX", "SPACING", "DIRECTION"):
            if m.attrs["INDEX-TYPE"].value is None:
                if label == "DIRECTION":
                    return None
                n = frame_rows(mf, m, data, window)
                if label == "SPACING":
                    return Default(1)
                return Default(1 if label == "INDEX-MIN" else n, absent_ok=False)
            return ANY
    elif m.kind in ("computation", "parameter") and label == "DIMENSION":
        v = m.attrs["VALUES"].value
        if v is None:
            return None
        v = v if isinstance(v, (list, tuple)) else [v]
        if not flatten(v):
            return ANY
        return Default(_nested_shape(v)[1:] or [1])
    elif m.kind == "calibration_measurement" and label == "DIMENSION":
        for lab in ("MAXIMUM-DEVIATION", "STANDARD-DEVIATION", "STANDARD", "PLUS-TOLERANCE", "MINUS-TOLERANCE"):
            v = m.attrs[lab].value
            if v is not None:
                v = v if isinstance(v, (list, tuple)) else [v]
                sh = _nested_shape(v)[1:]
                if sh:
                    return Default(sh)
        return None
    return None


def frame_channels(mf, fr):
    by = {o.oid: o for o in mf.objs}
    return [by[r.oid] for r in flatten(fr.attrs["CHANNELS"].value)]


def frame_rows(mf, fr, data, window):
    arr = channel_array(mf, frame_channels(mf, fr)[0], data)
    n = arr.shape[0]
    lo, hi = window
    return (n if hi is None else hi) - lo


def _compare_frames(mf, lf, res, data, window):
    by_ref = {}
    for f in lf.iflrs:
        must(f.type in (0, 1), "iflr.type", f"indirectly formatted record of type {f.type}")
        if f.type == 0:
            by_ref.setdefault(f.ref, []).append(f)
    lo, hi = window
    for fr in mf.of("frame"):
        rows = by_ref.pop(res.ident[fr.oid][1], [])
        cols = []
        n = None
        for ch in frame_channels(mf, fr):
            arr = channel_array(mf, ch, data)
            arr = arr[lo:hi]
            cb = column_bytes(arr, ch.cast_dtype)
            n = cb.shape[0] if n is None else n
            cols.append(cb)
        must(len(rows) == n, "fdata.count", f"{mf.lfid} frame {fr.name!r}: {len(rows)} records, {n} rows")
        want = np.concatenate(cols, axis=1)
        for i, f in enumerate(rows):
            num, slots = rp66.split_fdata(f)
            must(num == i + 1, "fdata.number", f"{mf.lfid} frame {fr.name!r} record {i}: frame number {num}")
            w = want[i].tobytes()
            must(len(slots) == len(w), "fdata.length",
                 f"{mf.lfid} frame {fr.name!r} row {i}: {len(slots)} bytes, expected {len(w)}")
            if slots != w:
                j = next(j for j in range(len(w)) if slots[j] != w[j])
                raise Mismatch("fdata.bytes", f"{mf.lfid} frame {fr.name!r} row {i}: byte {j} is {slots[j]:#x}, expected "
                                              f"{w[j]:#x}; got {slots[:48].hex()} expected {w[:48].hex()}")
            res.rows += 1
    must(not by_ref, "fdata.foreign", f"{mf.lfid}: frame data referring to {list(by_ref)[:3]!r}")


__all__ = [n for n in dir() if not n.startswith("_")]
