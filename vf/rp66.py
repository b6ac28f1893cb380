"""Independent strict RP66 V1 reader. Shares no code with the library under test.

Everything that deviates from the standard (or from the narrower contract stated in the properties: no encryption,
no checksum, no trailing length) raises Malformed(rule, message).
"""
import struct
from datetime import datetime, timezone


class Malformed(Exception):
    def __init__(self, rule, msg):
        super().__init__(f"[{rule}] {msg}")
        self.rule = rule
        self.msg = msg


def need(cond, rule, msg):
    if not cond:
        raise Malformed(rule, msg)


# ------------------------------------------------------------------ physical layer

class SUL:
    __slots__ = ("seq", "version", "structure", "mrl", "set_id", "raw")


def parse_sul(b):
    need(len(b) >= 80, "sul.length", f"file of {len(b)} bytes is shorter than the storage unit label")
    raw = b[:80]
    need(all(x < 128 for x in raw), "sul.ascii", f"non-ASCII byte in storage unit label {raw!r}")
    t = raw.decode("ascii")
    s = SUL()
    s.raw = raw
    s.seq, s.version, s.structure, s.mrl, s.set_id = t[0:4], t[4:9], t[9:15], t[15:20], t[20:80]
    need(s.seq.strip().isdigit(), "sul.seq", f"sequence number {s.seq!r}")
    need(s.version == "V1.00", "sul.version", f"version {s.version!r}")
    need(s.structure == "RECORD", "sul.structure", f"structure {s.structure!r}")
    need(s.mrl.strip().isdigit(), "sul.mrl", f"max record length {s.mrl!r}")
    return s


class Segment:
    __slots__ = ("offset", "length", "attrs", "type", "body", "pad", "vr")

    @property
    def is_eflr(self): return bool(self.attrs & 0x80)

    @property
    def pred(self): return bool(self.attrs & 0x40)

    @property
    def succ(self): return bool(self.attrs & 0x20)


class Record:
    """A reassembled logical record."""
    __slots__ = ("is_eflr", "type", "body", "segments", "index")

    def __repr__(self):
        return f"Record({'E' if self.is_eflr else 'I'}FLR type={self.type} len={len(self.body)} segs={len(self.segments)})"


class Physical:
    __slots__ = ("sul", "vrs", "segments", "records", "size")


def parse_physical(b, bracketing=True):
    """SUL + visible records + segments + reassembly. Strict."""
    p = Physical()
    p.size = len(b)
    p.sul = parse_sul(b)
    mrl = int(p.sul.mrl)
    p.vrs = []       # (offset, length)
    p.segments = []
    pos = 80
    n = len(b)
    while pos < n:
        need(n - pos >= 4, "vr.header", f"{n - pos} stray bytes at {pos}")
        ln = (b[pos] << 8) | b[pos + 1]
        need(b[pos + 2] == 0xFF and b[pos + 3] == 0x01, "vr.marker",
             f"visible record at {pos}: format marker {b[pos + 2:pos + 4].hex()}")
        need(ln % 2 == 0, "vr.odd", f"visible record at {pos}: odd length {ln}")
        need(ln >= 20, "vr.short", f"visible record at {pos}: length {ln} < 20")
        need(ln <= mrl, "vr.long", f"visible record at {pos}: length {ln} > declared maximum {mrl}")
        need(pos + ln <= n, "vr.truncated", f"visible record at {pos}: length {ln} beyond end of file {n}")
        p.vrs.append((pos, ln))
        end = pos + ln
        sp = pos + 4
        while sp < end:
            need(end - sp >= 4, "seg.header", f"{end - sp} stray bytes at {sp} in visible record at {pos}")
            sl = (b[sp] << 8) | b[sp + 1]
            need(sl % 2 == 0, "seg.odd", f"segment at {sp}: odd length {sl}")
            need(sl >= 16, "seg.short", f"segment at {sp}: length {sl} < 16")
            need(sp + sl <= end, "seg.tiling", f"segment at {sp}: length {sl} exceeds visible record end {end}")
            s = Segment()
            s.offset, s.length, s.attrs, s.type, s.vr = sp, sl, b[sp + 2], b[sp + 3], len(p.vrs) - 1
            need(not s.attrs & 0x10, "seg.encrypted", f"segment at {sp}: encryption bit")
            need(not s.attrs & 0x08, "seg.encpacket", f"segment at {sp}: encryption packet bit")
            need(not s.attrs & 0x04, "seg.checksum", f"segment at {sp}: checksum bit")
            need(not s.attrs & 0x02, "seg.trailing", f"segment at {sp}: trailing length bit")
            body = b[sp + 4:sp + sl]
            s.pad = 0
            if s.attrs & 0x01:
                s.pad = body[-1]
                need(1 <= s.pad <= len(body), "seg.padcount",
                     f"segment at {sp}: pad count {s.pad} for body of {len(body)} bytes")
                body = body[:-s.pad]
            s.body = bytes(body)
            p.segments.append(s)
            sp += sl
        need(sp == end, "seg.tiling", f"segments do not tile the visible record at {pos}")
        pos = end
    if bracketing:
        p.records = reassemble(p.segments)
    else:
        p.records = None
    return p


def reassemble(segments):
    recs = []
    cur = None
    for s in segments:
        if cur is None:
            need(not s.pred, "lr.first_pred", f"segment at {s.offset}: first segment of a record has predecessor flag")
            cur = Record()
            cur.is_eflr, cur.type, cur.segments = s.is_eflr, s.type, [s]
        else:
            need(s.pred, "lr.no_pred", f"segment at {s.offset}: continuation segment without predecessor flag")
            need(s.is_eflr == cur.is_eflr, "lr.kind", f"segment at {s.offset}: explicit flag differs within record")
            need(s.type == cur.type, "lr.type", f"segment at {s.offset}: record type {s.type} != {cur.type}")
            cur.segments.append(s)
        if not s.succ:
            cur.body = b"".join(x.body for x in cur.segments)
            cur.index = len(recs)
            recs.append(cur)
            cur = None
    need(cur is None, "lr.open", "last segment of the file has the successor flag")
    return recs


# ------------------------------------------------------------------ representation codes

class ObName(tuple):
    """(origin, copy, name)"""
    __slots__ = ()
    origin = property(lambda s: s[0])
    copy = property(lambda s: s[1])
    name = property(lambda s: s[2])


class ObjRef(tuple):
    """(set type, ObName)"""
    __slots__ = ()
    type = property(lambda s: s[0])
    obname = property(lambda s: s[1])


RC = {1: "FSHORT", 2: "FSINGL", 3: "FSING1", 4: "FSING2", 5: "ISINGL", 6: "VSINGL", 7: "FDOUBL", 8: "FDOUB1",
      9: "FDOUB2", 10: "CSINGL", 11: "CDOUBL", 12: "SSHORT", 13: "SNORM", 14: "SLONG", 15: "USHORT", 16: "UNORM",
      17: "ULONG", 18: "UVARI", 19: "IDENT", 20: "ASCII", 21: "DTIME", 22: "ORIGIN", 23: "OBNAME", 24: "OBJREF",
      25: "ATTREF", 26: "STATUS", 27: "UNITS"}
FIXED = {1: 2, 2: 4, 3: 8, 4: 12, 5: 4, 6: 4, 7: 8, 8: 16, 9: 24, 10: 8, 11: 16, 12: 1, 13: 2, 14: 4, 15: 1, 16: 2,
         17: 4}
FMT = {2: ">f", 3: ">ff", 4: ">fff", 7: ">d", 8: ">dd", 9: ">ddd", 10: ">ff", 11: ">dd", 12: ">b", 13: ">h", 14: ">i",
       15: ">B", 16: ">H", 17: ">I"}
NUMERIC = set(range(1, 19))


class Cur:
    """Cursor over a record body."""
    __slots__ = ("b", "p", "what")

    def __init__(self, b, p=0, what=""):
        self.b, self.p, self.what = b, p, what

    def take(self, n):
        if self.p + n > len(self.b):
            raise Malformed("eflr.overrun", f"{self.what}: {n} bytes needed at {self.p} of {len(self.b)}")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def left(self):
        return len(self.b) - self.p

    def u8(self):
        return self.take(1)[0]

    def uvari(self):
        a = self.u8()
        if a < 0x80:
            return a
        if a < 0xC0:
            v = ((a & 0x3F) << 8) | self.u8()
            need(v >= 128, "uvari.minimal", f"{self.what}: value {v} encoded in two bytes")
            return v
        c = self.take(3)
        v = ((a & 0x3F) << 24) | (c[0] << 16) | (c[1] << 8) | c[2]
        need(v >= 16384, "uvari.minimal", f"{self.what}: value {v} encoded in four bytes")
        return v

    def text(self, n, what):
        t = self.take(n)
        need(all(c < 128 for c in t), "text.ascii", f"{self.what}: non-ASCII {what} {t!r}")
        return t.decode("ascii")

    def ident(self):
        return self.text(self.u8(), "IDENT")

    def ascii(self):
        return self.text(self.uvari(), "ASCII")

    def obname(self):
        return ObName((self.uvari(), self.u8(), self.ident()))

    def value(self, rc):
        need(rc in RC, "rc.undefined", f"{self.what}: representation code {rc}")
        if rc in FMT:
            v = struct.unpack(FMT[rc], self.take(FIXED[rc]))
            return v[0] if len(v) == 1 else v
        if rc == 18 or rc == 22:
            return self.uvari()
        if rc == 19 or rc == 27:
            return self.ident()
        if rc == 20:
            return self.ascii()
        if rc == 21:
            y, tzm, d, h, mn, s = self.take(6)
            ms = struct.unpack(">H", self.take(2))[0]
            tz, m = tzm >> 4, tzm & 15
            need(tz in (0, 1, 2), "dtime.tz", f"{self.what}: time zone {tz}")
            need(ms <= 999, "dtime.ms", f"{self.what}: {ms} milliseconds")
            try:
                return DTime(datetime(1900 + y, m, d, h, mn, s, ms * 1000), tz)
            except ValueError as e:
                raise Malformed("dtime.range", f"{self.what}: {e}")
        if rc == 23:
            return self.obname()
        if rc == 24:
            return ObjRef((self.ident(), self.obname()))
        if rc == 25:
            return (self.ident(), self.obname(), self.ident())
        if rc == 26:
            v = self.u8()
            need(v in (0, 1), "status.range", f"{self.what}: STATUS {v}")
            return v
        return bytes(self.take(FIXED[rc]))  # exotic floats: raw bytes


class DTime:
    __slots__ = ("dt", "tz")

    def __init__(self, dt, tz):
        self.dt, self.tz = dt, tz

    def utc(self):
        """The instant, if the time zone is GMT (else as system-local time)."""
        if self.tz == 2:
            return self.dt.replace(tzinfo=timezone.utc)
        return self.dt.astimezone(timezone.utc)

    def __repr__(self):
        return f"DTime({self.dt.isoformat()}, tz={self.tz})"


# ------------------------------------------------------------------ EFLR grammar

class Attr:
    __slots__ = ("label", "count", "rc", "units", "values", "absent")

    def __repr__(self):
        return "ABSENT" if self.absent else f"<{self.count}x{RC.get(self.rc)} [{self.units}] {self.values!r:.80}>"


class Obj:
    __slots__ = ("obname", "attrs", "set")

    def __repr__(self):
        return f"Obj({self.set.type}, {tuple(self.obname)})"


class ESet:
    __slots__ = ("type", "name", "template", "objects", "record")


def parse_eflr(rec):
    """Decode the body of an explicitly formatted record. Strict."""
    c = Cur(rec.body, 0, "set component")
    es = ESet()
    es.record = rec
    d = c.u8()
    role = d >> 5
    need(role == 7, "eflr.set", f"first component has descriptor {d:#x}, not a SET")
    need(d & 0x10, "eflr.settype", "SET component without type")
    need(not d & 0x07, "eflr.setbits", f"SET descriptor {d:#x} has reserved bits")
    es.type = c.ident()
    need(es.type != "", "eflr.settype", "empty set type")
    es.name = c.ident() if d & 0x08 else None
    es.template = []
    labels = set()
    c.what = f"template of {es.type}"
    need(c.left() > 0, "eflr.notemplate", f"{es.type}: no template")
    # template
    while c.left():
        d = rec.body[c.p]
        role = d >> 5
        if role == 3:
            break
        need(role in (1, 2), "eflr.template", f"{es.type}: component {d:#x} in template")
        c.u8()
        need(d & 0x10, "eflr.label", f"{es.type}: template attribute without label")
        a = _attr_body(c, d, None, True)
        need(a.label, "eflr.label", f"{es.type}: empty template label")
        need(a.label not in labels, "eflr.duplabel", f"{es.type}: duplicate label {a.label}")
        labels.add(a.label)
        es.template.append(a)
    need(es.template, "eflr.notemplate", f"{es.type}: empty template")
    es.objects = []
    while c.left():
        c.what = f"object {len(es.objects)} of {es.type}"
        d = c.u8()
        need(d >> 5 == 3, "eflr.object", f"{c.what}: descriptor {d:#x} is not an OBJECT")
        need(d & 0x10, "eflr.objname", f"{c.what}: no name")
        need(not d & 0x0F, "eflr.objbits", f"{c.what}: reserved bits in {d:#x}")
        o = Obj()
        o.set = es
        o.obname = c.obname()
        o.attrs = {}
        i = 0
        while c.left():
            d = rec.body[c.p]
            role = d >> 5
            if role == 3:
                break
            need(role in (0, 1), "eflr.attr", f"{c.what} {tuple(o.obname)}: component {d:#x}")
            need(i < len(es.template), "eflr.toomany", f"{c.what} {tuple(o.obname)}: more attributes than the template")
            c.u8()
            t = es.template[i]
            c.what = f"{es.type} {tuple(o.obname)} {t.label}"
            if role == 0:
                need(d == 0, "eflr.absbits", f"{c.what}: absent attribute descriptor {d:#x}")
                a = Attr()
                a.absent, a.label, a.count, a.rc, a.units, a.values = True, t.label, 0, t.rc, None, []
            else:
                need(not d & 0x10, "eflr.objlabel", f"{c.what}: label in object attribute")
                a = _attr_body(c, d, t, False)
            o.attrs[t.label] = a
            i += 1
        for t in es.template[i:]:   # trailing attributes left out: template defaults
            a = Attr()
            a.label, a.count, a.rc, a.units, a.values = t.label, t.count, t.rc, t.units, t.values
            a.absent = t.absent or t.values is None
            if a.values is None:
                a.values = []
            o.attrs[t.label] = a
        es.objects.append(o)
    need(es.objects, "eflr.noobjects", f"{es.type}: set without objects")
    return es


def _attr_body(c, d, t, is_template):
    a = Attr()
    a.absent = False
    a.label = c.ident() if d & 0x10 else (t.label if t else "")
    a.count = c.uvari() if d & 0x08 else (t.count if t else 1)
    if d & 0x04:
        a.rc = c.u8()
    else:
        a.rc = t.rc if t else 19
    need(a.rc in RC, "rc.undefined", f"{c.what}: representation code {a.rc}")
    a.units = c.ident() if d & 0x02 else (t.units if t else None)
    if d & 0x01:
        need(a.count > 0, "eflr.count0", f"{c.what}: value announced with count 0")
        a.values = [c.value(a.rc) for _ in range(a.count)]
    else:
        a.values = t.values if t else None
        if not is_template and not a.values:
            # a count announced without a value (and no default value in the template)
            if a.count == 0:
                a.absent = True
            else:
                raise Malformed("eflr.novalue", f"{c.what}: {a.count} value(s) announced and omitted")
            a.values = []
    return a


# ------------------------------------------------------------------ logical files

class Iflr:
    __slots__ = ("ref", "data", "type", "record")


class LogicalFile:
    __slots__ = ("sets", "iflrs", "records", "order")


def parse_iflr(rec):
    c = Cur(rec.body, 0, f"IFLR {rec.index}")
    f = Iflr()
    f.record, f.type = rec, rec.type
    f.ref = c.obname()
    f.data = rec.body[c.p:]
    return f


def split_fdata(iflr):
    c = Cur(iflr.data, 0, "FDATA")
    n = c.uvari()
    return n, iflr.data[c.p:]


class Dlis:
    __slots__ = ("physical", "files")


def parse(b):
    """Complete strict parse of a file into logical files."""
    d = Dlis()
    d.physical = parse_physical(b)
    d.files = []
    cur = None
    for r in d.physical.records:
        if r.is_eflr:
            es = parse_eflr(r)
            if es.type == "FILE-HEADER":
                cur = LogicalFile()
                cur.sets, cur.iflrs, cur.records, cur.order = [], [], [], []
                d.files.append(cur)
            need(cur is not None, "lf.start", "records before the first FILE-HEADER")
            cur.sets.append(es)
            cur.order.append(es)
        else:
            need(cur is not None, "lf.start", "records before the first FILE-HEADER")
            f = parse_iflr(r)
            cur.iflrs.append(f)
            cur.order.append(f)
        cur.records.append(r)
    return d
