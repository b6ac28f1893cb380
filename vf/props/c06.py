"""C06: primitive values are encoded exactly as their representation code prescribes."""
import math
import random
import struct
import numpy as np
from datetime import datetime, timezone, timedelta
from enum import Enum, IntEnum

from .. import work, rp66, spec, gen
from ..spec import KINDS
from ..core import Violation, Inconclusive
from .c04 import Base, CONSTRAINED
from .c05 import ENUMS

RULE = ("'int'/'float'/'text'/'dtime'/'status': values over the whole range of each code (8-bit codes and, in the thorough "
        "tier, 16-bit codes exhaustively; every power of two and threshold +-3; random), one past it, hugely beyond it and "
        "of foreign types, given to the write_struct dispatch; 'order': the same values in random orders and repeated "
        "(equal-but-different values such as 0.0/-0.0/0/False, 1/1.0/True adjacent); 'name': OBNAME/OBJREF of objects made "
        "through the public API with origins 0..2**30, more than 256 copies, names of 1..256 characters; 'file': the same "
        "fringe reached through attributes, names, units, labels of written files. Oracle: an independent decoder consumes "
        "exactly the bytes emitted and recovers the value; unrepresentable values must raise. Distinct: (code, value).")
MINIMUM = {"encoded": 50000, "refused": 3000, "names": 300, "files": 100}
ASSUMPTIONS = ["values of a foreign type (e.g. integral float for an integer code) may be refused; if they are accepted, "
               "the encoding must be exact", "FSINGL: a value between two singles is rounded to nearest",
               "naive date-times denote local time of the process (zone varied per case)"]

INT = {"SSHORT": (12, -2 ** 7, 2 ** 7 - 1), "SNORM": (13, -2 ** 15, 2 ** 15 - 1), "SLONG": (14, -2 ** 31, 2 ** 31 - 1),
       "USHORT": (15, 0, 2 ** 8 - 1), "UNORM": (16, 0, 2 ** 16 - 1), "ULONG": (17, 0, 2 ** 32 - 1),
       "UVARI": (18, 0, 2 ** 30 - 1)}


def plan(tier, seed):
    quick = tier == "quick"
    cases = [["int", c, i] for c in INT for i in range(20 if quick else 200)]
    cases += [["exhaust", c, i, 64] for c in ("SSHORT", "USHORT") for i in [0]]
    if not quick:
        cases += [["exhaust", c, i, 64] for c in ("SNORM", "UNORM", "UVARI") for i in range(64)]
    cases += [["float", c, i] for c in ("FSINGL", "FDOUBL") for i in range(20 if quick else 400)]
    cases += [["text", c, i] for c in ("IDENT", "ASCII") for i in range(6 if quick else 40)]
    cases += [["dtime", i] for i in range(64 if quick else 1200)]
    cases += [["status", 0]]
    cases += [["order", i] for i in range(100 if quick else 1500)]
    cases += [["name", i] for i in range(100 if quick else 1500)]
    cases += [["copies", k, i] for k in KINDS for i in range(1 if quick else 4)]
    cases += [["file", k, x, i] for k in KINDS for x in KINDS[k][2] for i in range(6 if quick else 60)]
    cases += [["fringe", i] for i in range(800 if quick else 8000)]
    return cases


# ------------------------------------------------------------------ access to the encoder

ENC = {}


def encoder():
    """write_struct(code name, value) or None if the dispatch is not there."""
    if "f" not in ENC:
        try:
            from dliswriter.utils.internal.struct_writer import write_struct
            from dliswriter.utils.internal.internal_enums import RepresentationCode as RC
            ENC["f"] = lambda code, value: write_struct(getattr(RC, code), value)
        except ImportError:
            ENC["f"] = None
    return ENC["f"]


def encode(ctx, code, value):
    """Bytes or None if refused."""
    f = encoder()
    if f is None:
        raise Inconclusive("write_struct not found")
    try:
        b = f(code, value)
    except Exception:
        ctx.count("refused")
        return None
    ctx.count("encoded")
    if not isinstance(b, (bytes, bytearray)):
        raise Violation("encoder.type", f"{code} of {value!r}: {type(b)}")
    return bytes(b)


def show(v):
    r = repr(v)
    return r if len(r) < 100 else f"{r[:60]}..({len(r)})"


def decode(code, rc, b, v):
    c = rp66.Cur(b, 0, f"{code} of {show(v)}")
    try:
        x = c.value(rc)
    except rp66.Malformed as e:
        raise Violation("encoding." + code, f"{code} of {show(v)}: {b[:40].hex()}: {e}")
    if c.left():
        raise Violation("encoding." + code, f"{code} of {show(v)}: {c.left()} of {len(b)} bytes left over: {b[:40].hex()}")
    return x


# own encoders, written from the standard's appendix B

def own_int(code, v):
    n = {"SSHORT": 1, "SNORM": 2, "SLONG": 4, "USHORT": 1, "UNORM": 2, "ULONG": 4}.get(code)
    if n:
        return int(v).to_bytes(n, "big", signed=code[0] == "S")
    if v < 2 ** 7:
        return bytes([v])
    if v < 2 ** 14:
        return bytes([0x80 | v >> 8, v & 255])
    return bytes([0xC0 | v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255])


def check_int(ctx, code, v):
    rc, lo, hi = INT[code]
    b = encode(ctx, code, v)
    try:
        ok = v == int(v) and lo <= int(v) <= hi
    except (TypeError, ValueError, OverflowError):
        ok = False
    if b is None:
        if ok and type(v) is int:
            raise Violation("refused." + code, f"{code} of {v!r} was refused")
        return
    ctx.distinct((code, v))
    if not ok:
        raise Violation("wrapped." + code, f"{code} cannot represent {show(v)} ({type(v).__name__}); emitted {b.hex()}")
    want = own_int(code, int(v))
    if b != want:
        raise Violation("encoding." + code, f"{code} of {v!r}: {b.hex()}, expected {want.hex()}")
    if decode(code, rc, b, v) != int(v):
        raise Violation("encoding." + code, f"{code} of {v!r}: {b.hex()} decodes to something else")


def check_float(ctx, code, v):
    b = encode(ctx, code, v)
    fmt, rc = (">f", 2) if code == "FSINGL" else (">d", 7)
    if b is None:
        if type(v) is float:
            try:
                struct.pack(fmt, v)
            except OverflowError:
                return
            raise Violation("refused." + code, f"{code} of {v!r} was refused")
        return
    ctx.distinct((code, repr(v)))
    if isinstance(v, (str, bytes)) or v is None:
        raise Violation("wrapped." + code, f"{code} of {v!r}: {b.hex()}")
    x = decode(code, rc, b, v)
    try:
        w = float(v)
    except OverflowError:
        raise Violation("wrapped." + code, f"{code} of {show(v)}: {b.hex()}")
    if math.isnan(w):
        if not math.isnan(x):
            raise Violation("encoding." + code, f"{code} of NaN: {b.hex()}")
        return
    if code == "FSINGL":
        with np.errstate(all="ignore"):
            e = float(np.float32(w))
        if math.isinf(e) and not math.isinf(w):
            raise Violation("wrapped." + code, f"{code} of {w!r}: {b.hex()}")
        w = e
    elif isinstance(v, int) and not isinstance(v, bool) and int(w) != v:
        return                        # not exact in a double: rounded
    if x != w or math.copysign(1, x) != math.copysign(1, w):
        raise Violation("encoding." + code, f"{code} of {v!r}: {b.hex()} = {x!r}")


def check_text(ctx, code, v):
    b = encode(ctx, code, v)
    t = spec.text_of(v)
    is_text = isinstance(t, str)
    ok = is_text and all(ord(ch) < 128 for ch in t) and len(t) <= (255 if code == "IDENT" else 2 ** 30 - 1)
    if b is None:
        if ok:
            raise Violation("refused." + code, f"{code} of {show(v)} was refused")
        return
    if not is_text:
        t = str(t)                     # documented: converted to text
        ok = t.isascii() and len(t) <= 255
    if not ok:
        raise Violation("truncated." + code, f"{code} cannot represent {show(v)}; emitted {b[:20].hex()}.. ({len(b)} bytes)")
    ctx.distinct((code, t if len(t) < 50 else hash(t)))
    n = len(t)
    raw = t.encode("ascii")
    want = (bytes([n]) if code == "IDENT" else own_int("UVARI", n)) + raw
    if b != want:
        raise Violation("encoding." + code, f"{code} of {show(v)}: {b[:40].hex()}.. ({len(b)}), expected {want[:40].hex()}.. "
                                            f"({len(want)})")


def check_dtime(ctx, v):
    b = encode(ctx, "DTIME", v)
    try:
        u = v.astimezone(timezone.utc)
    except (OverflowError, ValueError, AttributeError):
        u = None
    ok = u is not None and 1900 <= u.year <= 2155
    if b is None:
        if ok and not (u.year == 2155 and u.month == 12 and u.day == 31 and u.hour == 23 and u.minute == 59):
            raise Violation("refused.DTIME", f"DTIME of {v!r} was refused")
        return
    if not ok:
        raise Violation("wrapped.DTIME", f"DTIME cannot represent {v!r}; emitted {b.hex()}")
    x = decode("DTIME", 21, b, v)
    ctx.distinct(("DTIME", v))
    if len(b) != 8:
        raise Violation("encoding.DTIME", f"{v!r}: {b.hex()}")
    err = abs((x.utc() - u) / timedelta(microseconds=1))
    if err > 500 and not (err < 1000 and u.microsecond >= 999500):
        raise Violation("encoding.DTIME", f"{v!r} = {u.isoformat()}: {b.hex()} = {x!r}")
    if u.microsecond % 1000 == 0 and err != 0:
        raise Violation("encoding.DTIME", f"{v!r} is whole milliseconds but decodes to {x!r}")


class Text(str):
    pass


class SE(str, Enum):
    A = "a-value"
    B = "b value"


class IE(IntEnum):
    ONE = 1
    BIG = 70000


def int_values(rng, code, n):
    rc, lo, hi = INT[code]
    vs = set()
    for k in list(range(0, 66)) + [100, 200]:
        for d in (-3, -2, -1, 0, 1, 2, 3):
            vs.add(2 ** k + d)
            vs.add(-2 ** k + d)
    for t in (lo, hi, 127, 128, 16383, 16384, 0x8000, 0xC0000000, 0x80000000, 0x3FFFFFFF, 0x40000000):
        vs.update(range(t - 4, t + 5))
    out = sorted(vs)
    out += [rng.randint(lo, hi) for _ in range(n)]
    out += [rng.randint(lo, min(hi, 70000)) for _ in range(n)]
    out += [rng.choice([-1, 1]) * rng.getrandbits(rng.randint(1, 70)) for _ in range(n)]
    return out


def int_foreign(rng, code):
    rc, lo, hi = INT[code]
    return [True, False, 1.0, 0.0, -0.0, 1.5, 0.5, -0.5, math.nan, math.inf, 1e300, float(hi), float(hi) + 1, np.int64(hi),
            np.int64(hi + 1), np.uint8(200), np.int8(-1), np.float32(3), "1", "", None, b"1", [1], (), IE.ONE, IE.BIG,
            np.uint64(2 ** 64 - 1), np.bool_(True), 1j, datetime(2020, 1, 1)]


def float_values(rng, code, n):
    vs = [0.0, -0.0, 1.0, -1.0, math.inf, -math.inf, math.nan, 0.1, 1 / 3, 5e-324, -5e-324, 2.2250738585072014e-308,
          1.7976931348623157e308, -1.7976931348623157e308, 3.4028234663852886e38, 3.4028235677973366e38,
          3.4028235677973362e38, 3.402823669209385e38, 1.1754943508222875e-38, 1e-45, 7e-46, 1.401298464324817e-45,
          16777216.0, 16777217.0, 2.0 ** 53, 2.0 ** 53 + 2, 1e39, -1e39, 1e22, 153.0]
    vs += [struct.unpack(">f", rng.randbytes(4))[0] for _ in range(n)]
    vs += [struct.unpack(">d", rng.randbytes(8))[0] for _ in range(n)]
    vs += [rng.uniform(-1e6, 1e6) for _ in range(n)]
    vs += [0, 1, -1, True, False, 2 ** 24, 2 ** 24 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 64, 10 ** 400, np.float32(0.1),
           np.float64(-0.0), np.float64(math.nan), np.int32(7), "1.0", None, b"x", [1.0], 1j]
    rng.shuffle(vs)
    return vs


TEXT_N = list(range(0, 20)) + [63, 64, 65, 126, 127, 128, 129, 130, 191, 192, 193, 200, 253, 254, 255, 256, 257, 258, 300, 383,
                               384, 511, 512, 513, 1000, 16383, 16384, 16385, 65535, 65536, 70000]


def text_values(rng, code):
    vs = []
    for n in TEXT_N:
        vs.append("".join(rng.choices(gen.ASCII_ALL, k=n)))
        vs.append("x" * n)
    for i in range(128):
        vs += [chr(i), chr(i) * 3, "a" + chr(i) + "b"]
    for o in [128, 129, 160, 176, 255, 256, 0x20AC, 0x2028, 0xFFFD, 0x1F600, 0xD800]:
        vs += [chr(o), "ab" + chr(o), chr(o) + "a" * 300, "a" * 127 + chr(o)]
    e = gen.enums()
    for cls in ("Unit", "Property", "EquipmentType", "FrameIndexType", "ZoneDomain"):
        vs += list(getattr(e, cls))[:200]
    vs += [SE.A, SE.B, Text("t" * 5), Text("t" * 256), np.str_("np"), 12, 1.5, -3, True]
    rng.shuffle(vs)
    return vs


ZONES = [None, None, timezone.utc, timezone(timedelta(hours=14)), timezone(timedelta(hours=-12)),
         timezone(timedelta(hours=5, minutes=45)), timezone(timedelta(minutes=-210)), timezone(timedelta(seconds=37)),
         timezone(timedelta(hours=23, minutes=59)), timezone(timedelta(hours=1, microseconds=1500))]


def dtime_values(rng, n):
    us = [0, 1, 499, 500, 501, 999, 1000, 1499, 1500, 1501, 998499, 998500, 998999, 999000, 999001, 999499, 999500, 999501,
          999999, 500000, 123456]
    vs = []
    for _ in range(n):
        y = rng.choice([1900, 1901, 1969, 1970, 1999, 2000, 2024, 2100, 2154, 2155, rng.randint(1900, 2155)])
        mo = rng.randint(1, 12)
        d = rng.choice([1, 28, rng.randint(1, 28)])
        if rng.random() < 0.2:
            mo, d = rng.choice([(12, 31), (1, 1), (1, 31), (10, 31), (8, 31), (3, 1)])
        h, mi, s = rng.choice([(23, 59, 59), (0, 0, 0), (rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))])
        v = datetime(y, mo, d, h, mi, s, rng.choice(us + [rng.randint(0, 999999)]), tzinfo=rng.choice(ZONES),
                     fold=rng.randint(0, 1))
        vs.append(v)
    for y, mo, d, h in [(1899, 12, 31, 23), (1899, 12, 31, 0), (1, 1, 1, 0), (1899, 1, 1, 0), (2156, 1, 1, 0),
                        (2156, 1, 1, 23), (9999, 12, 31, 23), (2155, 12, 31, 23), (1900, 1, 1, 0), (2156, 2, 1, 0),
                        (2300, 6, 1, 0), (2411, 1, 1, 0), (1644, 1, 1, 0)]:
        for z in ZONES[2:]:
            vs.append(datetime(y, mo, d, h, 30, tzinfo=z))
    for y in (2020, 2024, 2000, 2096):
        vs.append(datetime(y, 2, 29, 12, 0, 0, 999500))
    return vs


def run_exhaust(ctx, code, i, parts):
    rc, lo, hi = INT[code]
    hi = min(hi, 2 ** 17)
    if hi - lo < 256:
        rg = range(lo - 300, hi + 301)
    else:
        n = (hi - lo) // parts + 1
        rg = range(lo + i * n, min(hi, lo + (i + 1) * n) + 1)
    for v in rg:
        check_int(ctx, code, v)


def any_check(ctx, code, v):
    if code in INT:
        check_int(ctx, code, v)
    elif code in ("FSINGL", "FDOUBL"):
        check_float(ctx, code, v)
    elif code in ("IDENT", "ASCII"):
        check_text(ctx, code, v)
    elif code == "DTIME":
        check_dtime(ctx, v)
    elif code == "STATUS":
        check_status(ctx, v)


def check_status(ctx, v):
    b = encode(ctx, "STATUS", v)
    ok = isinstance(v, (int, float)) and v in (0, 1)
    if b is None:
        if ok and type(v) is int:
            raise Violation("refused.STATUS", f"STATUS of {v!r} was refused")
        return
    ctx.distinct(("STATUS", repr(v)))
    if not ok and not (isinstance(v, np.generic) and v in (0, 1)):
        raise Violation("wrapped.STATUS", f"STATUS cannot represent {v!r}; emitted {b.hex()}")
    if b != bytes([int(v)]):
        raise Violation("encoding.STATUS", f"STATUS of {v!r}: {b.hex()}")


def run_order(ctx):
    rng = ctx.rng
    pool = []
    for code in INT:
        pool += [(code, v) for v in (0, 1, True, False, 0.0, 1.0, -0.0, 127, 128, 2, 255, 256, -1)]
    for code in ("FSINGL", "FDOUBL"):
        pool += [(code, v) for v in (0.0, -0.0, 0, False, 1, 1.0, True, math.nan, -math.nan, 2 ** 24, 2.0 ** 24, np.float64(-0.0),
                                     np.float32(0.1), 0.1)]
    for code in ("IDENT", "ASCII"):
        pool += [(code, v) for v in ("", "0", "1", "1.0", "True", "a-value", SE.A, Text("a-value"), 1, 1.0, True, 0, -0.0, 0.0)]
    t = datetime(2020, 3, 29, 1, 30, tzinfo=timezone.utc)
    same = [t.astimezone(z) for z in ZONES[2:]] + [datetime(2020, 10, 25, 2, 30, fold=f) for f in (0, 1)] + \
        [datetime(2020, 10, 25, 2, 30)]
    pool += [("DTIME", v) for v in same]
    pool += [("STATUS", v) for v in (0, 1, True, False, 2, -1)]
    for _ in range(600):
        any_check(ctx, *rng.choice(pool))


# ------------------------------------------------------------------ identities

def run_name(ctx):
    """OBNAME and OBJREF of objects built through the public API."""
    import dliswriter
    rng = ctx.rng
    df = dliswriter.DLISFile()
    lf = df.add_logical_file()
    lf.add_origin("O", origin_reference=0)
    adders = {k: getattr(lf, "add_" + k) for k in KINDS if k not in ("origin", "frame", "channel")}
    objs = []
    for _ in range(60):
        k = rng.choice(list(adders))
        n = rng.choice([0, 1, 1, 2, 10, 127, 128, 129, 254, 255, 256, 257, 300])
        nm = "".join(rng.choices(gen.ASCII_ALL, k=n))
        if rng.random() < 0.1:
            nm = nm[:-1] + rng.choice("é°\u20ac") if nm else "é"
        o = rng.choice([None, 0, 1, 127, 128, 129, 16383, 16384, 16385, 2 ** 30 - 1, 2 ** 30, 2 ** 32, -1, 2 ** 31,
                        rng.randint(0, 40000)])
        sn = rng.choice([None, "S", "T" * 255])
        try:
            it = adders[k](nm, **({"origin_reference": o} if o is not None else {}), **({"set_name": sn} if sn else {}))
        except Exception:
            ctx.count("refused")
            if n and n <= 255 and nm.isascii() and (o is None or 0 <= o < 2 ** 30):
                raise
            continue
        objs.append((it, KINDS[k][0], nm, o or 0))
    if not objs:
        return
    for _ in range(150):                # revisits and changes of the identity between encodings
        i = rng.randrange(len(objs))
        it, st, nm, o = objs[i]
        if rng.random() < 0.25:
            if rng.random() < 0.5:
                o = rng.choice([0, 1, 127, 128, 16383, 16384, 2 ** 30 - 1, 2 ** 30, -1])
                try:
                    it.origin_reference = o
                except Exception:
                    continue
            else:
                nm = rng.choice(["", "A", "N" * 255, "N" * 256, "é", "b" * 128])
                try:
                    it.name = nm
                except Exception:
                    continue
            objs[i] = (it, st, nm, o)
        for code, rc in (("OBNAME", 23), ("OBJREF", 24)):
            b = encode(ctx, code, it)
            ok = len(nm) <= 255 and nm.isascii() and 0 <= o < 2 ** 30 and 0 <= it.copy_number <= 255
            if b is None:
                if ok and nm:
                    raise Violation("refused." + code, f"{code} of {st} {(o, it.copy_number, show(nm))} was refused")
                continue
            if not ok:
                raise Violation("wrapped." + code, f"{code} cannot represent {(o, it.copy_number, show(nm))}; emitted "
                                                   f"{b[:40].hex()}")
            x = decode(code, rc, b, (o, it.copy_number, nm))
            want = rp66.ObName((o, it.copy_number, nm))
            if (x if code == "OBNAME" else x.obname) != want or (code == "OBJREF" and x.type != st):
                raise Violation("encoding." + code, f"{code} of {st} {tuple(want)}: decodes to {x!r}")
            ctx.count("names")
            ctx.distinct((code, st, o, it.copy_number, len(nm)))


def run_copies(kind, ctx):
    """The number of same-named objects around the limit of the copy number, through a written file."""
    rng = ctx.rng
    b = Base(ctx, 8192)
    n = rng.choice([255, 256, 257, 258])
    if kind in ("channel", "frame"):
        n = rng.choice([256, 257])
    for i in range(n):
        kw = {}
        if kind == "origin":
            kw = {"origin_reference": i + 1, "file_set_number": 2}
        if kind == "frame":
            kw["channels"] = [b.p.add(b.lf, "channel", f"F{i}", data=np.arange(1, dtype="uint8"))]
        if kind == "channel":
            kw["dataset_name"] = f"ds{i}"
        b.p.add(b.lf, kind, "SAME", **kw)
    try:
        w = work.write_program(b.p, ctx, parse=False)
    except Exception as e:
        ctx.count("refused")
        if n <= 256:
            raise Violation("refused.copies", f"{n} {kind} objects of one name: {e!r}")
        return
    w.dlis = rp66.parse(w.raw)
    if n > 256:
        raise Violation("wrapped.copies", f"{n} {kind} objects of one name were written")
    work.compare(w)


# ------------------------------------------------------------------ through files

RANGE = {"uvari": (0, 2 ** 30 - 1), "unorm": (0, 2 ** 16 - 1), "dim": (0, 2 ** 30 - 1), "int": (-2 ** 31, 2 ** 31 - 1)}


def fringe_value(rng, kind, param, vk):
    """(value, representable: True/False/None = either)"""
    if vk in RANGE:
        lo, hi = RANGE[vk]
        r = rng.random()
        if r < 0.4:
            v = rng.choice([lo, lo + 1, hi, hi - 1, 127, 128, 129, 16383, 16384, 16385, 255, 256])
            return (v, True) if lo <= v <= hi else (v, False)
        v = rng.choice([lo - 1, hi + 1, lo - 2, hi + 2, lo - 2 ** 40, hi + 2 ** 40, 2 ** 64, hi * 2 + 1, hi * 2 + 2,
                        -2 ** 63 - 1, 2 ** 32, -2 ** 31 - 1, 10 ** 30])
        return v, (None if vk == "int" else lo <= v <= hi)
    if vk == "ident":
        n = rng.choice([1, 127, 128, 192, 254, 255, 256, 257, 300, 511, 512, 16384])
        cs = gen.ASCII_ALL
        v = "".join(rng.choices(cs, k=n))
        ok = n <= 255
        if rng.random() < 0.3:
            v, ok = v[:-1] + rng.choice("é°µ\u2126\U0001F600\x80\xff"), False
        if (kind, param) in ENUMS:
            ok = None if ok else False
        return v, ok
    if vk in ("text", "lname"):
        n = rng.choice([0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 40000])
        v = "".join(rng.choices(gen.ASCII_ALL, k=n))
        if rng.random() < 0.4:
            return v + rng.choice("é°µ\u2126\U0001F600\x80\xff"), False
        return v, True
    if vk == "status":
        return rng.choice([(0, True), (1, True), (2, False), (-1, False), (255, False), (256, False), (0.5, False), (1.5, False),
                           (rng.uniform(0.001, 0.999), False)])
    if vk == "ushort":
        return rng.choice([(0, True), (1, True), (2, False), (-1, False), (256, False)])
    if vk in ("dtime", "dtimef"):
        y = rng.choice([1, 1800, 1899, 1900, 2155, 2156, 2157, 2300, 9999])
        mo, d, h = rng.choice([(1, 1, 0), (12, 31, 23), (6, 15, 12)])
        v = datetime(y, mo, d, h, 59, 59, rng.choice([0, 999999, 999500]), tzinfo=rng.choice(ZONES[2:]))
        try:
            u = v.astimezone(timezone.utc)
            return v, 1900 <= u.year <= 2155
        except OverflowError:
            return v, False
    if vk in ("num", "fdoubl"):
        return rng.choice([(math.nan, True), (math.inf, True), (-0.0, True), (5e-324, True), (1.7976931348623157e308, True),
                           (2 ** 53, True), (10 ** 400, False), (-10 ** 400, False)])
    if vk == "generic":
        r = rng.random()
        if r < 0.4:
            return rng.choice([(2 ** 31 - 1, True), (-2 ** 31, True), (10 ** 400, False),
                               (-1, True), (127, True), (128, True), (-129, True), (32768, True), (65536, True)])
        if r < 0.7:
            return rng.choice([(-0.0, True), (math.inf, True), (math.nan, True), (5e-324, True), (1e39, True), (0.1, True)])
        return rng.choice([("g" * 255, True), ("g" * 256, True), ("g\u20ac", False), ("h" * 20000, True)])
    return None, None


def run_file(kind, param, ctx):
    label, vk, multi = KINDS[kind][2][param]
    rng = ctx.rng
    for _ in range(3):
        v, ok = fringe_value(rng, kind, param, vk)
        if v is None:
            return
        b = Base(ctx)
        kw = {}
        if multi:
            val = [v] * rng.choice([1, 1, 2])
        else:
            val = v
        if kind == "origin":
            kw = {"origin_reference": 5}
            if param != "file_set_number":
                kw["file_set_number"] = 2
        if kind == "frame":
            kw["channels"] = [b.p.add(b.lf, "channel", "FC", data=np.arange(2, dtype="uint8"))]
        if kind == "channel" and param in ("dimension", "element_limit"):
            kw["dataset_name"] = "none"
        later = rng.random() < 0.5 and kind not in ("origin",)
        if not later:
            kw[param] = val
        o = b.p.add(b.lf, kind, "OBJ", **kw)
        if later:
            b.p.set(o, param, val)
        if (kind, param) in CONSTRAINED or vk == "dim":
            ok = None if ok else ok
        try:
            w = work.write_program(b.p, ctx, parse=False)
        except Exception as e:
            ctx.count("refused")
            if ok:
                raise Violation(f"refused.{vk}", f"{kind}.{param} = {show(val)} was refused: {e!r}")
            continue
        if ok is False:
            raise Violation(f"wrapped.{vk}", f"{kind}.{param} = {show(val)} cannot be represented, but a file was written")
        w.dlis = rp66.parse(w.raw)
        work.compare(w)
        ctx.count("reached")


def run_fringe(ctx):
    """Names, set names, units, header fields and origins on both sides of their limits."""
    rng = ctx.rng
    b = Base(ctx)
    p, lf = b.p, b.lf
    ok = True
    what = rng.choice(["name", "set_name", "units", "origin", "attr_units", "channel_units"])
    n = rng.choice([1, 2, 127, 128, 129, 192, 254, 255, 256, 257, 300, 400, 512, 16384])
    t = "".join(rng.choices(gen.ASCII_PRINT, k=n))
    good = n <= 255
    if rng.random() < 0.25:
        t, good = t[:-1] + rng.choice("é°\u2126\x80"), False
    kind = rng.choice([k for k in KINDS if k not in ("origin", "frame")])
    if what == "name":
        p.add(lf, kind, t)
        ok = good
    elif what == "set_name":
        p.add(lf, kind, "OBJ", set_name=t)
        ok = good
    elif what == "attr_units":
        p.add(lf, "equipment", "E", length=spec.Setup(1.5, t, as_dict=rng.random() < .5))
        ok = good
    elif what == "units":
        o = p.add(lf, "axis", "A", spacing=2)
        p.set(o, "spacing", t, "units")
        ok = good
    elif what == "channel_units":
        p.add(lf, "channel", "CU", units=t, data=np.arange(2, dtype="uint8"))
        ok = good
    else:
        ref = rng.choice([0, 1, 127, 128, 16383, 16384, 2 ** 30 - 1, 2 ** 30, 2 ** 30 + 1, 2 ** 31, 2 ** 32, -1, -128, 2 ** 64])
        ok = 0 <= ref < 2 ** 30
        if rng.random() < 0.6:
            p.ops = [op for op in p.ops if not (op[0] == "add" and op[3] == "origin")]
            p.ops.insert(1, ("add", lf, "o1", "origin", "ORIGIN", {"file_set_number": 1, "origin_reference": ref}))
        else:
            p.add(lf, "origin", "SECOND", origin_reference=ref, file_set_number=2)
            if ref == 0:
                return
            p.add(lf, kind, "WITH", origin_reference=ref)
        t = ref
    try:
        w = work.write_program(p, ctx, parse=False)
    except Exception as e:
        ctx.count("refused")
        if ok:
            raise Violation("refused." + what, f"{kind} {what} {show(t)}: {e!r}")
        return
    if not ok:
        raise Violation("wrapped." + what, f"{kind} {what} {show(t)} cannot be represented, but a file was written")
    w.dlis = rp66.parse(w.raw)
    work.compare(w)
    ctx.count("reached")


def run_case(case, ctx):
    rng = ctx.rng
    kind = case[0]
    ctx.count("executions")
    if kind == "int":
        for v in int_values(rng, case[1], 150) + int_foreign(rng, case[1]):
            check_int(ctx, case[1], v)
    elif kind == "exhaust":
        run_exhaust(ctx, *case[1:])
    elif kind == "float":
        for v in float_values(rng, case[1], 300):
            check_float(ctx, case[1], v)
    elif kind == "text":
        for v in text_values(rng, case[1]):
            check_text(ctx, case[1], v)
    elif kind == "dtime":
        ctx.sample(f"time zone {ctx.zone}: " + ", ".join(v.isoformat() for v in dtime_values(random.Random(1), 5)[:5]))
        for v in dtime_values(rng, 400):
            check_dtime(ctx, v)
        for v in [None, "2020/01/01 00:00:00", 5, 1.5, np.datetime64("2020-01-01")]:
            if encode(ctx, "DTIME", v) is not None:
                raise Violation("wrapped.DTIME", f"DTIME of {v!r} was encoded")
    elif kind == "status":
        for v in list(range(-300, 600)) + [True, False, 0.5, 1.0, 0.0, "1", "0", None, b"\x01", 2 ** 40, math.nan, np.int8(1)]:
            check_status(ctx, v)
    elif kind == "order":
        run_order(ctx)
    elif kind == "name":
        run_name(ctx)
    elif kind == "copies":
        run_copies(case[1], ctx)
    elif kind == "file":
        run_file(case[1], case[2], ctx)
    else:
        run_fringe(ctx)
