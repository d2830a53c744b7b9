"""Independent model of the version 3 message: its packed encoding, its native form, and what the decoder must report.

A message is a JSON-able dict with the schema's field names; customData is hex, sensor values are [kind, value]."""
import math, struct
from hypothesis import strategies as st

CALL = "".join(sorted("-/abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"))
NAME = "".join(sorted("abcdefghijklmnopqrstuvwxyz0123456789-"))
STR = "".join(sorted("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_ +/=-."))
PSM = ["psmNotActive", "enabled", "acquisition", "tracking", "optimised", "inactive"]
VIA = ["sondehub", "nohub", "unknown", "unknown", "unknown", "unknown", "unknown", "unknown"]
REQ = [("sequenceNumber", 0, 65535), ("timeOfDaySeconds", -1, 86400), ("latitude", -9000000, 9000000), ("longitude", -18000000, 18000000), ("altitudeMeters", -1000, 50000)]
OPT = ["extraSensors", "velocityHorizontalKilometersPerHour", "gnssSatellitesVisible", "ascentRateCentimetersPerSecond", "pressurehPa-x10",
       "temperatureCelsius-x10", "humidityPercentage", "milliVolts", "counts", "gnssPowerSaveState", "customData"]
RANGE = {"velocityHorizontalKilometersPerHour": (0, 512), "gnssSatellitesVisible": (0, 31), "ascentRateCentimetersPerSecond": (-32767, 32767),
         "pressurehPa-x10": (0, 12000), "humidityPercentage": (0, 100)}
TEMPS = ["internal", "external", "custom1", "custom2"]
VOLTS = ["battery", "solar", "custom1", "custom2"]
KINDS = ["horusStr", "horusInt", "horusReal", "horusBool"]


# ---------------------------------------------------------------------------------------------- packed encoding
class Bits:
    def __init__(self):
        self.s = []

    def put(self, v, n):
        assert 0 <= v < (1 << n)
        self.s.append(format(v, "0%db" % n) if n else "")

    def bytes(self):
        s = "".join(self.s)
        s += "0" * (-len(s) % 8)
        return int(s, 2).to_bytes(len(s) // 8, "big") if s else b"\0"


def _c(b, v, lo, hi):
    b.put(v - lo, (hi - lo).bit_length())


def int_octets(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return v.to_bytes(n, "big", signed=True)


def real_octets(v):
    """binary encoding with base 2, odd mantissa, shortest exponent (X.690 11.3)"""
    if v == 0:
        return b"\x43" if math.copysign(1, v) < 0 else b""
    if math.isnan(v):
        return b"\x42"
    if math.isinf(v):
        return b"\x40" if v > 0 else b"\x41"
    m, e = math.frexp(abs(v))
    m, e = int(math.ldexp(m, 53)), e - 53
    while m % 2 == 0:
        m //= 2
        e += 1
    eo = int_octets(e)
    return bytes([0x80 | (0x40 if v < 0 else 0) | (len(eo) - 1)]) + eo + m.to_bytes((m.bit_length() + 7) // 8, "big")


def _octets(b, o):
    assert len(o) < 128
    b.put(len(o), 8)
    for x in o:
        b.put(x, 8)


def _str(b, s, alpha, bits, lo, hi, raw=False):
    _c(b, len(s), lo, hi)
    for ch in s:
        b.put(ord(ch) if raw else alpha.index(ch), bits)


def encode(m, extensions=()):
    """extensions: further (unknown) additions as [present-bytes or None, ...], after via"""
    b = Bits()
    ext = ([bytes([m["via"] << 5])] if "via" in m else [None]) + [None if x is None else bytes(x) for x in extensions]
    while ext and ext[-1] is None:
        ext.pop()
    if extensions and len(ext) < 1 + len(extensions):
        ext += [None] * (1 + len(extensions) - len(ext))
    has = any(x is not None for x in ext)
    b.put(int(has), 1)
    for k in OPT:
        b.put(int(k in m), 1)
    _str(b, m["payloadCallsign"], CALL, 6, 1, 15)
    for k, lo, hi in REQ:
        _c(b, m[k], lo, hi)
    for k in OPT:
        if k not in m:
            continue
        v = m[k]
        if k in RANGE:
            _c(b, v, *RANGE[k])
        elif k == "extraSensors":
            _c(b, len(v), 1, 4)
            for s in v:
                b.put(int("name" in s), 1)
                b.put(int("values" in s), 1)
                if "name" in s:
                    _str(b, s["name"], NAME, 6, 1, 20)
                if "values" in s:
                    kind, x = s["values"]
                    b.put(KINDS.index(kind), 2)
                    if kind == "horusStr":
                        _str(b, x, STR, 7, 0, 255, raw=True)
                    elif kind == "horusBool":
                        for f in x:
                            b.put(int(f), 1)
                    else:
                        _c(b, len(x), 1, 4)
                        for y in x:
                            _octets(b, int_octets(y) if kind == "horusInt" else real_octets(y))
        elif k in ("temperatureCelsius-x10", "milliVolts"):
            names, lo, hi = (TEMPS, -1023, 1023) if k[0] == "t" else (VOLTS, 0, 16383)
            for n in names:
                b.put(int(n in v), 1)
            for n in names:
                if n in v:
                    _c(b, v[n], lo, hi)
        elif k == "counts":
            _c(b, len(v), 1, 8)
            for y in v:
                _octets(b, int_octets(y))
        elif k == "gnssPowerSaveState":
            b.put(v, 3)
        else:
            o = bytes.fromhex(v)
            b.put(len(o), 8)
            for x in o:
                b.put(x, 8)
    if has:
        b.put(0, 1)
        b.put(len(ext) - 1, 6)
        for x in ext:
            b.put(int(x is not None), 1)
        for x in ext:
            if x is not None:
                _octets(b, x)
    return b.bytes()


# ---------------------------------------------------------------------------------------------- forms
def to_py(m):
    """the form the Python codec takes"""
    d = dict(m)
    if "customData" in d:
        d["customData"] = bytes.fromhex(d["customData"])
    if "gnssPowerSaveState" in d:
        d["gnssPowerSaveState"] = PSM[d["gnssPowerSaveState"]]
    if "via" in d:
        d["via"] = VIA[d["via"]]
    if "extraSensors" in d:
        o = []
        for s in d["extraSensors"]:
            s = dict(s)
            if "values" in s:
                k, x = s["values"]
                s["values"] = (k, {"b%d" % i: bool(f) for i, f in enumerate(x)} if k == "horusBool" else x)
            o.append(s)
        d["extraSensors"] = o
    return d


def from_py(d):
    m = dict(d)
    if "customData" in m:
        m["customData"] = bytes(m["customData"]).hex()
    if "gnssPowerSaveState" in m:
        m["gnssPowerSaveState"] = PSM.index(m["gnssPowerSaveState"])
    if "via" in m:
        m["via"] = VIA.index(m["via"])
    if "extraSensors" in m:
        o = []
        for s in m["extraSensors"]:
            s = dict(s)
            if "values" in s:
                k, x = s["values"]
                s["values"] = [k, [x["b%d" % i] for i in range(8)] if k == "horusBool" else x]
            o.append(s)
        m["extraSensors"] = o
    return m


def to_native(m):
    o = []
    s = lambda b: o.append(struct.pack("<I", len(b)) + b)
    q = lambda v: o.append(struct.pack("<q", v))

    def opt(v):
        o.append(b"\0" if v is None else b"\1" + struct.pack("<q", v))

    s(m["payloadCallsign"].encode())
    for k, _, _ in REQ:
        q(m[k])
    if "extraSensors" in m:
        o.append(b"\1" + struct.pack("<I", len(m["extraSensors"])))
        for e in m["extraSensors"]:
            o.append(b"\1" if "name" in e else b"\0")
            if "name" in e:
                s(e["name"].encode())
            if "values" in e:
                k, x = e["values"]
                o.append(bytes([1, 1 + KINDS.index(k)]))
                if k == "horusStr":
                    s(x.encode())
                elif k == "horusBool":
                    o.append(bytes(int(f) for f in x))
                else:
                    o.append(struct.pack("<I", len(x)) + b"".join(struct.pack("<q" if k == "horusInt" else "<d", y) for y in x))
            else:
                o.append(b"\0")
    else:
        o.append(b"\0")
    for k in ("velocityHorizontalKilometersPerHour", "gnssSatellitesVisible", "ascentRateCentimetersPerSecond", "pressurehPa-x10"):
        opt(m.get(k))
    for k, names in (("temperatureCelsius-x10", TEMPS), ("humidityPercentage", None), ("milliVolts", VOLTS)):
        if names is None:
            opt(m.get(k))
        elif k in m:
            o.append(b"\1")
            for n in names:
                opt(m[k].get(n))
        else:
            o.append(b"\0")
    if "counts" in m:
        o.append(b"\1" + struct.pack("<I", len(m["counts"])) + b"".join(struct.pack("<q", y) for y in m["counts"]))
    else:
        o.append(b"\0")
    opt(m.get("gnssPowerSaveState"))
    if "customData" in m:
        o.append(b"\1")
        s(bytes.fromhex(m["customData"]))
    else:
        o.append(b"\0")
    return b"".join(o)


def from_native(b):
    """returns the message and the rest of the bytes"""
    p = 0

    def take(n):
        nonlocal p
        p += n
        return b[p - n:p]
    u32 = lambda: struct.unpack("<I", take(4))[0]
    q = lambda: struct.unpack("<q", take(8))[0]
    s = lambda: take(u32())
    m = {"payloadCallsign": s().decode("latin1")}
    for k, _, _ in REQ:
        m[k] = q()
    if take(1)[0]:
        l = []
        for _ in range(u32()):
            e = {}
            if take(1)[0]:
                e["name"] = s().decode("latin1")
            if take(1)[0]:
                k = take(1)[0]
                if k == 1:
                    e["values"] = ["horusStr", s().decode("latin1")]
                elif k == 2:
                    e["values"] = ["horusInt", [q() for _ in range(u32())]]
                elif k == 3:
                    e["values"] = ["horusReal", [struct.unpack("<d", take(8))[0] for _ in range(u32())]]
                elif k == 4:
                    e["values"] = ["horusBool", [bool(x) for x in take(8)]]
                else:
                    e["values"] = ["none", k]
            l.append(e)
        m["extraSensors"] = l
    for k in ("velocityHorizontalKilometersPerHour", "gnssSatellitesVisible", "ascentRateCentimetersPerSecond", "pressurehPa-x10"):
        if take(1)[0]:
            m[k] = q()
    for k, names in (("temperatureCelsius-x10", TEMPS), ("humidityPercentage", None), ("milliVolts", VOLTS)):
        if take(1)[0]:
            if names is None:
                m[k] = q()
            else:
                m[k] = {}
                for n in names:
                    if take(1)[0]:
                        m[k][n] = q()
    if take(1)[0]:
        m["counts"] = [q() for _ in range(u32())]
    if take(1)[0]:
        m["gnssPowerSaveState"] = q()
    if take(1)[0]:
        m["customData"] = s().hex()
    return m, b[p:]


def same(a, b):
    """equal messages; reals compare by value and sign"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return (math.isnan(a) and math.isnan(b)) or (a == b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def in_schema(m):
    """does the message satisfy every constraint of the schema"""
    ok = lambda s, a, lo, hi: lo <= len(s) <= hi and all(c in a for c in s)
    r = lambda v, lo, hi: isinstance(v, int) and lo <= v <= hi
    if not ok(m["payloadCallsign"], CALL, 1, 15) or not all(r(m[k], lo, hi) for k, lo, hi in REQ):
        return False
    for k, (lo, hi) in RANGE.items():
        if k in m and not r(m[k], lo, hi):
            return False
    for k, lo, hi in (("temperatureCelsius-x10", -1023, 1023), ("milliVolts", 0, 16383)):
        if k in m and not all(r(v, lo, hi) for v in m[k].values()):
            return False
    if "counts" in m and not 1 <= len(m["counts"]) <= 8:
        return False
    if "gnssPowerSaveState" in m and not r(m["gnssPowerSaveState"], 0, 5):
        return False
    if "customData" in m and len(m["customData"]) > 510:
        return False
    if "extraSensors" in m:
        if not 1 <= len(m["extraSensors"]) <= 4:
            return False
        for e in m["extraSensors"]:
            if "name" in e and not ok(e["name"], NAME, 1, 20):
                return False
            if "values" in e:
                k, x = e["values"]
                if k == "horusStr" and not ok(x, STR, 0, 255):
                    return False
                if k in ("horusInt", "horusReal") and not 1 <= len(x) <= 4:
                    return False
                if k == "none":
                    return False
    return True


# ---------------------------------------------------------------------------------------------- generators
def ranged(lo, hi):
    edges = sorted({lo, hi, max(lo, min(hi, 0)), max(lo, min(hi, 1)), max(lo, min(hi, -1)), lo + 1, hi - 1, (lo + hi) // 2})
    return st.one_of(st.integers(lo, hi), st.integers(lo, hi), st.sampled_from(edges))


def big(bits=63):
    return st.one_of(st.integers(-200, 200), st.integers(-(1 << 15), 1 << 15), st.integers(-(1 << 31), (1 << 31) - 1), st.integers(-(1 << bits), (1 << bits) - 1),
                     st.builds(lambda k, d, neg: max(-(1 << bits), min((1 << bits) - 1, (-1 if neg else 1) * (1 << min(8 * k - 1, bits)) + d)), st.integers(1, 8), st.integers(-2, 2), st.booleans()),
                     st.sampled_from([0, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << bits) - 1, -(1 << bits)]))


def _scaled(bits, m, e, neg):
    """an odd whole number of up to `bits` bits times a power of two"""
    m = (m & ((1 << bits) - 1)) | 1 | 1 << (bits - 1)
    v = math.ldexp(m, max(-1074, min(e, 1023 - bits)))
    return -v if neg else v


def scaled():
    """every length of mantissa, and exponents around the ends of their own lengths"""
    return st.builds(_scaled, st.integers(1, 53), st.integers(0, (1 << 53) - 1),
                     st.one_of(st.sampled_from([-129, -128, -127, -1, 0, 1, 126, 127, 128, 129, -1074, -1073, 970]), st.integers(-1074, 970)), st.booleans())


def reals(special=True):
    l = [scaled(), st.floats(allow_nan=False, allow_infinity=False), st.floats(-1e4, 1e4), st.floats(width=32, allow_nan=False, allow_infinity=False),
         st.integers(-10 ** 6, 10 ** 6).map(float), st.integers(-10 ** 5, 10 ** 5).map(lambda v: v / 100), st.sampled_from([0.0, 1.0, -1.0, 0.5, 1e-300, 5e-324, 1.7976931348623157e308, 256.0, 2.0 ** 52 + 1])]
    if special:
        l.append(st.sampled_from([-0.0, math.inf, -math.inf, math.nan]))
    return st.one_of(*l)


def text(alpha, lo, hi):
    return st.one_of(st.text(alpha, min_size=lo, max_size=min(hi, 12)), st.text(alpha, min_size=lo, max_size=hi))


@st.composite
def sensor(draw, special=True):
    s = {}
    k = draw(st.integers(0, 9))
    if k in (0, 1, 2, 3, 4, 9):
        s["name"] = draw(text(NAME, 1, 20))
    if k not in (8, 9):
        kind = draw(st.sampled_from(KINDS))
        if kind == "horusStr":
            s["values"] = [kind, draw(st.one_of(text(STR, 0, 12), text(STR, 0, 255)))]
        elif kind == "horusBool":
            s["values"] = [kind, draw(st.lists(st.booleans(), min_size=8, max_size=8))]
        else:
            s["values"] = [kind, draw(st.lists(big() if kind == "horusInt" else reals(special), min_size=1, max_size=4))]
    return s


@st.composite
def messages(draw, special=True, via=True, sensors=True):
    m = {"payloadCallsign": draw(text(CALL, 1, 15))}
    for k, lo, hi in REQ:
        m[k] = draw(ranged(lo, hi))
    mask = draw(st.one_of(st.integers(0, 2047), st.integers(0, 2047), st.sampled_from([0, 2047] + [1 << i for i in range(11)])))
    for i, k in enumerate(OPT):
        if not mask >> i & 1:
            continue
        if k in RANGE:
            m[k] = draw(ranged(*RANGE[k]))
        elif k == "extraSensors":
            if sensors:
                m[k] = draw(st.lists(sensor(special), min_size=1, max_size=4))
        elif k in ("temperatureCelsius-x10", "milliVolts"):
            names, lo, hi = (TEMPS, -1023, 1023) if k[0] == "t" else (VOLTS, 0, 16383)
            sub = draw(st.integers(0, 15))
            m[k] = {n: draw(ranged(lo, hi)) for j, n in enumerate(names) if sub >> j & 1}
        elif k == "counts":
            m[k] = draw(st.lists(big(), min_size=1, max_size=8))
        elif k == "gnssPowerSaveState":
            m[k] = draw(st.integers(0, 5))
        else:
            m[k] = draw(st.one_of(st.binary(max_size=12), st.binary(max_size=255))).hex()
    if via and draw(st.integers(0, 3)) == 0:
        m["via"] = draw(st.sampled_from([0, 1, 0, 1, 2, 5, 7]))
    return m
