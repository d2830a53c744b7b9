"""Independent model of the fixed packet formats and their text form, and generators for their fields."""
import math, struct
from hypothesis import strategies as st
from . import models

FORMATS = {"v1": 22, "v2s": 16, "v2": 32}
MODULATION = {"v1": "Horus Binary v1", "v2s": "Horus Binary v2", "v2": "Horus Binary v2"}
UNKNOWN = "UNKNOWN_PAYLOAD_ID"


def f32(bits):
    return struct.unpack(">f", struct.pack(">I", bits))[0]


def f32bits(v):
    return struct.unpack(">I", struct.pack(">f", v))[0]


def le(v, n):
    return bytes((v >> (8 * i)) & 255 for i in range(n))


def body(fmt, c):
    """the packet without its checksum, from raw field values (floats as their 32 bits)"""
    t = lambda v: v & 255
    if fmt == "v2s":
        return le(c["id"], 1) + le(c["seq"], 1) + le(c["bisec"], 2) + le(c["lat3"], 3) + le(c["lon3"], 3) + le(c["alt"], 2) + le(c["batt"], 1) + le(c["flags"], 1)
    if fmt == "v1":
        return (le(c["id"], 1) + le(c["seq"], 2) + bytes(c["hms"]) + le(c["lat"], 4) + le(c["lon"], 4) + le(c["alt"], 2)
                + le(c["speed"], 1) + le(c["sats"], 1) + le(t(c["temp"]), 1) + le(c["batt"], 1))
    return (le(c["id"], 2) + le(c["seq"], 2) + bytes(c["hms"]) + le(c["lat"], 4) + le(c["lon"], 4) + le(c["alt"], 2)
            + le(c["speed"], 1) + le(c["sats"], 1) + le(t(c["temp"]), 1) + le(c["batt"], 1) + bytes.fromhex(c["custom"]))


def packet(fmt, c):
    return models.with_crc_tail(body(fmt, c))


def coord3(v):
    """24-bit fixed point: the top bytes of a signed 32-bit count of 1e-7 degrees"""
    s = v - (1 << 24) if v >> 23 else v
    return s * 256 / 1e7


def expected(fmt, c):
    """dict of values, or None when the packet must be rejected (impossible time or coordinates)"""
    if fmt == "v2s":
        if c["bisec"] > 43200:
            return None
        s = (2 * c["bisec"]) % 86400
        hms = (s // 3600, s // 60 % 60, s % 60)
        lat, lon = coord3(c["lat3"]), coord3(c["lon3"])
    else:
        hms = tuple(c["hms"])
        if hms[0] > 23 or hms[1] > 59 or hms[2] > 59:
            return None
        lat, lon = f32(c["lat"]), f32(c["lon"])
    if not (abs(lat) <= 180.0 and abs(lon) <= 180.0):       # NaN is no coordinate either
        return None
    e = {"sequence_number": c["seq"], "time": "%02d:%02d:%02d" % hms, "latitude": lat, "longitude": lon, "altitude": c["alt"],
         "battery_voltage": c["batt"] / 51.0}
    if fmt == "v2s":
        e["flags"] = c["flags"]
    else:
        e.update({"speed": c["speed"], "satellites": c["sats"], "temperature": c["temp"]})
    return e


def near(a, b):
    return type(a) in (int, float) and not isinstance(a, bool) and math.isfinite(a) and abs(a - b) <= 1e-9 * max(1.0, abs(b))


# ---------------------------------------------------------------------------------------------- generators
_EDGE = [0.0, -0.0, 180.0, -180.0, 90.0, -90.0, 1e-45, -1e-45, 1e-7, 179.99999, 0.000005, -0.000005]


def _nextup(bits):
    return bits + 1


@st.composite
def coordbits(draw):
    """float32 bit patterns: mostly possible coordinates, and the edges around what is possible"""
    m = draw(st.integers(0, 19))
    if m < 10:
        return f32bits(draw(st.floats(-180, 180, width=32)))
    if m < 14:
        return f32bits(draw(st.integers(-18000000, 18000000)) / 1e5)
    if m == 14:
        return f32bits(draw(st.sampled_from(_EDGE)))
    if m == 15:
        return draw(st.sampled_from([f32bits(180.0) + 1, f32bits(-180.0) + 1, f32bits(180.0) - 1, f32bits(-180.0) - 1, 0x7F800000, 0xFF800000,
                                     0x7FC00000, 0xFFC00000, 0x7F800001, 0x7F7FFFFF, 0xFF7FFFFF]))
    if m == 16:
        return draw(st.integers(0, 0xFFFFFFFF))
    return f32bits(draw(st.floats(-90, 90, width=32)))


@st.composite
def coord24(draw):
    m = draw(st.integers(0, 9))
    lim = int(180e7) // 256
    if m < 6:
        v = draw(st.integers(-lim, lim))
    elif m == 6:
        v = draw(st.sampled_from([lim, lim + 1, -lim, -lim - 1, -lim - 2, 0, -1, 1, (1 << 23) - 1, -(1 << 23)]))
    elif m == 7:
        v = draw(st.integers(-(1 << 23), (1 << 23) - 1))
    else:
        v = draw(st.integers(-3000, 3000)) * draw(st.integers(0, 1000))
        v = max(-lim, min(lim, v))
    return v & 0xFFFFFF


@st.composite
def hms(draw, bad=True):
    h, m, s = draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59))
    k = draw(st.integers(0, 15)) if bad else 15
    if k == 0:
        h = draw(st.sampled_from([24, 25, 31, 128, 255]))
    elif k == 1:
        m = draw(st.sampled_from([60, 61, 128, 255]))
    elif k == 2:
        s = draw(st.sampled_from([60, 61, 128, 255]))
    elif k == 3:
        h, m, s = draw(st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255)))
    elif k == 4:
        h, m, s = draw(st.sampled_from([(23, 59, 59), (0, 0, 0), (12, 0, 0), (23, 0, 59)]))
    return [h, m, s]


def u(bits):
    top = (1 << bits) - 1
    return st.one_of(st.integers(0, top), st.sampled_from([0, 1, top, top - 1, top // 2, top // 2 + 1]))


@st.composite
def fields(draw, fmt, good=False):
    c = {}
    if fmt == "v2s":
        c.update(id=draw(u(8)), seq=draw(u(8)), alt=draw(u(16)), batt=draw(u(8)), flags=draw(u(8)))
        c["bisec"] = draw(st.one_of(st.integers(0, 43199), st.integers(0, 43199), st.integers(0, 43200) if good else u(16),
                                    st.sampled_from([43199, 43200, 0, 1] + ([] if good else [43201, 65535]))))
        lim = int(180e7) // 256
        c["lat3"], c["lon3"] = (draw(st.integers(-lim, lim)) & 0xFFFFFF, draw(st.integers(-lim, lim)) & 0xFFFFFF) if good else (draw(coord24()), draw(coord24()))
        return c
    c.update(id=draw(u(8) if fmt == "v1" else u(16)), seq=draw(u(16)), alt=draw(u(16)), speed=draw(u(8)), sats=draw(u(8)), batt=draw(u(8)))
    c["temp"] = draw(st.one_of(st.integers(-128, 127), st.sampled_from([-128, -127, -1, 0, 1, 127])))
    c["hms"] = draw(hms(not good))
    if good:
        c["lat"] = f32bits(draw(st.floats(-90, 90, width=32)))
        c["lon"] = f32bits(draw(st.floats(-180, 180, width=32)))
    else:
        c["lat"], c["lon"] = draw(coordbits()), draw(coordbits())
    if fmt == "v2":
        c["custom"] = draw(st.one_of(st.binary(min_size=9, max_size=9), st.binary(min_size=9, max_size=9), st.binary(min_size=9, max_size=9), st.sampled_from([bytes(9), b"\xff" * 9, b"\0" * 8 + b"\1", b"\1" + b"\0" * 8]))).hex()
    return c


CALL = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_/ abcdefghijklmnopqrstuvwxyz"


def callsigns():
    return st.one_of(st.text(CALL, min_size=1, max_size=15).map(str.strip).filter(bool), st.sampled_from(["HORUS", "VK5QI-9", "4FSKTEST", "4FSKTEST-V2", "HORUSTEST"]))
