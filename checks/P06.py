import os, struct
from hypothesis import strategies as st
from vf import build, fuzz, native, v3
from vf.core import Target, check

RULE = ("bytes: arbitrary bytes. mutated: the encoding of a generated message, with its extensions, after up to six generated bit-level edits (flips, inserted and deleted bits, length octets, cuts, "
        "splices with another message, long tails). cut: a valid encoding cut at every byte. Each is decoded through one of the three entry points under ASan+UBSan from a buffer of exactly its size "
        "that is freed before the message is used; the message is then checked, printed, written as XML, encoded again and freed, and the bytes allocated before and after are compared. "
        "fuzz: coverage-guided libFuzzer campaigns doing the same. Non-trivial: the input is not a valid message (mutated, bytes), or is a proper prefix of one (cut).")
ASSUMPTIONS = ["the default codec context (recursion limit) is used, as the programs using the codec do", "a message that breaks the schema's limits may decode; the constraint check is what tells",
               "NaN reals compare equal to each other"]
N = None
_base = 0


def prepare():
    build.asndrv("asan")
    build.fuzz_target("fuzz_asn", "asn")


def setup():
    global N
    N = native.Driver(build.asndrv("asan"))


def live():
    return struct.unpack("<Q", N.call(4, b""))[0]


def call(b, how):
    """-> code, bits used, constraints ok, message, new encoding or None"""
    before = live()
    r = N.call(1, bytes([how]) + b)
    after = live()
    if after > before:                          # once more: buffers of the driver and of the C library may have grown
        N.call(1, bytes([how]) + b)
        again = live()
        check(again <= after, lambda: "decoding %s (entry %d) leaves %d bytes allocated" % (b.hex(), how, again - after))
    code, used = struct.unpack("<iQ", r[:12])
    if code:
        return code, used, None, None, None
    ok = bool(struct.unpack("<i", r[12:16])[0])
    m, rest = v3.from_native(r[16:])
    n = struct.unpack("<i", rest[:4])[0]
    return code, used, ok, m, None if n < 0 else rest[4:4 + n]


def examine(b, how, rec):
    code, used, ok, m, new = call(b, how)
    if code:
        rec.label("refused")
        return None
    check(used <= 8 * len(b), lambda: "decoding %s (entry %d) uses %d of its %d bits" % (b.hex(), how, used, 8 * len(b)))
    check(ok == v3.in_schema(m), lambda: "the constraint check says %s for %s (decoded from %s)" % ("ok" if ok else "not ok", m, b.hex()))
    rec.label("decoded " + ("good" if ok else "out of limits"))
    if ok:
        check(new is not None, lambda: "the message %s decoded from %s satisfies the schema but cannot be encoded" % (m, b.hex()))
        for h in (0, 1, 2):
            c2, _, ok2, m2, new2 = call(new, h)
            check(c2 == 0, lambda: "%s decoded from %s encodes to %s, which does not decode (entry %d)" % (m, b.hex(), new.hex(), h))
            check(ok2 and v3.same(m, m2), lambda: "%s decoded from %s encodes to %s, which decodes to %s" % (m, b.hex(), new.hex(), m2))
            check(new2 == new, lambda: "%s encodes to %s and, decoded from that, to %s" % (m, new.hex(), new2 and new2.hex()))
    return m


@st.composite
def raw(draw):
    return {"b": draw(st.one_of(st.binary(max_size=40), st.binary(max_size=300))).hex(), "how": draw(st.integers(0, 2))}


def run_raw(c, rec):
    b = bytes.fromhex(c["b"])
    m = examine(b, c["how"], rec)
    rec.nontrivial(len(b) > 0)


@st.composite
def exts(draw):
    return draw(st.lists(st.one_of(st.none(), st.binary(min_size=1, max_size=20).map(bytes.hex)), max_size=5))


POS = st.integers(0, 4095)
EDIT = st.one_of(st.tuples(st.just("flip"), POS), st.tuples(st.just("flip"), st.integers(0, 140)), st.tuples(st.just("flip"), st.integers(0, 20)), st.tuples(st.just("del"), POS, st.integers(1, 40)),
                 st.tuples(st.just("ins"), POS, st.binary(min_size=1, max_size=8).map(bytes.hex)), st.tuples(st.just("set"), POS, st.sampled_from([0, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xc1, 0xc4, 0xc5, 0xff, 9, 10, 8])),
                 st.tuples(st.just("cut"), POS), st.tuples(st.just("tail"), st.sampled_from([1, 2, 9, 300, 16384, 40000, 70000]), st.integers(0, 255)), st.tuples(st.just("splice"), POS, POS))


@st.composite
def mutated(draw):
    return {"m": draw(v3.messages()), "ext": draw(exts()), "other": draw(v3.messages()), "edits": draw(st.lists(EDIT, min_size=1, max_size=6)), "how": draw(st.integers(0, 2))}


def bits(b):
    return "".join("{:08b}".format(x) for x in b)


def unbits(s):
    s += "0" * (-len(s) % 8)
    return int(s, 2).to_bytes(len(s) // 8, "big") if s else b""


def run_mutated(c, rec):
    src = v3.encode(c["m"], [None if x is None else bytes.fromhex(x) for x in c["ext"]])
    s, o = bits(src), None
    for e in c["edits"]:
        n, k = max(1, len(s)), e[0]
        p = e[1] % n if k != "tail" else 0
        if k == "flip" and s:
            s = s[:p] + ("1" if s[p] == "0" else "0") + s[p + 1:]
        elif k == "del":
            s = s[:p] + s[p + e[2]:]
        elif k == "ins":
            s = s[:p] + bits(bytes.fromhex(e[2])) + s[p:]
        elif k == "set":
            s = s[:p] + "{:08b}".format(e[2]) + s[p + 8:]
        elif k == "cut":
            s = s[:p]
        elif k == "tail":
            s += bits(bytes([e[2]]) * e[1])
        elif k == "splice":
            o = o or bits(v3.encode(c["other"]))
            s = s[:p] + o[e[2] % len(o):]
        rec.label(k)
    b = unbits(s)
    examine(b, c["how"], rec)
    rec.nontrivial(b != src)


@st.composite
def whole(draw):
    return {"m": draw(v3.messages()), "ext": draw(exts()), "how": draw(st.integers(0, 2))}


def run_cut(c, rec):
    b = v3.encode(c["m"], [None if x is None else bytes.fromhex(x) for x in c["ext"]])
    code, used, ok, m, new = call(b, c["how"])
    check(code == 0 and ok, lambda: "the valid message %s is refused (entry %d)" % (b.hex(), c["how"]))
    need = (used + 7) // 8 if c["how"] == 0 else used            # bits, or bytes from the entry points that count those
    check(need == len(b), lambda: "decoding %s (entry %d) uses %d bytes" % (b.hex(), c["how"], need))
    for n in range(len(b)):
        code, used, _, m, _ = call(b[:n], c["how"])
        check(code != 0, lambda: "the first %d of the %d bytes of %s decode to %s" % (n, len(b), b.hex(), m))
    rec.nontrivial()
    rec.extra(len(b))
    rec.label("entry%d" % c["how"])


def run_fuzz(c, rec):
    fuzz.campaign(build.fuzz_target("fuzz_asn", "asn"), c, rec, quick=20000, thorough=1500000, max_len=400, seeds=seeds)


def seeds():
    m = {"payloadCallsign": "AB-1", "sequenceNumber": 7, "timeOfDaySeconds": 3600, "latitude": 1, "longitude": -1, "altitudeMeters": 100}
    full = dict(m, **{"extraSensors": [{"name": "a", "values": ["horusInt", [1, -300]]}, {"values": ["horusReal", [1.5]]}, {"name": "c", "values": ["horusStr", "xy"]}, {"values": ["horusBool", [True] * 8]}],
                      "velocityHorizontalKilometersPerHour": 1, "gnssSatellitesVisible": 2, "ascentRateCentimetersPerSecond": 3, "pressurehPa-x10": 4, "temperatureCelsius-x10": {"internal": 1, "custom2": 2},
                      "humidityPercentage": 5, "milliVolts": {"battery": 1}, "counts": [1, 2], "gnssPowerSaveState": 1, "customData": "0102"})
    return [b"\0" + v3.encode(m), b"\1" + v3.encode(full), b"\2" + v3.encode(dict(full, via=1), [b"abcd", None, b"x"])]


def targets():
    return [Target("bytes", raw(), run_raw, quick=4000, thorough=200000, setup=setup),
            Target("mutated", mutated(), run_mutated, quick=6000, thorough=250000, setup=setup),
            Target("cut", whole(), run_cut, quick=400, thorough=15000, setup=setup),
            Target("fuzz", fuzz.case(), run_fuzz, quick=8, thorough=32, setup=setup)]
