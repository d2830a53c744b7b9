import json, math, struct
from hypothesis import strategies as st
from vf import build, native, repo, v3
from vf.core import Target, check

RULE = ("encode: a message of the schema (every combination of optional fields, limits, edge integers and reals of every size, long texts and data), encoded by an independent packed encoder, by the "
        "native encoder (both of its entry points) and by the Python codec; all bytes must agree. cross: each codec decodes what the others produced, with and without zero padding, to the message. "
        "extend: the same with up to six unknown later extensions present or absent, and via. Non-trivial: at least three optional fields, or an extension, are present.")
ASSUMPTIONS = ["listed findings: the Python codec numbers the characters of text sensors within their alphabet where the native one (like the standard) sends their codes, so non-empty texts do not interoperate; "
               "the Python codec sends a leading zero octet before real mantissas whose top bit is set, and minus zero as zero, which both decode",
               "the native codec does not know via yet and must skip it"]
N = D = None


def prepare():
    build.asndrv("asan")


def setup():
    global N, D
    repo.setup()
    import horusdemodlib.decoder as D_
    D = D_
    N = native.Driver(build.asndrv("asan"))


def sensors(m, kind):
    return [s["values"][1] for s in m.get("extraSensors", []) if s.get("values", [0])[0] == kind]


def has_text(m):
    return any(sensors(m, "horusStr"))


def odd_real(v):
    """a value the Python codec is known to encode differently"""
    o = v3.real_octets(v)
    if o == b"\x43":
        return True
    return len(o) > 1 and o[2 + (o[0] & 3)] >= 0x80


def odd_reals(m):
    return any(odd_real(v) for x in sensors(m, "horusReal") for v in x)


def nat_encode(m, how=0):
    r = N.call(2, bytes([how]) + v3.to_native(m))
    bits = struct.unpack("<i", r[:4])[0]
    return None if bits < 0 else (bits, r[4:])


def nat_decode(b, how=0):
    """-> (message, constraints ok) or None"""
    r = N.call(1, bytes([how]) + b)
    code, used = struct.unpack("<iQ", r[:12])
    if code != 0:
        return None
    m, rest = v3.from_native(r[16:])
    return m, bool(struct.unpack("<i", r[12:16])[0])


def py_encode(m):
    return bytes(repo.asn(D).encode("Telemetry", v3.to_py(m), check_constraints=True))


def py_decode(b):
    return v3.from_py(repo.asn(D).decode("Telemetry", b, check_constraints=True))


def norm(m):
    return dict(m, via=v3.VIA.index(v3.VIA[m["via"]])) if "via" in m else m


def without_via(m):
    return {k: v for k, v in m.items() if k != "via"}


def note(m, rec):
    rec.nontrivial(sum(k in m for k in v3.OPT) >= 3)
    rec.label(*[k for k in v3.OPT + ["via"] if k in m])
    rec.label(*[s["values"][0] for s in m.get("extraSensors", []) if "values" in s])


@st.composite
def message(draw):
    return {"m": draw(v3.messages()), "pad": draw(st.one_of(st.just(0), st.integers(0, 64)))}


def run_encode(c, rec):
    m = norm(c["m"])
    want = v3.encode(m)
    text, odd = has_text(m), odd_reals(m)
    if "via" not in m:
        for how in (0, 1):
            e = nat_encode(m, how)
            check(e is not None, lambda: "the native encoder refuses %s" % m)
            check(e[1] == want, lambda: "native encoding %s, expected %s for %s" % (e[1].hex(), want.hex(), m))
        r = N.call(3, v3.to_native(m))
        check(r == struct.pack("<i", 1), lambda: "the native constraint check refuses %s" % m)
    b = py_encode(m)
    if not text and not odd and m.get("via", 0) < 2:
        check(b == want, lambda: "Python encoding %s, expected %s for %s" % (b.hex(), want.hex(), m))
    note(m, rec)


def run_cross(c, rec):
    m = norm(c["m"])
    pad = bytes(c["pad"])
    text = has_text(m)
    b = py_encode(m)
    got = py_decode(b + pad)
    check(v3.same(got, m), lambda: "Python encodes %s to %s and decodes that to %s" % (m, b.hex(), got))
    sources = [("independent", v3.encode(m))] if text else [("independent", v3.encode(m)), ("Python", b)]
    if "via" not in m:
        e = nat_encode(m)
        check(e is not None, lambda: "the native encoder refuses %s" % m)
        sources.append(("native", e[1]))
    for who, x in sources:
        for how in (0, 1, 2):
            d = nat_decode(x + pad, how)
            check(d is not None, lambda: "the native decoder (entry %d) refuses the %s encoding %s + %d zeros of %s" % (how, who, x.hex(), len(pad), m))
            check(v3.same(d[0], without_via(m)), lambda: "the native decoder gives %s for the %s encoding %s of %s" % (d[0], who, x.hex(), m))
            check(d[1], lambda: "the native constraint check refuses %s" % m)
        if not text:
            got = py_decode(x + pad)
            check(v3.same(got, m), lambda: "the Python decoder gives %s for the %s encoding %s + %d zeros of %s" % (got, who, x.hex(), len(pad), m))
    note(m, rec)
    rec.label("padded" if pad else "bare")


@st.composite
def extended(draw):
    return {"m": draw(v3.messages()), "ext": draw(st.lists(st.one_of(st.none(), st.binary(min_size=1, max_size=3).map(bytes.hex), st.binary(min_size=1, max_size=100).map(bytes.hex)), min_size=1, max_size=6)),
            "pad": draw(st.one_of(st.just(0), st.integers(0, 20)))}


def run_extended(c, rec):
    m = norm(c["m"])
    b = v3.encode(m, [None if x is None else bytes.fromhex(x) for x in c["ext"]]) + bytes(c["pad"])
    for how in (0, 1, 2):
        d = nat_decode(b, how)
        check(d is not None, lambda: "the native decoder (entry %d) refuses %s with later extensions %s: %s" % (how, m, c["ext"], b.hex()))
        check(v3.same(d[0], without_via(m)) and d[1], lambda: "the native decoder gives %s for %s with later extensions %s: %s" % (d[0], m, c["ext"], b.hex()))
    if not has_text(m):
        got = py_decode(b)
        check(v3.same(got, m), lambda: "the Python decoder gives %s for %s with later extensions %s: %s" % (got, m, c["ext"], b.hex()))
    note(m, rec)
    rec.nontrivial()
    rec.label("extensions%d" % sum(x is not None for x in c["ext"]))


def run_same(c, rec):
    """listed findings: bytes that differ between the codecs"""
    m = c["m"]
    n, p = nat_encode(m)[1], py_encode(m)
    check(n == p, lambda: "native %s, Python %s for %s" % (n.hex(), p.hex(), m))


def targets():
    return [Target("known_same", st.nothing(), run_same, quick=0, thorough=0, setup=setup),
            Target("encode", message(), run_encode, quick=6000, thorough=200000, setup=setup),
            Target("cross", message(), run_cross, quick=4000, thorough=120000, setup=setup),
            Target("extend", extended(), run_extended, quick=3000, thorough=100000, setup=setup)]
