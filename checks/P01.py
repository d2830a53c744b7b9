from hypothesis import strategies as st
from vf import models, repo, telem
from vf.core import Target, check

RULE = ("Raw field values for each of the three formats (edges and impossible values of time and coordinates over-represented), assembled into a packet by "
        "an independent model and given a good checksum, with a generated payload list that knows the payload number or not. Non-trivial: the packet is "
        "valid and at least three of its numeric fields are not zero, or it must be rejected.")
ASSUMPTIONS = ["a packet that by coincidence also has a valid leading checksum is read as version 3 and is set aside",
               "callsigns in the payload list are printable ASCII without commas, $ or *",
               "a time of 43200 double seconds in a 16-byte packet means midnight"]
D = P = None


def setup():
    global D, P
    repo.setup()
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    D, P = D_, P_


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(["v1", "v2s", "v2", "v2"]))
    c = {"fmt": fmt, "f": draw(telem.fields(fmt)), "known": draw(st.integers(0, 3)) > 0, "call": draw(telem.callsigns())}
    c["others"] = draw(st.lists(st.tuples(st.integers(-1, 1), telem.callsigns()), max_size=2))
    return c


CUSTOM = {"4FSKTEST-V2": {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"],
                                                          ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}}


def run(c, rec):
    f, fmt = c["f"], c["fmt"]
    lst = {f["id"] + d * 256: s for d, s in c["others"] if d}      # numbers that differ only in the high byte are other payloads
    lst[f["id"] + 1] = "NEIGHBOUR"
    if c["known"]:
        lst[f["id"]] = c["call"]
    P.HORUS_PAYLOAD_LIST = lst
    P.HORUS_CUSTOM_FIELDS = CUSTOM
    p = telem.packet(fmt, f)
    if "head" in models.crc_kind(p):
        rec.label("ambiguous")
        return
    want = telem.expected(fmt, f)
    try:
        got = D.decode_packet(p)
    except ValueError as e:
        check(want is None, lambda: "%s packet %s is rejected (%s) although it is valid: %s" % (fmt, p.hex(), e, want))
        rec.nontrivial()
        rec.label(fmt + " rejected")
        return
    check(want is not None, lambda: "%s packet %s has an impossible time or position but decodes to %s" % (fmt, p.hex(), {k: got.get(k) for k in ("time", "latitude", "longitude")}))
    call = c["call"] if c["known"] else telem.UNKNOWN
    for k, v in (("payload_id", call), ("callsign", call), ("modulation", telem.MODULATION[fmt]), ("raw", p.hex().upper()), ("crc_ok", True), ("time", want.pop("time"))):
        check(got.get(k) == v, lambda: "%s packet %s: %s is %r, expected %r" % (fmt, p.hex(), k, got.get(k), v))
    for k, v in want.items():
        check(k in got and telem.near(got[k], v), lambda: "%s packet %s: %s is %r, expected %r" % (fmt, p.hex(), k, got.get(k), v))
        if isinstance(v, int):
            check(type(got[k]) is int, lambda: "%s packet %s: %s is %r, not an integer" % (fmt, p.hex(), k, got[k]))
    for k in ("speed", "satellites", "temperature"):
        check((k in got) == (k in want), lambda: "%s packet %s: %s should not be reported: %r" % (fmt, p.hex(), k, got[k]))
    rec.nontrivial(sum(1 for v in want.values() if v) >= 3)
    rec.label(fmt + (" known" if c["known"] else " unknown"))


def targets():
    return [Target("decode", case(), run, quick=16000, thorough=400000, setup=setup)]
