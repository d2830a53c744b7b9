import datetime, math, struct
from hypothesis import strategies as st
from vf import models, repo, telem
from vf.core import Target, check

RULE = ("create: every argument given or left out, as whole or fractional numbers inside the field's range, at and just beyond its limits, and far outside up to the largest float; time given as "
        "a date or as three numbers (or only some of them); custom bytes of the right and of wrong sizes; legal and illegal payload numbers. wrap: the coding functions on payloads of any size. "
        "Non-trivial: at least two fields need clipping or rounding, or the payload number is refused (create); more than one codeword (wrap).")
ASSUMPTIONS = ["coordinates are numbers within +-180 degrees; nothing clips those",
               "whole-number fields drop a fraction, scaled fields are within half a step", "the sequence number counts modulo 65536"]
D = P = E = None
WHOLE = {"altitude": (0, 65535), "speed": (0, 255), "satellites": (0, 255), "temperature": (-128, 127), "ext_humidity": (0, 255)}
SCALED = {"battery_voltage": (0.0, 5.0, 51.0), "ascent_rate": (-327.68, 327.67, 100.0), "ext_temperature": (-3276.8, 3276.7, 10.0), "ext_pressure": (0.0, 6553.5, 10.0)}


def setup():
    global D, P, E
    repo.setup()
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    from horusdemodlib.encoder import Encoder
    D, P = D_, P_
    E = Encoder()
    P.HORUS_CUSTOM_FIELDS = {"4FSKTEST-V2": {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"],
                                                                             ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}}


def number(lo, hi, step=1):
    """numbers around a field's range, all finite"""
    ilo, ihi = int(math.floor(lo)), int(math.ceil(hi))
    n = round((hi - lo) / step)
    edges = [lo, hi, lo - step, hi + step, lo + step, hi - step, lo - step / 2, hi + step / 2, 0, 0.0, -0.0, 1, -1, 0.5, -0.5, lo * 2 - 1, hi * 2 + 1]
    return st.one_of(st.integers(ilo, ihi), st.integers(0, n).map(lambda k: lo + k * step), st.floats(lo, hi), st.floats(lo - 10 * step, hi + 10 * step), st.sampled_from(edges),
                     st.integers(-10 ** 6, 10 ** 6), st.integers(-10 ** 30, 10 ** 30), st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([1.7976931348623157e308, -1.7976931348623157e308, 5e-324]))


COORD = st.one_of(st.floats(-180, 180), st.integers(-180, 180), st.sampled_from([180.0, -180.0, 0.0, -0.0, 1e-40, 90]), st.integers(-1800000, 1800000).map(lambda v: v / 1e4))


@st.composite
def case(draw):
    a = {}
    opt = lambda k, s: a.__setitem__(k, draw(s)) if draw(st.integers(0, 4)) else None
    opt("payload_id", st.one_of(st.integers(256, 65535), st.integers(256, 65535), st.integers(256, 65535), st.sampled_from([256, 65535, 255, 65536, 0, 1, -1, 65792, -65280, 10 ** 20]), st.integers(-10 ** 6, 10 ** 6)))
    opt("sequence_number", st.one_of(st.integers(0, 65535), st.integers(0, 65535), st.sampled_from([65535, 65536, 65537, 131072, -1]), st.integers(0, 10 ** 12)))
    for k, (lo, hi) in WHOLE.items():
        opt(k, number(lo, hi))
    for k, (lo, hi, sc) in SCALED.items():
        opt(k, number(lo, hi, 1 / sc))
    for k in ("latitude", "longitude"):
        opt(k, COORD)
    t = draw(st.integers(0, 3))
    if t < 2:
        for k, hi in (("hours", 23), ("minutes", 59), ("seconds", 59)):
            if t == 0 or draw(st.booleans()):
                a[k] = draw(st.one_of(st.integers(0, hi), st.integers(0, hi), st.integers(0, hi).map(float), st.floats(0, hi), number(0, hi)))
    a["dt"] = draw(st.lists(st.integers(0, 10 ** 6), min_size=4, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        a["custom_data"] = draw(st.one_of(st.binary(min_size=9, max_size=9), st.binary(min_size=9, max_size=9), st.binary(max_size=20),
                                          st.sampled_from([bytes(9), b"\xff" * 9, b"\0" * 8 + b"\1", b"\1" + b"\0" * 8, b" " * 9, b"\0" * 8 + b"\n"]))).hex()
    return {"a": a}


def clip(v, lo, hi):
    return min(max(v, lo), hi)


def whole(got, v, lo, hi, k):
    w = clip(v, lo, hi)
    check(got == int(w), lambda: "%s %r is sent as %r" % (k, v, got))
    return v != w or w != int(w)


def run(c, rec):
    a = dict(c["a"])
    y, mo, d, s = a.pop("dt")
    dt = datetime.datetime(2000 + y % 60, 1 + mo % 12, 1 + d % 28, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=s % 86400, microseconds=y)
    custom = bytes.fromhex(a.pop("custom_data")) if "custom_data" in a else None
    kw = dict(a, time_dt=dt)
    if custom is not None:
        kw["custom_data"] = custom
    pid = a.get("payload_id", 256)
    P.HORUS_PAYLOAD_LIST = {pid: "MINE", pid + 1: "OTHER"}
    if not 256 <= pid <= 65535:
        for coded in (False, True):
            try:
                b = E.create_horus_v2_packet(return_uncoded=not coded, **kw)
            except ValueError:
                continue
            check(False, lambda: "payload number %d is accepted: %s" % (pid, b.hex()))
        rec.nontrivial()
        rec.label("refused")
        return
    b = E.create_horus_v2_packet(return_uncoded=True, **kw)
    check(type(b) is bytes and len(b) == 32, lambda: "the packet is %r" % (b,))
    kinds = models.crc_kind(b)
    check("tail" in kinds, lambda: "the checksum of %s is wrong" % b.hex())
    coded = E.create_horus_v2_packet(**kw)
    check(coded == models.l2_encode(b), lambda: "the coded form of %s is %s" % (b.hex(), coded.hex()))
    check(E.horus_l2_decode_packet(coded, 32) == b, lambda: "%s decodes to %s instead of %s" % (coded.hex(), E.horus_l2_decode_packet(coded, 32).hex(), b.hex()))
    rid, rseq, hh, mm, ss, lat, lon, alt, speed, sats, temp, batt, cust = struct.unpack("<HHBBBffHBBbB9s", b[:30])
    odd = 0
    check(rid == pid, lambda: "payload number %d is sent as %d" % (pid, rid))
    check(rseq == a.get("sequence_number", 0) % 65536, lambda: "sequence number %r is sent as %d" % (a.get("sequence_number", 0), rseq))
    if all(k in a for k in ("hours", "minutes", "seconds")):
        for k, g, hi in (("hours", hh, 23), ("minutes", mm, 59), ("seconds", ss, 59)):
            odd += whole(g, a[k], 0, hi, k)
        rec.label("separate time")
    else:
        check((hh, mm, ss) == (dt.hour, dt.minute, dt.second), lambda: "the time of %s is sent as %d:%d:%d" % (dt, hh, mm, ss))
        rec.label("date")
    for k, g in (("latitude", lat), ("longitude", lon)):
        w = struct.unpack("<f", struct.pack("<f", a.get(k, 0.0)))[0]
        check(g == w, lambda: "%s %r is sent as %r" % (k, a.get(k, 0.0), g))
    raws = {"altitude": alt, "speed": speed, "satellites": sats, "temperature": temp, "battery_voltage": batt}
    if custom is not None and len(custom) == 9:
        check(cust == custom, lambda: "custom bytes %s are sent as %s" % (custom.hex(), cust.hex()))
        rec.label("custom")
    else:
        raws["ascent_rate"], raws["ext_temperature"], raws["ext_humidity"], raws["ext_pressure"], rest = struct.unpack("<hhBH2s", cust)
        check(rest == b"\0\0", lambda: "unused custom bytes are %s" % rest.hex())
    for k, (lo, hi) in WHOLE.items():
        if k in raws:
            odd += whole(raws[k], a.get(k, 0), lo, hi, k)
    for k, (lo, hi, sc) in SCALED.items():
        if k in raws:
            w = clip(a.get(k, 0.0), lo, hi)
            check(abs(raws[k] - w * sc) <= 0.5 + 1e-6, lambda: "%s %r is sent as %d (%g)" % (k, a.get(k, 0.0), raws[k], raws[k] / sc))
            odd += w != a.get(k, 0.0) or abs(w * sc - round(w * sc)) > 1e-6
    if "head" not in kinds:
        o = D.decode_packet(b)
        check(o["payload_id"] == "MINE" and o["crc_ok"] is True and o["modulation"] == "Horus Binary v2", lambda: "%s decodes to %s" % (b.hex(), o))
        check((o["sequence_number"], o["time"], o["latitude"], o["longitude"]) == (rseq, "%02d:%02d:%02d" % (hh, mm, ss), lat, lon), lambda: "%s decodes to %s" % (b.hex(), o))
        for k, v in raws.items():
            sc = SCALED[k][2] if k in SCALED else 1
            check(telem.near(o.get(k), v / sc), lambda: "%s of %s decodes to %r" % (k, b.hex(), o.get(k)))
    rec.nontrivial(odd >= 2)
    rec.label("clipped%d" % min(odd, 4))


@st.composite
def payload(draw):
    n = draw(st.one_of(st.sampled_from([16, 22, 32, 48, 64, 96, 128]), st.integers(1, 128)))
    return {"p": draw(st.binary(min_size=n, max_size=n)).hex(), "err": draw(st.lists(st.integers(0, 3), min_size=1, max_size=40)), "at": draw(st.lists(st.integers(0, 22), min_size=3, max_size=60))}


def run_wrap(c, rec):
    p = bytes.fromhex(c["p"])
    n = len(p)
    check(E.get_num_tx_data_bytes(n) == models.tx_bytes(n), lambda: "%d bytes are said to need %d" % (n, E.get_num_tx_data_bytes(n)))
    r = E.horus_l2_encode_packet(p)
    check(r == (models.l2_encode(p), models.tx_bytes(n)), lambda: "%s is coded as %s" % (p.hex(), r))
    tx = bytearray(r[0])
    air = models.codeword_air_bits(n)
    for w, bits in enumerate(air):
        for j in range(c["err"][w % len(c["err"])]):
            k = bits[c["at"][(3 * w + j) % len(c["at"])] % len(bits)]
            tx[k // 8] ^= 128 >> k % 8
    g = E.horus_l2_decode_packet(bytes(tx), n)
    check(g == models.l2_decode(n, bytes(tx)) == p, lambda: "%s with errors, %s, decodes to %s" % (p.hex(), bytes(tx).hex(), g.hex()))
    rec.nontrivial(n > 1)
    rec.label("size%d" % (n // 16 * 16))


def targets():
    return [Target("create", case(), run, quick=8000, thorough=300000, setup=setup),
            Target("wrap", payload(), run_wrap, quick=1500, thorough=60000, setup=setup)]
