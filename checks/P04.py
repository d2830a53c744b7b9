import json, math
from hypothesis import strategies as st
from vf import clock, models, repo, v3
from vf.core import Target, check

RULE = ("message: a message of the schema with every combination of optional fields, limits and ordinary values, encoded by an independent encoder (or, with text sensors, by the Python codec), given a "
        "leading checksum and 0 to 40 bytes of zero padding; the output must hold exactly the fields sent, by name and unit. range: the same with one to three values moved "
        "outside the schema by the width their encoding has room for. Non-trivial: at least three optional fields are present, or a value is outside its range.")
ASSUMPTIONS = ["a sensor named count carrying text is set aside (its name in the output would be that of a counter)",
               "the raw sensor list, which the decoder passes on as extraSensors, is allowed next to the named values",
               "a time of day of -1 (unknown) may come out as the second before midnight (a listed finding); 86400 is midnight"]
D = A = None
META = {"packet_format", "crc_ok", "raw", "modulation", "ukhas_str", "custom_field_names", "extraSensors"}


def prepare():
    clock.prepare()


def setup():
    global D, A
    clock.setup()
    repo.setup()
    import asn1tools
    import horusdemodlib.decoder as D_
    D, A = D_, asn1tools


def expected(m):
    """-> (standard and other plain fields, extra fields) by output name"""
    f = {"payload_id": m["payloadCallsign"], "callsign": m["payloadCallsign"], "sequence_number": m["sequenceNumber"], "latitude": m["latitude"] / 1e5, "longitude": m["longitude"] / 1e5}
    t = m["timeOfDaySeconds"] % 86400
    f["time"] = "%02d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60)
    x = {}
    if m["altitudeMeters"] != -1000:
        f["altitude"] = m["altitudeMeters"]
    for k, n, d in (("velocityHorizontalKilometersPerHour", "speed", f), ("gnssSatellitesVisible", "satellites", f), ("humidityPercentage", "ext_humidity", x)):
        if k in m:
            d[n] = m[k]
    if "ascentRateCentimetersPerSecond" in m:
        x["ascent_rate"] = m["ascentRateCentimetersPerSecond"] / 100
    if "pressurehPa-x10" in m:
        x["ext_pressure"] = m["pressurehPa-x10"] / 10
    for k, n, d in (("internal", "temperature", f), ("external", "ext_temperature", x), ("custom1", "temperature_custom_1", x), ("custom2", "temperature_custom_2", x)):
        if k in m.get("temperatureCelsius-x10", {}):
            d[n] = m["temperatureCelsius-x10"][k] / 10
    for k, v in m.get("milliVolts", {}).items():
        (f if k == "battery" else x)[k + "_voltage"] = v / 1000
    if "gnssPowerSaveState" in m:
        x["gnss_power_save_state"] = v3.PSM[m["gnssPowerSaveState"]]
    for i, v in enumerate(m.get("counts", [])):
        x["count_%d" % i] = v
    if "customData" in m:
        x["custom_data"] = m["customData"]
    for i, s in enumerate(m.get("extraSensors", [])):
        n = s.get("name", "unknown")
        if "values" in s:
            k, v = s["values"]
            if k == "horusStr":
                x["%s_%d" % (n, i)] = v
            elif k == "horusBool":
                for j, b in enumerate(v):
                    x["%s_%d_b%d" % (n, i, j)] = bool(b)
            else:
                for j, y in enumerate(v):
                    x["%s_%d_%d" % (n, i, j)] = y
    if "via" in m:
        f["via"] = v3.VIA[m["via"]]
    return f, x


def near(a, b):
    if isinstance(b, float) or isinstance(a, float):
        if type(a) not in (int, float) or type(b) not in (int, float):
            return False
        return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def wire(m):
    if any(s.get("values", [0])[0] == "horusStr" for s in m.get("extraSensors", [])):
        return repo.asn(D).encode("Telemetry", v3.to_py(m), check_constraints=False)
    return v3.encode(m)


@st.composite
def message(draw):
    return {"m": draw(v3.messages()), "pad": draw(st.one_of(st.just(0), st.integers(0, 40))), "now": draw(st.one_of(st.integers(1600000000, 2000000000), st.integers(0, 20000).map(lambda d: d * 86400 + 86399)))}


def run_message(c, rec):
    m = c["m"]
    if any(s.get("name") == "count" and s.get("values", [0])[0] == "horusStr" for s in m.get("extraSensors", [])):
        return
    if len(m.get("extraSensors", [])) > 1 and len({(s.get("name", "unknown"), i) for i, s in enumerate(m["extraSensors"])}) < len(m["extraSensors"]):
        return
    repo.forget(D)
    clock.set(c["now"])
    p = models.with_crc_head(wire(m) + bytes(c["pad"]))
    try:
        got = D.decode_packet(p)
    except (ValueError, A.Error) as e:
        check(False, lambda: "a valid message is rejected (%r): %s, packet %s" % (e, m, p.hex()))
    f, x = expected(m)
    for k, v in list(f.items()) + list(x.items()):
        check(k in got, lambda: "%s is missing: sent %s" % (k, m))
        check(near(got[k], v), lambda: "%s is %r, expected %r: sent %s" % (k, got[k], v, m))
    more = set(got) - set(f) - set(x) - META
    check(not more, lambda: "fields that were not sent: %s, sent %s" % ({k: got[k] for k in more}, m))
    names = list(got.get("custom_field_names", ()))
    check(sorted(names) == sorted(x), lambda: "extra field names are %r, sent %r" % (names, sorted(x)))
    for k, v in (("modulation", "Horus Binary v3"), ("crc_ok", True), ("raw", p.hex().upper())):
        check(got.get(k) == v, lambda: "%s is %r" % (k, got.get(k)))
    check("extraSensors" not in got or "extraSensors" in m, "extraSensors although none were sent")
    d = json.loads(got["ukhas_str"])
    check(v3.same(v3.from_py(dict(d, **({"customData": bytes.fromhex(d["customData"])} if "customData" in d else {}))), dict(m, **({"via": v3.VIA.index(v3.VIA[m["via"]])} if "via" in m else {}))),
          lambda: "the text form %s is not the message %s" % (got["ukhas_str"], m))
    rec.nontrivial(sum(k in m for k in v3.OPT) >= 3)
    rec.label("padded" if c["pad"] else "bare", *[k for k in v3.OPT + ["via"] if k in m])
    rec.label(*[s["values"][0] for s in m.get("extraSensors", []) if "values" in s])


# what the packed form can hold beyond each range
ROOM = {"timeOfDaySeconds": (-1, 86400), "latitude": (-9000000, 9000000), "longitude": (-18000000, 18000000), "altitudeMeters": (-1000, 50000), "velocityHorizontalKilometersPerHour": (0, 512),
        "pressurehPa-x10": (0, 12000), "humidityPercentage": (0, 100), "ascentRateCentimetersPerSecond": (-32767, 32767), "temp": (-1023, 1023)}


@st.composite
def ranged(draw):
    m = draw(v3.messages(sensors=draw(st.integers(0, 3)) == 0))
    out = draw(st.lists(st.tuples(st.sampled_from(sorted(ROOM) + ["gnssPowerSaveState"]), st.integers(0, 1 << 30), st.integers(0, 1)), min_size=1, max_size=3))
    return {"m": m, "out": out, "tail": draw(st.integers(0, 20))}


def run_range(c, rec):
    m = json.loads(json.dumps(c["m"]))
    for k, n, edge in c["out"]:
        if k == "gnssPowerSaveState":
            m[k] = 6 + n % 2
            continue
        lo, hi = ROOM[k]
        cap = lo + (1 << (hi - lo).bit_length()) - 1
        v = hi + 1 if edge or cap <= hi else hi + 1 + n % (cap - hi)
        if k == "temp":
            m.setdefault("temperatureCelsius-x10", {})[v3.TEMPS[n % 4]] = v
            m["temperatureCelsius-x10"] = {t: m["temperatureCelsius-x10"][t] for t in v3.TEMPS if t in m["temperatureCelsius-x10"]}
        else:
            m[k] = v
    m = {k: m[k] for k in ["payloadCallsign"] + [r[0] for r in v3.REQ] + v3.OPT + ["via"] if k in m}
    check_in = v3.in_schema(m)
    assert not check_in
    repo.forget(D)
    p = models.with_crc_head(v3.encode(m) + bytes(c["tail"]))
    try:
        got = D.decode_packet(p)
    except (ValueError, A.Error):
        got = None
    check(got is None, lambda: "values outside the schema are reported: %s, sent %s" % ({k: v for k, v in got.items() if k not in META}, m))
    rec.nontrivial()
    rec.label(*{k for k, _, _ in c["out"]})


def run_unknown_time(c, rec):
    """a listed finding: the marker for an unknown time comes out as a time"""
    got = D.decode_packet(models.with_crc_head(v3.encode(c["m"])))
    check(c["m"]["timeOfDaySeconds"] != -1 or got.get("time") != "23:59:59", lambda: "a time of day of -1 (unknown) is reported as %r" % got.get("time"))


def targets():
    return [Target("unknown_time", st.nothing(), run_unknown_time, quick=0, thorough=0, setup=setup),
            Target("message", message(), run_message, quick=7000, thorough=250000, setup=setup),
            Target("range", ranged(), run_range, quick=3000, thorough=60000, setup=setup)]
