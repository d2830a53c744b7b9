import copy, datetime, json, math
from hypothesis import strategies as st
from vf import clock, models, repo, telem, v3
from vf.core import Target, check

RULE = ("One to three telemetry items, each from the real decoder run on a generated packet of any format (with generated custom field descriptions, floats that are no numbers included, and version 3 sensors) or "
        "sentence, annotated with generated statistics (invalid markers included), in a share of them without some of the optional entries or with a time that does not exist, converted with one set of receiver metadata at a system clock up to half a day off the payload's time (mostly within the three "
        "minutes, and around their end and midnight), with the time check on or off. Non-trivial: the item must not be uploaded, or carries custom fields or statistics.")
ASSUMPTIONS = ["custom fields are not named like the standard fields of the upload format",
               "telemetry without a complete position (version 3 payloads that do not know their altitude) is not fit for upload", "values that are not numbers (NaN, infinities) are left out"]
D = P = U = None
UTC = datetime.timezone.utc
COPY = {"speed": "speed", "satellites": "sats", "vel_h": "vel_h", "vel_v": "vel_v", "tone_spacing": "tone_spacing", "raw": "raw", "modulation": "modulation", "modulation_detail": "modulation_detail", "baud_rate": "baud_rate"}


def prepare():
    clock.prepare()


def setup():
    global D, P, U
    clock.setup()
    repo.setup()
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    import horusdemodlib.utils as U_
    D, P, U = D_, P_, U_


DESC = [("<hhBHxx", [("ascent_rate", "divide_by_100"), ("ext_temperature", "divide_by_10"), ("ext_humidity", "none"), ("ext_pressure", "divide_by_10")]),
        ("<ffb", [("field_a", "none"), ("field_b", "none"), ("field_c", "none")]), ("<df"[:2] + "B", [("big", "none"), ("small", "battery_5v_byte")]), ("<Bf4x", [("one", "none"), ("two", "none")]), ("<9x", [])]


@st.composite
def custom9(draw):
    return draw(st.one_of(st.binary(min_size=9, max_size=9).map(bytes.hex), st.sampled_from(["0000c07f0000c07f01", "0000807f000080ff00", "000000000000f87f00", "000000000000f0ff00", "010000c07f00000000"])))


@st.composite
def item(draw):
    k = draw(st.sampled_from(["v1", "v2s", "v2", "v2", "v3", "v3", "rtty"]))
    t = {"kind": k, "known": draw(st.integers(0, 5)) > 0, "call": draw(telem.callsigns())}
    if k == "v3":
        t["m"] = draw(v3.messages())
        if t["m"]["timeOfDaySeconds"] < 0:
            t["m"]["timeOfDaySeconds"] = 0
    elif k == "rtty":
        t["f"] = [draw(st.integers(0, 99999)), draw(st.integers(0, 86399)), draw(st.floats(-90, 90)), draw(st.floats(-180, 180)), draw(st.integers(0, 65535))]
    else:
        t["f"] = draw(telem.fields(k, True))
        if k == "v2":
            t["desc"] = draw(st.integers(0, len(DESC) - 1))
            t["f"]["custom"] = draw(custom9())
    a = {}
    for n, s in (("snr", st.one_of(st.floats(-40, 40), st.sampled_from([-999.0, -100.0, -99.9, 0, math.nan, math.inf]))), ("f_centre", st.one_of(st.floats(1e5, 1e9), st.integers(100, 10 ** 9))), ("tone_spacing", st.one_of(st.floats(10, 2000), st.integers(10, 2000))),
                 ("modulation_detail", st.text("abc V2", max_size=10)), ("baud_rate", st.sampled_from([50, 100, 100.0, 300])), ("vel_h", st.floats(0, 100)), ("vel_v", st.floats(-100, 100)), ("temperature", st.sampled_from([-273.15, -273.2, -300, -273.1, 20.5])), ("battery_voltage", st.sampled_from([-1, -1.0, 0, 0.0, 3.3]))):
        if draw(st.integers(0, 3 if n not in ("temperature", "battery_voltage") else 9)) == 0:
            a[n] = draw(s)
    t["notes"] = a
    if draw(st.integers(0, 5)) == 0:            # as another program may hand it over: without some of what is optional
        t["lost"] = draw(st.lists(st.sampled_from(OPTIONAL), min_size=1, max_size=4, unique=True))
    return t


OPTIONAL = ["modulation", "raw", "speed", "satellites", "temperature", "battery_voltage", "custom_field_names", "via", "a custom field", "modulation_detail"]


def annotate(o, t):
    """adds what the receiver measured, and drops what is lost"""
    o.update(t["notes"])
    for k in t.get("lost", []):
        if k == "a custom field":
            o["custom_field_names"] = ["never_sent"] + list(o.get("custom_field_names", []))
        else:
            o.pop(k, None)


META = ["software_name", "software_version", "uploader_callsign", "uploader_position", "uploader_radio", "uploader_antenna", "time_received"]


@st.composite
def case(draw):
    meta = None
    if draw(st.integers(0, 4)):
        meta = {k: ([draw(st.floats(-90, 90)), draw(st.floats(-180, 180)), draw(st.integers(0, 1000))] if k == "uploader_position" else draw(st.text(max_size=10))) for k in META if draw(st.integers(0, 4))}
    items = draw(st.lists(item(), min_size=1, max_size=3))
    if draw(st.integers(0, 9)) == 0:
        items[-1]["badtime"] = draw(st.sampled_from(["24:00:01", "25:00:00", "12:61:00", "12:00:99", "noon", "unknown"]))
    off = draw(st.one_of(st.integers(-180000, 180000), st.integers(-180000, 180000), st.sampled_from([0, 180000, -180000, 180001, -180001, 179999, -179999, 181000, -181000, 1]), st.integers(-400000, 400000), st.integers(-43200000, 43200000)))
    return {"items": items, "meta": meta, "day": draw(st.one_of(st.integers(16000, 30000), st.sampled_from([18992, 18993, 19782, 19783]))), "off": off, "check": draw(st.sampled_from([True, True, True, None, False]))}


def decode(t):
    """-> decoded telemetry"""
    k = t["kind"]
    P.HORUS_PAYLOAD_LIST = {}
    if k == "rtty":
        q, s, la, lo, al = t["f"]
        b = "%s,%d,%02d:%02d:%02d,%.6f,%.6f,%d" % (t["call"] if t["known"] else telem.UNKNOWN, q, s // 3600, s // 60 % 60, s % 60, la, lo, al)
        return D.parse_ukhas_string("$$" + b + "*%04X" % models.crc16(b.encode()))
    if k == "v3":
        m = dict(t["m"])
        b = bytes(repo.asn(D).encode("Telemetry", v3.to_py(m), check_constraints=True)) if any(s.get("values", [0])[0] == "horusStr" for s in m.get("extraSensors", [])) else v3.encode(m)
        repo.forget(D)
        return D.decode_packet(models.with_crc_head(b))
    if t["known"]:
        P.HORUS_PAYLOAD_LIST = {t["f"]["id"]: t["call"]}
    if k == "v2":
        s, f = DESC[t["desc"]]
        P.HORUS_CUSTOM_FIELDS = {"4FSKTEST-V2": {"struct": s, "fields": [list(x) for x in f]}}
    b = telem.packet(k, t["f"])
    return None if "head" in models.crc_kind(b) else D.decode_packet(b)


def number(v):
    return not (isinstance(v, float) and not math.isfinite(v))


def expected(o, meta, now, want_check):
    """what is to be uploaded, without the date; None when nothing"""
    if o.get("via", "sondehub") != "sondehub" or o["callsign"] == telem.UNKNOWN or "altitude" not in o:
        return None
    h, m, s = map(int, o["time"].split(":"))
    d = abs((h * 3600 + m * 60 + s) * 1000000 - (now.hour * 3600 + now.minute * 60 + now.second) * 1000000 - now.microsecond) / 1e6
    d = min(d, 86400 - d)
    if want_check and d > 180:
        return None
    e = dict(meta or {})
    e.update(payload_callsign=o["callsign"], frame=o["sequence_number"], lat=o["latitude"], lon=o["longitude"], alt=o["altitude"])
    for k, n in COPY.items():
        if k in o:
            e[n] = o[k]
    if o.get("temperature", -1000) > -273.15:
        e["temp"] = o["temperature"]
    if o.get("battery_voltage", -1) >= 0:
        e["batt"] = o["battery_voltage"]
    if o.get("snr", -1000) > -100:
        e["snr"] = o["snr"]
    if "f_centre" in o:
        e["frequency"] = o["f_centre"] / 1e6
    for k in o.get("custom_field_names", []):
        if k in o:
            e[k] = o[k]
    return {k: v for k, v in e.items() if number(v)}, d


def eq(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and isinstance(a, bool) == isinstance(b, bool) and abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))
    return type(a) is type(b) and a == b


def run(c, rec):
    meta = copy.deepcopy(c["meta"])
    tod = None
    for t in c["items"]:
        o = decode(t)
        if o is None:
            continue
        annotate(o, t)
        h, m, s = map(int, o["time"].split(":"))
        pay = datetime.datetime(1970, 1, 1, h, m, s, tzinfo=UTC) + datetime.timedelta(days=c["day"])
        if tod is None:
            now = pay + datetime.timedelta(milliseconds=c["off"])       # the first item sets the clock, the others are then mostly far off it
            tod = True
        clock.set_ns(round((now - datetime.datetime(1970, 1, 1, tzinfo=UTC)).total_seconds() * 1000) * 1000000)
        if "badtime" in t:
            o["time"] = t["badtime"]
        before = repr(o)
        try:
            r = U.telem_to_sondehub(o, **dict({} if c["check"] is None else {"check_time": c["check"]}, **({} if meta is None and c["day"] % 2 else {"metadata": meta})))
        finally:
            clock.real()
        check(repr(o) == before, lambda: "the telemetry is changed from %s to %s" % (before, o))
        check(meta == c["meta"], lambda: "the receiver's details are changed from %s to %s" % (c["meta"], meta))
        e = None if "badtime" in t else expected(o, c["meta"], now, c["check"] is not False)
        what = "%s at %s (time check %s)" % (o, now, c["check"])
        if e is None:
            check(r is None, lambda: "%s must not be uploaded but gives %s" % (what, r))
            rec.nontrivial()
            rec.label("refused")
            continue
        check(isinstance(r, dict), lambda: "%s gives %r" % (what, r))
        e, d = e
        r = dict(r)
        dt = r.pop("datetime", None)
        check({k for k in r} == set(e), lambda: "%s gives the fields %s, expected %s" % (what, sorted(r), sorted(e)))
        check(all(eq(r[k], e[k]) for k in e), lambda: "%s gives %s, expected %s" % (what, r, e))
        check(dt is not None, lambda: "%s gives no date" % what)
        g = datetime.datetime.strptime(dt, "%Y-%m-%dT%H:%M:%S.%fZ").replace(tzinfo=UTC)
        check(g.strftime("%H:%M:%S") == o["time"] and g.microsecond == 0, lambda: "%s is dated %s" % (what, dt))
        if d <= 3600:
            check(abs((g - now).total_seconds()) <= d + 1e-3, lambda: "%s is dated %s" % (what, dt))
        try:
            back = json.loads(json.dumps(r, allow_nan=False))
        except (TypeError, ValueError) as x:
            check(False, lambda: "%s gives %s, which is not valid JSON (%s)" % (what, r, x))
        check(all(eq(back[k], r[k]) for k in r if not isinstance(r[k], (tuple, list))), lambda: "%s gives %s, which JSON changes" % (what, r))
        rec.nontrivial(bool(o.get("custom_field_names")) or bool(t["notes"]))
        rec.label(t["kind"], "uploaded")
    P.HORUS_PAYLOAD_LIST = {}


def targets():
    return [Target("convert", case(), run, quick=6000, thorough=200000, setup=setup)]
