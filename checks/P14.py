import json, math
from hypothesis import strategies as st
from checks import P12
from vf import clock, net, repo
from vf.core import Target, check

RULE = ("Sequences of one to three telemetry items, decoded by the real decoder from generated packets of every format and sentences with generated statistics added, or dictionaries with fields missing or of other types, "
        "sent as summary and as position line to generated ports, with the broadcast address reachable or not. Datagrams are recorded instead of sent. Non-trivial: a message was sent with an optional value, or one must not be sent.")
ASSUMPTIONS = ["custom fields are not named like the standard fields of the summary", "a position line for a position which is not a number is left open"]
H = None


def prepare():
    clock.prepare()


def setup():
    global H
    clock.setup()
    net.setup()
    P12.setup()
    import horusdemodlib.horusudp as H_
    H = H_


PORT = st.one_of(st.sampled_from([55672, 55683, 1, 65535, 1024]), st.integers(1, 65535))
VAL = st.one_of(st.none(), st.booleans(), st.integers(-10, 10), st.floats(), st.text(max_size=5), st.just([1]), st.just(10 ** 30), st.just("00:00:00"))


@st.composite
def case(draw):
    items = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 9))
        t = {"port": draw(PORT), "ozi": draw(PORT), "comment": draw(st.one_of(st.none(), st.text(max_size=12))), "fail": draw(st.sampled_from([None, None, "OSError", "PermissionError", "TimeoutError"]))}
        if k < 7:
            t["t"] = draw(P12.item())
        if k >= 6:
            # anything else
            t["raw"] = {n: draw(VAL) for n in ("callsign", "time", "latitude", "longitude", "altitude", "snr", "f_centre", "satellites", "battery_voltage", "speed") if draw(st.integers(0, 2))}
            if draw(st.booleans()):
                t["raw"]["custom_field_names"] = draw(st.one_of(st.lists(st.sampled_from(["a", "b", "snr"]), max_size=3), VAL))
                t["raw"]["a"] = draw(VAL)
        t["zero"] = draw(st.sampled_from([0, 0, 0, 0, 1, 1, 2, 3]))
        items.append(t)
    return {"items": items}


def summary(o, comment):
    """what the summary has to contain, None when it must not be sent"""
    if "altitude" not in o or (o["latitude"] == 0 and o["longitude"] == 0):
        return None
    e = {"type": "PAYLOAD_SUMMARY", "callsign": o["callsign"], "latitude": o["latitude"], "longitude": o["longitude"], "altitude": o["altitude"], "time": o["time"], "comment": "HorusDemodLib" if comment is None else comment,
         "heading": -1, "temp": -1, "speed": o.get("speed", -1), "sats": o.get("satellites", -1), "batt_voltage": o.get("battery_voltage", -1)}
    if "snr" in o:
        e["snr"] = o["snr"]
    if "f_centre" in o:
        e["frequency"] = o["f_centre"] / 1e6
    for k in o.get("custom_field_names", []):
        if k in o:
            e[k] = o[k]
    return {k: v for k, v in e.items() if P12.number(v)}


def send(f, *a, **k):
    net.datagrams.clear()
    net.udp["tries"] = []
    try:
        r = f(*a, **k)
    except Exception as x:
        check(False, lambda: "%s%r raises %r" % (f.__name__, a, x))
    return r, list(net.datagrams)


def run(c, rec):
    for t in c["items"]:
        net.udp["fail"] = {"OSError": OSError, "PermissionError": PermissionError, "TimeoutError": TimeoutError}.get(t["fail"])
        try:
            one(t, rec)
        finally:
            net.udp["fail"] = None


def one(t, rec):
    real = None
    if "t" in t:
        real = P12.decode(t["t"])
        if real is None:
            return
        P12.annotate(real, t["t"])
        if t["zero"] == 1:
            real.update(latitude=0.0, longitude=-0.0)
        elif t["zero"] > 1:
            real["latitude" if t["zero"] == 2 else "longitude"] = 0.0
    if "raw" in t:
        o = dict(t["raw"]) if real is None else dict(real, **t["raw"])
        p = o.copy()
        for f, port in ((H.send_payload_summary, t["port"]), (H.send_ozimux_message, t["ozi"])):
            r, d = send(f, o, port=port)
            check(len(d) <= 1, lambda: "%s sends %s for %s" % (f.__name__, d, p))
        rec.label("arbitrary")
        return
    o = real
    before = repr(o)
    want = summary(o, t["comment"])
    kw = {} if t["comment"] is None else {"comment": t["comment"]}
    dest = "127.0.0.1" if t["fail"] else "<broadcast>"
    if t["port"] % 3:
        kw["port"] = t["port"]
    r, d = send(H.send_payload_summary, o, **kw)
    port = kw.get("port", 55672)
    check(repr(o) == before, lambda: "the telemetry is changed from %s to %s" % (before, o))
    if want is None:
        check(not d, lambda: "%s must not be sent, but %s is" % (o, d))
        rec.nontrivial()
        rec.label("withheld")
    else:
        check(len(d) == 1, lambda: "%s sends the datagrams %s (%s)" % (o, d, net.udp["tries"]))
        check(d[0][2] == port and (d[0][1] in ("127.0.0.1", "localhost") if t["fail"] else d[0][1] in ("<broadcast>", "255.255.255.255")), lambda: "%s is sent to %s, expected port %d, %s" % (o, d[0][1:], port, dest))

        def no(x):
            raise ValueError(x)
        try:
            got = json.loads(d[0][0].decode("ascii"), parse_constant=no)
        except ValueError as x:
            check(False, lambda: "%s sends %s, which is not valid JSON (%s)" % (o, d[0][0], x))
        check(isinstance(got, dict) and set(got) == set(want), lambda: "%s sends %s, expected %s" % (o, got, want))
        check(all(P12.eq(got[k], want[k]) for k in want), lambda: "%s sends %s, expected %s" % (o, got, want))
        rec.nontrivial(bool(o.get("custom_field_names") or t["t"]["notes"]))
        rec.label("summary " + t["t"]["kind"])
    kw = {"port": t["ozi"]} if t["ozi"] % 3 else {}
    r, d = send(H.send_ozimux_message, o, **kw)
    check(repr(o) == before, lambda: "the telemetry is changed from %s to %s" % (before, o))
    if "altitude" not in o:
        check(not d, lambda: "%s sends %s" % (o, d))
        return
    if not all(math.isfinite(o[k]) for k in ("latitude", "longitude", "altitude")):
        return
    check(len(d) == 1 and d[0][2] == kw.get("port", 55683), lambda: "%s sends the position lines %s" % (o, d))
    check(d[0][1] in ("127.0.0.1", "localhost") if t["fail"] else d[0][1] in ("<broadcast>", "255.255.255.255"), lambda: "a position line is sent to %s" % (d[0][1:],))
    s = d[0][0].decode("ascii")
    check(r == s, lambda: "the line sent is %r, the one returned %r" % (s, r))
    check(s.endswith("\n") and s.count("\n") == 1, lambda: "the position line is %r" % s)
    p = s[:-1].split(",")
    check(len(p) == 5 and p[0] == "TELEMETRY" and p[1] == o["time"], lambda: "%s sends the position line %r" % (o, s))
    for x, k in ((p[2], "latitude"), (p[3], "longitude")):
        check("e" not in x.lower() and abs(float(x) - o[k]) <= 0.50001e-5, lambda: "%s sends the position line %r" % (o, s))
    check(float(p[4]) == o["altitude"], lambda: "%s sends the position line %r" % (o, s))
    rec.label("line")


def targets():
    return [Target("send", case(), run, quick=5000, thorough=150000, setup=setup)]
