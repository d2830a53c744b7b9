from hypothesis import strategies as st
from checks import P04
from vf import models, repo, telem, v3
from vf.core import Target, check

RULE = ("Histories of 2 to 60 packets from one to eight payloads (some with names differing only in case or a suffix; in a share of them up to 80 payloads), each with one to four sensors whose name is present or not, "
        "values of every kind or none, mixed with fixed-format packets, damaged packets and packets outside the schema, which must teach nothing. fleet: up to 300 payloads that send their names once, up to 900 packets before they send values without names. The model holds the latest name per callsign and position. "
        "Non-trivial: at least two values arrive without a name after a name was learned, and at least two payloads or positions are in play.")
ASSUMPTIONS = ["the names live for the life of the process; each history starts with none", "sensors are not named count (such text values look like counters)"]
D = A = None


def setup():
    global D, A
    repo.setup()
    import asn1tools
    import horusdemodlib.decoder as D_
    D, A = D_, asn1tools
    P04.D, P04.A = D, A


CALLS = ["A", "a", "A-", "AB", "HORUS", "HORUS-V3", "horus-v3", "0"]
NAMES = ["a", "b", "temp", "temp2", "unknown", "x1", "radiation", "abcdefghijklmnopqrst", "1"]
VALUES = st.one_of(st.tuples(st.just("horusInt"), st.lists(st.integers(-1000, 100000), min_size=1, max_size=4)), st.tuples(st.just("horusReal"), st.lists(st.floats(-1e3, 1e3), min_size=1, max_size=4)),
                   st.tuples(st.just("horusBool"), st.lists(st.booleans(), min_size=8, max_size=8)), st.tuples(st.just("horusStr"), st.text("abc XYZ0", max_size=6)))


@st.composite
def packet(draw, calls):
    k = draw(st.integers(0, 15))
    if k == 0:
        return {"k": "fixed", "f": draw(telem.fields("v2", True))}
    s = []
    for _ in range(draw(st.integers(1, 4))):
        e = {}
        if draw(st.integers(0, 5)) < 2:
            e["name"] = draw(st.sampled_from(NAMES))
        if draw(st.integers(0, 7)):
            e["values"] = list(draw(VALUES))
        s.append(e)
    return {"k": "bad" if k == 1 else "range" if k == 2 else "v3", "call": draw(st.sampled_from(calls)), "s": s, "n": draw(st.integers(0, 65535))}


@st.composite
def history(draw):
    if draw(st.integers(0, 9)) == 0:
        calls = ["C%d" % i for i in range(draw(st.integers(10, 80)))]
    else:
        calls = draw(st.lists(st.sampled_from(CALLS), min_size=1, max_size=8, unique=True))
    return {"h": draw(st.lists(packet(calls), min_size=2, max_size=draw(st.sampled_from([6, 12, 60]))))}


def run(c, rec):
    repo.forget(D)
    known, used, where = {}, 0, set()
    for i, p in enumerate(c["h"]):
        if p["k"] == "fixed":
            b = telem.packet("v2", p["f"])
            try:
                D.decode_packet(b)
            except ValueError:
                pass
            continue
        m = {"payloadCallsign": p["call"], "sequenceNumber": p["n"], "timeOfDaySeconds": 5, "latitude": 1, "longitude": 2, "altitudeMeters": 3, "extraSensors": p["s"]}
        if p["k"] == "range":
            m["humidityPercentage"] = 101
            m["extraSensors"] = [e for e in p["s"] if e.get("values", [0])[0] != "horusStr"] or [{"name": "a"}]
        b = bytearray(models.with_crc_head(P04.wire(m)))
        if p["k"] == "bad":
            b[p["n"] % len(b)] ^= 1 + p["n"] % 255
        try:
            o = D.decode_packet(bytes(b))
        except (ValueError, A.Error):
            check(p["k"] != "v3", lambda: "packet %d, a valid one, is rejected: %s" % (i, m))
            continue
        if p["k"] != "v3":
            continue
        named = []
        for j, e in enumerate(p["s"]):
            if "name" in e:
                known[p["call"], j] = e["name"]
            elif "values" in e and (p["call"], j) in known:
                used += 1
            where.add((p["call"], j))
            named.append(dict(e, name=known.get((p["call"], j), "unknown")))
        want = P04.expected(dict(m, extraSensors=named))[1]
        got = {k: o.get(k) for k in o["custom_field_names"]}
        check(sorted(o["custom_field_names"]) == sorted(want), lambda: "packet %d of the history (%s) reports %s, expected %s" % (i, m, sorted(o["custom_field_names"]), sorted(want)))
        check(all(P04.near(got[k], want[k]) for k in want), lambda: "packet %d of the history (%s) reports %s, expected %s" % (i, m, got, want))
    rec.nontrivial(used >= 2 and len(where) >= 2)
    rec.label("payloads%d" % min(9, len({a for a, _ in where})), "remembered%d" % min(used, 20))


# ---------------------------------------------------------------- many payloads, each named once, long before its values
@st.composite
def fleet(draw):
    n = draw(st.sampled_from([3, 20, 33, 65, 101, 129, 257, 300]))
    return {"n": n, "names": draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5)), "per": draw(st.integers(1, 4)), "between": draw(st.integers(0, 3)),
            "step": draw(st.sampled_from([1, -1, 7])), "v": draw(st.lists(st.tuples(st.just("horusInt"), st.lists(st.integers(0, 1000), min_size=1, max_size=2)).map(list), min_size=1, max_size=3))}


def run_fleet(c, rec):
    n, h = c["n"], []
    sensors = lambda i, f: [f(i + j) for j in range(c["per"])]
    name = lambda k: c["names"][k % len(c["names"])]
    value = lambda k: c["v"][k % len(c["v"])]
    for i in range(n):
        h.append({"k": "v3", "call": "F%d" % i, "s": sensors(i, lambda k: {"name": name(k), "values": value(k)}), "n": i})
    for r in range(c["between"]):
        h += [{"k": "v3", "call": "F%d" % (n - 1), "s": sensors(r, lambda k: {"values": value(k)}), "n": i} for i in range(n)]
    h += [{"k": "v3", "call": "F%d" % (i * c["step"] % n), "s": sensors(i, lambda k: {"values": value(k)}), "n": i} for i in range(n)]
    run({"h": h}, rec)


def targets():
    return [Target("fleet", fleet(), run_fleet, quick=60, thorough=2500, setup=setup),
            Target("history", history(), run, quick=2500, thorough=80000, setup=setup)]
