import re, struct
from hypothesis import strategies as st
from vf import models, repo, telem, v3
from vf.core import Target, check

RULE = ("good: sentences with generated fields (both time styles, integer and decimal coordinates, 0 to 12 further fields, two to seven dollars, surrounding whitespace, text or bytes), which must be accepted with "
        "exactly their values. bad: the same with one field made unacceptable under a good checksum, with a wrong, cut or missing checksum, or edited anywhere. own: the sentence text of a generated valid "
        "fixed-format packet, which must be a correct sentence with the packet's values. Non-trivial: the sentence must be refused, or carries further fields (good), or at least three values are not zero (own).")
ASSUMPTIONS = ["left open (either answer is fine): lower-case checksums, text after a second *, fewer than two dollars, digits Python accepts that are not plain (underscores, spaces, other scripts), "
               "times with single digits, decimal altitudes that are whole", "a refusal is a ValueError"]
D = P = None


def setup():
    global D, P
    repo.setup()
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    D, P = D_, P_


def parse(s):
    try:
        return D.parse_ukhas_string(s)
    except ValueError:
        return None


TEXT = "".join(chr(i) for i in range(32, 127) if chr(i) not in "$*,")
CALL = st.one_of(telem.callsigns(), st.text(TEXT, min_size=1, max_size=15).filter(lambda s: s.strip()))
PLAIN = st.integers(0, 10 ** 6)


@st.composite
def coordinate(draw, lim):
    k = draw(st.integers(0, 4))
    v = draw(st.floats(-lim, lim))
    if k == 0:
        return str(draw(st.integers(-lim, lim)))
    s = "%.*f" % (draw(st.integers(1, 9)), v)
    return ("+" + s if k == 1 and s[0] != "-" else s)


@st.composite
def fields(draw):
    h, m, s = draw(st.one_of(st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)), st.sampled_from([(0, 0, 0), (23, 59, 59)])))
    colon = draw(st.booleans())
    f = [draw(CALL), str(draw(st.one_of(PLAIN, st.integers(0, 10 ** 12), st.sampled_from([0, 1, 65535, 65536])))), ("%02d:%02d:%02d" if colon else "%02d%02d%02d") % (h, m, s),
         draw(coordinate(90)), draw(coordinate(180)), str(draw(st.one_of(st.integers(0, 65535), st.sampled_from([0, 1, 65535]))))]
    more = draw(st.lists(st.one_of(st.text(TEXT, max_size=12), st.integers(-1000, 1000).map(str)), max_size=12))
    return f, "%02d:%02d:%02d" % (h, m, s), more


def sentence(f, dollars=2):
    body = ",".join(f)
    return "$" * dollars + body + "*%04X" % models.crc16(body.encode("latin1"))


WS = st.text(" \t\r\n", max_size=3)


@st.composite
def good(draw):
    f, t, more = draw(fields())
    return {"f": f, "time": t, "more": more, "dollars": draw(st.integers(2, 7)), "pre": draw(WS), "post": draw(WS), "bytes": draw(st.booleans())}


def run_good(c, rec):
    f = c["f"]
    s = sentence(f + c["more"], c["dollars"])
    text = c["pre"] + s + c["post"]
    o = parse(text.encode() if c["bytes"] else text)
    check(o is not None, lambda: "the good sentence %r is refused" % text)
    want = {"raw": s, "modulation": "RTTY", "callsign": f[0], "sequence_number": int(f[1]), "time": c["time"], "latitude": float(f[3]), "longitude": float(f[4]), "altitude": int(f[5])}
    check({k: o.get(k) for k in want} == want and all(type(o[k]) is type(want[k]) for k in want), lambda: "%r gives %r" % (text, o))
    rec.nontrivial(len(c["more"]) > 0)
    rec.label("colons" if ":" in f[2] else "plain time", "more%d" % min(len(c["more"]), 5))


BADNUM = ["", "x", "1.2.3", "--1", "1e", "0x10", "1,5", "one", "N", ".", "-", "+", "1 2"]
BAD = {0: ["", " ", "  "], 1: BADNUM + ["1.5", "1e3", "nan", "inf"], 2: ["", "24:00:00", "12:60:00", "12:00:60", "12:00:61", "12:00", "240000", "126000", "120060", "-1:00:00", "12:00:00:00", "aa:bb:cc", "12.00.00", "1200000", "12:00:0x"],
       3: BADNUM + ["nan", "NaN", "inf", "-inf", "infinity", "1e999", "-1e999", "nan(1)"], 4: BADNUM + ["nan", "-NAN", "Infinity", "+inf", "1e400"], 5: BADNUM + ["-1", "65536", "-65535", "70000", "1000000", "nan", "inf", "99999999999999999999", "123.5", "-0.5"]}


@st.composite
def bad(draw):
    f, t, more = draw(fields())
    c = {"f": f + more, "dollars": draw(st.integers(2, 7)), "how": draw(st.sampled_from(["field", "field", "field", "fields", "short", "crc", "edit", "edit", "cut", "nocrc", "junk", "swap", "stars"]))}
    how = c["how"]
    if how in ("field", "fields"):
        for i in [draw(st.integers(0, 5)) for _ in range(1 if how == "field" else 2)]:
            c["f"][i] = draw(st.sampled_from(BAD[i]))
    elif how == "short":
        c["f"] = c["f"][:draw(st.integers(0, 5))]
    elif how == "crc":
        c["x"] = draw(st.one_of(st.integers(1, 0xFFFF), st.integers(0, 15).map(lambda i: 1 << i)))
    elif how == "edit":
        c["edits"] = draw(st.lists(st.tuples(st.integers(0, 300), st.sampled_from(["flip", "del", "ins", "rep"]), st.integers(0, 127)), min_size=1, max_size=4))
    elif how == "cut":
        c["n"] = draw(st.integers(1, 60))
    elif how == "nocrc":
        c["tail"] = draw(st.sampled_from(["", "*", "*1", "*12", "*123", "*GHIJ", "*    ", "*-123", "*0x12", "**"]))
    elif how == "junk":
        c["text"] = draw(st.one_of(st.text(max_size=60), st.text("$*,:.0123456789ABCDEF", max_size=60)))
    elif how == "stars":
        c["tail"] = draw(st.one_of(st.text("0123456789ABCDEF", min_size=4, max_size=4), st.sampled_from(["", "0", "x", ",", "*"])))
    elif how == "swap":
        c["i"] = draw(st.integers(0, 30))
    c["bytes"] = draw(st.integers(0, 3)) == 0
    return c


def intact(s):
    """could any part of this be a sentence with a matching checksum?"""
    for i in [-1] + [m.start() for m in re.finditer(r"\$", s)]:
        for m in re.finditer(r"\*", s):
            if m.start() > i:
                try:
                    if "%04X" % models.crc16(s[i + 1:m.start()].encode("ascii")) == s[m.start() + 1:m.start() + 5].upper():
                        return True
                except UnicodeEncodeError:
                    pass
    return False


def run_bad(c, rec):
    how, f = c["how"], c["f"]
    s = sentence(f, c["dollars"])
    body = ",".join(f)
    refuse = None
    if how in ("field", "fields", "short"):
        refuse = True
        if how != "short" and "1,5" in f[:6]:
            refuse = None                                # the comma moves the fields
    elif how == "crc":
        s = "$$" + body + "*%04X" % (models.crc16(body.encode("latin1")) ^ c["x"])
    elif how == "edit":
        for p, k, ch in c["edits"]:
            p %= max(1, len(s))
            if k == "flip":
                s = s[:p] + chr((ord(s[p]) ^ 1 << ch % 7) if s else ch) + s[p + 1:]
            elif k == "del":
                s = s[:p] + s[p + 1:]
            elif k == "ins":
                s = s[:p] + chr(ch) + s[p:]
            else:
                s = s[:p] + chr(ch) + s[p + 1:]
    elif how == "cut":
        s = s[:-min(c["n"], len(s))]
    elif how == "nocrc":
        s = "$$" + body + c["tail"]
    elif how == "junk":
        s = c["text"]
    elif how == "stars":                                 # something comes between the text and its checksum
        s = "$$" + body + "*" + c["tail"] + "*%04X" % models.crc16(body.encode("latin1"))
    elif how == "swap":
        i = c["i"] % max(1, len(s) - 1)
        s = s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    if refuse is None:
        refuse = True if not intact(s) else None
    if c["bytes"]:
        try:
            given = s.encode("ascii")
        except UnicodeEncodeError:
            given = s.encode("utf-8")
    else:
        given = s
    o = parse(given)                                     # any other exception is a violation
    if refuse:
        check(o is None, lambda: "%r is accepted as %r" % (given, o))
        rec.nontrivial()
    rec.label(how, "must refuse" if refuse else "open", "refused" if o is None else "accepted")


@st.composite
def own(draw):
    fmt = draw(st.sampled_from(["v1", "v2s", "v2"]))
    return {"fmt": fmt, "f": draw(telem.fields(fmt, True)), "call": draw(st.one_of(st.none(), telem.callsigns())), "struct": draw(st.sampled_from(["<hhBHxx", "<Bf4x", "<BBBBBBBBB", "<bIi"]))}


def run_own(c, rec):
    f, fmt = c["f"], c["fmt"]
    b = telem.packet(fmt, f)
    if "head" in models.crc_kind(b):
        return
    P.HORUS_PAYLOAD_LIST = {} if c["call"] is None else {f["id"]: c["call"]}
    n = len(struct.unpack(c["struct"], bytes(9)))
    P.HORUS_CUSTOM_FIELDS = {"4FSKTEST-V2": {"struct": c["struct"], "fields": [["extra%d" % i, "none"] for i in range(n)]}}
    e = telem.expected(fmt, f)
    s = D.decode_packet(b)["ukhas_str"]
    m = re.fullmatch(r"\$\$([^$*]*)\*([0-9A-F]{4})", s)
    check(m is not None, lambda: "the sentence of %s is %r" % (b.hex(), s))
    check("%04X" % models.crc16(m.group(1).encode()) == m.group(2), lambda: "the checksum of %r is wrong" % s)
    o = parse(s)
    check(o is not None, lambda: "the sentence %r of %s is refused" % (s, b.hex()))
    call = telem.UNKNOWN if c["call"] is None else c["call"]
    check((o["callsign"], o["sequence_number"], o["time"], o["altitude"]) == (call, e["sequence_number"], e["time"], e["altitude"]), lambda: "the sentence %r of %s gives %s" % (s, b.hex(), o))
    check(all(abs(o[k] - e[k]) <= 0.5000001e-5 for k in ("latitude", "longitude")), lambda: "the sentence %r of %s gives %s" % (s, b.hex(), o))
    rest = m.group(1).split(",")[6:]
    want = [f["batt"] / 51.0, f["flags"]] if fmt == "v2s" else [f["speed"], f["sats"], f["temp"], f["batt"] / 51.0]
    check(len(rest) == len(want) + (n if fmt == "v2" else 0) and all(abs(float(x) - w) <= 0.00501 for x, w in zip(rest, want)), lambda: "the sentence %r of %s should go on with %s" % (s, b.hex(), want))
    rec.nontrivial(sum(bool(v) for v in e.values()) >= 4)
    rec.label(fmt)


def targets():
    return [Target("good", good(), run_good, quick=5000, thorough=250000, setup=setup),
            Target("bad", bad(), run_bad, quick=9000, thorough=400000, setup=setup),
            Target("own", own(), run_own, quick=4000, thorough=150000, setup=setup)]
