import math, re, struct
from hypothesis import strategies as st
from vf import build, models, repo, telem
from vf.core import Target, check

RULE = ("A 32-byte packet of generated fields, a generated description of its nine user bytes for its callsign (or none, so the generated default applies) in every byte order and number "
        "type with every scaling, next to descriptions for other callsigns; one in three descriptions does not fit (wrong length, too few or many fields, a scaling that "
        "cannot take its type, an unknown scaling, or a value the scaling cannot take). A second target puts single values of any type through one scaling; a third decodes packets of the payloads described in the package itself, by the built-in descriptions or by the shipped file. Non-trivial: the description has at least two fields, or must be refused.")
ASSUMPTIONS = ["field names within a description are distinct and differ from the names of the standard fields",
               "numbers in the text are compared within half a unit of their last decimal", "a description that does not fit may raise any exception"]
D = P = None
SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8, "3s": 3, "x": 1, "?": 1, "c": 1, "2s": 2}
STD = {"payload_id", "callsign", "sequence_number", "time", "latitude", "longitude", "altitude", "speed", "satellites", "temperature", "battery_voltage", "checksum", "custom",
       "raw", "crc_ok", "packet_format", "modulation", "ukhas_str", "custom_field_names"}
INTS = "bBhHiIlLqQ"
SCALE = {"none": INTS + "efd", "divide_by_10": INTS, "divide_by_100": INTS, "battery_5v_byte": INTS, "payload_id": INTS, "time_biseconds": INTS, "degree_float": "efd",
         "time_hms": ["3s"], "degree_fixed3": ["3s"]}


def setup():
    global D, P
    repo.setup()
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    D, P = D_, P_


def align(order, off, size):
    return off if order in ("<", ">", "=", "!") else -off % size + off


@st.composite
def description(draw, bad):
    """a description of nine bytes: byte order, [code, name, scaling] with padding entries [x]"""
    order = draw(st.sampled_from(["<", "<", "<", ">", "!", "=", "", "@"]))
    items, off = [], 0
    while off < 9 and len(items) < 9:
        sc = draw(st.sampled_from(["none", "none", "divide_by_10", "divide_by_100", "battery_5v_byte", "degree_float", "time_biseconds", "payload_id", "time_hms", "degree_fixed3", None, "None", "pad"]))
        code = "x" if sc == "pad" else draw(st.sampled_from(list(SCALE["none" if sc in (None, "None") else sc])))
        a = align(order, off, SIZE[code] if code[-1] != "s" else 1)
        if order in ("", "@") and code in "lL":
            a = 99                                  # eight bytes there
        if a + SIZE[code] > 9:
            sc, code, a = draw(st.sampled_from(["pad", "none"])), None, off
            code = "x" if sc == "pad" else "B"
        off = a + SIZE[code]
        items.append([code, None, sc] if code != "x" else ["x"])
    while off < 9:
        items.append(["x"])
        off += 1
    names = draw(st.lists(st.one_of(st.sampled_from(["ascent_rate", "ext_temperature", "ext_humidity", "ext_pressure", "a", "b", "sats", "temp", "Field_1", "cust-x", "id"]),
                                    st.text("abcdefghijklmnop_0123456789", min_size=1, max_size=8)), min_size=12, max_size=12, unique=True))
    names = [n + "_" if n in STD else n for n in names]
    k = 0
    for i in items:
        if i[0] != "x":
            i[1] = names[k]
            k += 1
    d = {"order": order, "items": items, "bad": None}
    if bad:
        d["bad"] = draw(st.sampled_from(["long", "short", "few", "many", "kind", "unknown", "type"]))
        d["at"] = draw(st.integers(0, 8))
    return d


def spec(d):
    """the description as configured, and whether it fits"""
    items = [list(i) for i in d["items"]]
    fields = [i for i in items if i[0] != "x"]
    b = d["bad"]
    fits = True
    if b == "long":
        items.append(["x"])
        fits = False
    elif b == "short" and items[-1][0] == "x":
        items.pop()
        fits = False
    f = [[i[1], i[2]] for i in fields]
    if b == "few" and f:
        f.pop(d["at"] % len(f))
        fits = False
    elif b == "many":
        f.insert(d["at"] % (len(f) + 1), ["surplus", "none"])
        fits = False
    elif b == "unknown" and f:
        f[d["at"] % len(f)][1] = ["divide_by_1000", "", "NONE", "float", "payload-id"][d["at"] % 5]
        fits = False
    elif b in ("kind", "type") and f:
        i = d["at"] % len(f)
        code = fields[i][0]
        wrong = [s for s, c in SCALE.items() if code not in c]
        f[i][1] = wrong[d["at"] % len(wrong)]
        fits = False
    return {"struct": d["order"] + "".join(i[0] for i in items), "fields": f}, fits


def value(code, order, raw):
    if code[-1] == "s":
        return raw
    big = order in (">", "!")
    if code in "efd":
        return struct.unpack((">" if big else "<") + code, raw)[0]
    return int.from_bytes(raw, "big" if big else "little", signed=code.islower())


def scaled(sc, v, lst):
    """-> (value, decimals or None for exact text, text) or None when it cannot be"""
    if sc in ("none", "None", None):
        return (v, 6, None) if isinstance(v, float) else (v, None, str(v))
    if sc == "divide_by_10":
        return v / 10, 1, None
    if sc == "divide_by_100":
        return v / 100, 2, None
    if sc == "battery_5v_byte":
        return v * 5 / 255, 2, None
    if sc == "payload_id":
        s = lst.get(v, telem.UNKNOWN)
        return s, None, s
    if sc == "time_biseconds":
        if not 0 <= v <= 43200:
            return None
        s = 2 * v % 86400
        t = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
        return t, None, t
    if sc == "time_hms":
        if v[0] > 23 or v[1] > 59 or v[2] > 59:
            return None
        t = "%02d:%02d:%02d" % tuple(v)
        return t, None, t
    if sc == "degree_fixed3":
        v = int.from_bytes(v, "little", signed=True) * 256 / 1e7
    return (v, 5, None) if abs(v) <= 180 else None


@st.composite
def case(draw):
    c = {"f": draw(telem.fields("v2", True)), "call": draw(telem.callsigns()), "known": draw(st.integers(0, 4)) > 0, "own": draw(st.integers(0, 2)) > 0,
         "mine": draw(description(draw(st.integers(0, 2)) == 0)), "dflt": draw(description(draw(st.integers(0, 3)) == 0)), "other": draw(description(False))}
    # user bytes that suit times and coordinates now and then
    if draw(st.booleans()):
        c["f"]["custom"] = draw(st.lists(st.one_of(st.integers(0, 23), st.integers(0, 255)), min_size=9, max_size=9).map(lambda l: bytes(l).hex()))
    return c


def near(a, b):
    if isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and math.isnan(a)
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        return type(a) in (int, float) and (a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)))
    return type(a) is type(b) and a == b


def text_ok(t, v, dec, exact):
    if exact is not None:
        return t == exact
    if not math.isfinite(v):
        return t == str(float(v))
    if not re.fullmatch(r"-?\d+\.\d{%d}" % dec, t):
        return False
    return abs(float(t) - v) <= 0.5000001 * 10 ** -dec + 1e-12 * abs(v)


def run(c, rec):
    f = c["f"]
    name = "HORUS-4" if c["call"] == "4FSKTEST-V2" else c["call"]
    call = name if c["known"] else telem.UNKNOWN
    lst = {f["id"]: name} if c["known"] else {f["id"] ^ 1: name}
    mine, mfit = spec(c["mine"])
    dflt, dfit = spec(c["dflt"])
    other = spec(c["other"])[0]
    table = {name + "2": other, name[:-1] + "#": other, name.swapcase() + "~": other, "4FSKTEST-V2": dflt}
    if c["own"]:
        table[name] = mine
    own = c["own"] and c["known"]
    desc, fit, d = (mine, mfit, c["mine"]) if own else (dflt, dfit, c["dflt"])
    P.HORUS_PAYLOAD_LIST = lst
    P.HORUS_CUSTOM_FIELDS = table
    p = telem.packet("v2", f)
    if "head" in models.crc_kind(p):
        rec.label("ambiguous")
        return
    want, raw, off = [], bytes.fromhex(f["custom"]), 0
    for i in d["items"]:
        off = align(d["order"], off, 1 if i[0][-1] == "s" else SIZE[i[0]])
        n = SIZE[i[0]]
        if i[0] != "x" and fit:
            s = scaled(i[2], value(i[0], d["order"], raw[off:off + n]), lst)
            if s is None:
                fit = False
                rec.label("impossible_value")
            else:
                want.append((i[1],) + s)
        off += n
    who = "own" if own else "default"
    rec.label(who + (" fits" if fit else " refused"), d["bad"] or "good")
    try:
        got = D.decode_packet(p)
    except Exception as e:
        check(not fit, lambda: "the %s description %s with user bytes %s is refused: %r" % (who, desc, f["custom"], e))
        rec.nontrivial()
        return
    check(fit, lambda: "the %s description %s does not fit the user bytes %s but gives %s" % (who, desc, f["custom"], {n: got.get(n) for n, _ in desc["fields"]}))
    names = [w[0] for w in want]
    check(list(got.get("custom_field_names", ())) == names, lambda: "extra field names are %r, the description has %r" % (got.get("custom_field_names"), names))
    for n, v, dec, t in want:
        check(n in got and near(got[n], v), lambda: "%s of %s with user bytes %s is %r, expected %r" % (n, desc, f["custom"], got.get(n), v))
    for n, _ in mine["fields"] + dflt["fields"] + other["fields"]:
        check(n in names or n not in got, lambda: "%s is reported although the description in use (%s) does not have it" % (n, who))
    s = got.get("ukhas_str")
    m = re.fullmatch(r"\$\$(.*)\*([0-9A-F]{4})", s)
    check(m and models.crc16(m.group(1).encode()) == int(m.group(2), 16), lambda: "sentence %r has no good checksum" % s)
    w = m.group(1).split(",")
    e = telem.expected("v2", f)
    std = [(call, None, call), (f["seq"], None, str(f["seq"])), (0, None, e["time"]), (e["latitude"], 5, None), (e["longitude"], 5, None), (f["alt"], None, str(f["alt"])),
           (f["speed"], None, str(f["speed"])), (f["sats"], None, str(f["sats"])), (f["temp"], None, str(f["temp"])), (e["battery_voltage"], 2, None)]
    exp = std + [x[1:] for x in want]
    if not want:
        exp = exp + [(0, None, "")] * (len(w) == len(std) + 1)
    check(len(w) == len(exp) and all(text_ok(t, *x) for t, x in zip(w, exp)), lambda: "sentence %r does not give the values %s" % (s, [x[0] for x in exp]))
    rec.nontrivial(len(want) >= 2)
    rec.label(*{str(i[2]) for i in d["items"] if i[0] != "x"})


VALUES = st.one_of(st.integers(-2 ** 63, 2 ** 64 - 1), st.integers(-300, 300), st.floats(), st.floats(-200, 200), st.binary(max_size=5), st.binary(min_size=3, max_size=3),
                   st.tuples(st.integers(0, 24), st.integers(0, 60), st.integers(0, 60)).map(bytes),
                   st.lists(st.integers(0, 23), max_size=6).map(bytes), st.text(max_size=4), st.booleans(), st.none())


def enc(v):
    return {"b": v.hex()} if type(v) is bytes else v


def dec(v):
    return bytes.fromhex(v["b"]) if type(v) is dict else v


def one_field(c, rec):
    """one scaling on one unpacked value of any type"""
    sc, v = c["scaling"], dec(c["value"])
    L = D.horusdemodlib.delegates
    P.HORUS_PAYLOAD_LIST = lst = {c["id"]: "ONE", -5: "TWO"}
    kind = {int: "q", float: "d"}.get(type(v), "3s" if type(v) is bytes and len(v) == 3 else "?")
    want = None
    if sc in (None, "None", "none") and type(v) is str:
        want = (v, None, v)
    elif sc in (None, "None") or sc in SCALE:
        if kind in SCALE["none" if sc in (None, "None") else sc]:
            want = scaled(sc, v, lst)
    try:
        got = L.decode_field(sc, v)
    except Exception as e:
        check(want is None, lambda: "scaling %r refuses the value %r: %r" % (sc, v, e))
        rec.label("refused")
        return
    check(want is not None, lambda: "scaling %r of the value %r does not fit, but gives %r" % (sc, v, got))
    check(type(got) is tuple and len(got) == 2, lambda: "scaling %r of %r gives %r" % (sc, v, got))
    check(near(got[0], want[0]) and text_ok(got[1], *want), lambda: "scaling %r of %r gives %r, expected %r" % (sc, v, got, want))
    rec.nontrivial()
    rec.label(str(sc))


def field_case():
    return st.fixed_dictionaries({"scaling": st.sampled_from(list(SCALE) + [None, "None", "divide_by_1000", ""]), "value": VALUES.map(enc), "id": st.one_of(st.integers(0, 65535), st.integers(-300, 300))})


# ---------------------------------------------------------------- the descriptions that come with the package
SHIPPED = BUILTIN = None


def setup_shipped():
    global SHIPPED, BUILTIN
    import copy, json, os
    setup()
    with open(os.path.join(build.REPO, "custom_field_list.json")) as f:
        SHIPPED = json.load(f)
    for d in list(SHIPPED.values()):
        for n in d.get("other_payloads", ()):
            SHIPPED.setdefault(n, d)
    SHIPPED = {k: d for k, d in SHIPPED.items() if struct.calcsize(d["struct"]) == 9}
    BUILTIN = copy.deepcopy(P.HORUS_CUSTOM_FIELDS)


@st.composite
def shipped_case(draw):
    return {"f": draw(telem.fields("v2", True)), "who": draw(st.integers(0, 99)), "builtin": draw(st.booleans()), "known": draw(st.integers(0, 5)) > 0}


def run_shipped(c, rec):
    """packets of the payloads whose descriptions ship with the package, by the descriptions built in or by the shipped file loaded"""
    import copy, os
    if c["builtin"]:
        P.HORUS_CUSTOM_FIELDS = copy.deepcopy(BUILTIN)
        names = sorted(set(SHIPPED) & {"HORUSTEST", "HORUSTEST2", "4FSKTEST-V2"})
    else:
        P.HORUS_CUSTOM_FIELDS = P.read_custom_field_list(os.path.join(build.REPO, "custom_field_list.json"))
        names = sorted(SHIPPED)
    name = names[c["who"] % len(names)]
    f = c["f"]
    P.HORUS_PAYLOAD_LIST = {f["id"]: name} if c["known"] else {}
    p = telem.packet("v2", f)
    if "head" in models.crc_kind(p):
        return
    d = SHIPPED[name if c["known"] else "4FSKTEST-V2"]
    vals = struct.unpack(d["struct"], bytes.fromhex(f["custom"]))
    want = [scaled(t, v, P.HORUS_PAYLOAD_LIST) for (n, t), v in zip(d["fields"], vals)]
    try:
        got = D.decode_packet(p)
    except Exception as e:
        check(None in want, lambda: "user bytes %s of %s are refused: %r" % (f["custom"], name, e))
        return
    check(None not in want, lambda: "user bytes %s of %s do not fit but decode" % (f["custom"], name))
    check(list(got.get("custom_field_names", ())) == [n for n, _ in d["fields"]], lambda: "%s: extra field names are %r, the description has %r" % (name, got.get("custom_field_names"), d["fields"]))
    for (n, _), w in zip(d["fields"], want):
        check(n in got and near(got[n], w[0]), lambda: "%s: %s with user bytes %s is %r, expected %r" % (name, n, f["custom"], got.get(n), w[0]))
    rec.nontrivial(len(want) >= 2)
    rec.label("built in" if c["builtin"] else "file", "known" if c["known"] else "default")


def targets():
    return [Target("shipped", shipped_case(), run_shipped, quick=2000, thorough=60000, setup=setup_shipped),
            Target("field", field_case(), one_field, quick=6000, thorough=200000, setup=setup),
            Target("describe", case(), run, quick=8000, thorough=250000, setup=setup)]
