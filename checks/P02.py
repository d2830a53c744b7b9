import copy
from hypothesis import strategies as st
from vf import gen, models, repo, telem, v3
from vf.core import Target, check

RULE = ("damage: a valid packet of a generated format with generated bit flips, bursts, truncation, extension, swapped or repeated bytes. forged: arbitrary bytes of 0 to 255 with no checksum, "
        "or with a good one at the head, the tail, both or over a part only. history: sequences of good and bad packets. options: an explicit format and ignore_crc. "
        "The independent checksum decides which of them may decode at all. Non-trivial: the bytes are not a packet of a known format with a good checksum, or the "
        "sequence holds at least three packets.")
ASSUMPTIONS = ["rejection means ValueError (which codec errors need not be derived from) or asn1tools.Error",
               "names remembered for sensors (P07) are cleared between compared runs, and the clock is only looked at to turn a time of day into text"]
D = P = A = None
FIX = {"horus_binary_v1": 22, "horus_binary_v2_16byte": 16, "horus_binary_v2_32byte": 32}
NAME = {22: "Horus Binary v1", 16: "Horus Binary v2", 32: "Horus Binary v2"}


def setup():
    global D, P, A
    repo.setup()
    import asn1tools
    import horusdemodlib.decoder as D_
    import horusdemodlib.payloads as P_
    D, P, A = D_, P_, asn1tools
    P.HORUS_PAYLOAD_LIST = {1: "ONE", 256: "TWO", 515: "THREE"}
    P.HORUS_CUSTOM_FIELDS = {"4FSKTEST-V2": {"struct": "<hhBHxx", "fields": [["ascent_rate", "divide_by_100"], ["ext_temperature", "divide_by_10"],
                                                                             ["ext_humidity", "none"], ["ext_pressure", "divide_by_10"]]}}


@st.composite
def good(draw):
    """hex of a valid packet"""
    k = draw(st.sampled_from(["v1", "v2s", "v2", "v3", "v3"]))
    if k == "v3":
        return models.with_crc_head(v3.encode(draw(v3.messages(sensors=False))) + bytes(draw(st.integers(0, 6)))).hex()
    return telem.packet(k, draw(telem.fields(k, True))).hex()


def decode(data, *a, **k):
    """-> output or None when rejected"""
    repo.forget(D)
    src = bytes(data)
    try:
        r = D.decode_packet(data, *a, **k)
    except (ValueError, A.Error):
        r = None
    check(bytes(data) == src, lambda: "decoding changed its input from %s to %s" % (src.hex(), bytes(data).hex()))
    return r


def verdict(b, rec):
    """decode, and require that what decodes verifies as what it is said to be"""
    kinds = models.crc_kind(b)
    fixed = "tail" in kinds and len(b) in NAME
    r = decode(b)
    head = "head" in kinds
    if r is None:
        rec.label("rejected")
    else:
        check(head or fixed, lambda: "%d bytes %s have no good checksum but decode as %s: %s" % (len(b), b.hex(), r.get("modulation"), r.get("ukhas_str")))
        check(r.get("crc_ok") is True, lambda: "%s decodes with crc_ok %r" % (b.hex(), r.get("crc_ok")))
        ok = {"Horus Binary v3"} if head else {NAME[len(b)]}
        check(r.get("modulation") in ok, lambda: "%d bytes %s with a good checksum at the %s decode as %r" % (len(b), b.hex(), "head" if head else "tail", r.get("modulation")))
        check(r.get("raw") == b.hex().upper(), lambda: "raw is %r for %s" % (r.get("raw"), b.hex()))
        rec.label("decoded " + r["modulation"])
    rec.nontrivial(not (head or fixed))
    return r


EDIT = st.one_of(st.tuples(st.just("flip"), st.integers(0, 2047)), st.tuples(st.just("flip"), st.integers(0, 2047)),
                 st.tuples(st.just("burst"), st.integers(0, 2047), st.integers(1, 0xFFFF)), st.tuples(st.just("byte"), st.integers(0, 255), st.integers(1, 255)),
                 st.tuples(st.just("cut"), st.integers(1, 30)), st.tuples(st.just("cuthead"), st.integers(1, 30)), st.tuples(st.just("add"), st.integers(1, 16), st.integers(0, 255)),
                 st.tuples(st.just("swap"), st.integers(0, 255)), st.tuples(st.just("rot"), st.integers(1, 31)), st.tuples(st.just("zerocrc"), st.integers(0, 3)),
                 st.tuples(st.just("swapcrc"), st.integers(0, 1)), st.tuples(st.just("wrongcrc"), st.integers(0, 1), st.integers(1, 0xFFFF)))


def edit(b, e):
    k = e[0]
    if k == "flip" and b:
        b[e[1] // 8 % len(b)] ^= 1 << e[1] % 8
    elif k == "burst" and b:
        for i in range(16):
            p = e[1] % (8 * len(b)) + i
            if e[2] >> i & 1 and p < 8 * len(b):
                b[p // 8] ^= 128 >> p % 8
    elif k == "byte" and b:
        b[e[1] % len(b)] ^= e[2]
    elif k == "cut":
        del b[max(0, len(b) - e[1]):]
    elif k == "cuthead":
        del b[:e[1]]
    elif k == "add":
        b += bytes([e[2]]) * e[1]
    elif k == "swap" and len(b) > 1:
        i = e[1] % (len(b) - 1)
        b[i], b[i + 1] = b[i + 1], b[i]
    elif k == "rot" and b:
        n = e[1] % len(b)
        b[:] = b[n:] + b[:n]
    elif k == "zerocrc":
        for i in ((0, 1) if e[1] & 1 else (-2, -1)):
            if len(b) > 1:
                b[i] = 0 if e[1] & 2 else 255
    elif k == "swapcrc" and len(b) > 1:
        i = 0 if e[1] else len(b) - 2
        b[i], b[i + 1] = b[i + 1], b[i]
    elif k == "wrongcrc" and len(b) > 2:
        i = 0 if e[1] else len(b) - 2
        b[i] ^= e[2] & 255
        b[i + 1] ^= e[2] >> 8


@st.composite
def damage(draw):
    return {"p": draw(good()), "edits": draw(st.lists(EDIT, min_size=1, max_size=3))}


def run_damage(c, rec):
    b = bytearray.fromhex(c["p"])
    for e in c["edits"]:
        edit(b, e)
        rec.label(e[0])
    verdict(bytes(b), rec)


@st.composite
def forged(draw):
    n = draw(st.one_of(st.sampled_from([0, 1, 2, 3, 4, 14, 15, 16, 17, 20, 21, 22, 23, 30, 31, 32, 33, 48, 64, 96, 128, 255]), st.integers(0, 255)))
    return {"n": n, "b": draw(gen.hexbytes(64)), "crc": draw(st.sampled_from(["none", "head", "head", "tail", "tail", "part", "short"])), "v3": draw(st.booleans()), "m": draw(v3.messages(sensors=True))
            if draw(st.integers(0, 3)) == 0 else None, "at": draw(st.integers(1, 40))}


def run_forged(c, rec):
    b = bytes.fromhex(c["b"])
    b = (b * (c["n"] // max(1, len(b)) + 1))[:c["n"]] if b else bytes(c["n"])
    if c["m"]:
        e = v3.encode(c["m"])                # a message with its end missing or changed
        b = e[:max(0, len(e) - c["at"])] + b[:c["at"] // 2]
    k = c["crc"]
    if k == "head":
        b = models.with_crc_head(b[:-2])
    elif k == "tail":
        b = models.with_crc_tail(b[:-2])
    elif k == "part" and len(b) > c["at"] + 2:      # a checksum over only a part of the packet, at either end
        b = models.with_crc_tail(b[:-2])[c["at"]:] if c["v3"] else b[:c["at"]] + models.with_crc_tail(b[c["at"]:-2])
    elif k == "short" and len(b) > c["at"] + 2:
        b = models.with_crc_head(b[2:-c["at"]]) + b[-c["at"]:]
    verdict(bytes(b), rec)
    rec.label(k)


@st.composite
def history(draw):
    return {"ps": draw(st.lists(st.tuples(good(), st.booleans(), st.integers(0, 2047)), min_size=2, max_size=6)), "order": draw(st.permutations(range(6)))}


def scribble(x):
    """change everything inside an output"""
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
        x["scribble"] = 1
        for k in list(x):
            if not isinstance(x[k], (dict, list)):
                x[k] = "scribble"
    elif isinstance(x, list):
        for y in x:
            scribble(y)
        x.append(["scribble", "none"])


def run_history(c, rec):
    before = copy.deepcopy((D.HORUS_PACKET_FORMATS, D.HORUS_LENGTH_TO_FORMAT, P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS))
    raw = []
    for p, bad, at in c["ps"]:
        b = bytearray.fromhex(p)
        if bad:
            b[at // 8 % len(b)] ^= 1 << at % 8
        raw.append(bytes(b))
    first = [decode(b) for b in raw]
    kept = copy.deepcopy(first)
    for i in [o for o in c["order"] if o < len(raw)]:
        again = decode(raw[i])
        check(repr(again) == repr(first[i]), lambda: "%s decodes to %s, and after other packets to %s" % (raw[i].hex(), first[i], again))
    check(repr(kept) == repr(first), lambda: "earlier results changed from %s to %s" % (kept, first))
    for r in first:
        scribble(r)
    for b, k in zip(raw, kept):
        again = decode(b)
        check(repr(again) == repr(k), lambda: "%s decodes to %s, and to %s after the caller changed earlier results" % (b.hex(), k, again))
    check((D.HORUS_PACKET_FORMATS, D.HORUS_LENGTH_TO_FORMAT, P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS) == before, "decoding changed the format or payload tables")
    rec.nontrivial(len(raw) >= 3)
    rec.label("%d packets" % len(raw), "%d rejected" % sum(k is None for k in kept))


@st.composite
def options(draw):
    return {"p": draw(good()), "edits": draw(st.lists(EDIT, max_size=1)), "fmt": draw(st.sampled_from(sorted(FIX) + ["horus_binary_v3", "right", "right"])), "ignore": draw(st.booleans())}


def run_options(c, rec):
    b = bytearray.fromhex(c["p"])
    p = bytes(b)
    for e in c["edits"]:
        edit(b, e)
    b = bytes(b)
    f = c["fmt"]
    if f == "right":
        f = "horus_binary_v3" if "head" in models.crc_kind(p) else {v: k for k, v in FIX.items()}[len(p)]
    fmt = copy.deepcopy(D.HORUS_PACKET_FORMATS[f])
    want = copy.deepcopy(fmt)
    ok = ("head" if f == "horus_binary_v3" else "tail") in models.crc_kind(b)
    try:
        r = decode(b, packet_format=fmt, ignore_crc=c["ignore"])
    except ValueError as e:
        r = None
    check(fmt == want, lambda: "decoding changed the format description it was given to %s" % fmt)
    if r is not None:
        check(ok or c["ignore"], lambda: "%s has no good checksum for %s but decodes" % (b.hex(), f))
        check(r.get("crc_ok") is ok, lambda: "%s as %s (ignore_crc %s): crc_ok is %r, but the checksum is %s" % (b.hex(), f, c["ignore"], r.get("crc_ok"), "good" if ok else "bad"))
        if f in FIX:
            check(len(b) == FIX[f], lambda: "%d bytes decode as %s" % (len(b), f))
    plain = decode(b)
    if c["fmt"] == "right" and not c["edits"] and len(models.crc_kind(b)) == 1:
        check(repr(plain) == repr(r), lambda: "%s decodes to %s, and given its own format to %s" % (b.hex(), plain, r))
    rec.nontrivial(not ok)
    rec.label(f, "ignore" if c["ignore"] else "checked", "decoded" if r else "rejected")


def targets():
    return [Target("damage", damage(), run_damage, quick=6000, thorough=150000, setup=setup),
            Target("forged", forged(), run_forged, quick=8000, thorough=200000, setup=setup),
            Target("history", history(), run_history, quick=1500, thorough=30000, setup=setup),
            Target("options", options(), run_options, quick=3000, thorough=60000, setup=setup)]
