from hypothesis import strategies as st
from vf import models, repo
from vf.core import Target, check

RULE = ("Byte strings of 0 to 300 bytes (arbitrary, coded packets, runs of one byte) with preambles of 0 to 40 bytes or the default one, turned into four-level symbols and into one-bit bytes. "
        "Non-trivial: the string is at least two bytes long and not a single repeated byte.")
ASSUMPTIONS = ["the preamble byte is 0x1B (symbols 0, 1, 2, 3), eight times unless asked for otherwise"]
E = None


def setup():
    global E
    repo.setup()
    from horusdemodlib.encoder import Encoder
    E = Encoder()


@st.composite
def case(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        n = draw(st.sampled_from([16, 22, 32, 128]))
        b = models.l2_encode(draw(st.binary(min_size=n, max_size=n)))
    elif k == 1:
        b = bytes([draw(st.integers(0, 255))]) * draw(st.integers(0, 60))
    elif k == 2:
        b = draw(st.binary(max_size=300))
    else:
        b = draw(st.binary(max_size=24))
    return {"b": b.hex(), "pre": draw(st.one_of(st.none(), st.integers(0, 40), st.integers(0, 9)))}


def run(c, rec):
    b = bytes.fromhex(c["b"])
    kw = {} if c["pre"] is None else {"preamble": c["pre"]}
    want = b"\x1b" * (8 if c["pre"] is None else c["pre"]) + b
    n = int.from_bytes(want, "big")
    sym = E.bytes_to_4fsk_symbols(b, **kw)
    check(isinstance(sym, list) and len(sym) == 4 * len(want) and all(type(x) is int and 0 <= x <= 3 for x in sym), lambda: "%d bytes give the symbols %r" % (len(want), sym))
    v = 0
    for x in sym:
        v = v << 2 | x
    check(v == n, lambda: "the symbols of %s pack to %x" % (want.hex(), v))
    bits = E.bytes_to_onebitperbyte(b, **kw)
    check(type(bits) is bytes and len(bits) == 8 * len(want) and all(x in (0, 1) for x in bits), lambda: "%d bytes give the bits %r" % (len(want), bits))
    v = 0
    for x in bits:
        v = v << 1 | x
    check(v == n, lambda: "the bits of %s pack to %x" % (want.hex(), v))
    check(all(sym[i] == 2 * bits[2 * i] + bits[2 * i + 1] for i in range(len(sym))), "symbols and bits disagree")
    check(E.bytes_to_4fsk_symbols(b, **kw) == sym and E.bytes_to_onebitperbyte(b, **kw) == bits, "a second conversion gives something else")
    rec.nontrivial(len(b) >= 2 and len(set(b)) > 1)
    rec.label("default preamble" if c["pre"] is None else "preamble%d" % min(c["pre"], 9))


def targets():
    return [Target("expand", case(), run, quick=8000, thorough=300000, setup=setup)]
