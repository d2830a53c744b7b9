from hypothesis import strategies as st
import numpy as np
from vf import build, gen, models
from vf.core import Target, check
from vf.native import Modem

RULE = ("format: payloads of 1-300 bytes encoded by the library and by an independent model (non-trivial: not constant bytes). decode: received "
        "packets from a valid packet plus 0-100% random bit errors up to arbitrary bytes, decoded by both (non-trivial: not an undamaged packet). "
        "golay: all 2^23 received words and all 4096 data words, in ranges (every range is non-trivial).")
ASSUMPTIONS = ["the model in vf/models.py states the published format: Golay generator 0xC75, golden-ratio prime interleaver (fixed for 43 and 63 byte bodies), "
               "0x4a80 additive whitening, short last word sent as 0..0 data 0"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


@st.composite
def payloads(draw):
    n = draw(st.one_of(gen.real_sizes(), st.integers(1, 300)))
    return {"payload": draw(gen.hexbytes(n))}


def run_format(c, rec):
    p = bytes.fromhex(c["payload"])
    m, ret, tx, after = M.encode(p)
    want = models.l2_encode(p)
    check(m == len(want), lambda: "advertised %d bytes for a %d byte payload, the format prescribes %d" % (m, len(p), len(want)))
    check(ret == m and after == p, "wrong return value or payload modified")
    check(tx == want, lambda: "payload %s\n sent     %s\n expected %s" % (p.hex(), tx.hex(), want.hex()))
    rec.nontrivial(len(set(p)) > 1)
    rec.label("size_on_air" if len(p) in models.SIZES else "size_other")


@st.composite
def received(draw):
    n = draw(st.one_of(gen.real_sizes(), st.integers(1, 200)))
    m = models.tx_bytes(n)
    if draw(st.booleans()):
        return {"n": n, "rx": draw(st.binary(min_size=420, max_size=420))[:m].hex()}
    tx = bytearray(models.l2_encode(bytes.fromhex(draw(gen.hexbytes(n)))))
    mask = draw(st.binary(min_size=420, max_size=420))[:m]
    thin = draw(st.integers(0, 3))
    for i in range(thin):
        mask = bytes(a & b for a, b in zip(mask, mask[1 + i:] + mask[:1 + i]))
    return {"n": n, "rx": bytes(a ^ b for a, b in zip(tx, mask)).hex()}


def run_decode(c, rec):
    rx = bytes.fromhex(c["rx"])
    want = models.l2_decode(c["n"], rx)
    got = M.decode(c["n"], rx)
    check(got == want, lambda: "received %s (%d bytes payload)\n decoded  %s\n nearest  %s" % (rx.hex(), c["n"], got.hex(), want.hex()))
    clean = models.l2_encode(want) == rx
    rec.nontrivial(not clean)
    rec.label("clean" if clean else "damaged")


STEP = 1 << 17


def run_golay(c, rec):
    a = c["chunk"] * STEP
    bad, first = M.golay_range(a, a + STEP)
    check(bad == 0, lambda: "golay23_decode: %d received words in [%d,%d) do not decode to a codeword within 3 bits, first 0x%06x" % (bad, a, a + STEP, first))
    ws = list(range(a + c["chunk"], a + STEP, 997))
    for w, (d, e) in zip(ws, M.golay_decode(ws)):
        want = models.golay_nearest(w)
        check(d == want and e == bin(w ^ want).count("1"), lambda: "word 0x%06x decodes to 0x%06x (%d errors), nearest codeword 0x%06x" % (w, d, e, want))
    ds = list(range(c["chunk"] * 64, c["chunk"] * 64 + 64))
    for d, w in zip(ds, M.golay_encode(ds)):
        check(w == models.golay_encode(d), lambda: "data 0x%03x encodes to 0x%06x, expected 0x%06x" % (d, w, models.golay_encode(d)))
    rec.extra(STEP + 64)
    rec.nontrivial()
    rec.label("range")


def targets():
    return [Target("format", payloads(), run_format, quick=8000, thorough=300000, setup=setup),
            Target("decode", received(), run_decode, quick=8000, thorough=300000, setup=setup),
            Target("golay", None, run_golay, setup=setup, explicit=[{"chunk": i} for i in range(64)])]
