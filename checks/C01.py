from hypothesis import strategies as st
import numpy as np
from vf import build, gen, models
from vf.core import Target, check
from vf.native import Modem

RULE = ("A case is a payload (1-300 bytes, mostly the sizes used on air) and, for every Golay codeword, one of the 2048 error patterns of "
        "weight 0-3, flipped at the on-air positions the format assigns to that codeword; buffers are heap blocks of exactly the advertised "
        "size under ASan/UBSan. Non-trivial: at least one bit flipped and the payload is not constant.")
ASSUMPTIONS = ["codeword-to-bit positions come from the independent format model that C02 checks against the encoder",
               "payload lengths up to 300 bytes"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


@st.composite
def cases(draw):
    n = draw(st.one_of(gen.real_sizes(), gen.real_sizes(), st.integers(1, 64), st.integers(1, 300)))
    return {"payload": draw(gen.hexbytes(n)), "errors": draw(gen.errpats(n))}


def run(c, rec):
    p = bytes.fromhex(c["payload"])
    n = len(p)
    m, ret, tx, after = M.encode(p)
    check(ret == m, lambda: "encoder returned %d bytes, advertised %d" % (ret, m))
    check(after == p, "encoding changed the caller's payload")
    check(m == models.tx_bytes(n), lambda: "advertised size %d for %d payload bytes, format has %d" % (m, n, models.tx_bytes(n)))
    bits = np.unpackbits(np.frombuffer(tx, dtype=np.uint8))
    flipped = gen.apply_errpats(n, bits, c["errors"])
    got = M.decode(n, np.packbits(bits).tobytes())
    check(got == p, lambda: "payload %s with %d flipped bits (at most 3 per codeword) decodes to %s" % (p.hex(), flipped, got.hex()))
    rec.nontrivial(flipped > 0 and len(set(p)) > 1)
    rec.label("clean" if not flipped else "errors", "size_on_air" if n in models.SIZES else "size_other",
              "short_last_word" if 8 * n % 12 else "whole_words")


def run_single(c, rec):
    """every single codeword with every weight-3 (and lighter) pattern, for one packet size"""
    n, k = c["n"], c["word"]
    p = bytes((i * 37 + 11 * n) & 255 for i in range(n))
    tx = np.unpackbits(np.frombuffer(M.encode(p)[2], dtype=np.uint8))
    pos = models.codeword_air_bits(n)[k]
    cnt = 0
    for pat in gen.patterns23():
        if any(b >= len(pos) for b in pat):
            continue
        bits = tx.copy()
        for b in pat:
            bits[pos[b]] ^= 1
        got = M.decode(n, np.packbits(bits).tobytes())
        check(got == p, lambda: "size %d, codeword %d, flipped on-air bits %s: decodes to %s instead of %s" % (n, k, [pos[b] for b in pat], got.hex(), p.hex()))
        cnt += 1
    rec.extra(cnt)
    rec.nontrivial()
    rec.label("n%d" % n)


@st.composite
def words(draw):
    n = draw(st.sampled_from(models.SIZES))
    return {"n": n, "word": draw(st.integers(0, models.ncodewords(n) - 1))}


def targets():
    allw = [{"n": n, "word": k} for n in models.SIZES for k in range(models.ncodewords(n))]
    ends = [c for c in allw if c["word"] in (0, 1, models.ncodewords(c["n"]) - 2, models.ncodewords(c["n"]) - 1)]
    return [Target("roundtrip", cases(), run, quick=12000, thorough=400000, setup=setup),
            Target("all_patterns_one_word", words(), run_single, quick=40, thorough=40, setup=setup,
                   explicit=ends, explicit_thorough=allw)]
