from hypothesis import strategies as st
import numpy as np
from vf import bits as B, build, gen, models
from vf.core import Target, check, HarnessError
from vf.native import Modem

RULE = ("A case is a bit stream of noise, patterns, valid packets, packets with wrong or misplaced checksums, packets damaged beyond repair, truncated packets, "
        "packets of unsupported sizes and crowds of unique words. Every report must be the model's decoding of a window of the received bits that starts at a "
        "unique word (at most one bit error), was complete when reported, and carries a valid checksum for its size and version. "
        "Non-trivial: the stream contains at least one near-miss packet.")
ASSUMPTIONS = ["bits enter at the link seam of the FSK demodulator"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


KINDS = ["valid", "badcrc", "wrongside", "onebit", "overload", "truncated", "size", "uw2", "noise", "crowd", "zerocrc"]


@st.composite
def item(draw):
    n, side = draw(st.sampled_from(B.KINDS))
    return {"kind": draw(st.sampled_from(KINDS)), "n": n, "side": side, "size": draw(st.integers(3, 140)), "body": draw(gen.hexbytes(142)),
            "errors": draw(gen.errpats(n)), "x": draw(st.integers(0, 2 ** 32 - 1)), "gap": draw(B.gaps(300))}


def item_bits(c):
    k, n, x = c["kind"], c["n"], c["x"]
    body = bytes.fromhex(c["body"])
    if k == "noise":
        return gen.seeded_bits(x, 200 + x % 1500)
    if k == "crowd":
        return np.resize(np.unpackbits(np.frombuffer([b"$", b"$$\x00", b"$$$\xff", b"\x24\x24\x55\xaa"][x % 4], np.uint8)), 16 + x % 4000)
    if k == "size":
        n = c["size"]
    side = c["side"]
    if k == "wrongside":
        side = {"tail": "head", "head": "tail"}[side]
    p = models.with_crc_tail(body[:n - 2]) if side == "tail" else models.with_crc_head(body[:n - 2])
    if k == "badcrc":
        q = bytearray(p)
        i = (n - 2 if side == "tail" else 0) + x % 2
        q[i] ^= 1 + (x >> 8) % 255
        p = bytes(q)
    if k == "onebit":
        q = bytearray(p)
        q[x % n] ^= 1 << (x >> 8) % 8
        p = bytes(q)
    if k == "zerocrc":
        p = body[:n - 2] + b"\0\0" if side == "tail" else b"\0\0" + body[:n - 2]
    bits = models.l2_encode_bits(p)
    if k in ("valid", "uw2", "truncated"):
        gen.apply_errpats(n, bits, c["errors"])
    if k == "uw2":
        bits[x % 16] ^= 1
        bits[(x % 16 + 1 + (x >> 8) % 15) % 16] ^= 1
    if k == "overload":
        pos = models.codeword_air_bits(n)
        w = pos[x % len(pos)]
        r = np.random.RandomState(x)
        for i in r.permutation(len(w))[:4 + x % 4]:
            bits[w[i]] ^= 1
    if k == "truncated":
        bits = bits[:16 + x % (len(bits) - 16)]
    return bits


@st.composite
def cases(draw):
    return {"pre": draw(B.gaps(300)), "items": draw(st.lists(item(), min_size=1, max_size=5)), "tail": draw(st.integers(1, 40)), "cfg": draw(B.seam_configs())}


def run(c, rec):
    bits = np.concatenate([B.gap_bits(c["pre"])] + [x for i in c["items"] for x in (item_bits(i), B.gap_bits(i["gap"]))])
    bits = B.pad_blocks(bits, 0, c["tail"])
    M.reset()
    B.open_seam(M, 0, 0, c["cfg"])
    ev = M.push_bits(0, bits.tobytes())
    if not M.seam:
        raise HarnessError("the demodulator no longer takes its bits from fsk_demod*")
    z = np.concatenate([np.zeros(64, np.uint8), bits])
    uws = models.uw_positions(z)
    memo = {}
    for e in ev:
        try:
            p = bytes.fromhex(e.text.decode("ascii"))
        except ValueError:
            p = b""
        check(p and p.hex().upper().encode() == e.text, lambda: "report is not upper-case hex: %r" % e.text)
        n = len(p)
        check(n in models.SIZES, lambda: "report of unsupported size %d: %r" % (n, e.text))
        vs = models.reportable(p)
        check(vs and e.crc == 1, lambda: "reported content has no valid checksum: %r" % e.text)
        check(e.version in vs, lambda: "reported as version %d, checksum fits %s: %r" % (e.version, vs, e.text))
        avail = 64 + (e.frame + 1) * 100
        ok = False
        for u in uws:
            end = u + models.tx_bytes(n) * 8
            if end > avail or end > len(z):
                break
            if (u, n) not in memo:
                memo[u, n] = models.l2_decode_bits(n, z[u:end])
            if memo[u, n] == p:
                ok = True
                break
        check(ok, lambda: "report %r is not the decoding of any received window starting at a unique word" % e.text)
    M.close(0)
    rec.nontrivial(any(i["kind"] != "valid" for i in c["items"]))
    rec.label(*["item_" + i["kind"] for i in c["items"]])
    rec.label("reports" if ev else "silent")


def targets():
    return [Target("stream", cases(), run, quick=2600, thorough=80000, setup=setup)]
