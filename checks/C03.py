from hypothesis import strategies as st
from vf import build, gen, models, repo
from vf.core import Target, check
from vf.native import Modem

RULE = ("agree: byte strings up to 255 bytes (native) or 1500 bytes (Python) against a bitwise CRC model (non-trivial: two or more bytes). damage: a body "
        "with its checksum at either end, damaged by one flip, two flips, or a burst of at most 16 bits inside the checksummed part or inside the checksum "
        "(non-trivial: always, the packet differs).")
ASSUMPTIONS = ["a burst that straddles the boundary between text and checksum is outside the guarantee: the checksum is sent low byte first"]
M = CK = None


def prepare():
    build.cdrv("asan")


def setup():
    global M, CK
    M = Modem("asan")
    repo.setup(native=False)
    import horusdemodlib.checksums as CK_
    CK = CK_


KINDS = ["crc16", "CRC16", "crc16-ccitt", "CRC16-CCITT"]


@st.composite
def agree(draw):
    n = draw(st.one_of(st.integers(0, 64), st.integers(0, 255), st.sampled_from([20, 30, 46, 62, 94, 126, 254, 255])))
    if draw(st.integers(0, 5)) == 0:
        n = draw(st.integers(256, 1500))
    return {"data": draw(gen.hexbytes(n)), "kind": draw(st.integers(0, 3))}


def run_agree(c, rec):
    d = bytes.fromhex(c["data"])
    k = KINDS[c["kind"]]
    want = models.crc16(d)
    if len(d) <= 255:
        got = M.crc16(d)
        check(got == want, lambda: "native checksum of %s is %04X, CRC-16/CCITT is %04X" % (d.hex(), got, want))
    t = CK.ukhas_crc(d)
    check(t == "%04X" % want, lambda: "text checksum of %s is %r, expected %04X" % (d.hex(), t, want))
    tail, head = CK.add_packet_crc(d, k), CK.add_packet_crc(d, k, tail=False)
    check(tail == models.with_crc_tail(d), lambda: "tail checksum appended to %s gives %s" % (d.hex(), tail.hex()))
    check(head == models.with_crc_head(d), lambda: "head checksum prepended to %s gives %s" % (d.hex(), head.hex()))
    if len(d) >= 1:
        check(CK.check_packet_crc(tail, k) is True or CK.check_packet_crc(tail, k) == True, "packet with tail checksum does not validate: " + tail.hex())
        check(CK.check_packet_crc(head, k, tail=False) == True, "packet with head checksum does not validate: " + head.hex())
        if len(d) >= 3:
            for tl in (True, False):
                v = CK.check_packet_crc(d, k, tail=tl)
                w = (models.with_crc_tail(d[:-2]) == d) if tl else (models.with_crc_head(d[2:]) == d)
                check(bool(v) == w, lambda: "check_packet_crc(%s, tail=%s) is %r, expected %r" % (d.hex(), tl, v, w))
    rec.nontrivial(len(d) >= 2)
    rec.label("long" if len(d) > 255 else "short")


@st.composite
def damage(draw):
    n = draw(st.one_of(st.sampled_from([20, 30, 46, 62, 94, 126]), st.integers(1, 200)))
    kind = draw(st.sampled_from(["one", "two", "burst", "burst"]))
    bits = 8 * (n + 2)
    c = {"body": draw(gen.hexbytes(n)), "tail": draw(st.booleans()), "kind": kind, "a": draw(st.integers(0, bits - 1))}
    if kind == "two":
        c["b"] = draw(st.integers(0, bits - 1).filter(lambda x: x != c["a"]))
    if kind == "burst":
        c["pattern"] = draw(st.integers(1, 0xFFFF))
    return c


def run_damage(c, rec):
    body = bytes.fromhex(c["body"])
    p = bytearray(models.with_crc_tail(body) if c["tail"] else models.with_crc_head(body))
    n = 8 * len(p)
    flips = {c["a"]}
    if c["kind"] == "two":
        flips.add(c["b"])
    if c["kind"] == "burst":
        lo, hi = (0, n - 16) if c["tail"] else (16, n)          # checksummed part
        fa, fb = (n - 16, n) if c["tail"] else (0, 16)
        s, e = (fa, fb) if fa <= c["a"] < fb else (lo, hi)
        flips = {c["a"] + i for i in range(16) if c["pattern"] >> i & 1 and c["a"] + i < e} or {c["a"]}
    for f in flips:
        p[f // 8] ^= 0x80 >> (f % 8)
    p = bytes(p)
    got = CK.check_packet_crc(p, tail=c["tail"])
    check(got == False, lambda: "packet damaged at bits %s still validates: %s" % (sorted(flips), p.hex()))
    if len(p) - 2 <= 255:
        b, s = (p[:-2], p[-2:]) if c["tail"] else (p[2:], p[:2])
        check(M.crc16(b) != s[0] | s[1] << 8, lambda: "native checksum accepts a packet damaged at bits %s: %s" % (sorted(flips), p.hex()))
    rec.nontrivial()
    rec.label(c["kind"], "tail" if c["tail"] else "head")


def targets():
    return [Target("agree", agree(), run_agree, quick=8000, thorough=200000, setup=setup),
            Target("damage", damage(), run_damage, quick=12000, thorough=400000, setup=setup)]
