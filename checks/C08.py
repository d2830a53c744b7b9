from hypothesis import strategies as st
import numpy as np
from vf import bits as B, build, gen, models
from vf.core import Target, check, HarnessError
from vf.native import Modem

RULE = ("A case is a bit stream of valid and near-valid RTTY sentences: damaged characters, checksums with wrong, missing or non-hexadecimal digits (text is "
        "extended so that its checksum collides with the value a non-hexadecimal digit would produce), asterisks at any position up to and beyond the longest "
        "sentence, runs of dollar signs, empty texts, noise, several in one window. Every report must be characters really received from a unique word on, "
        "ending in an asterisk and four hexadecimal digits that equal the checksum of the text. Non-trivial: at least one invalid sentence.")
ASSUMPTIONS = ["bits enter at the link seam of the FSK demodulator",
               "which leading dollar signs belong to the text is read in the sentence's favour: any number of them may be stripped"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


KINDS = ["valid", "flip", "badcrc", "nonhex", "nonhex", "nonhex", "nostar", "empty", "dollars", "late", "late", "short", "noise", "crowd", "swapped"]
ALPHA = "ABCDEFXYZabc0123456789,.-:_ $*%&"


@st.composite
def item(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "text": draw(st.text(ALPHA, max_size=40)), "dollars": draw(st.integers(2, 12)),
            "x": draw(st.integers(0, 2 ** 32 - 1)), "nonhex": draw(st.sampled_from(["G", "z", " ", ",", "\n", "-", "*", "$", "/", ":", "@", "`", "g", "\x7f"])),
            "which": draw(st.integers(1, 15)), "gap": draw(B.gaps(200)), "late": draw(st.integers(100, 128))}


def collide(text, want_mask, want_val):
    """extends text so that its checksum has the given bits; short deterministic search"""
    sfx = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,."
    for a in sfx:
        for b in sfx:
            t = text + a.encode() + b.encode()
            if models.crc16(t) & want_mask == want_val:
                return t
    return text


def item_bits(c, mode):
    k, x = c["kind"], c["x"]
    t = c["text"].replace("*", "x").lstrip("$").encode()
    D = b"$" * (2 + c["dollars"] % 6)
    if k == "noise":
        return gen.seeded_bits(x, 100 + x % 1500)
    if k == "crowd":
        return B.rtty_bits(b"$" * (1 + x % 130), mode)
    if k == "dollars":
        D = b"$" * (x % 130)
        t = t[:x % 5]
    if k == "empty":
        t = b""
    if k == "late":                              # the asterisk is character number `late` of the sentence
        t = (t + b"A" * 140)[:c["late"] - len(D)]
    hx = "%04X" % models.crc16(t)
    if k == "nonhex":
        m = c["which"]
        # each non-hexadecimal digit acts as all ones from its place upwards in the defective conversion
        last = max(i for i in range(4) if m >> i & 1)
        mask = (0xFFFF << 4 * (3 - last)) & 0xFFFF
        if x & 1:
            t = collide(t, mask, mask) if last < 3 or t else t
        if x & 2:
            t = collide(t, mask, 0)
        hx = "%04X" % models.crc16(t)
        hx = "".join(c["nonhex"] if m >> i & 1 else ch for i, ch in enumerate(hx))
    if k == "badcrc":
        hx = "%04X" % (models.crc16(t) ^ (1 << x % 16))
    if k == "swapped":
        hx = hx[2:] + hx[:2]
    body = D + t + b"*" + hx.encode()
    if k == "flip" and t:
        b = bytearray(body)
        b[len(D) + x % len(t)] ^= 1 << (x >> 8) % 7
        body = bytes(b)
    if k == "nostar":
        body = body.replace(b"*", b",")
    if k == "short":
        body = body[:len(body) - 1 - x % 4]
    if k != "short":
        body += b"\n"
    return B.rtty_bits(body, mode)


@st.composite
def cases(draw):
    return {"mode": draw(st.sampled_from([89, 90, 91])), "cfg": draw(B.seam_configs()), "pre": draw(B.gaps(200)),
            "items": draw(st.lists(item(), min_size=1, max_size=5)), "post": draw(st.integers(0, 1600))}


def run(c, rec):
    mode = c["mode"]
    bits = np.concatenate([B.gap_bits(c["pre"])] + [x for i in c["items"] for x in (item_bits(i, mode), np.ones(1, np.uint8), B.gap_bits(i["gap"]))]
                          + [np.ones(c["post"], np.uint8)])
    bits = B.pad_blocks(bits, mode, 3)
    M.reset()
    B.open_seam(M, 0, mode, c["cfg"])
    ev = M.push_bits(0, bits.tobytes())
    if not M.seam:
        raise HarnessError("the demodulator no longer takes its bits from fsk_demod*")
    z = np.concatenate([np.zeros(1400, np.uint8), bits])
    uws = B.rtty_uw_positions(z, mode)
    for e in ev:
        check(e.terminated and e.crc == 1, lambda: "unterminated or unchecked report: %r" % e)
        why = B.rtty_verdict(e.text)
        check(why is None, lambda: "mode %d reported %r: %s" % (mode, e.text, why))
        avail = 1400 + (e.frame + 1) * 50
        check(any(B.rtty_chars(z[:avail], mode, u, len(e.text)) == e.text for u in uws),
              lambda: "mode %d reported %r, which was never received" % (mode, e.text))
    M.close(0)
    rec.nontrivial(any(i["kind"] != "valid" for i in c["items"]))
    rec.label("mode%d" % mode, "reports" if ev else "silent", *["item_" + i["kind"] for i in c["items"]])


def targets():
    return [Target("stream", cases(), run, quick=5000, thorough=150000, setup=setup)]
