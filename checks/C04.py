from hypothesis import strategies as st
import numpy as np
from vf import bits as B, build, gen, models
from vf.core import Target, check, HarnessError
from vf.native import Modem

RULE = ("A case is a bit stream of 1-6 packets (in a share of them one comes again; all supported sizes and both checksum positions, 0-3 bit errors per codeword, 0-1 in the unique word) with "
        "idle, patterned, random or no bits before, between and after them, at any alignment to the 100-bit blocks, fed to a binary demodulator in place "
        "of demodulated audio. Streams with more than 28 unique-word patterns in one receiver window, or where some other window happens to carry a valid "
        "checksum (about 1 in 10^4), are set aside and counted. Non-trivial: at least one packet, none set aside.")
ASSUMPTIONS = ["bits enter at the link seam of the FSK demodulator (linker wrap of fsk_demod_core); C09 and C12 cover the path from audio",
               "the receiver tracks at most 32 unique words at a time, so streams crowded with false ones are out of scope"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


@st.composite
def cases(draw):
    return {"pre": draw(B.gaps(2000)), "packets": draw(B.again(st.lists(B.packets(), min_size=1, max_size=6))),
            "cfg": draw(B.seam_configs())}


def expected(c):
    parts = [B.gap_bits(c["pre"])]
    want, at = [], []
    for p in c["packets"]:
        payload, bb = B.packet_bits(p)
        at.append(sum(map(len, parts)))
        parts.append(bb)
        parts.append(B.gap_bits(p["gap"]))
        want.append((payload, p))
    bits = B.pad_blocks(np.concatenate(parts), 0, len(want) + 2)
    return bits, want, at


def accidental(bits, want, at):
    """some other window with a unique word and a valid checksum?"""
    z = np.concatenate([np.zeros(32, np.uint8), bits])
    for u in models.uw_positions(z):
        for n in models.SIZES:
            if u - 32 in at and len(want[at.index(u - 32)][0]) == n:
                break                      # the packet itself: nothing later is looked at
            e = u + models.tx_bytes(n) * 8
            if e <= len(z) and models.reportable(models.l2_decode_bits(n, z[u:e])):
                return True
    return False


def run(c, rec):
    bits, want, at = expected(c)
    if B.crowded(models.uw_positions(bits), 3900, 28):
        rec.label("set_aside_crowded")
        return
    if accidental(bits, want, at):
        rec.label("set_aside_accidental")
        return
    M.reset()
    B.open_seam(M, 0, 0, c["cfg"])
    ev = M.push_bits(0, bits.tobytes())
    if not M.seam:
        raise HarnessError("the demodulator no longer takes its bits from fsk_demod*")
    got = [e.text for e in ev]
    exp = [p.hex().upper().encode() for p, _ in want]
    check(got == exp, lambda: "sent %s at bits %s\n reported %s" % (exp, at, got))
    for e, (p, _) in zip(ev, want):
        check(e.crc == 1 and e.ret and e.terminated, "reported without a passing checksum flag: %r" % e)
        check(e.version in models.reportable(p), lambda: "packet %s reported as version %d, is %s" % (p.hex(), e.version, models.reportable(p)))
    M.close(0)
    rec.nontrivial()
    if len(set(exp)) < len(exp):
        rec.label("repeated")
    rec.label("packets%d" % len(want), *{"size%d%s" % (p["n"], p["side"]) for _, p in want})
    if any(p["errors"] for _, p in want):
        rec.label("bit_errors")
    if any(p["gap"]["len"] == 0 for _, p in want[:-1]):
        rec.label("back_to_back")


def targets():
    return [Target("stream", cases(), run, quick=4000, thorough=120000, setup=setup)]
