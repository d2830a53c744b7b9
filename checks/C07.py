from hypothesis import strategies as st
import numpy as np
from vf import bits as B, build, gen, models
from vf.core import Target, check, HarnessError
from vf.native import Modem

RULE = ("A case is a bit stream of 1-4 RTTY sentences (in a share of them one comes again; 2-10 leading dollar signs, 8 to 117 characters overall, correct checksum in upper or lower case, text without an "
        "asterisk) in one of the three framings, with line endings, idle bits, noise, patterns, junk characters or nothing around them at any bit alignment. "
        "Streams with more than 28 unique-word patterns within one receiver window, or where another window holds a self-consistent sentence, are set aside "
        "and counted. Non-trivial: the others.")
ASSUMPTIONS = ["bits enter at the link seam of the FSK demodulator", "sentences of 12 characters or more, at most 119 up to and including the checksum",
               "of eight or more leading dollar signs only seven are guaranteed to be kept"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789,,,,....-:_/ $#!%&'()+;<=>?@[]^{}|~"


@st.composite
def sentence(draw):
    return {"dollars": draw(st.sampled_from([2, 3, 4, 5, 6, 7, 2, 5, 7, 8, 9, 10])), "text": draw(st.text(ALPHA, min_size=5, max_size=draw(st.sampled_from([20, 60, 105])))),
            "full": draw(st.sampled_from([0, 0, 0, 1])), "lower": draw(st.booleans()), "hi": draw(st.booleans()),
            "end": draw(st.sampled_from(["\n", "\r\n", "", "\0\0", "\n\n\n"])),
            "gap": draw(B.gaps(400)), "junk": draw(st.sampled_from(["", "", "", "$$ab,c*", "$$ ", "xyz*12", "*", "$$junk*12G4\n", "$ "]))}


def build_text(s, mode):
    t = s["text"]
    if s["full"]:                                   # the longest sentence: 119 characters in all
        t = (t * 120)[:119 - s["dollars"] - 5]
    t = t[:119 - s["dollars"] - 5].lstrip("$")
    while len(t) + s["dollars"] + 5 < 12:
        t += "A"
    b = t.encode("ascii")
    if s["hi"] and mode == 91:
        b = bytes(x | 0x80 if i % 3 == 1 and i else x for i, x in enumerate(b))
    b = b.replace(b"*", b"x")
    crc = "%04X" % models.crc16(b)
    return b"$" * s["dollars"] + b + b"*" + (crc.lower() if s["lower"] else crc).encode()


@st.composite
def cases(draw):
    return {"mode": draw(st.sampled_from([89, 90, 91])), "cfg": draw(B.seam_configs()), "pre": draw(B.gaps(1500)),
            "sentences": draw(B.again(st.lists(sentence(), min_size=1, max_size=4))), "post": draw(B.gaps(100))}


def stream(c):
    mode = c["mode"]
    parts, want, at, n = [B.gap_bits(c["pre"])], [], [], len(B.gap_bits(c["pre"]))
    for s in c["sentences"]:
        t = build_text(s, mode)
        j = B.rtty_bits(s["junk"].encode(), mode)
        tb = B.rtty_bits(t + s["end"].encode(), mode)
        g = B.gap_bits(s["gap"])
        at.append(n + len(j) + 1)
        want.append(t)
        # the last character's stop bits are followed by idle or a start bit; an idle bit keeps the checksum intact
        parts += [j, tb, np.ones(1, np.uint8), g]
        n += len(j) + len(tb) + 1 + len(g)
    post = B.gap_bits(c["post"])
    bits = np.concatenate(parts + [post, np.ones(1500, np.uint8)])
    return B.pad_blocks(bits, mode, len(want) + 1), want, at


def run(c, rec):
    mode = c["mode"]
    bits, want, at = stream(c)
    uws = B.rtty_uw_positions(bits, mode)
    if B.crowded(uws, 1450, 28):
        rec.label("set_aside_crowded")
        return
    nd, ns = B.RTTY[mode]
    w = nd + ns + 1
    own = {a + w * i for a, t in zip(at, want) for i in range(len(t) - len(t.lstrip(b"$")))}
    for u in uws:
        if u in own:
            continue
        t = B.rtty_chars(bits, mode, u, 120)
        s = t.find(b"*")
        if s >= 0 and B.rtty_verdict(t[:s + 5]) is None:
            rec.label("set_aside_accidental")
            return
    M.reset()
    B.open_seam(M, 0, mode, c["cfg"])
    ev = M.push_bits(0, bits.tobytes())
    if not M.seam:
        raise HarnessError("the demodulator no longer takes its bits from fsk_demod*")
    got = [e.text for e in ev]
    same = len(got) == len(want) and all(g == t or (t.startswith(b"$" * 8) and t.endswith(g) and g.startswith(b"$" * 7)) for g, t in zip(got, want))
    check(same, lambda: "mode %d, sent at bits %s\n sent     %s\n reported %s" % (mode, at, want, got))
    for e in ev:
        check(e.crc == 1 and e.ret and e.terminated, "sentence reported without a passing checksum flag: %r" % e)
    M.close(0)
    rec.nontrivial()
    rec.label("mode%d" % mode, "sentences%d" % len(want), *{"dollars%d" % s["dollars"] for s in c["sentences"]})
    if any(len(t) == 119 for t in want):
        rec.label("longest")


def targets():
    return [Target("stream", cases(), run, quick=5000, thorough=150000, setup=setup)]
