"""Bit streams for the demodulators: packets and sentences between idle periods, noise and junk."""
from hypothesis import strategies as st
import numpy as np
from . import gen, models

BIN = 0
RTTY = {89: (7, 1), 90: (7, 2), 91: (8, 2)}
NBITS = {0: 100, 89: 50, 90: 50, 91: 50}

GAPS = ["rand", "zeros", "ones", "alt", "preamble", "dollars", "rand", "sparse"]


def gaps(maxlen):
    return st.fixed_dictionaries({"kind": st.sampled_from(GAPS), "len": st.one_of(st.integers(0, 40), st.integers(0, maxlen)), "seed": st.integers(0, 2 ** 32 - 1)})


def gap_bits(g):
    n, k = g["len"], g["kind"]
    if k == "rand":
        return gen.seeded_bits(g["seed"], n)
    if k == "sparse":
        return gen.seeded_bits(g["seed"], n) & gen.seeded_bits(g["seed"] + 1, n) & gen.seeded_bits(g["seed"] + 2, n)
    if k == "zeros":
        return np.zeros(n, np.uint8)
    if k == "ones":
        return np.ones(n, np.uint8)
    pat = {"alt": [0, 1], "preamble": [0, 0, 0, 1, 1, 0, 1, 1], "dollars": [0, 0, 1, 0, 0, 1, 0, 0]}[k]
    if k == "dollars":
        n = min(n, 48)                 # a short run: each further one would be another unique word
    return np.resize(np.array(pat, np.uint8), n)


# -------------------------------------------------------------------------------------------- binary
KINDS = [(22, "tail"), (32, "tail"), (32, "head"), (48, "head"), (64, "head"), (96, "head"), (128, "head")]


@st.composite
def packets(draw, errors=True):
    n, side = draw(st.sampled_from(KINDS))
    c = {"n": n, "side": side, "body": draw(gen.hexbytes(n - 2)), "gap": draw(gaps(700))}
    if errors:
        c["errors"] = draw(gen.errpats(n))
        c["uwerr"] = draw(st.one_of(st.just(-1), st.integers(0, 15)))
    return c


@st.composite
def again(draw, items):
    """a list of items in which one may come again later, as it was but for what follows it"""
    l = draw(items)
    if len(l) > 1 and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(l) - 2))
        j = draw(st.one_of(st.just(i + 1), st.integers(i + 1, len(l) - 1)))
        l[j] = dict(l[i], gap=l[j]["gap"])
    return l


def packet_payload(c):
    b = bytes.fromhex(c["body"])
    return models.with_crc_tail(b) if c["side"] == "tail" else models.with_crc_head(b)


def packet_bits(c):
    p = packet_payload(c)
    bits = models.l2_encode_bits(p)
    if c.get("errors"):
        gen.apply_errpats(c["n"], bits, c["errors"])
    if c.get("uwerr", -1) >= 0:
        bits[c["uwerr"]] ^= 1
    return p, bits


def pad_blocks(bits, mode, extra_blocks, fill="alt"):
    nb = NBITS[mode]
    n = (-len(bits)) % nb + nb * extra_blocks
    return np.concatenate([bits, np.resize(np.array([0, 1, 1], np.uint8), n)]).astype(np.uint8)


def crowded(pos, window, cap):
    """more than cap positions inside some window"""
    j = 0
    for i in range(len(pos)):
        while pos[i] - pos[j] > window:
            j += 1
        if i - j + 1 > cap:
            return True
    return False


# -------------------------------------------------------------------------------------------- RTTY
def rtty_bits(text, mode):
    """start bit 0, data least significant bit first, stop bits 1"""
    nd, ns = RTTY[mode]
    out = []
    for ch in text:
        out.append(0)
        out += [(ch >> i) & 1 for i in range(nd)]
        out += [1] * ns
    return np.array(out, np.uint8)


def rtty_uw(mode):
    nd, ns = RTTY[mode]
    one = [0x24 >> i & 1 for i in range(nd)] + [1] * ns + [0]
    return np.array(one * 2)


def rtty_uw_positions(bits, mode, maxerr=1):
    u = rtty_uw(mode)
    b = np.asarray(bits, dtype=np.int64)
    if len(b) < len(u):
        return []
    c = np.correlate(2 * b - 1, 2 * u - 1, "valid")
    return [int(i) for i in np.nonzero(c >= len(u) - 2 * maxerr)[0]]


def rtty_chars(bits, mode, pos, count):
    """data bits of count characters whose first data bit is at pos"""
    nd, ns = RTTY[mode]
    w = nd + ns + 1
    out = bytearray()
    for k in range(count):
        s = pos + k * w
        if s + nd > len(bits):
            break
        out.append(sum(int(bits[s + j]) << j for j in range(nd)))
    return bytes(out)


def rtty_verdict(text):
    """None if text is a self-consistent sentence ($... *CRC), else the reason"""
    s = text.find(b"*")
    if s < 0:
        return "no asterisk"
    if len(text) != s + 5:
        return "%d characters after the asterisk" % (len(text) - s - 1)
    hx = text[s + 1:]
    if any(c not in b"0123456789ABCDEFabcdef" for c in hx):
        return "checksum %r is not hexadecimal" % hx
    v = int(hx, 16)
    k = 0
    while True:
        if models.crc16(text[k:s]) == v:
            return None
        if k >= s or text[k] != 36:
            return "checksum %r does not match the text" % hx
        k += 1


def seam_configs():
    """demodulator configurations for bit-level work: mostly low sample rates, where a block of samples is small"""
    return st.sampled_from([[100, 1600, 8], [100, 1600, 8], [100, 1600, 16], [50, 800, 8], [300, 4800, 8], [100, 8000, 10], [100, 48000, 0]])


def open_seam(m, hid, mode, cfg):
    Rs, Fs, P = cfg
    return m.open(hid, mode, Rs, -1, Fs, P)
