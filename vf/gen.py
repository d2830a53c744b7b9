"""Shared generators. Cases are JSON-able: byte strings travel as hex."""
import functools
from hypothesis import strategies as st
import numpy as np


# Draws keep the same constraints whatever was drawn before (a block of fixed size, cut to length afterwards): Hypothesis copies
# choices between places while generating, and a choice that does not fit its new place degenerates to zeros.
BLOCK = 320


def _texture(t, n):
    blob, mode, a = t
    if mode <= 3:
        return blob[:n]
    if mode == 4:                           # repeated short pattern
        k = 1 + a % 4
        return (blob[:k] * (n + 1))[:n]
    if mode == 5:
        return onehot(n, a % max(1, 8 * n), False)
    if mode == 6:
        return onehot(n, a % max(1, 8 * n), True)
    return bytes(x & y & z for x, y, z in zip(blob, blob[7:] + blob[:7], blob[31:] + blob[:31]))[:n]


def hexbytes(n):
    """n bytes, varied in texture; shrinks to zeros"""
    if n > BLOCK:
        return st.binary(min_size=n, max_size=n).map(bytes.hex)
    return st.tuples(st.binary(min_size=BLOCK, max_size=BLOCK), st.integers(0, 7), st.integers(0, 8 * BLOCK)).map(lambda t: _texture(t, n).hex())


def onehot(n, i, inv):
    if n == 0:
        return b""
    b = bytearray(n)
    b[i // 8] |= 1 << (i % 8)
    return bytes(x ^ 0xFF for x in b) if inv else bytes(b)


@functools.lru_cache(None)
def patterns23():
    """all error patterns of weight <= 3 over 23 bits, by weight"""
    out = [()]
    for a in range(23):
        out.append((a,))
    for a in range(23):
        for b in range(a):
            out.append((a, b))
    for a in range(23):
        for b in range(a):
            for c in range(b):
                out.append((a, b, c))
    assert len(out) == 2048
    return out


def errpats(n):
    """hex string holding one 11-bit pattern index per codeword of an n-byte packet"""
    from . import models
    k = models.ncodewords(n)
    def mask(t):
        b, mode, one = t
        if mode == 0:
            return ""
        v = [(b[2 * i] << 8 | b[2 * i + 1]) & 2047 for i in range(k)]
        if mode == 1:                   # a single damaged codeword
            v = [x if i == one % k else 0 for i, x in enumerate(v)]
        if mode == 2:                   # always the full three errors
            v = [x if x > 276 else (x + 277) % 1771 + 277 for x in v]
        return "".join("%03x" % x for x in v)
    return st.tuples(st.binary(min_size=448, max_size=448), st.sampled_from([3, 2, 1, 3, 2, 1, 0]), st.integers(0, 255)).map(mask)


def apply_errpats(n, bits, pats):
    """flips bits (array over the on-air packet) in place; returns number flipped"""
    from . import models
    words = models.layout(n)[2]
    air = models.layout(n)[0]
    tab = patterns23()
    cnt = 0
    for k in range(len(pats) // 3):
        for b in tab[int(pats[3 * k:3 * k + 3], 16)]:
            i = words[k][b]
            if i is not None:
                bits[air[i]] ^= 1
                cnt += 1
    return cnt


def real_sizes():
    return st.sampled_from([22, 32, 16, 48, 64, 96, 128])


def seeded_bits(seed, n):
    return np.random.RandomState(seed & 0xFFFFFFFF).randint(0, 2, n).astype(np.uint8)
