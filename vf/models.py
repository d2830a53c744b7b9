"""Independent models of the over-the-air format, written from the format description (not from the code's structure)."""
import functools
import numpy as np

# ------------------------------------------------------------------------------------ CRC-16/CCITT (0x1021, init 0xFFFF)
def crc16(data):
    c = 0xFFFF
    for b in data:
        c ^= b << 8
        for _ in range(8):
            c = ((c << 1) ^ 0x1021) & 0xFFFF if c & 0x8000 else (c << 1) & 0xFFFF
    return c


def with_crc_tail(body):
    c = crc16(body)
    return bytes(body) + bytes([c & 255, c >> 8])


def with_crc_head(body):
    c = crc16(body)
    return bytes([c & 255, c >> 8]) + bytes(body)


# ------------------------------------------------------------------------------------ Golay (23,12), g = x^11+x^10+x^6+x^5+x^4+x^2+1
G = (1 << 11) | (1 << 10) | (1 << 6) | (1 << 5) | (1 << 4) | (1 << 2) | 1


def _mod_g(v):
    for i in range(22, 10, -1):
        if v >> i & 1:
            v ^= G << (i - 11)
    return v


@functools.lru_cache(None)
def golay_tables():
    par = np.array([_mod_g(d << 11) for d in range(4096)], dtype=np.int64)
    err = np.full(2048, -1, dtype=np.int64)
    synd = [_mod_g(1 << i) for i in range(23)]
    err[0] = 0
    for a in range(23):
        err[synd[a]] = 1 << a
        for b in range(a):
            err[synd[a] ^ synd[b]] = (1 << a) | (1 << b)
            for c in range(b):
                err[synd[a] ^ synd[b] ^ synd[c]] = (1 << a) | (1 << b) | (1 << c)
    assert (err >= 0).all()       # the code is perfect
    return par, err


def golay_encode(d):
    return (d << 11) | int(golay_tables()[0][d])


def golay_nearest(w):
    par, err = golay_tables()
    return int(w ^ err[(w & 0x7FF) ^ par[w >> 11]])


# ------------------------------------------------------------------------------------ packet layout
UW = b"$$"
SIZES = (22, 32, 48, 64, 96, 128)       # packet sizes the binary demodulator supports


def ncodewords(n):
    return -(-8 * n // 12)


def tx_bytes(n):
    return -(-(16 + 8 * n + 11 * ncodewords(n)) // 8)


def _isprime(x):
    return x > 1 and all(x % i for i in range(2, int(x ** 0.5) + 1))


def interleaver_b(nbytes):
    if nbytes == 43:
        return 337
    if nbytes == 63:
        return 389
    b = int(nbytes * 8 / 1.62) + 1
    while not _isprime(b):
        b += 1
    return b


@functools.lru_cache(None)
def layout(n):
    """perm: for each plain body bit (MSB-first order) its on-air bit index inside the packet; whiten: on-air whitening bits;
    pos[k]: plain body bit index of each of the codeword bits (MSB first; None for the implied zero of a short codeword)."""
    body = tx_bytes(n) - 2
    nb = body * 8
    b = interleaver_b(body)
    lsb = lambda i: (i // 8) * 8 + 7 - i % 8        # convert between bit-in-byte orders
    air = np.empty(nb, dtype=np.int64)
    for i in range(nb):
        air[lsb(i)] = 16 + lsb((b * i) % nb)
    reg, seq = 0x4A80, []
    for i in range(nb):
        o = (reg ^ (reg >> 1)) & 1
        seq.append(o)
        reg = (reg >> 1) | (o << 14)
    white = np.zeros(nb + 16, dtype=np.uint8)
    for i in range(nb):
        white[16 + lsb(i)] = seq[i]
    nd, p = 8 * n, 8 * n
    words = []
    for k in range(ncodewords(n)):
        r = min(12, nd - 12 * k)
        w = [12 * k + i for i in range(r)]
        if r < 12:                                  # a short last word is sent as 0..0 data 0
            w = [None] * (11 - r) + w + [None]
        words.append(w + list(range(p, p + 11)))
        p += 11
    return air, white, words


@functools.lru_cache(None)
def _gather(n):
    """(codewords x 23) plain indices with short words' implied zeros pointing past the end."""
    air, white, words = layout(n)
    nb = len(air)
    return np.array([[nb if i is None else i for i in w] for w in words], dtype=np.int64)


_POW23 = (1 << np.arange(22, -1, -1)).astype(np.int64)


def l2_encode_bits(payload):
    n = len(payload)
    air, white, words = layout(n)
    plain = np.zeros(len(air), dtype=np.uint8)
    bits = np.unpackbits(np.frombuffer(bytes(payload), dtype=np.uint8))
    plain[:8 * n] = bits
    ext = np.append(plain, 0).astype(np.int64)
    data = ext[_gather(n)[:, :12]] @ (1 << np.arange(11, -1, -1))
    par = golay_tables()[0][data]
    pb = ((par[:, None] >> np.arange(10, -1, -1)) & 1).astype(np.uint8).ravel()
    plain[8 * n:8 * n + len(pb)] = pb
    out = np.zeros(16 + len(air), dtype=np.uint8)
    out[:16] = np.unpackbits(np.frombuffer(UW, dtype=np.uint8))
    out[air] = plain
    return out ^ white


def l2_encode(payload):
    return np.packbits(l2_encode_bits(payload)).tobytes()


def l2_decode_bits(n, rx):
    """rx: array of on-air bits (tx_bytes(n)*8), anything in the unique word."""
    air, white, words = layout(n)
    plain = (np.asarray(rx, dtype=np.uint8) ^ white)[air]
    ext = np.append(plain, 0).astype(np.int64)
    w = ext[_gather(n)] @ _POW23
    par, err = golay_tables()
    d = (w ^ err[(w & 0x7FF) ^ par[w >> 11]]) >> 11
    db = ((d[:, None] >> np.arange(11, -1, -1)) & 1).astype(np.uint8)
    bits = np.zeros(len(ext), dtype=np.uint8)
    bits[_gather(n)[:, :12]] = db
    return np.packbits(bits[:8 * n]).tobytes()


def l2_decode(n, rx):
    return l2_decode_bits(n, np.unpackbits(np.frombuffer(bytes(rx), dtype=np.uint8)))


def codeword_air_bits(n):
    """on-air bit indices (within the packet) of each codeword's transmitted bits"""
    air, white, words = layout(n)
    return [[int(air[i]) for i in w if i is not None] for w in words]


def crc_kind(payload):
    """which CRC position verifies: set of 'tail','head'"""
    s = set()
    if len(payload) < 2:
        return s
    if crc16(payload[:-2]) == payload[-2] | payload[-1] << 8:
        s.add("tail")
    if crc16(payload[2:]) == payload[0] | payload[1] << 8:
        s.add("head")
    return s


def reportable(payload):
    """the versions under which a demodulator may report this content (empty: must not be reported)"""
    n, k = len(payload), crc_kind(payload)
    v = set()
    if n == 22 and "tail" in k:
        v.add(1)
    if n == 32 and "tail" in k:
        v.add(2)
    if n in (32, 48, 64, 96, 128) and "head" in k:
        v.add(3)
    return v


_UWBITS = np.array([0, 0, 1, 0, 0, 1, 0, 0] * 2, dtype=np.int64)


def uw_positions(bits, maxerr=1):
    """positions of unique words with at most maxerr bit errors"""
    b = np.asarray(bits, dtype=np.int64)
    if len(b) < 16:
        return []
    c = np.correlate(2 * b - 1, 2 * _UWBITS - 1, "valid")
    return [int(i) for i in np.nonzero(c >= 16 - 2 * maxerr)[0]]
