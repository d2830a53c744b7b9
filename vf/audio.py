"""Audio: arbitrary sample pieces, and an FSK modulator with impairments."""
from hypothesis import strategies as st
import numpy as np

PIECES = ["noise", "loud", "silence", "dc", "square", "tones", "impulses", "fsk", "ramp", "min", "alternate"]


def pieces(Ts):
    """a piece is up to 40 symbols long, not in whole symbols"""
    return st.fixed_dictionaries({"kind": st.sampled_from(PIECES), "len": st.tuples(st.sampled_from([0, 1, 5, 20, 30, 40]), st.integers(1, max(1, Ts))).map(lambda t: t[0] * Ts + t[1]), "amp": st.sampled_from([1, 10, 300, 5000, 20000, 32767, 60000]),
                                  "seed": st.integers(0, 2 ** 32 - 1)})


def render_piece(p, Fs, Rs, M):
    """complex float samples"""
    n, a, r = p["len"], float(p["amp"]), np.random.RandomState(p["seed"])
    k = p["kind"]
    t = np.arange(n)
    if k == "noise":
        return (r.randn(n) + 1j * r.randn(n)) * a / 3
    if k == "loud":
        return r.choice([-32768, 32767], n) + 1j * r.choice([-32768, 32767], n)
    if k == "silence":
        return np.zeros(n, complex)
    if k == "dc":
        return np.full(n, a + 1j * a)
    if k == "min":
        return np.full(n, -32768 - 32768j)
    if k == "alternate":
        return np.where(t & 1, -32768, 32767) * (1 + 1j)
    if k == "square":
        q = 1 + p["seed"] % 64
        return np.where((t // q) & 1, a, -a) * (1 + 1j)
    if k == "ramp":
        return ((t * (1 + p["seed"] % 999)) % 65536 - 32768) * (1 - 1j)
    if k == "impulses":
        x = np.zeros(n, complex)
        x[r.randint(0, n, 1 + n // 50)] = a
        return x
    if k == "tones":
        f = r.uniform(-0.5, 0.5, 1 + p["seed"] % 5)
        return sum(np.exp(2j * np.pi * fi * t) for fi in f) * a / len(f)
    sym = r.randint(0, M, n // max(1, Fs // Rs) + 1)
    f = (0.02 + 0.4 * r.rand()) + sym.repeat(Fs // Rs)[:n] * (2.0 * Rs / Fs)
    return np.exp(2j * np.pi * np.cumsum(f)) * a


def to_shorts(x, quad):
    """clipped 16 bit samples, interleaved when quadrature"""
    if quad:
        y = np.empty(2 * len(x))
        y[0::2], y[1::2] = x.real, x.imag
    else:
        y = x.real
    return np.clip(np.round(y), -32768, 32767).astype("<i2").tobytes()


def fsk(symbols, Fs, Rs, tones, phase=0.0, ppm=0.0, delay=0):
    """Continuous-phase FSK (complex, unit amplitude), symbol clock off by ppm, after delay samples of nothing."""
    symbols = np.asarray(symbols)
    Ts = Fs / Rs * (1 + ppm * 1e-6)
    n = int(len(symbols) * Ts)
    idx = np.minimum((np.arange(n) / Ts).astype(int), len(symbols) - 1)
    f = np.asarray(tones, float)[symbols[idx]]
    x = np.exp(1j * (phase + 2 * np.pi * np.cumsum(f) / Fs))
    return np.concatenate([np.zeros(delay, complex), x])


def to_symbols(bits, M):
    b = np.asarray(bits, int)
    if M == 2:
        return b
    if len(b) % 2:
        b = np.append(b, 0)
    return b[0::2] * 2 + b[1::2]


def noise_sigma(Fs, Rs, M, ebno_db, amp, quad):
    """standard deviation per component for the wanted Eb/N0 of a tone of peak amplitude amp"""
    power = amp * amp if quad else amp * amp / 2
    eb = power / Rs / (2 if M == 4 else 1)
    n0 = eb / 10 ** (ebno_db / 10)
    total = n0 * Fs if quad else n0 * Fs / 2
    return np.sqrt(total / 2) if quad else np.sqrt(total)


def add_noise(x, sigma, seed):
    r = np.random.RandomState(seed & 0xFFFFFFFF)
    if sigma <= 0:
        return x
    return x + sigma * (r.randn(len(x)) + 1j * r.randn(len(x)))
