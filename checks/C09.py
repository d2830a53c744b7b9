from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, gen, models
from vf.core import Target, check
from vf.native import Modem
from checks import C04

RULE = ("A case modulates packets (4-tone) or sentences (2-tone) with an independent continuous-phase modulator at a generated carrier, phase, amplitude, start offset, "
        "symbol clock error (up to 200 ppm), tone spacing, noise level (Eb/N0 20 dB to none), sample rate, baud rate, oversampling, real or quadrature form, estimator "
        "(peak or mask) and estimator limits, and requires exactly the transmitted content, in order, once. Non-trivial: every case (at least one packet is sent).")
ASSUMPTIONS = ["the packet follows at least 100 symbols of varied lead-in at the same carrier, and is followed by one and a half demodulator blocks of signal",
               "streams in which some other window happens to carry a valid checksum (about 1 in 10^4) are set aside",
               "the outer tones lie at least one baud rate inside the estimator limits, tone spacing is at least twice the baud rate",
               "peak estimator: spacing is a multiple of the baud rate; for other spacings (such as 270 Hz at 100 baud) it mistakes a side line for a tone now and then, "
               "so there at most two of six packets may be lost, and none may be wrong or repeated",
               "peak estimator: about one packet in 10^4 is lost because a tone was rare in one block; a loss counts if it repeats with other lead-ins and alignments of the same packets",
               "mask estimator: the spacing given to the demodulator is the true one"]
M = None
# baud rate, sample rate, oversampling
RATES4 = [(100, 8000, 8), (100, 8000, 10), (100, 8000, 5), (100, 8000, 16), (50, 4000, 8), (100, 9600, 6), (300, 9600, 8), (25, 2000, 8), (50, 8000, 10), (1200, 48000, 8), (100, 48000, 8), (50, 48000, 8)]
RATES2 = [(100, 8000, 8), (100, 8000, 10), (100, 8000, 5), (50, 4000, 8), (50, 8000, 10), (300, 9600, 8), (45, 3600, 8), (75, 6000, 8), (110, 8800, 10), (100, 48000, 8), (600, 19200, 8)]


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


def signal(rates):
    """everything about the signal but its content; positions are fractions of what the configuration allows"""
    return st.fixed_dictionaries({"rate": st.sampled_from(rates), "quad": st.integers(0, 1), "mask": st.integers(0, 1),
                                  "sp": st.sampled_from([2, 2, 2.5, 2.7, 3, 4, 4.25, 5]), "lo": st.integers(0, 1000), "hi": st.integers(0, 1000), "f1": st.integers(0, 1000),
                                  "neg": st.integers(0, 3), "lead": st.sampled_from([100, 130, 177, 250]), "x": st.integers(0, 2 ** 32 - 1), "amp": st.sampled_from([100, 1000, 8000, 16000]),
                                  "ebno": st.sampled_from([99, 30, 25, 20]), "ppm": st.sampled_from([0, 0, 50, -50, 200, -200, 137]), "delay": st.integers(0, 2000),
                                  "default": st.integers(0, 9)})


def render(s, M_, chunks, lead=None):
    """chunks: bit arrays, the first preceded by the lead-in -> (samples, open arguments, limits or None, tones)"""
    Rs, Fs, P = s["rate"]
    mult = s["sp"]
    if not s["mask"]:
        mult = s.get("free_sp") or max(2, round(mult))
    while (M_ - 1) * mult + 3 > Fs / 2 / Rs:                # leave room for all tones below half the sample rate
        mult -= 1
    spacing = int(round(mult * Rs))
    span = (M_ - 1) * spacing
    neg = s["quad"] and s["neg"] == 0
    base = -0.5 * Fs if neg else 0.0
    room = (0.5 * Fs - base) - span - 2 * Rs              # freedom for the limits around the tones
    lo = base + 0.3 * room * s["lo"] / 1000
    hi = 0.5 * Fs - 0.3 * room * s["hi"] / 1000
    f1 = lo + Rs + (hi - lo - span - 2 * Rs) * s["f1"] / 1000
    tones = [f1 + i * spacing for i in range(M_)]
    r = np.random.RandomState(s["x"])
    k = M_.bit_length() - 1
    if lead is None:
        lead = r.randint(0, 2, s["lead"] * k)
    bits = np.concatenate([lead] + chunks)
    amp = float(s["amp"])
    x = audio.fsk(audio.to_symbols(bits, M_), Fs, Rs, tones, r.rand() * 2 * np.pi, s["ppm"]) * amp
    x = np.concatenate([np.zeros(int(s["delay"] / 2000 * Fs), complex), x])
    if s["ebno"] < 90:
        x = audio.add_noise(x, audio.noise_sigma(Fs, Rs, M_, s["ebno"], amp, s["quad"]), s["x"])
    return audio.to_shorts(x, s["quad"]), (Rs, spacing if s["mask"] else -1, Fs, P, s["quad"]), (lo, hi), tones


def demodulate(c, mode, chunks, rec, lead=None):
    s = c["sig"]
    M_ = 4 if mode == 0 else 2
    data, args, lim, tones = render(s, M_, chunks, lead)
    M.reset()
    M.open(0, mode, *args)
    M.limits(0, *lim)
    ev = M.push(0, data)
    rec.nontrivial()
    rec.label("mask" if s["mask"] else "peak", "quad" if s["quad"] else "real", "ebno%d" % s["ebno"], "mode%d" % mode, "Fs%d_Rs%d" % (s["rate"][1], s["rate"][0]))
    if tones[0] < 0:
        rec.label("negative_carrier")
    return [(e.text, e.crc) for e in ev], tones


def tail(x, n):
    return np.random.RandomState((x + 7) & 0xFFFFFFFF).randint(0, 2, n)


@st.composite
def binary(draw):
    return {"sig": draw(signal(RATES4)), "packets": draw(B.again(st.lists(B.packets(errors=False), min_size=1, max_size=3))), "gap": draw(st.integers(0, 300))}


def run_binary(c, rec):
    """once in 10^4 signals the peak estimator loses a block in which one tone was rare: only what is also lost with another lead-in and alignment counts"""
    if c["sig"]["mask"] or attempt(c, rec, True) is None:
        if c["sig"]["mask"]:
            attempt(c, rec, False)
        return
    rec.label("peak_retry")
    lost = 0
    for i in range(1, 4):
        s = dict(c["sig"], x=(c["sig"]["x"] + 7919 * i) & 0xFFFFFFFF, delay=(c["sig"]["delay"] + 271 * i) % 2001, lead=100 + (c["sig"]["lead"] + 37 * i) % 151)
        lost += attempt(dict(c, sig=s), rec, True) is not None
    if lost >= 2:
        attempt(c, rec, False)


def attempt(c, rec, may_lose):
    """-> None if all is well; what was lost, if that is all that is wrong and it may be"""
    chunks, want = [], []
    for i, p in enumerate(c["packets"]):
        pay, b = B.packet_bits(p)
        chunks += [b, tail(c["sig"]["x"] + i, c["gap"] * 2)]
        want.append(pay.hex().upper().encode())
    chunks.append(tail(c["sig"]["x"] - 1, 160))
    got, tones = demodulate(c, 0, chunks, rec)
    if got == [(w, 1) for w in want]:
        return
    # about one stream in 10^4 carries another window with a valid checksum, which may be reported (C05), and may hide what it overlaps
    lead = np.random.RandomState(c["sig"]["x"]).randint(0, 2, c["sig"]["lead"] * 2)
    at, pos = [], len(lead)
    for ch in chunks[:-1:2]:
        at.append(pos)
        pos += len(ch) + c["gap"] * 2
    if C04.accidental(np.concatenate([lead] + chunks), [(bytes.fromhex(w.decode()), None) for w in want], at):
        rec.label("set_aside_accidental")
        return
    mine = [g for g in got if g[0] in want or not accidental_report(g[0])]
    it = iter(want)
    if may_lose and mine != [(w, 1) for w in want] and all(g[1] == 1 and g[0] in it for g in mine):
        return mine
    check(mine == [(w, 1) for w in want], lambda: "tones %s: reported %r, sent %r" % (tones, got, want))


def accidental_report(text):
    """content that verifies but was not sent: found in the noise before the signal"""
    try:
        return bool(models.reportable(bytes.fromhex(text.decode("ascii"))))
    except ValueError:
        return False


TEXT = bytes(i for i in range(33, 127) if i not in (36, 42))


@st.composite
def rtty(draw):
    return {"sig": draw(signal(RATES2)), "mode": draw(st.sampled_from([89, 90, 91])), "texts": draw(st.lists(gen.hexbytes(60), min_size=1, max_size=2)), "len": draw(st.integers(4, 60)),
            "dollars": draw(st.integers(2, 5)), "gap": draw(st.integers(0, 20)), "drift": draw(st.integers(0, 10))}


def run_rtty(c, rec):
    chunks, want = [], []
    mode = c["mode"]
    for t in c["texts"]:
        body = bytes(TEXT[b % len(TEXT)] for b in bytes.fromhex(t))[:c["len"]]
        s = b"$" * c["dollars"] + body + b"*%04X" % models.crc16(body)
        want.append(s)
        chunks += [B.rtty_bits(s + b"\n", mode), B.rtty_bits(b"U" * c["gap"], mode)]
    r = bytes(65 + v % 26 for v in np.random.RandomState(c["sig"]["x"] ^ 5).randint(0, 26, 200))
    chunks.append(B.rtty_bits(r[:150], mode))
    got, tones = demodulate(c, mode, chunks, rec, B.rtty_bits(r[150:], mode)[-c["sig"]["lead"]:])
    check(got == [(w, 1) for w in want], lambda: "tones %s: reported %r, sent %r" % (tones, got, want))


@st.composite
def odd_spacing(draw):
    s = draw(signal(RATES4[:-2]))
    s["mask"] = 0
    s["free_sp"] = draw(st.sampled_from([2.7, 2.7, 2.5, 4.25]))
    return {"sig": s, "n": draw(st.sampled_from([22, 32])), "body": draw(gen.hexbytes(120))}


def run_odd(c, rec):
    chunks, want = [], []
    body = bytes.fromhex(c["body"])
    for i in range(6):
        p = models.with_crc_tail((body[20 * i:20 * i + 20] + bytes(12))[:c["n"] - 3] + bytes([i]))
        want.append((p.hex().upper().encode(), 1))
        chunks += [models.l2_encode_bits(p), tail(c["sig"]["x"] + i, 120)]
    chunks.append(tail(c["sig"]["x"] - 1, 160))
    got, tones = demodulate(c, 0, chunks, rec)
    sent = set(want)
    got = [g for g in got if g in sent or not accidental_report(g[0])]
    it = iter(want)
    check(all(g in it for g in got), lambda: "tones %s: reported %r, sent %r" % (tones, got, want))
    check(len(got) >= 4, lambda: "tones %s: only %d of 6 packets reported" % (tones, len(got)))
    rec.label("lost%d" % (6 - len(got)))


def targets():
    return [Target("binary", binary(), run_binary, quick=900, thorough=30000, setup=setup),
            Target("rtty", rtty(), run_rtty, quick=500, thorough=16000, setup=setup),
            Target("odd_spacing", odd_spacing(), run_odd, quick=160, thorough=6000, setup=setup)]
