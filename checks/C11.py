from hypothesis import strategies as st
import numpy as np
from vf import audio, build
from vf.core import Target, Violation, check
from vf.native import Modem
from checks import C09

RULE = ("steady: a steady signal of random symbols at generated tones, level, noise (Eb/N0 8 to 20 dB), phase and rate; after 22 blocks the reported tones must lie within a "
        "fifth of the baud rate of the true ones, ascending, and the reported signal-to-noise ratio within a fixed interval of the true one in 3 kHz; the same signal with "
        "6 dB less noise must read higher by 3 to 9 dB. limits: two signals in separate bands, and a stronger tone outside both; the estimates must follow the limits from "
        "one to the other. Non-trivial: every case.")
ASSUMPTIONS = ["symbols are random and equally likely; the frequency estimator has had 22 blocks (1100 symbols) to settle",
               "an estimate outside its interval counts if it repeats with at least one of two other noise sequences",
               "the signal-to-noise intervals are calibrated: -2.5 to +3.5 dB for four tones, -5.5 to +1.5 dB for two (the estimator's known bias plus at least 1.5 dB of margin)"]
M = None


def prepare():
    build.cdrv("asan")


def setup():
    global M
    M = Modem("asan")


RATES = [(100, 8000, 8), (100, 8000, 10), (100, 8000, 5), (50, 4000, 8), (100, 9600, 6), (300, 9600, 8), (25, 2000, 8), (50, 8000, 10), (600, 19200, 8)]


@st.composite
def steady(draw):
    s = draw(C09.signal(RATES + [(100, 48000, 8)]))
    s["ebno"] = draw(st.integers(8, 14))
    s["lead"] = 1160
    s["ppm"] = 0
    s["delay"] = draw(st.integers(0, 50))
    return {"sig": s, "mode": draw(st.sampled_from([0, 0, 89, 90, 91]))}


def measure(s, mode, M_):
    data, args, lim, tones = C09.render(s, M_, [])
    M.reset()
    M.open(0, mode, *args)
    M.limits(0, *lim)
    M.push(0, data)
    v = M.stats(0)
    check(v.frames >= 20, "too few blocks")
    Rs = args[0]
    est = v.f_est[:M_]
    check(list(est) == sorted(est), lambda: "tone estimates %s are not in ascending order" % (est,))
    check(all(abs(a - b) < 0.2 * Rs for a, b in zip(est, tones)), lambda: "tone estimates %s, true tones %s, %d baud" % (est, tones, Rs))
    check(all(lim[0] - 0.1 * Rs <= a <= lim[1] + 0.1 * Rs for a in est), lambda: "tone estimates %s outside the limits %s" % (est, lim))
    check(abs(v.snr - v.snr2) < 1e-3, lambda: "the two statistics calls disagree: %s and %s dB" % (v.snr, v.snr2))
    return v.snr


def run_steady(c, rec):
    """the estimate is a random variable with rare outliers: out of its interval counts if it repeats with at least one of two other noise and data sequences"""
    try:
        return steady_once(c, rec)
    except Violation as e:
        if e.kind != "oracle":
            raise
        first = e
    bad = 0
    for i in (1, 2):
        try:
            steady_once(dict(c, sig=dict(c["sig"], x=(c["sig"]["x"] + 7919 * i) & 0xFFFFFFFF)), rec)
        except Violation as e:
            if e.kind != "oracle":
                raise
            bad += 1
    rec.label("outlier")
    if bad:
        raise first


def steady_once(c, rec):
    s, mode = dict(c["sig"]), c["mode"]
    M_ = 4 if mode == 0 else 2
    a = measure(s, mode, M_)
    off = 10 * np.log10(s["rate"][0] * (2 if M_ == 4 else 1) / 3000)
    lo, hi = (-2.5, 3.5) if M_ == 4 else (-5.5, 1.5)
    check(lo <= a - (s["ebno"] + off) <= hi, lambda: "reported %.1f dB, true %.1f dB in 3 kHz (%d tones)" % (a, s["ebno"] + off, M_))
    s["ebno"] += 6
    b = measure(s, mode, M_)
    check(lo <= b - (s["ebno"] + off) <= hi, lambda: "reported %.1f dB, true %.1f dB in 3 kHz (%d tones)" % (b, s["ebno"] + off, M_))
    check(3 <= b - a <= 9, lambda: "6 dB less noise moves the reported figure from %.1f to %.1f dB" % (a, b))
    rec.nontrivial()
    rec.label("mask" if s["mask"] else "peak", "quad" if s["quad"] else "real", "tones%d" % M_, "Rs%d" % s["rate"][0])


@st.composite
def limits(draw):
    return {"mode": draw(st.sampled_from([0, 0, 90])), "rate": draw(st.sampled_from([(100, 8000, 8), (100, 8000, 10), (50, 4000, 8), (25, 2000, 8), (300, 24000, 8)])), "quad": draw(st.integers(0, 1)),
            "mask": draw(st.integers(0, 1)), "sp": draw(st.sampled_from([2, 3])), "where": draw(st.tuples(st.integers(0, 100), st.integers(0, 100), st.integers(0, 100))),
            "amps": draw(st.tuples(st.sampled_from([2000, 4000, 6000]), st.sampled_from([2000, 4000, 6000]), st.sampled_from([0, 8000, 12000]))), "x": draw(st.integers(0, 2 ** 32 - 1)),
            "order": draw(st.lists(st.integers(0, 1), min_size=1, max_size=4))}


def run_limits(c, rec):
    Rs, Fs, P = c["rate"]
    M_ = 4 if c["mode"] == 0 else 2
    span = (M_ - 1) * c["sp"] * Rs
    # three bands of the 40 Rs available: signal A, signal B, interferer; each at least 3 Rs apart
    half = Fs / 2
    bandA = (0.05 * half, 0.42 * half)
    bandB = (0.47 * half, 0.84 * half)
    toneI = (0.9 + 0.05 * c["where"][2] / 100) * half
    r = np.random.RandomState(c["x"])
    n = 50 * (3 + 5 * len(c["order"])) + 20
    sig, tones = None, []
    for band, w, a in zip((bandA, bandB), c["where"], c["amps"]):
        f1 = band[0] + Rs + (band[1] - band[0] - span - 2 * Rs) * w / 100
        t = [f1 + i * c["sp"] * Rs for i in range(M_)]
        tones.append(t)
        x = audio.fsk(r.randint(0, M_, n), Fs, Rs, t, r.rand() * 6) * a
        sig = x if sig is None else sig + x
    sig = sig + c["amps"][2] * np.exp(2j * np.pi * toneI * np.arange(len(sig)) / Fs)
    sig = audio.add_noise(sig, 20, c["x"])
    data = audio.to_shorts(sig, c["quad"])
    M.reset()
    info = M.open(0, c["mode"], Rs, c["sp"] * Rs if c["mask"] else -1, Fs, P, c["quad"])
    M.limits(0, *bandA)
    step = 50 * (Fs // Rs) * 2 * (2 if c["quad"] else 1)
    M.push(0, data[:3 * step])
    pos = 3 * step
    for o in c["order"]:
        band = (bandA, bandB)[o]
        M.limits(0, *band)
        M.push(0, data[pos:pos + 5 * step])
        pos += 5 * step
        est = M.stats(0).f_est[:M_]
        check(all(band[0] - 0.1 * Rs <= e <= band[1] + 0.1 * Rs for e in est), lambda: "tone estimates %s outside the limits %s" % (est, band))
        check(all(abs(a - b) < 0.35 * Rs for a, b in zip(est, tones[o])), lambda: "limits %s: tone estimates %s, tones there %s" % (band, est, tones[o]))
    rec.nontrivial()
    rec.label("mask" if c["mask"] else "peak", "quad" if c["quad"] else "real", "tones%d" % M_, "interferer" if c["amps"][2] else "clean")


def targets():
    return [Target("steady", steady(), run_steady, quick=450, thorough=16000, setup=setup),
            Target("limits", limits(), run_limits, quick=300, thorough=10000, setup=setup)]
