import json, os, struct, subprocess, tempfile
from hypothesis import strategies as st
import numpy as np
from vf import audio, build, models
from vf.core import Target, check, Violation
from vf.native import Modem, san_env, death_message

RULE = ("loop: generated bits through fsk_mod and fsk_demod (as processes) for two and four tones, generated sample rate, baud rate, tone frequencies, decimation, block length, estimator and "
        "limits, as 16-bit real, 16-bit complex or 8-bit complex samples, hard or soft decisions. fsk_mod's samples must equal an independent modulator's; after the receiver has settled the bits must come "
        "back unchanged. api: the same through the library's modulator and demodulator in one process. testbits: the test-bit generator, checker and demodulator's test-frame mode on clean "
        "and corrupted bits. frames: horus_gen_test_bits for every mode and generated frame counts, decoded by the reference model and checked field by field. Non-trivial: every case.")
ASSUMPTIONS = ["tones lie at least one baud rate inside the estimator limits, spacing is a multiple of the baud rate and at least twice it, blocks are 25 symbols or longer",
               "bits are compared from 250 symbols (at least two blocks) on, allowing a fixed delay",
               "with four tones and the peak estimator, each run of 16 symbols uses every tone four times (it takes a side line for a tone that is absent for most of 50 symbols)", "test frames are 50 to 400 bits (much shorter ones match themselves shifted)",
               "corrupted test frames carry fewer errors than the checker's threshold for recognising a frame"]
T = {}
M = None


def prepare():
    for t in ("fsk_mod", "fsk_demod", "fsk_get_test_bits", "fsk_put_test_bits", "horus_gen_test_bits"):
        build.tool(t)
    build.cdrv("asan")


def setup():
    global M
    for t in ("fsk_mod", "fsk_demod", "fsk_get_test_bits", "fsk_put_test_bits", "horus_gen_test_bits"):
        T[t] = build.tool(t)
    M = Modem("asan")


def setup_py():
    setup()
    from vf import repo
    repo.setup(native=True)


IO = {"fsk_mod": "io", "fsk_demod": "io", "fsk_get_test_bits": "o", "fsk_put_test_bits": "i"}


def sh(tool, args, data=b"", ok=(0,), files=0):
    """runs a tool; files: 1 = its input is a named file, 2 = its output is a named file"""
    if files:
        with tempfile.TemporaryDirectory() as d:
            args = list(args)
            at = [i for i, a in enumerate(args) if a == "-"]
            out = None
            for i, k in zip(at, IO[tool]):
                if k == "i" and files & 1:
                    args[i] = os.path.join(d, "in")
                    with open(args[i], "wb") as f:
                        f.write(data)
                    data = b""
                elif k == "o" and files & 2:
                    args[i] = out = os.path.join(d, "out")
            p = sh(tool, args, data, ok)
            if out is not None:
                check(p.stdout == b"", lambda: "%s %s writes to its standard output as well" % (tool, args))
                try:
                    p.stdout = open(out, "rb").read()
                except OSError:
                    check(False, lambda: "%s %s writes no file" % (tool, args))
            return p
    try:
        p = subprocess.run([T[tool]] + [str(a) for a in args], input=data, capture_output=True, env=san_env(), timeout=100)
    except subprocess.TimeoutExpired:
        raise Violation("%s %s does not end" % (tool, args), "hang")
    if p.returncode not in ok:
        kind, msg = death_message("%s %s" % (tool, args), p.returncode, p.stderr.decode(errors="replace"))
        raise Violation(msg, kind)
    return p


# Fs/Rs has many divisors to choose the decimation from
RATES = [(8000, 100), (8000, 50), (9600, 300), (9600, 100), (4000, 50), (2000, 25), (48000, 1200), (48000, 600), (19200, 300), (3600, 45), (8800, 110), (48000, 2400), (7500, 75), (16000, 1000), (240000, 10000)]


@st.composite
def conf(draw):
    Fs, Rs = draw(st.sampled_from(RATES))
    Ts = Fs // Rs
    ps = [p for p in range(5, 21) if Ts % p == 0]
    P = draw(st.sampled_from(ps))
    m = draw(st.sampled_from([2, 4]))
    mult = draw(st.sampled_from([2, 2, 3, 4]))
    while (m - 1) * mult + 3 > Fs / 2 / Rs:
        mult -= 1
    return {"Fs": Fs, "Rs": Rs, "P": P, "M": m, "fs": mult * Rs, "f1": draw(st.integers(0, 1000)), "nsym": draw(st.sampled_from([50, 50, 25, 40, 80, 100])), "mask": draw(st.integers(0, 1)), "x": draw(st.integers(0, 2 ** 32 - 1)),
            "blocks": draw(st.integers(4, 9)), "rest": draw(st.integers(0, 60))}


def tone1(c, margin=1.1):
    span = (c["M"] - 1) * c["fs"]
    lo, hi = margin * c["Rs"], c["Fs"] / 2 - margin * c["Rs"] - span
    return int(lo + (hi - lo) * c["f1"] / 1000)


def aligned(tx, rx, k, skip, what):
    """rx is tx after some fixed delay of up to two symbols, from skip bits on"""
    best = None
    for d in range(-2 * k, 4 * k + 1):
        n = min(len(rx), len(tx) + d)
        a = rx[skip:n]
        b = tx[skip - d:n - d]
        e = int(np.count_nonzero(a != b))
        if best is None or e < best[0]:
            best = (e, d, len(a))
        if e == 0:
            break
    check(best[2] >= 60, lambda: "%s: only %d bits came back" % (what, len(rx)))
    check(best[0] == 0, lambda: "%s: %d of %d bits differ at the best alignment (%d)" % (what, best[0], best[2], best[1]))


def content(r, n, m, mask):
    """random bits; the peak estimator is given every tone often enough within its memory of about 50 symbols"""
    if m == 2 or mask:
        return r.randint(0, 2, n).astype(np.uint8)
    s = np.concatenate([r.permutation(np.repeat(np.arange(4), 4)) for _ in range(n // 32 + 1)])
    return np.stack([s >> 1, s & 1], 1).ravel()[:n].astype(np.uint8)


@st.composite
def loop(draw):
    c = draw(conf())
    c["form"] = draw(st.sampled_from(["s16", "s16", "cs16", "cu8"]))
    c["soft"] = draw(st.integers(0, 1))
    c["limits"] = draw(st.integers(0, 2))
    c["long"] = draw(st.integers(0, 1))
    c["amp"] = draw(st.sampled_from([0.1, 0.5, 1.0]))
    c["t"] = draw(st.sampled_from([0, 0, 1]))
    c["files"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    return c


def run_loop(c, rec):
    Fs, Rs, m, fs, nsym = c["Fs"], c["Rs"], c["M"], c["fs"], c["nsym"]
    k = m // 2
    Ts = Fs // Rs
    f1 = tone1(c)
    r = np.random.RandomState(c["x"])
    nb = 50 * k                                          # the modulator tool works in blocks of 50 symbols
    settle = max(2, -(-250 // nsym)) * nsym              # whole blocks of symbols
    n = nb * (-(-(c["blocks"] * nsym + settle) // 50) + 2) + c["rest"]
    bits = content(r, n, m, c["mask"])
    a = [m, Fs, Rs, f1, fs, "-", "-"]
    if c["x"] & 1:
        a = ["-p", c["P"]] + a
    p = sh("fsk_mod", a, bits.tobytes(), files=c["files"])
    y = np.frombuffer(p.stdout, "<i2")
    used = bits[:n // nb * nb]
    sym = audio.to_symbols(used, m)
    check(len(y) == len(sym) * Ts, lambda: "fsk_mod %s turned %d bits into %d samples, not %d" % (a, n, len(y), len(sym) * Ts))
    z = audio.fsk(sym, Fs, Rs, [f1 + i * fs for i in range(m)])
    err = np.abs(y - 2000 * z.real) if len(y) else np.zeros(1)
    check(err.max() < 4 + 2000 * (2e-3 + 4e-7 * len(y)), lambda: "fsk_mod %s: sample %d is %d, should be %.1f" % (a, err.argmax(), y[err.argmax()], 2000 * z.real[err.argmax()]))
    form = c["form"]
    if form == "s16":
        data = p.stdout
        opt = []
    elif form == "cs16":
        if f1 > Rs * 2 and c["x"] & 2:                   # the image below zero
            z = np.conj(z)
            used = 1 - used
        data = audio.to_shorts(z * 16000 * c["amp"], 1)
        opt = [["-c", "--cs16"][c["x"] >> 3 & 1]]
    else:
        data = np.empty(2 * len(z))
        data[0::2], data[1::2] = z.real, z.imag
        data = np.clip(np.round(data * 120 * c["amp"] + 127), 0, 255).astype(np.uint8).tobytes()
        opt = [["-d", "--cu8"][c["x"] >> 3 & 1]]
    opt += ["-p", c["P"]] if not c["long"] else ["--conv", c["P"]]
    if nsym != 50:
        opt += ["--nsym", nsym]
    if c["mask"]:
        opt += ["--mask", fs]
    if c["limits"]:
        lo, hi = f1 - Rs, f1 + (m - 1) * fs + Rs
        if form == "cs16" and f1 > Rs * 2 and c["x"] & 2:
            lo, hi = -hi, -lo
        opt += ["--fsk_lower=%d" % lo, "--fsk_upper=%d" % hi]
    if c["t"]:
        opt += [["-t50", "--stats=50", "-t", "--stats", "-t0"][c["x"] >> 5 & 3 if c["x"] >> 8 & 1 else 0]]
    args = opt + [m, Fs, Rs, "-", "-"]
    p = sh("fsk_demod", args, data, files=c["files"])
    rx = np.frombuffer(p.stdout, np.uint8)
    check(len(rx) % (nsym * k) == 0, lambda: "fsk_demod %s: %d bits are not whole blocks" % (args, len(rx)))
    check(set(np.unique(rx)) <= {0, 1}, lambda: "fsk_demod %s: output is not one bit per byte" % (args,))
    check(len(rx) >= len(used) - 2 * nsym * k, lambda: "fsk_demod %s: %d bits in, %d out" % (args, len(used), len(rx)))
    aligned(used, rx, k, settle * k, "fsk_demod %s" % (args,))
    if c["soft"]:
        s = np.frombuffer(sh("fsk_demod", [["-s", "--soft-dec"][c["x"] >> 4 & 1]] + args, data).stdout, "<f4")
        check(len(s) == len(rx), lambda: "fsk_demod -s %s: %d soft decisions, %d hard ones" % (args, len(s), len(rx)))
        aligned(used, (s < 0 if m == 2 else s > 0).astype(np.uint8), k, settle * k, "fsk_demod -s %s" % (args,))
    if c["t"]:
        k = 0
        for l in p.stderr.decode(errors="replace").split("\n"):
            if l.startswith("{"):
                strict(l)
                k += 1
        check(k >= 1, lambda: "fsk_demod %s: no statistics printed" % (args,))
    rec.nontrivial()
    rec.label(form, "tones%d" % m, "mask" if c["mask"] else "peak", "soft" if c["soft"] else "hard", "stats" if c["t"] else "nostats")


def strict(l):
    def no(v):
        raise ValueError(v)
    try:
        d = json.loads(l, parse_constant=no)
        d["EbNodB"] + d["ppm"] + d["f1_est"] + d["f2_est"]
        return d
    except (ValueError, KeyError, TypeError) as e:
        raise Violation("statistics line is not JSON with the usual fields (%r): %r" % (e, l[:300]))


@st.composite
def api(draw):
    c = draw(conf())
    c["nsym"] = 50
    c["cplx"] = draw(st.integers(0, 1))
    return c


def run_api(c, rec):
    k = c["M"] // 2
    bits = content(np.random.RandomState(c["x"]), 50 * k * (c["blocks"] + 6), c["M"], c["mask"])
    lim = tone1(c)
    if c["cplx"] and c["x"] & 1 and c["Rs"] * 4 < c["Fs"] // 2:
        pass
    rx = np.frombuffer(M.fsk_loop(c["Fs"], c["Rs"], c["M"], c["P"], lim, c["fs"], c["cplx"], c["mask"], bits.tobytes()), np.uint8)
    aligned(bits, rx, k, 250 * k, "library loop %r" % c)
    rec.nontrivial()
    rec.label("tones%d" % c["M"], "complex" if c["cplx"] else "real", "mask" if c["mask"] else "peak")


@st.composite
def testbits(draw):
    F = draw(st.one_of(st.just(100), st.integers(50, 400)))
    return {"F": F, "n": draw(st.integers(1, 30)), "rest": draw(st.integers(0, 49)), "explicit": draw(st.integers(0, 1)), "pre": draw(st.integers(0, 300)), "x": draw(st.integers(0, 2 ** 32 - 1)),
            "flips": draw(st.lists(st.tuples(st.integers(0, 29), st.integers(0, 399)), max_size=6)), "b": draw(st.sampled_from([0, 0, 0.001, 0.05])), "p": draw(st.integers(0, 40)), "q": draw(st.integers(0, 1)),
            "demod": draw(st.sampled_from([0, 0, 1])), "files": draw(st.sampled_from([0, 0, 1, 2, 3])), "thr": draw(st.sampled_from([0, 0, 0.02, 0.05, 0.15, 0.3]))}


def run_testbits(c, rec):
    F, n = c["F"], c["n"]
    own = F != 100 or c["explicit"]
    g = sh("fsk_get_test_bits", ["-", n * F + c["rest"] % F] + ([F] if own else []), files=c["files"])
    tx = np.frombuffer(g.stdout, np.uint8)
    check(len(tx) == n * F, lambda: "fsk_get_test_bits gave %d bits for %d frames of %d" % (len(tx), n, F))
    check(set(np.unique(tx)) <= {0, 1}, "test bits are not bits")
    check(bool(np.all(tx.reshape(n, F) == tx[:F])), "test frames differ")
    check(0.25 * F < tx[:F].sum() < 0.75 * F, "test frame is not random bits")
    # a few flips per frame stay below the recognition threshold of 10%
    cap = max(0, int(np.ceil(0.1 * F)) - 1)
    per = {}
    for i, j in c["flips"]:
        s = per.setdefault(i % n, set())
        if len(s) < cap:
            s.add(j % F)
    rx = tx.copy()
    for i, s in per.items():
        for j in s:
            rx[i * F + j] ^= 1
    nerr = sum(map(len, per.values()))
    lead = np.random.RandomState(c["x"]).randint(0, 2, c["pre"]).astype(np.uint8)
    stream = np.concatenate([lead, rx])
    # the checker's rule on its own terms: any window of F bits with fewer than 10% errors counts as a frame
    frames, errs = 0, 0
    w = np.lib.stride_tricks.sliding_window_view(np.concatenate([np.zeros(F - 1, np.uint8), stream]), F)
    e = (w != tx[:F]).sum(1)
    hit = e < np.float32(c["thr"] or 0.1) * F
    frames, errs = int(hit.sum()), int(e[hit].sum())
    if c["pre"] == 0 and not c["thr"]:
        check(frames == n and errs == nerr, lambda: "frames of %d bits are mistaken for their own shifts" % F)
    args = (["-f", F] if own else []) + (["-b", c["b"]] if c["b"] else []) + (["-p", c["p"]] if c["p"] else []) + (["-q"] if c["q"] else []) + (["-t", c["thr"]] if c["thr"] else []) + ["-"]
    p = sh("fsk_put_test_bits", args, stream.tobytes(), ok=(0, 1), files=c["files"])
    text = p.stderr.decode(errors="replace")
    lines = text.split("\n")
    good = frames >= c["p"] and frames > 0 and errs / (frames * F) <= np.float32(c["b"])
    check(("PASS" in text) == good and ("FAIL" in text) == (not good) and p.returncode == (0 if good else 1),
          lambda: "fsk_put_test_bits %s on %d frames with %d bit errors said %r (status %d)" % (args, frames, errs, text[-200:], p.returncode))
    want = "[%04d] BER %5.3f, bits tested %6d, bit errors %4d" % (frames, np.float32(errs) / np.float32(frames * F) if frames else 0.5, frames * F, errs)
    got = [l for l in lines if "bits tested" in l]
    check(got and got[-1].split() == want.split(), lambda: "fsk_put_test_bits %s said %r, expected %r" % (args, got[-1:], want))
    if c["pre"] == 0 and nerr and not c["thr"]:
        check(errs > 0, "corruption went unnoticed")
    if c["demod"] and F == 100:
        # the demodulator tool's own test-frame mode
        long = np.tile(tx[:F], 12)
        m = 2 + 2 * (c["x"] & 1)
        y = sh("fsk_mod", [m, 8000, 100, 1000, 400, "-", "-"], long.tobytes()).stdout
        for opt in ([], ["-s"], ["-t"]):
            p = sh("fsk_demod", ["-f"] + opt + [m, 8000, 100, "-", "-"], y)
            ls = p.stderr.decode(errors="replace").split("\n")
            if opt == ["-t"]:
                js = [strict(l) for l in ls if l.startswith("{")]
                check(js and js[-1]["errs"] <= 9 and js[-1]["frames"] >= 9 and js[-1]["bits"] == js[-1]["frames"] * 100, lambda: "test frames through the demodulator: %r" % js[-1:])
            else:
                el = [l for l in ls if l.startswith("errs:")]
                check(len(el) >= 9 and all(l.startswith("errs: 0 ") for l in el[2:]), lambda: "test frames through the demodulator %s: %r" % (opt, el))
    rec.nontrivial()
    rec.label("own_size" if own else "default_size", "clean" if not nerr else "corrupted", "pass" if good else "fail", "demod" if c["demod"] and F == 100 else "")


SIZE = {0: 22, 1: 32, 2: 32, 3: 64, 4: 128}


@st.composite
def frames(draw):
    return {"mode": draw(st.integers(0, 4)), "n": draw(st.one_of(st.integers(0, 12), st.integers(0, 300), st.sampled_from([255, 256, 257])))}


def run_frames(c, rec):
    mode, n = c["mode"], c["n"]
    size = SIZE[mode]
    p = sh("horus_gen_test_bits", [mode, n])
    bits = np.frombuffer(p.stdout, np.uint8)
    tb = models.tx_bytes(size) * 8
    check(len(bits) == n * tb, lambda: "mode %d: %d bits for %d frames of %d bits" % (mode, len(bits), n, tb))
    check(n == 0 or set(np.unique(bits)) <= {0, 1}, "not one bit per byte")
    for i in range(n):
        f = bits[i * tb:(i + 1) * tb]
        body = models.l2_decode_bits(size, f)
        check(bool(np.array_equal(models.l2_encode_bits(body), f)), lambda: "mode %d frame %d is not the encoded form of its content" % (mode, i))
        kind = models.crc_kind(body)
        check(("tail" if mode < 2 else "head") in kind, lambda: "mode %d frame %d: checksum wrong: %s" % (mode, i, body.hex()))
        if mode < 2:
            seq = struct.unpack_from("<H", body, 1 if mode == 0 else 2)[0]
            pid = body[0] if mode == 0 else struct.unpack_from("<H", body)[0]
            check(pid == (0 if mode == 0 else 256), lambda: "mode %d frame %d has payload number %d" % (mode, i, pid))
        else:
            if n > 60 and i % 17 and i > 3:          # decoding version 3 is slow: a sample of long runs
                continue
            from horusdemodlib.decoder import decode_packet
            d = decode_packet(body)
            seq = d["sequence_number"]
            check(d["callsign"] == "4FSKTEST-V2" and d["crc_ok"], lambda: "mode %d frame %d decodes to %r" % (mode, i, d))
        check(seq == i, lambda: "mode %d frame %d carries sequence number %d" % (mode, i, seq))
    rec.nontrivial(n > 0)
    rec.label("mode%d" % mode, "n%s" % ("0" if not n else "1-12" if n < 13 else "more"))


def targets():
    return [Target("loop", loop(), run_loop, quick=500, thorough=16000, setup=setup),
            Target("api", api(), run_api, quick=500, thorough=16000, setup=setup),
            Target("testbits", testbits(), run_testbits, quick=240, thorough=8000, setup=setup),
            Target("frames", frames(), run_frames, quick=120, thorough=2000, setup=setup_py)]
