import os
from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, gen, models, native
from vf.core import Target, check, HarnessError, Violation
from checks import C05, C08

RULE = ("bits: streams of junk, near-packets, near-sentences and crowds of unique words into every mode through the bit seam; audio: sequences of sample pieces "
        "(noise, silence, full scale, DC, square, tones, impulses, FSK; real and quadrature) into every mode, baud rate, sample rate, oversampling, tone spacing "
        "and estimator limit; both under ASan+UBSan with output buffers of exactly the advertised size, a share of them under MSan; fuzz: libFuzzer, "
        "coverage-guided, over the same entry points. Non-trivial: at least one full block demodulated.")
ASSUMPTIONS = ["configurations are those the library accepts: sample rate divisible by baud rate, that quotient by the oversampling, tone spacing small enough for all "
               "tones to fit below half the sample rate", "floating-point division by zero is not counted as undefined behaviour"]
ASAN = MSAN = None
THOROUGH_BUDGET = 2400


def prepare():
    build.cdrv("asan")
    build.cdrv("msan")
    build.fuzz_target("fuzz_rx", "lib")


def setup():
    global ASAN, MSAN
    ASAN, MSAN = native.Modem("asan"), native.Modem("msan")


@st.composite
def bit_case(draw):
    mode = draw(st.sampled_from([0, 89, 90, 91]))
    item = C05.item() if mode == 0 else C08.item()
    return {"mode": mode, "cfg": draw(B.seam_configs()), "items": draw(st.lists(item, min_size=1, max_size=5)),
            "raw": draw(st.binary(max_size=300)).hex(), "post": draw(st.integers(0, 1400)), "second": draw(st.sampled_from([-1, -1, 0, 89, 90, 91]))}


def run_bits(drv):
    def run(c, rec):
        m = drv()
        mode = c["mode"]
        parts = []
        for i in c["items"]:
            parts += [C05.item_bits(i) if mode == 0 else C08.item_bits(i, mode), B.gap_bits(i["gap"])]
        raw = np.unpackbits(np.frombuffer(bytes.fromhex(c["raw"]), np.uint8))
        bits = np.concatenate([raw] + parts + [np.ones(c["post"], np.uint8)])
        m.reset()
        info = B.open_seam(m, 0, mode, c["cfg"])
        m.stats(0)
        check(info["max_ascii"] >= (257 if mode == 0 else 120), "advertised output size %d too small for the longest packet" % info["max_ascii"])
        modes = [mode]
        ev = m.push_bits(0, B.pad_blocks(bits, mode, 2).tobytes())
        if c["second"] >= 0:                             # the same bits into a demodulator of another mode
            B.open_seam(m, 1, c["second"], c["cfg"])
            ev += m.push_bits(1, B.pad_blocks(bits, c["second"], 2).tobytes())
            modes.append(c["second"])
        for e in ev:
            check(e.terminated, "report is not terminated inside the caller's buffer")
        m.stats(0)
        m.info(0)
        m.call(12)
        rec.nontrivial()
        rec.label(*["mode%d" % x for x in modes])
        rec.label("reports" if ev else "silent")
    return run


def legal_config(mode, Rs, Fs, P, sp):
    M = 4 if mode == 0 else 2
    return Fs % Rs == 0 and (Fs // Rs) % P == 0 and Fs // Rs >= P and (sp < 0 or (M - 1) * sp + 3 * Rs < Fs // 2)


CONFIGS = {m: [(Rs, Fs, P, sp) for Rs in (10, 25, 45, 50, 100, 110, 150, 200, 300, 600, 1200, 2400) for Fs in (8000, 9600, 12000, 24000, 48000, 96000)
           for P in (4, 5, 6, 8, 10, 12, 16, 20) for sp in (-1, -1, Rs, 270, 425, 1000) if legal_config(m, Rs, Fs, P, sp)]
           for m in (0, 89, 90, 91)}
SMALL = {m: [c for c in v if c[1] // c[0] <= 500] for m, v in CONFIGS.items()}


@st.composite
def audio_case(draw):
    mode = draw(st.sampled_from([0, 89, 90, 91]))
    Rs, Fs, P, sp = draw(st.sampled_from((CONFIGS if draw(st.integers(0, 9)) == 7 else SMALL)[mode]))
    n = Fs // Rs
    lim = draw(st.sampled_from([None, [0.1, 0.4], [0.0, 0.5], [-0.4, 0.4], [0.02, 0.03], [-0.5, 0.5]]))
    return {"mode": mode, "Rs": Rs, "Fs": Fs, "P": P, "spacing": sp, "quad": draw(st.integers(0, 1)), "limits": lim,
            "pieces": draw(st.lists(audio.pieces(n), min_size=2, max_size=5 if n > 500 else 8))}


def run_audio(drv):
    def run(c, rec):
        m = drv()
        M = 4 if c["mode"] == 0 else 2
        x = np.concatenate([audio.render_piece(p, c["Fs"], c["Rs"], M) for p in c["pieces"]])
        m.reset()
        info = m.open(0, c["mode"], c["Rs"], c["spacing"], c["Fs"], c["P"], c["quad"])
        check(info["ok"] == 1 and 0 < info["nin"] * 2 <= info["max_demod_in"], "bad initial sample request: %r" % info)
        if c["limits"]:
            m.limits(0, c["limits"][0] * c["Fs"], c["limits"][1] * c["Fs"])
        m.stats(0)
        blocks = m.push(0, audio.to_shorts(x, c["quad"]), every=1)
        for e in blocks:
            check(e.terminated or not e.ret, "report is not terminated inside the caller's buffer")
        s = m.stats(0)
        check(0 <= s.neyetr <= 8 and 0 <= s.neyesamp <= 160, "eye diagram size %d x %d" % (s.neyetr, s.neyesamp))
        m.info(0)
        m.call(12)
        rec.nontrivial(len(blocks) > 0)
        rec.label("mode%d" % c["mode"], "blocks" if blocks else "no_block", "quad" if c["quad"] else "real", "mask" if c["spacing"] > 0 else "peak")
    return run


@st.composite
def fuzz_case(draw):
    return {"seed": draw(st.integers(1, 2 ** 31 - 1))}


def run_fuzz(c, rec):
    """one short libFuzzer campaign, or the input it found"""
    import subprocess, tempfile, shutil
    exe = build.fuzz_target("fuzz_rx", "lib")
    d = tempfile.mkdtemp(prefix="vf_fuzz_")
    try:
        if "input" in c:
            p = os.path.join(d, "in")
            open(p, "wb").write(bytes.fromhex(c["input"]))
            r = subprocess.run([exe, p], cwd=d, env=native.san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if r.returncode:
                kind, msg = native.death_message("fuzz_rx", r.returncode, r.stderr.decode(errors="replace"))
                raise Violation(msg, kind)
            return
        runs = int(os.environ.get("VERIF_FUZZ_RUNS", "0")) or (600 if os.environ.get("VERIF_TIER", "quick") != "thorough" else 60000)
        os.mkdir(os.path.join(d, "corpus"))
        for i in range(4):                              # small valid inputs beside the empty corpus
            open(os.path.join(d, "corpus", "s%d" % i), "wb").write(seed_input(i))
        r = subprocess.run([exe, "-seed=%d" % c["seed"], "-runs=%d" % runs, "-max_len=512", "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", os.path.join(d, "corpus")],
                           cwd=d, env=native.san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = r.stderr.decode(errors="replace")
        if r.returncode:
            found = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-"))]
            kind, msg = native.death_message("fuzz_rx", r.returncode, err)
            if found:
                c["input"] = open(os.path.join(d, found[0]), "rb").read().hex()
            raise Violation(msg, kind)
        import re
        n = re.search(r"number_of_executed_units: (\d+)", err)
        rec.extra(int(n.group(1)) - 1 if n else runs)
        rec.nontrivial()
        rec.label("campaign")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def seed_input(i):
    """mode byte then bits (8 per byte) or samples; see csrc/fuzz_rx.c"""
    if i == 0:
        return bytes([0]) + models.l2_encode(models.with_crc_tail(b"\1" * 20)) + b"\x55" * 30
    if i == 1:
        return bytes([0]) + models.l2_encode(models.with_crc_head(b"\2" * 46)) + b"\x55" * 30
    t = b"$$A,1,12:00:00,1.0,2.0,3"
    b = B.rtty_bits(t + b"*%04X\n" % models.crc16(t[2:]), 88 + i - 1)
    return bytes([i - 1]) + np.packbits(np.concatenate([b, np.ones(1200, np.uint8)])).tobytes()


def targets():
    A, S = (lambda: ASAN), (lambda: MSAN)
    return [Target("bits", bit_case(), run_bits(A), quick=1200, thorough=80000, setup=setup),
            Target("audio", audio_case(), run_audio(A), quick=900, thorough=30000, setup=setup),
            Target("bits_msan", bit_case(), run_bits(S), quick=400, thorough=20000, setup=setup),
            Target("audio_msan", audio_case(), run_audio(S), quick=300, thorough=8000, setup=setup),
            Target("fuzz", fuzz_case(), run_fuzz, quick=8, thorough=64, setup=setup)]
