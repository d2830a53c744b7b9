from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, gen, models
from vf.core import Target, check, fail
from vf.native import Modem
from checks import C09, C05, C08

RULE = ("memory: the same bits or audio into three fresh demodulators whose heap is pre-filled with different bytes, one of them in a process that has already opened, used "
        "and closed others; neighbours: two to four demodulators of different modes fed in interleaved pieces in one process against each alone; chunks: the Python class "
        "fed the same audio (several sample rates, real and IQ) whole and in generated chunks down to single bytes. Reports and statistics must be identical. "
        "Non-trivial: at least one packet is reported or at least two blocks are processed.")
ASSUMPTIONS = ["reports are compared where the library says it reported something; the contents of the output buffer otherwise are not specified"]
MS = SOLO = None


def prepare():
    build.cdrv("asan")
    build.cffi_ext()


def setup():
    global MS, SOLO
    MS = [Modem("asan", fill=f, fillsize=1 << 26) for f in (0x00, 0xFF, 0x3E)]
    SOLO = Modem("asan")


def setup_py():
    from vf import repo
    repo.setup(native=True)


def ev(events):
    return [(e.frame, e.ret, e.crc, e.version, e.bits, e.text) for e in events if e.ret]


# ---------------------------------------------------------------- one source of samples or bits
@st.composite
def source(draw):
    mode = draw(st.sampled_from([0, 0, 89, 90, 91]))
    k = draw(st.sampled_from(["signal", "signal", "pieces", "bits"]))
    c = {"kind": k, "mode": mode}
    if k == "signal":
        c["sig"] = draw(C09.signal([r for r in (C09.RATES4 if mode == 0 else C09.RATES2) if r[1] <= 9600]))
        c["packets"] = draw(st.lists(B.packets(errors=False), min_size=1, max_size=2))
    elif k == "pieces":
        c["cfg"] = draw(st.sampled_from([(100, 1600, 8), (100, 8000, 8), (50, 1600, 16), (300, 4800, 4), (45, 3600, 5)]))
        c["quad"] = draw(st.integers(0, 1))
        c["pieces"] = draw(st.lists(audio.pieces(c["cfg"][1] // c["cfg"][0]), min_size=3, max_size=9))
    else:
        c["items"] = draw(st.lists(C05.item() if mode == 0 else C08.item(), min_size=1, max_size=3))
    return c


def data_of(c):
    """-> (open arguments, limits, 'bits'|'audio', bytes)"""
    mode = c["mode"]
    if c["kind"] == "signal":
        s = c["sig"]
        if mode == 0:
            chunks = [x for p in c["packets"] for x in (B.packet_bits(p)[1], gen.seeded_bits(s["x"], 60))] + [gen.seeded_bits(s["x"] + 1, 200)]
            lead = None
        else:
            t = bytes(C09.TEXT[b % len(C09.TEXT)] for b in bytes.fromhex(c["packets"][0]["body"]))
            chunks = [B.rtty_bits(b"$$" + t + b"*%04X\n" % models.crc16(t), mode), B.rtty_bits(b"VWU" * 50, mode)]
            lead = B.rtty_bits(b"U" * 30, mode)
        d, args, lim, _ = C09.render(s, 4 if mode == 0 else 2, chunks, lead)
        return (mode,) + args, lim, "audio", d
    if c["kind"] == "pieces":
        Rs, Fs, P = c["cfg"]
        x = np.concatenate([audio.render_piece(p, Fs, Rs, 4) for p in c["pieces"]])
        return (mode, Rs, -1, Fs, P, c["quad"]), None, "audio", audio.to_shorts(x, c["quad"])
    bits = np.concatenate([x for i in c["items"] for x in ((C05.item_bits(i) if mode == 0 else C08.item_bits(i, mode)), B.gap_bits(i["gap"]))])
    return (mode, 100, -1, 1600, 8, 0), None, "bits", B.pad_blocks(bits, mode, 2).tobytes()


def start(m, hid, d):
    m.open(hid, *d[0])
    if d[1]:
        m.limits(hid, *d[1])


def feed(m, hid, d, a, b):
    return ev(m.push(hid, d[3][a:b]) if d[2] == "audio" else m.push_bits(hid, d[3][a:b]))


@st.composite
def memory(draw):
    return {"src": draw(source()), "others": draw(st.lists(st.tuples(st.sampled_from([0, 89, 90, 91]), st.integers(0, 2 ** 32 - 1)), max_size=3))}


def run_memory(c, rec):
    d = data_of(c["src"])
    out = []
    for i, m in enumerate(MS):
        if i == 2:                                      # leftovers of closed demodulators
            for k, (mode, x) in enumerate(c["others"]):
                m.open(10 + k, mode, 100, -1, 1600, 8)
                m.push_bits(10 + k, gen.seeded_bits(x, 2000).tobytes())
            for k in range(len(c["others"])):
                m.close(10 + k)
        m.reset()
        start(m, 0, d)
        first = m.stats(0).raw
        e = feed(m, 0, d, 0, len(d[3]))
        out.append((first, e, m.stats(0).raw))
        m.close(0)
    for i in (1, 2):
        check(out[i][0] == out[0][0], lambda: "statistics before the first block depend on memory contents: %s / %s" % (out[0][0].hex(), out[i][0].hex()))
        check(out[i][1] == out[0][1], lambda: "reports depend on memory contents or earlier demodulators: %r / %r" % (out[0][1], out[i][1]))
        check(out[i][2] == out[0][2], lambda: "statistics depend on memory contents or earlier demodulators: %s / %s" % (out[0][2].hex(), out[i][2].hex()))
    rec.nontrivial()
    rec.label(c["src"]["kind"], "mode%d" % c["src"]["mode"], "reports" if out[0][1] else "silent", "others%d" % len(c["others"]))


@st.composite
def neighbours(draw):
    n = draw(st.integers(2, 4))
    return {"srcs": draw(st.lists(source(), min_size=n, max_size=n)), "cuts": draw(st.lists(st.integers(1, 1000), min_size=1, max_size=6)), "order": draw(st.permutations(list(range(n))))}


def run_neighbours(c, rec):
    ds = [data_of(s) for s in c["srcs"]]
    m = MS[0]
    m.reset()
    for i in c["order"]:
        start(m, i, ds[i])
    got = [[] for _ in ds]
    cuts = sorted(set(c["cuts"] + [0, 1000]))
    for a, b in zip(cuts, cuts[1:]):
        for i in c["order"]:
            d = ds[i]
            unit = 2 * (1 + d[0][5]) if d[2] == "audio" else B.NBITS[d[0][0]]
            k = len(d[3]) // unit
            got[i] += feed(m, i, d, k * a // 1000 * unit, (k * b // 1000 if b < 1000 else k) * unit)
    stats = [m.stats(i).raw for i in range(len(ds))]
    for i, d in enumerate(ds):
        SOLO.reset()
        start(SOLO, 0, d)
        unit = 2 * (1 + d[0][5]) if d[2] == "audio" else B.NBITS[d[0][0]]
        alone = feed(SOLO, 0, d, 0, len(d[3]) // unit * unit)
        check(got[i] == alone, lambda: "demodulator %d reported %r beside others, %r alone" % (i, got[i], alone))
        check(stats[i] == SOLO.stats(0).raw, lambda: "statistics of demodulator %d differ beside others" % i)
    rec.nontrivial()
    rec.label("n%d" % len(ds), "reports" if any(got) else "silent")
    rec.label(*[s["kind"] for s in c["srcs"]])


@st.composite
def chunks(draw):
    mode = draw(st.sampled_from([0, 0, 89, 90, 91]))
    rate = draw(st.sampled_from([48000, 48000, 44100, 24000, 22050, 96000, 8000]))
    return {"mode": mode, "sample_rate": rate, "iq": draw(st.integers(0, 1)), "baud": draw(st.sampled_from([300, 600, 600])), "n": draw(st.sampled_from([22, 32])), "body": draw(gen.hexbytes(40)),
            "f": draw(st.integers(0, 100)), "sizes": draw(st.lists(st.one_of(st.integers(1, 9), st.integers(10, 3000), st.integers(3000, 60000)), min_size=1, max_size=12)),
            "lead": draw(st.integers(100, 200)), "x": draw(st.integers(0, 2 ** 32 - 1)), "amp": draw(st.sampled_from([300, 5000, 15000]))}


def py_audio(c):
    """one packet or sentence as audio for the Python class -> (bytes, expected content)"""
    mode, fs, Rs = c["mode"], c["sample_rate"], c["baud"]
    M_ = 4 if mode == 0 else 2
    r = np.random.RandomState(c["x"])
    body = bytes.fromhex(c["body"])
    if mode == 0:
        p = models.with_crc_tail(body[:c["n"] - 2])
        bits = np.concatenate([r.randint(0, 2, 2 * c["lead"]), models.l2_encode_bits(p), r.randint(0, 2, 220)])
        want = p
    else:
        t = bytes(C09.TEXT[b % len(C09.TEXT)] for b in body)
        want = "$$%s*%04X" % (t.decode(), models.crc16(t))
        bits = np.concatenate([B.rtty_bits(b"U" * 15, mode), B.rtty_bits(want.encode() + b"\n", mode), B.rtty_bits(b"VWU" * 50, mode)])
    sp = 2 * Rs
    room = (0.45 if fs >= 48000 else 0.3) * min(fs, 48000) - (M_ - 1) * sp - 2 * Rs     # linear interpolation leaves strong images of what is near half a low sample rate
    f1 = Rs + room * c["f"] / 100
    x = audio.fsk(audio.to_symbols(bits, M_), fs, Rs, [f1 + i * sp for i in range(M_)], r.rand() * 6) * float(c["amp"])
    return audio.to_shorts(audio.add_noise(x, c["amp"] * 0.01, c["x"]), c["iq"]), want


def py_modem(c, frames):
    from horusdemodlib.demod import HorusLib, Mode
    return HorusLib(mode={0: Mode.BINARY, 89: Mode.RTTY_7N1, 90: Mode.RTTY_7N2, 91: Mode.RTTY_8N2}[c["mode"]], rate=c["baud"], stereo_iq=bool(c["iq"]),
                    sample_rate=c["sample_rate"], callback=lambda f: frames.append((f.data, bool(f.crc_pass), f.snr)))


def stats_of(h):
    s = h.stats
    return (s.snr_est, list(s.f_est)[:h.mfsk], s.clock_offset, s.rx_timing)


def run_chunks(c, rec):
    """the content itself is compared too; once in 10^4 signals the peak estimator loses a block in which one tone was rare, so a loss counts if it repeats"""
    miss = chunks_once(c, rec)
    if miss:
        rec.label("peak_retry")
        if sum(bool(chunks_once(dict(c, x=(c["x"] + 7919 * i) & 0xFFFFFFFF, lead=100 + (c["lead"] + 37 * i) % 101), rec)) for i in (1, 2, 3)) >= 2:
            fail(miss)


def chunks_once(c, rec):
    if c["sample_rate"] == 8000:
        c = dict(c, baud=300)
    data, want = py_audio(c)
    out = []
    for sizes in (None, c["sizes"], None):
        frames = []
        with py_modem(c, frames) as h:
            if sizes is None:
                h.add_samples(data)
            else:
                pos = i = 0
                small = sum(sizes) < 600                # tiny chunks only for a stretch, then the rest at once
                while pos < len(data):
                    n = sizes[i % len(sizes)]
                    if small and i > 200:
                        n = len(data)
                    h.add_samples(data[pos:pos + n])
                    pos += n
                    i += 1
            out.append((frames, repr(stats_of(h))))
    good = [f[0] for f in out[0][0] if f[1]]
    check(out[1] == out[0], lambda: "in chunks of %s: %r, all at once: %r" % (c["sizes"], out[1], out[0]))
    check(out[2] == out[0], lambda: "the same audio again: %r, first: %r" % (out[2], out[0]))
    rec.nontrivial()
    rec.label("rate%d" % c["sample_rate"], "iq" if c["iq"] else "real", "mode%d" % c["mode"], "odd_chunks" if any(x % 2 for x in c["sizes"]) else "even_chunks")
    if [g for g in good if g == want or not C09.accidental_report(g.hex().encode() if isinstance(g, bytes) else b"")] != [want]:
        return "reported %r, sent %r" % (good, want)


def targets():
    return [Target("memory", memory(), run_memory, quick=500, thorough=16000, setup=setup),
            Target("neighbours", neighbours(), run_neighbours, quick=200, thorough=6000, setup=setup),
            Target("chunks", chunks(), run_chunks, quick=240, thorough=8000, setup=setup_py)]
