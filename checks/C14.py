from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, gen
from vf.core import Target, check
from vf.native import Modem

RULE = ("A case is a history of opens, blocks of audio and bits, statistics reads, limit changes, verbose runs and closes over up to four demodulators of any mode and "
        "configuration, repeated two to four times in one process beside one demodulator that stays open. After each repetition the number of allocated bytes (ASan's "
        "own count) must be what it was after the one before, and the one that stayed open must report what it reports alone. "
        "Non-trivial: at least two opens and one block processed.")
ASSUMPTIONS = ["memory is obtained through malloc and friends", "bytes kept once per process (lazily built tables) are not counted as leaked, growth per use is"]
M = SOLO = None


def prepare():
    build.cdrv("asan")


def setup():
    global M, SOLO
    M, SOLO = Modem("asan"), Modem("asan")


CFG = [(Rs, Fs, P) for Rs, Fs in ((100, 1600), (100, 8000), (300, 4800), (50, 1600), (600, 9600), (45, 3600)) for P in (2, 4, 5, 8, 10, 16) if (Fs // Rs) % P == 0]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["open", "open", "default", "audio", "audio", "bits", "stats", "limits", "close", "verbose"]))
    Rs, Fs, P = draw(st.sampled_from(CFG))
    return {"op": k, "slot": draw(st.integers(0, 3)), "mode": draw(st.sampled_from([0, 89, 90, 91])), "Rs": Rs, "Fs": Fs, "P": P,
            "spacing": draw(st.sampled_from([-1, -1, 1, 2])), "quad": draw(st.integers(0, 1)), "n": draw(st.integers(1, 4)), "x": draw(st.integers(0, 2 ** 32 - 1))}


@st.composite
def cases(draw):
    return {"ops": draw(st.lists(op(), min_size=3, max_size=14)), "repeat": draw(st.integers(2, 4)), "mode": draw(st.sampled_from([0, 89, 90, 91])),
            "x": draw(st.integers(0, 2 ** 32 - 1)), "packet": draw(B.packets(errors=False)), "text": draw(gen.hexbytes(20))}


def keeper_bits(c):
    """what the demodulator that stays open hears: one packet or sentence per repetition, between noise"""
    if c["mode"] == 0:
        core = B.packet_bits(c["packet"])[1]
    else:
        from vf import models
        t = b"$$" + bytes(33 + b % 90 if b % 90 not in (3, 9) else 65 for b in bytes.fromhex(c["text"]))
        core = B.rtty_bits(t + b"*%04X\n" % models.crc16(t[2:]), c["mode"])
    return B.pad_blocks(np.concatenate([gen.seeded_bits(c["x"], 30 + c["x"] % 60), core, np.ones(130, np.uint8)]), c["mode"], 1)


def one(c, open_, st_, rec):
    for o in c["ops"]:
        s = 1 + o["slot"]
        if o["op"] in ("open", "default") or s not in open_:
            if s in open_:
                M.close(s)
            if o["op"] == "default":
                i = M.open(s, o["mode"], 0)
                open_[s] = (48000, o["mode"], 0)
            else:
                sp = -1 if o["spacing"] < 0 else o["spacing"] * o["Rs"]
                i = M.open(s, o["mode"], o["Rs"], sp, o["Fs"], o["P"], o["quad"])
                open_[s] = (o["Fs"], o["mode"], o["quad"])
            st_["opens"] += 1
        if o["op"] == "audio":
            fs, mode, q = open_[s]
            n = min(4, o["n"]) * M.info(s)["nin"] + 7
            x = audio.render_piece({"kind": audio.PIECES[o["x"] % len(audio.PIECES)], "len": n, "amp": 9000, "seed": o["x"]}, fs, 100, 4)
            M.push(s, audio.to_shorts(x, q))
            st_["blocks"] += 1
        elif o["op"] == "bits":
            M.push_bits(s, gen.seeded_bits(o["x"], B.NBITS[open_[s][1]] * 8 * o["n"]).tobytes())
            st_["blocks"] += 1
        elif o["op"] == "stats":
            M.stats(s)
        elif o["op"] == "verbose":
            M.verbose(s, o["x"] & 1)
        elif o["op"] == "limits":
            fs = open_[s][0]
            M.limits(s, 0.05 * fs, 0.45 * fs)
        elif o["op"] == "close":
            M.close(s)
            del open_[s]


def ev(events):
    return [(e.ret, e.crc, e.version, e.text) for e in events]


def run(c, rec):
    M.reset()
    M.open(0, c["mode"], 100, -1, 1600, 8)
    kb = keeper_bits(c).tobytes()
    seen, sizes, stt = [], [], {"opens": 0, "blocks": 0}
    for _ in range(c["repeat"]):
        open_ = {}
        seen += ev(M.push_bits(0, kb))
        one(c, open_, stt, rec)
        for s in list(open_):
            M.close(s)
        sizes.append(M.allocated())
    check(len(set(sizes)) == 1, lambda: "allocated bytes after each repetition of the same opens and closes: %s" % sizes)
    M.close(0)
    gone = M.allocated()
    M.open(0, c["mode"], 100, -1, 1600, 8)
    M.close(0)
    check(M.allocated() == gone, lambda: "opening and closing one demodulator changes the allocated bytes from %d to %d" % (gone, M.allocated()))
    SOLO.reset()
    SOLO.open(0, c["mode"], 100, -1, 1600, 8)
    alone = []
    for _ in range(c["repeat"]):
        alone += ev(SOLO.push_bits(0, kb))
    check(alone == seen, lambda: "a demodulator kept open reported %r, alone it reports %r" % (seen, alone))
    rec.nontrivial(stt["opens"] >= 2 and stt["blocks"] > 0)
    rec.label("keeper_reports" if seen else "keeper_silent", "mode%d" % c["mode"])
    rec.label("opens>=8" if stt["opens"] >= 8 else "opens<8")


def targets():
    return [Target("history", cases(), run, quick=1200, thorough=40000, setup=setup)]
