import contextlib, io, json, os, shutil, subprocess, sys, tempfile
from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, gen, models
from vf.core import Target, check, fail, Violation, HarnessError
from vf.native import Modem, san_env, death_message
from checks import C09

RULE = ("A case is 48 kHz 16-bit audio made of packets or sentences (some of them repeated; intact, with a damaged checksum, or cut short), silence, noise and other signals at generated levels, "
        "with generated options (mode name, baud rate, tone spacing, IQ, CRC display, statistics and their rate and destination, estimator limits (both, one or none), verbose mode, named or standard input and output; in some cases ended exactly at the end of the last block that reports something, or with chance sentence starts before an RTTY sentence). The native tool (own process, "
        "ASan/UBSan), the Python tool (its main() on the same arguments, in some cases in a process of its own) and the Python class (fed whole or in chunks) run on it. "
        "binding: the class's demodulate() block by block against the native library, every statistic included. Packet lines must agree, and contain every intact packet sent; every statistics line must be strict JSON with the fields the uploader reads, showing what the class has after some block, in order. "
        "Non-trivial: at least one intact packet or sentence.")
ASSUMPTIONS = ["the candidates with a wrong checksum which the Python tool's verbose mode also shows are not compared, sentences are printable ASCII",
               "packets are read from the native tool's standard output, where it prints them whatever output file is named",
               "packet content is required only where the signal keeps the tones from the lead-in on (C09's conditions); agreement of the receivers is required always"]
FIELDS = ("EbNodB", "ppm", "f1_est", "f2_est", "samp_fft")
TOOL = None
NAMES = {0: ["binary", "BINARY"], 90: ["rtty", "RTTY", "rtty7n2", "RTTY7N2"], 89: ["rtty7n1", "RTTY7N1"], 91: ["rtty8n2", "RTTY8N2"]}


def prepare():
    build.tool("horus_demod")
    build.cffi_ext()
    build.cdrv("asan")


def setup():
    global TOOL
    from vf import repo
    repo.setup(native=True)
    TOOL = build.tool("horus_demod")


KINDS = ["packet", "packet", "packet", "packet", "badcrc", "short", "silence", "noise", "other", "gap"]


@st.composite
def section(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "body": draw(gen.hexbytes(40)), "n": draw(st.sampled_from([22, 32, 22, 32, 48])), "len": draw(st.integers(1, 60)), "x": draw(st.integers(0, 2 ** 32 - 1)),
            "dollars": draw(st.integers(2, 5)), "gap": draw(st.integers(0, 200)), "decoy": draw(st.sampled_from([0, 0] + list(range(1, 28))))}


@st.composite
def cases(draw):
    mode = draw(st.sampled_from([0, 0, 0, 89, 90, 91]))
    return {"mode": mode, "name": draw(st.integers(0, 3)), "rate": draw(st.sampled_from([600, 600, 300, 1200, 300, 100, 0])), "mask": draw(st.integers(0, 2)), "sp": draw(st.sampled_from([2, 2, 3, 4])),
            "quad": draw(st.integers(0, 1)), "crc": draw(st.integers(0, 1)), "stats": draw(st.sampled_from([-1, -1, 0, 1, 5, 8, 50])), "g": draw(st.integers(0, 1)),
            "limits": draw(st.integers(0, 2)), "f1": draw(st.integers(0, 1000)), "lead": draw(st.integers(100, 220)), "sections": draw(B.again(st.lists(section(), min_size=1, max_size=4))),
            "amp": draw(st.sampled_from([200, 3000, 12000])), "noise": draw(st.sampled_from([0, 0, 0.02, 0.1])), "x": draw(st.integers(0, 2 ** 32 - 1)), "end": draw(st.one_of(st.just(0), st.integers(0, 200))),
            "chunk": draw(st.one_of(st.just(0), st.integers(1, 20000))), "where": draw(st.sampled_from(["file", "stdin", "file", "process"])), "out": draw(st.integers(0, 1)), "cut": draw(st.sampled_from([0] * 9 + [1])),
            "single": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "files": draw(st.sampled_from([0, 0, 1, 2, 3])), "v": draw(st.sampled_from([0] * 7 + [1]))}


def make(c):
    """-> (bytes, contents required in order, argument list, (Rs, spacing or -1, limits))"""
    mode, Fs = c["mode"], 48000
    Rs = c["rate"] or 100
    M_ = 4 if mode == 0 else 2
    sp = c["sp"] * Rs
    span = (M_ - 1) * sp
    top = Fs / 2 if c["limits"] else 4000
    base = -Fs / 2 if c["quad"] and c["limits"] == 2 else 100
    # without options the estimator looks at its own default range
    if not c["limits"] and span + 3 * Rs > 3800:
        c = dict(c, limits=1)
        top = Fs / 2
    f1 = base + 1.2 * Rs + (top - base - span - 2.4 * Rs) * c["f1"] / 1000
    tones = [f1 + i * sp for i in range(M_)]
    lim = (int(f1 - 1.1 * Rs), int(tones[-1] + 1.1 * Rs + 1)) if c["limits"] else None
    amp = float(c["amp"])
    r = np.random.RandomState(c["x"])
    k = M_.bit_length() - 1
    if mode == 0:
        lead = r.randint(0, 2, c["lead"] * k)
    else:
        lead = B.rtty_bits(bytes(65 + v % 26 for v in r.randint(0, 26, c["lead"] // 10)), mode)
    runs, cur, want, clean = [], [lead], [], True
    for s in c["sections"]:
        kd = s["kind"]
        body = bytes.fromhex(s["body"])
        if kd in ("packet", "badcrc", "short"):
            if mode == 0:
                p = models.with_crc_tail((body + bytes(20))[:s["n"] - 2]) if s["n"] < 48 else models.with_crc_head((body + bytes(20))[:s["n"] - 2])
                w = p
                if kd == "badcrc":
                    p = p[:1] + bytes([p[1] ^ 1 << s["x"] % 8]) + p[2:]
                bits = models.l2_encode_bits(p)
            else:
                t = bytes(C09.TEXT[b % len(C09.TEXT)] for b in body)[:max(4, s["len"])]
                w = b"$" * s["dollars"] + t + b"*%04X" % models.crc16(t)
                x = w if kd != "badcrc" else w[:-1] + (b"0" if w[-1:] != b"0" else b"1")
                bits = B.rtty_bits(x + b"\n", mode)
            if kd == "short":
                bits = bits[:len(bits) // 2]
            if mode and s["decoy"]:             # bits that look like the start of a sentence, at an alignment of their own
                rr = np.random.RandomState(s["x"])
                cur.append(np.concatenate([B.rtty_bits(b"$$", mode), rr.randint(0, 2, s["decoy"])]))
            cur.append(bits)
            if kd == "packet":
                want.append((w, clean))
            g = s["gap"]
            cur.append(r.randint(0, 2, g * k) if mode == 0 else B.rtty_bits(b"VWU" * (g // 20), mode))
        elif kd == "gap":
            cur.append(r.randint(0, 2, s["gap"] * k) if mode == 0 else B.rtty_bits(b"Q" * (s["gap"] // 10), mode))
        else:
            if cur:
                runs.append(("bits", np.concatenate(cur)))
            runs.append((kd, s))
            cur = []
            clean = False
    cur.append(r.randint(0, 2, 160 * k) if mode == 0 else B.rtty_bits(b"VWU" * 40, mode))
    runs.append(("bits", np.concatenate(cur)))
    out = []
    ph = r.rand() * 6
    for kd, v in runs:
        if kd == "bits":
            out.append(audio.fsk(audio.to_symbols(v, M_), Fs, Rs, tones, ph) * amp)
        else:
            n = (5 + v["gap"]) * Fs // Rs
            rr = np.random.RandomState(v["x"])
            if kd == "silence":
                out.append(np.zeros(n, complex))
            elif kd == "noise":
                out.append((rr.randn(n) + 1j * rr.randn(n)) * amp)
            else:
                out.append(np.exp(2j * np.pi * (0.3 * rr.rand()) * np.arange(n)) * amp)
    x = np.concatenate(out)
    if c["noise"]:
        x = audio.add_noise(x, amp * c["noise"], c["x"])
    x = x[:len(x) - c["end"]] if c["end"] else x
    nm = NAMES[mode]
    args = ["-m", nm[c["name"] % len(nm)]]
    if c["rate"]:
        args.append("--rate=%d" % Rs)
    spacing = sp if c["mask"] == 0 and c["sp"] <= 3 else -1
    if spacing > 0:
        args.append("--tonespacing=%d" % spacing)
    if c["quad"]:
        args.append("-q")
    if c["crc"]:
        args.append("-c")
    if c["stats"] >= 0:
        args.append("-t%d" % c["stats"] if c["stats"] else "--stats=8")
    if c["g"]:
        args.append("-g")
    if c.get("v"):
        args.append("-v")
    if lim:
        args += ["--fsk_lower=%d" % lim[0], "--fsk_upper=%d" % lim[1]]
    elif c.get("single") == 1:          # without a lower limit, an upper one is ignored
        args.append("--fsk_upper=%d" % max(1, f1 * 0.7))
    elif c.get("single") == 2:          # the upper limit is then -1 Hz
        args.append("--fsk_lower=%d" % f1)
    elif c.get("single") == 3:
        lim, want = (-20000, -1), []
        args.append("--fsk_lower=-20000")
    return audio.to_shorts(x, c["quad"]), want, args, (Rs, spacing, lim)


def strict(line, who, mode):
    def no(s):
        raise ValueError("%s is not JSON" % s)
    try:
        d = json.loads(line, parse_constant=no)
    except ValueError as e:
        raise Violation("%s: statistics line is not JSON (%s): %r" % (who, e, line[:400]))
    check(isinstance(d, dict), lambda: "%s: statistics line is not an object: %r" % (who, line[:200]))
    need = FIELDS + (("f3_est", "f4_est") if mode == 0 else ())
    for f in need:
        check(f in d, lambda: "%s: statistics line lacks %s: %r" % (who, f, line[:200]))
        if f == "samp_fft":
            check(isinstance(d[f], list) and all(isinstance(v, (int, float)) for v in d[f]), lambda: "%s: samp_fft is %r" % (who, d[f]))
        else:
            check(isinstance(d[f], (int, float)) and not isinstance(d[f], bool), lambda: "%s: %s is %r" % (who, f, d[f]))
    return [d[f] for f in need if f != "samp_fft"]


def split(out, err, c, who):
    """stdout and stderr text of a tool -> packet lines, values of the statistics lines, which are checked"""
    packets, stats = [], []
    check(out == "" or out.endswith("\n"), lambda: "%s: output does not end with a line end: %r" % (who, out[-100:]))
    for l in out.split("\n")[:-1]:
        if l.startswith("{"):
            check(c["g"] and c["stats"] >= 0, lambda: "%s: unasked statistics on standard output" % who)
            stats.append(strict(l, who, c["mode"]))
        else:
            packets.append(l)
    for l in err.split("\n"):
        i = l.find("{")
        if i >= 0 and '"EbNodB"' in l:
            check(not c["g"] and c["stats"] >= 0, lambda: "%s: unasked statistics on standard error" % who)
            if c.get("v"):              # other lines of the verbose mode may contain anything
                i = l.find('{"EbNodB"')
            if i and not c.get("v"):                       # the native tool's limits message has no line end
                check("Not setting estimator limits" in l[:i], lambda: "%s: text before a statistics line: %r" % (who, l[:i]))
            stats.append(strict(l[i:], who, c["mode"]))
    return packets, stats


class _Stdin:
    def __init__(self, b):
        self.buffer = io.BytesIO(b)


def named_output(path, text, who):
    """the content of a named output file, before the statistics on standard output"""
    try:
        with open(path, encoding="latin-1", newline="") as f:
            got = f.read()
    except OSError:
        raise Violation("%s: no output file was written" % who)
    check(all(l.startswith("{") for l in text.split("\n") if l), lambda: "%s: an output file is named, but this goes to standard output: %r" % (who, text[:200]))
    return got + text


def python_tool(args, data, c):
    import horusdemodlib.demod as D
    d = tempfile.mkdtemp(prefix="c12_")
    try:
        src = os.path.join(d, "in.raw")
        dst = os.path.join(d, "out.txt")
        if c["where"] != "stdin" or c.get("v"):
            open(src, "wb").write(data)
        if c["where"] == "process" or c.get("v"):
            p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path[:0]=%r; import horusdemodlib.demod as d; d.main()" % [build.cffi_ext(), build.REPO]] + args + [src, "-"],
                               stdin=subprocess.DEVNULL, capture_output=True, timeout=100)
            if p.returncode != 0:
                raise Violation("the Python tool ended with status %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:]))
            return p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        argv = args + ([] if c["where"] == "stdin" and not c["out"] else [src if c["where"] == "file" else "-"])
        if c["out"]:
            argv.append(dst)
        out, err = io.StringIO(), io.StringIO()
        old = sys.argv, sys.stdin
        sys.argv, sys.stdin = ["horus_demod"] + argv, _Stdin(data)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                D.main()
        except SystemExit as e:
            raise Violation("the Python tool ended with status %s on %s: %s" % (e.code, argv, err.getvalue()[-600:]))
        finally:
            sys.argv, sys.stdin = old
        text = out.getvalue()
        if c["out"]:
            text = named_output(dst, text, "Python tool")
        return text, err.getvalue()
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def python_class(data, c, rate, spacing, lim):
    from horusdemodlib.demod import HorusLib, Mode
    frames = []
    mode = {0: Mode.BINARY, 89: Mode.RTTY_7N1, 90: Mode.RTTY_7N2, 91: Mode.RTTY_8N2}[c["mode"]]
    with HorusLib(mode=mode, rate=rate, tone_spacing=spacing, stereo_iq=bool(c["quad"]), callback=frames.append) as h:
        if lim:
            h.set_estimator_limits(*lim)
        step = c["chunk"] or len(data)
        if step < 500:
            step *= 50
        for i in range(0, len(data), step):
            h.add_samples(data[i:i + step])
    return [(f.data.hex().upper() if isinstance(f.data, bytes) else f.data) for f in frames if f.crc_pass]


def class_stats(data, c, rate, spacing, lim):
    """signal to noise ratio, clock offset and tone frequencies as the Python class has them before the first and after every block"""
    from horusdemodlib.demod import HorusLib, Mode
    mode = {0: Mode.BINARY, 89: Mode.RTTY_7N1, 90: Mode.RTTY_7N2, 91: Mode.RTTY_8N2}[c["mode"]]
    seen = []
    with HorusLib(mode=mode, rate=rate, tone_spacing=spacing, stereo_iq=bool(c["quad"])) as h:
        if lim:
            h.set_estimator_limits(*lim)
        i = 0
        while True:
            s = h.stats
            seen.append([s.snr_est, s.clock_offset] + list(s.f_est[0:4 if c["mode"] == 0 else 2]))
            n = h.nin * 2 * (1 + c["quad"])
            if i + n > len(data):
                return seen
            h.add_samples(data[i:i + n])
            i += n


def follows(lines, seen, tol, who, args):
    """every line shows the state after some block, in order"""
    at = 0
    for n, l in enumerate(lines):
        k = at
        while k < len(seen) and not all(abs(a - b) <= t + 1e-3 * abs(b) for a, b, t in zip(l, seen[k], tol)):
            k += 1
        check(k < len(seen), lambda: "%s %s: statistics line %d (%r) shows no state of the demodulator from block %d on: %r" % (who, args, n, l, at, seen[at:at + 5]))
        at = k


def run(c, rec):
    """once in 10^4 signals the peak estimator loses a block in which one tone was rare: a loss all receivers share counts if it repeats with other lead-ins and alignments"""
    miss = once(c, rec)
    if not miss:
        return
    if c["mode"] == 0 and "--tonespacing" not in " ".join(make(c)[2]):
        rec.label("peak_retry")
        if sum(bool(once(dict(c, x=(c["x"] + 7919 * i) & 0xFFFFFFFF, lead=100 + (c["lead"] + 37 * i) % 121), rec)) for i in (1, 2, 3)) < 2:
            return
    fail(miss)


def native_tool(args, data, c):
    d = None
    try:
        io = ["-", "-"]
        if c.get("files"):
            d = tempfile.mkdtemp(prefix="c12_")
            if c["files"] & 1:
                io[0] = os.path.join(d, "in.raw")
                with open(io[0], "wb") as f:
                    f.write(data)
            if c["files"] & 2:
                io[1] = os.path.join(d, "out.txt")
        p = subprocess.run([TOOL] + args + io, input=b"" if io[0] != "-" else data, capture_output=True, env=san_env(), timeout=100)
        text = p.stdout.decode("latin-1")
        if p.returncode == 0 and io[1] != "-":
            text = named_output(io[1], text, "native tool")
    except subprocess.TimeoutExpired:
        raise Violation("the native tool does not end", "hang")
    finally:
        if d:
            shutil.rmtree(d)
    if p.returncode != 0:
        kind, msg = death_message("horus_demod %s" % args, p.returncode, p.stderr.decode(errors="replace"))
        raise Violation(msg, kind)
    return split(text, p.stderr.decode("latin-1"), c, "native tool")


def intact(text):
    if text.startswith("$"):
        body, _, crc = text.lstrip("$").rpartition("*")
        return len(crc) == 4 and crc.lower() == "%04x" % models.crc16(body.encode("latin-1"))
    try:
        return bool(models.reportable(bytes.fromhex(text)))
    except ValueError:
        return False


def once(c, rec):
    data, want, args, (Rs, spacing, lim) = make(c)
    where = c["where"]
    native, ns = native_tool(args, data, c)
    if c.get("cut") and native:
        # the shortest recording with the same reports: it ends with the last sample of a block
        unit = 2 + 2 * c["quad"]
        lo, hi = 0, len(data) // unit
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if len(native_tool(args, data[:mid * unit], c)[0]) >= len(native):
                hi = mid
            else:
                lo = mid
        data = data[:hi * unit]
        native, ns = native_tool(args, data, c)
        rec.label("cut")
    out, err = python_tool(args, data, c)
    py, ps = split(out, err, c, "Python tool")
    if c.get("v"):
        # by design, the Python tool's verbose mode also shows candidates whose checksum is wrong
        bad = [l for l in py if not intact(l.split("  CRC ")[0])]
        check(not c["crc"] or c["mode"] or all(l.endswith("  CRC BAD") for l in bad), lambda: "%s: the Python tool passes %r" % (args, bad))
        py = [l for l in py if l not in bad]
    check(native == py, lambda: "%s: native tool printed %r, Python tool %r" % (args, native, py))
    if c["crc"]:
        for l in native:
            check(l.endswith("  CRC OK"), lambda: "no CRC result in %r" % l)
        native = [l[:-8] for l in native]
    cls = python_class(data, c, Rs if c["rate"] else -1, spacing, lim)
    check(native == cls, lambda: "%s: tools printed %r, the Python class reported %r" % (args, native, cls))
    key = (lambda l: l) if c["mode"] == 0 else (lambda l: l.lstrip("$"))        # bits before a sentence may look like more of its dollars
    it = (key(l) for l in native)
    must = [(w.hex().upper() if c["mode"] == 0 else w.decode()) for w, clean in want if clean]
    if not all(key(w) in it for w in must):
        # another window with a valid checksum (about 1 stream in 10^4) may hide what it overlaps
        extra = [l for l in native if l not in must] if c["mode"] == 0 else []
        if not any(C09.accidental_report(x.encode()) for x in extra):
            return "%s: sent %r, all receivers reported %r" % (args, must, native)
        rec.label("set_aside_accidental")
        return
    if c["stats"] >= 0:
        secs = len(data) / 96000 / (1 + c["quad"])
        check(ns and ps or secs * Rs < 160, lambda: "statistics asked for, %d and %d lines printed" % (len(ns), len(ps)))
        seen = class_stats(data, c, Rs if c["rate"] else -1, spacing, lim)
        follows(ps, seen, [1e-3] * 6, "Python tool", args)
        follows(ns, seen, [0.02, 1.5, 0.1, 0.1, 0.1, 0.1], "native tool", args)
    rec.nontrivial(bool(must))
    rec.label("mode%d" % c["mode"], "python_" + where, "limits%d" % c["limits"], "stats" if c["stats"] >= 0 else "nostats", "quad" if c["quad"] else "real", "mask" if spacing > 0 else "peak",
              "reports%d" % len(native))
    rec.label(*{s["kind"] for s in c["sections"]})
    rec.label("verbose" if c.get("v") else "quiet", "native_files%d" % (c.get("files") or 0))


# ---------------------------------------------------------------- the Python class, block by block
MO = None


def setup_binding():
    global MO
    setup()
    MO = Modem("asan")


@st.composite
def binding(draw):
    c = draw(cases())
    c["sections"] = c["sections"][:2]
    c["rate"] = draw(st.sampled_from([600, 300, 1200, 600, 100, 0]))
    c["closed"] = draw(st.integers(0, 1))
    c["wrongmode"] = draw(st.sampled_from([None, None, None, 0, 1, "BINARY", "", 91]))
    return c


def near(a, b):
    return a == b or abs(a - b) <= 1e-3 * max(1, abs(a), abs(b)) or (a != a and b != b)


def run_binding(c, rec):
    """demodulate() as in the class's example, each frame with its statistics, against the native library"""
    from horusdemodlib.demod import HorusLib, Mode
    data, want, args, (Rs, spacing, lim) = make(c)
    rate = Rs if c["rate"] else -1
    hs = 1 + c["quad"]
    MO.reset()
    o = MO.open(0, c["mode"], rate, spacing, 48000, 0, c["quad"])
    if lim:
        MO.limits(0, *lim)
    if c["wrongmode"] is not None:
        try:
            HorusLib(mode=c["wrongmode"])
        except ValueError:
            pass
        else:
            fail("mode %r is accepted" % (c["wrongmode"],))
    mode = {0: [Mode.BINARY, Mode.BINARY_V1, Mode.BINARY_V2], 89: [Mode.RTTY_7N1], 90: [Mode.RTTY_7N2, Mode.RTTY], 91: [Mode.RTTY_8N2]}[c["mode"]]
    h = HorusLib(mode=mode[c["name"] % len(mode)], rate=rate, tone_spacing=spacing, stereo_iq=bool(c["quad"]))
    try:
        check(h.mfsk == o["mFSK"], lambda: "the class says %r tones, the library %d" % (h.mfsk, o["mFSK"]))
        if lim:
            h.set_estimator_limits(*lim)
        pos, blocks, got = 0, 0, 0
        while pos < len(data):
            n = h.nin
            check(n == MO.info(0)["nin"], lambda: "block %d: the class asks for %d samples, the library for %d" % (blocks, n, MO.info(0)["nin"]))
            b = data[pos:pos + n * 2 * hs]
            pos += n * 2 * hs
            f = h.demodulate(b)
            e = MO.push(0, b.ljust(n * 2 * hs, b"\0"), every=1)
            check(len(e) == 1, lambda: "the library took %d blocks" % len(e))
            e = e[0]
            text = e.text.split(b"\0")[0] if e.ret else b""
            w = bytes.fromhex(text.decode()) if c["mode"] == 0 else text.decode("ascii", "replace").rstrip("\0")
            if w:                                   # what a frame with a failed checksum carries is not specified
                check(f.data == w, lambda: "block %d: the class reports %r, the library %r" % (blocks, f.data, w))
            check(bool(f.crc_pass) == bool(e.crc), lambda: "block %d: checksum result %r, the library's %r" % (blocks, f.crc_pass, e.crc))
            whole, fl, arr = MO.all_stats(0)
            for who, s in (("the frame's", f.extended_stats), ("the class's", h.stats)):
                check((s.Nc, s.nr, s.sync, s.neyetr, s.neyesamp) == whole, lambda: "block %d: %s statistics are %r, the library's %r" % (blocks, who, (s.Nc, s.nr, s.sync, s.neyetr, s.neyesamp), whole))
                g = [s.snr_est, s.foff, s.rx_timing, s.clock_offset, s.sync_metric] + list(s.f_est)[:o["mFSK"]]
                g += [v for i in range(s.nr) for j in range(s.Nc) for v in (s.rx_symbols[i][j].real, s.rx_symbols[i][j].imag)] + [s.rx_eye[i][j] for i in range(s.neyetr) for j in range(s.neyesamp)]
                x = list(fl[:5 + o["mFSK"]]) + list(arr)
                check(len(g) == len(x) and all(map(near, g, x)), lambda: "block %d: %s statistics are %r, the library's %r" % (blocks, who, g[:12], x[:12]))
            check(near(f.snr, fl[0]) and bool(f.sync) == bool(whole[2]), lambda: "block %d: frame says %r dB, sync %r, the library %r dB, %r" % (blocks, f.snr, f.sync, fl[0], whole[2]))
            blocks += 1
            got += bool(text)
    finally:
        h.close()
    rec.nontrivial(blocks >= 3)
    rec.label("mode%d" % c["mode"], "reports%d" % min(got, 3), "quad" if c["quad"] else "real", "mask" if spacing > 0 else "peak")


def targets():
    return [Target("binding", binding(), run_binding, quick=240, thorough=8000, setup=setup_binding),
            Target("three", cases(), run, quick=640, thorough=16000, setup=setup)]
