import argparse, os, re, shutil, signal, subprocess, sys, tempfile
from hypothesis import strategies as st
import numpy as np
from vf import audio, bits as B, build, models, telem
from vf.core import Target, Violation, check, fail
from vf.native import san_env

RULE = ("Runs of every receive script with generated settings (tuning, signal positions, bandwidth, gain, bias tee, correction, device, statistics, extra arguments), with the receiver, the uploader and (half of the time) the demodulator replaced by "
        "programs that record their arguments and input; in the other half the real demodulator works on one generated quadrature signal per position and the uploader must be handed that signal's packet only. Non-trivial: the receiver is started.")
ASSUMPTIONS = ["settings in the scripts are changed by editing their assignments, or through the environment for the container scripts", "an uploader may be told no target frequency where there are several signals", "the netcat variant for other operating systems is not run"]

# name: settings are assigned in the script?, receiver, signals (variable, rtty), lower limit of a single signal's range
SCRIPTS = {
    "start_rtlsdr.sh": (True, "rtl_fm", None),
    "start_dual_4fsk.sh": (True, "rtl_fm", [("MFSK1_SIGNAL", 0), ("MFSK2_SIGNAL", 0)]),
    "start_triple_4fsk.sh": (True, "rtl_fm", [("MFSK%d_SIGNAL" % i, 0) for i in (1, 2, 3)]),
    "start_eight_4fsk.sh": (True, "rtl_fm", [("MFSK%d_SIGNAL" % i, 0) for i in range(1, 9)]),
    "start_dual_rtty_4fsk.sh": (True, "rtl_fm", [("RTTY_SIGNAL", 1), ("MFSK_SIGNAL", 0)]),
    "start_gqrx.sh": (True, "nc", None),
    "scripts/docker_single.sh": (False, "rtl_fm", None),
    "scripts/docker_soapy_single.sh": (False, "rx_fm", None),
    "scripts/docker_ka9q_single.sh": (False, "pcmrecord", None),
    "scripts/docker_dual_4fsk.sh": (False, "rtl_fm", [("MFSK1_SIGNAL", 0), ("MFSK2_SIGNAL", 0)]),
    "scripts/docker_dual_rtty_4fsk.sh": (False, "rtl_fm", [("RTTY_SIGNAL", 1), ("MFSK_SIGNAL", 0)]),
}
STUB = r"""#!/bin/sh
n=${0##*/}
case $n in
python|python3)
    if [ "$1 $2" = "-m horusdemodlib.uploader" ]; then n=horus_uploader; shift 2
    elif [ "$1 $2" = "-m horusdemodlib.demod" ]; then n=horus_demod; shift 2
    else exec /usr/bin/python3 "$@"; fi;;
esac
echo "$n $$" >> "$VP_REC/log"
for a; do printf '%s\n' "$a"; done > "$VP_REC/$$.args"
case $n in
rtl_fm|rx_fm|nc|pcmrecord) cat "$VP_REC/samples";;
horus_demod) echo "token $$"; if [ -n "$VP_TOOL" ]; then exec "$VP_TOOL" "$@"; fi; cat > "$VP_REC/$$.in";;
horus_uploader) cat > "$VP_REC/$$.in";;
esac
"""
NAMES = ["rtl_fm", "rx_fm", "nc", "pcmrecord", "tune", "horus_demod", "horus_uploader", "python", "python3", "pkill", "killall", "sudo", "systemctl", "reboot", "rm"]
TOOL = BIN = None


def prepare():
    build.tool("horus_demod")


def setup():
    global TOOL, BIN
    TOOL = build.tool("horus_demod")
    BIN = tempfile.mkdtemp(prefix="s01-bin-")
    import atexit
    atexit.register(shutil.rmtree, BIN, True)
    with open(os.path.join(BIN, "stub"), "w") as f:
        f.write(STUB)
    os.chmod(os.path.join(BIN, "stub"), 0o755)
    for n in NAMES:
        os.symlink("stub", os.path.join(BIN, n))


@st.composite
def case(draw, real):
    name = draw(st.sampled_from(sorted(SCRIPTS)))
    signals = SCRIPTS[name][2]
    c = {"script": name, "rx": draw(st.integers(10 ** 6, 1700 * 10 ** 6)), "bw": draw(st.integers(2000, 10000)), "gain": draw(st.sampled_from(["0", "0", "1", "20", "40.2", "49.6"])), "bias": draw(st.sampled_from(["0", "0", "1"])),
         "ppm": draw(st.integers(-120, 120)), "dev": draw(st.sampled_from(["0", "1", "00000101", "sonde-pcm.local"])), "stats": draw(st.sampled_from(["0", "1", None])), "extra": [], "missing": None, "mode": draw(st.sampled_from(["binary", "rtty"])),
         "soapy": draw(st.sampled_from(["-d driver=rtlsdr", "-d driver=airspy,serial=1 -a RX", ""]))}
    if signals:
        n = len(signals)
        c["bw"] = draw(st.integers(2000, min(10000, 46000 // n)))
        room = 47000 - n * c["bw"]
        cuts = sorted(draw(st.lists(st.integers(0, room), min_size=n, max_size=n)))
        c["at"] = [-23500 + x + i * c["bw"] + c["bw"] // 2 for i, x in enumerate(cuts)]
        if draw(st.booleans()):
            c["at"] = draw(st.permutations(c["at"]))
    elif draw(st.booleans()):
        c["extra"] = draw(st.lists(st.sampled_from(["--noupload", "-v", "-c other.cfg", "--log x.log", "--nodownload", "--baud_rate 100"]), max_size=3, unique=True))
    if real:
        c["off"] = [draw(st.integers(-1000, 1000)) for _ in range(len(signals or [0]))]
        c["x"] = draw(st.integers(0, 2 ** 32 - 1))
    else:
        c["x"] = draw(st.integers(0, 2 ** 32 - 1))
        c["size"] = draw(st.sampled_from([0, 4, 1000, 65536, 65540, 200000, 400000]))
        c["missing"] = draw(st.sampled_from([None] * 9 + ["horus_demod", "horus_uploader"]))
    return c


def band(c):
    """tuned frequency, [(lower, upper, wanted, rtty, name)]"""
    name, bw = c["script"], c["bw"]
    signals = SCRIPTS[name][2]
    if signals:
        return c["rx"], [(s - bw // 2, s + bw // 2, c["rx"] + s, r, v) for s, (v, r) in zip(c["at"], signals)]
    if "ka9q" in name:
        return c["rx"], [(-(bw // 2), bw // 2, c["rx"], 0, "signal")]
    if "gqrx" in name:
        return None, [(100, 20000, None, c["mode"] == "rtty", "signal")]
    return c["rx"] - bw // 2 - 1000, [(1000, 1000 + bw, c["rx"], 0, "signal")]


def packet(c, i, rtty):
    r = np.random.RandomState((c["x"] + i * 7919) & 0xFFFFFFFF)
    if rtty:
        return ("$$S%d,%d,12:00:00,%.4f" % (i, r.randint(0, 10000), r.rand())).encode()
    return models.with_crc_tail(bytes(r.randint(0, 256, 30, dtype=np.uint8)))


def samples(c):
    r = np.random.RandomState(c["x"])
    if "off" not in c:
        return bytes(r.randint(0, 256, c["size"], dtype=np.uint8)), None
    tuned, bands = band(c)
    total, packets, quad = None, [], "gqrx" not in c["script"]
    amp = 16000 / len(bands)
    for i, (lo, hi, _, rtty, _) in enumerate(bands):
        p = packet(c, i, rtty)
        if rtty:
            packets.append(p + b"*%04X" % models.crc16(p[2:]))
            bits = np.concatenate([B.rtty_bits(bytes(65 + v % 26 for v in r.randint(0, 26, 30)), 90), B.rtty_bits(packets[-1] + b"\n", 90), B.rtty_bits(bytes(65 + v % 26 for v in r.randint(0, 26, 110)), 90)])
            tones = np.array([-200.0, 200.0])
        else:
            packets.append(p)
            bits = np.concatenate([r.randint(0, 2, 200), models.l2_encode_bits(p), r.randint(0, 2, 160)])
            tones = np.array([-450.0, -150.0, 150.0, 450.0])
        mid = (lo + hi) / 2
        shift = max(0, min(1000, (hi - lo) // 2 - 800))
        tones = tones + mid + c["off"][i] * shift / 1000
        x = audio.fsk(audio.to_symbols(bits, 2 if rtty else 4), 48000, 100, tones, phase=r.rand() * 6, delay=r.randint(0, 3000)) * amp
        if total is None:
            total = x
        else:
            n = max(len(total), len(x))
            total = np.pad(total, (0, n - len(total))) + np.pad(x, (0, n - len(x)))
    total = audio.add_noise(np.pad(total, (0, 48000)), amp / 20, c["x"] ^ 99)
    return audio.to_shorts(total, quad), packets


class Args(argparse.ArgumentParser):
    def error(self, message):
        raise ValueError(message)


def demod_args(a):
    p = Args(add_help=False)
    p.add_argument("-m", "--mode")
    p.add_argument("--rate", type=int)
    p.add_argument("--tonespacing", type=int)
    p.add_argument("-t", "--stats", nargs="?", const=8, type=int)
    for x in "gqvc":
        p.add_argument("-" + x, action="store_true")
    p.add_argument("-u", "--fsk_upper", type=int)
    p.add_argument("-b", "--fsk_lower", type=int)
    p.add_argument("input", nargs="?", default="-")
    p.add_argument("output", nargs="?", default="-")
    return p.parse_args(a)


def edited(c, top):
    """the script with its settings, the environment"""
    src = open(os.path.join(build.REPO, c["script"])).read()
    env = {"PATH": BIN + ":/usr/bin:/bin", "HOME": top, "VP_REC": top + "/rec", "LC_ALL": "C", **{k: v for k, v in san_env().items() if "SAN" in k}}
    if "off" in c:
        env["VP_TOOL"] = TOOL
    v = {"RXFREQ": c["rx"], "RXBANDWIDTH": c["bw"], "GAIN": c["gain"], "BIAS": c["bias"], "PPM": c["ppm"], "SDR_DEVICE": c["dev"]}
    for s, (n, _) in zip(c.get("at", []), SCRIPTS[c["script"]][2] or []):
        v[n] = s
    if "gqrx" in c["script"]:
        v = {"MODE": c["mode"]}
    if SCRIPTS[c["script"]][0]:
        for k, x in v.items():
            src, n = re.subn(r"(?m)^(\s*(?:export\s+|declare\s+|readonly\s+)?%s=).*$" % k, lambda m: "%s%s" % (m.group(1), x), src, count=1)
            if n == 0:
                return None, None
        src = re.sub(r"(?m)^(\s*)cd /home/pi/horusdemodlib/?", lambda m: m.group(1) + "cd " + top + "/work", src)
    else:
        env.update({k: str(x) for k, x in v.items()}, DECODER="horus_demod", SDR_EXTRA=c["soapy"])
    if c["stats"] is not None:
        env["STATS_OUTPUT"] = c["stats"]
    return src, env


def once(c):
    top = tempfile.mkdtemp(prefix="s01-")
    try:
        os.makedirs(top + "/rec")
        os.makedirs(top + "/work")
        src, env = edited(c, top)
        if src is None:
            return None
        if c["missing"]:
            os.makedirs(top + "/bin")
            for n in NAMES + ["stub"]:
                if n != c["missing"]:
                    os.symlink(os.path.join(BIN, n), top + "/bin/" + n)
            env["PATH"] = top + "/bin:/usr/bin:/bin"
        data, packets = samples(c)
        open(top + "/rec/samples", "wb").write(data)
        open(top + "/script.sh", "w").write(src)
        p = subprocess.Popen(["bash", top + "/script.sh"] + [w for x in c["extra"] for w in x.split()], cwd=top + "/work", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            out = p.communicate(timeout=120)[0].decode("latin-1")
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            fail("%s does not end when its receiver does" % c["script"])
        runs = []
        if os.path.exists(top + "/rec/log"):
            for l in open(top + "/rec/log"):
                n, pid = l.split()
                a = open(top + "/rec/%s.args" % pid).read().split("\n")[:-1]
                i = top + "/rec/%s.in" % pid
                runs.append((n, int(pid), a, open(i, "rb").read() if os.path.exists(i) else None))
        return p.returncode, out, runs, data, packets
    finally:
        shutil.rmtree(top, True)


def value(args, opt):
    """the value of an option, written apart or together"""
    got = [args[i + 1] for i, a in enumerate(args[:-1]) if a == opt] + [a[len(opt):].lstrip("=") for a in args if a.startswith(opt) and a != opt]
    check(len(got) <= 1, lambda: "%s is given several times: %s" % (opt, args))
    return got[0] if got else None


def run(c, rec):
    if "off" not in c:
        return attempt(c, rec)
    try:
        attempt(c, rec)
    except Handed:
        rec.label("retry")
        bad = 0
        for i in (1, 2, 3):
            try:
                attempt(dict(c, x=(c["x"] + 1000003 * i) & 0xFFFFFFFF), rec)
            except Handed:
                bad += 1
        if bad >= 2:
            attempt(c, rec)


class Handed(Violation):
    """what the uploader is handed differs: now and then the demodulator loses a packet (see C09), so it has to repeat"""


def attempt(c, rec):
    r = once(c)
    if r is None:
        rec.label("setting_not_found")
        return
    code, out, runs, data, packets = r
    name = c["script"]
    rx = [x for x in runs if x[0] == SCRIPTS[name][1]]
    demods = [x for x in runs if x[0] == "horus_demod"]
    ups = [x for x in runs if x[0] == "horus_uploader"]
    if c["missing"]:
        if SCRIPTS[name][0]:
            check(code != 0 and not rx and "ERROR" in out, lambda: "%s without %s ends with status %s, starting %s" % (name, c["missing"], code, [x[0] for x in runs]))
            rec.nontrivial()
            rec.label("missing program")
        return
    tuned, bands = band(c)
    check(len(rx) == 1, lambda: "%s runs %d receivers: %s" % (name, len(rx), out[-500:]))
    a = rx[0][2]
    say = lambda: "%s %s runs %s" % (name, {k: v for k, v in c.items() if k != "script"}, [[x[0]] + x[2] for x in runs])
    if SCRIPTS[name][1] in ("rtl_fm", "rx_fm"):
        check(float(value(a, "-f") or "nan") == tuned, lambda: "tuned to %s, expected %d\n%s" % (value(a, "-f"), tuned, say()))
        check(value(a, "-s") in ("48000", "48k") and value(a, "-M") == "raw", say)
        check(value(a, "-p") == str(c["ppm"]), lambda: "correction %s\n%s" % (value(a, "-p"), say()))
        check(value(a, "-g") == (None if c["gain"] == "0" else c["gain"]), lambda: "gain %s\n%s" % (value(a, "-g"), say()))
        check(("-T" in a) == (c["bias"] == "1"), lambda: "bias tee\n%s" % say())
        if SCRIPTS[name][1] == "rtl_fm":
            check(value(a, "-d") == c["dev"], lambda: "device %s\n%s" % (value(a, "-d"), say()))
        else:
            w = c["soapy"].split()
            check(any(a[i:i + len(w)] == w for i in range(len(a))), lambda: "extra receiver arguments\n%s" % say())
    elif "ka9q" in name:
        tunes = [(i, x) for i, x in enumerate(runs) if x[0] == "tune"]
        # a pipeline that ends at once may end before the script waits for it: then it does not release the channel
        check(len(tunes) in (1, 2) and tunes[0][0] < runs.index(rx[0]) and (len(tunes) == 1 or runs.index(rx[0]) < tunes[1][0]), lambda: "tuning before and release after\n%s" % say())
        (t, u) = [x[1][2] for x in (tunes * 2)[:2]]
        rec.label("released" if len(tunes) == 2 else "not_released")
        for o in ("--ssrc", "--radio"):
            check(value(t, o) == value(u, o), say)
        check(value(t, "--ssrc") and value(a, "--ssrc") == value(t, "--ssrc"), lambda: "channel\n%s" % say())
        check(float(value(t, "--frequency")) == tuned and (len(tunes) == 1 or float(value(u, "--frequency")) == 0), lambda: "frequencies\n%s" % say())
        check(value(t, "--samprate") == "48000" and value(t, "--mode") == "iq" and c["dev"] in a and value(t, "--radio") == c["dev"].replace("-pcm", ""), say)
        check(abs(int(value(t, "--low")) - bands[0][0]) <= 1 and abs(int(value(t, "--high")) - bands[0][1]) <= 1, lambda: "filter\n%s" % say())
    else:
        check("7355" in a, say)
    check(len(demods) == len(bands) and len(ups) == len(bands), say)
    told = 0
    left = list(range(len(bands)))
    for n, pid, a, got in demods:
        try:
            d = demod_args(a)
        except ValueError as e:
            fail("demodulator arguments: %s\n%s" % (e, say()))
        k = [i for i in left if d.fsk_lower is not None and d.fsk_upper is not None and abs(d.fsk_lower - bands[i][0]) <= 1 and abs(d.fsk_upper - bands[i][1]) <= 1 and (d.mode or "").lower() == ("rtty" if bands[i][3] else "binary")]
        check(k, lambda: "demodulator %s fits none of the signals %s left\n%s" % (a, [bands[i] for i in left], say()))
        k = k[0]
        left.remove(k)
        check(d.q == ("gqrx" not in name) and d.g and d.stats and d.stats > 0 and (d.input, d.output) == ("-", "-") and d.rate in (None, 100) and d.tonespacing in (None, -1), lambda: "demodulator %s\n%s" % (a, say()))
        if got is not None:
            check(got == data, lambda: "the demodulator of %s gets %d bytes, %sthe %d received" % (bands[k][4], len(got), "not " if len(got) == len(data) else "", len(data)))
        u = [x for x in ups if b"token %d\n" % pid in x[3]]
        check(len(u) == 1 and u[0][3].count(b"token") == 1, lambda: "the demodulator of %s feeds %d uploaders\n%s" % (bands[k][4], len(u), say()))
        ua = u[0][2]
        if tuned is not None:
            check(float(value(ua, "--freq_hz") or "nan") == tuned, lambda: "the uploader of %s is told tuned frequency %s, expected %s\n%s" % (bands[k][4], value(ua, "--freq_hz"), tuned, say()))
            t = value(ua, "--freq_target_hz")
            if t is not None:
                told += 1
                check(float(t) == bands[k][2], lambda: "the uploader of %s is told target frequency %s, expected %s\n%s" % (bands[k][4], t, bands[k][2], say()))
        if "gqrx" not in name:
            check(("--rtty" in ua) == bool(bands[k][3]), lambda: "the uploader of %s: %s" % (bands[k][4], ua))
        w = [w for x in c["extra"] for w in x.split()]
        check(any(ua[i:i + len(w)] == w for i in range(len(ua))) or not w, lambda: "extra arguments %s: %s" % (w, ua))
        if packets:
            lines = [l for l in u[0][3].split(b"\n") if l and not l.startswith((b"{", b"token"))]
            want = packets[k] if bands[k][3] else packets[k].hex().encode()
            if bands[k][3]:
                lines = [l.strip() for l in lines if b"$$" in l and b"*%04X" % models.crc16(l.strip()[2:-5]) == l.strip()[-5:]]
            if [l.lower() for l in lines] != [want.lower()]:
                raise Handed("the uploader of %s is handed %s, expected %s\n%s" % (bands[k][4], lines, want, say()))
    check(told or tuned is None, lambda: "no uploader is told a target frequency\n%s" % say())
    rec.nontrivial()
    rec.label(name, "%d signals" % len(bands))


def targets():
    return [Target("arguments", case(False), run, quick=500, thorough=15000, setup=setup), Target("signals", case(True), run, quick=120, thorough=4000, setup=setup)]
