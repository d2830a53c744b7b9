import contextlib, io, json, math, struct, subprocess, sys
from hypothesis import strategies as st
import numpy as np
from checks import C04, C09, C12, P12, P17
from vf import audio, bits as B, build, models, net, repo, telem, v3
from vf.core import Target, Violation, check, fail
from vf.native import death_message, san_env

RULE = ("One to three telemetry items of one radio mode (binary packets of every format and size, some made by the packet creation routine, or sentences) modulated onto 48 kHz audio at a generated carrier, spacing, "
        "level, noise and baud rate, real or quadrature, go through a command-line demodulator (native or Python, statistics in the stream) whose output lines are fed to the uploader program with generated options "
        "and configuration; its log, datagrams and uploads must carry the values transmitted, in order, once, with a centre frequency and signal-to-noise ratio that fit the signal. Non-trivial: at least one item is uploaded.")
ASSUMPTIONS = ["C09's conditions on the signal", "a loss with the peak estimator counts if it repeats with other lead-ins and alignments", "HTTP requests succeed and take no time"]
TOOL = ENC = None


def prepare():
    P17.prepare()
    build.tool("horus_demod")
    build.cffi_ext()


def setup():
    global TOOL, ENC
    P17.setup()
    repo.setup(native=True)
    TOOL = build.tool("horus_demod")
    from horusdemodlib.encoder import Encoder
    ENC = Encoder()


@st.composite
def item(draw, rtty):
    t = draw(P12.item().filter(lambda t: (t["kind"] == "rtty") == rtty and t["kind"] != "v2s"))
    del t["notes"]
    t["off"] = draw(st.one_of(st.integers(-150, 150), st.integers(-150, 150), st.sampled_from([-300, 7200])))
    t["pad"] = draw(st.integers(0, 4))
    t["made"] = t["kind"] == "v2" and draw(st.booleans())
    if t["kind"] == "v3":
        for i, s in enumerate(t["m"].get("extraSensors", [])):
            s.setdefault("name", "s%d" % i)
    return t


@st.composite
def case(draw):
    rtty = draw(st.integers(0, 3)) == 0
    c = {"rtty": rtty, "t0": 1700000000 + draw(st.integers(0, 86399)), "cfg": draw(P17.config()), "opt": draw(P17.options()), "enc": "utf-8", "errors": "strict", "desc": draw(st.integers(0, len(P12.DESC) - 1)), "last": "full",
         "stop": "eof", "sig": draw(C09.signal([(100, 48000, 8), (300, 48000, 8), (300, 48000, 8), (600, 48000, 8)] if rtty else [(100, 48000, 8), (300, 48000, 8), (600, 48000, 8), (600, 48000, 8)])),
         "items": draw(st.lists(item(rtty), min_size=1, max_size=3)), "gap": draw(st.integers(0, 120)), "tool": draw(st.sampled_from(["native", "python"])), "stats": draw(st.sampled_from([5, 5, 20, 1])), "calls": draw(st.lists(telem.callsigns(), min_size=3, max_size=3))}
    c["opt"]["log"] = "file"
    c["opt"]["rtty"] = rtty
    c["opt"].setdefault("freq_hz", 434200000)
    c["sig"]["delay"] %= 400
    return c


def payload(t, t0):
    """-> bytes on the air"""
    s = (t0 + t["off"]) % 86400
    k = t["kind"]
    if k == "rtty":
        return P17.wire(dict(t, upper=True), t0)
    if k == "v3":
        m = dict(t["m"], timeOfDaySeconds=s)
        b = bytes(repo.asn(P17.D).encode("Telemetry", v3.to_py(m), check_constraints=True)) if any(x.get("values", [0])[0] == "horusStr" for x in m.get("extraSensors", [])) else v3.encode(m)
        fit = [n for n in (32, 48, 64, 96, 128) if n >= len(b) + 2]
        if not fit:
            return None
        return models.with_crc_head(b + bytes(fit[t["pad"] % len(fit)] - 2 - len(b)))
    f = dict(t["f"], hms=[s // 3600, s // 60 % 60, s % 60])
    if t["made"]:
        f["id"] = max(256, f["id"])
        f["lat"], f["lon"] = (telem.f32bits(float(telem.f32(f[x]))) for x in ("lat", "lon"))
        return bytes(ENC.create_horus_v2_packet(payload_id=f["id"], sequence_number=f["seq"], hours=f["hms"][0], minutes=f["hms"][1], seconds=f["hms"][2], latitude=telem.f32(f["lat"]), longitude=telem.f32(f["lon"]), altitude=f["alt"], speed=f["speed"],
                                                satellites=f["sats"], temperature=f["temp"], battery_voltage=f["batt"] / 51.0, custom_data=bytes.fromhex(f["custom"]), return_uncoded=True))
    return telem.packet(k, f)


def demodulate(c, sent, lead=None):
    """-> lines printed by the tool, the tones, whether another window with a valid checksum is in the stream"""
    mode = 90 if c["rtty"] else 0
    M_ = 2 if c["rtty"] else 4
    s = c["sig"]
    if c["rtty"]:
        chunks = []
        for p in sent:
            chunks += [B.rtty_bits(p + b"\n", mode), B.rtty_bits(b"U" * (c["gap"] // 10), mode)]
        r = bytes(65 + v % 26 for v in np.random.RandomState(s["x"] ^ 5).randint(0, 26, 200))
        chunks.append(B.rtty_bits(r[:150], mode))
        data, args, lim, tones = C09.render(s, M_, chunks, B.rtty_bits(r[150:], mode)[-s["lead"]:])
        accident = False
    else:
        chunks, at = [], []
        lead = np.random.RandomState(s["x"]).randint(0, 2, s["lead"] * 2)
        pos = len(lead)
        for i, p in enumerate(sent):
            b = models.l2_encode_bits(p)
            at.append(pos)
            chunks += [b, C09.tail(s["x"] + i, c["gap"] * 2)]
            pos += len(b) + c["gap"] * 2
        chunks.append(C09.tail(s["x"] - 1, 160))
        data, args, lim, tones = C09.render(s, M_, chunks)
        accident = C04.accidental(np.concatenate([lead] + chunks), [(p, None) for p in sent], at)
    a = ["-m", "rtty7n2" if c["rtty"] else "binary", "--rate=%d" % args[0], "-g", "--stats=%d" % c["stats"], "--fsk_lower=%d" % math.ceil(lim[0]), "--fsk_upper=%d" % math.floor(lim[1])]
    if args[1] > 0:
        a.append("--tonespacing=%d" % args[1])
    if s["quad"]:
        a.append("-q")
    if c["tool"] == "native":
        p = subprocess.run([TOOL] + a + ["-", "-"], input=data, capture_output=True, env=san_env(), timeout=100)
        if p.returncode:
            kind, msg = death_message("horus_demod %s" % a, p.returncode, p.stderr.decode(errors="replace"))
            raise Violation(msg, kind)
        out = p.stdout.decode("latin-1")
    else:
        out = C12.python_tool(a, data, {"where": "stdin", "out": 0})[0]
    return out.split("\n")[:-1], tones, accident


def run(c, rec):
    P17.net.engine.reset(float(c["t0"]))
    for t, call in zip(c["items"], c["calls"]):
        t["call"] = call
    items = [(t, payload(t, c["t0"])) for t in c["items"]]
    items = [x for x in items if x[1] is not None and (c["rtty"] or x[0]["kind"] == "v3" or "head" not in models.crc_kind(x[1]))]
    if not items:
        return
    if len({p for _, p in items}) < len(items):
        return
    miss, lines, tones = attempt(c, items)
    if miss == "accident":
        rec.label("set_aside_accidental")
        return
    if miss and not c["rtty"] and not c["sig"]["mask"]:
        rec.label("peak_retry")
        s = c["sig"]
        again = [attempt(dict(c, sig=dict(s, x=(s["x"] + 7919 * i) & 0xFFFFFFFF, delay=(s["delay"] + 27 * i) % 400, lead=100 + (s["lead"] + 37 * i) % 151)), items)[0] for i in (1, 2, 3)]
        if sum(bool(x) for x in again) < 2:
            return
    if miss:
        fail(miss)
    ids = {}
    for t, p in items:
        if t["known"] and t["kind"] in telem.FORMATS:
            ids[int.from_bytes(p[:1 if t["kind"] == "v1" else 2], "little")] = t["call"].strip()
    c2 = dict(c, chunks=[{"dt": 0.25, "end": "\n", "raw": l.encode("latin-1").hex()} for l in lines] or [{"dt": 0.25, "end": "\n", "raw": ""}])
    b = Chain(c2)
    b.ids = ids
    b.go()
    out, bad, _ = b.judge()
    check(bad == 0 and len(out) == len(items), lambda: "%d of %d items sent become telemetry: %s" % (len(out), len(items), lines))
    mean = sum(tones) / len(tones)
    n = 0
    fed = b.fed[-1][0]
    up = list(b.uploads)
    for (t, p), (data, e, _, dg, u) in zip(items, out):
        want, must = meant(t, p, ids, c)
        what = "%s sent as %s" % (t["kind"], p.hex())
        for k, v in want.items():
            check(k in e and same(e[k], v), lambda: "%s arrives with %s %r instead of %r" % (what, k, e.get(k), v))
        check(must == (u is not None) or c["opt"]["noupload"], lambda: "%s %s uploaded" % (what, "is not" if must else "is"))
        if u is None:
            continue
        g = up.pop(0)
        n += 1
        check(g["payload_callsign"] == want["callsign"] and g["frame"] == want["sequence_number"] and same(g["lat"], want["latitude"]) and same(g["lon"], want["longitude"]) and same(g["alt"], want["altitude"]), lambda: "%s is uploaded as %s" % (what, g))
        for k, n_ in (("temperature", "temp"), ("battery_voltage", "batt"), ("satellites", "sats")):
            if k in want and not (k == "battery_voltage" and want[k] < 0):
                check(n_ in g and same(g[n_], want[k]), lambda: "%s is uploaded as %s" % (what, g))
        f = c["opt"]["freq_hz"] + mean
        tol = max(60, tones[1] - tones[0]) if c["stats"] == 20 or c["sig"]["rate"][0] == 100 else 48000     # with few statistics the latest are from before the signal
        check("frequency" in g and abs(g["frequency"] * 1e6 - f) <= tol, lambda: "%s, sent at %.0f Hz, is uploaded as %s" % (what, f, g))
        check("snr" in g and math.isfinite(g["snr"]), lambda: "%s, sent with Eb/N0 %s dB, is uploaded as %s" % (what, c["sig"]["ebno"], g))
    rec.nontrivial(n > 0)
    rec.label(c["tool"], "rtty" if c["rtty"] else "binary", "uploads%d" % n, "quad" if c["sig"]["quad"] else "real", *["kind " + t["kind"] + (" made" if t["made"] else "") for t, _ in items])


class Chain(P17.Bench):
    def lists(self):
        self.docs = P17.documents(self.ids, self.fields())
        import os
        for n, d in zip(("ids.txt", "fields.json"), self.docs):
            with open(os.path.join(self.top, n), "w") as f:
                f.write(d)


def attempt(c, items):
    sent = [p for _, p in items]
    lines, tones, accident = demodulate(c, sent)
    got = [l for l in lines if not l.startswith("{")]
    want = [p.decode() if c["rtty"] else p.hex().upper() for p in sent]
    if got == want:
        return None, lines, tones
    if accident or (not c["rtty"] and any(l not in want and C09.accidental_report(l.encode()) for l in got)):
        return "accident", lines, tones
    return "sent %s, the %s tool printed %s" % (want, c["tool"], got), lines, tones


def same(a, b):
    if isinstance(b, float):
        return isinstance(a, (int, float)) and abs(a - b) <= 1e-6 * max(1, abs(b))
    return a == b


def meant(t, p, ids, c):
    """the values sent, from the case alone, and whether they are to be uploaded"""
    s = (c["t0"] + t["off"]) % 86400
    time = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    near = abs(t["off"]) <= 160
    k = t["kind"]
    if k == "rtty":
        q, _, la, lo, al = t["f"]
        call = t["call"] if t["known"] else telem.UNKNOWN
        return {"callsign": call, "sequence_number": q, "time": time, "latitude": float("%.6f" % la), "longitude": float("%.6f" % lo), "altitude": al}, near and t["known"]
    if k == "v3":
        m = t["m"]
        w = {"callsign": m["payloadCallsign"], "sequence_number": m["sequenceNumber"], "time": time, "latitude": m["latitude"] / 1e5, "longitude": m["longitude"] / 1e5}
        alt = m["altitudeMeters"]
        if alt != -1000:
            w["altitude"] = alt
        return w, near and "altitude" in w and m["payloadCallsign"] != telem.UNKNOWN and v3.VIA[m.get("via", 0)] == "sondehub"
    i = int.from_bytes(p[:1 if k == "v1" else 2], "little")
    call = ids.get(i) or {0: "4FSKTEST", 1: "HORUSBINARY", 256: "4FSKTEST-V2"}.get(i, telem.UNKNOWN)
    f = t["f"]
    w = {"callsign": call, "sequence_number": f["seq"], "time": time, "latitude": telem.f32(f["lat"]), "longitude": telem.f32(f["lon"]), "altitude": f["alt"], "speed": f["speed"], "satellites": f["sats"], "temperature": f["temp"], "battery_voltage": f["batt"] / 51.0}
    return w, near and call != telem.UNKNOWN


def targets():
    return [Target("chain", case(), run, quick=640, thorough=16000, setup=setup)]
