import binascii, copy, datetime, gzip, io, json, os, shutil, sys, tempfile, threading
from hypothesis import strategies as st
from checks import P12
from vf import clock, models, net, repo, telem, v3
from vf.core import Target, check

RULE = ("Runs of the real uploader program with generated options and configuration on 1 to 40 input chunks: valid packets of every format and sentences (of known and unknown payloads, with times near the clock or far off), damaged and "
        "cut ones, statistics (up to 100 kB long), repetitions of earlier lines, and garbage of every kind (bytes outside the character set, NUL, very long lines, bare carriage returns), in three character sets, ended by end of input or an interrupt, while the fake clock "
        "moves and the upload thread works in between. The expected outputs of each valid line are computed alone, in a fresh state. Non-trivial: valid and invalid lines are mixed and at least one statistics line precedes a valid one.")
ASSUMPTIONS = ["sensors of version 3 packets carry their names (remembered names are the subject of another property)", "frequencies and tone spacings are reported to whole hertz, rounded either way",
               "the HTTP server accepts every upload", "lists that were loaded contain well-formed entries"]
D = P = U = H = S = UP = None
UTC = datetime.timezone.utc
GET_IDS = "https://raw.githubusercontent.com/projecthorus/horusdemodlib/master/payload_id_list.txt"
GET_FIELDS = "https://raw.githubusercontent.com/projecthorus/horusdemodlib/master/custom_field_list.json"
TELEM = "https://api.v2.sondehub.org/amateur/telemetry"
STATION = "https://api.v2.sondehub.org/amateur/listeners"


def prepare():
    clock.prepare()


def setup():
    global D, P, U, H, S, UP
    clock.setup()
    net.setup()
    P12.setup()
    import horusdemodlib.demodstats as S_
    import horusdemodlib.horusudp as H_
    import horusdemodlib.uploader as UP_
    D, P, U = P12.D, P12.P, P12.U
    H, S, UP = H_, S_, UP_
    BUILTIN["ids"] = copy.deepcopy(P.HORUS_PAYLOAD_LIST)
    BUILTIN["fields"] = copy.deepcopy(P.HORUS_CUSTOM_FIELDS)


BUILTIN = {}

# ------------------------------------------------------------------------------------------------- what arrives


@st.composite
def packet(draw):
    t = draw(P12.item())
    del t["notes"]
    t["off"] = draw(st.one_of(st.integers(-150, 150), st.integers(-170, 170), st.sampled_from([-300, 300, 7200, 43200])))
    t["upper"] = draw(st.booleans())
    t["pre"] = draw(st.sampled_from(["", "", "", "", "$", "$$$", "$$xy", "$$,1,", "$$\xe9$"]))      # what was received just before a sentence
    if t["kind"] == "v3":
        for i, s in enumerate(t["m"].get("extraSensors", [])):
            s.setdefault("name", "s%d" % i)
    return t


GARBAGE = [b"", b" ", b"\t\t", b"hello", b"$", b"$$", b"$$$$$$", b"$$*", b"$$A*0000", b"$$A,1,12:00:00,1,2,3*ZZZZ", b"$$A,1,12:00:00*", b"{", b"{}", b"{\"EbNodB\":", b"{\"EbNodB\":1,\"ppm\":2}", b"{]", b"{\"EbNodB\":\"x\",\"ppm\":0,\"f1_est\":1,\"f2_est\":2,\"samp_fft\":[]}",
           b"0", b"00", b"0x00", b"zz", b"00 00", b"0g", b"\x00", b"\xff\xfe", b"\x80", b"$$\xff\xff*1234", b"{\"\xff\":1}", b"de\xadbeef", b"\xc3\xa9", b"a" * 70000, b"0" * 70001, b"{" + b"[" * 5000, b"$" * 3000, b"$$" + b"," * 5000 + b"*1234", b"Infinity", b"nan", b"-1", b"\x1a",
           b"01" * 22, b"01" * 32, b"00" * 22, b"ff" * 32, b"00" * 16, b"\x0c", b"\x1c\x1d\x85", b"  CRC OK", b"'; exit", b"%s%s%n", b"\\x41", b"None"]


@st.composite
def stats(draw):
    n = draw(st.sampled_from([2, 4, 4]))
    f = sorted(draw(st.lists(st.integers(500, 40000).map(lambda x: x / 10), min_size=n, max_size=n, unique=True)))
    return {"EbNodB": draw(st.one_of(st.floats(-10, 60).map(lambda x: round(x, 2)), st.just(-999.0))), "ppm": draw(st.integers(-500, 500)), **{"f%d_est" % (i + 1): x for i, x in enumerate(f)}}


@st.composite
def chunk(draw):
    c = {"dt": draw(st.sampled_from([0.25, 0.25, 0.5, 1, 1, 2, 3, 5])), "end": draw(st.sampled_from(["\n", "\n", "\n", "\r\n", " \n", "\r\r\n", "\n\n"]))}
    k = draw(st.integers(0, 19))
    if k == 8:
        c["again"] = draw(st.integers(1, 3))
    elif k < 9:
        c["p"] = draw(packet())
    elif k < 12:
        c["p"] = draw(packet())
        c["damage"] = [draw(st.sampled_from(["flip", "cut", "add", "insert", "space", "char"])), draw(st.integers(0, 600)), draw(st.integers(1, 255))]
    elif k < 16:
        c["stats"] = draw(stats())
        c["fft"] = draw(st.sampled_from([1, 0, 40, 900, 7000]))
    else:
        c["raw"] = draw(st.one_of(st.sampled_from(GARBAGE), st.sampled_from(GARBAGE), st.binary(max_size=30), st.text(max_size=20).map(lambda s: s.encode("utf-8", "replace")))).hex()
    return c


@st.composite
def config(draw):
    txt = lambda n: st.text("abcXYZ019 -_/%#=:;[]", max_size=n).map(str.strip)
    zero = draw(st.integers(0, 2)) == 0
    return {"callsign": draw(st.one_of(st.sampled_from(["N0CALL", "VK5QI-9", "YOUR_CALL_HERE"]), txt(10).filter(bool))), "station_lat": 0.0 if zero else draw(st.one_of(st.floats(-90, 90).map(lambda x: round(x, 5)), st.just(0.0))),
            "station_lon": 0.0 if zero else draw(st.floats(-180, 180).map(lambda x: round(x, 5))), "radio_comment": draw(txt(20)), "antenna_comment": draw(txt(20)),
            "summary_port": draw(st.one_of(st.just(55672), st.integers(1, 65535))), "ozimux_port": draw(st.integers(1, 65535))}


@st.composite
def options(draw):
    o = {"rtty": draw(st.integers(0, 9)) == 0, "noupload": draw(st.integers(0, 5)) == 0, "nodownload": draw(st.booleans()), "log": draw(st.sampled_from(["file", "file", "file", "old", "none"]))}
    for n, s in (("freq_hz", st.one_of(st.integers(100000, 10 ** 9), st.floats(1e5, 1e9).map(lambda x: round(x, 1)))), ("freq_target_hz", st.one_of(st.integers(1000000, 10 ** 9), st.floats(1e6, 1e9))), ("baud_rate", st.sampled_from([50, 100, 300]))):
        if draw(st.booleans()):
            o[n] = draw(s)
    return o


@st.composite
def case(draw):
    return {"t0": 1700000000 + draw(st.integers(0, 86399)), "cfg": draw(config()), "opt": draw(options()), "enc": draw(st.sampled_from(["utf-8", "utf-8", "ascii", "latin-1"])), "errors": draw(st.sampled_from(["strict", "strict", "surrogateescape"])),
            "chunks": draw(st.lists(chunk(), min_size=1, max_size=draw(st.sampled_from([5, 15, 40])))), "desc": draw(st.integers(0, len(P12.DESC) - 1)), "last": draw(st.sampled_from(["full", "full", "open"])),
            "stop": draw(st.sampled_from(["eof", "eof", "eof", "eof", "ctrlc"]))}


def wire(t, now):
    """the line for a packet received at an instant"""
    s = (int(now) + t["off"]) % 86400
    k = t["kind"]
    if k == "rtty":
        q, _, la, lo, al = t["f"]
        b = "%s,%d,%02d:%02d:%02d,%.6f,%.6f,%d" % (t["call"] if t["known"] else telem.UNKNOWN, q, s // 3600, s // 60 % 60, s % 60, la, lo, al)
        return (t.get("pre", "") + "$$" + b + "*%04X" % models.crc16(b.encode())).encode()
    if k == "v3":
        m = dict(t["m"], timeOfDaySeconds=s)
        b = bytes(repo.asn(D).encode("Telemetry", v3.to_py(m), check_constraints=True)) if any(x.get("values", [0])[0] == "horusStr" for x in m.get("extraSensors", [])) else v3.encode(m)
        b = models.with_crc_head(b)
    else:
        b = telem.packet(k, dict(t["f"], **({"bisec": s // 2} if k == "v2s" else {"hms": [s // 3600, s // 60 % 60, s % 60]})))
    return (b.hex().upper() if t["upper"] else b.hex()).encode()


def damage(b, d):
    hex_ = not b.startswith(b"$$")
    b = damaged(b, d)
    if hex_ and d[0] != "add":          # whitespace between hexadecimal digits is left open
        b = bytes(95 if x in b" \t\x0b\x0c\r\n" else x for x in b)
    return b


def damaged(b, d):
    b = bytearray(b)
    i = d[1] % max(1, len(b))
    if d[0] == "flip":
        b[i] ^= 1 << d[2] % 7
    elif d[0] == "char":
        b[i] = b"0123456789ABCDEFg$*,{"[d[2] % 21]
    elif d[0] == "cut":
        b = b[:i]
    elif d[0] == "add":
        b += bytes([d[2]]) * (1 + i % 5)
    elif d[0] == "insert":
        b[i:i] = bytes([d[2]])
    else:
        b[i:i] = b" "
    return bytes(b)


def payload_lists(c, which=None):
    """the numbers and names of the payloads in the case, as in the lists served"""
    ids = {}
    for x in c["chunks"]:
        t = x.get("p")
        if t and t["known"] and t["kind"] in telem.FORMATS and (which is None or which(x)):
            ids[t["f"]["id"]] = t["call"].strip()
    return ids


def documents(ids, fields):
    return "# HORUS BINARY PAYLOAD ID LIST\n" + "".join("%d, %s\n" % x for x in ids.items()), json.dumps(dict({"HORUSTEST": BUILTIN["fields"]["HORUSTEST"]}, **fields))


# ------------------------------------------------------------------------------------------------- the program


class Feed(io.RawIOBase):
    """standard input: one chunk per read, the world moves on in between"""

    def __init__(self, bench):
        self.b = bench

    def readable(self):
        return True

    def readinto(self, buf):
        if not getattr(self, "rest", b""):
            self.rest = self.b.next_chunk()
        n = min(len(buf), len(self.rest))
        buf[:n] = self.rest[:n]
        self.rest = self.rest[n:]
        return n


class Bench:
    def __init__(self, c):
        self.c = c
        self.gets = []                  # (time, url)
        self.uploads = []               # (time, items)
        self.station = []
        self.problems = []
        self.fed = []                   # (time, bytes)
        self.k = 0

    def server(self, request):
        import requests
        if request.method == "GET":
            self.gets.append((net.engine.now, request.url))
            return self.list_answer(request)
        try:
            body = request.body.encode() if isinstance(request.body, str) else request.body
            if request.url == TELEM:
                self.uploads += json.loads(gzip.decompress(body))
            elif request.url == STATION:
                self.station.append(json.loads(body))
            else:
                self.problems.append("a request is made to " + request.url)
        except Exception as x:
            self.problems.append("a request cannot be read: %r" % x)
        return net.response(request, 200, b"OK")

    def list_answer(self, request):
        return net.response(request, 200, self.docs[0 if request.url == GET_IDS else 1].encode())

    def thread(self):
        for th in threading.enumerate():
            if th is not threading.main_thread() and th in self.mine():
                return th

    def mine(self):
        return [t for t in threading.enumerate() if t not in self.others]

    def pass_time(self, dt):
        th = self.mine()
        if th:
            if dt > 40:
                net.engine.settle(th[0])
                net.engine.set(net.engine.now + dt - 5)
                dt = 5
            net.engine.tick(th[0], dt)
        else:
            net.engine.set(net.engine.now + dt)

    def next_chunk(self):
        c = self.c
        if net.engine.free:
            return b""
        if self.k >= len(c["chunks"]):
            self.pass_time(0)
            net.engine.finish()
            if c["stop"] == "ctrlc" and not self.stopped:
                self.stopped = True
                raise KeyboardInterrupt()
            return b""
        x = c["chunks"][self.k]
        self.pass_time(x["dt"])
        self.on_chunk(x)
        if "p" in x:
            b = wire(x["p"], net.engine.now)
            if "damage" in x:
                b = damage(b, x["damage"])
        elif "again" in x:                  # a line of before comes once more
            b = self.fed[-min(x["again"], len(self.fed))][1].rstrip(b"\r\n") if self.fed else b""
        elif "stats" in x:
            b = json.dumps(dict(x["stats"], samp_fft=[-12.345678] * x.get("fft", 1))).encode()
        else:
            b = bytes.fromhex(x["raw"])
        self.k += 1
        if not (self.k == len(c["chunks"]) and c["last"] == "open" and c["stop"] == "eof" and b):
            b += x["end"].encode()
        self.fed.append((net.engine.now, b))
        return b

    def on_chunk(self, x):
        pass

    def args(self):
        o, a = self.c["opt"], ["uploader", "-c", self.cfgfile, "--payload-list", os.path.join(self.top, "ids.txt"), "--custom-fields", os.path.join(self.top, "fields.json"), "--debuglog", os.path.join(self.top, "debug.log")]
        a += ["--log", "none" if o["log"] == "none" else os.path.join(self.top, "telemetry.log")]
        for n in ("rtty", "noupload", "nodownload"):
            if o[n]:
                a.append("--" + n)
        for n in ("freq_hz", "freq_target_hz", "baud_rate"):
            if n in o:
                a += ["--" + n, repr(o[n])]
        return a

    def config_text(self):
        f = self.c["cfg"]
        return "[user]\n" + "".join("%s = %s\n" % (k, f[k]) for k in ("callsign", "station_lat", "station_lon", "radio_comment", "antenna_comment")) + "[horus_udp]\nsummary_port = %d\nozimux_port = %d\n" % (f["summary_port"], f["ozimux_port"])

    def fields(self):
        s, f = P12.DESC[self.c["desc"]]
        return {"4FSKTEST-V2": {"struct": s, "fields": [list(x) for x in f]}}

    def lists(self):
        """prepares the local files and what the server offers"""
        self.docs = documents(payload_lists(self.c), self.fields())
        for n, d in zip(("ids.txt", "fields.json"), self.docs):
            with open(os.path.join(self.top, n), "w") as f:
                f.write(d)

    def reset(self):
        P.HORUS_PAYLOAD_LIST = copy.deepcopy(BUILTIN["ids"])
        P.HORUS_CUSTOM_FIELDS = copy.deepcopy(BUILTIN["fields"])
        repo.forget(D)

    def go(self):
        c = self.c
        self.top = tempfile.mkdtemp(prefix="p17-")
        cwd = os.getcwd()
        os.chdir(self.top)
        self.cfgfile = os.path.join(self.top, "user.cfg")
        with open(self.cfgfile, "w") as f:
            f.write(self.config_text())
        self.old = "$$OLD,1*0000\n" if c["opt"]["log"] == "old" else ""
        self.log = os.path.join(self.top, "telemetry.log")
        if self.old:
            with open(self.log, "w") as f:
                f.write(self.old)
        self.lists()
        self.reset()
        net.datagrams.clear()
        net.http["fn"] = self.server
        self.stopped = False
        self.died = []
        self.others = set(threading.enumerate())
        net.engine.reset(float(c["t0"]))
        keep = sys.stdin, sys.argv, threading.excepthook
        threading.excepthook = lambda a: self.died.append(repr(a.exc_value))
        sys.argv = self.args()
        sys.stdin = io.TextIOWrapper(io.BufferedReader(Feed(self), 1 << 20), encoding=c["enc"], errors=c["errors"])
        self.exit = None
        try:
            try:
                UP.main()
            except SystemExit as x:
                self.exit = x.code
            except BaseException as x:
                if isinstance(x, net.Stuck):
                    check(False, "the upload thread neither waits nor ends")
                check(False, lambda: "the uploader dies of %r after the line %r" % (x, self.fed[-1][1][:200] if self.fed else None))
            net.engine.finish()
            for th in self.mine():
                th.join(5)
                check(not th.is_alive(), "a thread of the uploader is left running")
            self.datagrams = list(net.datagrams)
            self.logtext = None
            if os.path.exists(self.log):
                with open(self.log, encoding="utf-8", newline="") as f:
                    self.logtext = f.read()
        finally:
            net.engine.finish(abort=True)
            for th in self.mine():
                th.join(5)
            sys.stdin, sys.argv, threading.excepthook = keep
            net.http["fn"] = net.refuse
            clock.real()
            os.chdir(cwd)
            shutil.rmtree(self.top)
        check(not self.problems, lambda: "; ".join(self.problems[:3]))
        check(not self.died, lambda: "the upload thread dies of %s" % self.died)

    # ------------------------------------------------------------------ the model
    def known(self, t):
        """the lists in use at an instant of input, for a packet of an unknown payload or not -> sets the globals"""
        self.reset()
        if not self.c["opt"]["rtty"]:
            P.HORUS_PAYLOAD_LIST = P.parse_payload_list(self.docs[0])
            P.HORUS_CUSTOM_FIELDS = P.parse_custom_field_list(self.docs[1])

    def decode_alone(self, t, data):
        self.known(t)
        if data.startswith("$$"):
            return D.parse_ukhas_string(data)
        return D.decode_packet(binascii.a2b_hex(data))

    def expect(self):
        """[(line, telemetry, log record, datagram, upload or None)] for the valid lines, and the number of invalid ones"""
        c, o, cfg = self.c, self.c["opt"], self.c["cfg"]
        st_ = S.FSKDemodStats(peak_hold=True)
        out, bad, stats_seen, after = [], 0, False, False
        for t, b in self.fed:
            clock.set(t)
            for line in b.decode(c["enc"], "backslashreplace").replace("\r\n", "\n").replace("\r", "\n").split("\n"):
                data = line.rstrip()
                if data.startswith("{"):
                    st_.update(data)
                    stats_seen = True
                    continue
                try:
                    e = self.decode_alone(t, data)
                except Exception:
                    bad += data != ""
                    continue
                e["snr"] = st_.snr
                if "freq_hz" in o:
                    e["f_centre"] = int(st_.fest_mean) + int(o["freq_hz"])
                if st_.fest_spacing > 0.0:
                    e["tone_spacing"] = int(st_.fest_spacing)
                if "baud_rate" in o:
                    e["baud_rate"] = o["baud_rate"]
                after = after or stats_seen
                rec = "$$" + data.split("$")[-1] if data.startswith("$$") else e["ukhas_str"]
                net.datagrams.clear()
                H.send_payload_summary(dict(e), port=cfg["summary_port"])
                dg = list(net.datagrams)
                up = None
                if not o["noupload"]:
                    up = U.telem_to_sondehub(copy.deepcopy(e), metadata=dict(self.meta()))
                out.append((data, e, rec, dg, up))
        self.reset()
        clock.real()
        return out, bad, after

    def meta(self):
        c, o, cfg = self.c, self.c["opt"], self.c["cfg"]
        import horusdemodlib
        return {"software_name": "horusdemodlib", "software_version": horusdemodlib.__version__, "uploader_callsign": cfg["callsign"],
                "uploader_position": None if cfg["station_lat"] == 0 and cfg["station_lon"] == 0 else [cfg["station_lat"], cfg["station_lon"], 0.0],
                "uploader_radio": cfg["radio_comment"] + (" (%.3f MHz)" % (o["freq_target_hz"] / 1e6) if "freq_target_hz" in o else ""), "uploader_antenna": cfg["antenna_comment"]}

    def judge(self):
        c = self.c
        out, bad, after = self.expect()
        check(self.exit in (None, 0), lambda: "the uploader ends with status %s" % (self.exit,))
        check(self.k == len(c["chunks"]), lambda: "the uploader stops after %d of %d chunks of input (%r)" % (self.k, len(c["chunks"]), self.fed[-1][1][:200] if self.fed else None))
        lines = lambda: [x[0][:120] for x in out]
        # log
        if c["opt"]["log"] == "none":
            check(self.logtext is None, "a log is written although none was asked for")
        else:
            want = self.old + "".join(x[2] + "\n" for x in out)
            check(self.logtext == want, lambda: "for the valid lines %s the log contains %r, expected %r" % (lines(), self.logtext, want))
        # datagrams
        want = [d for x in out for d in x[3]]
        check(len(want) == len(self.datagrams), lambda: "for the valid lines %s %d datagrams are sent, expected %d: %s, expected %s" % (lines(), len(self.datagrams), len(want), self.datagrams, want))
        for a, b in zip(self.datagrams, want):
            check(a[1:] == b[1:], lambda: "a datagram is sent to %s, expected %s" % (a[1:], b[1:]))
            same(json.loads(a[0]), json.loads(b[0]), "a datagram")
        # uploads
        want = [x[4] for x in out if x[4] is not None]
        check(len(want) == len(self.uploads), lambda: "for the valid lines %s %d items are uploaded, expected %d: %s, expected %s" % (lines(), len(self.uploads), len(want), self.uploads, want))
        for a, b in zip(self.uploads, want):
            a = dict(a)
            r = a.pop("time_received", None)
            check(r is not None, lambda: "an item is uploaded without the time it was received: %s" % a)
            same(a, json.loads(json.dumps(b)), "an uploaded item")
        check(not c["opt"]["noupload"] or not self.station, "the station is published although uploads are disabled")
        if c["opt"]["nodownload"] or c["opt"]["rtty"]:
            check(not self.gets, lambda: "lists are downloaded (%s) although that is not allowed" % self.gets)
        return out, bad, after


def same(a, b, what):
    tol = {"frequency": 1.01e-6, "tone_spacing": 1.01}
    check(set(a) == set(b), lambda: "%s is %s, expected %s" % (what, a, b))
    for k in a:
        ok = a[k] == b[k] and type(a[k]) is type(b[k])
        if not ok and isinstance(a[k], (int, float)) and isinstance(b[k], (int, float)) and not isinstance(a[k], bool):
            ok = abs(a[k] - b[k]) <= tol.get(k, 0) + 1e-9 * max(1, abs(b[k]))
        check(ok, lambda: "%s has %s %r, expected %r: %s" % (what, k, a[k], b[k], a))


def run(c, rec):
    b = Bench(c)
    b.go()
    out, bad, after = b.judge()
    rec.nontrivial(bool(out) and bad > 0 and after)
    rec.label("valid%d" % min(len(out), 9), "invalid%d" % min(bad, 9), c["enc"], *[n for n in ("rtty", "noupload", "nodownload") if c["opt"][n]], *{("sentence" if x[0].startswith("$$") else "packet") + (" uploaded" if x[4] else "") for x in out})


BADCFG = ["", "[user]\n", "garbage", "[user]\ncallsign = A\nstation_lat = x\nstation_lon = 0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nozimux_port = 1\nsummary_port = 2\n",
          "[user]\ncallsign = A\nstation_lat = 0\nstation_lon = 0\nradio_comment = a\nantenna_comment = b\n[horus_udp]\nozimux_port = 1\nsummary_port = 1.5\n", "[user\n", "[user]\ncallsign\n", "[user]\ncallsign = A\ncallsign = B\n", "\x00"]


@st.composite
def badcase(draw):
    c = draw(case())
    c["bad"] = draw(st.one_of(st.sampled_from(BADCFG), st.integers(1, 7)))
    return c


class BadBench(Bench):
    def config_text(self):
        t = Bench.config_text(self)
        if isinstance(self.c["bad"], int):
            l = t.split("\n")
            del l[self.c["bad"] if self.c["bad"] < 6 else self.c["bad"] + 1]
            return "\n".join(l)
        return self.c["bad"]


def run_bad(c, rec):
    """a configuration that cannot be used ends the program with an error before it does anything"""
    b = BadBench(c)
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        b.go()
    finally:
        sys.stderr = err
    check(b.exit not in (None, 0), lambda: "with an unusable configuration the uploader ends with status %s" % (b.exit,))
    check(not b.datagrams and not b.uploads and not b.station, "with an unusable configuration something is sent")
    rec.nontrivial()


def targets():
    return [Target("lines", case(), run, quick=3000, thorough=40000, setup=setup), Target("config", badcase(), run_bad, quick=150, thorough=2000, setup=setup)]
