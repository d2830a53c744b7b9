import copy, io, json, math, runpy, sys, warnings
from hypothesis import strategies as st
from vf import clock, net, repo
from vf.core import Target, check

RULE = ("Histories of 1 to 80 updates to an object with a generated averaging time and either mode, at generated instants of the system clock (bursts at one instant, gaps longer than the window, one update repeated with drifting values up to 300 times), each a "
        "dictionary or JSON text for two or four tones, mixed with malformed ones (no JSON, JSON of other types, missing fields, fields of other types or without a number). The model keeps all "
        "valid updates and is compared after every update. relay: the statistics relay program (demodstats run as a program) on lines of the same kinds, its datagrams recorded. "
        "Non-trivial: at least one valid update has left the window, and a malformed one arrived (history); two datagrams were due and a malformed line arrived (relay).")
ASSUMPTIONS = ["arrival times do not go backwards", "an update exactly as old as the averaging time may count or not", "an update with a third tone has a fourth",
               "nan in the text form stands for zero, as in the eye diagram of the demodulator's output; it is not generated for the averaged fields"]
S = None


def prepare():
    clock.prepare()


def setup():
    global S
    clock.setup()
    repo.setup()
    from horusdemodlib.demodstats import FSKDemodStats
    S = FSKDemodStats


NUM = st.one_of(st.floats(-1e4, 1e4), st.integers(-1000, 1000), st.sampled_from([0, 0.0, -0.0, -100.5, 1e-9]))
BADV = st.one_of(st.none(), st.text(max_size=4), st.sampled_from(["12.5", "nan?", [], {}, [1.0], {"a": 1}, math.inf, -math.inf, 10 ** 400, "", True, False]))
FIELDS = ["EbNodB", "ppm", "f1_est", "f2_est", "samp_fft"]


@st.composite
def update(draw):
    u = {"dt": draw(st.one_of(st.integers(0, 2000), st.integers(0, 300), st.sampled_from([0, 0, 1, 1000, 4000, 5000, 60000])))}
    k = draw(st.integers(0, 11))
    if k == 0:
        u["text"] = draw(st.one_of(st.text(max_size=20), st.sampled_from(["", "{", "null", "1", "true", "[]", "\"EbNodB ppm f1_est f2_est samp_fft\"", "[\"EbNodB\",\"ppm\",\"f1_est\",\"f2_est\",\"samp_fft\"]", "nan", "-nan", "{}", "1e999", "NaN", "{\"EbNodB\":}"])))
        return u
    if k == 1:
        u["other"] = draw(st.sampled_from(["none", "int", "bytes", "list", "float"]))
        return u
    d = {"EbNodB": draw(NUM), "ppm": draw(NUM), "f1_est": draw(NUM), "f2_est": draw(NUM)}
    if draw(st.booleans()):
        d.update(f3_est=draw(NUM), f4_est=draw(NUM))
    d["samp_fft"] = draw(st.lists(st.floats(-100, 100), max_size=4))
    u["order"] = draw(st.integers(0, 5))
    if k == 2:
        d.pop(draw(st.sampled_from(FIELDS)))
    elif k in (3, 4):
        d[draw(st.sampled_from([f for f in d if f != "samp_fft"]))] = draw(BADV)
    elif k == 5 and draw(st.integers(0, 5)) == 0:               # a burst: this update many times over, its values drifting
        u["times"], u["every"] = draw(st.sampled_from([8, 33, 60, 110, 300])), draw(st.integers(0, 20))
    u["d"] = d
    u["form"] = draw(st.sampled_from(["dict", "text", "text", "nan"]))
    return u


@st.composite
def history(draw):
    return {"w": draw(st.one_of(st.floats(0.05, 20), st.sampled_from([4.0, 5.0, 1, 0.5, 10]))), "peak": draw(st.booleans()), "t0": draw(st.integers(1000000, 2000000000)),
            "u": draw(st.lists(update(), min_size=1, max_size=draw(st.sampled_from([6, 20, 80]))))}


def spread(us):
    """the updates with the bursts written out"""
    out = []
    for u in us:
        for k in range(u.get("times", 1)):
            v = dict(u, dt=u["every"] if k else u["dt"]) if "times" in u else u
            if k:
                v["d"] = dict(u["d"], EbNodB=u["d"]["EbNodB"] - k, ppm=u["d"]["ppm"] + 2 * k)
            out.append(v)
    return out


def number(v):
    try:
        return type(v) in (int, float) and math.isfinite(v)
    except OverflowError:
        return False


def valid(u):
    return "d" in u and all(f in u["d"] for f in FIELDS) and all(number(v) for k, v in u["d"].items() if k != "samp_fft")


def near(a, b):
    return number(a) and abs(a - b) <= 1e-9 * max(1, abs(b)) + 1e-9


def run(c, rec):
    clock.set_ns(c["t0"] * 10 ** 9)
    try:
        s = S(averaging_time=c["w"], peak_hold=c["peak"], decoder_id="x") if c["peak"] or c["t0"] % 2 else S(averaging_time=c["w"]) if c["w"] != 4 else S()
        state = lambda: copy.deepcopy((s.snr, s.ppm, s.fest, s.fest_mean, s.fest_spacing))
        t, seen, left, bad = 0, [], False, 0
        for i, u in enumerate(spread(c["u"])):
            t += u["dt"]
            clock.set_ns(c["t0"] * 10 ** 9 + t * 10 ** 6)
            before = state()
            if "text" in u:
                given = u["text"]
            elif "other" in u:
                given = {"none": None, "int": 3, "bytes": b"{}", "list": [], "float": 0.5}[u["other"]]
            else:
                d = dict(u["d"])
                if u["order"]:
                    d["eye_diagram"] = [[0.1] * u["order"]]
                if u["form"] == "dict":
                    given = d
                else:
                    given = json.dumps(d) + "\n" * (u["order"] % 2)
                    if u["form"] == "nan" and u["order"]:
                        given = given.replace("[0.1", "[-nan", 1)
            g0 = copy.deepcopy(given)
            s.update(given)
            check(repr(given) == repr(g0), lambda: "update %d changed its input" % i)
            if not valid(u):
                check(repr(state()) == repr(before), lambda: "the malformed update %d (%r) changes the statistics from %s to %s" % (i, given, before, state()))
                bad += 1
                continue
            d = u["d"]
            f = [d["f1_est"], d["f2_est"]] + ([d["f3_est"], d["f4_est"]] if "f3_est" in d else [])
            seen.append((t, d["EbNodB"], d["ppm"], (f[-1] - f[0]) / (len(f) - 1)))
            age = lambda x: (t - x[0]) / 1e3
            ins = [x for x in seen if age(x) < c["w"] - 1e-6]
            edge = [x for x in seen if abs(age(x) - c["w"]) <= 1e-6]
            left = left or len(ins) < len(seen)
            what = lambda: "update %d of window %g s, peak hold %s: valid updates at %s, now %s" % (i, c["w"], c["peak"], seen[-12:], t)
            ok = False
            for k in range(len(edge) + 1):
                w = edge[len(edge) - k:] + ins
                avg = lambda j: math.fsum(x[j] for x in w) / len(w)
                snr = max(x[1] for x in w) if c["peak"] else avg(1)
                ok = ok or (near(s.snr, snr) and near(s.ppm, avg(2)) and near(s.fest_spacing, avg(3)))
            check(ok, lambda: "snr %r ppm %r spacing %r, expected %r %r %r after %s" % (s.snr, s.ppm, s.fest_spacing, snr, avg(2), avg(3), what()))
            check(list(s.fest) == f, lambda: "tone estimates %r, expected %r after %s" % (s.fest, f, what()))
            check(near(s.fest_mean, math.fsum(f) / len(f)), lambda: "mean tone %r, expected %r after %s" % (s.fest_mean, sum(f) / len(f), what()))
    finally:
        clock.real()
    rec.nontrivial(left and bad > 0)
    rec.label("peak" if c["peak"] else "mean", "valid%d" % min(20, len(seen)), "left window" if left else "all in window")


# ---------------------------------------------------------------- the relay: statistics lines in, datagrams out
def setup_relay():
    setup()
    net.setup()


@st.composite
def relay(draw):
    lines = draw(st.lists(update(), min_size=1, max_size=draw(st.sampled_from([6, 20, 60]))))
    return {"rate": draw(st.sampled_from([1, 2, 4, 5, 8, 10, 20])), "port": draw(st.one_of(st.none(), st.integers(1024, 65535))), "source": draw(st.one_of(st.none(), st.text("abcXYZ 019-_", min_size=1, max_size=10).map(lambda s: "S" + s))),
            "t0": draw(st.integers(1000000, 2000000000)), "u": lines, "open": draw(st.booleans()), "fail": draw(st.sampled_from([None, None, OSError.__name__])), "long": draw(st.booleans())}


class Lines(io.TextIOBase):
    """the clock moves on before each line"""

    def __init__(self, lines, on):
        self.lines, self.on, self.k = lines, on, 0

    def readline(self, size=-1):
        if self.k >= len(self.lines):
            return ""
        self.on(self.k)
        self.k += 1
        return self.lines[self.k - 1]

    def readable(self):
        return True


def run_relay(c, rec):
    lines, texts = [], []
    c = dict(c, u=spread(c["u"]))
    for u in c["u"]:
        if "d" in u:
            s = json.dumps(dict(u["d"], eye_diagram=[[0.1]]))
            if u["form"] == "nan":
                s = s.replace("[[0.1", "[[-nan", 1)
        else:
            s = u.get("text", "None").replace("\n", " ").replace("\r", " ")
        texts.append(s)
        lines.append(s + "\n")
    if c["open"]:
        lines[-1] = lines[-1][:-1] or "\n"
    at, t = [], 0
    for u in c["u"]:                            # hundredths of a millisecond: never a whole period apart
        t += u["dt"] * 100 + 1
        at.append(t)
    got, due = [], []

    def on(k):
        got.append(list(net.datagrams))
        net.datagrams.clear()
        clock.set_ns(c["t0"] * 10 ** 9 + at[k] * 10 ** 4)
    clock.set_ns(c["t0"] * 10 ** 9)
    net.datagrams.clear()
    net.udp["fail"] = OSError if c["fail"] else None
    argv = ["demodstats"]
    for short, name, v in (("-r", "--rate", c["rate"]), ("-p", "--port", c["port"]), ("-s", "--source", c["source"])):
        if v is not None:
            argv += [name if c["long"] else short, str(v)]
    keep = sys.argv, sys.stdin
    sys.argv, sys.stdin = argv, Lines(lines, on)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("horusdemodlib.demodstats", run_name="__main__")
    except SystemExit as e:
        check(not e.code, lambda: "the relay ends with status %r" % (e.code,))
    finally:
        sys.argv, sys.stdin = keep
        net.udp["fail"] = None
        clock.real()
    got.append(list(net.datagrams))
    got = got[1:]
    check(len(got) == len(lines), lambda: "the relay stopped after %d of %d lines" % (len(got), len(lines)))
    last, seen, latest, sent, bad = 0, [], None, 0, 0
    period = 1e5 / c["rate"]
    for k, u in enumerate(c["u"]):
        if valid(u):
            d = u["d"]
            latest = d
            seen.append((at[k], d["EbNodB"], d["ppm"]))
        else:
            bad += 1
        if at[k] - last <= period:
            check(not got[k], lambda: "line %d, %.2f ms after the datagram before: %s is sent" % (k, (at[k] - last) / 100, got[k]))
            continue
        last = at[k]
        sent += 1
        check(len(got[k]) == 1, lambda: "line %d: a datagram is due, sent: %s" % (k, got[k]))
        b, host, port = got[k][0]
        check(port == (c["port"] or 55672) and (host in ("127.0.0.1", "localhost") if c["fail"] else host in ("<broadcast>", "255.255.255.255")), lambda: "statistics are sent to %s:%d" % (host, port))
        m = json.loads(b.decode("ascii"))
        check(m.get("type") == "MODEM_STATS" and m.get("source") == (c["source"] or "MFSK"), lambda: "the datagram is %s" % b)
        if latest is None:
            continue
        # an update that is no longer recent stays until the next valid one
        end = seen[-1][0]
        w = [x for x in seen if end - x[0] < period]
        f = [latest["f1_est"], latest["f2_est"]] + ([latest["f3_est"], latest["f4_est"]] if "f3_est" in latest else [])
        check(near(m.get("snr"), max(x[1] for x in w)) and near(m.get("ppm"), math.fsum(x[2] for x in w) / len(w)), lambda: "after %s (hundredths of ms) the datagram says snr %r, ppm %r" % (seen[-8:], m.get("snr"), m.get("ppm")))
        check(m.get("fest") == f and m.get("fft") == latest["samp_fft"], lambda: "the datagram says %s, the latest statistics are %s" % (b, latest))
    rec.nontrivial(sent >= 2 and bad > 0 and latest is not None)
    rec.label("sent%d" % min(sent, 10))


def targets():
    return [Target("relay", relay(), run_relay, quick=1500, thorough=50000, setup=setup_relay),
            Target("history", history(), run, quick=3000, thorough=100000, setup=setup)]
