import datetime, gzip, json, threading
from hypothesis import strategies as st
from vf import clock, net, repo
from vf.core import Target, check

RULE = ("Histories of 1 to 25 steps with one uploader, whose thread runs against a fake clock: telemetry arriving between rounds, while requests are under way and at a chosen source line of the uploader's own work, "
        "steps of time, station movements, then the end, at once or after a pause; every request gets a generated answer (accepted, accepted with complaints, server errors, refusals, network failures) after a generated time. "
        "Items that must be refused, repetitions of items and bursts of up to 1030 are mixed in. Non-trivial: at least two batches, and an answer other than 200 or an item arriving while the uploader works.")
ASSUMPTIONS = ["items are accepted until the uploader is closed", "a batch counts as sent when at least one attempt was made to deliver it",
               "arrivals are interleaved at the granularity of source lines of the uploader"]
S = None
TELEM = "https://api.v2.sondehub.org/amateur/telemetry"
STATION = "https://api.v2.sondehub.org/amateur/listeners"


def prepare():
    clock.prepare()


def setup():
    global S
    repo.setup()
    net.setup()
    from horusdemodlib.sondehubamateur import SondehubAmateurUploader
    S = SondehubAmateurUploader


STATUS = st.one_of(st.just(200), st.sampled_from([200, 202, 500, 501, 502, 503, 504]), st.sampled_from([500, 502, 503]), st.sampled_from([201, 204, 400, 401, 403, 404, 405, 413, 415, 429, 505, 507, 520, 599, 100, 304]), st.sampled_from(["connect", "timeout", "read", "ssl", "chunk", "os", "value", "type"]))
BODY = st.sampled_from(["", "ok", "{}", "{\"message\":\"x\",\"errors\":[],\"warnings\":[]}", "{\"errors\":[{\"error_message\":\"bad\",\"payload\":{\"a\":1}}],\"warnings\":[{\"warning_message\":\"hm\"}]}",
                        "{\"errors\":[{}],\"warnings\":[]}", "{\"errors\":[{\"error_message\":5}],\"warnings\":[]}", "{\"errors\":null}", "[]", "null", "{\"errors\":5,\"warnings\":5}", "\u00e9\u4e2d"])
KINDS = st.sampled_from(["ok", "ok", "ok", "ok", "ok", "rich", "rich", "rich", "nan", "unknown", "nohub", "late", "noalt"])


@st.composite
def answer(draw):
    a = {"s": draw(STATUS)}
    if a["s"] == 202 or draw(st.integers(0, 3)) == 0:
        a["body"] = draw(BODY)
    if draw(st.integers(0, 4)) == 0:
        a["add"] = draw(st.lists(KINDS, min_size=1, max_size=3))
    if draw(st.integers(0, 4)) == 0:
        a["dt"] = draw(st.sampled_from([1, 3, 6, 20, 100]))
    return a


@st.composite
def op(draw, rate):
    k = draw(st.integers(0, 99)) / 10
    if k > 9.8:
        return ["bulk", draw(st.sampled_from([60, 101, 120, 260, 1030]))]
    if k < 4:
        return ["add", draw(st.lists(st.one_of(KINDS, KINDS, KINDS, st.just("twin")), min_size=1, max_size=draw(st.sampled_from([2, 5, 12]))))]
    if k < 7:
        return ["tick", draw(st.one_of(st.integers(0, 2 * rate + 2), st.sampled_from([0.5, 1, rate])))]
    if k < 9:
        return ["inject", draw(st.integers(1, 60)), draw(st.lists(KINDS, min_size=1, max_size=3))]
    return ["pos", draw(st.floats(-90, 90)), draw(st.floats(-180, 180)), draw(st.integers(-100, 9000))]


@st.composite
def settings(draw):
    return {"rate": draw(st.sampled_from([1, 1, 2, 2, 3, 5, 30])), "retries": draw(st.integers(1, 6)), "call": draw(st.text(min_size=1, max_size=10)), "pos": draw(st.one_of(st.none(), st.tuples(st.floats(-90, 90), st.floats(-180, 180), st.floats(0, 1000)).map(list))),
            "radio": draw(st.text(max_size=8)), "antenna": draw(st.text(max_size=8)), "email": draw(st.text(max_size=8)), "hours": 6, "name": draw(st.sampled_from(["horusdemodlib", "webhorus", ""])), "version": draw(st.sampled_from(["", "0.6.1"])),
            "t0": 1700000000 + draw(st.integers(0, 86399))}


@st.composite
def case(draw):
    cfg = draw(settings())
    return {"cfg": cfg, "ops": draw(st.lists(op(cfg["rate"]), min_size=1, max_size=25)), "answers": draw(st.lists(answer(), max_size=12)), "station": draw(st.lists(answer(), max_size=4)), "pause": draw(st.booleans())}


class Bench:
    """one uploader, its server, and the model of what must have happened"""

    def __init__(self, c):
        self.c, self.cfg = c, c["cfg"]
        self.seq = 0
        self.accepted = []              # (frame, expected fields)
        self.requests = []              # (what, time, round, decoded body, answer)
        self.n = {TELEM: 0, STATION: 0}
        self.busy = 0                   # items which arrived while the uploader was at work
        self.work = False
        self.dead = None
        self.pos = self.cfg["pos"]
        self.problems = []
        self.refused = []

    # ------------------------------------------------------------------ arrivals
    def add(self, kinds):
        for k in kinds:
            n = self.seq
            self.seq += 1
            s = int(net.engine.now) % 86400
            t = {"callsign": "HORUS-%d" % n, "sequence_number": n, "time": "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), "latitude": -34.5 + n / 1000, "longitude": 138.5, "altitude": 1000 + n, "custom_field_names": []}
            e = {"payload_callsign": t["callsign"], "frame": n, "lat": t["latitude"], "lon": 138.5, "alt": t["altitude"]}
            if k in ("rich", "nan"):
                t.update(temperature=-12, satellites=9, battery_voltage=1.25, speed=10, snr=12.5, f_centre=434200000, raw="00ff", custom_field_names=["ext", "gone"], ext=float("nan") if k == "nan" else 5.5)
                e.update(temp=-12, sats=9, batt=1.25, speed=10, snr=12.5, frequency=434.2, raw="00ff")
                if k == "rich":
                    e["ext"] = 5.5
            elif k == "unknown":
                t["callsign"] = "UNKNOWN_PAYLOAD_ID"
            elif k == "nohub":
                t["via"] = "none"
            elif k == "late":
                s = (s + 3600) % 86400
                t["time"] = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
            elif k == "noalt":
                del t["altitude"]
            if k in ("unknown", "nohub", "late", "noalt"):
                self.refused.append(n)
            else:
                e.update(uploader_callsign=self.cfg["call"], uploader_position=self.pos, uploader_radio=self.cfg["radio"], uploader_antenna=self.cfg["antenna"], software_name=self.cfg["name"], software_version=self.cfg["version"])
                self.accepted.append((n, e))
                if self.work:
                    self.busy += 1
            try:
                self.up.add(t)
                if k == "twin":
                    self.accepted.append((n, e))
                    self.up.add(dict(t))
            except Exception as x:
                self.problems.append("adding %s raises %s" % (t, repr(x)))

    # ------------------------------------------------------------------ the server
    def serve(self, request):
        import requests
        self.ready.wait()
        url = request.url
        if url not in self.n or request.method != "PUT":
            self.problems.append("a request is made to %s %s" % (request.method, url))
            raise requests.exceptions.ConnectionError("unknown")
        what = self.c["answers" if url == TELEM else "station"]
        a = what[self.n[url]] if self.n[url] < len(what) else {"s": 200}
        self.n[url] += 1
        body = request.body
        body = body.encode() if isinstance(body, str) else body
        try:
            if url == TELEM:
                if request.headers.get("Content-Encoding") != "gzip":
                    raise ValueError("it is not announced as compressed")
                body = gzip.decompress(body)
            if request.headers.get("Content-Type") != "application/json":
                raise ValueError("it is not announced as JSON")
            d = json.loads(body.decode(), parse_constant=lambda x: 1 / 0)
        except Exception as x:
            self.problems.append("the content of a request cannot be read (%r)" % x)
            d = None
        self.requests.append([url, net.engine.now, self.round, d, a["s"]])
        if a.get("dt"):
            net.engine.set(net.engine.now + a["dt"])
        self.requests[-1].append(net.engine.now)
        if a.get("add") and not self.closed:
            on, self.inj.on = self.inj.on, False
            self.add(a["add"])
            self.inj.on = on
        s = a["s"]
        if isinstance(s, str):
            raise {"connect": requests.exceptions.ConnectionError, "timeout": requests.exceptions.ConnectTimeout, "read": requests.exceptions.ReadTimeout, "ssl": requests.exceptions.SSLError, "chunk": requests.exceptions.ChunkedEncodingError,
                   "os": OSError, "value": ValueError, "type": TypeError}[s]("no luck")
        return net.response(request, s, a.get("body", "").encode())

    # ------------------------------------------------------------------ the run
    def go(self):
        c, cfg = self.c, self.cfg
        eng = net.engine
        eng.reset(float(cfg["t0"]))
        self.closed = False
        self.ready = threading.Event()
        self.round = 0
        self.marks = []                 # (time at the start, time at the end) of every uninterrupted stretch of time
        inj = self.inj = net.Injector()
        pause = eng.pause

        def counted(dt):
            self.round += 1
            self.work = False
            pause(dt)
            self.work = True
        eng.pause = counted
        net.http["fn"] = self.serve
        hook = threading.excepthook
        threading.excepthook = lambda a: setattr(self, "dead", repr(a.exc_value))
        inj.install()
        th = None
        others = set(threading.enumerate())
        try:
            try:
                self.up = S(upload_rate=cfg["rate"], upload_timeout=20, upload_retries=cfg["retries"], user_callsign=cfg["call"], user_position=cfg["pos"], user_radio=cfg["radio"], user_antenna=cfg["antenna"],
                            contact_email=cfg["email"], user_position_update_rate=cfg["hours"], software_name=cfg["name"], software_version=cfg["version"])
            finally:
                inj.uninstall()
                self.ready.set()
            th = next(iter(set(threading.enumerate()) - others), None)
            check(th, lambda: "no uploader thread runs after the start (%s)" % self.dead)
            eng.settle(th)
            self.work = True            # from now on, whatever arrives outside of a tick arrives at rest
            for o in c["ops"]:
                self.work = False
                if o[0] == "add":
                    self.add(o[1])
                elif o[0] == "bulk":
                    self.add(["ok"] * o[1])
                elif o[0] == "pos":
                    self.up.update_station_position(*o[1:])
                    if self.pos is not None:
                        self.pos = list(o[1:])
                elif o[0] == "inject":
                    inj.count, inj.on = 0, True
                    inj.plan = {o[1]: lambda k=o[2]: self.add(k)}
                    self.work = True
                elif o[0] == "jump":
                    eng.set(eng.now + o[1])
                else:
                    self.tick(th, o[1])
                if self.dead or not th.is_alive():
                    break
            inj.plan = {}
            if c["pause"] and th.is_alive():
                n = -1
                while n != len(self.accepted):      # answers can bring further items
                    n = len(self.accepted)
                    self.tick(th, 2 * cfg["rate"] + 2)
                check(len(self.sent()) >= len(self.accepted), lambda: "%d items were accepted, but after more than two upload intervals without news only %d were sent" % (len(self.accepted), len(self.sent())))
            alive = th.is_alive()
            self.closed = True
            self.up.close()
            for _ in range(200):
                if not th.is_alive():
                    break
                self.tick(th, cfg["rate"] + 1)
            check(not self.dead and alive, lambda: "the uploader thread stopped before it was closed (%s)" % self.dead)
            check(not th.is_alive(), "the uploader thread does not end after it was closed")
        except net.Stuck:
            check(False, "the uploader thread neither waits nor ends")
        finally:
            eng.finish(abort=True)
            if th is not None:
                th.join(5)
            threading.excepthook = hook
            eng.pause = pause
            net.http["fn"] = net.refuse
            clock.real()
        check(not self.problems, lambda: "; ".join(self.problems[:3]))

    def tick(self, th, dt):
        self.work = True
        a = net.engine.now
        net.engine.tick(th, dt)
        self.marks.append((a, net.engine.now))
        self.work = False

    def sent(self):
        return [i for r in self.batches() for i in r[0][3]]

    def batches(self):
        """the attempts to deliver telemetry, grouped"""
        out = []
        for r in self.requests:
            if r[0] == TELEM:
                if out and out[-1][-1][3] == r[3]:
                    out[-1].append(r)
                else:
                    out.append([r])
        return out

    def judge(self):
        b = self.batches()
        got = []
        for g in b:
            d = g[0][3]
            check(isinstance(d, list) and all(isinstance(x, dict) and "frame" in x for x in d) and d, lambda: "a batch contains %r" % (d,))
            got += d
            s = [r[4] for r in g]
            want = self.cfg["retries"]
            for i, x in enumerate(s[:-1]):
                check(x in (500, 501, 502, 503, 504), lambda: "a batch answered with %s is sent again (answers %s)" % (x, s))
            check(len(s) <= want, lambda: "a batch is sent %d times with %d attempts configured (answers %s)" % (len(s), want, s))
            if s[-1] in (500, 501, 502, 503, 504):
                check(len(s) == want, lambda: "a batch is given up after %d of %d attempts (answers %s)" % (len(s), want, s))
        f = [x["frame"] for x in got]
        w = [n for n, _ in self.accepted]
        check(f == w, lambda: "the items accepted are %s, those sent %s (refused ones: %s)" % (w, f, self.refused))
        for x, (n, e) in zip(got, self.accepted):
            x = dict(x)
            for k in ("datetime", "time_received"):
                t = x.pop(k, "")
                try:
                    t = datetime.datetime.strptime(t, "%Y-%m-%dT%H:%M:%S.%fZ").replace(tzinfo=datetime.timezone.utc).timestamp()
                except ValueError:
                    t = None
                check(t is not None and self.cfg["t0"] - 2 <= t <= net.engine.now + 2, lambda: "item %d has %s %s" % (n, k, x))
            x = {k: round(v, 9) if isinstance(v, float) else v for k, v in x.items()}
            e = json.loads(json.dumps({k: round(v, 9) if isinstance(v, float) else v for k, v in e.items()}))
            check(x == e, lambda: "item %d is uploaded as %s, expected %s" % (n, x, e))
        return b


def run(c, rec):
    b = Bench(c)
    b.go()
    g = b.judge()
    odd = sorted({str(r[4]) for r in b.requests if r[0] == TELEM and r[4] != 200})
    rec.nontrivial(len(g) >= 2 and (bool(odd) or b.busy > 0))
    rec.label("batches%d" % min(len(g), 9), "attempts%d" % max([len(x) for x in g], default=0), *["answer " + o for o in odd])
    if b.busy:
        rec.label("arrivals during work")


def targets():
    return [Target("history", case(), run, quick=3000, thorough=60000, setup=setup)]
