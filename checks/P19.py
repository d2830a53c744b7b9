from hypothesis import strategies as st
from checks import P13, P17
from vf import net
from vf.core import Target, check

RULE = ("Histories of 1 to 20 steps with one uploader on a fake clock, with a generated station description and publication interval of a few seconds to a day: time passes in seconds or in leaps of hours, "
        "the station moves, telemetry arrives, and every request gets a generated answer after a generated time. Non-trivial: at least two publications, and a failed one or telemetry sent in between.")
ASSUMPTIONS = ["the wall clock does not go backwards", "server errors other than 500 may be retried or not", "an interval is counted from the end of the previous publication, to the granularity of the upload rounds"]
prepare, setup = P13.prepare, P13.setup


@st.composite
def op(draw, rate, hours):
    k = draw(st.integers(0, 11))
    if k < 2:
        return ["add", draw(st.lists(P13.KINDS, min_size=1, max_size=3))]
    if k < 6:
        return ["tick", draw(st.one_of(st.integers(0, 3 * rate + 3), st.just(rate + 2)))]
    if k < 9:
        return ["jump", draw(st.one_of(st.floats(0, 3).map(lambda f: f * hours * 3600), st.sampled_from([0.9, 1.0, 1.1]).map(lambda f: f * hours * 3600)))]
    if k < 11:
        return ["pos", draw(st.floats(-90, 90)), draw(st.floats(-180, 180)), draw(st.integers(-100, 9000))]
    return ["inject", draw(st.integers(1, 60)), draw(st.lists(P13.KINDS, min_size=1, max_size=3))]


@st.composite
def case(draw):
    cfg = draw(P13.settings())
    cfg["hours"] = draw(st.sampled_from([6, 6, 1, 24, 0.5, 0.01, 0.002]))
    answers = st.lists(P13.answer().map(lambda a: {k: v for k, v in a.items() if k != "add"}), max_size=8)
    return {"cfg": cfg, "ops": draw(st.lists(op(cfg["rate"], cfg["hours"]), min_size=1, max_size=20)), "answers": draw(answers), "station": draw(answers), "pause": draw(st.booleans())}


class Bench(P13.Bench):
    def go(self):
        self.where = []
        P13.Bench.go(self)

    def serve(self, request):
        if request.url == P13.STATION:
            self.where.append(self.pos)
        return P13.Bench.serve(self, request)

    def publications(self):
        out = []
        for r, p in zip([r for r in self.requests if r[0] == P13.STATION], self.where):
            if out and out[-1][-1][2] == r[2]:
                out[-1].append(r)
            else:
                out.append([r])
            r.append(p)
        return out


def run(c, rec):
    b = Bench(c)
    b.go()
    cfg = c["cfg"]
    pubs = b.publications()
    rate, every = cfg["rate"], cfg["hours"] * 3600
    check(pubs, "the station is not published after the start")
    check(pubs[0][0][1] <= cfg["t0"] + rate + 2 + sum(r[5] - r[1] for r in b.requests[:10] if r[0] == P13.TELEM), lambda: "the station is published only %g seconds after the start" % (pubs[0][0][1] - cfg["t0"]))
    for g in pubs:
        s = [r[4] for r in g]
        for r in g:
            want = {"software_name": cfg["name"], "software_version": cfg["version"], "uploader_callsign": cfg["call"], "uploader_position": r[6], "uploader_radio": cfg["radio"], "uploader_antenna": cfg["antenna"],
                    "uploader_contact_email": cfg["email"], "mobile": False}
            check(r[3] == want, lambda: "the station is published as %s, expected %s" % (r[3], want))
        check(len(s) <= cfg["retries"], lambda: "the station is published in %d attempts at once, at most %d are configured (answers %s)" % (len(s), cfg["retries"], s))
        for x in s[:-1]:
            check(x in (500, 501, 502, 503, 504, 505, 507, 520, 599), lambda: "a publication answered with %s is repeated at once (answers %s)" % (x, s))
        check(s[-1] != 500 or len(s) == cfg["retries"], lambda: "a publication is given up after %d of %d attempts (answers %s)" % (len(s), cfg["retries"], s))
    for g, h in zip(pubs, pubs[1:]):
        check(h[0][1] >= g[-1][5] + every - 1e-3, lambda: "the station is published again after %g seconds, the interval is %g" % (h[0][1] - g[-1][5], every))
    # a stretch of time longer than one round which begins when a publication is due must contain one
    for a, z in b.marks:
        before = [g for g in pubs if g[0][1] <= a]
        last = before[-1][-1][5] if before else None
        if z - a >= rate + 2 and last is not None and last <= a and a > last + every and not any(x.get("dt") for x in c["answers"]):
            check(any(a <= g[0][1] <= z for g in pubs), lambda: "the station is not published between %g and %g seconds after the end of the last publication, the interval is %g" % (a - last, z - last, every))
    t = b.judge()
    bad = any(g[-1][4] != 200 for g in pubs)
    rec.nontrivial(len(pubs) >= 2 and (bad or bool(t)))
    rec.label("publications%d" % min(len(pubs), 9), "interval%g" % cfg["hours"], "no position" if cfg["pos"] is None else "position")
    if bad:
        rec.label("failed publication")


def setup_program():
    P17.setup()


@st.composite
def program_case(draw):
    c = draw(P17.case())
    c["chunks"] = [dict(x, dt=draw(st.sampled_from([x["dt"], 10, 60, 3600, 21000, 21599, 21605, 30000]))) for x in c["chunks"][:8]]
    return c


def run_program(c, rec):
    """the details which the program publishes are those of its configuration and options"""
    b = P17.Bench(c)
    b.go()
    if c["opt"]["noupload"]:
        check(not b.station and not b.uploads, "the station is published although uploads are disabled")
        rec.label("disabled")
        return
    want = dict(b.meta(), uploader_contact_email="", mobile=False)
    check(b.station, "the program does not publish the station")
    for s in b.station:
        check(s == want, lambda: "the program publishes %s, expected %s (options %s, configuration %s)" % (s, want, c["opt"], c["cfg"]))
    # every six hours: the runs of time between the lines are known
    total = b.fed[-1][0] - c["t0"]
    check(len(b.station) <= 1 + total // 21600, lambda: "the station is published %d times within %g seconds" % (len(b.station), total))
    rec.nontrivial(len(b.station) > 1 or c["cfg"]["station_lat"] != 0)
    rec.label("published%d" % len(b.station), "with position" if want["uploader_position"] else "without position", "with frequency" if "freq_target_hz" in c["opt"] else "without frequency")


def targets():
    return [Target("program", program_case(), run_program, quick=400, thorough=8000, setup=setup_program),
            Target("history", case(), run, quick=3000, thorough=60000, setup=setup)]
