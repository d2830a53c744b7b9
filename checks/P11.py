import datetime
from hypothesis import strategies as st
from vf import clock, repo
from vf.core import Target, check

RULE = ("A receiver's clock (given as text, or as the system clock of the process) at any instant of 1971 to 2200, mostly within an hour of midnight and often at the end of a month, of a year or of February, and a "
        "time of day up to one hour before or after it (exactly one hour, the same second and the two sides of midnight over-represented), in the forms decoders produce. Non-trivial: the two lie on different days.")
ASSUMPTIONS = ["further apart than an hour only the time of day is required to be unchanged, and the date to be within a day of the clock's"]
F = None
UTC = datetime.timezone.utc


def prepare():
    clock.prepare()


def setup():
    global F
    clock.setup()
    repo.setup()
    from horusdemodlib.delegates import fix_datetime
    F = fix_datetime


@st.composite
def case(draw):
    y = draw(st.one_of(st.integers(2015, 2040), st.integers(1971, 2200), st.sampled_from([2024, 2100, 2000, 2023])))
    mo, d = draw(st.one_of(st.sampled_from([(12, 31), (1, 1), (2, 28), (3, 1), (2, 29), (4, 30), (5, 1), (6, 30)]), st.tuples(st.integers(1, 12), st.integers(1, 28))))
    if (mo, d) == (2, 29) and not (y % 4 == 0 and (y % 100 or y % 400 == 0)):
        d = 28
    near = draw(st.integers(0, 4))
    if near:
        s = draw(st.one_of(st.integers(-3600, 3600), st.integers(-60, 60), st.sampled_from([0, -1, 1, 3599, 3600, -3600, -3601, 3601]))) % 86400
    else:
        s = draw(st.integers(0, 86399))
    off = draw(st.one_of(st.integers(-3600, 3600), st.integers(-180, 180), st.sampled_from([0, 1, -1, 3600, -3600, 3599, -3599]), st.integers(-43200, 43200)))
    return {"date": [y, mo, d], "s": s, "us": draw(st.one_of(st.just(0), st.integers(0, 999999), st.just(999999))), "off": off, "how": draw(st.sampled_from(["clock", "text", "textz", "zone"]))}


def run(c, rec):
    now = datetime.datetime(*c["date"], tzinfo=UTC) + datetime.timedelta(seconds=c["s"], microseconds=c["us"])
    want = now.replace(microsecond=0) + datetime.timedelta(seconds=c["off"])        # the payload's true time, so always the closest
    t = want.strftime("%H:%M:%S")
    if c["how"] == "clock":
        clock.set_ns(int((now - datetime.datetime(1970, 1, 1, tzinfo=UTC)) / datetime.timedelta(microseconds=1)) * 1000)
        try:
            r = F(t)
        finally:
            clock.real()
    else:
        r = F(t, local_dt_str={"text": now.strftime("%Y-%m-%dT%H:%M:%S.%fZ"), "textz": now.isoformat(), "zone": now.strftime("%Y-%m-%d %H:%M:%S.%f UTC")}[c["how"]])
    what = lambda: "a payload's %s at %s (%s) is dated %s" % (t, now, c["how"], r)
    check(r.tzinfo is not None and r.utcoffset() == datetime.timedelta(0), what)
    check((r.hour, r.minute, r.second, r.microsecond) == (want.hour, want.minute, want.second, 0), what)
    apart = abs((want - now).total_seconds())
    if apart <= 3600:
        check(r == want, what)
        rec.nontrivial(want.date() != now.date())
        rec.label("next day" if want.date() > now.date() else "day before" if want.date() < now.date() else "same day")
        if want.date() != now.date():
            rec.label("month" if want.month != now.month else "day", "year" if want.year != now.year else "day")
    else:
        check(abs((r.date() - now.date()).days) <= 1, what)
        rec.label("far")


def targets():
    return [Target("date", case(), run, quick=12000, thorough=500000, setup=setup)]
