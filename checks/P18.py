import copy, os
from hypothesis import strategies as st
from checks import P12, P17
from vf import net, repo, telem
from vf.core import Target, check

RULE = ("Runs of the real uploader program with generated options on 2 to 30 packets with a few payload numbers, damaged packets and sentences, at instants of a fake clock seconds to hours apart (often close to half an hour), against a "
        "server whose lists change from one download to the next, fail or are no lists, with a local list or none. The model knows when a refresh is due and which lists are in use, and predicts every download, log record, datagram and upload. "
        "Non-trivial: at least one refresh after the start, and at least one unknown payload for which none is due.")
ASSUMPTIONS = ["a packet exactly half an hour after a refresh is left open", "both lists are downloaded in a refresh", "names once known stay known", "HTTP requests take no time"]
prepare, setup = P17.prepare, P17.setup
IDS = [3, 5, 77, 200, 255]
BIG = [300, 5, 65535, 257]
NAMES = ["ALPHA", "BRAVO", "CHARLIE", "DELTA", "HORUSTEST"]
DT = st.one_of(st.sampled_from([1, 2, 5, 30, 60, 600, 899.5, 901, 1798, 1799, 1799.75, 1800.25, 1801, 1802, 3601]), st.integers(1, 4000))


@st.composite
def lists(draw):
    return {"ids": [[draw(st.sampled_from(IDS + BIG)), draw(st.sampled_from(NAMES))] for _ in range(draw(st.integers(0, 5)))],
            "fields": [[draw(st.sampled_from(NAMES + ["4FSKTEST-V2"])), draw(st.integers(0, len(P12.DESC) - 1))] for _ in range(draw(st.integers(0, 2)))],
            "net": [draw(st.sampled_from([200, 200, 200, 200, 404, 500, "fail", "html", "cut"])) for _ in range(2)]}


@st.composite
def chunk(draw):
    c = {"dt": draw(DT), "end": "\n"}
    k = draw(st.integers(0, 19))
    t = draw(P17.packet())
    if k < 16:
        kind = t["kind"] = draw(st.sampled_from(["v1", "v2s", "v2", "v2"]))
        t["f"] = draw(telem.fields(kind, True))
        t.pop("m", None)
        t["f"]["id"] = draw(st.sampled_from(IDS if kind != "v2" else BIG))
        if kind == "v2":
            t["f"]["custom"] = draw(P12.custom9())
    c["p"] = t
    if k in (14, 15):
        c["damage"] = [draw(st.sampled_from(["flip", "cut"])), draw(st.integers(0, 600)), draw(st.integers(1, 255))]
    return c


@st.composite
def case(draw):
    o = draw(P17.options())
    o["nodownload"] = draw(st.integers(0, 4)) == 0
    o["noupload"] = draw(st.integers(0, 2)) > 0
    return {"t0": 1700000000 + draw(st.integers(0, 86399)), "cfg": draw(P17.config()), "opt": o, "enc": "utf-8", "errors": "strict", "chunks": draw(st.lists(chunk(), min_size=2, max_size=draw(st.sampled_from([6, 12, 30])))), "desc": 0, "last": "full",
            "stop": "eof", "answers": draw(st.lists(lists(), min_size=1, max_size=6)), "local": draw(st.one_of(st.none(), lists()))}


def text(l, i):
    """-> what the server answers: (status, body)"""
    ids, fields = P17.documents(dict((a, b) for a, b in l["ids"]), {n: {"struct": P12.DESC[d][0], "fields": [list(x) for x in P12.DESC[d][1]]} for n, d in l["fields"]})
    t = (ids, fields)[i]
    n = l["net"][i]
    if n == "html":
        return 200, "<html>sorry</html>"
    if n == "cut":
        return 200, t[10:] if i == 0 else t[:len(t) - 2]
    return n, t


class Bench(P17.Bench):
    def lists(self):
        self.count = [0, 0]
        self.n = 0
        l = self.c["local"]
        self.local = [None, None]
        if l is not None:
            for i, f in enumerate(("ids.txt", "fields.json")):
                self.local[i] = text(dict(l, net=[200, 200]), i)[1]
                with open(os.path.join(self.top, f), "w") as h:
                    h.write(self.local[i])

    def answer(self, i, n):
        a = self.c["answers"]
        return text(a[min(n, len(a) - 1)], i)

    def list_answer(self, request):
        import requests
        i = 0 if request.url == P17.GET_IDS else 1
        s, t = self.answer(i, self.count[i])
        self.count[i] += 1
        if s == "fail":
            raise requests.exceptions.ConnectionError("no luck")
        return net.response(request, s, t.encode())

    # ------------------------------------------------------------------ the model
    def refresh(self, t):
        for i in (0, 1):
            s, x = self.answer(i, self.n)
            good = s == 200 and ("HORUS BINARY PAYLOAD ID LIST" in x if i == 0 else x.endswith("}"))
            if good:
                self.local[i] = x
            if self.local[i] is not None:
                if i == 0:
                    self.ids = self.parse(0, self.local[0])
                else:
                    self.fields_ = self.parse(1, self.local[1])
        self.n += 1
        self.want.append(t)

    def parse(self, i, x):
        self.use()
        return copy.deepcopy((P17.P.parse_payload_list if i == 0 else P17.P.parse_custom_field_list)(x))

    def use(self):
        P17.P.HORUS_PAYLOAD_LIST = copy.deepcopy(self.ids)
        P17.P.HORUS_CUSTOM_FIELDS = copy.deepcopy(self.fields_)
        repo.forget(P17.D)

    def expect(self):
        o = self.c["opt"]
        self.ids, self.fields_ = copy.deepcopy(P17.BUILTIN["ids"]), copy.deepcopy(P17.BUILTIN["fields"])
        self.want = []
        self.held = 0
        self.next = self.c["t0"]
        self.allowed = not o["nodownload"] and not o["rtty"]
        if self.allowed:
            self.refresh(self.c["t0"])
        elif not o["rtty"] and self.local[0] is not None:
            self.ids, self.fields_ = self.parse(0, self.local[0]), self.parse(1, self.local[1])
        return P17.Bench.expect(self)

    def decode_alone(self, t, data):
        import binascii
        self.use()
        if data.startswith("$$"):
            return P17.D.parse_ukhas_string(data)
        b = binascii.a2b_hex(data)
        e = P17.D.decode_packet(b)
        if e["callsign"] == telem.UNKNOWN and self.allowed:
            if abs(t - self.next) < 1e-3:
                raise BaseOpen()
            if t > self.next:
                self.refresh(t)
                self.next = t + 1800
                self.use()
                e = P17.D.decode_packet(b)
            else:
                self.held += 1
        return e


class BaseOpen(BaseException):
    pass


def run(c, rec):
    b = Bench(c)
    b.go()
    try:
        b.judge()
    except BaseOpen:
        rec.label("left open")
        b.reset()
        from vf import clock
        clock.real()
        return
    want = sorted((t, u) for t in b.want for u in (P17.GET_IDS, P17.GET_FIELDS))
    check(sorted(b.gets) == want, lambda: "packets at %s: the lists are downloaded at %s, expected %s (%s)" % ([round(t - c["t0"], 2) for t, _ in b.fed], [(round(t - c["t0"], 2), u[-10:]) for t, u in b.gets], [round(t - c["t0"], 2) for t in b.want], c["opt"]))
    rec.nontrivial(len(b.want) >= 2 and b.held > 0)
    rec.label("refreshes%d" % min(9, len(b.want)), "held%d" % min(9, b.held), *[n for n in ("rtty", "nodownload") if c["opt"][n]])


def targets():
    return [Target("refresh", case(), run, quick=1500, thorough=40000, setup=setup)]
