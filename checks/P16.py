import copy, json, os, re, shutil, struct, tempfile
from hypothesis import strategies as st
from vf import build, clock, net, repo
from vf.core import Target, check

RULE = ("Generated list texts, as lines or JSON entries that are well-formed, malformed in one of many ways, repeated, commented or followed by more fields, or damaged as a whole, some with up to 3000 (750 in JSON) entries more, loaded from the text, from a local file (relative, absolute, missing, a directory, not text) "
        "and by download (good, not the expected document, cut off, error statuses, network failures) over an existing or missing or unwritable local file; histories of up to four loads. "
        "Non-trivial: well-formed and malformed entries in one text, or a download that must not be used.")
ASSUMPTIONS = ["numbers in the form Python accepts but no list uses (signs, underscores, other scripts) and entries with an empty name are left open, as is the type of an entry's field list",
               "a local file which is not UTF-8 text may be ignored as a whole", "an answer with an error status is a failed download", "the names read from earlier lists stay known when a later list no longer has them"]
P = None
BUILTIN = {}


def prepare():
    clock.prepare()


def setup():
    global P
    repo.setup()
    net.setup()
    import horusdemodlib.payloads as P_
    P = P_
    BUILTIN["ids"] = copy.deepcopy(P.HORUS_PAYLOAD_LIST)
    BUILTIN["fields"] = copy.deepcopy(P.HORUS_CUSTOM_FIELDS)


HEAD = "# HORUS BINARY PAYLOAD ID LIST"
NAME = st.one_of(st.text("ABCXYZ-0129 _", min_size=1, max_size=12), st.sampled_from(["4FSKTEST", "HORUSBINARY", "\u00c9CLAIR", "\u4e2d", "a#b", "$$X", "UNKNOWN_PAYLOAD_ID", "x" * 40])).filter(lambda s: s.strip() != "")
WS = st.sampled_from(["", "", "", " ", "  ", "\t"])


@st.composite
def id_line(draw):
    """-> [text, number or None, name]; number None when the line is malformed, name None when it is left open"""
    k = draw(st.integers(0, 11))
    n = draw(st.one_of(st.integers(0, 300), st.integers(0, 65535), st.sampled_from([0, 1, 255, 256, 65535, 70000])))
    name = draw(NAME)
    if k < 6:
        return [draw(WS) + str(n) + draw(WS) + "," + draw(WS) + name + draw(st.sampled_from(["", "", " ", "\r", "\t \r"])), n, name.strip()]
    if k == 6:
        return [draw(st.sampled_from(["#", "# ", "#1,", "# 5, ABC", "#\u00e9", HEAD])) + draw(st.text("abc ,#1", max_size=8)), None, ""]
    if k == 7:
        return [draw(st.sampled_from(["", " ", "\r", "\t", ",", ",,", "5", "5;ABC", "ABC", "5 ABC", "{}", "<html>", " # x"])), None, ""]
    if k == 8:
        return ["%d,%s,%s" % (n, name, draw(st.text("ab,", max_size=3))), None, ""]
    if k == 9:
        return [draw(st.sampled_from(["abc", "0x10", "1.5", "1e3", "", "--1", "5 5", "\u2460", "None", "9" * 5000, "1.0", "#"])) + "," + name, None, ""]
    if k == 10:
        return [draw(st.sampled_from(["+5", "1_0", "-1", "\u0665", "005"])) + "," + name, None, None]
    return ["%d," % n + draw(WS), None, None]


STRUCTS = ["<hhBHxx", "<BbBfH", "<9B", "<9x", ">fI1b", "<d1B", "<BbBH4x", "<9s", "@9b", "<qb", "<2fB", "<?8x"]
BADSTRUCT = ["", "<8B", "<10x", "<B", "zzz", "<hhBHxx ", "9", "<99999999999999999999x", 5, None, [], {}, True, 1.5, "\u00e9", "<hh\u0000", "<n1B", "@qb2x"]


def goodstruct(s):
    try:
        return isinstance(s, str) and struct.calcsize(s) == 9
    except (struct.error, UnicodeEncodeError):
        return False


FIELDS = st.one_of(st.lists(st.tuples(st.sampled_from(["a", "b", "ascent_rate"]), st.sampled_from(["none", "divide_by_10", "battery_5v_byte"])).map(list), max_size=4), st.lists(st.just(["x", "none"]), min_size=1, max_size=3))


@st.composite
def field_entry(draw):
    """-> [payload, JSON value]"""
    name = draw(st.one_of(st.sampled_from(["HORUSTEST", "HORUSTEST2", "4FSKTEST-V2", "A", "B", "C", ""]), NAME))
    k = draw(st.integers(0, 9))
    if k < 6:
        d = {"struct": draw(st.sampled_from(STRUCTS)), "fields": draw(FIELDS)}
        if k < 2:
            d["other_payloads"] = draw(st.lists(st.one_of(st.sampled_from(["A", "B", "C", "HORUSTEST", "Z1", "Z2"]), NAME), max_size=4))
        if k == 5:
            d[draw(st.sampled_from(["comment", "other", "Struct"]))] = draw(st.sampled_from([1, None, "x", []]))
        return [name, d]
    if k == 6:
        return [name, draw(st.one_of(st.none(), st.booleans(), st.integers(0, 9), st.floats(-1, 1), st.text("structfields", max_size=14), st.sampled_from(["struct fields", [], ["struct", "fields"], [1], {}, [[]]])))]
    if k == 7:
        return [name, {"struct": draw(st.sampled_from(BADSTRUCT)), "fields": draw(FIELDS), "other_payloads": ["A", "Z1"]}]
    if k == 8:
        d = {"struct": draw(st.sampled_from(STRUCTS)), "fields": draw(FIELDS), "other_payloads": ["Z2"]}
        del d[draw(st.sampled_from(["struct", "fields"]))]
        return [name, d]
    return [name, {"struct": draw(st.sampled_from(STRUCTS)), "fields": draw(FIELDS), "other_payloads": draw(st.sampled_from([5, None, True, 1.5]))}]


WHOLE = st.sampled_from(["", " ", "null", "[]", "5", "\"struct\"", "{", "{}", "[{\"HORUSTEST\":1}]", "\"HORUSTEST\"", "<html>HORUSTEST</html>", "HORUSTEST", "[" * 3000, "{\"a\":" * 3000, "nan", "\u0000", "\ufeff{}", "true"])


# number of further entries, before the others or after them
MANY = st.one_of(*[st.just(0)] * 9, st.sampled_from([-3000, -1100, -260, 260, 600, 1100, 3000]))


@st.composite
def document(draw, ids):
    """text of a list, with what it means"""
    if ids:
        lines = draw(st.lists(id_line(), max_size=10))
        marker = draw(st.integers(0, 3)) > 0
        if marker:
            lines.insert(draw(st.integers(0, len(lines))), [HEAD, None, ""])
        return {"lines": lines, "end": draw(st.sampled_from(["\n", "", "\n\n"])), "many": draw(MANY)}
    if draw(st.integers(0, 5)) == 0:
        return {"whole": draw(WHOLE)}
    e = draw(st.lists(field_entry(), max_size=8))
    if draw(st.integers(0, 3)):
        e.insert(draw(st.integers(0, len(e))), ["HORUSTEST", {"struct": "<BbBfH", "fields": [["a", "none"]]}])
    return {"entries": e, "indent": draw(st.sampled_from([None, 2])), "ascii": draw(st.booleans()), "cut": draw(st.one_of(st.just(0), st.just(0), st.just(0), st.integers(1, 40))), "many": draw(MANY)}


def text(doc):
    n = doc.get("many", 0)
    if "lines" in doc:
        l, more = [l[0] for l in doc["lines"]], ["%d, MANY-%d" % (1000 + k, k) for k in range(abs(n))]
        return "\n".join(more + l if n < 0 else l + more) + doc["end"]
    if "whole" in doc:
        return doc["whole"]
    more = [["MANY-%d" % k, {"struct": STRUCTS[k % len(STRUCTS)], "fields": [["m%d" % k, "none"]]}] for k in range(abs(n) // 4)]
    entries = more + doc["entries"] if n < 0 else doc["entries"] + more
    m = "{" + ",".join(("\n  " if doc["indent"] else "") + json.dumps(n, ensure_ascii=doc["ascii"]) + ": " + json.dumps(v, indent=doc["indent"], ensure_ascii=doc["ascii"]) for n, v in entries) + "}"
    return m[:max(0, len(m) - doc["cut"])] if doc["cut"] else m


class Model:
    """known entries; a value of None marks one that is left open"""

    def __init__(self):
        self.ids, self.fields = dict(BUILTIN["ids"]), copy.deepcopy(BUILTIN["fields"])

    def load(self, kind, t):
        """-> expected result, set of keys left open"""
        open_ = set()
        if kind == "ids":
            r = dict(self.ids)
            for l in t.split("\n"):
                p = l.split(",")
                if l == "" or l[0] == "#" or len(p) != 2:
                    continue
                n, name = p[0].strip(), p[1].strip()
                if re.fullmatch("0|[1-9][0-9]{0,9}", n) and name:
                    r[int(n)] = name
                else:
                    try:
                        open_.add(int(n))
                    except ValueError:
                        pass
            return r, open_
        r = copy.deepcopy(self.fields)
        try:
            d = json.loads(t)
        except (ValueError, RecursionError):
            return r, open_
        if isinstance(d, dict):
            for k, v in d.items():
                if isinstance(v, dict) and "fields" in v and goodstruct(v.get("struct")):
                    x = {"struct": v["struct"], "fields": v["fields"]}
                    r[k] = x
                    if isinstance(v.get("other_payloads"), list):
                        for o in v["other_payloads"]:
                            r[o] = x
        return r, open_


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["ids", "fields"]))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        s = {"op": draw(st.sampled_from(["parse", "read", "download", "init", "init", "initno"]))}
        s["doc"] = draw(document(kind == "ids"))
        s["local"] = draw(st.sampled_from(["keep", "keep", "doc", "doc", "missing", "dir", "bytes"]))
        s["ldoc"] = draw(document(kind == "ids")) if s["local"] == "doc" else None
        s["net"] = draw(st.sampled_from([200, 200, 200, 200, 404, 500, 503, 403, "connect", "timeout", "chunk", "redirects", "decode"]))
        s["file"] = draw(st.integers(0, 3)) > 0
        steps.append(s)
    return {"kind": kind, "steps": steps, "abs": draw(st.booleans())}


def look(path):
    if os.path.isdir(path):
        return "directory"
    try:
        with open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def run(c, rec):
    kind = c["kind"]
    ids = kind == "ids"
    P.HORUS_PAYLOAD_LIST = copy.deepcopy(BUILTIN["ids"])
    P.HORUS_CUSTOM_FIELDS = copy.deepcopy(BUILTIN["fields"])
    model = Model()
    top = tempfile.mkdtemp(prefix="p16-")
    cwd = os.getcwd()
    os.chdir(top)
    name = "payload_id_list.txt" if ids else "custom_field_list.json"
    path = os.path.join(top, name)
    try:
        for i, s in enumerate(c["steps"]):
            t = text(s["doc"])
            if s["local"] != "keep":
                if os.path.isdir(path):
                    os.rmdir(path)
                elif os.path.exists(path):
                    os.unlink(path)
            if s["local"] == "doc":
                with open(path, "w", encoding="utf-8", newline="") as f:
                    f.write(text(s["ldoc"]))
            elif s["local"] == "dir":
                os.mkdir(path)
            elif s["local"] == "bytes":
                with open(path, "wb") as f:
                    f.write(b"\xff\xfe\x80garbage,\xc3(\n5,A\n")
            before = look(path)
            asked = []

            def serve(q):
                import requests
                asked.append(q.url)
                n = s["net"]
                if isinstance(n, str):
                    raise {"connect": requests.exceptions.ConnectionError, "timeout": requests.exceptions.ReadTimeout, "chunk": requests.exceptions.ChunkedEncodingError, "redirects": requests.exceptions.TooManyRedirects, "decode": requests.exceptions.ContentDecodingError}[n]("no luck")
                return net.response(q, n, t.encode("utf-8", "surrogatepass"))
            net.http["fn"] = serve
            marker = (HEAD[2:] if ids else "HORUSTEST") in t
            whole = True
            if not ids:
                try:
                    whole = isinstance(json.loads(t), dict)
                except (ValueError, RecursionError):
                    whole = False
            good = s["net"] == 200 and marker and whole
            fn = path if c["abs"] else name
            op = s["op"]
            what = "step %d (%s with the answer %s over the local file %r): " % (i, op, s["net"], before if before is None else before[:80])
            try:
                if op == "parse":
                    r = (P.parse_payload_list if ids else P.parse_custom_field_list)(t)
                elif op == "read":
                    r = (P.read_payload_list if ids else P.read_custom_field_list)(**({} if name == fn and s["file"] else {"filename": fn}))
                elif op == "download":
                    r = (P.download_latest_payload_id_list if ids else P.download_latest_custom_field_list)(**({"filename": fn} if s["file"] else {}))
                else:
                    k = {"filename": fn}
                    if op == "initno":
                        k["nodownload"] = True
                    r = (P.init_payload_id_list if ids else P.init_custom_field_list)(**k)
            except Exception as x:
                check(False, lambda: what + "raises %r" % x)
            finally:
                net.http["fn"] = net.refuse
            check((len(asked) == 1) == (op in ("download", "init")) and len(asked) <= 1, lambda: what + "%d downloads are made" % len(asked))
            after = look(path)
            # the local file
            saves = good and (op == "init" or op == "download" and s["file"]) and before != "directory"
            check(after == (t.encode("utf-8", "surrogatepass") if saves else before), lambda: what + "the local file is now %r, the text offered was %r" % (after, t))
            # the result
            if op == "download" and not good:
                check(r is None, lambda: what + "a download which must not be used gives %s" % (r,))
                rec.nontrivial()
                continue
            if op in ("read", "initno") or (op == "init" and not good):
                if before is None or before == "directory":
                    src = None
                    if not c["abs"]:
                        with open(os.path.join(build.REPO, name), encoding="utf-8") as f:
                            src = f.read()
                else:
                    try:        # text files are read with any line ending
                        src = before.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
                    except UnicodeDecodeError:
                        src = "any"
            else:
                src = t
            check(isinstance(r, dict), lambda: what + "gives %r" % (r,))
            if src == "any":
                check(all(k in r for k in (model.ids if ids else model.fields)), lambda: what + "built-in entries are missing from %s" % r)
            else:
                if src is None:
                    want, left = (dict(model.ids) if ids else copy.deepcopy(model.fields)), set()
                else:
                    want, left = model.load(kind, src)
                a = {k: v for k, v in r.items() if k not in left}
                b = {k: v for k, v in want.items() if k not in left}
                check(a == b, lambda: what + "the text %r gives the wrong entries: %s" % (src[:2000] if src else src, sorted({repr(k): (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}.items())[:5]))
            # what the programs do with it
            if ids:
                P.HORUS_PAYLOAD_LIST = r
                model.ids = dict(r)
            else:
                P.HORUS_CUSTOM_FIELDS = r
                model.fields = copy.deepcopy(r)
            rec.label(op, kind)
            if not good and op == "init":
                rec.nontrivial()
            if ids and "lines" in s["doc"]:
                rec.nontrivial(any(l[1] is not None for l in s["doc"]["lines"]) and any(l[1] is None for l in s["doc"]["lines"]))
            elif "entries" in s["doc"]:
                g = [isinstance(v, dict) and goodstruct(v.get("struct")) and "fields" in v for _, v in s["doc"]["entries"]]
                rec.nontrivial(any(g) and not all(g))
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)
        P.HORUS_PAYLOAD_LIST = copy.deepcopy(BUILTIN["ids"])
        P.HORUS_CUSTOM_FIELDS = copy.deepcopy(BUILTIN["fields"])


def targets():
    return [Target("load", case(), run, quick=4000, thorough=100000, setup=setup)]
