import binascii, contextlib, copy, io, json, os, runpy, shutil, struct, sys, tempfile
from hypothesis import strategies as st
from checks import P12, P17
from vf import build, clock, models, net, repo, telem, v3
from vf.core import Target, check

RULE = ("Runs of the real decode-one-packet tool in a scratch directory with generated local lists (or none), with or without downloading the lists (download outcomes generated), on a hexadecimal packet of any format, "
        "a damaged or cut one, or other text. Non-trivial: a valid packet of a payload from the lists, or an invalid one.")
ASSUMPTIONS = ["the sentence text itself is judged by the other properties", "arguments that start with a dash are not given"]
PACKAGED = []


def packaged():
    """the lists that come with the package, used where the working directory has none"""
    if not PACKAGED:
        ids, fields = {}, {}
        n = os.path.join(build.REPO, "payload_id_list.txt")
        if os.path.exists(n):
            for l in open(n, newline="\n"):
                p = l.rstrip("\n").split(",")
                if len(p) == 2 and not l.startswith("#"):
                    try:
                        ids[int(p[0])] = p[1].strip()
                    except ValueError:
                        pass
        n = os.path.join(build.REPO, "custom_field_list.json")
        if os.path.exists(n):
            for k, v in json.load(open(n)).items():
                if struct.calcsize(v["struct"]) == 9:
                    for x in [k] + v.get("other_payloads", []):
                        fields[x] = {"struct": v["struct"], "fields": v["fields"]}
        PACKAGED.extend([ids, fields])
    return PACKAGED


def prepare():
    clock.prepare()


def setup():
    P17.setup()


@st.composite
def case(draw):
    t = draw(P17.packet())
    c = {"p": t, "lists": draw(st.sampled_from(["good", "good", "good", "none", "junk"])), "update": draw(st.sampled_from([None, None, None, "ok", "fail", "error", "junk"])), "desc": draw(st.integers(0, len(P12.DESC) - 1)),
         "verbose": draw(st.booleans())}
    k = draw(st.integers(0, 9))
    if k < 3:
        c["damage"] = [draw(st.sampled_from(["flip", "cut", "add", "char"])), draw(st.integers(0, 600)), draw(st.integers(1, 255))]
    elif k == 3:
        c["text"] = draw(st.one_of(st.sampled_from(["", "00", "zz", "0", "hello", "$$A,1,2*0000", "01" * 22, "ff" * 32, "00" * 16, "0x00", "\u00e9"]), st.text(max_size=20).filter(lambda s: not s.startswith("-") and "\0" not in s and s.isprintable())))
    elif k == 4:
        b = draw(st.binary(min_size=0, max_size=60))
        c["text"] = models.with_crc_head(b).hex() if draw(st.booleans()) else models.with_crc_tail((b + bytes(40))[:draw(st.sampled_from([14, 20, 30]))]).hex()
    return c


def run(c, rec):
    t = c["p"]
    if t["kind"] == "rtty" and "text" not in c:
        return
    if "text" in c:
        arg = c["text"]
    else:
        b = P17.wire(t, 1700000000)
        if "damage" in c:
            b = P17.damage(b, c["damage"])
        arg = b.decode("latin-1")
    if arg.startswith("-") or "\0" in arg or any(0xD800 <= ord(x) < 0xE000 for x in arg):
        return
    ids = {t["f"]["id"]: t["call"].strip()} if t["known"] and t["kind"] in telem.FORMATS else {77: "OTHER"}
    s, f = P12.DESC[c["desc"]]
    fields = {"4FSKTEST-V2": {"struct": s, "fields": [list(x) for x in f]}}
    if t["known"] and t["kind"] == "v2":
        fields[t["call"].strip()] = fields["4FSKTEST-V2"]
    docs = P17.documents(ids, fields)
    local = {"good": docs, "none": (None, None), "junk": ("<html>\n\n", "{]")}[c["lists"]]
    served = {"ok": docs, "junk": ("<html></html>", "<html></html>")}.get(c["update"], (None, None))
    used = [s if c["update"] == "ok" else l for s, l in zip(served, local)]
    gets = []

    def serve(request):
        import requests
        gets.append(request.url)
        if c["update"] == "fail":
            raise requests.exceptions.ConnectionError("no luck")
        if c["update"] == "error":
            return net.response(request, 404, b"404: Not Found")
        return net.response(request, 200, served[0 if request.url == P17.GET_IDS else 1].encode())

    P, D = P17.P, P17.D
    P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(P17.BUILTIN["ids"]), copy.deepcopy(P17.BUILTIN["fields"])
    top = tempfile.mkdtemp(prefix="p20-")
    cwd, argv = os.getcwd(), sys.argv
    out, err = io.StringIO(), io.StringIO()
    keep = sys.modules.get("__main__")
    try:
        os.chdir(top)
        for n, d in zip(("payload_id_list.txt", "custom_field_list.json"), local):
            if d is not None:
                with open(n, "w") as f:
                    f.write(d)
        sys.argv = ["decoder.py"] + (["--update"] if c["update"] else []) + (["-v"] if c["verbose"] else []) + ["--decode", arg]
        net.http["fn"] = serve
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                runpy.run_module("horusdemodlib.decoder", run_name="__main__")
        except SystemExit as x:
            check(x.code in (None, 0), lambda: "the tool ends with status %s on %r: %s" % (x.code, arg, err.getvalue()[-400:]))
        except Exception as x:
            check(False, lambda: "the tool dies of %r on %r" % (x, arg))
        # ---- the model
        P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(P17.BUILTIN["ids"]), copy.deepcopy(P17.BUILTIN["fields"])
        if used[0] == docs[0]:
            P.HORUS_PAYLOAD_LIST.update(ids)
        elif used[0] is None:
            P.HORUS_PAYLOAD_LIST.update(packaged()[0])
        if used[1] == docs[1]:
            P.HORUS_CUSTOM_FIELDS.update({k: dict(v) for k, v in fields.items()})
        elif used[1] is None:
            P.HORUS_CUSTOM_FIELDS.update(packaged()[1])
        repo.forget(D)
        try:
            want = "Decoded UKHAS String: " + D.decode_packet(binascii.a2b_hex(arg))["ukhas_str"]
            good = True
        except Exception:
            want, good = "Error while decoding: ", False
    finally:
        net.http["fn"] = net.refuse
        sys.argv = argv
        os.chdir(cwd)
        shutil.rmtree(top)
        P.HORUS_PAYLOAD_LIST, P.HORUS_CUSTOM_FIELDS = copy.deepcopy(P17.BUILTIN["ids"]), copy.deepcopy(P17.BUILTIN["fields"])
    o = out.getvalue()
    if good:
        check(o == want + "\n", lambda: "%r (payloads %s, lists %s, update %s) gives %r, expected %r" % (arg, ids, c["lists"], c["update"], o, want))
    else:
        check(o.startswith(want) and o.endswith("\n"), lambda: "%r gives %r, expected an error" % (arg, o))
    check(bool(gets) == bool(c["update"]), lambda: "update %s: downloads %s" % (c["update"], gets))
    rec.nontrivial(not good or (used[0] == docs[0] and t["known"]))
    rec.label("decoded" if good else "refused", c["lists"], "update %s" % c["update"], t["kind"])


def targets():
    return [Target("decode", case(), run, quick=800, thorough=20000, setup=setup)]
