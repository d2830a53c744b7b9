"""Writes MANIFEST.json: one entry per property that has a check, the rest under not_applicable."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/horus-venv/bin/python -B"
TECH = {
    "C01": "property-based testing: generated payloads and error patterns, round trip through the native codec under ASan/UBSan/MSan",
    "C02": "property-based differential testing against an independent reference model of the air format",
    "C03": "property-based differential testing of the checksum routines plus metamorphic damage relations",
    "C04": "stateful property-based testing: generated packet histories through the bit seam against a transmit-side model",
    "C05": "property-based testing: generated near-miss streams, every report checked against a window-decoding oracle",
    "C06": "sanitizer-backed random testing (bits and audio) and libFuzzer coverage-guided fuzzing",
    "C07": "stateful property-based testing: generated sentence histories through the bit seam against a transmit-side model",
    "C08": "property-based testing: generated damaged sentences, every report checked against a received-characters oracle",
    "C09": "property-based testing: generated modulated audio with impairments, round trip to the transmitted content",
    "C10": "metamorphic property-based testing: same samples, different chunking, memory contents and neighbours give the same output",
    "C11": "property-based testing: generated signals of known tones and noise against an analytic oracle",
    "C12": "property-based differential testing of the three receivers on generated audio",
    "C13": "property-based round trip and differential testing of the command-line tools on generated bits and options",
    "C14": "stateful property-based testing of open/use/close histories with LeakSanitizer and allocation counting as oracle",
    "P01": "property-based differential testing against an independent packet model",
    "P02": "property-based testing of damaged and arbitrary bytes, with purity invariants over call histories",
    "P03": "property-based differential testing with generated field descriptions against an independent decoder",
    "P04": "property-based testing: generated schema-conforming messages against an independent field-mapping model",
    "P05": "property-based differential testing of the native and Python codecs on generated messages",
    "P06": "libFuzzer coverage-guided fuzzing and property-based mutation of the native decoder under ASan/UBSan",
    "P07": "stateful property-based testing against a reference model of the name cache",
    "P08": "property-based testing of generated telemetry against a clipping model and a decode round trip",
    "P09": "property-based round trip testing",
    "P10": "property-based differential testing against an independent sentence parser",
    "P11": "property-based testing with a generated clock against a nearest-day oracle",
    "P12": "property-based differential testing against an independent conversion model",
    "P13": "stateful property-based testing with a fake server, injected faults and generated schedules",
    "P14": "property-based testing: generated telemetry, captured datagrams against an expected-content model",
    "P15": "stateful property-based testing with a generated clock against a reference window model",
    "P16": "property-based testing of generated list texts and injected download faults against a model",
    "P17": "stateful property-based testing of the whole uploader: generated line histories against a per-line model",
    "P18": "stateful property-based testing with generated clock and packet histories against a refresh model",
    "P20": "property-based testing of the tool in process with generated packets, lists and download faults against a reference model",
    "S01": "property-based testing of the scripts with recording stand-ins and generated settings and signals against a settings model",
    "E01": "end-to-end property-based testing: generated telemetry and signals through the real programs to recorded uploads",
    "P19": "stateful property-based testing with generated clock, configuration and server faults against a schedule model",
}


def assumptions(pid):
    t = ast.parse(open(os.path.join(V, "checks", pid + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            return ast.literal_eval(n.value)
    return []


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "checks", i + ".py")):
            a = assumptions(i)
            checks.append({
                "property": i,
                "quick_cmd": "%s run.py %s" % (PY, i),
                "thorough_cmd": "VERIF_TIER=thorough %s run.py %s" % (PY, i),
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i],
                "level": "exploration",
                "level_note": "Searches generated inputs; no violation found is not a proof. " + ("Assumes: " + "; ".join(a) + "." if a else "")})
        else:
            na.append({"property": i, "reason": "no check has been built for it yet"})
    m = {"version": 1, "setup_cmd": "%s tools/setup.py" % PY,
         "hooks": {"guard": "none", "enable": "No hooks are added to /repo: the checks compile its sources as they are and take bits in and out with the linker's --wrap.", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "Replay a counterexample with: %s run.py <ID> --replay <path>" % PY}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


main()
