"""libFuzzer campaigns as targets: a case is a seed, and in a replay the input found."""
import os, re, shutil, subprocess, tempfile
from hypothesis import strategies as st
from . import native
from .core import Violation


@st.composite
def case(draw):
    return {"seed": draw(st.integers(1, 2 ** 31 - 1))}


def campaign(exe, c, rec, quick, thorough, max_len, seeds):
    """one campaign, or the input it found"""
    name = os.path.basename(exe)
    d = tempfile.mkdtemp(prefix="vf_fuzz_")
    try:
        if "input" in c:
            p = os.path.join(d, "in")
            open(p, "wb").write(bytes.fromhex(c["input"]))
            r = subprocess.run([exe, p], cwd=d, env=native.san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            if r.returncode:
                kind, msg = native.death_message(name, r.returncode, r.stderr.decode(errors="replace"))
                raise Violation(msg, kind)
            return
        runs = quick if os.environ.get("VERIF_TIER", "quick") != "thorough" else thorough
        os.mkdir(os.path.join(d, "corpus"))
        for i, b in enumerate(seeds()):                              # small valid inputs beside the empty corpus
            open(os.path.join(d, "corpus", "s%d" % i), "wb").write(b)
        r = subprocess.run([exe, "-seed=%d" % c["seed"], "-runs=%d" % runs, "-max_len=%d" % max_len, "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", os.path.join(d, "corpus")],
                           cwd=d, env=native.san_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        err = r.stderr.decode(errors="replace")
        if r.returncode:
            found = [f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-"))]
            kind, msg = native.death_message(name, r.returncode, err)
            if found:
                c["input"] = open(os.path.join(d, found[0]), "rb").read().hex()
            raise Violation(msg, kind)
        n = re.search(r"number_of_executed_units: (\d+)", err)
        rec.extra(int(n.group(1)) - 1 if n else runs)
        rec.nontrivial()
        rec.label("campaign")
    finally:
        shutil.rmtree(d, ignore_errors=True)
