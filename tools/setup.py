"""Builds everything the checks use (each check also builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build
for v in ("asan", "msan"):
    build.cdrv(v)
build.fuzz_target("fuzz_rx", "lib")
for v in ("asan",):
    build.asndrv(v)
build.fuzz_target("fuzz_asn", "asn")
for t in build.TOOLS:
    build.tool(t)
print("ok", build.cffi_ext())
