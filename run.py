#!/opt/horus-venv/bin/python -B
"""run.py PROPERTY [--replay FILE]   decide one property on /repo's working tree (VERIF_SEED, VERIF_TIER)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core
sys.exit(core.main(sys.argv[1:]))
