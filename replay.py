#!/usr/bin/env python3
"""replay.py FILE: rebuilds from the working tree and replays a recorded violation with its trace (exit 1 if it occurs)."""
import importlib.util, os, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("simbuild", os.path.join(VERIF, "sim", "Makefile.py"))
sb = importlib.util.module_from_spec(spec)
spec.loader.exec_module(sb)
first = open(sys.argv[1], errors="replace").readline()
variant = first.split(":")[1].strip() if first.startswith("variant:") else "asan"
sys.exit(subprocess.run([sb.build(variant), "replay", sys.argv[1], "v"]).returncode)
