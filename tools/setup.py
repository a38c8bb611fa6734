#!/usr/bin/env python3
"""Checks that the tools are there and that every specification module parses (nothing is kept)."""
import glob
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "/opt/veriftools/tla"
with tempfile.TemporaryDirectory() as d:
    subprocess.run(["javac", "-cp", T + "/tla2tools.jar", "-d", d, V + "/java/Reals.java"], check=True)
    bad = 0
    mods = sorted(glob.glob(V + "/spec/*.tla"))
    ps = [(m, subprocess.Popen(["java", "-cp", T + "/tla2tools.jar:" + T + "/CommunityModules-deps.jar", "-DTLA-Library=" + V + "/spec",
           "tla2sany.SANY", m], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)) for m in mods]
    for m, p in ps:
        out = p.communicate()[0]
        if p.returncode or "Error" in out:
            bad += 1
            print(m, out)
    print("%d modules parsed" % len(mods))
    sys.exit(1 if bad else 0)
