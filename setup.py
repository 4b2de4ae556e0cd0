#!/usr/bin/env python3
"""Checks that the toolchain is there and that every specification module parses."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
sys.dont_write_bytecode = True
import core, tempfile
from concurrent.futures import ThreadPoolExecutor
def sany(f):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", core.TLA_CP, "tla2sany.SANY", f], cwd=core.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    bad = p.returncode != 0 or b"rror" in p.stdout
    if bad:
        print(f, p.stdout.decode()[-1500:])
    return bad
with ThreadPoolExecutor(core.NCPU) as ex:
    bad = sum(ex.map(sany, sorted(glob.glob(core.SPEC + "/*.tla"))))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
print("specification modules parsed, %d errors" % bad)
sys.exit(1 if bad else 0)
