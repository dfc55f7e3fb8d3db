#!/usr/bin/env python3
"""replay.py Cnn variant ncases idx  - rebuild and run one case verbosely (VERIF_SEED selects the seed)."""
import os, subprocess, sys, tempfile, shutil
import check
prop, variant, n, idx = sys.argv[1:5]
tmp = tempfile.mkdtemp(prefix="ddv-replay-")
try:
    v, exe, rc, out = check.build(check.PROPS[prop], variant, tmp)
    if rc: print(out); sys.exit(2)
    r = subprocess.run(check.NOASLR + [exe, "--seed", os.environ.get("VERIF_SEED", "1"), "--cases", n, "--only", idx, "-v", "--cpu", "120"], env=check.ENV)
    print("exit", r.returncode)
finally: shutil.rmtree(tmp, ignore_errors=True)
