#!/bin/bash
# Prebuilds every contract of $REPO (default /repo) to WebAssembly under ../work/wasm, so that a check that needs the compiled
# contract (to replay or search for a failing history) only rebuilds what changed.  A contract that does not build is left to the check.
cd "$(dirname "$0")"
export REPO=${REPO:-/repo}
python3 - <<'P'
import sys, os, tempfile
sys.path.insert(0, ".")
import witness
d = tempfile.mkdtemp()
for c in ["whitelist", "staking-pool", "voting", "multisig", "multisig2", "lockup", "w-near", "staking-pool-factory", "multisig-factory", "lockup-factory", "state-manipulation"]:
    try:
        rc, log = witness.build(c, os.path.join(d, c + ".wasm"), 600)
        print("wasm", c, "built" if rc == 0 else "FAILED " + log[-300:])
    except Exception as e:
        print("wasm", c, "not built:", e)
import shutil
shutil.rmtree(d, ignore_errors=True)
P
