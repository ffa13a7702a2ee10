#!/usr/bin/env python3
"""witness.py CRATE PROP SEED BUDGET OUT: looks for a concrete failing call history on the real compiled contract.

Builds CRATE of $REPO to WebAssembly and runs harness/drive.js on it, in parallel over several seeds, for at most BUDGET
seconds (build included).  Exit 1: found, written to OUT.  Exit 0: none found.  Exit 2: could not run.
"""
import os, re, shutil, subprocess, sys, tempfile, time

H = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
# The prebuilt dependencies and the copy of the sources they were built for (see build.sh); REPO elsewhere gets its own copy.
WORK = os.path.join(os.path.dirname(H), "work", "wasm" if REPO == "/repo" else "wasm-" + re.sub(r"\W", "_", REPO))


def build(crate, out, timeout):
    e = dict(os.environ, CARGO_PROFILE_RELEASE_LTO="off", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="16", CARGO_PROFILE_RELEASE_OPT_LEVEL="1")
    os.makedirs(WORK, exist_ok=True)
    p = subprocess.run(["bash", os.path.join(H, "wasm.sh"), crate, out, REPO, os.path.join(WORK, "target"), os.path.join(WORK, "ws")],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    crate, prop, seed, budget, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="witness-")
    try:
        try:
            rc, log = build(crate, os.path.join(d, crate + ".wasm"), max(budget, 240))
        except subprocess.TimeoutExpired:
            print("building the contract took too long")
            return 2
        if rc != 0:
            print("the contract does not build:\n" + log[-1500:])
            return 2
        secs = max(8, int(budget - (time.time() - t0) - 18))
        n = min(8, os.cpu_count() or 4)
        ps = []
        for i in range(n):
            o = os.path.join(d, f"out{i}.txt")
            ps.append((subprocess.Popen(["node", os.path.join(H, "drive.js"), crate, prop, str(seed * 64 + i), str(secs), o, d, REPO],
                                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), o))
        found, clean, bad, info = None, 0, None, []
        pending = list(ps)
        while pending and not found:
            time.sleep(0.2)
            for x in list(pending):
                p, o = x
                if p.poll() is None:
                    continue
                pending.remove(x)
                txt = p.stdout.read()
                if p.returncode == 1 and os.path.exists(o):
                    found = o
                    info = [txt.strip()]
                    break
                if p.returncode == 0:
                    clean += 1
                    info.append(txt.strip().split("\n")[0])
                    last = txt.strip()
                else:
                    bad = txt.strip()[-1500:]
            if time.time() - t0 > budget + 60:
                break
        for p, _ in ps:
            if p.poll() is None:
                p.kill()
            p.wait()
        if found:
            shutil.copy(found, out)
            print("\n".join(info))
            return 1
        if bad is not None or clean < n:
            print(bad or "workers did not finish")
            return 2
        h = sum(int(re.match(r"(\d+) histories", i).group(1)) for i in info)
        c = sum(int(re.search(r"(\d+) calls", i).group(1)) for i in info)
        k = sum(int(re.search(r"\((\d+) successful", i).group(1)) for i in info)
        print(f"bounded: {h} random histories, {c} calls ({k} successful) on the compiled contract, {n} seeds x {secs} s; " + last.split("\n")[-1])
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
