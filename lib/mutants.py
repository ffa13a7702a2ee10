#!/usr/bin/env python3
"""mutants.py CRATE [WORKERS [THREADS [FILTER]]]: a development aid, not a check.

Changes one token or statement of CRATE at a time (in a scratch copy under /tmp/mut) and lets the verifier judge the result with
all contracts of the crate.  Prints the changes the verifier accepts: each is either without effect on what the properties say,
or something the contracts miss.  Changes that do not compile are counted as rejected.
"""
import os, re, shutil, sys, time, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check

CRATE = sys.argv[1]
SWAPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"(?<=[(&| ])!(?=[a-z(])", ""),
         (r"predecessor_account_id\(\)", "signer_account_id()"), (r"predecessor_account_id\(\)", "current_account_id()"), (r"current_account_id\(\)", "predecessor_account_id()"),
         (r"signer_account_pk", "signer_account_pk"), (r"attached_deposit\(\)", "account_balance()"), (r"env::account_balance\(\)", "env::attached_deposit()"),
         (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.insert\(", ".remove("), (r"saturating_sub", "wrapping_sub"), (r"\bSome\(([a-z_.]+)\)(?= *[;,\n}])", "None"),
         (r"account_locked_balance\(\)", "account_balance()"), (r"\.is_ok\(\)", ".is_err()"), (r"PromiseResult::Successful", "PromiseResult::Failed"),
         (r"num_shares_from_staked_amount_rounded_up", "num_shares_from_staked_amount_rounded_down"), (r"num_shares_from_staked_amount_rounded_down", "num_shares_from_staked_amount_rounded_up"),
         (r"staked_amount_from_num_shares_rounded_up", "staked_amount_from_num_shares_rounded_down"), (r"staked_amount_from_num_shares_rounded_down", "staked_amount_from_num_shares_rounded_up")]


def code(src):
    """Offsets of the code proper: no comments, strings or tests."""
    ok = bytearray(b"\1" * len(src))
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|#!?\[[^\]]*\]", src, re.S):
        for i in range(m.start(), m.end()):
            ok[i] = 0
    m = re.search(r"#\[cfg\((?:all\()?(?:test|not\(target_arch)", src)
    for m in re.finditer(r"#\[cfg\((?:all\()?test", src):
        for i in range(m.start(), len(src)):
            ok[i] = 0
        break
    return ok


def mutants(path, src):
    ok = code(src)
    out = []
    for pat, to in SWAPS:
        for m in re.finditer(pat, src):
            if ok[m.start()] and m.expand(to) != m.group(0):
                out.append((m.start(), m.end(), m.expand(to)))
    for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.])", src):
        if ok[m.start()]:
            out.append((m.start(), m.end(), str(int(m.group(1).replace("_", "")) + 1)))
            if int(m.group(1).replace("_", "")) > 1:
                out.append((m.start(), m.end(), str(int(m.group(1).replace("_", "")) - 1)))
    # one-line and many-line statements that end in `;` and do not bind or leave
    for m in re.finditer(r"^([ \t]+)(?!\s|let |return|use |pub |const |type |mod |fn |\}|//)([^\n;{}]*(?:\n\1[ \t.)\]}][^\n;]*)*);[ \t]*$", src, re.M):
        if all(ok[m.start(2):m.start(2) + 3]) and src[:m.start()].count("{") > src[:m.start()].count("}") and not re.search(r"^\s*(pub )?fn ", m.group(2), re.M):
            out.append((m.start(2), m.end(), ""))
    # arguments in the other order
    for m in re.finditer(r"\(([a-z_.]+), ([a-z_.]+)\)", src):
        if ok[m.start()]:
            out.append((m.start(), m.end(), f"({m.group(2)}, {m.group(1)})"))
    return out


def job(a):
    rel, s, e, to = a
    me = mp.current_process()._identity[0]
    repo = f"/tmp/mut/{CRATE}-{me}"
    if not os.path.exists(repo):
        os.makedirs(repo)
        os.system(f"cd /repo && git archive HEAD | tar x -C {repo} --exclude='*.wasm' --exclude=tests")
    p = os.path.join(repo, rel)
    src = open(os.path.join("/repo", rel)).read()
    open(p, "w").write(src[:s] + to + src[e:])
    check.REPO, check.T0 = repo, time.time()
    try:
        r = check.run_crate(CRATE, f"mut-{CRATE}-{me}", THR)
        return a, r.status, r.detail[:200]
    except Exception as x:
        return a, "error", repr(x)[:200]
    finally:
        open(p, "w").write(src)


def vx(crate, prop, drop, canary, base, weak=(), noauto=()):
    cmd = [check.VX, "--repo", check.REPO, "--crate", crate, "--rt", f"{check.VERIF}/contracts/rt.rs", "--contract", f"{check.VERIF}/contracts/{crate}.vc", "--out", base + ".rs", "--map", base + ".json"]
    for f, l in (("--drop", drop), ("--weak", weak), ("--noauto", noauto)):
        for d in sorted(l):
            cmd += [f, d]
    rc, _, err = check.sh(cmd, 60)
    return rc, err.strip()


THR = int(sys.argv[3]) if len(sys.argv) > 3 else 3
check.vx = vx


def main():
    jobs = []
    d = os.path.join("/repo", CRATE, "src")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs") or "test" in f:
            continue
        rel = f"{CRATE}/src/{f}"
        src = open(os.path.join("/repo", rel)).read()
        for s, e, to in sorted(set(mutants(rel, src))):
            jobs.append((rel, s, e, to))
    if len(sys.argv) > 4:
        jobs = [j for j in jobs if re.search(sys.argv[4], j[0])]
    n = {}
    with mp.Pool(int(sys.argv[2]) if len(sys.argv) > 2 else 2) as pool:
        for (rel, s, e, to), st, det in pool.imap_unordered(job, jobs):
            n[st] = n.get(st, 0) + 1
            if st == "proved" or st == "timeout" or st == "error" or det.startswith(("no invariant", "lost")) or det.startswith("vx:") and "cannot parse" not in det:
                src = open(os.path.join("/repo", rel)).read()
                ln = src[:s].count("\n") + 1
                line = src[src.rfind("\n", 0, s) + 1:src.find("\n", e)]
                print(f"{st} {rel}:{ln} [{src[s:e]!r} -> {to!r}] {re.sub(chr(10) + ' *', ' ', line.strip())[:150]} {det}", flush=True)
    print(CRATE, len(jobs), n, flush=True)


if __name__ == "__main__":
    main()
