#!/usr/bin/env python3
"""check.py <property id>: decide one property of /repo by contract-based deductive verification.

1. vx extracts every contract crate concerned from /repo's current source into a Verus file, attaching the
   contracts of contracts/<crate>.vc;
2. Verus must discharge every obligation of the functions, loops and entry points of those crates that the
   property depends on (clauses tagged with the property, plus the untagged helper contracts);
3. a helper function whose own contract fails is taken out of the contract set and verified at its call
   sites through its body instead, so only statements about observable behaviour can raise an alarm;
4. when an obligation of an entry point cannot be discharged, the native harness looks for a concrete call
   history on the real code that breaks the property.
Exit 0: all obligations discharged.  Exit 1: violation.  Exit 2: no answer.
"""
import concurrent.futures as cf, glob, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
VX = os.path.join(VERIF, "tool/target/release/vx")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
RL = 60 if TIER == "quick" else 200
T0 = time.time()
BUDGET = 780 if TIER == "quick" else 3000


def left():
    return BUDGET - (time.time() - T0)


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def crates_of(prop):
    r = []
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts/*.vc"))):
        tags = set()
        for m in re.finditer(r"^@\w+\[([^\]]*)\]", open(f).read(), re.M):
            tags |= {x.strip() for x in m.group(1).split(",")}
        if prop in tags:
            r.append(os.path.basename(f)[:-3])
    return r


def vx(crate, prop, drop, canary, base, weak=(), noauto=()):
    cmd = [VX, "--repo", REPO, "--crate", crate, "--rt", f"{VERIF}/contracts/rt.rs", "--contract", f"{VERIF}/contracts/{crate}.vc",
           "--out", base + ".rs", "--map", base + ".json", "--prop", prop]
    for d in sorted(drop):
        cmd += ["--drop", d]
    for d in sorted(weak):
        cmd += ["--weak", d]
    for d in sorted(noauto):
        cmd += ["--noauto", d]
    if canary:
        cmd.append("--canary")
    rc, _, err = sh(cmd, 60)
    return rc, err.strip()


def verus(base, rlimit, timeout, threads):
    d, f = os.path.split(base)
    rc, out, err = sh(["verus", f + ".rs", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--num-threads", str(threads), "--multiple-errors", "8"], timeout, cwd=d)
    diags = []
    for l in err.splitlines():
        try:
            x = json.loads(l)
        except Exception:
            continue
        if x.get("level") == "error" and x.get("spans"):
            diags.append(x)
    try:
        res = json.loads(out)
    except Exception:
        res = {}
    return rc, res, diags, err


def locate(diag, m):
    """(function key, [failed clauses]) of one Verus diagnostic."""
    fns, cl, callee = [], [], []
    for s in diag["spans"]:
        a, b = s["line_start"], s["line_end"]
        hit = [x for x in m if x["kind"] in ("ens", "req", "prelude") and x["line"] <= b and a <= x["end"]]
        for x in hit:
            if x["kind"] == "prelude":
                fns.append(("prelude", False))
            elif x["kind"] == "req":
                callee.append(x)
            cl.append(x)
        if any(x["kind"] == "req" for x in hit):
            continue
        for x in m:
            if x["kind"] in ("fn", "canary") and x["line"] <= a <= x["end"]:
                fns.append((x["fn"], x.get("entry", False)))
    return fns, cl


def misfits(diags, mj, base):
    """Functions whose contract, and functions whose loop annotations, do not even typecheck against the code any more."""
    loops, st, drop, weak = [], [], set(), set()
    for n, l in enumerate(open(base + ".rs"), 1):
        if l.startswith("//@loop "):
            st.append((l[8:].strip().replace("entry ", ""), n))
        elif l.startswith("//@endloop") and st:
            k, a = st.pop()
            loops.append((k, a, n))
    con = set(mj["contracted"])
    for x in diags:
        for s in x["spans"]:
            if not s.get("is_primary", True):
                continue
            a = s["line_start"]
            cl = [m["fn"] for m in mj["map"] if m["kind"] in ("ens", "req") and m["line"] <= a <= m["end"]]
            drop |= {f for f in cl if f in con}
            if cl:
                continue
            lp = sorted((b - y, k) for k, y, b in loops if y <= a <= b)
            if lp:
                weak.add(lp[0][1])
                continue
            drop |= {m["fn"] for m in mj["map"] if m["kind"] == "fn" and m["line"] <= a <= m["end"] and m["fn"] in con}
    return drop, weak


def weak_fns(mj, base):
    """Functions and entry points whose verified text contains a loop for which no annotation fits."""
    w = [n for n, l in enumerate(open(base + ".rs"), 1) if l.startswith("//@weak")]
    return {m["fn"] for m in mj["map"] if m["kind"] == "fn" and any(m["line"] <= n <= m["end"] for n in w)}


class Res:
    pass


def run_crate(crate, prop, threads):
    """Verify one crate for one property."""
    wd = os.path.join(VERIF, "work", prop)
    os.makedirs(wd, exist_ok=True)
    base = os.path.join(wd, crate.replace("-", "_"))
    r = Res()
    r.crate, r.status, r.detail, r.failed, r.drop, r.smt_ms, r.rounds, r.raw = crate, "", "", [], set(), 0, 0, ""
    r.verified = r.errors = 0
    drop, nodrop, weak, noauto = set(), set(), set(), set()
    rl = RL
    last = set()
    while True:
        r.rounds += 1
        rc, err = vx(crate, prop, drop, False, base, weak, noauto)
        if rc != 0 and last:
            # a helper that cannot be verified through its body at its call sites is judged by its own contract
            drop -= last
            nodrop |= last
            last = set()
            continue
        if rc != 0:
            r.status, r.detail = "unsupported", err
            return r
        mj = json.load(open(base + ".json"))
        r.map = mj
        if mj["missing_entries"]:
            r.status, r.detail = "unsupported", "lost anchor: exported method(s) " + ", ".join(mj["missing_entries"])
            return r
        tmo = max(30, min(left() - 20, 420 if TIER == "quick" else 1500))
        rc, res, diags, err = verus(base, rl, tmo, threads)
        r.raw = err
        vr = res.get("verification-results", {})
        t = res.get("times-ms", {})
        r.smt_ms += (t.get("smt", {}) or {}).get("smt-run", 0) or 0
        r.verified, r.errors = vr.get("verified", 0), vr.get("errors", 0)
        if rc == 124:
            r.status, r.detail = "timeout", "Verus did not finish in time"
            return r
        if vr.get("success") and not diags:
            r.status = "proved"
            r.drop = drop
            return r
        if not vr or vr.get("encountered-vir-error") or r.errors == 0:
            d, wk = misfits(diags, mj, base)
            if r.rounds < 10 and left() > 90 and ((d - drop - nodrop) or (wk - weak)):
                drop |= d - nodrop
                weak |= wk
                last = set()
                continue
            r.status = "unsupported"
            r.detail = "; ".join(x["message"] for x in diags)[:1500] or err[:1500]
            return r
        # guessed frame invariants of loops without annotations: keep those that hold
        lines = open(base + ".rs").read().split("\n")
        wrong = {m.group(1) for x in diags for s in x["spans"] for l in lines[s["line_start"] - 1:s["line_end"]] for m in [re.search(r"//@auto (\S+)$", l)] if m}
        if wrong - noauto and left() > 90:
            noauto |= wrong
            r.rounds -= 1
            continue
        bad_inner, failed, rlim = set(), [], False
        for x in diags:
            fns, cl = locate(x, mj["map"])
            rl_x = "rlimit" in x["message"].lower() or "resource limit" in x["message"].lower()
            names = sorted({f for f, _ in fns})
            clauses = [c for c in cl if c["kind"] in ("ens", "req")]
            inner = {f for f, e in fns if not e and f != "prelude"}
            if inner - nodrop:
                bad_inner |= inner
            else:
                text = [c["text"] for c in clauses]
                if not text and "invariant" in x["message"]:
                    text = sorted({re.sub(r"\s*,?\s*(//@auto.*)?$", "", lines[s["line_start"] - 1]).strip() for s in x["spans"] if not lines[s["line_start"] - 1].lstrip().startswith("while")})
                failed.append({"fn": names[0] if names else "?", "msg": x["message"], "clauses": text, "rlimit": rl_x,
                               "rendered": x.get("rendered", "")[:3000]})
            rlim = rlim or rl_x
        if "prelude" in [f["fn"] for f in failed]:
            r.status, r.detail = "unsupported", "a lemma over the data structures no longer verifies: " + failed[0]["rendered"]
            return r
        if bad_inner and left() > 90:
            new = {f for f in bad_inner if f not in drop and f not in nodrop}
            if new and r.rounds < 14:
                drop |= new
                last = new
                continue
        if rlim and rl < 4 * RL and left() > 200:
            rl *= 4
            continue
        r.drop = drop
        r.failed = failed
        if failed and all(f["rlimit"] for f in failed):
            r.status, r.detail = "timeout", "the solver gave up (resource limit) on " + ", ".join(sorted({f["fn"] for f in failed}))
        else:
            r.status = "failed"
            r.failed = [f for f in failed if not f["rlimit"]] or failed
            wf = weak_fns(mj, base)
            if all(f["fn"] in wf for f in r.failed):
                r.status, r.detail = "unsupported", "no invariant fits the rewritten loop in " + ", ".join(sorted({f["fn"] for f in r.failed}))
        return r


def run_canary(crate, prop, threads):
    """Every function must be unable to prove `false`: guards against vacuous contracts."""
    wd = os.path.join(VERIF, "work", prop)
    os.makedirs(wd, exist_ok=True)
    base = os.path.join(wd, crate.replace("-", "_") + "_canary")
    rc, err = vx(crate, prop, set(), True, base)
    if rc != 0:
        return None, []
    mj = json.load(open(base + ".json"))
    rc, res, diags, err = verus(base, 20, 240, threads)
    bad = set()
    for x in diags:
        for s in x["spans"]:
            for e in mj["map"]:
                if e["kind"] == "canary" and e["line"] <= s["line_start"] <= e["end"]:
                    bad.add(e["fn"])
    allc = {e["fn"] for e in mj["map"] if e["kind"] == "canary"}
    return len(allc), sorted(allc - bad)


def witness(crate, prop, why):
    """Looks for a concrete failing call history on the real code.  Returns (path, text) or None; raises if it cannot run."""
    h = os.path.join(VERIF, "harness", "witness.py")
    if not os.path.exists(h) or os.environ.get("NO_WITNESS"):
        return "none", None
    b = int(max(20, min(left() - 15, 150 if TIER == "quick" else 600)))
    out = os.path.join(VERIF, "evidence", "replay", f"{prop}-{crate}.txt")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    rc, o, e = sh([sys.executable, h, crate, prop, str(SEED), str(b), out], b + 400)
    if rc == 1:
        return "found", out
    if rc == 0:
        return "clean", o.strip()
    return "none", (o + e)[-2000:]


def trusted(files):
    tb, n = [], 0
    for f in files:
        if not os.path.exists(f):
            continue
        t = open(f).read()
        names = re.findall(r"external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(?:proof\s+)?fn\s+(\w+)", t)
        un = re.findall(r"uninterp spec fn (\w+)", t)
        tb += names + un
    return sorted(set(tb))


def main():
    prop = sys.argv[1]
    crates = crates_of(prop)
    if not crates:
        print(f"{prop}: no contracts")
        sys.exit(2)
    if not os.path.exists(VX):
        rc, o, e = sh(["cargo", "build", "--release", "--offline"], 900, cwd=os.path.join(VERIF, "tool"))
    thr = max(1, 8 // len(crates)) if len(crates) > 1 else 6
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        fr = {c: ex.submit(run_crate, c, prop, thr) for c in crates}
        fc = {c: ex.submit(run_canary, c, prop, max(1, thr // 2)) for c in crates}
        res = [fr[c].result() for c in crates]
        can = {c: fc[c].result() for c in crates}
    violations, noanswer, bounded, notes = [], [], [], []
    for r in res:
        if r.status == "proved":
            continue
        print(f"{prop}: {r.crate}: {r.status} {r.detail}")
        for f in r.failed:
            print(f"  undischarged: {f['fn']}: {f['msg']}: {' | '.join(f['clauses'])}")
        w, info = witness(r.crate, prop, r)
        rp = os.path.join(VERIF, "evidence", "replay", f"{prop}-{r.crate}.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        text = f"property {prop}, crate {r.crate}: {r.status} {r.detail}\n" + "\n".join(
            f"undischarged obligation in {f['fn']}: {f['msg']}\n  {' | '.join(f['clauses'])}\n{f['rendered']}" for f in r.failed)
        if w == "found":
            with open(rp, "a") as fh:
                fh.write("\n\n---- verifier ----\n" + text)
            violations.append((r, f"VIOLATION property={prop} replay={rp}"))
        elif r.status == "failed":
            with open(rp, "w") as fh:
                fh.write(text + f"\n\nharness: {w} {info}\n\n---- verifier output ----\n" + r.raw[:20000])
            violations.append((r, f"VIOLATION property={prop} replay={rp} no-failing-input-found"))
        elif w == "clean":
            bounded.append((r.crate, r.detail, info))
        else:
            noanswer.append((r, info))
    known = []
    kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if os.path.exists(kf):
        for k in json.load(open(kf)):
            if k.get("property") == prop and k.get("status") == "known":
                known.append(k)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    files = [os.path.join(VERIF, "work", prop, c.replace("-", "_") + ".rs") for c in crates]
    nob = sum(r.verified + r.errors for r in res)
    ndis = sum(r.verified for r in res)
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "vx (extraction) ; verus FILE.rs --output-json --rlimit %d" % RL,
        "trusted_base": trusted(files),
        "back_end": "Verus 0.2026.09.13 / Z3 (bundled)",
        "obligation_unit": "one Verus verification query: a function with its postconditions, the preconditions of every call, its loop invariants and its termination measure, or a lemma",
        "solver_ms": sum(r.smt_ms for r in res),
        "crates": [{
            "crate": r.crate, "status": r.status, "detail": r.detail, "rounds": r.rounds,
            "functions_under_contract": sorted(set((getattr(r, "map", None) or {}).get("contracted", [])) - set(r.drop)),
            "inlined_after_contract_failure": sorted(r.drop),
            "entry_points": (getattr(r, "map", None) or {}).get("exported", []),
            "clauses_decided": sum(1 for x in (getattr(r, "map", None) or {}).get("map", []) if x["kind"] == "ens"),
            "property_clauses": sum(1 for x in (getattr(r, "map", None) or {}).get("map", []) if x["kind"] == "ens" and prop in x["tags"]),
            "canaries": can[r.crate][0], "vacuous": can[r.crate][1],
        } for r in res],
        "bounded_stand_ins": [{"crate": c, "why": d, "run": i} for c, d, i in bounded],
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - T0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for c, d, i in bounded:
        print(f"{prop}: {c}: not proved ({d}); bounded native exploration found nothing: {i}")
    if violations:
        for r, l in violations:
            print(l)
        sys.exit(1)
    if noanswer:
        for r, i in noanswer:
            print(f"{prop}: {r.crate}: no answer: {r.detail}")
            if i:
                print(i)
        sys.exit(2)
    nf = sum(len((getattr(r, "map", None) or {}).get("contracted", [])) for r in res)
    print(f"{prop}: held: {ndis}/{nob} obligations discharged over {', '.join(crates)} in {time.time()-T0:.1f}s")
    sys.exit(0)


ASSUME = [
    "the shim contracts of contracts/rt.rs describe near-sdk's environment, collections, promises and serialisation (listed in trusted_base; not verified here)",
    "a panic rolls the whole call back, so postconditions speak about calls that return; the calls that must not panic have separate obligations",
    "the calls proved never refused are given enough gas, answers of the expected type, amounts within the native token supply and no loss of stake by slashing, as each obligation states",
    "vx's extraction preserves meaning: it drops logging arguments' text, panic messages, #[derive]d trait implementations, borrow-only conversions, gas and storage accounting, test code",
    "near_bindgen's generated wrapper is represented by the payable, private, init and callback rules that vx emits per exported method",
    "collections iterate in an unspecified but duplicate-free order; distinct storage prefixes hold disjoint data",
    "Verus and Z3 are sound",
]
if __name__ == "__main__":
    main()
