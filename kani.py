#!/usr/bin/env python3
"""kani.py C01|C21 quick|thorough: decides one property with Kani and writes its evidence.
A failed obligation is reported as a violation when the real code, called natively, fails too."""
import json, os, re, shutil, subprocess, sys, time, tomllib

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
ID, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
T0 = time.time()
LIMIT = 780 if TIER == "quick" else 3000


def sh(cmd, cwd, timeout, **env):
    p = subprocess.Popen(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


def native():
    """the native sampler, built against /repo"""
    rc, out = sh(["cargo", "build", "--offline", "--release"], os.path.join(V, "kani"), 300, CARGO_TARGET_DIR=os.path.join(B, "kn"))
    if rc != 0:
        print(out[-3000:])
        sys.exit(2)
    return os.path.join(B, "kn", "release", "pkani")


def extract():
    """a copy of /repo's sources in which the standard HashMap is replaced by its contract"""
    d = os.path.join(B, "kc")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    n = 0
    for root, _, files in os.walk("/repo/src"):
        for f in files:
            if not f.endswith(".rs"):
                continue
            s = open(os.path.join(root, f)).read()
            t, k = re.subn(r"\bstd::collections\b", "crate::fpv_model", s)
            n += k
            o = os.path.join(d, "src", os.path.relpath(os.path.join(root, f), "/repo/src"))
            os.makedirs(os.path.dirname(o), exist_ok=True)
            if os.path.relpath(o, d) == "src/lib.rs":
                t += "\n#[cfg(kani)]\npub mod fpv_model;\n#[cfg(kani)]\nmod proofs;\n"
            open(o, "w").write(t)
    shutil.copy(os.path.join(V, "kani/cache/model.rs"), os.path.join(d, "src/fpv_model.rs"))
    shutil.copy(os.path.join(V, "kani/cache/proofs.rs"), os.path.join(d, "src/proofs.rs"))
    c = tomllib.load(open("/repo/Cargo.toml", "rb"))
    t = '[package]\nname = "pkani"\nversion = "0.1.0"\nedition = "%s"\n\n[lib]\n\n[dependencies]\n' % c["package"].get("edition", "2021")
    for k, v in c.get("dependencies", {}).items():
        v = v if isinstance(v, dict) else {"version": v}
        t += k + " = { " + ", ".join(f"{a} = {json.dumps(b)}" for a, b in v.items()) + " }\n"
    t += "\n[workspace]\n"
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    lock = open(os.path.join(V, "kani/Cargo.lock")).read()
    lock = re.sub(r'\[\[package\]\]\nname = "puruspe"\n.*?\n\n(?=\[\[package|\Z)', "", lock, flags=re.S)
    open(os.path.join(d, "Cargo.lock"), "w").write(lock)
    return d, n


def parse(out):
    """per harness: verdict, number of checks, failed checks, concrete values"""
    r = {}
    # -j prints the results of its threads mixed
    threads, cur = {}, {}
    for k, part in re.findall(r"(?ms)^(Thread \d+: |(?=Checking harness ))(.*?)(?=^Thread \d+: |^Checking harness |\Z)", out):
        m = re.match(r"Checking harness (.*?)\.\.\.", part)
        if m:
            cur[k] = m.group(1).strip()
        if k in cur:
            threads[cur[k]] = threads.get(cur[k], "") + part
    for name, part in threads.items():
        m = re.search(r"\*\* (\d+) of (\d+) failed", part)
        v = re.search(r"VERIFICATION:- (\w+)", part)
        t = re.search(r"Verification Time: ([\d.]+)s", part)
        fails = re.findall(r"Status: FAILURE\s+- Description: \"(.*?)\"", part)
        fails += [s.strip() for s in re.findall(r"(?m)^Failed Checks: (.*)$", part)]
        undet = len(re.findall(r"Status: (?:UNDETERMINED|UNREACHABLE_FAIL)", part))
        covers = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", part)
        vals = re.findall(r"(?m)^\s*vec!\[([\d, ]+)\],?$", part)
        solver = "CaDiCaL" if "CaDiCaL" in part else ("MiniSat" if "MiniSat" in part else "SAT")
        r[name] = dict(verdict=v.group(1) if v else "NONE", checks=int(m.group(2)) if m else 0, failed=int(m.group(1)) if m else 0,
                       fails=sorted(set(fails)), undet=undet, covers=(int(covers.group(1)), int(covers.group(2))) if covers else None,
                       vals=[[int(x) for x in v.split(",")] for v in vals], secs=float(t.group(1)) if t else 0.0, solver=solver, text=part[-6000:])
    return r


def run(crate, target, harnesses):
    base = ["cargo", "kani", "-Z", "function-contracts", "-Z", "stubbing", "--target-dir", target]
    sel = [a for h in harnesses for a in ("--harness", "proofs::" + h)] + ["--exact"]
    rc, out = sh(base + sel + ["-j", "8", "--output-format=terse"], crate, max(30, LIMIT - (time.time() - T0)))
    res = {k.replace("proofs::", ""): v for k, v in parse(out).items()}
    if rc is None:
        return res, ["time limit"]
    if not res:
        return res, ["Kani cannot compile the crate: " + out[-400:]]
    for h, r in res.items():
        # the values of a failing contract
        if r["verdict"] != "SUCCESSFUL" and h.startswith("c01") and "guard" not in h:
            _, o = sh(base + ["--harness", "proofs::" + h, "--exact", "-Z", "concrete-playback", "--concrete-playback=print"], crate, max(30, LIMIT - (time.time() - T0)))
            for q in parse(o).values():
                r["vals"], r["text"] = q["vals"], q["text"]
    return res, []


def f64hex(b):
    return "%x" % int.from_bytes(bytes(b), "little")


def violation(call, why, obligation, out=""):
    d = os.path.join(V, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{ID}.txt")
    open(p, "w").write(f"kani {call}\nproperty {ID}\nobligation {obligation}\nwhat {why}\n{out}\n")
    print(f"{why}\nVIOLATION property={ID} replay={p}")
    return p


FUNCS = {"C01": ["utils::frexp", "utils::ldexp", "utils::sign"],
         "C21": [f"{t}::{f}" for t, g in [("CachedBesselJY", "besseljy"), ("CachedBesselIK", "besselik"), ("CachedJnuYnu", "Jnu_Ynu"), ("CachedInuKnu", "Inu_Knu")]
                 for f in [g, "new", "default", "with_capacity", "contains", "get", "len", "is_empty", "clear", "retain", "reserve", "shrink_to_fit", "clone"]]}


def main():
    sample = native()
    viol = None
    assume = ["std::collections::HashMap behaves as a map (its contract is kani/cache/model.rs)"] if ID == "C21" else []
    if ID == "C01":
        crate, hs, guards = os.path.join(V, "kani"), ["c01_frexp", "c01_ldexp", "c01_sign"], ["c01_guard"]
        dropped = "nothing: the crate is compiled as it is"
    else:
        crate, n = extract()
        hs = [f"{m}::{f}" for m in ["jy", "ik", "jnuynu", "inuknu"] for f in ["compute", "look", "remove", "create"]]
        guards = [f"{m}::guard" for m in ["jy", "ik", "jnuynu", "inuknu"]]
        dropped = f"{n} paths std::collections replaced by the contract of HashMap; besseljy and besselik stand for any function of the bits of their arguments"
    got = run(crate, os.path.join(B, "kt-" + ID), hs + guards)
    res, undecided = got
    proved, obligations, secs = [], 0, 0.0
    for h in hs:
        r = res.get(h)
        if r is None:
            undecided.append(h) if not any(u.startswith(h) for u in undecided) else None
            continue
        secs += r["secs"]
        obligations += r["checks"]
        if r["verdict"] == "SUCCESSFUL" and r["failed"] == 0 and r["checks"] > 0:
            if r["covers"] and r["covers"][0] != r["covers"][1]:
                undecided.append(f"{h}: a case of the contract is unreachable")
            else:
                proved.append(h)
            continue
        undecided.append(f"{h}: {r['verdict']} {r['fails'][:3]}")
        # replay the counterexample on the real code
        v = r["vals"]
        call = None
        if h == "c01_frexp" and v:
            call = f"frexp {f64hex(v[0])}"
        elif h == "c01_ldexp" and len(v) > 1:
            call = f"ldexp {f64hex(v[0])} {f64hex(v[1])}"
        elif h == "c01_sign" and len(v) > 1:
            call = f"sign {f64hex(v[0])} {f64hex(v[1])}"
        if call and viol is None:
            rc, out = sh([sample, "one", call], V, 60)
            if rc == 1:
                viol = violation(call, out.strip().replace("FAILS ", ""), h, r["text"])
    bad_guards = [g for g in guards if g in res and res[g]["verdict"] != "SUCCESSFUL"]
    # bounded part: the real code natively, longer where a proof is missing
    secs_n = 3 if not undecided else 40
    if TIER == "thorough":
        secs_n *= 10
    rc, out = sh([sample, ID, str(secs_n)], V, secs_n + 120)
    m = re.search(r"SAMPLES (\d+)", out)
    samples = int(m.group(1)) if m else 0
    c = re.search(r"(?m)^CALL (.*)$", out)
    if c and viol is None:
        w = re.search(r"(?m)^WHY (.*)$", out)
        viol = violation(c.group(1), w.group(1) if w else "", "native sample" if not undecided else "; ".join(undecided)[:500])
    if bad_guards:
        print("guard: expected to fail but does not:", bad_guards)
    ev = {
        "property": ID, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": sum(res[h]["checks"] for h in proved),
            "contracts": [f"{h}: {'proved' if h in proved else 'not proved'}, {res.get(h, {}).get('checks', 0)} obligations" for h in hs],
            "functions_under_contract": FUNCS[ID], "native_samples": samples, "undecided": undecided,
            "guards": [f"{g}: {'fails as it must' if g not in bad_guards else 'DOES NOT FAIL'}" for g in guards if g in res],
            "extraction_drops": dropped, "back_end": "Kani 0.68, CBMC 6.11, CaDiCaL", "solver_seconds": round(secs, 1),
            "checker_cmd": f"/verif/check.sh {ID} {TIER}",
            "trusted_base": ["Kani and CBMC, and their semantics of Rust and IEEE-754", "rustc", "the specification: " + ("kani/src/spec.rs" if ID == "C01" else "kani/cache/proofs.rs")],
        },
        "assumptions": assume, "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", ID + ".json"), "w"), indent=1)
    print(f"{ID} {TIER}: {len(proved)} of {len(hs)} contracts proved, {obligations} obligations, {samples} native samples, {len(undecided)} undecided, {time.time()-T0:.0f} s")
    for u in undecided:
        print("undecided", u[:300])
    sys.exit(1 if viol else 0)


main()
