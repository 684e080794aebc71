#!/usr/bin/env python3
"""check.py PROPERTY -- decides one property; see DESIGN.md for the layers.

 V  Verus (Z3) on functions extracted mechanically from /repo on this run (unbounded, deciding)
 K  Kani (CBMC) contract harnesses on the compiled code of /repo
 S  the same harnesses compiled natively: counterexample replay and seeded sampling
Exit 0: nothing violated.  Exit 1 and a VIOLATION line otherwise.
"""
import json, os, re, subprocess, sys, threading, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from config import CHECKS, TRUSTED_COMMON
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER") or "quick"
if len(sys.argv) > 2: TIER = sys.argv[2]
SEED = int(os.environ.get("VERIF_SEED", "1"))
C = CHECKS[PID]
BUDGET = 780 if TIER == "quick" else float(os.environ.get("VERIF_THOROUGH_SECS", "3300"))
LOCK = threading.Lock()

def log(*a):
    with LOCK: print(*a, flush=True)
def left(): return BUDGET - (time.time() - T0)
def run(cmd, timeout, cwd=None, env=None):
    """returns (rc, stdout, stderr); rc None on timeout. Kills the whole process group."""
    import signal
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout)); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate(); return None, o, e

# ---------------------------------------------------------------- native layer
class Native:
    def __init__(self, crate):
        self.crate, self.ok, self.err, self.bin, self.t = crate, False, "", None, 0
    def build(self):
        t = time.time()
        from shells import prepare
        d = prepare(self.crate, ROOT, REPO, BUILD)
        tgt = os.path.join(BUILD, "native")
        env = dict(os.environ, RUSTFLAGS="--cfg sunscreen_verif -Awarnings", CARGO_TARGET_DIR=tgt)
        rc, o, e = run(["cargo", "build", "--offline", "--quiet"], 600, cwd=d, env=env)
        self.bin = os.path.join(tgt, "debug", "h_" + self.crate)
        self.ok, self.err, self.t = rc == 0 and os.path.exists(self.bin), e[-3000:], time.time() - t
        return self.ok
    def list(self):
        rc, o, e = run([self.bin, "list"], 60); return o.split() if rc == 0 else []
    def replay(self, h, vals, timeout=300):
        rc, o, e = run([self.bin, "replay", h, vals], timeout); return rc, o + e
    def sample(self, h, count, secs):
        return run([self.bin, "sample", h, str(count), str(SEED), str(int(secs))], secs * 6 + 60)

VIOL = []      # (replay dict, found:bool)
KNOWN = []     # text
def known_entries():
    p = os.path.join(ROOT, "known_findings.txt"); out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == PID: out.append((m.group(2), m.group(3)))
    return out
def violation(key, found, **info):
    for k, text in known_entries():
        if k == key:
            with LOCK:
                if text not in KNOWN: KNOWN.append(text)
            return
    with LOCK: VIOL.append((dict(property=PID, key=key, tier=TIER, seed=SEED, **info), found))

SAMPLED, UNDECIDED = [], []
def sample_one(nat, h, count, secs):
    rc, o, e = nat.sample(h, count, secs)
    m = re.search(r"SAMPLED \S+ ran=(\d+) rejected=(\d+) distinct=(\d+) first=(\S*)", o)
    if m and rc == 0:
        with LOCK: SAMPLED.append((h, int(m.group(1)), int(m.group(2)), int(m.group(3)), m.group(4))); return
    v = re.search(r"VIOLATED (\S+) index=(\d+) seed=(\d+) message=(.*)", o)
    if v:
        vals = re.search(r"VALUES (\S*)", o); vals = vals.group(1) if vals else ""
        violation(h, True, layer="native contract evaluation on the real code", harness=h, message=v.group(4)[:500], values=vals if len(vals) < 20000 else "(long; rerun the sample command)",
                  reproduce=f"{nat.bin} sample {h} {count} {SEED} {int(secs)}  (case index {v.group(2)})")
        return
    if rc is not None and rc < 0 and rc not in (-9, -15):
        violation(h, True, layer="native contract evaluation on the real code", harness=h, message=f"process ended by signal {-rc}", reproduce=f"{nat.bin} sample {h} {count} {SEED} {int(secs)}", stderr=e[-800:])
        return
    with LOCK: UNDECIDED.append(f"native {h}: rc={rc} {e[-200:]}")

# ---------------------------------------------------------------- kani layer
KRES = {}      # harness -> dict(status, time, checks)
KBUILD = {"t": 0.0, "err": ""}
def kani_base(crate):
    return ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks", "--target-dir", os.path.join(BUILD, "kani-" + crate)]
def kani_run(crate, harnesses, per, jobs, nat):
    if not harnesses: return
    from shells import prepare
    d = prepare(crate, ROOT, REPO, BUILD)
    env = dict(os.environ); env.pop("RUSTFLAGS", None)
    outd = os.path.join(BUILD, "kani-out-" + PID); shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
    js = os.path.join(outd, "r.json")
    cmd = kani_base(crate) + ["--output-format", "terse", "--exact", "-j", str(jobs), "--harness-timeout", f"{int(per)}s"]
    for h in harnesses: cmd += ["--harness", h]
    t = time.time()
    total = 120 + per * (1 + len(harnesses) / jobs)
    rc, o, e = run(cmd, min(left() - 20, total), cwd=d, env=env)
    KBUILD["t"] = time.time() - t
    cur = {}
    def slot(line):
        m = re.match(r"Thread (\d+): ?(.*)", line)
        return (m.group(1), m.group(2)) if m else (None, line)
    blocks = {}
    last = None
    for line in o.splitlines():
        th, body = slot(line)
        m = re.search(r"Checking harness (\S+?)\.\.\.", body)
        if m: cur[th] = m.group(1); last = th; blocks.setdefault(m.group(1), []); continue
        if th is not None: last = th
        if last in cur: blocks[cur[last]].append(body)
    # terse parallel output prints a whole block per harness, started by its own "Thread n:" line
    for h in harnesses:
        b = "\n".join(blocks.get(h, []))
        tm = re.search(r"Verification Time: ([0-9.]+)s", b)
        st = "undecided"
        if "VERIFICATION:- SUCCESSFUL" in b: st = "verified" if re.search(r"\b1 of 1 cover properties satisfied", b) else "undecided"
        elif "VERIFICATION:- FAILED" in b:
            fc = re.findall(r"Failed Checks: (.*)", b)
            real = [x for x in fc if not re.search(r"unwinding assertion|not currently supported|unsupported|is not supported", x)]
            soft = [x for x in fc if x not in real]
            if real and not soft and "timed out" not in b: st = "failed"
            else: st = "undecided"
        nchk = re.search(r"\*\* (\d+) of (\d+) failed", b)
        KRES[h] = dict(status=st, time=float(tm.group(1)) if tm else 0.0, checks=int(nchk.group(2)) if nchk else 0, detail=b[-1500:] if st != "verified" else "")
    if not blocks: KBUILD["err"] = (e or o)[-2000:]
    for h in harnesses:
        if KRES[h]["status"] != "failed": continue
        vals, rep = "", "counterexample not printed"
        rc, o, e = run(kani_base(crate) + ["--output-format", "terse", "--exact", "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", f"{int(per)}s", "--harness", h], min(left() - 10, per + 120), cwd=d, env=env)
        sect = o.split("concrete_vals")[1:] 
        shorth = h.split("::")[-1]; found = False
        for s in sect:
            s = s.split("];")[0]
            vals = ",".join("".join(f"{int(x):02x}" for x in v.split(",") if x.strip()) for v in re.findall(r"vec!\[([0-9, ]*)\]", s))
            if nat and nat.ok:
                r, out = nat.replay(shorth, vals); rep = out[-1500:]
                if r == 1 or (r is not None and r < 0 and r not in (-9, -15)): found = True; break
        violation(shorth, found, layer="Kani contract", harness=h, values=vals, failed=KRES[h]["detail"], native_replay=rep)

# ---------------------------------------------------------------- verus layer
VRES = []      # one dict per unit
def verus_units(nat_ready):
    units = C.get("verus", [])
    if not units: return
    try:
        import vunits
        vunits.extractor(ROOT, BUILD)
        with ThreadPoolExecutor(3) as ex: VRES.extend(ex.map(lambda u: vunits.run_unit(u, ROOT, REPO, BUILD, min(left() - 60, 300)), units))
    except Exception as ex:
        UNDECIDED.append(f"verus layer: {ex!r}")

def main():
    os.makedirs(BUILD, exist_ok=True)
    nat = Native(C["crate"]) if C.get("crate") else None
    mod = C.get("mod", PID.lower())
    ths = []
    vt = threading.Thread(target=verus_units, args=(None,)); vt.start(); ths.append(vt)
    built = threading.Event()
    def native_layer():
        if not nat: built.set(); return
        try:
            ok = nat.build()
        finally: built.set()
        if not ok: UNDECIDED.append("native harness build: " + nat.err[-600:]); return
        hs = [h for h in nat.list() if re.match(C.get("sample", mod + r"_"), h)]
        q = TIER == "quick"
        cnt, secs = (C.get("count", 40000), C.get("secs", 8)) if q else (200000, C.get("tsecs", 60))
        with ThreadPoolExecutor(7) as ex: list(ex.map(lambda h: sample_one(nat, h, C.get("counts", {}).get(h, cnt) if q else cnt, secs), hs))
    nt = threading.Thread(target=native_layer); nt.start(); ths.append(nt)
    ks = list(C.get("kani", {}).get("quick", []))
    if TIER != "quick": ks += C.get("kani", {}).get("thorough", [])
    class Lazy:
        @property
        def ok(self): built.wait(); return nat is not None and nat.ok
        def replay(self, *a): return nat.replay(*a)
    def kani_layer():
        try: kani_run(C["crate"], ks, 150 if TIER == "quick" else 1500, 4 if TIER == "quick" else 6, Lazy())
        except Exception as ex: UNDECIDED.append(f"kani layer: {ex!r}")
    kt = threading.Thread(target=kani_layer); kt.start(); ths.append(kt)
    for t in ths: t.join()
    # failed Verus obligations: a failing input is looked for by the native and Kani layers above; when they found none, deepen once
    vfail = [(r, f) for r in VRES for f in r.get("failed", [])]
    vund = [r for r in VRES if r.get("status") not in ("verified", "failed")]
    if (vfail or vund) and not VIOL and nat and nat.ok:
        hs = [h for h in nat.list() if re.match(C.get("sample", mod + r"_"), h)]
        with ThreadPoolExecutor(7) as ex: list(ex.map(lambda h: sample_one(nat, h, 10 ** 7, 40 if TIER == "quick" else 120), hs))
    if vfail and not any(v[1] for v in VIOL):
        for r, f in vfail: violation("verus:" + f["function"], False, layer="Verus", unit=r["unit"], obligation=f["function"], message=f["message"][:3000])
    finish()

def finish():
    obl = dis = 0; funcs = []; solver = 0.0; trusted = list(TRUSTED_COMMON) + list(C.get("trusted", []))
    for r in VRES:
        if r["status"] in ("verified", "failed"):
            if r.get("vacuity", {}).get("unreached"): UNDECIDED.append(f"verus unit {r['unit']}: end not reachable under the contract of {r['vacuity']['unreached']}")
            obl += r["obligations"]; dis += r["discharged"]; funcs += r["functions"]; solver += r["solver_s"]; trusted += r.get("trusted", [])
        else: UNDECIDED.append(f"verus unit {r['unit']}: {r['status']}: {r.get('message','')[:600]}")
    kv = {h: r for h, r in KRES.items() if r["status"] == "verified"}
    for h, r in KRES.items():
        if r["status"] == "undecided": UNDECIDED.append(f"kani {h}: not decided ({r['detail'][-160:].strip() or KBUILD['err'][-300:]})")
    complete = set(C.get("complete", []))
    kc = [h for h in KRES if h.split("::")[-1] in complete]
    obl += sum(KRES[h]["checks"] for h in kc if KRES[h]["status"] in ("verified", "failed")); dis += sum(KRES[h]["checks"] for h in kc if KRES[h]["status"] == "verified")
    nsamp = sum(s[1] for s in SAMPLED)
    level = C["level"]
    cov = dict(
        obligations=obl, discharged=dis, checker_cmd=C.get("checker_cmd", "verus --triggers-mode silent <unit>.rs (units generated from /repo by verus/extract) ; cargo kani --harness <name>"),
        trusted_base=trusted,
        functions_under_contract=sorted(set(funcs)),
        verus_units=[{k: r.get(k) for k in ("unit", "status", "obligations", "discharged", "solver_s", "wall_s", "functions", "vacuity", "dropped", "message")} for r in VRES],
        kani=[dict(harness=h, status=r["status"], checks=r["checks"], solver_s=round(r["time"], 2), kind="complete over the stated domain" if h.split("::")[-1] in complete else "bounded: " + C.get("bounds", {}).get(h.split("::")[-1], "sizes as written in the harness")) for h, r in sorted(KRES.items())],
        solver_time_s=round(solver + sum(r["time"] for r in KRES.values()), 2),
        evaluations=nsamp, distinct_nontrivial=sum(s[3] for s in SAMPLED),
        rule="sampled native runs of the same contracts on the compiled code: a case is a seeded draw of every input, non-trivial when the preconditions accepted it and all postconditions were evaluated; distinct ones counted by the hash of the drawn values (sampled, never counted as proved)",
        samples=[dict(harness=h, ran=a, rejected_by_precondition=b, distinct=d, first_case_le_hex=f) for h, a, b, d, f in sorted(SAMPLED)] or [dict(note="no native samples in this run")],
        undecided=UNDECIDED,
        explanation=C.get("explanation", ""),
    )
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=trusted, wall_s=round(time.time() - T0, 2), violations=len(VIOL))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", PID + ".json"), "w"), indent=1)
    log(f"{PID}: {len(VRES)} Verus units, {obl} obligations, {dis} discharged; Kani {len(kv)}/{len(KRES)} verified; {nsamp} sampled evaluations; {time.time()-T0:.0f} s")
    for u in UNDECIDED: log("  undecided:", u[:400].replace("\n", " "))
    for k in KNOWN: print(f"KNOWN-FINDING: property={PID} {k}")
    if VIOL:
        rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
        VIOL.sort(key=lambda v: not v[1])
        for i, (info, found) in enumerate(VIOL[:5]):
            p = os.path.join(rd, f"{PID}-{i}.json"); json.dump(info, open(p, "w"), indent=1)
            print("  violated:", info.get("harness") or info.get("obligation"), str(info.get("message") or info.get("failed"))[:300].replace("\n", " "))
            print(f"VIOLATION property={PID} replay={p}" + ("" if found else " no-failing-input-found"), flush=True)
        sys.exit(1)
    sys.exit(0)
main()
