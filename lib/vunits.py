"""Runs one Verus unit: extract from /repo, verify, vacuity canaries. Result dict for check.py."""
import os, re, subprocess, json, time, signal
def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=max(1, timeout)); return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); o, e = p.communicate(); return None, o, e
_built = {}
def extractor(root, build):
    if "p" in _built: return _built["p"]
    tgt = os.path.join(build, "extract")
    rc, o, e = sh(["cargo", "build", "--offline", "--quiet"], 300, cwd=os.path.join(root, "verus", "extract"), env=dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings"))
    if rc != 0: raise RuntimeError("extractor build: " + e[-1500:])
    _built["p"] = os.path.join(tgt, "debug", "extract"); return _built["p"]
def expand(root, build, crate, timeout=300):
    """What the attribute macro generates for the carriers of verus/<crate>: the text rustc itself expands, each impl with its specification added."""
    d = os.path.join(root, "verus", crate)
    rc, o, e = sh(["cargo", "rustc", "--offline", "--quiet", "--", "-Zunpretty=expanded"], timeout, cwd=d, env=dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(build, crate)))
    if rc != 0: raise RuntimeError("macro expansion: " + e[-800:])
    out, fns, f = [], [], dict(Z="fz", G="fg", W="fw")
    for m in re.finditer(r"^impl(?P<g><[^>\n]*>)? Bop<(?P<r>[^\n]*)> for (?P<s>\S+)(?: where [^{\n]*)? \{\n(?P<b>.*?)^\}", o, re.M | re.S):
        rhs, slf = m["r"], m["s"]
        key = rhs.lstrip("&")[0]
        a = "*self" if slf[0] == "&" else "self"; b = "*rhs" if rhs[0] == "&" else "rhs"
        spec = f"    open spec fn ok(self, rhs: {rhs}, r: Self::Output) -> bool {{ r == {f[key]}({a}, {b}) }}\n"
        text = m.group(0)
        if slf[0] == "&" and rhs[0] == "&":
            # the implementation the user wrote: any function
            text = re.sub(r"(\n\s*)fn bop\((.*?)\) -> Self::Output \{.*\}", r"\1#[verifier::external_body] fn bop(\2) -> Self::Output { unimplemented!() }", text, flags=re.S).rstrip()
            if not text.endswith("}\n}"): text += "\n}"
        else: fns.append(f"FN sunscreen_math_macros/src/lib.rs :: refify_binary_op generated <Bop<{rhs}> for {slf}>::bop")
        text = text.replace("Self::Output { ", "Self::Output { __vcanary!(); ") if "external_body" not in text else text
        k = text.index("{\n") + 2
        out.append((f"// {fns[-1]}\n" if not (slf[0] == "&" and rhs[0] == "&") else "") + text[:k] + spec + text[k:] + "\n// ENDFN")
    if len(fns) != 9 or len(out) != 12: raise RuntimeError(f"macro expansion: {len(fns)} generated and {len(out)} impls in all, expected 9 and 12")
    return "\n".join(out), fns
def isa_text(root, build, timeout=300):
    """What define_op! generates for the instruction set: the text rustc itself expands."""
    d = os.path.join(root, "verus", "isa")
    rc, o, e = sh(["cargo", "rustc", "--offline", "--quiet", "--", "-Zunpretty=expanded,hygiene"], timeout, cwd=d, env=dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.path.join(build, "isa")))
    if "enum IsaOp" not in o: raise RuntimeError("macro expansion: " + e[-800:])
    o = o[o.index("pub mod assembly"):]
    if "\n/*\nExpansions:" in o: o = o[:o.index("\n/*\nExpansions:")]
    # rustc names the macro each identifier comes from: a variable of the macro that shares its name with one of the instruction table gets a name of its own
    tag = re.compile(r"\b([A-Za-z_]\w*)\s*/\*\s*\d+#(\d+)\s*\*/")
    parts = re.split(r"(?=^ +impl)", o, flags=re.M)
    for k, t in enumerate(parts):
        uses = set(tag.findall(t)); lets = set(re.findall(r"\blet\s+(?:mut\s+)?([a-z_]\w*)\s*/\*", t))
        both = {n for n in lets if (n, "0") in uses and any(m == n and c != "0" for m, c in uses)}
        parts[k] = re.sub(r"/\*\s*\d+#\d+\s*\*/", "", tag.sub(lambda m: m[1] + "_m" if m[1] in both and m[2] != "0" else m[1], t))
    o = "".join(parts)
    out = os.path.join(build, "verus", "isa_expanded.rs"); open(out, "w").write(o)
    return out
WORDS = {f"{k}{b}" if b != "size" else k + "size": [("WBITS", str(n)), ("WMOD", hex(1 << n) if n < 128 else "(u128::MAX as int + 1)"), ("WORD", "u" + str(b)), ("SWRD", "i" + str(b))] for k in "u" for b, n in ((8, 8), (16, 16), (32, 32), (64, 64), (128, 128), ("size", 64))}
def enclosing(lines, n):
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.match(r"// FN (\S+) :: (.*)", lines[i])
        if m: return f"{m.group(2)} ({m.group(1)})"
        if lines[i].startswith("// ENDFN"): break
    for i in range(min(n, len(lines)) - 1, -1, -1):
        m = re.search(r"\b(?:proof )?fn (\w+)", lines[i])
        if m: return "unit lemma " + m.group(1)
    return "?"
def verus(f, timeout, extra=()):
    rc, o, e = sh(["verus", "--triggers-mode", "silent", "--output-json", "--time", "--multiple-errors", "3", "--num-threads", "4", *extra, f], timeout, cwd=os.path.dirname(f))
    try: j = json.loads(o[o.index("{"):])
    except Exception: j = {}
    return rc, j, e
def errors(e, lines):
    out = []
    for m in re.finditer(r"^error(?:\[\w+\])?: (.*)\n((?: .*\n|\s*\n|\d+ .*\n|\.\.\.\n)*)", e, re.M):
        msg, body = m.group(1), m.group(2)
        if msg.startswith("aborting"): continue
        locs = [int(x) for x in re.findall(r"-->\s*\S+?:(\d+):\d+", body)] or [0]
        marks = [int(x) for x in re.findall(r"^\s*(\d+)\s*\|", body, re.M)]
        # a failed precondition is reported at the call, a failed postcondition at the body: prefer a location inside an extracted function
        fn = enclosing(lines, locs[0])
        if "unit lemma" in fn:
            for k in marks:
                g = enclosing(lines, k)
                if "unit lemma" not in g and g != "?": fn = g
        out.append(dict(function=fn, message=(msg + "\n" + body)[:2500]))
    return out
VERIF = re.compile(r"(postcondition|precondition|assertion|assert|invariant|decreases|possible|loop invariant|could not|unable to prove|recommendation|requires|ensures|constructed value may fail|.*not satisfied|.*overflow|.*rlimit|.*Resource limit)")
def run_unit(unit, root, repo, build, timeout):
    t0 = time.time()
    name, word = (unit.split(":") + ["u64"])[:2]
    params = WORDS[word]
    r = dict(unit=unit, status="unsupported", obligations=0, discharged=0, functions=[], failed=[], solver_s=0.0, dropped=[], trusted=[], message="")
    d = os.path.join(build, "verus"); os.makedirs(d, exist_ok=True)
    tpl = os.path.join(root, "verus", "units", name + ".rs"); out = os.path.join(d, re.sub(r"\W", "_", r["unit"]) + ".rs")
    ex = extractor(root, build)
    if os.path.exists(out): os.remove(out)
    extra_fns = []
    m = re.search(r"^//@expand (\w+)$", open(tpl).read(), re.M)
    if m:
        try: text, extra_fns = expand(root, build, m.group(1))
        except RuntimeError as x: r["message"] = str(x); r["wall_s"] = round(time.time() - t0, 2); return r
        t2 = os.path.join(root, "verus", "units", "." + name + f".{os.getpid()}.tmp.rs"); open(t2, "w").write(open(tpl).read().replace(m.group(0), text)); tpl = t2
    isa = None
    if "@isa ::" in open(tpl).read():
        try: isa = os.path.relpath(isa_text(root, build), repo)
        except RuntimeError as x: r["message"] = str(x); r["wall_s"] = round(time.time() - t0, 2); return r
        t2 = os.path.join(root, "verus", "units", "." + name + f".{os.getpid()}.tmp.rs"); open(t2, "w").write(open(tpl).read().replace("@isa ::", isa + " ::")); tpl = t2; m = True
    rc, o, e = sh([ex, tpl, repo, out] + [f'{k}={v}' for k, v in params], 60)
    if m: os.remove(tpl); o += "\n" + "\n".join(extra_fns)
    if isa:
        ASM = "parasol_cpu/src/proc/assembly.rs"; o = o.replace(isa, ASM); e = e.replace(isa, ASM)
        if rc == 0: t = open(out).read().replace(isa, ASM); open(out, "w").write(t)
    if rc != 0: r["message"] = "extraction: " + e.strip()[:800]; r["wall_s"] = round(time.time() - t0, 2); return r
    text = open(out).read()
    text = text.replace("__vcanary!();", "/*end*/")
    open(out, "w").write(text)
    lines = text.split("\n")
    r["functions"] = [l[3:] for l in o.splitlines() if l.startswith("FN ")]
    r["dropped"] = sorted(set(re.sub(r"^DROP ", "", l) for l in o.splitlines() if l.startswith("DROP ")))
    if re.search(r"\b(assume|admit)\s*\(", re.sub(r"//.*", "", text)): r["message"] = "unit contains assume/admit"; return r
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:proof |exec )?fn (\w+)", text): r["trusted"].append(f"unit {name}: contract of {m.group(1)} (prelude, body not verified)")
    for m in re.finditer(r"assume_specification[^;]*?\[\s*([^\]]+?)\s*\]", text): r["trusted"].append(f"unit {name}: assumed specification of {m.group(1)}")
    from concurrent.futures import ThreadPoolExecutor
    can = out[:-3] + "_canary.rs"; n = text.count("/*end*/"); ctext = text.replace("/*end*/", "proof { assert(false); }"); open(can, "w").write(ctext)
    pool = ThreadPoolExecutor(1); cfut = pool.submit(verus, can, timeout)
    rc, j, e = verus(out, timeout)
    vr = j.get("verification-results", {})
    r["solver_s"] = round(j.get("times-ms", {}).get("smt", {}).get("smt-run", j.get("times-ms", {}).get("smt", {}).get("total", 0)) / 1000.0, 2)
    if rc is None: r["message"] = "verifier timeout"; r["wall_s"] = round(time.time() - t0, 2); return r
    if vr.get("encountered-vir-error") or "verified" not in vr:
        r["message"] = "not accepted by the verifier's front end: " + "\n".join(x["message"][:300] for x in errors(e, lines)[:3]) + ("" if errors(e, lines) else e[:500]); r["wall_s"] = round(time.time() - t0, 2); return r
    ok, bad = vr["verified"], vr.get("errors", 0)
    r["obligations"], r["discharged"] = ok + bad, ok
    if bad == 0 and vr.get("success"): r["status"] = "verified"
    else:
        er = errors(e, lines)
        if er and all("rlimit" in x["message"] or "Resource limit" in x["message"] for x in er): r["status"], r["message"] = "unsupported", "solver resource limit: " + er[0]["function"]
        elif [x for x in er if not VERIF.match(x["message"])]:
            x = [x for x in er if not VERIF.match(x["message"])][0]; r["message"] = "not accepted by the front end: " + x["function"] + ": " + x["message"][:500]
        else:
            r["status"] = "failed"; seen = set()
            for x in er or [dict(function="?", message=e[-1500:])]:
                if x["function"] not in seen: seen.add(x["function"]); r["failed"].append(x)
    # vacuity: every extracted function's end must be reachable under its contract
    if r["status"] == "verified":
        _, j, e = cfut.result()
        hit = {x["function"] for x in errors(e, ctext.split("\n")) if "assertion failed" in x["message"]}
        want = {re.match(r"FN (\S+) :: (.*)", l) for l in o.splitlines() if l.startswith("FN ")}
        want = {f"{m.group(2)} ({m.group(1)})" for m in want}
        # a function that ends in a panic its contract rules out has no reachable end
        want -= {enclosing(lines, text[:m.start()].count("\n")) for m in re.finditer(r"/\*end\*/\s*rt_panic\(\)\s*\}", text)}
        # the solver ran out of resources trying to derive false there: no contradiction found either
        unk = {x["function"] for x in errors(e, ctext.split("\n")) if "Resource limit" in x["message"] or "rlimit" in x["message"]} & (want - hit)
        miss = sorted(want - hit - unk)
        r["vacuity"] = dict(functions=len(want), end_reachable=len(want & hit), undetermined=sorted(unk), unreached=miss)
    r["wall_s"] = round(time.time() - t0, 2)
    return r
if __name__ == "__main__":
    import sys
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for u in sys.argv[1:]:
        r = run_unit(u, root, os.environ.get("REPO", "/repo"), os.environ.get("VB", "/tmp/vb"), 300)
        print(u, r["status"], f"{r['discharged']}/{r['obligations']}", "smt", r["solver_s"], "wall", r.get("wall_s"), r["message"][:1500], r.get("vacuity"))
        for f in r["failed"]: print("  FAILED", f["function"], "\n   ", f["message"][:1500].replace("\n", "\n    "))
