#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by deductive verification of /repo's current source.

1. expand the crates of /repo with rustc, extract the contracted functions with vpx, verify them with Verus;
2. a failed obligation of this property, or functions that could not be decided, start a search for a failing
   input on the real code (the bounded stand-in);
3. exit 1 with a VIOLATION line for a failing input or a failed obligation, else exit 0; evidence is always written.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "vp"))
from units import UNITS, PROPS
import literals
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
DEADLINE = 420  # seconds after which nothing new is handed to the verifier (a check has 900 s)
ENV = dict(os.environ, RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true")
ENV.pop("RUSTFLAGS", None)
TARGET = os.path.join(V, "target")
WORK = tempfile.mkdtemp(prefix=f"vpcheck-{PROP}-")

def run(cmd, timeout=600, env=None, cwd=None, out=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env or ENV, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace") + "\nTIMEOUT"

def build_vpx():
    for _ in range(2):
        rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", f"{V}/tools/vpx/Cargo.toml", "--target-dir", f"{TARGET}/vpx"])
        if rc == 0: return f"{TARGET}/vpx/debug/vpx"
    print("cannot build the extractor:\n" + e[-2000:]); sys.exit(2)

_exp = {}
_lock = threading.Lock()
def expand(u):
    key = json.dumps([u["pkg"], u["args"], u["rustflags"]])
    with _lock:
        if key in _exp: return _exp[key]
        d = os.path.join(WORK, "exp-" + hashlib.sha1(key.encode()).hexdigest()[:8])
        rc, o, e = run(["cargo", "rustc", "--offline", "-q", "-p", u["pkg"], "--lib", *u["args"], "--", *u["rustflags"], "-Zunpretty=expanded"],
                       env=dict(ENV, CARGO_TARGET_DIR=os.path.join(WORK, "cargo")), cwd=REPO)
        r = None
        if rc == 0:
            r = d + ".rs"; open(r, "w").write(o)
        _exp[key] = (r, e)
        return _exp[key]

try: SHAPES = json.load(open(os.path.join(V, "contracts", "shapes.json")))
except Exception: SHAPES = {}
def fn_at(m, line):
    for p, f in m["fns"].items():
        if f["start"] <= line <= f["end"]: return p
    return None

class Unit:
    def __init__(s, name):
        s.name = name; s.u = UNITS[name]; s.fail = []; s.undecided = {}; s.whole = None; s.notes = []; s.map = None
        s.verified = s.errors = 0; s.smt_ms = 0; s.fnms = {}; s.canary = None; s.queries = 0; s.rl = 0; s.dropped = 0
    def verus(s, out, extra=(), threads=8, timeout=500):
        rc, o, e = run(["verus", out, "--num-threads", str(threads), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "8", "--rlimit", "30", *extra], timeout=timeout, cwd=WORK)
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try: diags.append(json.loads(l))
                except Exception: pass
        try: js = json.loads(o[o.index("{"):])
        except Exception: js = None
        return rc, js, diags, e
    def extract(s, vpx, src, forced, canary=False):
        out, mp = os.path.join(WORK, s.name + ("_c" if canary else "") + ".rs"), os.path.join(WORK, s.name + ".json")
        env = dict(ENV, VPX_EXTERNAL="|".join(sorted(forced)))
        if canary: env["VPX_CANARY"] = "1"
        rc, o, e = run([vpx, src, f"{V}/contracts/{s.u['spec']}", out, mp], env=env)
        if rc != 0: return None, None, e
        return out, json.load(open(mp)), e
    def go(s, vpx):
        src, err = expand(s.u)
        if src is None: s.whole = "the crate does not expand: " + err[-1500:]; return
        forced = set()
        for rnd in range(8):
            if time.time() - T0 > DEADLINE: s.whole = "time limit of the check"; return
            out, m, err = s.extract(vpx, src, forced)
            if out is None: s.whole = "extraction: " + err[-1500:]; return
            s.map = m; s.out = out
            lines = open(out).read().split("\n")
            new = set()
            for x in m["unsupported"]:
                f = x.split(": ")[0]
                hit = [p for p in m["fns"] if p == f or p.startswith(f + " @")]
                new.update(p for p in hit if p not in forced); s.undecided.update({p: "extraction: " + x for p in hit})
            if new: forced |= new; continue
            rc, js, diags, raw = s.verus(out, timeout=max(30, min(400, DEADLINE + 60 - (time.time() - T0))))
            if rc == 124: s.whole = "verifier time limit"; return
            vr = (js or {}).get("verification-results", {})
            if js is None or vr.get("encountered-vir-error") or "verified" not in vr or any(d.get("code") for d in diags if d["level"] == "error"):
                bad = set(); stuck = []
                for d in diags:
                    if d["level"] != "error" or not d["spans"]: continue
                    fs = {fn_at(m, sp["line_start"]) for sp in d["spans"] if sp["file_name"].endswith(os.path.basename(out))} - {None}
                    prim = {fn_at(m, sp["line_start"]) for sp in d["spans"] if sp["is_primary"]} - {None}
                    tgt = prim or fs
                    if tgt:
                        bad |= tgt
                        for p in tgt: s.undecided[p] = "not accepted by the verifier's front end: " + d["message"][:300]
                    else: stuck.append(d["message"])
                bad -= forced
                if not bad:
                    s.whole = "not accepted by the verifier's front end: " + "; ".join(stuck)[:800] + ("" if js else raw[-800:]); return
                forced |= bad
                continue
            # a proof hint (an assertion or a lemma call spliced into a body) that fails says nothing about the code:
            # drop it and let the contract's own clauses decide
            for _ in range(4):
                text, n = s.drop_hints(m, open(out).read(), diags)
                if not n or time.time() - T0 > DEADLINE: break
                open(out, "w").write(text); s.dropped += n
                rc, js2, diags2, raw = s.verus(out, timeout=max(30, min(400, DEADLINE + 60 - (time.time() - T0))))
                vr2 = (js2 or {}).get("verification-results", {})
                if rc == 124 or js2 is None or "verified" not in vr2 or vr2.get("encountered-vir-error") or any(d.get("code") for d in diags2 if d["level"] == "error"): break
                js, diags, vr, lines = js2, diags2, vr2, text.split("\n")
            break
        else:
            s.whole = "extraction does not stabilise"; return
        s.verified, s.errors = vr["verified"], vr["errors"]
        for mod in js["times-ms"]["smt"]["smt-run-module-times"]:
            for f in mod.get("function-breakdown", []): s.fnms[f["function"]] = f["time-micros"] / 1000; s.rl += f["rlimit"]
        s.smt_ms = js["times-ms"]["smt"]["smt-run"]
        s.notes = m["notes"]
        lost = {}
        for n in m["notes"]:
            if n.startswith("lost-anchor: "):
                t = n[len("lost-anchor: "):]
                if t.startswith("contract for `"):
                    p = t[len("contract for `"):].split("`")[0]
                    s.undecided[p] = "the contract's function is not in the source any more (moved, renamed or inlined)"
                else: lost[t.rsplit(": ", 1)[0]] = t
        base_shapes = SHAPES.get(s.name, {})
        for p in set(base_shapes) | set(m["shapes"]):
            if base_shapes.get(p) != m["shapes"].get(p) and p not in lost:
                lost[p] = f"loops were [{base_shapes.get(p)}], are [{m['shapes'].get(p)}]"
        def ctag(sp):
            # property tags stand at the end of the clause, on its last line
            i = sp["line_end"] - 1
            for k in range(i, min(i + 8, len(lines))):
                t = re.search(r"//((?:\s*#C\d\d)+)\s*$", lines[k])
                if t: return re.findall(r"C\d\d", t.group(1))
                if lines[k].strip() in ("{", ""): break
            return None
        for d in diags:
            if d["level"] != "error" or not d["spans"]: continue
            msg = d["message"]
            inner = [sp for sp in d["spans"] if fn_at(m, sp["line_start"])]
            if not inner:
                s.undecided["(lemma)"] = msg + " " + d["rendered"][:400]; continue
            nonprim = [sp for sp in inner if not sp["is_primary"]]
            prim = [sp for sp in d["spans"] if sp["is_primary"]]
            own = (nonprim or inner) if "postcondition" in msg else ([sp for sp in prim if fn_at(m, sp["line_start"])] or inner)
            p = fn_at(m, own[0]["line_start"])
            if p in forced: continue
            if "resource limit" in msg.lower() or "rlimit" in msg.lower() or "timed out" in msg.lower():
                s.undecided[p] = "solver resource limit"; continue
            base = p.split(" @")[0]
            if base in lost:
                s.undecided[p] = "annotation lost its place (" + lost[base] + ") and then: " + msg; continue
            # a new helper that has no contract (and was not inlined): its callers cannot be decided
            body = "\n".join(lines[m["fns"][p]["start"] - 1:m["fns"][p]["end"]])
            helper = next((n for q, f in m["fns"].items() if not f["contract"] and " for " not in q and "client_" not in q and q.split(" @")[0] != base
                           for n in [q.split(" @")[0].split("::")[-1]] if re.search(r"\b" + n + r"\s*(::\s*<[^()]*>\s*)?\(", body)), None)
            if helper:
                s.undecided[p] = f"calls {helper}, which has no contract, and then: " + msg; continue
            tags = None
            if "postcondition" in msg and prim and fn_at(m, prim[0]["line_start"]) == p: tags = ctag(prim[0])
            props = tags or m["fns"][p]["props"]
            s.fail.append(dict(unit=s.name, fn=p, kind=msg, props=props, text=d["rendered"], lines=[sp["line_start"] for sp in d["spans"]]))
        s.lost = lost
    def drop_hints(s, m, text, diags):
        """replace failed hints by trivial ones, keeping line numbers; returns (text, number of hints dropped)"""
        L = text.split("\n"); off = [0]
        for l in L: off.append(off[-1] + len(l) + 1)
        spans = set()
        for d in diags:
            if d["level"] != "error": continue
            for sp in d["spans"]:
                if not sp["file_name"].endswith(os.path.basename(s.out)): continue
                p = fn_at(m, sp["line_start"])
                if p is None or "client_" in p: continue
                a = off[sp["line_start"] - 1] + sp["column_start"] - 1; b = off[sp["line_end"] - 1] + sp["column_end"] - 1
                if d["message"] == "assertion failed" and sp["is_primary"] and text[:a].rstrip().endswith("assert(") and text[b:].lstrip().startswith(")"):
                    spans.add((a, b, "true"))
                elif d["message"] == "precondition not satisfied":
                    t = re.match(r"((?:\w+::)*)(\w+)\s*(::<.*?>)?\(", text[a:b], re.S)
                    if t and text[b:].lstrip().startswith(";") and text[a:b].endswith(")") and re.search(r"\b(proof|axiom) fn " + t.group(2) + r"\b", text):
                        spans.add((a, b, "assert(true)"))
        spans = sorted(spans, reverse=True)
        n = 0; last = len(text) + 1
        for a, b, r in spans:
            if b > last or text[a:b] == r: continue
            text = text[:a] + r + "\n" * text[a:b].count("\n") + text[b:]; last = a; n += 1
        return text, n
    def run_canary(s, vpx):
        """every contracted function must fail an assertion of false at its start: otherwise its obligations are vacuous"""
        if s.whole or s.map is None or time.time() - T0 > DEADLINE: return
        src, _ = expand(s.u)
        forced = {p for p in s.undecided if p in s.map["fns"]}
        out, m, err = s.extract(vpx, src, forced, canary=True)
        if out is None: return
        rc, js, diags, raw = s.verus(out, timeout=150)
        lines = open(out).read().split("\n")
        want = {p for p, f in m["fns"].items() if any("vp_canary" in lines[k] for k in range(f["start"] - 1, f["end"]))}
        got = set()
        for d in diags:
            for sp in d["spans"]:
                if "vp_canary" in lines[sp["line_start"] - 1] and d["level"] == "error": got.add(fn_at(m, sp["line_start"]))
        s.canary = (len(want), sorted(want - got))

# configurations of the real code that the search runs: cargo arguments, directory of the binary
CONFIGS = {
  "dev": ([], "debug"),
  "release": (["--profile", "rel"], "rel"),            # debug_assertions off: other branches of the source are compiled
  "no_std": (["--no-default-features"], "debug"),      # no alloc: other implementations of collect_str
}
RELEASE_TOO = {"C10", "C11", "C12", "C13", "C14", "C27"}
NOSTD_TOO = {"C05", "C06", "C07", "C09", "C18", "C19", "C20"}
def configs():
    c = ["dev"]
    if PROP in RELEASE_TOO or TIER == "thorough": c.append("release")
    if PROP in NOSTD_TOO or TIER == "thorough": c.append("no_std")
    return c
COMPOSED = {"C27": {"json_ser"}, "C28": {"mp_ser"}}
_wit = {}
def build_witness():
    """build the search in every configuration needed; runs beside the verifier"""
    src = f"{V}/witness"
    if REPO != "/repo":
        src = os.path.join(WORK, "witness"); shutil.copytree(f"{V}/witness", src)
        t = open(src + "/Cargo.toml").read().replace('"/repo', '"' + REPO); open(src + "/Cargo.toml", "w").write(t)
    for c in configs():
        args, d = CONFIGS[c]
        td = (f"{TARGET}/witness" if REPO == "/repo" else os.path.join(WORK, "wt")) + ("_nostd" if c == "no_std" else "")
        rc, o, e = run(["cargo", "build", "--offline", "-q", "--manifest-path", f"{src}/Cargo.toml", "--target-dir", td, *args], timeout=400)
        _wit[c] = (f"{td}/{d}/witness", None) if rc == 0 else (None, "the search does not build: " + e[-1500:])
def witness(secs):
    """search for an input on which the real code breaks the property: (replay file or None, {configuration: cases})"""
    out = os.path.join(V, "replays"); os.makedirs(out, exist_ok=True)
    info = {}
    words = literals.new(REPO); df = os.path.join(out, f"{PROP}.words")
    if os.path.exists(df): os.remove(df)
    if words: open(df, "w").write("\n".join(words) + "\n"); info["literals new in the source, tried in the search"] = len(words)
    env = dict(ENV, VP_DICT=df)
    for c in configs():
        exe, err = _wit.get(c, (None, "not built"))
        if exe is None: info[c] = err; continue
        f = os.path.join(out, f"{PROP}.input.json")
        if os.path.exists(f): os.remove(f)
        rc, o, e = run([exe, "search", PROP, str(SEED), str(secs), f], timeout=secs * 2 + 60, env=env)
        n = o.strip().splitlines()[-1] if o.strip() else ""
        if rc == 1 and os.path.exists(f):
            d = json.load(open(f)); d["configuration"] = c; d["replay_cmd"] = f"cd /verif/witness && {'VP_DICT=' + df + ' ' if words else ''}cargo run -q --offline {' '.join(CONFIGS[c][0])} -- replay {f}"
            json.dump(d, open(f, "w"), indent=1); info[c] = f"failing case {d['case']}: {d['detail'][:1500]}"
            return f, info
        info[c] = int(n) if rc == 0 and n.isdigit() else f"search ended with {rc}: {n} {e[-300:]}"
    return None, info

def main():
    tech_units = PROPS[PROP]
    wt = threading.Thread(target=build_witness); wt.start()
    vpx = build_vpx()
    us = [Unit(n) for n in tech_units]
    for u in us: expand(u.u)
    for u in us:
        u.go(vpx)
        u.run_canary(vpx)
    fails = [f for u in us for f in u.fail if PROP in f["props"]]
    other = [f for u in us for f in u.fail if PROP not in f["props"]]
    # a round trip does not say which text is written: a writer that departs from its contract leaves the composition unproved, not broken
    loose = [f for f in fails if f["unit"] in COMPOSED.get(PROP, ())]
    fails = [f for f in fails if f not in loose]
    mine = {}
    for u in us:
        for p, f in (u.map or {"fns": {}})["fns"].items():
            txt = ""
            if PROP in f["props"]: mine[f"{u.name}:{p}"] = f
    undecided = {f"{u.name}:{p}": w for u in us for p, w in u.undecided.items()}
    undecided.update({f"{f['unit']}:{f['fn']}": "premise of the composition no longer proved (the writer may still be readable): " + f["kind"] for f in loose})
    whole = {u.name: u.whole for u in us if u.whole}
    vac = {u.name: u.canary[1] for u in us if u.canary and u.canary[1]}
    dep_hit = bool(fails or other or undecided or whole)
    known = []
    kf = os.path.join(V, "known_findings.txt")
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith("finding: ") and f"property={PROP} " in l]
    lib = {}; lt = threading.Thread(target=libchecks, args=(us, lib)) if TIER == "thorough" else None
    if lt: lt.start()
    wt.join()
    found, winfo = witness((80 if fails else 40 if dep_hit else 8) if TIER == "quick" else 120)
    viol = 0
    for k in known: print("KNOWN-FINDING: " + k[len("finding: "):])
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    rp = os.path.join(V, "replays", f"{PROP}.obligation.json")
    vline = None
    if found:
        viol = 1
        vline = f"VIOLATION property={PROP} replay={found}"
    elif fails:
        viol = 1
        json.dump(dict(property=PROP, failed_obligations=[dict(unit=f["unit"], function=f["fn"], kind=f["kind"], verifier_output=f["text"]) for f in fails],
                       search=winfo), open(rp, "w"), indent=1)
        vline = f"VIOLATION property={PROP} replay={rp} no-failing-input-found"
    for f in fails: print(f"failed obligation [{f['unit']}] {f['fn']}: {f['kind']}\n{f['text']}")
    for f in other: print(f"(obligation of other properties failed: [{f['unit']}] {f['fn']}: {f['kind']} -> {','.join(f['props'])})")
    for p, w in undecided.items(): print(f"undecided: {p}: {w}")
    for p, w in whole.items(): print(f"undecided unit {p}: {w}")
    for p, w in vac.items(): print(f"vacuity guard: {p}: {w}")
    print("search on the real code: " + json.dumps(winfo))
    ob = sum(u.verified + u.errors for u in us); dis = sum(u.verified for u in us)
    trusted = []
    for u in us:
        for l in scan_trusted(u): trusted.append(l)
    if lt: lt.join()
    level = "proof"
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - T0, 2), violations=viol,
      coverage=dict(obligations=ob, discharged=dis, checker_cmd=f"verus (Z3 back end) on text extracted from {REPO} by tools/vpx; python3 vp/check.py {PROP} {TIER}",
        trusted_base=sorted(set(trusted)),
        functions_under_contract=sorted(mine), functions_of_units=sum(1 for u in us if u.map for f in u.map["fns"].values() if f["contract"]),
        solver_ms=sum(u.smt_ms for u in us), rlimit=sum(u.rl for u in us),
        slowest=sorted(((round(t), f) for u in us for f, t in u.fnms.items()), reverse=True)[:5],
        vacuity_guard={u.name: (f"{u.canary[0]} functions fail assert(false) as they must" if u.canary and not u.canary[1] else u.canary) for u in us},
        failed=[f"{f['unit']}:{f['fn']}: {f['kind']}" for f in fails], failed_other=[f"{f['unit']}:{f['fn']}: {f['kind']}" for f in other],
        undecided=undecided, undecided_units=whole, hints_dropped={u.name: u.dropped for u in us if u.dropped}, annotations_without_place=[n for u in us for n in u.notes if n.startswith("lost")], inlined_helpers=[n for u in us for n in u.notes if n.startswith("inlined")],
        library_contracts_checked=lib, bounded_search_on_real_code=dict(cases_by_configuration=winfo, rule="random and small exhaustive inputs against an independent reference; a stand-in for what is undecided and the replay of failures, never counted as proved")),
      assumptions=ASSUME)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", PROP + ".json"), "w"), indent=1)
    if vline: print(vline)
    print(f"{PROP} {TIER}: {dis}/{ob} proof items discharged, {len(fails)} failed, {len(undecided)} undecided, {time.time()-T0:.1f}s")
    return 1 if viol else 0

# Kani harnesses of /verif/libcheck: the library contracts the units assume, checked against the library itself (thorough tier)
LIB_STD_SER = ["_be", "try_from", "_abs", "_neg", "char_encode_utf8", "float_classes", "mem", "option_", "str_slice"]
LIB = {
  "core": ["arrayvec", "heapless", "tinyvec", "vec_extend", "cursor"],
  "b64": ["option_"],
  "ser": LIB_STD_SER,
  "de": ["_be", "u16_from_le", "try_from", "_abs", "_neg", "option_", "array_from_slice", "char_", "float_classes", "ascii", "copy_within", "from_utf8", "str_slice", "int_from_str"],
}
def libchecks(us, res):
    want = set()
    for u in us:
        k = u.name if u.name in LIB else ("de" if "_de" in u.name or "rt" in u.name else "ser")
        want |= set(LIB[k])
    names = re.findall(r"\b((?:complete|bounded_\d+)_\w+)", open(os.path.join(V, "libcheck", "src", "lib.rs")).read())
    names = sorted({n for n in names if any(w in n for w in want)})
    if not names: return
    d = os.path.join(WORK, "libcheck"); shutil.copytree(os.path.join(V, "libcheck"), d)
    cmd = "ulimit -v 9000000; exec cargo kani --target-dir %s/kt %s -j 2 --output-format terse %s" % (WORK, "--features core" if any(u.name == "core" for u in us) else "", " ".join("--harness " + n for n in names))
    rc, o, e = run(["bash", "-c", cmd], timeout=500, cwd=d)
    cur = {}; st = {}; th = None
    for l in o.splitlines():
        t = re.match(r"Thread (\d+):", l)
        if t: th = t.group(1)
        m = re.search(r"Checking harness (\S+?)\.\.\.", l)
        if m: cur[th] = m.group(1).split("::")[-1]
        if "VERIFICATION:-" in l and cur.get(th): st[cur[th]] = "SUCCESSFUL" in l
    res["ran"] = len(st); res["held"] = sum(1 for v in st.values() if v)
    res["complete"] = sorted(n for n, v in st.items() if v and n and n.startswith("complete_"))
    res["bounded"] = sorted(n for n, v in st.items() if v and n and n.startswith("bounded_"))
    res["not_confirmed"] = sorted(set(names) - {n for n, v in st.items() if v})
    res["back_end"] = "kani (CBMC), all inputs for complete_*, sizes up to N for bounded_N_*"
    if rc == 124: res["note"] = "time limit"

def scan_trusted(u):
    r = []
    if not u.map or not getattr(u, "out", None): return r
    L = open(u.out).read().split("\n")
    for i, l in enumerate(L):
        if "assume_specification" in l:
            t = re.search(r"\[\s*(.*?)\s*\]\s*\(", l); r.append("assumed contract of a library function: " + (t.group(1) if t else l.strip()[:100]))
        elif "external_body" in l and "fn " in (l + L[i + 1] if i + 1 < len(L) else l):
            t = re.search(r"fn (\w+)", l) or re.search(r"fn (\w+)", L[i + 1]); r.append("trusted function (contract assumed): " + (t.group(1) if t else "?"))
        elif re.search(r"\baxiom fn (\w+)", l): r.append("axiom (assumed): " + re.search(r"\baxiom fn (\w+)", l).group(1))
        elif re.search(r"\b(assume|admit)\(", l): r.append("assume: " + l.strip()[:120])
    return r

ASSUME = [
  "the extraction (tools/vpx) keeps the meaning of the functions; what it drops and rewrites is listed in DESIGN.md",
  "serde clients (Visitor, DeserializeSeed, Serialize implementations) obey the contracts written on serde's traits",
  "slices are at most isize::MAX bytes (guaranteed by Rust)",
  "stack exhaustion is outside the model",
  "Verus, Z3 and rustc are correct; contracts of core/alloc functions listed in trusted_base hold",
]
if __name__ == "__main__":
    try: rc = main()
    finally: shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(rc)
