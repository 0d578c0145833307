#!/usr/bin/env python3
"""check.py PROP [quick|thorough] -- decide one property on /repo's current working tree.

1. builds the extractor (extract/) and the native harness of the property,
2. extracts the functions under contract from /repo and weaves the contracts in (contracts/**.vx),
3. has Verus discharge every obligation of the generated file,
4. runs the native harness (bounded, never counted as proved): it looks for concrete failing inputs and
   exercises the dependencies whose contracts are assumed.
Outcome: see DESIGN.md, "How a check decides".
"""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, HERE)
from checks_table import PROPS, HARNESS  # noqa: E402

T0 = time.time()
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def run(cmd, cwd=None, timeout=None, env=None, stdout=subprocess.PIPE):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=e, stdout=stdout, stderr=subprocess.PIPE)
        return p.returncode, p.stdout or b"", p.stderr
    except subprocess.TimeoutExpired as x:
        return -999, x.stdout or b"", x.stderr or b""

# ---------------------------------------------------------------- builds
def build(dirname, release):
    env = {}
    cmd = ["cargo", "build", "--offline", "-q"] + (["--release"] if release else [])
    return run(cmd, cwd=os.path.join(ROOT, dirname), timeout=800, env=env)

# ---------------------------------------------------------------- verus
SAFETY = ("possible arithmetic underflow/overflow", "possible division by zero", "possible bit shift", "index out of bounds")
ANNOT = ("assertion failed", "invariant not satisfied", "loop invariant", "decreases not satisfied", "assert", "recommendation")

class Unit:
    """one contract file: extraction + verification"""
    def __init__(self, name, tmp, tier):
        self.name, self.tmp, self.tier = name, tmp, tier
        self.template = os.path.join(ROOT, "contracts", name, name.split("/")[-1] + ".vx")
        self.stubs, self.why = [], {}
        self.runs, self.solver_ms, self.wall = 0, 0, 0.0
    def extract(self):
        self.rs = os.path.join(self.tmp, self.name.replace("/", "_") + ".rs")
        self.rep = self.rs[:-3] + ".json"
        cmd = [os.path.join(ROOT, "extract/target/release/vx"), REPO, self.template, self.rs, self.rep]
        for s in self.stubs: cmd += ["--stub", s]
        rc, out, err = run(cmd, timeout=120)
        if rc != 0: raise Undecided("extraction of %s failed: %s" % (self.name, err.decode(errors="replace")[-1500:]))
        self.report = json.load(open(self.rep))
        self.lines = open(self.rs).read().split("\n")
        self.fns = sorted(self.report["functions"], key=lambda f: f["start"])
    def verus(self, extra=(), timeout=420):
        self.runs += 1
        t = time.time()
        cmd = ["verus", os.path.basename(self.rs), "--num-threads", "8", "--multiple-errors", "4", "--output-json", "--time-expanded",
               "--error-format=json", "--triggers-mode", "silent"] + list(extra)
        outp = os.path.join(self.tmp, "verus.out")
        with open(outp, "wb") as f: rc, _, err = run(cmd, cwd=self.tmp, timeout=timeout, stdout=f)
        self.wall += time.time() - t
        out = open(outp, "rb").read().decode(errors="replace")
        try: self.res = json.loads(out[out.index("{"):])
        except Exception: self.res = None
        self.diags = []
        for l in err.decode(errors="replace").split("\n"):
            try: d = json.loads(l)
            except Exception: continue
            if d.get("level") == "error" and d.get("spans"): self.diags.append(d)
        self.err = err.decode(errors="replace")
        self.timeout = rc == -999
        if self.res:
            try: self.solver_ms += self.res["times-ms"]["smt"]["total"]
            except Exception: pass
        return rc
    def fn_at(self, line):
        """(key, report entry or None, is_exec) for a line of the generated file"""
        best = None
        for f in self.fns:
            if f["start"] <= line <= f["end"] and not f["key"].startswith("item "):
                if best is None or f["start"] >= best["start"]: best = f
        if best: return best["key"], best
        for f in self.fns:
            if f["start"] <= line <= f["end"]: return f["key"], f
        for i in range(min(line, len(self.lines)) - 1, -1, -1):
            m = re.match(r"\s*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(proof|spec|exec)?\s*fn\s+(\w+)", self.lines[i])
            if m: return ("lemma " if m.group(1) != None else "fn ") + m.group(2), None
        return "?", None
    def is_ghost_line(self, line):
        key, f = self.fn_at(line)
        return f is None and key.startswith("lemma ")
    def module_at(self, line):
        for i in range(min(line, len(self.lines)) - 1, -1, -1):
            m = re.match(r"\s*pub mod (\w+) \{", self.lines[i])
            if m: return m.group(1)
        return ""
    def classify(self, d):
        msg = d["message"]; spans = d["spans"]
        good = [s for s in spans if not (s.get("label") or "").startswith("failed")]
        body = [s for s in good if "exit" in (s.get("label") or "") or "function body" in (s.get("label") or "")]
        prim = [s for s in good if s.get("is_primary")]
        sp = (body or prim or good or spans)[0]
        key, f = self.fn_at(sp["line_start"])
        failed = [s for s in spans if (s.get("label") or "").startswith("failed")]
        if "rlimit" in msg or "Resource limit" in msg: kind = "rlimit"
        elif "postcondition not satisfied" in msg: kind = "post"
        elif "precondition not satisfied" in msg:
            kind = "annot" if failed and self.is_ghost_line(failed[0]["line_start"]) else "pre"
        elif any(msg.startswith(x) for x in SAFETY): kind = "safety"
        elif any(x in msg for x in ANNOT): kind = "annot"
        else: kind = "compile"
        return dict(kind=kind, key=key, fn=f, line=sp["line_start"], msg=msg, mod=self.module_at(sp["line_start"]),
                    clause=" / ".join(" ".join(t["text"].strip() for t in s["text"])[:200] for s in failed) or sp["text"][0]["text"].strip()[:200], rendered=d.get("rendered") or msg)

class Undecided(Exception): pass

def excerpt(u, f):
    if not f: return ""
    return "\n".join(u.lines[f["start"] - 1:f["end"]])[:6000]

def verify(u, prop):
    """Returns (failures, undecided): failures are failed obligations that express the property."""
    spec = PROPS[prop]
    budget = 4
    failures, undecided = [], {}
    for rnd in range(6):
        u.extract()
        lost = [e for e in u.report["errors"]]
        if rnd == 0 and lost:
            # hints that no longer find their place: the functions concerned are verified without them first
            for e in lost: log("extractor:", e)
        u.verus()
        if u.timeout: raise Undecided("verifier timed out")
        ds = [u.classify(d) for d in u.diags]
        ok = u.res and u.res.get("verification-results", {}).get("success")
        if ok and not ds:
            for e in lost:
                if "lost anchor" in e: undecided[e.split(": lost")[0]] = e
            return failures, undecided
        comp = [d for d in ds if d["kind"] == "compile"]
        if comp or not u.res or u.res["verification-results"].get("encountered-vir-error") or u.res["verification-results"].get("encountered-error") and not ds:
            new = []
            for d in comp:
                if d["fn"] and not d["key"].startswith("item ") and d["key"] not in u.stubs: new.append(d["key"]); undecided[d["key"]] = "not accepted by the verifier: " + d["msg"][:300]
            for e in lost:
                k = str(e)
                for f in u.fns:
                    if f["key"] in k and f["key"] not in u.stubs and f["key"] not in new and not f["key"].startswith("item "): new.append(f["key"]); undecided[f["key"]] = k[:300]
            if not new: raise Undecided("generated file not accepted: " + ("; ".join(d["msg"] for d in comp)[:800] or u.err[-800:]))
            log("outside the verifier's reach, bounded check only:", ", ".join(new))
            u.stubs += new; continue
        # verification errors
        rl = [d for d in ds if d["kind"] == "rlimit"]
        by = {}
        for d in ds: by.setdefault(d["key"], []).append(d)
        new = []
        retry_rlimit = bool(rl)
        for key, l in by.items():
            hard = [d for d in l if d["kind"] in ("post", "pre", "safety")]
            moved = [e for e in lost if e.startswith(key + ": ")]
            if moved:
                undecided[key] = "the proof annotations no longer fit: " + "; ".join(moved); continue
            if hard and not any(d["kind"] == "rlimit" for d in l):
                for d in hard: failures.append(d)
            elif not any(d["kind"] == "rlimit" for d in l):
                undecided[key] = l[0]["kind"] + ": " + l[0]["msg"] + ": " + l[0]["clause"]
        if retry_rlimit:
            log("resource limit; retrying", ", ".join(sorted({d["key"] for d in rl})))
            u.verus(["--rlimit", "80"])
            ds2 = [u.classify(d) for d in u.diags]
            if u.timeout: 
                for d in rl: undecided[d["key"]] = "resource limit"
            else:
                keys = {d["key"] for d in rl}
                for d in ds2:
                    if d["key"] not in keys: continue
                    if d["kind"] in ("post", "pre", "safety"): failures.append(d)
                    else: undecided.setdefault(d["key"], d["kind"] + ": " + d["msg"])
        return failures, undecided
    return failures, undecided

def relevant(spec, d):
    """does a failed obligation express this property?"""
    mods = spec.get("modules")
    if mods is not None and d["mod"] and not any(re.fullmatch(m, d["mod"]) for m in mods): return False
    kinds = spec.get("kinds")
    if kinds and d["kind"] not in kinds: return False
    names = spec.get("fns")
    if names and not re.search(names, d["key"]): return False
    pr = spec.get("clauses")
    if pr and d["kind"] == "post" and not re.search(pr, d["clause"]): return False
    return True

# ---------------------------------------------------------------- harness
def harness(prop, hspec, seed, mult, tmp, tag=""):
    exe = os.path.join(ROOT, hspec["dir"], "target/debug", hspec["bin"])
    n = 8; per = max(1, int(PROPS[prop]["cases"] * mult)); procs = []
    for i in range(n):
        cur = os.path.join(tmp, "cur%s%d" % (tag, i))
        s = (seed * 1000003 + i * 7919 + (0 if not tag else 99991)) % (1 << 62)
        args = [exe, prop, str(s), str(per), cur]
        e = dict(os.environ); e["MALLOC_ARENA_MAX"] = "2"
        procs.append((args, cur, s, subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)))
    tot = dict(cases=0, distinct=0, samples=[], known=set(), fails=[], undecided=[])
    deadline = time.time() + hspec.get("timeout", 300) * max(1, mult)
    for args, cur, s, p in procs:
        hung = False
        try: out, err = p.communicate(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired: p.kill(); out, err = p.communicate(); hung = True
        last = out.decode(errors="replace").strip().split("\n")[-1]
        try: j = json.loads(last)
        except Exception: j = None
        if p.returncode == 0 and j:
            tot["cases"] += j["cases"]; tot["distinct"] += j["distinct"]; tot["samples"] += j["samples"][:1]; tot["known"].update(j["known"])
            for f in j["fails"]: tot["fails"].append(dict(f, cmd=" ".join(args)))
        else:
            try: last = open(cur, "rb").read(9000).split(b"\n")[0].decode(errors="replace")
            except Exception: last = ""
            what = "did not finish (hang)" if hung else "process ended with status %s" % p.returncode
            tot["fails"].append(dict(what="crash" if not hung else "hang", detail="%s; last input: %s; %s" % (what, last, err.decode(errors="replace")[-800:]), cmd=" ".join(args)))
    return tot

# ---------------------------------------------------------------- scan for assumptions
def trusted(u):
    out = []
    for i, l in enumerate(u.lines):
        s = l.strip()
        if re.search(r"external_body|external_type_specification|assume_specification|external_fn_specification", s) or re.search(r"\b(assume|admit)\s*\(", s) and not s.startswith("//"):
            nxt = " ".join(x.strip() for x in u.lines[i:i + 4])
            m = re.search(r"(?:fn|struct|assume_specification(?:<[^>]*>)?\[?)\s+([\w:<>\[\] ]+)", nxt)
            f, e = u.fn_at(i + 1)
            name = (m.group(1).strip() if m else s)[:80]
            out.append(("assume in " + f if re.search(r"\b(assume|admit)\s*\(", s) else "trusted contract: " + name))
    unint = [re.search(r"uninterp spec fn (\w+)", l).group(1) for l in u.lines if "uninterp spec fn" in l]
    ax = [m.group(1) for m in (re.search(r"proof fn (axiom_\w+)", l) for l in u.lines) if m]
    return sorted(set(out)), sorted(set(unint)), sorted(set(ax))

def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: res.append((m.group(2), m.group(3)))
    return res

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); spec = PROPS[prop]; hspec = HARNESS[spec["harness"]]
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    ev = os.path.join(ROOT, "evidence"); os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, prop + ".replay.txt")
    if os.path.exists(replay): os.unlink(replay)
    try: rc = decide(prop, tier, seed, spec, hspec, tmp, ev, replay)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def decide(prop, tier, seed, spec, hspec, tmp, ev, replay):
    bx, bh = {}, {}
    t1 = threading.Thread(target=lambda: bx.update(r=build("extract", True)))
    t2 = threading.Thread(target=lambda: bh.update(r=build(hspec["dir"], False)))
    t1.start(); t2.start(); t1.join()
    if bx["r"][0] != 0: print(bx["r"][2].decode(errors="replace")[-3000:]); log("extractor does not build"); return 2
    log("extractor built")
    H = {}
    def hrun():
        t2.join()
        if bh["r"][0] != 0: H["err"] = bh["r"][2].decode(errors="replace")[-3000:]; return
        log("harness built")
        H["r"] = harness(prop, hspec, seed, 1 if tier == "quick" else spec.get("thorough", 20), tmp)
        log("harness: %d cases, %d failing" % (H["r"]["cases"], len(H["r"]["fails"])))
    th = threading.Thread(target=hrun); th.start()
    units, failures, undecided, other = [], [], {}, []
    hard = None
    for name in spec["units"]:
        u = Unit(name, tmp, tier); units.append(u)
        try:
            f, und = verify(u, prop)
            for d in f: (failures if relevant(spec, d) else other).append((u, d))
            for k, w in und.items(): undecided[name + ": " + k] = w
            log("%s: %s" % (name, json.dumps(u.res["verification-results"]) if u.res else "no result"))
        except Undecided as e:
            hard = str(e); undecided[name] = hard; log("undecided:", hard[:600])
    for k, w in undecided.items(): log("undecided:", k, "-", w[:300])
    for u, d in other: log("failed obligation of another property:", d["key"], d["msg"], d["clause"][:120])
    th.join()
    h = H.get("r")
    if h is None: log("native harness does not build:", H.get("err", "")[-1500:])
    known = known_findings(prop); listed, fails = [], []
    if h:
        for sig, text in known:
            if any(k.startswith(sig) for k in h["known"]): listed.append((sig, text))
        ks = {s for s, _ in known}
        for k in h["known"]:
            if k.split(":")[0] not in ks: fails.append(dict(what="unlisted finding", detail=k, cmd=""))
        fails += h["fails"]
    # a failed obligation without a failing input: look longer for one
    extra = None
    if (failures or undecided) and h and not fails:
        log("obligations not discharged; searching longer for a failing input")
        extra = harness(prop, hspec, seed, spec.get("search", 6), tmp, "x"); fails += extra["fails"]
        h["cases"] += extra["cases"]; h["distinct"] += extra["distinct"]
    vac = []
    if tier == "thorough" and not failures and not undecided:
        for u in units:
            vac += probe(u)
    # ------------------------------------------------------------ evidence
    obl = disc = 0; fnames = []; tb = []; uni = []; axs = []; per = {}
    for u in units:
        if u.res and "verification-results" in u.res:
            bd = breakdown(u)
            mods = spec.get("modules")
            sel = [b for b in bd if mods is None or any(re.fullmatch(m, b["mod"]) for m in mods) or b["mod"] == ""]
            obl += len(sel); disc += sum(1 for b in sel if b["success"])
            for b in sel: per[b["function"]] = dict(ms=b["time"], rlimit=b["rlimit"], ok=b["success"])
        und_keys = set(u.stubs)
        fnames += ["%s (%s:%s)" % (f["key"], f["file"], f["line"]) for f in u.report["functions"] if not f["key"].startswith("item ") and not f["stub"] and f["key"] not in und_keys] if hasattr(u, "report") else []
        if hasattr(u, "lines"):
            a, b, c = trusted(u); tb += a; uni += b; axs += c
    obl += sum(len(u.stubs) for u in units)
    rel_und = {k: w for k, w in undecided.items()}
    viol = []
    if fails: viol.append("failing input")
    if failures: viol.append("failed obligation")
    slow = sorted(per.items(), key=lambda x: -x[1]["ms"])[:8]
    e = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - T0, 1), violations=len(fails) + len(failures),
        coverage=dict(obligations=obl, discharged=disc,
            checker_cmd="vx %s contracts/%s OUT.rs && verus OUT.rs (Z3)" % (REPO, ",".join(spec["units"])),
            trusted_base=["Verus 0.2026.09.13 and its Z3", "extract/ (vx): the rewrites listed under extraction_rewrites", "vstd specifications"] + sorted(set(tb)),
            functions_under_contract=fnames, functions_under_contract_count=len(fnames), uninterpreted=sorted(set(uni)), axioms=sorted(set(axs)),
            extraction_rewrites={u.name: u.report["rewrites"] for u in units if hasattr(u, "report")},
            solver_ms=sum(u.solver_ms for u in units), verifier_wall_s=round(sum(u.wall for u in units), 1), verifier_runs=sum(u.runs for u in units),
            slowest=[dict(function=k, **v) for k, v in slow],
            undecided=rel_und, vacuity_probes=vac,
            bounded=dict(label="bounded, not counted as proved: native random harness against the built crate", cases=h["cases"] if h else 0, distinct=h["distinct"] if h else 0, samples=h["samples"][:3] if h else [], failing=len(fails))),
        assumptions=spec["assumes"] + ["known finding: " + t for _, t in listed])
    json.dump(e, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    for sig, text in listed: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if fails:
        with open(replay, "w") as f:
            f.write("property %s: %s\n\n" % (prop, spec.get("title", "")))
            for x in fails[:6]: f.write("failing input on the real code: %s\n  %s\n  replay: (cd %s && cargo build --offline) && %s\n\n" % (x["what"], x["detail"], os.path.join(ROOT, hspec["dir"]), x["cmd"].replace(tmp, "/tmp")))
            for u, d in failures: f.write("failed obligation: %s: %s\n%s\n" % (d["key"], d["clause"], d["rendered"]))
        for x in fails[:3]: log("failing input:", x["what"], x["detail"][:500])
        print("VIOLATION property=%s replay=%s" % (prop, replay)); return 1
    if failures:
        with open(replay, "w") as f:
            f.write("property %s\nno failing input found; the verifier no longer discharges:\n\n" % prop)
            for u, d in failures:
                src = "%s:%s" % (d["fn"]["file"], d["fn"]["line"]) if d["fn"] else u.template
                f.write("obligation: %s of %s (%s)\n  %s\n  clause: %s\nverifier output:\n%s\nfunction as extracted:\n%s\n\n" % (d["kind"], d["key"], src, d["msg"], d["clause"], d["rendered"], excerpt(u, d["fn"])))
        for u, d in failures[:5]: log("failed obligation:", d["kind"], d["key"], d["clause"][:300])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)); return 1
    if vac and any(not v["ok"] for v in vac): log("vacuous obligations", [v for v in vac if not v["ok"]]); return 2
    if (hard or undecided) and h is None: log("neither the proof nor the harness could decide"); return 2
    if disc == 0 and not undecided: log("no obligations"); return 2
    log("%s: %d of %d obligations discharged, %d harness cases%s" % (prop, disc, obl, h["cases"] if h else 0, "; undecided (bounded only): %d" % len(undecided) if undecided else ""))
    return 0

def breakdown(u):
    out = []
    try: mods = u.res["times-ms"]["smt"]["smt-run-module-times"]
    except Exception: return out
    for m in mods:
        for b in m.get("function-breakdown", []):
            out.append(dict(mod=m["module"], function=b.get("function", "?"), time=b.get("time", 0), rlimit=b.get("rlimit", 0), success=b.get("success", True)))
    return out

def probe(u):
    """reachability: an assertion of false at the start (and at the end) of every contracted function must fail"""
    out = []
    for where in ("start", "end"):
        rs = os.path.join(u.tmp, "probe_%s.rs" % where)
        rc, o, err = run([os.path.join(ROOT, "extract/target/release/vx"), REPO, u.template, rs, rs[:-3] + ".json", "--probe", where], timeout=120)
        if rc != 0: out.append(dict(unit=u.name, where=where, ok=True, note="probe not generated: " + err.decode(errors="replace")[-200:])); continue
        v = Unit(u.name, u.tmp, u.tier); v.rs, v.report = rs, json.load(open(rs[:-3] + ".json")); v.lines = open(rs).read().split("\n"); v.fns = sorted(v.report["functions"], key=lambda f: f["start"])
        v.verus(timeout=800)
        hit = {v.classify(d)["key"] for d in v.diags if "assertion failed" in d["message"]} | {v.classify(d)["key"] for d in v.diags if "rlimit" in d["message"] or "Resource" in d["message"]}
        want = {f["key"] for f in v.fns if f.get("probe") and any("assert(false)" in l for l in v.lines[f["start"] - 1:f["end"]])}
        miss = sorted(want - hit)
        out.append(dict(unit=u.name, where=where, probes=len(want), reached=len(want & hit), unreached=miss, ok=not miss))
    return out

main()
