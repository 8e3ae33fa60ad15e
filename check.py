#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property: injects the contracts into a copy of /repo/src, has Verus discharge every
obligation of the functions the property depends on, and searches for a concrete failing input
with the replay driver (bounded; longer when an obligation fails).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/tools")
import prep
from prep import VERIF, REPO, ENV

PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
VERUS_FLAGS = ["--crate-type", "lib", "--cap-lints", "allow", "--edition", "2021", "--cfg", 'feature="std"',
               "--cfg", 'feature="raii_no_panic"', "--cfg", 'feature="color_quant"']
CONTRACTS = f"{VERIF}/contracts"
PROPS = json.load(open(f"{VERIF}/tools/props.json"))
PROP = PROPS[PID]


def die(msg):
    print(f"error: {msg}")
    sys.exit(2)


class Proof:
    """One injection + Verus run over the modules the property needs."""

    def __init__(self, work):
        self.work = work
        self.degraded = {}      # fn -> reason
        self.failed = []        # {fn, file, message, line, text, props}
        self.undecided = []     # strings
        self.fns, self.times = [], {}
        self.report, self.out, self.err, self.diags = {}, None, "", []
        self.rounds = 0
        self.flags = []         # for the injector
        self.retried = False

    def inject(self, dst, extra=()):
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        cmd = [f"{VERIF}/injector/target/debug/injector", f"{REPO}/src", CONTRACTS, dst, f"{dst}/report.json", f"--only={PID}", *self.flags, *extra]
        if self.degraded:
            cmd.append("--degrade=" + ";".join(sorted(self.degraded)))
        r = prep.run(cmd)
        if r.returncode:
            return r.stderr[-2000:]
        shutil.copy(f"{CONTRACTS}/vspec.rs", f"{dst}/vspec.rs")
        if os.path.exists(f"{REPO}/README.md"):
            shutil.copy(f"{REPO}/README.md", os.path.dirname(dst) + "/README.md")
        self.report = json.load(open(f"{dst}/report.json"))
        return None

    def verus(self, dst, timeout, *more):
        lib, _ = self.rlibs
        cmd = ["verus", f"{dst}/lib.rs", *VERUS_FLAGS, "-L", lib, "--extern", f"weezl={lib}/libweezl.rlib",
               "--extern", f"color_quant={lib}/libcolor_quant.rlib", "--output-json", "--time-expanded",
               "--error-format=json", "--multiple-errors", "3", "--num-threads", "7", *more]
        for m in PROP["modules"]:
            cmd += ["--verify-only-module", m]
        self.cmd = " ".join(cmd).replace(dst, "<injected src>")
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, [], "timeout"
        try:
            out = json.loads(r.stdout)
        except ValueError:
            out = None
        diags = []
        for line in r.stderr.splitlines():
            try:
                diags.append(json.loads(line))
            except ValueError:
                pass
        return out, diags, r.stderr

    def locate(self, dst, d):
        """function under contract that a diagnostic belongs to"""
        spans = sorted(d.get("spans", []), key=lambda s: not s["is_primary"])
        for s in spans:
            f = os.path.relpath(s["file_name"], dst) if os.path.isabs(s["file_name"]) else s["file_name"]
            for fn in self.report["fns"]:
                if fn["file"] == f and fn["body"] and fn["lines"][0] <= s["line_start"] <= fn["lines"][1]:
                    return fn, s
        return None, (spans[0] if spans else None)

    def go(self):
        dst = f"{self.work}/src"
        timeout = 400 if TIER == "quick" else 900
        for self.rounds in range(1, 9):
            e = self.inject(dst)
            if e:
                self.undecided.append(f"injection: {e}")
                return
            new = {}
            for m in self.report["loop_mismatch"]:
                fn = m.split(": ")[1]
                if fn not in self.degraded:
                    new[fn] = f"loop structure differs from the contract's ({m})"
            if new:
                self.degraded.update(new)
                continue
            left = max(30, timeout - (time.time() - T0))
            self.out, self.diags, self.err = self.verus(dst, left)
            if self.out is None and self.err == "timeout":
                self.undecided.append("Verus ran out of time")
                return
            res = (self.out or {}).get("verification-results", {})
            errs = [d for d in self.diags if d["level"] == "error" and not d["message"].startswith("aborting due to")]
            ran = self.out is not None and not res.get("encountered-vir-error", True) and "times-ms" in self.out and \
                bool(self.out["times-ms"].get("smt", {}).get("smt-run-module-times"))
            if res.get("success") or (ran and res.get("errors", 0) > 0):
                first = self.results(dst, errs)
                if first and time.time() - T0 < 0.6 * timeout:
                    # another attempt with another seed and more room: what is accepted in either attempt is discharged
                    self.retried = True
                    keep = self.out, self.diags, self.err
                    out, diags, err = self.verus(dst, max(30, timeout - (time.time() - T0)), "--rlimit", "30", "--smt-option", "smt.random_seed=7")
                    if out is not None and bool(out.get("times-ms", {}).get("smt", {}).get("smt-run-module-times")):
                        self.out, self.diags, self.err = out, diags, err
                        second = {k for k, _, _ in self.results(dst, [d for d in diags if d["level"] == "error" and not d["message"].startswith("aborting due to")])}
                        first = [x for x in first if x[0] in second]
                    else:
                        self.out, self.diags, self.err = keep
                for _, kind, x in first:
                    if kind == "failed":
                        self.failed.append(x)
                    elif kind == "degraded":
                        self.degraded[x[0]] = x[1]
                    elif x not in self.undecided:
                        self.undecided.append(x)
                return
            # not accepted by the verifier's front end: set the functions aside and go on with the others
            new = {}
            for d in errs:
                fn, _ = self.locate(dst, d)
                if fn is None and "external_body" not in d["message"]:
                    continue
                if fn is not None and fn["fn"] not in self.degraded:
                    new[fn["fn"]] = f"outside the verifier's reach: {d['message'][:300]}"
            if not new and self.report.get("inlined") and "--no-inline" not in self.flags:
                self.flags.append("--no-inline")
                self.degraded = {}
                continue
            if not new:
                self.undecided.append("Verus does not accept the code: " + "; ".join(d["message"][:300] for d in errs[:3]) + (self.err[-500:] if not errs else ""))
                return
            self.degraded.update(new)
        self.undecided.append("too many functions outside the verifier's reach")

    def results(self, dst, errs):
        """[(key, kind, item)] for everything that was not accepted"""
        got = []
        for m in self.out["times-ms"]["smt"].get("smt-run-module-times", []):
            for b in m.get("function-breakdown", []):
                self.times[b["function"]] = b
        lostfns = {x.split(": ")[1]: x for x in self.report["lost"] if x.count(": ") >= 2}
        for d in errs:
            fn, s = self.locate(dst, d)
            text = ""
            tags = set()
            for sp in d.get("spans", []):
                try:
                    lines = open(sp["file_name"]).read().splitlines()
                    t = " ".join(x.strip() for x in lines[sp["line_start"] - 1:sp["line_end"]])[:400]
                except OSError:
                    t = ""
                if not sp["is_primary"] or not text:
                    text = (text + " | " if text else "") + t
                tags |= {x for m in re.findall(r"/\*((?:C\d\d,?)+)\*/", t) for x in m.split(",") if x}
            item = dict(fn=fn["fn"] if fn else "(lemma)", file=s["file_name"].replace(dst + "/", "") if s else "", src_line=fn["src_line"] if fn else 0,
                        message=d["message"], obligation=text, rendered=d.get("rendered", "")[:3000])
            if "rlimit" in d["message"] or "Resource limit" in d["message"]:
                if fn is None or PID in fn["props"]:
                    got.append((item["fn"] if fn else text, "undecided", f"{item['fn']}: {d['message']}"))
                continue
            if fn is None:
                got.append((text, "undecided", f"lemma: {d['message']} {text}"))
                continue
            props = tags if tags else set(fn["props"])
            if PID not in props:
                continue
            if fn["fn"] in lostfns:
                got.append((fn["fn"], "degraded", (fn["fn"], f"proof hint lost its anchor ({lostfns[fn['fn']]}); {d['message']}")))
                continue
            got.append((fn["fn"], "failed", item))
        return got

    def canary(self):
        """every precondition is satisfiable: an `assert(false)` at the start of each function must fail"""
        dst = f"{self.work}/canary"
        keep = self.report
        if self.inject(dst, ["--canary"]):
            self.report = keep
            return None
        out, diags, _ = self.verus(dst, 300)
        hit = set()
        for d in diags:
            fn, _ = self.locate(dst, d)
            if fn:
                hit.add(fn["fn"])
        fns = [f["fn"] for f in self.report["fns"] if f["body"] and not f["external_body"] and PID in f["props"]]
        self.report = keep
        if out is None:
            return None
        return sorted(f for f in fns if f not in hit and not f.endswith("as Drop>::drop")), len(fns)


def trusted_base():
    tb = []
    for f in sorted(os.listdir(CONTRACTS)):
        cur = None
        text = open(f"{CONTRACTS}/{f}").read()
        lines = text.splitlines()
        for i, l in enumerate(lines):
            m = re.search(r"assume_specification[^\[]*\[\s*(.+?)\s*\]\s*\(", l)
            if m:
                tb.append(f"{f}: assumed contract on {m.group(1)}")
            elif "external_body" in l or "broadcast axiom" in l or re.search(r"\baxiom fn\b", l):
                nxt = " ".join(lines[i:i + 4])
                n = re.search(r"\b(?:fn|struct|enum)\s+(\w+)", nxt) or re.search(r"//// (?:fn|type) (\S+)", " ".join(lines[max(0, i - 2):i + 1]))
                kind = "axiom" if "axiom" in l else "external body"
                tb.append(f"{f}: {kind} {n.group(1) if n else l.strip()[:80]}")
            elif "external_trait_specification" in l or "external_type_specification" in l:
                nxt = " ".join(lines[i:i + 5])
                n = re.search(r"\b(?:trait|struct|enum)\s+(\w+)", nxt)
                tb.append(f"{f}: specification of external {n.group(1) if n else ''}")
            elif re.search(r"\b(assume|admit)\s*\(", l) and not l.strip().startswith("//"):
                tb.append(f"{f}:{i + 1}: {l.strip()[:120]}")
    return sorted(set(tb))


def replay(ms, out):
    try:
        r = subprocess.run([f"{VERIF}/replay/target/debug/replay", "run", "--prop", PID, "--seed", str(SEED), "--ms", str(ms),
                            "--threads", "8", "--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=ms / 1000 + 120, cwd="/")
    except subprocess.TimeoutExpired:
        return None, "timeout"
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        return None, (r.stderr or r.stdout)[-1500:] + f" (exit {r.returncode})"
    return j, ""


def main():
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{VERIF}/target", exist_ok=True)
    work = tempfile.mkdtemp(prefix="check-", dir=f"{VERIF}/target")
    try:
        return check(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(work):
    inj, rep = prep.cargo("injector"), prep.cargo("replay")
    p = Proof(work)
    p.rlibs = prep.rlibs()
    o, _ = inj.communicate()
    if inj.returncode:
        die(f"the injector does not build:\n{o[-3000:]}")
    p.go()
    vac = p.canary() if (p.out is not None and not p.failed and not p.undecided and (TIER == "thorough" or PROP.get("canary", True))) else None
    o, _ = rep.communicate()
    if rep.returncode:
        die(f"the replay driver does not build against {REPO}:\n{o[-3000:]}")
    # functions whose contract is assumed are in trusted_base; a function verified case by case counts through its cases
    want = [f for f in p.report.get("fns", []) if PID in f["props"] and (not f["external_body"] or f["fn"] in p.degraded)]
    missing = [m for m in p.report.get("missing", []) + p.report.get("lost", [])]
    undecided = list(p.undecided) + [f"{f}: {r}" for f, r in p.degraded.items() if any(w["fn"] == f for w in want)]
    named = {x for x in PROP.get("files", [])}
    undecided += [f"missing: {m}" for m in missing if m.split(":")[0] in named]
    ms = PROP.get("ms", 4000) if TIER == "quick" else 120000
    if p.failed or undecided:
        ms = max(ms, 45000 if TIER == "quick" else 240000)
    rj, rerr = replay(ms, f"{work}/replay.json")
    broken = rj is not None and rj.get("status") == "violation"
    verdict, path = 0, f"evidence/{PID}.replay.json"
    try:
        os.remove(f"{VERIF}/{path}")
    except OSError:
        pass
    line = None
    if broken:
        verdict = 1
        json.dump(dict(rj, property=PID, failed_obligations=p.failed, how="replay case --prop %s --case-seed %s" % (PID, rj.get("case_seed"))), open(f"{VERIF}/{path}", "w"), indent=1)
        line = f"VIOLATION property={PID} replay={path}"
    elif p.failed:
        verdict = 1
        json.dump(dict(property=PID, failed_obligations=p.failed, searched=rj, note="no failing input found: the file names the obligations the verifier no longer discharges"), open(f"{VERIF}/{path}", "w"), indent=1)
        line = f"VIOLATION property={PID} replay={path} no-failing-input-found"
    elif rj is None:
        die(f"replay driver: {rerr}")
    deg = set(p.degraded)
    ok = [w for w in want if w["fn"] not in deg and not w["external_body"] and not any(x["fn"] == w["fn"] for x in p.failed)]
    if p.undecided:
        ok = []
    mods = {b: t for b, t in p.times.items()}
    queries = [t for t in mods.values()]
    cov = dict(
        obligations=len(want), discharged=len(ok),
        checker_cmd=getattr(p, "cmd", ""),
        trusted_base=trusted_base() + [f"compiler, Verus {((p.out or {}).get('verus') or {}).get('version', '')} and Z3"],
        back_end="Verus / Z3",
        functions_under_contract=[f"{w['file']}: {w['fn']} (line {w['src_line']})" for w in want],
        clauses=sum(w.get("clauses", 0) for w in want),
        verifier=dict((p.out or {}).get("verification-results", {})),
        queries=len(queries), queries_succeeded=sum(1 for t in queries if t.get("success")),
        solver_ms=(p.out or {}).get("times-ms", {}).get("smt", {}).get("smt-run"),
        rewrites=p.report.get("rewrites", {}),
        second_attempt=p.retried,
        helpers_put_back=p.report.get("inlined", []),
        vacuity=None if vac is None else dict(functions=vac[1], vacuous=vac[0]),
        undecided=undecided, failed=p.failed,
        outside_contracts=PROP.get("outside", []),
        not_verified=[f"{u['file']}: {u['fn']}: {u['reason']}" for u in p.report.get("unverified", []) if u["file"] in named],
        bounded_replay=None if rj is None else dict(evaluations=rj.get("cases"), distinct_nontrivial=rj.get("distinct_nontrivial"), budget_ms=ms,
            rule="random cases from the generators of /verif/replay, biased to this property; bounded, not counted as proved", samples=rj.get("samples", [])[:2]),
    )
    level = PROP.get("level", "proof")
    if level == "proof" and not ok and not p.failed and undecided:
        cov["explanation"] = "no obligation decided on this tree; the bounded replay stood in"
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=PROP.get("assumptions", []),
              wall_s=round(time.time() - T0, 1), violations=1 if verdict else 0)
    json.dump(ev, open(f"{VERIF}/evidence/{PID}.json", "w"), indent=1)
    if vac is not None and vac[0]:
        print(f"note: vacuous contracts: {vac[0]}")
        if not p.failed and not undecided:
            die("a contract is vacuous")
    for u in undecided:
        print(f"undecided: {u[:300]}")
    for f in p.failed:
        print(f"failed obligation: {f['file']}: {f['fn']}: {f['message']}: {f['obligation'][:300]}")
    for l in open(f"{VERIF}/known_findings.txt"):
        if l.startswith("finding:") and f"property={PID} " in l:
            print("KNOWN-FINDING: " + l[len("finding:"):].strip())
    print(f"{PID}: {len(ok)} of {len(want)} functions discharged, {len(p.failed)} failed obligations, {len(undecided)} undecided; "
          f"bounded replay {rj.get('cases') if rj else 0} cases; {time.time() - T0:.0f} s")
    if line:
        if broken:
            print(f"{rj['what'][:500]}")
        print(line)
    return verdict


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
