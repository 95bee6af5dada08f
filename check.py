#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

usage: check.py PROPERTY [quick|thorough]

1. gocv verifies every contract of the property against the real source (contracts/ overlaid on /repo).
2. The same contracts, and the property's bounded harnesses, run natively on the real code
   (go test -overlay); counterexamples of the verifier are replayed there.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Other: could not run (repository does not build).
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONTRACTS = os.path.join(VERIF, "contracts")
PROP = sys.argv[1]
TIER = (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
T0 = time.time()
SECS = 60 if THOROUGH else 20
DEADLINE = T0 + (3000 if THOROUGH else 600)

GOROOT120 = "/root/go/pkg/mod/golang.org/toolchain@v0.0.1-go1.20.14.linux-amd64"
ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME") or "/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build",
           PATH=GOROOT120 + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", VERIF_SEED=str(SEED), VERIF_TIER=TIER)
ENV.pop("GOROOT", None)


def log(*a):
    print(*a, flush=True)


def build_gocv(scratch):
    h = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/gocv/*.go") + [VERIF + "/gocv/go.mod", VERIF + "/gocv/go.sum"]):
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    out = "%s/.bin/gocv-%s" % (VERIF, h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    os.makedirs(VERIF + "/.bin", exist_ok=True)
    tmp = scratch + "/gocv"
    subprocess.run(["bash", VERIF + "/gocv/build.sh", tmp], check=True, env=dict(ENV, PATH=os.environ.get("PATH", ENV["PATH"])))
    for old in glob.glob(VERIF + "/.bin/gocv-*"):
        if old != out:
            try:
                os.unlink(old)
            except OSError:
                pass
    shutil.copy(tmp, out + ".tmp%d" % os.getpid())
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out


def is_internal(target):
    """Whether a contract's target is not visible outside its package."""
    t = (target or "").split("/")[-1]
    parts = re.split(r"[.*()]+", t)
    last = [x for x in parts if x]
    return bool(last) and ("$" in t or last[-1][:1].islower())


class Native:
    """One package's contracts and harnesses compiled into its test binary through an overlay."""

    def __init__(self, pkgdir, scratch, dropped, contracts):
        self.dir, self.scratch = pkgdir, scratch
        self.dropped = set(dropped)
        self.notes = []
        self.contracts = contracts  # all contracts (list entries) of this package
        self.bin = None

    def build(self):
        for attempt in range(8):
            ov = {}
            base = os.path.join(CONTRACTS, self.dir)
            d = os.path.join(self.scratch, "native", self.dir)
            os.makedirs(d, exist_ok=True)
            pkg = None
            for f in glob.glob(os.path.join(REPO, self.dir, "*.go")):
                if f.endswith("_test.go"):
                    continue
                m = re.search(r"^package (\w+)", open(f, errors="replace").read(), re.M)
                if m:
                    pkg = m.group(1)
                    break
            if pkg is None:
                self.notes.append("no package in " + self.dir)
                return False
            src_have = {}
            for f in sorted(glob.glob(base + "/*.go")):
                if f in self.dropped:
                    continue
                name = "zz_verif_" + os.path.basename(f)[:-3] + "_test.go"
                dst = os.path.join(REPO, self.dir, name)
                ov[dst] = f
                src_have[name] = f
            rt = open(CONTRACTS + "/_rt/rt.go.tmpl").read()
            nt = open(CONTRACTS + "/_rt/native_test.go.tmpl").read()
            text = "".join(open(f).read() for f in src_have.values())
            regs = [c for c in self.contracts if c["replay"] and re.search(r"^func %s\(" % re.escape(c["name"].split(".")[-1]), text, re.M)]
            reg = "package %s\n\nvar verifRegistry = map[string]interface{}{\n%s}\n" % (
                pkg, "".join("\t%s: %s,\n" % (json.dumps(c["name"].split(".")[-1]), c["name"].split(".")[-1]) for c in regs))
            for name, body in (("zz_verif_rt_test.go", "package %s\n%s" % (pkg, rt)),
                               ("zz_verif_nrt_test.go", "package %s\n%s" % (pkg, nt)),
                               ("zz_verif_reg_test.go", reg)):
                p = os.path.join(d, name)
                open(p, "w").write(body)
                ov[os.path.join(REPO, self.dir, name)] = p
            # the package's own tests stay out of this binary
            for f in glob.glob(os.path.join(REPO, self.dir, "*_test.go")):
                ov[f] = ""
            ovf = os.path.join(d, "overlay.json")
            json.dump({"Replace": ov}, open(ovf, "w"))
            self.bin = os.path.join(d, "verif.test")
            p = subprocess.run(["go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", self.bin, "./" + self.dir],
                               cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode == 0 and os.path.exists(self.bin):
                return True
            bad = set(re.findall(r"zz_verif_\w+_test\.go", p.stdout)) & set(src_have)
            if not bad:
                self.notes.append("native build of %s failed: %s" % (self.dir, p.stdout[-600:]))
                self.bin = None
                return False
            for b in bad:
                self.notes.append("%s does not compile against this tree: %s" % (b, (re.search(r"%s:.*" % re.escape(b), p.stdout) or [""])[0]))
                self.dropped.add(src_have[b])
        return False

    def run(self, pattern, env, timeout):
        out = tempfile.NamedTemporaryFile(dir=self.scratch, suffix=".jsonl", delete=False).name
        e = dict(ENV, VERIF_OUT=out, TMPDIR=self.scratch, **env)
        try:
            p = subprocess.run([self.bin, "-test.run", pattern, "-test.timeout", "%ds" % timeout, "-test.v"],
                               cwd=os.path.join(REPO, self.dir), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 30)
            txt = p.stdout.decode(errors="replace")
            rc = p.returncode
        except subprocess.TimeoutExpired as ex:
            txt, rc = (ex.stdout or b"").decode(errors="replace"), 124
        recs = []
        for l in open(out):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
        return rc, recs, txt


def main():
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % PROP)
    try:
        return run(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(scratch):
    manifest = json.load(open(VERIF + "/MANIFEST.json"))
    entry = next((c for c in manifest["checks"] if c["property"] == PROP), {})
    known = json.load(open(VERIF + "/known_findings.json"))
    expect = json.load(open(VERIF + "/contracts/EXPECT.json")).get(PROP, [])
    gocv = build_gocv(scratch)
    lst = subprocess.run([gocv, "-repo", REPO, "-contracts", CONTRACTS, "-list"], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    try:
        info = json.loads(lst.stdout)
    except ValueError:
        info = {"error": lst.stderr[-800:]}
    if "error" in info:
        log("ERROR: cannot load the repository:", info["error"])
        return 2
    allc = info["contracts"] or []
    mine = [c for c in allc if PROP in c["props"] and (THOROUGH or not c["thorough_only"])]
    dropped_files = [d.split(": ")[0] for d in info.get("dropped") or []]
    names = {c["name"] for c in mine}
    demoted = []
    for n in expect:
        if n not in names:
            demoted.append({"contract": n, "why": "its target or a name it mentions is not in this tree"})
    for d in info.get("dropped") or []:
        log("note: contract file does not type-check against this tree:", d)

    # ---- native packages of this property
    pkgs = {}
    for c in allc:
        rel = c["pkg"][len("github.com/datawire/ocibuild"):].lstrip("/")
        pkgs.setdefault(rel, []).append(c)
    harness_pkgs = set()
    for f in glob.glob(CONTRACTS + "/**/native_*.go", recursive=True):
        if "func TestVerif_%s_" % PROP in open(f).read():
            d = os.path.relpath(os.path.dirname(f), CONTRACTS)
            harness_pkgs.add("" if d == "." else d)
    native_dirs = harness_pkgs | {c["pkg"][len("github.com/datawire/ocibuild"):].lstrip("/") for c in mine if c["replay"]}
    natives = {}

    def native_job(d):
        n = Native(d, scratch, dropped_files, pkgs.get(d, []))
        if not n.build():
            return d, n, None
        search = ",".join(c["name"].split(".")[-1] for c in mine if c["replay"] and c["pkg"].endswith(d))
        r = n.run("^(TestVerifSearch|TestVerif_%s_.*)$" % PROP,
                  {"VERIF_SEARCH": search, "VERIF_SEARCH_MS": "15000" if THOROUGH else "2500"}, 900 if THOROUGH else 240)
        return d, n, r

    def proof_job(c, slow=False):
        left = max(60, DEADLINE - time.time())
        try:
            p = subprocess.run([gocv, "-repo", REPO, "-contracts", CONTRACTS, "-json", "-contract", c["name"], "-secs", str(SECS * (2 if slow else 1)), "-par", "8" if slow else "3"],
                               cwd=REPO, env=dict(ENV, GOCV_SLOW="1") if slow else ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left)
            for l in p.stdout.splitlines():
                r = json.loads(l)
                if "Contract" in r:
                    return c, r
            return c, {"Contract": c["name"], "Status": "unsupported", "Reason": "no result: " + p.stderr[-300:], "Obligations": []}
        except subprocess.TimeoutExpired:
            return c, {"Contract": c["name"], "Status": "unsupported", "Reason": "time limit", "Obligations": []}
        except ValueError as ex:
            return c, {"Contract": c["name"], "Status": "unsupported", "Reason": "bad output %s" % ex, "Obligations": []}

    violations, notes = [], []
    results = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        pf = [ex.submit(proof_job, c) for c in mine]
        with concurrent.futures.ThreadPoolExecutor(2) as nx:
            nf = [nx.submit(native_job, d) for d in sorted(native_dirs)]
            nres = [f.result() for f in nf]
        results = [f.result() for f in pf]
    # a proof that did not go through is tried again alone with more time, unless the real code already failed
    if not any(x["outcome"] in ("fail", "panic") for _, _, r in nres if r for x in r[1]):
        for i, (c, r) in enumerate(results):
            if r["Status"] not in ("proved", "unsupported") and time.time() < DEADLINE - 200:
                c2, r2 = proof_job(c, slow=True)
                if r2["Status"] == "proved":
                    results[i] = (c2, r2)

    search_fail = {}
    evals = distinct = skipped = 0
    samples, rules, bounds = [], [], []
    harness_ok = 0
    for d, n, r in nres:
        natives[d] = n
        notes += n.notes
        if r is None:
            continue
        rc, recs, txt = r
        fails = [x for x in recs if x["outcome"] in ("fail", "panic")]
        for x in recs:
            if x["outcome"] == "summary":
                evals += x.get("evals", 0)
                distinct += x.get("distinct", 0)
                skipped += x.get("skipped", 0)
                samples += [x["name"] + ": " + s for s in x.get("samples", [])[:2]]
                if x.get("rule"):
                    rules.append(x["name"] + ": " + x["rule"])
                if x.get("bound"):
                    bounds.append(x["name"] + ": " + x["bound"])
                if x["kind"] == "harness":
                    harness_ok += 1
        for x in fails:
            if x["kind"] == "search":
                search_fail[x["name"]] = x
            violations.append({"kind": "native", "name": x["name"], "label": x.get("label", ""), "input": x.get("input", ""), "detail": x.get("detail", ""), "pkg": d, "outcome": x["outcome"]})
        if rc != 0 and not fails:
            # the test binary died (crash, deadlock, timeout): the real code did not finish on a harness input
            running = re.findall(r"^=== RUN\s+(\S+)", txt, re.M)
            violations.append({"kind": "native", "name": running[-1] if running else d, "label": "harness did not finish (rc=%s)" % rc, "input": "", "detail": txt[-1500:], "pkg": d, "outcome": "crash"})

    # ---- proofs
    obligations = discharged = trivial = invariants = 0
    solver_secs = 0.0
    assumptions, under, backends, proved = set(), set(), {}, []
    for c, r in results:
        short = c["name"].split(".")[-1]
        obs = r.get("Obligations") or []
        obligations += len(obs) + r.get("Trivial", 0)
        trivial += r.get("Trivial", 0)
        invariants += r.get("Invariants", 0)
        solver_secs += r.get("SolverSecs", 0)
        discharged += r.get("Trivial", 0) + sum(o["Result"] == "proved" for o in obs)
        for o in obs:
            if o["Result"] == "proved":
                backends[o["Solver"]] = backends.get(o["Solver"], 0) + 1
        for a in r.get("Assumptions") or []:
            assumptions.add(a)
        for a in r.get("Notes") or []:
            notes.append(c["name"] + ": " + a)
        under.update(x for x in (r.get("Inlined") or []) if "zz_verif" not in x)
        if r["Status"] == "proved" and not r.get("Vacuous"):
            proved.append(c["name"])
            continue
        if r["Status"] == "proved" and r.get("Vacuous"):
            demoted.append({"contract": c["name"], "why": "vacuous: its preconditions or paths are unreachable in this tree"})
            continue
        if r["Status"] == "unsupported":
            demoted.append({"contract": c["name"], "why": "outside the verifier's reach here: " + r.get("Reason", "")})
            continue
        bad = [o for o in obs if o["Result"] != "proved"]
        rec = {"kind": "proof", "name": short, "label": bad[0]["Label"] if bad else "?", "obligations": bad,
               "contract": c["name"], "target": c["target"], "models": r.get("Models") or [], "input": "", "status": r["Status"]}
        # replay
        d = c["pkg"][len("github.com/datawire/ocibuild"):].lstrip("/")
        n = natives.get(d)
        if short in search_fail:
            rec["input"], rec["replayed"] = search_fail[short].get("input", ""), "seeded search"
        elif n is not None and n.bin and c["replay"]:
            mf = scratch + "/models.json"
            json.dump([{"Contract": short, "Obligation": m["Obligation"], "Params": r.get("Params") or [], "Inputs": m["Inputs"]} for m in rec["models"]], open(mf, "w"))
            _, recs, _ = n.run("^TestVerifReplay$", {"VERIF_MODELS": mf}, 60)
            hit = [x for x in recs if x["outcome"] in ("fail", "panic")]
            rec["replay_results"] = recs
            if hit:
                rec["input"], rec["replayed"], rec["detail"] = hit[0]["input"], "counterexample replayed on the real code", hit[0].get("detail", "")
            else:
                _, recs, _ = n.run("^TestVerifSearch$", {"VERIF_SEARCH": short, "VERIF_SEARCH_MS": "20000", "VERIF_SEARCH_N": "5000000"}, 90)
                hit = [x for x in recs if x["outcome"] in ("fail", "panic")]
                if hit:
                    rec["input"], rec["replayed"] = hit[0]["input"], "seeded search"
        violations.append(rec)

    # ---- known findings
    out_viol, known_hit = [], []
    for v in violations:
        k = None
        for f in known:
            if f.get("status") != "known" or f["property"] != PROP:
                continue
            if f["name"] == v["name"] and re.fullmatch(f.get("label", ".*"), v.get("label", ""), re.S) and re.fullmatch(f.get("input", ".*"), v.get("input", ""), re.S):
                k = f
                break
        if k:
            known_hit.append(k)
        else:
            out_viol.append(v)
    for f in known:
        if f.get("status") == "known" and f["property"] == PROP:
            log("KNOWN-FINDING: property=%s %s" % (PROP, f["what"]))

    # ---- evidence
    level = entry.get("level", "other")
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "gocv -json -contract <name> (per contract below); back ends z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
        "trusted_base": ["gocv (Go SSA to SMT-LIB verification-condition generator, /verif/gocv)", "golang.org/x/tools/go/ssa", "z3", "cvc5",
                          "contracts/_rt (contract runtime)", "library models listed under assumptions"],
        "trivial_obligations": trivial, "loop_invariants_proved": invariants, "discharged_by": backends,
        "solver_seconds": round(solver_secs, 2),
        "contracts": [{"name": r["Contract"], "target": c["target"] or "(lemma over contracts)", "status": r["Status"], "reason": r.get("Reason", ""),
                       "obligations": len(r.get("Obligations") or []) + r.get("Trivial", 0), "applied": r.get("Applied") or []} for c, r in results],
        "functions_under_contract": sorted(under),
        "demoted_to_bounded": demoted,
        "evaluations": evals, "distinct_nontrivial": distinct,
        "rule": "; ".join(rules + ["contracts run natively on seeded inputs that satisfy their preconditions; a case counts when the precondition holds"]),
        "samples": samples[:12], "bounds": bounds, "notes": sorted(set(notes)),
    }
    if level == "other":
        cov["explanation"] = entry.get("level_note", "")
    ev = {"property": PROP, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": level, "coverage": cov,
          "assumptions": sorted(assumptions), "wall_s": round(time.time() - T0, 2), "violations": len(out_viol)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, PROP), "w"), indent=1)

    for x in demoted:
        log("BOUNDED: contract %s is not proved on this tree (%s); its bounded stand-in decides" % (x["contract"], x["why"]))
    log("%s: %d/%d contracts proved, %d/%d obligations discharged, %d native evaluations, %.1f s" % (PROP, len(proved), len(mine), discharged, obligations, evals, time.time() - T0))
    if not out_viol:
        return 0
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    # A contract on an unexported function can break in an edit that moves work between helpers and keeps
    # the behaviour: its failure alone is an unconfirmed alarm until something observable fails too.
    internal = {c["name"].split(".")[-1] for c in mine if is_internal(c["target"])}
    concrete = [v for v in out_viol if (v.get("input") or v["kind"] == "native") and v["name"] not in internal]
    for i, v in enumerate((concrete or out_viol)[:4]):
        path = "%s/evidence/replay/%s-%d.json" % (VERIF, PROP, i)
        json.dump({"property": PROP, "seed": SEED, "violation": v, "rerun": "VERIF_SEED=%d python3 %s/check.py %s %s" % (SEED, VERIF, PROP, TIER)}, open(path, "w"), indent=1)
        log("  failed: %s [%s] %s" % (v["name"], v.get("label", ""), ("input: " + v["input"][:400]) if v.get("input") else ""), v.get("detail", "")[:600])
        log("VIOLATION property=%s replay=%s%s" % (PROP, path, "" if concrete else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as ex:  # the check itself failed
        import traceback
        traceback.print_exc()
        sys.exit(3)
