#!/usr/bin/env python3
"""One property check: python3 bin/check.py <id> [--thorough]

1. deductive part: extracts the functions the property depends on from /repo's
   current source, puts the contracts of /verif/contracts on them and has the
   verifier discharge every obligation (deductive/*.py);
2. concrete part: searches for a failing input on the real code (harness/).

Exit 0: property held on everything explored. Exit 1: a VIOLATION line."""
import json, os, subprocess, sys, time, threading, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))

def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.setdefault("LANG", "C.UTF-8")
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"): e.pop(k, None)
    return e

def sh(cmd, timeout=600, cwd=None, extra=None):
    e = env()
    if extra: e.update(extra)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), r.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, r = p.communicate()
        return 124, o.decode("utf8", "replace"), r.decode("utf8", "replace")

# ---------------------------------------------------------------- concrete --
def patch_args():
    return ["--config", f'patch.crates-io.fyi_ansi.path="{REPO}/fyi_ansi"']

def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        with open("/opt/vp/Cargo.lock", "rb") as a, open(lock, "wb") as b: b.write(a.read())

class Concrete:
    """Builds and runs the search crate; result in .report/.error."""
    CLI = {"C14", "C15"}
    NOTS = {"C01", "C03", "C12", "C17"}
    SIG = {"C22"}
    CONFIG = {"h": "default", "h-nots": "no timestamps", "h-sig": "signals"}
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.reports, self.error, self.fail = [], None, None
    def run(self):
        try: self._run()
        except Exception as e: self.error = f"{type(e).__name__}: {e}"
    def _build(self, sub, args, cwd):
        extra = {"CARGO_TARGET_DIR": os.path.join(BUILD, sub)}
        rc, o, r = sh(["cargo", "build", "--offline"] + args, 600, cwd, extra)
        if rc: raise RuntimeError("build failed: " + " ".join(args) + "\n" + r[-3000:])
    def _run(self):
        ensure_lock()
        extra = {"VERIF_SEED": str(self.seed), "VERIF_TIER": self.tier}
        if self.prop == "C20":
            import style
            rep = style.search(VERIF, REPO, BUILD, sh, self.seed, self.tier)
            self.reports.append(rep)
            if rep["fail"]: self.fail = (rep["config"], rep["fail"])
            return
        hd = os.path.join(VERIF, "harness")
        if REPO != "/repo":
            # Development only: point the harness at a scratch copy.
            hd2 = os.path.join(BUILD, "hsrc"); os.makedirs(hd2, exist_ok=True)
            sh(["cp", "-a", hd + "/.", hd2]); hd = hd2
            t = open(hd + "/Cargo.toml").read().replace("/repo/", REPO + "/"); open(hd + "/Cargo.toml", "w").write(t)
        if self.prop in self.CLI:
            cfg = ["--config", f'patch.crates-io.fyi_ansi.path="{REPO}/fyi_ansi"']
            self._build("fyi", cfg + ["-p", "fyi"], REPO)
            extra["FYI_BIN"] = os.path.join(BUILD, "fyi/debug/fyi")
        runs = [("h", [])]
        if self.prop in self.NOTS: runs.append(("h-nots", ["--no-default-features"]))
        if self.prop in self.SIG: runs = [("h-sig", ["--features", "sig"])]
        share = self.budget / len(runs)
        for sub, args in runs:
            self._build(sub, args, hd)
            rc, o, r = sh([os.path.join(BUILD, sub, "debug/fyi_search"), self.prop, "--budget", f"{share:.1f}"], share * 4 + 120, VERIF, extra)
            lines = [l for l in o.splitlines() if l.startswith("{")]
            rep = None
            if lines:
                try: rep = json.loads(lines[-1])
                except ValueError: rep = None
            if rc in (0, 1) and rep is not None:
                rep["config"] = self.CONFIG[sub]
                self.reports.append(rep)
                if rep.get("fail"): self.fail = (rep["config"], rep["fail"]); return
                continue
            if rc < 0 or rc >= 128 or rc == 124 or rc == 101:
                # The process itself died or hung (a panic outside of a caught case): report as failing run.
                self.fail = (self.CONFIG[sub], {"input": f"whole run: fyi_search {self.prop} seed={self.seed}", "what": f"process ended with status {rc}: {r[-1500:]}"})
                return
            raise RuntimeError(f"search unusable (status {rc}): {r[-1500:]}")

# -------------------------------------------------------------------- main --
def main():
    prop = sys.argv[1]
    thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough"
    tier = "thorough" if thorough else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    budget = float(os.environ.get("VX_BUDGET", "240" if thorough else "20"))
    con = Concrete(prop, tier, seed, budget)
    th = threading.Thread(target=con.run); th.start()
    ded = None
    try:
        from deductive import run as dr
        ded = dr.run(prop, tier, REPO, BUILD, sh)
    except ImportError:
        ded = None
    th.join()

    known = load_known(prop)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    replay = os.path.join(VERIF, "replays", f"{prop}.json")
    violations, out = 0, []
    failed_obl = ded["failed"] if ded else []
    if con.fail:
        cfg, f = con.fail
        k = next((k for k in known if k in f["input"]), None)
        if k: out.append(f"KNOWN-FINDING: property={prop} {k}")
        else:
            violations = 1
            json.dump({"property": prop, "kind": "failing input", "config": cfg, "seed": seed, "tier": tier, "input": f["input"], "what": f["what"],
                "rerun": f"VERIF_SEED={seed} python3 bin/check.py {prop}", "failed_obligations": failed_obl}, open(replay, "w"), indent=1)
            out.append(f"failing input: {f['input']}\n  {f['what']}")
            out.append(f"VIOLATION property={prop} replay={replay}")
    elif failed_obl:
        violations = 1
        json.dump({"property": prop, "kind": "failed obligation", "seed": seed, "tier": tier, "failed_obligations": failed_obl,
            "note": "no failing input was found by the concrete search", "rerun": f"python3 bin/check.py {prop}"}, open(replay, "w"), indent=1)
        for f in failed_obl: out.append(f"failed obligation: {f['function']}: {f['message']}")
        out.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    write_evidence(prop, tier, seed, t0, con, ded, violations)
    if con.error: out.insert(0, f"note: concrete search not available: {con.error[:500]}")
    if ded:
        for n in ded["notes"]: print("note:", n)
        print(f"{prop}: obligations {ded['obligations']}, discharged {ded['discharged']}, fallback {len(ded['fallback'])}")
    for r in con.reports: print(f"{prop}: concrete search ({r['config']}): {r['evaluations']} evaluations, {r['distinct_nontrivial']} distinct non-trivial, {r['secs']} s")
    for l in out: print(l)
    sys.stdout.flush()
    # Nothing at all could be decided: an error, not an answer.
    if not violations and con.error and (not ded or ded["fallback"] or not ded["obligations"]): sys.exit(2)
    sys.exit(1 if violations else 0)

def load_known(prop):
    path, res = os.path.join(VERIF, "known-findings.txt"), []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith(f"known: property={prop} "): res.append(l.split(" input=", 1)[1])
    return res

RULE = "cases are drawn at random (seeded) and enumerated from the property's input grammar by harness/src; a case is non-trivial when it exercises the property (see the `nontrivial` argument of each case)"

def write_evidence(prop, tier, seed, t0, con, ded, violations):
    ev = sum(r["evaluations"] for r in con.reports); di = sum(r["distinct_nontrivial"] for r in con.reports)
    samples = [s for r in con.reports for s in r["samples"]][:6] or ["(none)"]
    cov = {"evaluations": ev, "distinct_nontrivial": di, "rule": RULE, "samples": samples}
    level, assumptions = "exploration", ["the concrete search decides only the inputs it ran"]
    if ded and ded["obligations"]:
        level = "proof"
        cov.update({k: ded[k] for k in ("obligations", "discharged", "checker_cmd", "trusted_base")})
        cov["explanation"] = ded["explanation"]
        cov["functions_under_contract"] = ded["functions"]
        cov["solver_seconds"] = ded["solver_s"]
        cov["bounded_fallback"] = ded["fallback"]
        cov["backends"] = ded["backends"]
        cov["units"] = ded["units"]
        cov["notes"] = ded["notes"]
        assumptions = ded["assumptions"]
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
         "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(d, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)

if __name__ == "__main__": main()
