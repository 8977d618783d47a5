"""The deductive part of a check.

For each unit (contracts/*.vx) with a function of the property: expand the crate's
current source with rustc (macros and cfg resolved, bodies as compiled), let vx put
the contracts on the extracted functions, let Verus discharge every obligation.

A function the tools cannot handle any more (construct outside of the dialect, lost
anchor, resource limit) is demoted to its contract alone (`--trust`), listed under
`fallback` and not counted; the concrete search is what then stands for it."""
import json, os, re, shutil, threading, time, hashlib
from .units import UNITS, SOURCES
from . import vacuity as vac

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CON = os.path.join(VERIF, "contracts")

class Tools:
    """vx and the expanded sources, built once per check."""
    def __init__(self, repo, build, sh):
        self.repo, self.build, self.sh = repo, build, sh
        self.vx = os.path.join(build, "vx/debug/vx")
        self.lock = {k: threading.Lock() for k in SOURCES}
        self.exp = {}
    def prepare(self):
        rc, o, r = self.sh(["cargo", "build", "--offline", "-q"], 600, os.path.join(VERIF, "vx"), {"CARGO_TARGET_DIR": os.path.join(self.build, "vx")})
        if rc: raise RuntimeError("vx does not build: " + r[-1000:])
    def source(self, cfg):
        with self.lock[cfg]:
            if cfg not in self.exp:
                pkg, target, feats = SOURCES[cfg]
                if target is None:
                    try: self.exp[cfg] = self.macros(cfg, pkg)
                    except Exception as e: self.exp[cfg] = RuntimeError(f"source ({cfg}): {e}")
                    if isinstance(self.exp[cfg], Exception): raise self.exp[cfg]
                    return self.exp[cfg]
                cmd = ["cargo", "+nightly", "--config", f'patch.crates-io.fyi_ansi.path="{self.repo}/fyi_ansi"', "rustc", "-p", pkg] + target + ["--offline"]
                if feats is not None: cmd += ["--no-default-features", "--features", feats]
                # The expansion is never taken from a cache: the name of the output is new each time.
                cmd += ["--", "-Zunpretty=expanded"]
                rc, o, r = self.sh(cmd, 600, self.repo, {"CARGO_TARGET_DIR": os.path.join(self.build, "exp-" + cfg)})
                if rc or len(o) < 1000: self.exp[cfg] = RuntimeError(f"source ({cfg}) does not expand: " + r[-1500:])
                else:
                    p = os.path.join(self.build, f"{cfg}.{os.getpid()}.rs")
                    open(p, "w").write(o)
                    self.exp[cfg] = p
            if isinstance(self.exp[cfg], Exception): raise self.exp[cfg]
            return self.exp[cfg]
    def clean(self):
        for x in self.exp.values():
            for p in x.split(",") if isinstance(x, str) else []:
                if p.startswith(self.build + os.sep) and os.path.exists(p): os.remove(p)
    def macros(self, cfg, pkg):
        """Copies of the unexpanded source files of a crate and of what its build script generated for them."""
        src = os.path.join(self.repo, pkg, "src")
        # A new place each time, so that the build script is run.
        td = os.path.join(self.build, f"exp-{cfg}-{os.getpid()}")
        rc, o, r = self.sh(["cargo", "build", "--offline", "-p", pkg, "--message-format=json"], 600, self.repo, {"CARGO_TARGET_DIR": td})
        try:
            if rc: raise RuntimeError("does not build: " + r[-1500:])
            out = [m["out_dir"] for m in map(json.loads, o.splitlines()) if m.get("reason") == "build-script-executed" and f"/{pkg}#" in m["package_id"]]
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith(".rs"))
            for f in list(files):
                for n in re.findall(r'include!\s*\(\s*concat!\s*\(\s*env!\s*\(\s*"OUT_DIR"\s*\)\s*,\s*"/([\w./-]+)"', open(f).read()): files += [os.path.join(d, n) for d in out]
            res = []
            for k, f in enumerate(files):
                p = os.path.join(self.build, f"{cfg}.{os.getpid()}.{k}.rs")
                open(p, "w").write(open(f).read())
                res.append(p)
            return ",".join(res)
        finally: shutil.rmtree(td, ignore_errors=True)

def plan_props(path, seen=None):
    """{function key: properties} of a plan, includes followed."""
    res, key = {}, None
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("@include "): res.update(plan_props(os.path.join(os.path.dirname(path), l[9:].strip())))
        elif l.startswith("@also "): p, k = l[6:].split(None, 1); res[k.strip()] = res[k.strip()] + [p]
        elif l.startswith("@fn "): key = l[4:].strip(); res[key] = []
        elif l.startswith("@table "):
            w = [x.strip() for x in l[7:].split("|")]
            res["table " + w[0].split()[0]] = w[3].split() if len(w) > 3 else []
        elif l.startswith("+props ") and key: res[key] = l[7:].split()
    return res

def plan_optional(path):
    """Keys of functions the source may lack (a provided trait method not overridden)."""
    res, key = set(), None
    for l in open(path):
        l = l.rstrip("\n")
        if l.startswith("@include "): res |= plan_optional(os.path.join(os.path.dirname(path), l[9:].strip()))
        elif l.startswith("@fn "): key = l[4:].strip()
        elif l.split()[:1] == ["+optional"] and key: res.add(key)
    return res

def plan_thms(path):
    """{theorem name: properties}: `// thm: C05 C06` in front of a proof fn."""
    res, cur = {}, None
    for l in open(path):
        if l.startswith("@include "): res.update(plan_thms(os.path.join(os.path.dirname(path), l[9:].strip())))
        m = re.match(r"\s*/// (C\d\d)\b", l)
        if m: cur = m.group(1)
        m = re.match(r"\s*pub (broadcast )?proof fn (thm_\w+)", l)
        if m and cur: res[m.group(2)] = cur
    return res

# {unit: keys verified in another unit}, from the units' "uses" lists.
ELSEWHERE = {u["name"]: {k for n in u.get("uses", []) for w in UNITS if w["name"] == n for k in plan_props(os.path.join(CON, w["plan"]))} for u in UNITS}

class Unit:
    def __init__(self, u, tools):
        self.name, self.cfg, self.tools = u["name"], u["src"], tools
        self.plan = os.path.join(CON, u["plan"])
        self.extra = u.get("args", [])
        self.thms_elsewhere = {t for n in u.get("uses", []) for w in UNITS if w["name"] == n for t in plan_thms(os.path.join(CON, w["plan"]))}
        self.props, self.optional = plan_props(self.plan), plan_optional(self.plan)
        # Contracts whose bodies are verified in another unit.
        self.elsewhere = [k for k in self.props if k in ELSEWHERE.get(self.name, ())]
        self.trust, self.drop = [], []
        self.failed, self.notes, self.fns, self.funs = [], [], {}, {}
        self.error, self.solver_ms, self.wall, self.lost = None, 0, 0, []
        self.inlined, self.scan = [], []
        self.vac, self.hard = None, set()
    def go(self, vacuity=False):
        t0 = time.time()
        try: self._go(vacuity)
        except Exception as e: self.error = f"{type(e).__name__}: {e}"
        self.wall = time.time() - t0
    def gen(self, out, flags=[]):
        t = self.tools
        cfgs = self.cfg.split(",")
        cmd = [t.vx, "gen", ",".join(t.source(c) for c in cfgs), self.plan, "-o", out, "--map", out + ".map"] + self.extra + flags
        for p in [os.path.join(CON, f"names.{c}.tsv") for c in cfgs]:
            if os.path.exists(p): cmd += ["--names", p]
        for k in self.elsewhere + self.trust: cmd += ["--trust", k]
        for k in self.drop: cmd += ["--drop", k]
        rc, o, r = t.sh(cmd, 120)
        if rc: raise RuntimeError(f"extraction failed ({rc}): {(o + r)[-800:]}")
        fns, lost, inl = [], [], []
        for l in open(out + ".map"):
            w = l.rstrip("\n").split("\t")
            if w[0] == "fn": fns.append((w[1], w[2], int(w[3]), int(w[4]), w[6] == "trusted"))
            elif w[0] == "lost": lost.append((w[1], w[2]))
            elif w[0] == "inlined": inl.append((w[1], w[2]))
        return fns, lost, inl
    def verus(self, path, args=[]):
        rc, o, r = self.tools.sh(["verus", "--triggers-mode", "silent", "--multiple-errors", "4", "--output-json", "--time-expanded"] + args + [path, "--", "--error-format=json"], 700, os.path.dirname(path))
        diags = []
        for l in r.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("level") == "error" and not d["message"].startswith("aborting due"): diags.append(d)
        try: res = json.loads(o[o.index("{"):])
        except ValueError: res = None
        return rc, res, diags, r
    def _go(self, vacuity=False):
        t = self.tools
        wd = os.path.join(t.build, f"u-{self.name}-{os.getpid()}")
        os.makedirs(wd, exist_ok=True)
        out = os.path.join(wd, f"{self.name}.rs")
        rl = ["--rlimit", "40"]
        hard = {}
        for attempt in range(25):
            fns, lost, self.inlined = self.gen(out)
            changed = False
            for k, m in lost:
                if k in self.props and "anchor" in m and k not in self.trust + self.elsewhere:
                    self.trust.append(k); self.notes.append(f"{self.name}: {k}: {m}; bounded fallback"); changed = True
            if changed: continue
            self.lost = lost
            rc, res, diags, raw = self.verus(out, rl)
            if res is None: raise RuntimeError("verifier gave no result: " + raw[-800:])
            vr = res["verification-results"]
            smt = bool(res.get("times-ms", {}).get("smt"))
            at = lambda d: self.attribute(d, fns)
            if vr.get("encountered-vir-error") or not smt or any(d.get("code") for d in diags):
                # Not in the dialect: demote the functions concerned.
                progress = False
                for d in diags:
                    k = at(d)
                    if k is None: continue
                    # A computation that came out false is a verdict; the rest goes on with the contract alone.
                    if "simplifies to false" in d["message"]:
                        hard.setdefault(k, []).append(d.get("rendered") or d["message"])
                        if k not in self.trust: self.trust.append(k)
                        progress = True; continue
                    if k in self.elsewhere: self.drop.append(k); progress = True
                    elif k not in self.trust: self.trust.append(k); progress = True; self.notes.append(f"{self.name}: {k}: outside of the dialect ({d['message'][:160]}); bounded fallback")
                    elif k not in self.drop and not any(k == x for x in [n for n in self.trust[-1:]]): self.drop.append(k); progress = True; self.notes.append(f"{self.name}: {k}: contract does not apply any more ({d['message'][:160]}); left out")
                    elif k not in self.drop: self.drop.append(k); progress = True
                if progress: continue
                raise RuntimeError("cannot attribute: " + "; ".join(d["message"][:200] for d in diags[:4]) + raw[-300:] * (not diags))
            if not diags and not (vr.get("success") and vr.get("verified")): raise RuntimeError("verifier broke down: " + raw[-800:])
            # Verdicts.
            limit = {}
            bad = {}
            loose = []
            for d in diags:
                k = at(d)
                msg = d.get("rendered") or d["message"]
                if k is None: loose.append(d["message"]); continue
                if "rlimit" in d["message"] or "Resource limit" in d["message"]: limit.setdefault(k, msg)
                else: bad.setdefault(k, []).append(msg)
            new = [k for k in limit if k not in bad and k not in self.trust]
            if new and rl == ["--rlimit", "40"]:
                rl = ["--rlimit", "200"]; continue
            if new:
                for k in new: self.trust.append(k); self.notes.append(f"{self.name}: {k}: resource limit; bounded fallback")
                continue
            if loose and not bad:
                raise RuntimeError("obligation outside of any function under contract: " + "; ".join(loose[:3]))
            for k, m in hard.items(): bad.setdefault(k, []).extend(m)
            self.hard = set(hard)
            self.failed = [{"function": k, "unit": self.name, "message": m[0].strip()[:3000], "others": len(m) - 1} for k, m in bad.items()]
            self.account(res, fns)
            if vacuity and not self.failed: self.vacuity(os.path.join(wd, f"{self.name}_vac.rs"))
            self.scan = self.trusted_scan(out, [(a, b) for k, n, a, b, t in fns if k in self.elsewhere])
            break
        else: raise RuntimeError("no fixed point")
        for f in os.listdir(wd): os.remove(os.path.join(wd, f))
        os.rmdir(wd)
    def vacuity(self, out):
        """Functions and theorems that also verify with `ensures false`."""
        self.gen(out, ["--vacuity"])
        text, _ = vac.theorems(open(out).read())
        open(out, "w").write(text)
        rc, res, diags, raw = self.verus(out, ["--rlimit", "10"])
        if res is None or not res.get("times-ms", {}).get("smt"):
            self.notes.append(f"{self.name}: vacuity not checked: {(diags[0]['message'] if diags else raw)[:200]}"); return
        funs = {f["function"].split("::", 1)[1]: f["success"] for m in res["times-ms"]["smt"]["smt-run-module-times"] for f in m.get("function-breakdown", [])}
        v = {k: ok for k, ok in funs.items() if "vx_vac_" in k}
        self.vac = {"checked": len(v), "vacuous": sorted(k for k, ok in v.items() if ok)}
        for k in self.vac["vacuous"]: self.notes.append(f"{self.name}: {k}: vacuous")
    def attribute(self, d, fns):
        spans = [s for s in d["spans"] if s["is_primary"]] + [s for s in d["spans"] if not s["is_primary"]]
        for s in spans:
            for k, n, a, b, t in fns:
                if a <= s["line_start"] <= b: return k
            if s["is_primary"]: break
        return None
    def account(self, res, fns):
        names = {}
        for m in res["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                self.solver_ms += f["time-micros"] / 1000
                self.funs[f["function"].split("::", 1)[1]] = (f["mode:"], f["success"])
        self.verified, self.errors = res["verification-results"]["verified"], res["verification-results"]["errors"]
        self.fns = {k: ("trusted" if t or k in self.trust else "verified") for k, n, a, b, t in fns}
    def trusted_scan(self, path, skip):
        """What the generated file assumes: external_body, axioms, assume_specification, uninterpreted functions."""
        res, ext = [], False
        for i, l in enumerate(open(path), 1):
            s = l.strip()
            if any(a <= i <= b for a, b in skip): continue
            if "external_body" in s: ext = True; continue
            m = re.match(r"pub (?:broadcast )?axiom fn (\w+)", s)
            if m: res.append("axiom " + m.group(1)); continue
            m = re.match(r"pub assume_specification(?:<.*>)? *\[ *(.+?) *\]", s)
            if m: res.append("std: " + m.group(1)); continue
            m = re.match(r"(?:pub )?uninterp spec fn (\w+)", s)
            if m: continue
            if ext:
                m = re.match(r"(?:pub )?(?:exec )?(fn|struct|enum|const) (\w+)", s)
                if m: res.append(f"external {m.group(1)} {m.group(2)}"); ext = False
            if re.search(r"\b(assume|admit)\(", s): res.append("assume: " + s[:80])
        return sorted(set(res))

def run(prop, tier, repo, build, sh):
    units = []
    tools = Tools(repo, build, sh)
    for u in UNITS:
        if prop not in u.get("only", [prop]): continue
        x = Unit(u, tools)
        x.tagged = [k for k, p in x.props.items() if prop in p and k not in x.elsewhere]
        x.thms = [t for t, p in plan_thms(x.plan).items() if p == prop and t not in x.thms_elsewhere]
        if x.tagged or x.thms: units.append(x)
    res = {"failed": [], "notes": [], "obligations": 0, "discharged": 0, "fallback": [], "functions": [], "solver_s": 0.0, "assumptions": [], "trusted_base": [], "units": []}
    res["backends"] = "Verus 0.2026.09.13 (Z3)"
    res["checker_cmd"] = "python3 bin/check.py " + prop
    if not units: return res
    try: tools.prepare()
    except RuntimeError as e:
        res["notes"].append(str(e)); res["fallback"] = [f"{u.name}: {k}" for u in units for k in u.tagged]; return res
    ths = [threading.Thread(target=u.go, args=(tier == "thorough",)) for u in units]
    for t in ths: t.start()
    for t in ths: t.join()
    base = set()
    for u in units:
        res["notes"] += u.notes
        if u.error:
            res["notes"].append(f"{u.name}: not verified: {u.error[:600]}")
            res["fallback"] += [f"{u.name}: {k}" for k in u.tagged]
            continue
        for k, m in u.lost: 
            if k in u.tagged: res["notes"].append(f"{u.name}: {k}: {m}")
        for k in u.tagged:
            st = u.fns.get(k)
            if st is None and k in u.optional and k not in u.drop: continue
            if k in u.hard:
                res["obligations"] += 1
                res["functions"].append({"function": k, "unit": u.name, "status": "failed"})
            elif k in u.trust or k in u.drop or st is None: res["fallback"].append(f"{u.name}: {k}")
            elif k in u.elsewhere: continue
            elif st == "trusted": base.add(f"assumed contract: {k}")
            else:
                bad = any(f["function"] == k for f in u.failed)
                res["obligations"] += 1; res["discharged"] += 0 if bad else 1
                res["functions"].append({"function": k, "unit": u.name, "status": "failed" if bad else "discharged"})
        res["failed"] += [f for f in u.failed if f["function"] in u.tagged]
        lem = [n for n, (m, ok) in u.funs.items() if m == "proof"]
        okl = [n for n, (m, ok) in u.funs.items() if m == "proof" and ok]
        res["obligations"] += len(lem); res["discharged"] += len(okl)
        res["solver_s"] += u.solver_ms / 1000
        base |= set(u.scan)
        res["units"].append({"unit": u.name, "verified": u.verified, "errors": u.errors, "wall_s": round(u.wall, 2), "lemmas": len(lem), "theorems": u.thms, "inlined": [f"{a}<-{b}" for a, b in u.inlined]} | ({"vacuity": u.vac} if u.vac else {}))
    tools.clean()
    res["solver_s"] = round(res["solver_s"], 3)
    res["trusted_base"] = sorted(base)
    res["assumptions"] = ["the contracts of /verif/contracts marked trusted (std, unicode-width, dactyl, argyle, utc2k) describe those dependencies; the concrete search validates them on samples",
        "the rewrites of vx (DESIGN.md) keep the meaning of the extracted functions", "Verus and Z3 are sound", "no allocation fails and no text exceeds isize::MAX / 8 bytes"]
    ths = [t for u in units for t in u.thms]
    res["explanation"] = f"Every function listed was extracted from the current source and its contract discharged for all inputs; the property is the postconditions of these functions" + (f" and the theorem(s) {', '.join(ths)} over them" if ths else "") + "."
    if res["fallback"]: res["explanation"] += " Functions under bounded_fallback are not counted."
    return res
