"""The concrete search of C20: invocations of the style macros, compiled against the current source.

A program is generated with one invocation per line next to what it has to be, built
and run. What an invocation has to be is computed here, from the documentation of
csi! (contracts/style.vx has the same names, on the side of the proof)."""
import json, os, random, re, time

STYLES = {"bold": 1, "dim": 2, "italic": 3, "underline": 4, "blink": 5, "strike": 9}
def names(verif):
    """Colours by name, as in the contracts."""
    t = open(os.path.join(verif, "contracts/style.vx")).read()
    return {n: int(k) for n, k in re.findall(r"if w == WORD!\((\w+)\) \{ (\d+) \} else\n", t)}

def code(w, colours):
    neg, b = w.startswith("!"), w.lstrip("!")
    if b == "reset": return "0"
    if b == "fg": return "39"
    if b in STYLES: return f"2{STYLES[b]}" if neg else str(STYLES[b])
    if neg: return "39"
    n = colours[b] if b in colours else int(b)
    return f"3{n}" if n < 8 else f"9{n - 8}" if n < 16 else f"38;5;{n}"

def rust(s): return '"' + "".join(c if " " <= c < "\x7f" and c not in '"\\' else "\\u{%x}" % ord(c) for c in s) + '"'

def cases(rng, colours, count):
    words = [w for b in ["reset", *STYLES, *colours, *map(str, range(256))] for w in (b, "!" + b)] + ["!fg"]
    seq = lambda ws: "\x1b[" + ";".join(code(w, colours) for w in ws) + "m"
    res = [("csi!()", "\x1b[0m")]
    for w in words: res.append((f"csi!({w})", seq([w])))
    def some(): return [rng.choice(words) for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 40]))]
    def content(depth=0):
        k = rng.randrange(9 if depth < 2 else 6)
        if k < 3:
            s = "".join(rng.choice("ab ;m\x1b[0\"\\{}é\U0001F600\n,)") for _ in range(rng.randrange(6)))
            return rust(s), s
        if k == 3: n = rng.randrange(1000); return str(n), str(n)
        if k == 4: return rng.choice([("true", "true"), ("false", "false")])
        if k == 5: return rng.choice([("'x'", "x"), ("','", ","), ("1.5", "1.5")])
        if k == 6: ws = some(); return "csi!(" + ", ".join(ws) + ")", seq(ws)
        if k == 7: return "csi!()", "\x1b[0m"
        return call(depth + 1)
    def call(depth=0):
        cs = [content(depth) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 7]))]
        args = ", ".join(c for c, _ in cs) + rng.choice(["", "", ","])
        body = "".join(t for _, t in cs) + "\x1b[0m"
        if rng.random() < .4:
            m = rng.choice(list(STYLES))
            return f"{m}!({args})", seq([m]) + body
        ws = some()
        return "ansi!((" + ", ".join(ws) + f") {args})", seq(ws) + body
    while len(res) < count:
        if rng.random() < .4: ws = some(); res.append((f"csi!({', '.join(ws)})", seq(ws)))
        else: res.append(call())
    return res

def search(verif, repo, build, sh, seed, tier):
    t0 = time.time()
    cs = cases(random.Random(seed), names(verif), 12000 if tier == "thorough" else 3500)
    d = os.path.join(build, f"style-{os.getpid()}")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    try:
        open(os.path.join(d, "Cargo.toml"), "w").write(f'[package]\nname = "style"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nfyi_ansi = {{ path = "{repo}/fyi_ansi" }}\n[workspace]\n')
        head = "#![allow(unused)]\nuse fyi_ansi::*;\nfn main() {\n\tlet cases: &[(&str, &str)] = &[\n"
        lines = [f"\t\t({c.replace(chr(10), ' ')}, {rust(w)}),\n" for c, w in cs]
        open(os.path.join(d, "src/main.rs"), "w").write(head + "".join(lines) + "\t];\n\tfor (k, (a, b)) in cases.iter().enumerate() { if a != b { println!(\"{k} {a:?}\"); return; } }\n}\n")
        env = {"CARGO_TARGET_DIR": os.path.join(d, "target")}
        rep = {"evaluations": len(cs), "distinct_nontrivial": len({c for c, _ in cs}), "samples": [f"{c} -> {w!r}" for c, w in cs[-3:]], "config": "compiled", "fail": None}
        rc, o, r = sh(["cargo", "build", "--offline", "--quiet"], 600, d, env)
        if rc:
            # An invocation that does not compile, or the crate itself does not.
            m = re.search(r"--> src/main\.rs:(\d+):", r)
            k = int(m.group(1)) - head.count("\n") - 1 if m else -1
            if not 0 <= k < len(cs): raise RuntimeError("the program does not build: " + r[-1500:])
            rep["fail"] = {"input": cs[k][0], "what": "does not compile: " + r[:1500]}
        else:
            rc, o, r = sh([os.path.join(d, "target/debug/style")], 60, d)
            if rc: raise RuntimeError(f"the program ended with {rc}: {r[-500:]}")
            if o.strip():
                k, got = o.strip().split(" ", 1)
                rep["fail"] = {"input": cs[int(k)][0], "what": f"is {got}, not {rust(cs[int(k)][1])}"}
        rep["secs"] = round(time.time() - t0, 2)
        return rep
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
