"""Vacuity: each function under contract once more with `ensures false`, and each theorem
with its requirements alone. What verifies so says nothing: its requirements, or the
contracts it relies on, contradict each other."""
import re

def theorems(text):
    """The text with, in front of each theorem, a copy that claims `false` from its requirements."""
    out, lines, i = [], text.split("\n"), 0
    names = []
    while i < len(lines):
        m = re.match(r"(\s*)pub (?:broadcast )?proof fn (thm_\w+)", lines[i])
        if m:
            ind, j, sig = m.group(1), i, []
            while not re.match(ind + r"\{", lines[j]) and j < i + 200: sig.append(lines[j]); j += 1
            head = []
            for k, l in enumerate(sig):
                w = re.split(r"\bensures\b", l, maxsplit=1)
                head.append(w[0])
                if len(w) > 1: break
            h = "\n".join(head)
            h = re.sub(r"pub broadcast proof fn", "pub proof fn", h).replace("proof fn " + m.group(2), "proof fn vx_vac_" + m.group(2), 1)
            h = "\n".join(l for l in h.split("\n") if not re.match(r"\s*decreases\b", l)).rstrip()
            if h.count("requires") and not h.endswith(","): h += ","
            names.append(m.group(2))
            out.append(h + "\n" + ind + "\tensures false\n" + ind + "{}")
            # Keep a doc comment with its theorem.
            k = len(out) - 2
            docs = []
            while k >= 0 and (out[k].lstrip().startswith("///") or out[k].lstrip().startswith("#[")): docs.insert(0, out.pop(k)); k -= 1
            out += docs
        out.append(lines[i]); i += 1
    return "\n".join(out), names
