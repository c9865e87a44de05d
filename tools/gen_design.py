#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between markers): harnesses with bounds, findings, planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

def harnesses():
    out = []
    for p in props:
        i = p["id"]
        d = os.path.join(V, "harness", i.lower())
        if not os.path.isdir(d):
            continue
        out.append(f"**{i}** {p['title']}\n")
        shared = []
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go"):
                continue
            src = open(os.path.join(d, f)).read()
            for m in re.finditer(r"((?:^//[^\n]*\n)*)^func ([^\n]*?)\{\n(.*?)^\}", src, re.M | re.S):
                doc, sig, body = m.groups()
                name = re.match(r"(?:\([^)]*\) )?(\w+)", sig).group(1)
                bounds = re.findall(r'sym\.Bound\("([^"]+)", (\d+), (\d+)\)', body)
                bt = ", ".join(f"{n} {q}" + (f"/{t}" if t != q else "") for n, q, t in dict.fromkeys(bounds))
                if not name.startswith("Check") or "(" + ")" not in sig:
                    if bounds:
                        shared.append(bt)
                    continue
                text = " ".join(l[2:].strip() for l in doc.splitlines() if not re.match(r"// ?verif(-\w+)?:", l))
                text = re.sub(r"^Check\w+:\s*", "", text).strip()
                dirs = "; ".join(re.sub(r"^// ?verif(-\w+)?: *", lambda x: "thorough " if x.group(1) else "", l) for l in doc.splitlines() if re.match(r"// ?verif(-\w+)?:", l))
                line = f"- `{name}`" + (f": {text}" if text else "")
                extra = "; ".join(x for x in (bt, f"`{dirs}`" if dirs else "") if x)
                if extra:
                    line += f" [{extra}]"
                out.append(line)
        if shared:
            out.append("- shared by several: [" + "; ".join(dict.fromkeys(shared)) + "]")
        out.append("")
    return "\n".join(out)

def findings():
    fixed, known = [], []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if m:
            fixed.append(f"- {m.group(1)} ({m.group(2)}): {m.group(3)}")
        elif l.strip() and not l.startswith("#"):
            known.append("- " + l.strip())
    return "Recorded and not repaired: " + ("none." if not known else "\n" + "\n".join(known)) + "\n\nRepaired in /repo (one `fix:` commit each):\n\n" + "\n".join(fixed) + "\n"

def planted():
    d = os.path.join(V, "seeded")
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')} | {m.get('caught_by', m['property'])} |")
    return "\n".join(rows) + "\n"

f = os.path.join(V, "DESIGN.md")
s = open(f).read()
for k, g in (("harnesses", harnesses), ("findings", findings), ("planted", planted)):
    a, b = f"<!-- {k} -->", f"<!-- /{k} -->"
    i, j = s.index(a), s.index(b)
    s = s[:i] + a + "\n\n" + g() + "\n" + s[j:]
open(f, "w").write(s)
