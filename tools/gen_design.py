"""Fills the generated sections of DESIGN.md (per-property list, catch table) from the contracts and tools/catch.json."""
import ast, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sec = []
for l in open(H + "/properties.jsonl"):
    d = json.loads(l); p = f"{H}/contracts/{d['id']}.py"
    if not os.path.exists(p): continue
    t = ast.parse(open(p).read()); c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try: c.update({x.id: ast.literal_eval(n.value) for x in n.targets})
            except ValueError: pass
    fs = [n for n in t.body if isinstance(n, ast.FunctionDef)]; one = lambda n: n.name + (f" ({' '.join(ast.get_docstring(n).split())})" if ast.get_docstring(n) else "")
    s = [f"### {d['id']} {d['title']}", "", " ".join((ast.get_docstring(t) or "").split()), "", "- under contract: " + ", ".join(f"`{x}`" for x in c.get("FUNCTIONS", [])), "- proof contracts: " + "; ".join(one(n) for n in fs if n.name.startswith("ob_"))]
    e = [n for n in fs if n.name.startswith("extra_")]
    if e: s.append("- bounded, on the real code only: " + "; ".join(one(n) + (f" [{c['BOUNDS'][n.name]}]" if n.name in c.get("BOUNDS", {}) else "") for n in e))
    s.append("- assumed here: " + ("; ".join(c["ASSUMPTIONS"]) if c.get("ASSUMPTIONS") else "nothing beyond the common trusted base")); sec.append("\n".join(s))
cj = H + "/tools/catch.json"; cat = json.load(open(cj)) if os.path.exists(cj) else {}
rows = ["| planted bug | property | what it breaks | how the check reports it |", "|---|---|---|---|"]
for b in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    m = json.load(open(f"{H}/seeded/{b}/meta.json")); rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {cat.get(b, 'see vcheck')} |")
D = open(H + "/DESIGN.md").read()
for tag, txt in (("per-property", "\n\n".join(sec)), ("catch-table", "\n".join(rows))):
    D = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + txt + "\n" + m.group(2), D, flags=re.S)
open(H + "/DESIGN.md", "w").write(D)
