"""Rewrites section 6 of DESIGN.md: the planted bugs and the checks that catch them."""
import json, pathlib, re
V = pathlib.Path(__file__).resolve().parent.parent
# bugs which the checks missed when they were planted, and what was added because of them
LED = {l.split(" ", 1)[0]: l.split(" ", 1)[1].strip() for l in (V / "tools/seeded_notes.txt").read_text().splitlines() if l.strip()}
rows = []
for p in sorted((V / "seeded").iterdir()):
    m = json.loads((p / "meta.json").read_text()); esc = lambda s: s.replace("|", "\\|")
    rows.append("| %s | %s | %s | %s |" % (p.name, m["property"], esc(m["what_it_breaks"]), esc(m["needs"])))
t = """## 6. Planted bugs

Each was written from a property's statement and the code alone, compiles, passes the repository's tests, and has a demonstration.
The quick check named in the second column catches it (exit 1 with that property's VIOLATION line), at the last run of all of them.

| id | caught by | what it breaks | what it needs |
|---|---|---|---|
%s

Missed when first planted; the check was strengthened in general (more of the input space), not for the one bug:

%s
""" % ("\n".join(rows), "\n".join("* %s: %s" % x for x in sorted(LED.items())))
d = V / "DESIGN.md"; s = d.read_text(); s = re.sub(r"(?s)\n## 6\. Planted bugs.*?(?=\n## 7|\Z)", "", s).rstrip() + "\n\n" + t
d.write_text(s)
