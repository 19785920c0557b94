"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
MISSED = {
 'S19': 'only after P17 keeps two services per cache',
 'S20': 'only after P20 has kinds without an index',
 'S22': 'only after races found under a schedule are replayed with perturbed statements',
 'S23': 'only after P22 covers all metadata fields',
 'S25': 'only after P24 has terminating resources',
 'S26': 'only after P27 has namespaces that begin like another',
 'S28': 'only after P29 puts flags with values of their own before the subcommand',
}
EXTRA = root / 'tools' / 'missed.json'
if EXTRA.exists():
    MISSED.update(json.loads(EXTRA.read_text()))
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    k = d.name.split('-')[0]
    rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks'].rstrip('.')} | {MISSED.get(k, 'yes')} |")
t = '| planted bug | property | what it breaks | caught |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
p = root / 'DESIGN.md'
s = p.read_text()
b, e = '<!-- seeds -->\n', '<!-- /seeds -->\n'
i, j = s.index(b) + len(b), s.index(e)
p.write_text(s[:i] + t + s[j:])
