""" The table of the planted changes in DESIGN.md, from seeded/ and tools/plants/caught.json. """
import json
import pathlib

here = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((here / 'tools/plants/caught.json').read_text())
rows = ['| change | property | needs | caught by its check |', '|---|---|---|---|']
for d in sorted((here / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {caught.get(d.name, '?')} |")
p = here / 'DESIGN.md'
t = p.read_text()
a, b = t.index('<!-- table -->'), t.index('<!-- end -->')
p.write_text(t[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + t[b:])
