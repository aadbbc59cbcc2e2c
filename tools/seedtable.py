"""Developer tool: refresh the table of planted bugs in DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for meta in glob.glob(V + '/seeded/*/meta.json'):
    m = json.load(open(meta))
    rows.append((m['property'], os.path.basename(os.path.dirname(meta)), m['what_it_breaks'], m['needs']))
table = ['| check | planted bug | breaks | needs |', '|---|---|---|---|'] + ['| ' + ' | '.join(r) + ' |' for r in sorted(rows)]
text = open(V + '/DESIGN.md').read()
a, b = text.index('<!-- seedtable -->'), text.index('<!-- /seedtable -->')
open(V + '/DESIGN.md', 'w').write(text[:a] + '<!-- seedtable -->\n' + '\n'.join(table) + '\n' + text[b:])
