"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                      m['needs'], m.get('status', 'caught')))
text = open(os.path.join(root, 'DESIGN.md')).read()
mark = '## Planted bugs\n'
text = text[:text.index(mark)] + mark + '''
`seeded/<id>/` has the patches with demonstrations. Each one compiles, keeps the
stable tests, and was written from the statement and the code before looking at
what the check covers. "caught" means that the quick check of the property
reports it (exit 1 with a new violation); where the first attempt missed it,
the status says what was added to the check.

| bug | property | needs | status |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
open(os.path.join(root, 'DESIGN.md'), 'w').write(text)
