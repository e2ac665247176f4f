"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks | what it does | strengthened for it |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m['property'],
                m['what_it_breaks'].replace('|', '\\|'), m.get('strengthened', '')))
p = here + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
