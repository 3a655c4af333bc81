# rewrites the table of planted bugs in DESIGN.md
import json, glob, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
rows = []
for d in sorted(glob.glob('seeded/S*')):
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
t = "<!-- seeds -->\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = open('DESIGN.md').read()
open('DESIGN.md', 'w').write(re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S))
