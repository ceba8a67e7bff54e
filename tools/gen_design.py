"""Fills the tables of DESIGN.md from seeded/ and known_findings.json."""
import glob, json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(HERE, 'DESIGN.md')
s = open(d).read()


def put(s, name, text, nl='\n'):
    return re.sub(r'(<!-- %s -->).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + nl + text + nl + m.group(2), s, flags=re.S)


rows = ['| change | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
s = put(s, 'SEEDED', '\n'.join(rows))
k = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
s = put(s, 'FIXED', str(sum(x['kind'] == 'fixed' for x in k)), '')
mut = os.path.join(HERE, 'tools', 'mutants.md')
if os.path.exists(mut):
    s = put(s, 'MUTANTS', open(mut).read().strip())
open(d, 'w').write(s)
