"""Writes known_findings.json: the fixed list comes from the fix commits, by subject"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ('set up types atomically', 'C06'), ('look up names registered after', 'C12'), ('leave an ObjectIdentifier unchanged', 'C08'),
 ('leave a value unchanged when an assignment', 'C08'), ('discard the parsed object when', 'C07'),
 ('do not re-encode an EmailAddress', 'C03'), ('refuse unknown names for a named BitString', 'C08'),
 ('never expose partially computed', 'C04'), ('only publish the children', 'C05'), ('keep Any values intact', 'C09'),
 ('printing a ParsableOctetString', 'C03'), ('dump() of an indefinite-length', 'C10'), ('never lose edits', 'C07'),
 ('keep the tagging, child spec', 'C09'), ('only cache the computed', 'C04'), ('never return a PEM block', 'C11'),
 ('strict_teletex() scopes', 'C14'), ('refuse unusable values', 'C02'), ('encode a GeneralizedTime before', 'C13'),
 ('re-encode the header of a Null', 'C10'), ('keep PEM blocks apart', 'C11'), ('determine the spec of a field', 'C03'),
 ('do not fill absent fields', 'C03'), ('reading an absent field that has', 'C03'), ('copies of a value in constructed', 'C03'),
 ('parsing a Set with an element', 'C03'), ('copies of an untyped Sequence', 'C03'),
]
EXTRA = os.path.join(ROOT, 'tools', 'fixprops.json')
if os.path.exists(EXTRA):
    PROP = [tuple(x) for x in json.load(open(EXTRA))] + PROP
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = [b for a, b in PROP if s[5:].startswith(a)]
    if not p:
        raise SystemExit('no property for: ' + s)
    out.append(dict(property=p[0], status='fixed', what='fixed: property=%s %s %s' % (p[0], h, s[5:])))
known = os.path.join(ROOT, 'tools', 'known.json')
if os.path.exists(known):
    out += json.load(open(known))
json.dump(out, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
print(len(out))
