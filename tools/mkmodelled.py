"""Which shipped classes dst/shipped.py models exactly: written to corpus/modelled.json"""
import json, os, random, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import lib, shipped, schema, edits
lib.load_all()
good, bad = [], {}
for path, cls in shipped.classes():
    try:
        node = shipped.from_class(cls)
    except shipped.Unsupported as e:
        bad[path] = 'unsupported ' + str(e)
        continue
    if node['k'] not in ('seq', 'set', 'seqof', 'setof', 'choice'):
        continue
    rng = random.Random(path)
    why = None
    for i in range(60):
        try:
            v = edits.sorted_sets(node, shipped.gen(rng, node))
            d = schema.der(node, v)
            o = cls.load(d)
            if not edits.match(node, v, o.native):
                why = 'native %r vs %r' % (o.native, v)
            elif o.dump(True) != d:
                why = 'force'
            if not why:
                b = schema.instance(schema.strip_field_tag(node), v, random.Random(i), {})
                if b.dump() != d or not edits.match(node, v, b.native):
                    why = 'build %s %s' % (b.dump().hex(), d.hex())
                for p, n, x in edits.walk(node, v):
                    edits.check_at(b, p, n, x, 'w')
        except Exception as e:
            why = repr(e)[:300] + str(getattr(e,'detail',''))
        if why:
            break
    if why:
        bad[path] = why
    else:
        good.append(path)
json.dump(good, open(os.path.join(ROOT, 'corpus', 'modelled.json'), 'w'), indent=0)
for b in sorted(bad):
    print(b, bad[b][:250])
print(len(good), 'good', len(bad), 'bad')
