"""Regenerates the rich part of the corpus in place, leaving the rest of it as it is"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.dirname(HERE), HERE]
from dst import common, lib  # noqa
lib.load_all()
import rich  # noqa

path = os.path.join(os.path.dirname(HERE), 'corpus', 'corpus.jsonl')
out = [json.loads(line) for line in open(path)]
have = set((e['cls'], e['hex']) for e in out)
for n, d in rich.all_():
    cls = lib.cls(n)
    common.native_of(cls.load(d, strict=True))
    if (n, d.hex()) not in have:
        have.add((n, d.hex()))
        e = dict((k, None) for k in out[-1])
        e.update({'src': 'rich', 'cls': n, 'hex': d.hex(), 'canonical': cls.load(d).dump(force=True) == d})
        out.append(e)
with open(path, 'w') as f:
    for e in out:
        f.write(json.dumps(e) + '\n')
print(len(out))

# which entries have something to say about each derived attribute
from dst import corpus, subject  # noqa
corpus._all[:] = []
corpus._by.clear()
common.install_stdout()
index = {}
for name, op in subject.pairs():
    for i, e in enumerate(corpus._by[name]):
        if len(e['hex']) > 8000:
            continue
        try:
            got = common.read(lib.cls(name).load(bytes.fromhex(e['hex'])), [], op)
        except ValueError:
            continue
        if got not in (None, False, ['refused'], ['l', []], ['s', []]) and got != ['raised', 'APIException']:
            index.setdefault(name, {}).setdefault(op, []).append(i)
index = dict((n, dict((op, l) for op, l in ops.items())) for n, ops in index.items())
with open(os.path.join(os.path.dirname(path), 'derived.json'), 'w') as f:
    json.dump(index, f, sort_keys=True)
print(sum(len(x) for x in index.values()))
