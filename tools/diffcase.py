"""Development aid: shows where a C03 case's fresh and used values differ"""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import common, lib, subject
import importlib
r = json.load(open(sys.argv[1])); c = r['case']
lib.load_all(); common.install_stdout()
load = subject.loader(c['s'])
print(json.dumps(c['s'].get('node'))[:3000], c['s'].get('cls'), c['s']['hex'][:1500], c['s'].get('faults'))
print(c['reads'])
a = load(); b = load()
for p, op in c['reads']:
    common.read(a, p, op, load)
for p, v in common.nodes(a, 400):
    for op in ('dump', 'native'):
        x = common.read(a, p, op, load); y = common.read(load(), p, op, load)
        if x != y:
            print(p, type(v).__name__, type(v).__mro__[1].__name__, op, x, y)
