"""Writes MANIFEST.json from the checks that exist"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'simulated network: seeded fragmentation, delay, loss and connection cuts around the parser, checked against the list of values sent',
 'C02': 'simulated storage faults with an instruction-count work bound over all reads of damaged values',
 'C03': 'seeded histories of reads over intact and storage-damaged values, refinement against freshly loaded values',
 'C04': 'fault injection: asynchronous exceptions at seeded instructions inside reads, history audit afterwards',
 'C05': 'deterministic thread simulation with instruction-level preemption over a shared value',
 'C06': 'deterministic thread simulation and injected aborts over first uses of types in forked pristine processes',
 'C07': 'seeded edit/read histories checked step by step against an executable model and an independent DER encoder',
 'C08': 'seeded edit histories with refused edits, state compared with an undisturbed twin',
 'C09': 'seeded histories with copies taken at random moments, both sides checked against separate models',
 'C10': 'simulated streaming producers (segmentation, BER spellings) and read/dump/force histories against an independent encoder',
 'C11': 'simulated writer crashes, appends and interleaved decoders over PEM text, checked against the blocks written',
 'C12': 'seeded process environments, import orders, registration and first-use histories, differential against a reference process',
 'C13': 'simulated process death after a dump at random moments of histories, reload compared with model and live value',
 'C14': 'simulated tasks with nested, raising and abandoned scopes under a seeded scheduler, against a scope-count model',
 'C15': 'seeded interleaving, suspension and abandonment of iterators under a simulated scheduler',
}
NA = {
 'C20': 'a pure function of its argument: no schedule, time, I/O or history to simulate (its encodings are still exercised inside C07, C10 and C13 histories)',
 'C21': 'a pure relation on two values: nothing to schedule or fault (that comparing does not change a value is C03)',
 'C22': 'a pure function of a certificate and a name; no concurrency, time or I/O (its caches are covered by C03-C05)',
 'C23': 'pure accessors of an encoding; no concurrency, time or I/O (their caches are covered by C03-C05)',
 'C24': 'pure text conversion; nothing to simulate',
 'C25': 'pure date arithmetic; the clock is never read by it, so there is nothing to simulate',
}
checks, na = [], [dict(property=k, reason=v) for k, v in sorted(NA.items())]
for c in sorted(T):
    if os.path.exists(os.path.join(ROOT, 'dst', 'props', c.lower() + '.py')):
        checks.append(dict(property=c, quick_cmd='python3 -B check.py %s --tier quick' % c,
                           thorough_cmd='python3 -B check.py %s --tier thorough' % c,
                           technique='deterministic simulation: ' + T[c], level='exploration',
                           level_note='seeded search over simulated executions of the real code; finds violations, does not exhaust the space'))
    else:
        na.append(dict(property=c, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 -B -m compileall -q dst check.py >/dev/null && rm -rf dst/__pycache__ dst/props/__pycache__ __pycache__; true' if False else 'python3 -B -c "import sys; sys.path.insert(0, \'.\'); import dst.runner, dst.sched"',
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks')
