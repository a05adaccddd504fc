#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, subprocess, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(base + '/properties.jsonl')]
NA = {
 'N01': 'A pure function of one 729-trit state: no scheduling, time, I/O, fault or multi-party behaviour that a simulation could vary. (C08 and D05 compare whole messages and digests with an independent implementation of the permutation, which notices errors only as a by-product.)',
 'N02': 'Pure arithmetic on two polynomials without any nondeterminism to simulate; needs proof or exhaustive testing. (K01, K02 and C08 notice gross errors only as by-products.)',
 'N03': 'Pure conversions over finite ranges: enumeration or proof decides them, there is nothing to schedule and no fault to inject.',
 'N04': 'A statement about execution time of the machine code; the simulator replaces time by simulated time, so no simulated run can observe it.',
}
NOTES = json.load(open(base + '/tools/levels.json'))
claimed = NOTES.keys()
checks = []
for p in props:
    i = p['id']
    if i in NA or i not in NOTES: continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s quick' % i,
        'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection: seeded search, ' + NOTES[i]['technique'],
        'level': 'exploration',
        'level_note': NOTES[i]['note'],
    })
m = {
 'version': 1,
 'setup_cmd': './build.sh',
 'hooks': {
  'guard': 'cfg(iota_mam_sim)',
  'enable': 'RUSTFLAGS="--cfg iota_mam_sim" cargo build (done by build.sh for the library as a path dependency of /verif/sim)',
  'source_commits': ['d70bdce'],
 },
 'checks': checks,
 'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in props if p['id'] not in NOTES],
 'notes': 'One simulator binary (sim/) holds all scenarios. A violation writes replays/<property>-<run>.json with seed, minimised choices and event trace; ./replay.sh <file> reproduces it. See DESIGN.md.',
}
m['hooks']['source_commits'] = [subprocess.run(['git','-C','/repo','rev-parse',c],capture_output=True,text=True).stdout.strip() or c for c in m['hooks']['source_commits']]
open(base + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid,', len(checks), 'checks')
except ImportError:
    print('written (not validated)')
