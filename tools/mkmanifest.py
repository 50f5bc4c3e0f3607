#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when its check function exists."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODS = {'D': 'c_dom', 'C': 'c_sax', 'X': 'c_xpath', 'T': 'c_xslt', 'H': 'c_html', 'U': 'c_util', 'I': 'c_io', 'G': 'c_gen', 'M': 'c_mem', 'R': 'c_thr'}
TECH = {
 'D': 'runtime monitoring: random DOM operation histories on the real library under ASan/UBSan/LSan; an offline checker replays each recorded history on a DOM Level 2 model and compares every result and the full observable state after every step',
 'C': 'runtime monitoring: recorded SAX event traces under ASan/UBSan checked against traces known by construction, across parser back ends, chunkings and reader histories',
 'X': 'runtime monitoring: recorded XPath evaluations under ASan/UBSan compared offline with a reference XPath 1.0 evaluator',
 'T': 'runtime monitoring: recorded transformations under ASan/UBSan compared offline with a reference XSLT 1.0 interpreter',
 'H': 'runtime monitoring: invariants over recorded Taggle event streams under ASan/UBSan',
 'U': 'runtime monitoring: recorded utility-layer calls under ASan/UBSan compared with reference codecs, RFC algorithms and XML production tables',
 'G': 'runtime monitoring: the same workloads through builds on different string types; the recorded logs must be identical',
 'I': 'runtime monitoring: documents and socket sessions served by a fragmenting, delaying loopback server under ASan/UBSan/LSan; events compared with the same bytes read from streams, server-side request and byte logs checked, descriptors counted',
 'M': 'sanitizers (ASan, UBSan, LSan) and a watchdog over coverage-guided (libFuzzer) and mutated hostile inputs to every entry point, with failing streams and throwing handlers',
 'R': 'ThreadSanitizer over concurrent use of independent objects, plus per-thread result comparison',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    k = p['id'][0]
    f = os.path.join(V, 'checks', MODS[k] + '.py')
    if os.path.exists(f) and re.search(r'^def check_%s\(' % p['id'], open(f).read(), re.M):
        checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                           technique=TECH[k], level='exploration',
                           level_note='every evaluation is an execution of the real code judged by an independent oracle; '
                                      'coverage is what the seeded workloads reach (counts in the evidence file), not exhaustive'))
    else:
        na.append(dict(property=p['id'], reason='not claimed yet: its check is not built'))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na])
