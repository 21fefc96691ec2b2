#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the analyzer's list of checks.
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
rules = {}
for f in sorted(glob.glob(here + '/analyzer/check_*.go')):
    for m in re.finditer(r'^\s*register\("(\w+)", "((?:[^"\\]|\\.)*)"', open(f).read(), re.M):
        rules[m.group(1)] = m.group(2)
NA = {
 'N01': 'The outcome of gradient descent on data is a runtime quantity; no sound static argument over the source bounds it. The structural necessary parts (exact gradients, update rules, batch coverage, update order) are claimed as L02, S02, O01, O02, T05 and T06.',
 'N02': 'Accumulated floating-point rounding needs numerical error analysis over runtime magnitudes; the analysis here decides the real-number formulas only. The overflow and division hazards visible in the source are claimed as L05 and S03.',
 'N03': 'Crash atomicity depends on the operating system and file system after the write calls; the code writes the target in place, so nothing in the source decides it. The source-visible part (encode fully before truncating, report success only after a clean close) is claimed as D05.',
 'N04': 'Statistical quality of a pseudo-random generator is not a property of this source. The source-visible part (one own draw per use with the right threshold/scale from a freshly seeded generator, exchange of whole pairs only) is claimed as L04, L08 and A04.',
}
note = ('Static decision on the current source: abstract interpretation of the SSA form into exact closed-form terms (loop recurrences are solved for every '
        'iteration count), compared with the specified term for all inputs. Trusted: the analyzer itself, its model of the standard library and rand, the SSA builder. '
        'Assumes real-number arithmetic (no rounding, overflow, NaN), no int overflow, well-formed and non-overlapping argument matrices. Anything the analysis cannot decide is reported as a violation.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules:
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
          'evidence_file': 'evidence/%s.json' % i,
          'technique': 'static analysis: SSA abstract interpretation (gated value terms, loop recurrence solving, effect/event analysis): ' + rules[i],
          'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not yet covered by a check')})
m = {'version': 1, 'setup_cmd': 'cd analyzer && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null .',
     'checks': checks, 'not_applicable': na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
