#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of checks present."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
AI = 'static analysis: trace-partitioned abstract interpretation of the compiler IR (polynomial normal-form, sign/polyhedral and shape domains), '
TECH = {
    'P01': AI + 'every command word up to a length bound, symbolic coordinates',
    'P02': AI + 'null-callback reachability over all callback subsets',
    'P03': AI + 'make_path on every command word up to a length bound, number tokens opaque',
    'P04': AI + 'argument/role dataflow from public entry points to internal records',
    'P05': AI + 'algebraic identities',
    'P06': AI + 'containment obligations per sign case',
    'P07': AI + 'path-wise obligations on all sign cases',
    'P08': AI + 'coefficient identities and range obligations with the equation solver abstracted',
    'P09': AI + 'root identities modulo the defining relations of the radicals',
    'P10': AI + 'subdivision identities and exhaustiveness of the examined pairs',
    'P11': AI + 'store-bounds and initialised-entry obligations',
    'P12': AI + 'ordering and chaining obligations on reading command words',
    'P13': AI + 'decision table compared with the fill-rule definition',
    'P14': AI + 'arrangements of active edges, symbolic winding numbers',
    'P15': AI + 'dispatch table with the intersection routines abstracted',
    'P16': AI + 'ring-shape obligations after splitting',
    'P17': AI + 'ring-shape obligations over all up/down/level cyclic words',
    'P18': AI + 'doubly-linked-list shape obligations',
    'P19': AI + 'doubly-linked-list shape obligations',
    'P20': 'static analysis: def-before-use (must-reset) dataflow on the sweep state + ' + AI + 'two consecutive abstract runs',
    'P21': AI + 'chain-continuity obligations over all joint configurations',
    'P22': AI + 'event-sequence obligations',
    'P23': AI + 'sibling-class agreement obligations',
    'P24': AI + 'definite-initialisation obligations on pool records',
    'P25': AI + 'strict-weak-order axioms on comparator functions',
    'P26': AI + 'queue and scheduling obligations',
    'P27': AI + 'pair coverage over all interval arrangements',
    'P28': 'static analysis: whole-program scan of mutable static storage in the compiler IR, with escape to callees',
    'P29': 'static analysis: ownership analysis (allocation/release pairing in the IR, deleted/defined special members in the AST)',
    'P30': AI + 'both build configurations interpreted side by side, heaps and reports compared',
    'P31': AI + 'whole runs over infinite families of contours, arrangement faces compared with the definition',
    'P34': AI + 'value provenance (copied or rounded) of every coordinate',
}
NOTE = json.load(open(os.path.join(ROOT, 'tools', 'notes.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'notes.json')) else {}
NA = {
'P32': 'Rounding-error bounds for the root formulas and the sweep topology need numeric error analysis over unbounded inputs; the static domain used here is exact real arithmetic.',
    'P33': 'Termination of the sweep and of the curve-curve bisection depends on run-time coordinates (coincident curves blow up the pair list); no static bound exists in the code.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i], 'level': 'other',
                       'level_note': NOTE.get(i, 'Static, sound for the stated abstraction and bounds (exact reals, listed shape bounds); see DESIGN.md.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks compile /repo/src to LLVM IR (clang 18, no execution) and analyse it. RIVER_REPO overrides the tree for development.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
