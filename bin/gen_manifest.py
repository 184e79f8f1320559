#!/usr/bin/env python3
"""writes MANIFEST.json from props/*/prop.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
for p in sorted(os.listdir(f'{V}/props')):
    c = json.load(open(f'{V}/props/{p}/prop.json'))
    checks.append({'property': p, 'quick_cmd': f'bin/check {p}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {p}',
                   'evidence_file': f'evidence/{p}.json', 'technique': c.get('technique', 'bounded contract evaluation on the compiled code'),
                   'level': c['level'], 'level_note': c.get('level_note', 'bounded: contracts evaluated on the compiled code against an independent specification')})
na = [{'property': 'C27', 'reason': 'secret-independence of instruction and address traces is a 2-safety property of the generated machine code; no contract over the Rust source within reach of Kani or Verus expresses or decides it (the repository tests it with valgrind/ctgrind)'}]
m = {'version': 1, 'setup_cmd': 'bin/setup', 'hooks': {'guard': 'cfg(kani) or --cfg graviola_verif (verif_hook! macro; expands to nothing otherwise)', 'enable': 'RUSTFLAGS="--cfg graviola_verif" GRAVIOLA_VERIF_DIR=<hook files>, or cargo kani, set by bin/check', 'source_commits': ['6d20479']}, 'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Bounded driver evaluation covers assembly and intrinsics leaves and supplies failing inputs; Kani and Verus obligations are generated from the current source on each run.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1); open(f'{V}/MANIFEST.json', 'a').write('\n')
