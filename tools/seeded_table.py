"""Rewrites the table of planted changes in DESIGN.md (section 6) from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# which were not caught when they were first tried, and what was added to catch them
FIRST_MISSED = {
    'c10-broadcast-reset': 'C10 generates operations that name qubits repeatedly',
    'c11-stale-text': 'C11 subtest runner-histories',
    'c12-int-power': 'C12 powers of products',
    'c20-glued-names': 'C20 names whose concatenations collide',
    'c14-short-index': 'C14 subtest more-qubits',
    'c14-group-key': 'C14 subtest flips',
    'c19-converted-once': 'C19 histories with the matrix modified in place',
    'c08-bound-action': 'C08 subtest many-runs',
    'c11-shared-circuit': 'C11 changes the returned Qiskit circuit and runs again',
    'c05-falsy-shots': 'C05 generates shots=0',
    'c17-store-first': 'C17 subtest probability-histories',
    'c15-small-imaginary': 'C15 small dyadic imaginary parts',
    'c11-shot-cap': 'C11 more shots',
    'c05-many-shots': 'C05 subtest many-shots',
    'c05-rare-outcome': 'C05 subtest rare-outcomes',
    'c12-power-shortcut': 'C12 subtest large-exponents',
    'c17-memoised-circuit': 'C17 adds gates to the circuits it gets',
    'c13-disjoint-commutator': 'C13 subtest sums-which-meet-on-few-qubits',
    'c07-extend-by-iteration': 'C07 subtest thousands-of-operations',
    'c02-ninth-pair': 'C02 generates long wrong addresses',
    'c02-one-control': 'C02 generates long wrong addresses',
    'c18-bit-memo': 'C18 subtest many-variables',
    'c25-phase-of-large': 'C01 and C25 faint amplitudes',
}
rows = ['| change | property | needs | note |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', d, 'meta.json')) as f:
        m = json.load(f)
    note = 'first missed: ' + FIRST_MISSED[d] if d in FIRST_MISSED else ''
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {note} |")
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda k: k[1] + '\n'.join(rows) + '\n' + k[2], s, flags=re.S)
open(p, 'w').write(s)
