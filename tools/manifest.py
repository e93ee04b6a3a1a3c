#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from specs import SPECS
T = {
 'C01': ('sign/verify runtime monitor over generated key histories (plain and ASan+UBSan builds)', 'every signature issued in the explored histories verified; heights up to 10 (quick) are built, the other parameters sampled'),
 'C02': ('differential runtime oracle: verify() against an independent verifier, tampering workloads, ASan+UBSan', 'every decision compared with an independent implementation for heights 4..30; trusts that reference'),
 'C03': ('state-machine monitor and offline history checker over sign/setIndex event logs', 'every call of the explored histories judged against the index state machine'),
 'C04': ('differential runtime oracle over traversal histories, exhaustive for a 16-leaf tree', 'all 2^16 sets of signing indices of a 16-leaf tree, sampled histories of larger trees; trusts the whole-tree reference'),
 'C05': ('recovery round-trip monitor with accessor-consistency oracle', 'sampled seeds and parameters'),
 'C06': ('differential runtime oracle against an independent XMSS implementation and committed vectors', 'byte equality on everything explored, indices up to 2^30; trusts the reference, which is cross-checked by vectors of the original library'),
 'C07': ('chain-position monitor on issued signatures, dominance checks and forward-only forgery workload', 'all checksum values observed; dominance judged on chosen and random digest pairs'),
 'C08': ('differential runtime oracle over input/output length grids with exact-size buffers under ASan', 'every length of the grid compared with an independent FIPS 180-4/202 implementation; C++ and Rust; the C++ SHA-256 header of the absent submodule is a stand-in'),
 'C09': ('differential runtime oracle, exhaustive single-byte corruptions, ASan+UBSan', 'sampled keys, all descriptors, all single-byte changes of sampled addresses'),
 'C10': ('exhaustive runtime decode/encode oracle in C++ and Rust, ASan+UBSan', 'all 2^16 prefixes from all three sources'),
 'C11': ('codec runtime oracle over generated and malformed text in C++ and Rust, ASan+UBSan', 'all words in both positions, all character pairs, sampled malformed text; white space means ASCII white space'),
 'C12': ('ASan/UBSan/Valgrind monitored hostile-input workload with repeat-determinism oracle and watchdog', 'the inputs explored; hangs are judged by a progress watchdog'),
 'C13': ('object-lifetime history monitor against a model under ASan with allocation accounting', 'the explored operation sequences'),
 'C14': ('exactly-once history checker over concurrent pool workloads under TSan and injected delays', 'the schedules that occurred; TSan sees races on executed accesses'),
 'C15': ('worker gating and thread-creation fault injection with event-log checker and watchdog', 'progress is judged with generous time limits; the injected faults are std::system_error, bad_alloc and failing tree construction'),
 'C16': ('TSan and result-comparison monitor over mixed concurrent workloads', 'the schedules that occurred'),
 'C17': ('interposed system-call event log with reference SHAKE oracle and fault injection', 'faults are injected at open and read; the source is recognised by the bytes it delivers'),
 'C18': ('differential runtime oracle in C++ and Rust', 'sampled seeds, shifts and counts'),
 'C19': ('lock-step differential monitor of the Rust port against the C++ library', 'the explored histories and inputs; the absent pqcrypto crates are stand-ins'),
 'C20': ('runtime arithmetic oracle over all sizes to 100000 and 64-bit samples', 'exhaustive for the stated range'),
 'C21': ('ASan-instrumented stand-in primitives with size and pass-through oracles', 'the absent primitives are stand-ins with the published sizes'),
 'C22': ('bindings run natively through a recording binding layer, compared with the core; browser helper run under node', 'the emscripten value conversion itself is not run'),
 'C23': ('constructor sweep monitor with time-limited children', 'all heights, hash functions, W values and seed lengths of the sweep; a valid large key need only not be refused or crash within a second'),
 'C24': ('secret-substring monitor on all public outputs and captured stdout/stderr', 'secrets are searched literally (and as hex) in every output observed'),
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in SPECS:
        checks.append({'property': p, 'quick_cmd': 'python3 vf.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 vf.py ' + p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': SPECS[p]['level'], 'level_note': T[p][1]})
    else:
        na.append({'property': p, 'reason': 'the check for this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 vf.py --build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are compiled into /repo: the harnesses observe the unmodified sources through their API, interposed system functions and sanitizers.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
