#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = 'deterministic simulation with fault injection: seeded search over '
C = {
'C01': ('programs x formats x failing, short and full-disk writes at every point of the image file; decoded image against a reference model', ''),
'C02': ('programs x requested files x failing, short and full-disk writes of listing, exports and symbols; each file against a reference model', ''),
'C03': ('failing opens and reads of every input at every position and in every pass; write history and exit status', ''),
'C04': ('delivery of one text: read sizes, buffer boundaries, line ends, file splits; outputs compared between deliveries', ''),
'C05': ('stored bytes damaged by truncation, bit flips, zeroed blocks and junk; no crash, no silently lost line (listing history)', ''),
'C06': ('allocations failing once or for good at every index; outputs against an undisturbed run', ''),
'C07': ('failing programs, input faults and kill points; history of opens and writes of outputs', ''),
'C08': ('memory layouts, fill patterns, realloc moves, errno, pid, clock, environment and stale outputs; outputs compared', ''),
'C09': ('programs x pass histories (forced extra passes, limits, moved definitions); settled result against more passes and a reference model', ''),
'C10': ('interleavings of a run with processes that rewrite its inputs; refinement against single readings', ''),
'C11': ('pass limits x programs x inputs that change between passes, recursion and cycles; termination in a step budget, pass counts from the read history', ''),
'C12': ('interleavings of several runs in one directory, with faults and kills in some; each run against the same run alone', ''),
'C13': ('pipelines of runs with crashes, disk faults and retries between stages; values seen by the consumer', ''),
'C14': ('kill points and torn leftovers, repeated, then recovery; outputs against an undisturbed run, inputs unchanged', ''),
'C15': ('errors and warnings in every phase, faults, verbosity, failing stderr; exit status against diagnostics and a reference model', ''),
'C21': ('numbers, nestings and re-readings of files, unusable and failing ones among them, under limits on open files; outputs and history against a run without a limit', ''),
'C22': ('programs x pass histories (values that never settle, pieces that come and go) under two pass limits; peak of simulated heap in use', ''),
}
NOTE = ('Samples the space of programs, schedules and faults with seeds derived from VERIF_SEED; a clean batch is evidence, not proof. '
        'The whole assembler (unmodified sources, main included) runs in the simulator; file system, allocator and process life cycle are simulated. '
        'Trusts the simulator, the oracles and, where named, the reference assembler in sim/model.cc, which abstains where it is not sure.')
NA = {
'C16': 'A pure function of the source line: no schedule, clock, I/O fault or interleaving takes part, so there is nothing for a simulator to vary. (Encodings of generated programs are nevertheless compared with the reference model under C01 and C02.)',
'C17': 'A pure function of the expression text; no nondeterminism or fault takes part.',
'C18': 'A pure function of the source text; no nondeterminism or fault takes part beyond those covered by C04, C09 and C10.',
'C19': 'A pure function of operand and SETDP; the part with a history (sizes that depend on later passes) is covered by C09.',
'C20': 'A pure function of the argument vector; no nondeterminism or fault takes part.',
}
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo: its sources are compiled unmodified into one object whose imports (files, memory, process) are renamed to the simulator at link time, so there is no guard. Defects repaired are listed in known-findings.txt.'}
for k, (t, n) in C.items():
    m['checks'].append({'property': k, 'quick_cmd': 'python3 check.py %s quick' % k, 'thorough_cmd': 'python3 check.py %s thorough' % k,
                        'evidence_file': 'evidence/%s.json' % k, 'technique': T + t, 'level': 'exploration', 'level_note': NOTE + n})
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json', 'a').write('\n')
