#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVELS = {'C05': 'fault_enumeration'}
T = {
 'C01': ('runtime monitor: loaded state of generated documents against a reference parser', 'Generated documents, well-formed by construction and rendered in several layouts; the loaded file is compared with the document it was rendered from and with an independent reference model. Trusts the model (harness/internal/model).'),
 'C02': ('runtime monitor: raw values against a reference value lexer', 'Every combination of the value options over generated and enumerated short values; trusts the reference lexer.'),
 'C03': ('runtime monitor: crash, hang and verdict oracle over arbitrary bytes', 'Random, mutated and enumerated short texts under random options in worker processes with time and stack limits; every outcome is compared with the reference parser.'),
 'C04': ('runtime monitor: differential loading through hostile readers', 'The same bytes through byte slice, file, reader and read-closer, with enumerated split points and buffer sizes; all must give one result.'),
 'C05': ('fault injection at every offset with monitored sources', 'Read errors injected at every offset of the text, with close/read-after-close and descriptor accounting.'),
 'C06': ('runtime monitor: multi-source, Append and Reload histories against a model', 'Random histories of edits, source changes, Append and Reload; trusts the reference model.'),
 'C07': ('runtime monitor: write, load, compare, write again', 'Round trips of parsed and edited files under all format switches; domain limits are listed in DESIGN.md.'),
 'C08': ('runtime monitor: written text against a reference renderer, faulty writers', 'Written bytes compared with an independent renderer, purity by snapshots, short and failing writers, SaveTo over old content.'),
 'C09': ('online history checker against an ordered-map model', 'Random operation histories, every result and object identity checked online.'),
 'C10': ('online history checker against an ordered multi-map model', 'As C09 with non-unique sections, indexes and deletions.'),
 'C11': ('online history checker under every case option', 'Histories with case variants of every name; model folds names independently.'),
 'C12': ('online history checker of inheritance', 'Histories over hierarchies of sections with several delimiters.'),
 'C13': ('runtime monitor: expansions against a reference evaluator, bounded process for termination', 'Random and constructed reference graphs; one recorded finding about memory growth.'),
 'C14': ('runtime monitor: accessors against the standard conversions', 'All scalar accessors in all forms over generated texts with range edges.'),
 'C15': ('runtime monitor: list accessors against a reference splitter', 'All list accessors in all forms over generated lists.'),
 'C16': ('online history checker of shadows and nested values', 'Parsing, writing and calling histories under the four options.'),
 'C17': ('online history checker of boolean, auto-increment and raw items', 'Parsing, writing and calling histories.'),
 'C18': ('runtime monitor: mapped structs against a reference mapping', 'Struct types drawn by reflection; trusts the reference mapping in harness/internal/props/structs.go.'),
 'C19': ('runtime monitor: strict and lax mapping against reference conversions', 'Fitting files, then single broken texts; error-iff oracle.'),
 'C20': ('runtime monitor: reflected file against a reference reflection, round trips', 'Struct types and values drawn by reflection.'),
 'C21': ('race detector, deadlock watchdog and linearizability checker over recorded histories', 'Recorded histories under a cooperative scheduler at the lock hooks (build-time substitution of the sync package) and under the race detector with injected delays; linearizability by porcupine against a sequential specification. Covers the schedules that occurred.'),
 'C22': ('race detector and snapshot comparison over concurrent readers', 'Concurrent readers without block mode, purity of every read, isolation of files. Covers the schedules that occurred.'),
 'C23': ('runtime monitor: aliasing of every returned and passed collection', 'Returned collections are held, scribbled over and compared across edits.'),
}
have = sys_have = None
import re, glob
src = ''.join(open(f).read() for f in glob.glob(os.path.join(V, 'harness/internal/props/*.go')))
have = set(re.findall(r"ID:\s*\"(C\d\d)\"", src))
checks = []
for i in sorted(T):
    if i not in have:
        continue
    t, n = T[i]
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                   'technique': t, 'level': LEVELS.get(i, 'exploration'), 'level_note': n})
na = [{'property': i, 'reason': 'not built yet'} for i in sorted(T) if i not in have]
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check rebuilds the harness against /repo; see DESIGN.md. No hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
