"""Method and limits of each check, for MANIFEST.json."""
N = 'Workload sizes are fixed per tier; every random choice derives from VERIF_SEED. '
T = {
 'C01': ('Runtime monitor: parsed footprints compared value by value with a reference model, under generated and sample files in varying styles', N + 'Held on every file generated in the run, not proved for all files.'),
 'C02': ('Runtime monitor: written text checked by an independent reader, re-read by the library and rewritten, under edit sequences', N + 'Explores edit sequences up to length 6.'),
 'C03': ('Runtime monitor: parsed boards compared value by value with a reference model, under generated and sample files in varying styles', N + 'Held on every file generated in the run, not proved for all files.'),
 'C04': ('Runtime monitor: written text checked by an independent reader, re-read by the library and rewritten, under edit sequences', N + 'Explores edit sequences up to length 6.'),
 'C05': ('Runtime monitor: parsed schematics compared value by value with a reference model, under generated and sample files', N + 'Held on every file generated in the run, not proved for all files.'),
 'C06': ('Runtime monitor: written text checked by an independent reader, re-read by the library and rewritten, under edit sequences', N + 'Explores edit sequences up to length 6.'),
 'C07': ('Runtime monitor: parsed symbol libraries compared value by value with a reference model, under generated and sample files', N + 'Held on every file generated in the run, not proved for all files.'),
 'C08': ('Runtime monitor: written text checked by an independent reader, re-read by the library and rewritten, under edit sequences', N + 'Explores edit sequences up to length 6.'),
 'C09': ('Runtime monitor: tables compared with a reference model, URI expansion compared with an independent expansion under varying environments', N + 'Held on every table and environment generated in the run.'),
 'C10': ('Crash and hang sanitizing: supervised worker processes with overflow checks, stack, memory and CPU limits under hostile texts', N + 'A hang is more than 120 s of CPU time on one small input; inputs are bounded in size.'),
 'C11': ('Runtime monitor: readers observed on real files of every kind, damaged, renamed, missing and unreadable ones', N + 'Held on every file generated in the run.'),
 'C12': ('Fault injection at the file system (full device, size limit, missing directory, directory in place of the file, read-only) with content monitors', N + 'Faults are those that can be injected without special privileges.'),
 'C13': ('Runtime monitor: uninterpreted content traced by value and position through parse, edit and write', N + 'Held on every content generated in the run.'),
 'C14': ('Runtime monitor: token streams of the text at many indentation levels compared', N + 'Indentation levels up to 64 and some large and negative ones.'),
 'C15': ('Runtime monitor: boards before and after renames compared with a reference rename', N + 'Explores rename sequences up to length 6.'),
 'C16': ('Runtime monitor: boards and elements before and after moves compared with a reference translation', N + 'Coordinates of ordinary magnitude, relative tolerance 1e-9.'),
 'C17': ('Runtime monitor: bounding boxes compared with an independent computation from the counted points', N + 'Coordinates of ordinary magnitude, relative tolerance 1e-9.'),
 'C18': ('Runtime monitor: elements before and after flips and rotations compared with reference transformations', N + 'Rotation angles within one turn.'),
 'C19': ('Runtime monitor: findings compared as a multiset with a reference rule evaluation', N + 'Findings are compared by section, rule and advice mark.'),
 'C20': ('Runtime monitor: fixed footprints checked by the reference rules, compared with the original and fixed again', N + 'Held on every footprint generated in the run.'),
 'C21': ('Runtime monitor: findings compared as a multiset with a reference rule evaluation', N + 'Findings are compared by section, rule and advice mark.'),
 'C22': ('Runtime monitor: model-based histories of component edits compared with a reference model after each step', N + 'Explores histories up to 12 steps.'),
 'C23': ('Runtime monitor: generated trees and graphs of sheet files, faults injected, collected components compared with a reference traversal', N + 'Up to 5 files per hierarchy.'),
 'C24': ('Runtime monitor: results on fresh state compared with results after histories and under concurrent threads with injected delays', N + 'Interleavings are sampled by stress, not enumerated.'),
 'C25': ('Runtime monitor: real tool processes observed (status, output, input file) against the library on the same file', N + 'Held on every file generated in the run.'),
 'C26': ('Runtime monitor: model-based histories of lookups and edits compared with a reference model after each step', N + 'Explores histories up to 12 steps.'),
 'C27': ('Runtime monitor: single damages injected into valid files, acceptance observed', N + 'Damages are sampled over all places of the generated files.'),
 'C28': ('Runtime monitor: answers and histories of renames compared with a reference model of the library', N + 'Explores histories up to 4 renames.'),
 'C29': ('Runtime monitor: comparisons of pairs differing in single values judged against a reference comparison', N + 'Held on every pair generated in the run.'),
 'C30': ('Runtime monitor: models assembled through the public interface, their text checked by an independent reader and against the text of the parsed twin', N + 'Component rotation can only come from a file and stays at its default.'),
 'C31': ('Allocation sanitizer: counting allocator measures each operation on a document and on one with 16 times the items in one list', N + 'Sizes are 256 and 4096 items; growth up to 2.8 times the proportion is accepted.'),
 'C32': ('Runtime monitor: item spans of the written text located by an independent tokenizer and compared across a change', N + 'One change per document.'),
 'C33': ('Trace checker: records captured by an installed logger compared with those expected of the tree of findings', N + 'Trees up to 28 groups deep.'),
 'C34': ('Fault injection and damage with monitors on the error value, its text and the captured standard output', N + 'Faults are those that can be injected without special privileges.'),
 'C35': ('Runtime monitor: single alterations of valid files (part left out, part added, keyword unknown), acceptance observed', N + 'Alterations are sampled over all places of the generated files.'),
 'C36': ('Runtime monitor: every written text compared character by character with an own layout of the observed content', N + 'Uninterpreted board expressions are left out, since their layout is free.'),
 'C37': ('Runtime monitor: the tokens of every written text, with their quotes, compared one by one with the canonical tokens of the observed content', N + 'Texts with line breaks or quotes are outside the domain.'),
 'C38': ('Instrumented execution under callgrind: instructions of every operation counted at two lengths of a list and their ratio judged', N + 'One list grows at a time, from 512 to 4096 items.'),
}
